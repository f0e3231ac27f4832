"""Builders of symbolic inputs shared by the property modules.  Objects of the
code under contract are always made by the code's own constructors."""
from vk.kit import *
from dv import loops


def curve(E, kind, name, *key):
    """a real curve object (symbolic table of any size >= 1) whose evaluation is
    replaced by its contract: some function of strain (C06 states which)"""
    site = E.mod("site")
    key = tuple(term_of(k) for k in key)
    m = fn(name + "_n", *key, sort="I") if key else E.int(name + "_n", 1)
    E.c.assume(tm.le(tm.ONE, term_of(m)))
    cls = site.ModulusReductionCurve if kind == "mod_reduc" else site.DampingCurve
    mk = lambda t: Arr((term_of(m),), lambda i: tm.app(name + t, key + (i,), "R"))  # noqa: E731
    c = cls(name, mk("_x"), mk("_y"))
    c.dv_key = tuple(wrap(k) for k in key)
    return c


def curve_contract(E):
    def call(self, strains):
        key = tuple(term_of(k) for k in self.dv_key)
        if isinstance(strains, Arr):
            return Arr(strains.shape, lambda *ix: tm.app(self.name, key + (strains.at(*ix),), "R"), "R")
        return wrap(tm.app(self.name, key + (term_of(strains),), "R"))
    E.stub("site.NonlinearCurve.__call__", call)


def build(E, n, f, label="input"):
    """list of n objects, the k-th made by f(k) (f runs the real constructor)"""
    if isinstance(n, int):
        return SList([f(Sym(tm.const(k))) for k in range(n)])
    r = loops.map_result(E.I, term_of(n), lambda k: ("val", f(wrap(k))), label)
    return SList.symbolic(r)


def fn(name, *ix, sort="R"):
    return wrap(tm.app(name, tuple(term_of(i) for i in ix), sort))


def soil(E, k, kind="linear", p=""):
    """soil type of layer k: kind linear (no curves), nonlinear (curves)"""
    site = E.mod("site")
    if kind == "linear":
        return site.SoilType("soil", fn(p + "uw", k), None, fn(p + "D", k))
    return site.SoilType("soil", fn(p + "uw", k), curve(E, "mod_reduc", p + "mr", k), curve(E, "damping", p + "dp", k))


def layer(E, k, kind="linear", p=""):
    return E.mod("site").Layer(soil(E, k, kind, p), fn(p + "th", k), fn(p + "vs", k), fn(p + "dm", k))


def facts(E, n, p=""):
    """positive unit weights, thicknesses, velocities; non-negative damping"""
    E.assume(E.all(n, lambda k: AND(LT(0, fn(p + "uw", k)), LT(0, fn(p + "th", k)), LT(0, fn(p + "vs", k)), LE(0, fn(p + "dm", k)))))


def profile(E, n, kind="linear", wt=0, p=""):
    facts(E, n, p)
    return E.mod("site").Profile(build(E, n, lambda k: layer(E, k, kind, p)), wt)

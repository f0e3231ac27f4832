"""C13  automatic discretisation refines without changing the profile

The list of layers handed to the new profile is a sequence of blocks, one per
original layer, and the half-space; depths follow from the constructor (C10)."""
from props.lib import *
from props.frame import Frame
from props.c10 import th, uw
from props.c12 import vs
from dv.seq import NestedSeq, MapSeq, ConcatSeq

_A = "site.Profile.auto_discretize"


def mixed(E):
    """a profile of linear and nonlinear layers in any order, carrying strains of a run"""
    n = E.int("n", 2)
    facts(E, n)
    E.assume(E.all(n, lambda k: AND(LT(0, fn("strain", k)), LE(1, fn("mr_n", k, sort="I")), LE(1, fn("dp_n", k, sort="I")))))

    def one(k):
        y = layer(E, k, "nonlinear")
        y.strain = fn("strain", k)
        y.strain_max = fn("smax", k)
        return y
    curve_contract(E)
    P = E.mod("site").Profile(build(E, n, one), E.real("wt"))
    # contract of is_nonlinear: unit nonlinearity
    E.stub("site.SoilType.is_nonlinear", lambda self: wrap(tm.app("nonlin", tuple(term_of(k) for k in self.mod_reduc.dv_key), "B")))
    return n, P


class Blocks:
    """view of a list of layers: blocks of a symbolic number of original layers, then single ones"""

    def __init__(self, E, seq):
        s = E.I.seq(seq)
        parts = s.parts if isinstance(s, ConcatSeq) else [s]
        parts = [p for p in parts if not (isinstance(p, list) and not p)]
        sym = [p for p in parts if not isinstance(p, list)]
        if len(sym) != 1 or parts[0] is not sym[0] or len(parts) > 2:
            raise Unsupported("layers are not blocks followed by the half-space")
        self.seq = sym[0]
        self.tail = parts[1] if len(parts) == 2 else []
        if not isinstance(self.seq, (NestedSeq, MapSeq)):
            raise Unsupported("layers of the new profile")
        self.nested = isinstance(self.seq, NestedSeq)
        self.n = wrap(self.seq.n)

    def count(self, k):
        return wrap(self.seq.count(term_of(k))) if self.nested else num(1)

    def at(self, k, r):
        return self.seq.fn(term_of(k), term_of(r)) if self.nested else self.seq.at(term_of(k))


@unit("C13", "nonlinearity", ["site.SoilType.is_nonlinear"])
def _n(E):
    site = E.mod("site")
    curve_contract(E)
    g, d = curve(E, "mod_reduc", "g"), curve(E, "damping", "d")
    u, c = E.real("u", 0), E.real("c")
    E.prove("two curves", bool(site.SoilType("s", u, g, d).is_nonlinear))
    E.prove("modulus curve only", bool(site.SoilType("s", u, g, c).is_nonlinear))
    E.prove("damping curve only", bool(site.SoilType("s", u, None, d).is_nonlinear))
    E.prove("no curves", not site.SoilType("s", u, None, c).is_nonlinear)


def split(mode):
    def u(E):
        n, P = mixed(E)
        N = n - 1
        k = E.index("k", N)
        f = Frame(E, P, n, k)
        mf, wf = (num(50.0), num(0.2)) if mode == "documented defaults" else (E.real("max_freq", 0), E.real("wave_frac", 0))
        got = []
        E.stub("site.Profile.__init__", lambda self, layers=None, wt_depth=0: (got.append((layers, wt_depth)), setattr(self, "layers", layers), setattr(self, "wt_depth", wt_depth))[0])
        kw = {"all": {"nonlinear_only": False}, "nonlinear only": {"nonlinear_only": True}, "default": {}, "documented defaults": {}}[mode]
        Q = P.auto_discretize() if mode == "documented defaults" else P.auto_discretize(mf, wf, **kw)
        E.prove("one new profile", len(got) == 1 and Q is not P)
        E.eq("water table", got[0][1], E.real("wt"))
        B = Blocks(E, got[0][0])
        E.eq("one block for each layer", B.n, N)
        E.prove("then the half-space", len(B.tail) == 1)
        h = B.tail[0]
        E.eq("half-space velocity", h.initial_shear_vel, vs(N))
        E.eq("half-space damping", h.damping_min, fn("dm", N))
        E.prove("half-space soil type", SAME(h.soil_type, P[N].soil_type))
        E.prove("half-space is not the original", NOT(SAME(h, P[N])))
        c = B.count(k)
        E.prove("at least one sublayer", LE(1, c))
        r = E.index("r", c)
        y = B.at(k, r)
        t = y.thickness
        opt = vs(k) / mf * wf
        picked = True if mode == "all" else wrap(tm.app("nonlin", (term_of(k),), "B"))
        E.prove("no thicker than the limit", IMP(picked, LE(t, opt)))
        E.prove("fewer would be too thick", IMP(picked, OR(EQ(c, 1), LT(opt * (c - 1), th(k)))))
        if mode != "all":
            E.prove("others are kept whole", IMP(NOT(picked), EQ(c, 1)))
        E.eq("equal parts of the layer", t * c, th(k))
        E.eq("block thickness", E.sum(c, lambda r: B.at(k, r).thickness), th(k))
        E.eq("block travel time", E.sum(c, lambda r: B.at(k, r).travel_time), th(k) / vs(k))
        E.prove("soil type", SAME(y.soil_type, P[k].soil_type))
        E.eq("initial velocity", y.initial_shear_vel, vs(k))
        E.eq("minimum damping", y.damping_min, fn("dm", k))
        E.eq("undisturbed velocity", y.shear_vel, y.initial_shear_vel)
        E.prove("layers of its own", NOT(SAME(y, P[k])))
        f.check()
        E.reach()
    unit("C13", "split " + mode, [_A, "site.Layer.copy", "site.Layer.__init__"])(u)


for _m in ("all", "nonlinear only", "default", "documented defaults"):
    split(_m)

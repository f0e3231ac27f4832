"""C09  Kishida et al. organic soils"""
from props.lib import *

_K = "site.KishidaSoilType."
_F = [_K + k for k in ("__init__", "_calc_strain_ref", "_calc_mod_reduc", "_calc_damping", "_calc_unit_wt")]


def spec(sv, oc, lcr):
    """regressions with strains in percent; returns reference strain, density, ln G, damping of a modulus"""
    x3 = 2 / (1 + exp(oc / 23))
    x2 = log(sv)
    x4 = log(lcr)
    gr = exp(num(-1.41) - num(0.95) * (x3 - num(0.5)))
    den = exp(num(-0.112) + num(0.038) * x2 + num(0.36) * x3)

    def lng(g):
        x1 = log(g + gr)
        d = log(1 / gr + g / gr)
        w = 1 + (log(gr) + num(2.5)) / d
        a, b, c = x1 + num(2.5), x2 - 4, x3 - num(0.5)
        k = num(0.37)
        return (num(5.11) - num(0.729) * x1 + (1 - k * num(0.5) * w) * x2 - num(0.693) * x3 + (num(0.8) - num(0.4) * x3) * x4
                + k * num(0.5) / d * a * b - k * w * b * c + k / d * a * b * c)

    def damp(mr):
        x1 = log(log(1 / mr) + num(0.103))
        return exp(num(2.86) + num(0.571) * x1 - num(0.103) * x2 - num(0.141) * x3 + num(0.0419) * (x1 + 1) * (x2 - 4)
                   - num(0.24) * (x2 - 4) * (x3 - num(0.5))) / 100
    return gr, den, lng, damp


def _go(default_strains, given_weight, defaults):
    def u(E):
        site = E.mod("site")
        kw = {}
        if defaults:
            sv, oc, lcr = num(101.3), num(10.0), num(1.0)
        else:
            sv, oc, lcr = E.real("sv", 0), E.real("oc", 0), E.real("lcr", 0)
            kw.update(stress_vert=sv, organic_content=oc, lab_consol_ratio=lcr)
        if given_weight:
            kw["unit_wt"] = E.real("uw", 0)
        if default_strains:
            n, st = 20, Arr((20,), lambda i: tm.pow_(tm.const(10), tm.add(tm.const(-6), tm.mul(tm.const(4.5), tm.div(tm.to_real(i), tm.const(19))))), "R")
        else:
            n = E.int("n", 1)
            st = E.arr("g", n)
            E.assume(E.all(n, lambda i: LT(0, E.at(st, i))))
            kw["strains"] = st
        i = E.index("i", n)
        o = site.KishidaSoilType("x", **kw)
        gr, den, lng, damp = spec(sv, oc, lcr)
        g = lambda k: 100 * E.at(st, k)     # noqa: E731
        E.eq("strains", E.at(o.mod_reduc.strains, i), g(i) / 100)
        E.eq("strains of the damping", E.at(o.damping.strains, i), g(i) / 100)
        mr = E.at(o.mod_reduc.values, i)
        E.eq("modulus reduction", mr, exp(lng(g(i)) - lng(g(0))))
        E.eq("starts at one", E.at(o.mod_reduc.values, 0), 1)
        E.eq("damping", E.at(o.damping.values, i), damp(mr))
        E.eq("unit weight", o.unit_wt, kw["unit_wt"] if given_weight else den * num(9.80665))
        E.reach()
    return u


for _d in (0, 1):
    for _w in (0, 1):
        for _x in (0, 1):
            unit("C09", "kishida%s%s%s" % ("-default-strains" if _d else "", "-given-weight" if _w else "", "-defaults" if _x else ""), _F if not _w else [f for f in _F if "unit_wt" not in f])(_go(_d, _w, _x))

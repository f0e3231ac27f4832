"""C08  Wang & Stokoe, two-parameter and Alemu models"""
from props.lib import *
from props import wang

ATM = num(101.325)
GROUPS = list(wang.ORDER)
FN = {"gmax": "calc_shear_mod", "ggmax": "calc_mod_reduc", "dmin": "calc_damping_min", "damping": "calc_damping"}


def inputs(E, keys):
    kw, a = {}, {}
    for k in keys:
        # contents in percent may be zero
        kw[k] = E.real(k, 0, strict=k not in wang.PERCENT)
        v = kw[k] / ATM if k == "stress_mean" else kw[k] / 100 if k in wang.PERCENT else kw[k]
        a[wang.SHORT[k]] = v
    return kw, wang.eqs(num, exp, **a)


def strains(E):
    n = E.int("n", 1)
    st = E.arr("g", n)
    E.assume(E.all(n, lambda i: LT(0, E.at(st, i))))
    return n, st, E.index("i", n)


def _level(group, model, lvl):
    def u(E):
        W = E.mod("site").WangSoilType
        order = wang.ORDER[group][model]
        keys = order[:lvl + 1]
        # a property beyond the first missing one does not raise the level
        extra = order[lvl + 2:] + [k for k in wang.SHORT if k not in order]
        kw, Q = inputs(E, keys)
        q = Q[group, model][lvl]()
        kw = dict([(k, E.real(k, 0, strict=k not in wang.PERCENT)) for k in reversed(extra)] + [(k, kw[k]) for k in reversed(keys)])
        f = getattr(W, FN[model])
        if model == "gmax":
            E.eq("small-strain modulus", f(group, **kw), q)
        elif model == "dmin":
            E.eq("minimum damping", f(group, **kw), q / 100)
        else:
            n, st, i = strains(E)
            g = E.at(st, i)
            if model == "ggmax":
                a, b, gr = q
                v = f(st, group, **kw)
                E.eq("modulus reduction", E.at(v, i), 1 / (1 + (100 * g / gr) ** a) ** b)
                j = E.index("j", n)
                # shape, for a fresh generalisation of the parameters
                A, B, R = E.real("A", 0), E.real("B", 0), E.real("R", 0)
                h = lambda x: 1 / (1 + (100 * x / R) ** A) ** B     # noqa: E731
                E.prove("in (0,1]", AND(LT(0, h(g)), LE(h(g), 1)))
                E.prove("never increases", IMP(LE(g, E.at(st, j)), LE(h(E.at(st, j)), h(g))))
            else:
                c, d, gr = q
                dm = E.real("dm")
                r = (100 * g / gr) ** c
                E.eq("damping for a given minimum", E.at(f(st, group, dm, **kw), i), (d * r + 100 * dm) / (r + 1) / 100)
        E.reach()
    return u


for _g in GROUPS:
    for _m in FN:
        for _l in range(len(wang.ORDER[_g][_m])):
            unit("C08", "%s-%s-%d" % (_g, _m, _l), ["site.WangSoilType.%s" % FN[_m], "site.WangSoilType.get_level"])(_level(_g, _m, _l))


def _damping_own_min(group):
    def u(E):
        """damping without a given minimum uses the minimum-damping model of the same inputs"""
        W = E.mod("site").WangSoilType
        keys = list(wang.SHORT)
        kw, Q = inputs(E, keys)
        n, st, i = strains(E)
        c, d, gr = Q[group, "damping"][-1]()
        r = (100 * E.at(st, i) / gr) ** c
        dm = Q[group, "dmin"][-1]() / 100
        E.eq("damping", E.at(W.calc_damping(st, group, **kw), i), (d * r + 100 * dm) / (r + 1) / 100)
        E.reach()
    return u


def _soil(group, given, default):
    def u(E):
        """the soil type evaluates the models at the highest level"""
        W = E.mod("site").WangSoilType
        keys = list(wang.SHORT)
        kw, Q = inputs(E, keys)
        kk = dict(kw)
        if given:
            dm = E.real("dm")
            kk["damping_min"] = dm
        else:
            dm = Q[group, "dmin"][-1]() / 100
        if default:
            n = 20
            st = Arr((20,), lambda i: tm.pow_(tm.const(10), tm.add(tm.const(-6), tm.mul(tm.const(4.5), tm.div(tm.to_real(i), tm.const(19))))), "R")
            i = E.index("i", n)
        else:
            n, st, i = strains(E)
            kk["strains"] = st
        o = W(group, "x", num(17.0), **kk)
        g = E.at(st, i)
        a, b, gr = Q[group, "ggmax"][-1]()
        E.eq("strains", E.at(o.mod_reduc.strains, i), g)
        E.eq("strains of the damping", E.at(o.damping.strains, i), g)
        E.eq("modulus reduction", E.at(o.mod_reduc.values, i), 1 / (1 + (100 * g / gr) ** a) ** b)
        c, d, gr = Q[group, "damping"][-1]()
        r = (100 * g / gr) ** c
        E.eq("damping", E.at(o.damping.values, i), (d * r + 100 * dm) / (r + 1) / 100)
        E.eq("unit weight", o.unit_wt, num(17.0))
        E.reach()
    return u


for _g in GROUPS:
    unit("C08", "own-minimum-" + _g, ["site.WangSoilType.calc_damping", "site.WangSoilType.calc_damping_min"])(_damping_own_min(_g))
    for _d in (False, True):
        for _x in (False, True):
            unit("C08", "soil-%s%s%s" % (_g, "-given-minimum" if _d else "", "-default-strains" if _x else ""), ["site.WangSoilType.__init__", "site.WangSoilType.params"])(_soil(_g, _d, _x))


@unit("C08", "rejections", ["site.WangSoilType.__init__"])
def _rej(E):
    W = E.mod("site").WangSoilType
    s, e = E.real("s", 0), E.real("e", 0)
    E.raises(lambda: W("clayey_soil", "x", void_ratio=e), "mean stress is required", ValueError)
    for f in ("calc_shear_mod", "calc_damping_min"):
        E.raises(lambda: getattr(W, f)("rock", stress_mean=s), "unknown group " + f, ValueError, KeyError)
    E.reach()


def _two(coeffs, default):
    def u(E):
        site = E.mod("site")
        names = ("a", "b1", "b2", "g1", "g2", "d0", "d1", "d", "c", "gd1", "gd2")
        if coeffs:
            C = {k: E.real("C" + k) for k in names}
            for k in ("g1", "gd1"):
                E.assume(LT(0, C[k]))
            co = site.TwoParamModifiedHyperbolicCoeffs(*[C[k] for k in names])
        else:
            C = dict(zip(names, [num(v) for v in (1.04, 0.438, -0.007, 0.011, 0.318, 1.47, -0.2, 13.125, 1.187, 0.11, 0.23)]))
            co = None
        s = E.real("stress", 0)
        if default:
            n, st = 20, Arr((20,), lambda i: tm.pow_(tm.const(10), tm.add(tm.const(-6), tm.mul(tm.const(4.5), tm.div(tm.to_real(i), tm.const(19))))), "R")
            i = E.index("i", n)
            o = site.TwoParamModifiedHyperbolicSoilType("x", num(18.0), s, coeffs=co)
        else:
            n, st, i = strains(E)
            o = site.TwoParamModifiedHyperbolicSoilType("x", num(18.0), s, st, co)
        g = E.at(st, i)
        p = s / ATM
        gr = C["g1"] * p ** C["g2"] / 100
        E.eq("strains", E.at(o.mod_reduc.strains, i), g)
        E.eq("strains of the damping", E.at(o.damping.strains, i), g)
        E.eq("modulus reduction", E.at(o.mod_reduc.values, i), 1 / (1 + (g / gr) ** C["a"]) ** (C["b1"] + C["b2"] * p))
        t = (g / (C["gd1"] * p ** C["gd2"] / 100)) ** C["c"]
        E.eq("damping", E.at(o.damping.values, i), (C["d"] * t + C["d0"] * p ** C["d1"]) / (t + 1) / 100)
        E.eq("unit weight", o.unit_wt, num(18.0))
        E.reach()
    return u


_F2 = ["site.TwoParamModifiedHyperbolicSoilType.__init__"]
unit("C08", "two-parameter", _F2)(_two(False, False))
unit("C08", "two-parameter-coefficients", _F2)(_two(True, False))
unit("C08", "two-parameter-default-strains", _F2)(_two(False, True))


def _alemu(name, default):
    def u(E):
        site = E.mod("site")
        s, pi, ocr, fc = E.real("stress", 0), E.real("PI", 0), E.real("OCR", 0), E.real("FC", 0)
        kw = {}
        if default:
            n, st = 20, Arr((20,), lambda i: tm.pow_(tm.const(10), tm.add(tm.const(-6), tm.mul(tm.const(4.5), tm.div(tm.to_real(i), tm.const(19))))), "R")
            i = E.index("i", n)
        else:
            n, st, i = strains(E)
            kw["strains"] = st
        o = site.AlemuEtAlSoilType(num(18.0), name, plas_index=pi, ocr=ocr, stress_mean=s, fines_cont=fc, **kw)
        g, p = E.at(st, i), s / ATM
        gm = (num(0.166) * ocr ** num(-1.678) * p ** num(0.196) + num(0.025) * (pi + 1) ** num(0.675)) / 100
        E.eq("strains", E.at(o.mod_reduc.strains, i), g)
        E.eq("strains of the damping", E.at(o.damping.strains, i), g)
        E.eq("modulus reduction", E.at(o.mod_reduc.values, i), 1 / (1 + (g / gm) ** num(0.905)) ** num(1.373))
        dm = (num(0.000364) * ocr * (pi + 1) + num(0.012) * fc) / p
        gd = (ocr ** num(-0.381) * p ** num(0.853) + num(0.021) * pi) ** num(1.249) / 100
        r = g / gd
        E.eq("damping", E.at(o.damping.values, i), dm + num(29.805) / 100 * r / (1 + r) ** num(0.68))
        j = E.index("j", n)
        R = E.real("R", 0)
        h = lambda x: 1 / (1 + (x / R) ** num(0.905)) ** num(1.373)     # noqa: E731
        E.prove("in (0,1]", AND(LT(0, h(g)), LE(h(g), 1)))
        E.prove("never increases", IMP(LE(g, E.at(st, j)), LE(h(E.at(st, j)), h(g))))
        E.reach()
    return u


for _n in ("x", ""):
    for _x in (False, True):
        unit("C08", "alemu%s%s" % ("" if _n else "-default-name", "-default-strains" if _x else ""), ["site.AlemuEtAlSoilType.__init__"])(_alemu(_n, _x))

"""C07  Darendeli, Menq and Rollins curves"""
from props.lib import *

_B = ["site.ModifiedHyperbolicSoilType.__init__"]
ATM = num(101.325)
LN10 = log(num(10.0))


def model(E, kind, dmin, strains, name="x", uc=True):
    """(soil, strain_ref, curvature, masing scaling, minimum damping)"""
    site = E.mod("site")
    s = E.real("stress", 0)
    N = E.real("N", 0)
    kw = {} if dmin is None else {"damping_min": dmin}
    if strains is not None:
        kw["strains"] = strains
    if kind == "darendeli":
        pi, ocr, f = E.real("PI"), E.real("OCR", 0), E.real("freq", 0)
        E.assume(LE(0, pi))
        o = site.DarendeliSoilType(num(18.0), name, plas_index=pi, ocr=ocr, stress_mean=s, freq=f, num_cycles=N, **kw)
        gr = (num(0.0352) + num(0.001) * pi * ocr ** num(0.3246)) * (s / ATM) ** num(0.3483) / 100
        d0 = (num(0.8005) + num(0.0129) * pi * ocr ** num(-0.1069)) * (s / ATM) ** num(-0.2889) * (1 + num(0.2919) * log(f)) / 100
        return o, gr, num(0.919), num(0.6329) - num(0.00566) * log(N), d0
    if kind == "menq":
        cu, d50 = E.real("Cu", 0), E.real("D50", 0)
        o = site.MenqSoilType(name, num(18.0), coef_unif=cu, diam_mean=d50, stress_mean=s, num_cycles=N, **kw)
        gr = num(0.12) * cu ** num(-0.6) * (s / ATM) ** (num(0.5) * cu ** num(-0.15)) / 100
        d0 = num(0.55) * cu ** num(0.1) * d50 ** num(-0.3) * (s / ATM) ** num(-0.08) / 100
        return o, gr, num(0.86) + num(0.1) * log(s / ATM) / LN10, num(0.6329) - num(0.00566) * log(N), d0
    cu = E.real("Cu", 0) if uc else None
    o = site.RollinsEtAlSoilType(num(18.0), name, stress_mean=s, coef_unif=cu, num_cycles=N, **kw)
    gr = num(0.0046) * cu ** num(-0.197) * s ** num(0.52) / 100 if uc else num(0.0039) * s ** num(0.42) / 100
    return o, gr, num(0.84), num(0.53) - num(0.0057) * log(N), num(0.01)


def masing(g, gr, a):
    """Masing damping (percent) corrected for the curvature"""
    a1 = 100 / PI * (4 * (g - gr * log((g + gr) / gr)) / (g ** 2 / (g + gr)) - 2)
    c1 = num(-1.1143) * a ** 2 + num(1.8618) * a + num(0.2523)
    c2 = num(0.0805) * a ** 2 - num(0.071) * a - num(0.0095)
    c3 = num(-0.0005) * a ** 2 + num(0.0002) * a + num(0.0003)
    return c1 * a1 + c2 * a1 ** 2 + c3 * a1 ** 3


def _strains(E, default):
    if default:
        return 20, Arr((20,), lambda i: tm.pow_(tm.const(10), tm.add(tm.const(-6), tm.mul(tm.const(4.5), tm.div(tm.to_real(i), tm.const(19))))), "R"), None
    n = E.int("n", 1)
    st = E.arr("g", n)
    E.assume(E.all(n, lambda i: LT(0, E.at(st, i))))
    return n, st, st


def _params(kind, dm, name="x", uc=True, default=False):
    def u(E):
        """model parameters, modulus reduction, smallest-strain damping"""
        n, st, strains = _strains(E, default)
        dmin = E.real("dm") if dm == "given" else None
        o, gr, a, b, d0 = model(E, kind, dmin, strains, name, uc)
        i = E.index("i", n)
        E.eq("reference strain", o.strain_ref, gr)
        E.eq("curvature", o.curvature, a)
        E.eq("masing scaling", o.masing_scaling, b)
        x, mr = o.mod_reduc.strains, o.mod_reduc.values
        E.eq("number of strains", x.shape[0], n)
        E.eq("curves share the strains", E.at(x, i), E.at(st, i))
        E.eq("curves share the strains (damping)", E.at(o.damping.strains, i), E.at(st, i))
        E.eq("modulus reduction", E.at(mr, i), 1 / (1 + (E.at(st, i) / gr) ** a))
        E.eq("unit weight", o.unit_wt, num(18.0))
        E.reach()
    return u


_CLS = {"darendeli": "DarendeliSoilType", "menq": "MenqSoilType", "rollins": "RollinsEtAlSoilType"}


def _curves(kind, dm):
    def u(E):
        """damping of the common equations for arbitrary model parameters"""
        n, st, strains = _strains(E, False)
        c = "site.%s." % _CLS[kind]
        gr, a, b = E.real("gr", 0), E.real("a", 0), E.real("b", 0)
        E.stub(c + "strain_ref", lambda self: gr)
        E.stub(c + "curvature", lambda self: a)
        E.stub(c + "masing_scaling", lambda self: b)
        nf = E.int("nf", 1) if dm == "per frequency" else None
        dmin = {"default": None, "given": E.real("dm"), "per frequency": E.arr("dmf", nf) if nf is not None else None}[dm]
        o, _, _, _, d0 = model(E, kind, dmin, strains)
        j = E.index("j", nf) if nf is not None else None
        d0 = dmin if dm == "given" else E.at(dmin, j) if nf is not None else d0
        i = E.index("i", n)
        g = lambda k: E.at(st, k)                       # noqa: E731
        MR = lambda k: 1 / (1 + (g(k) / gr) ** a)       # noqa: E731
        E.eq("modulus reduction", E.at(o.mod_reduc.values, i), MR(i))
        D = lambda k: b * masing(g(k), gr, a) * MR(k) ** num(0.1) / 100        # noqa: E731
        dp = o.damping.values
        E.eq("damping", E.at(dp, i, j) if j is not None else E.at(dp, i), d0 + E.max(i + 1, D))
        if nf is not None:
            E.eq("one column per frequency", dp.shape[1], nf)
        E.reach()
    return u


for _k, _c in _CLS.items():
    _f = ["site.%s.%s" % (_c, m) for m in ("__init__", "masing_scaling", "curvature", "strain_ref")]
    _m = ["site.%s._calc_damping_min" % _c] if _k != "rollins" else []
    for _d in ("default", "given"):
        unit("C07", "%s-parameters-%s" % (_k, _d), _f)(_params(_k, _d))
    for _d in ("default", "given", "per frequency"):
        unit("C07", "%s-curves-%s" % (_k, _d.replace(" ", "-")), _B + (_m if _d == "default" else []))(_curves(_k, _d))
    unit("C07", "%s-default-strains" % _k, _f)(_params(_k, "default", default=True))
    unit("C07", "%s-default-name" % _k, _f)(_params(_k, "default", name=""))
unit("C07", "rollins-no-uniformity", _f)(_params("rollins", "default", uc=False))


@unit("C07", "shape-modulus", _B)
def _shape(E):
    """modulus reduction in (0,1], never increasing with strain (any positive reference strain and curvature)"""
    site = E.mod("site")
    gr, a, b, dm = E.real("gr", 0), E.real("a", 0), E.real("b", 0), E.real("dm")
    cls = type("Any", (site.ModifiedHyperbolicSoilType,), {"strain_ref": gr, "curvature": a, "masing_scaling": b})
    n = E.int("n", 1)
    st = E.arr("g", n)
    E.assume(E.all(n, lambda i: LT(0, E.at(st, i))))
    o = cls("x", num(18.0), dm, st)
    i, j = E.index("i", n), E.index("j", n)
    mr, dp = o.mod_reduc.values, o.damping.values
    E.prove("modulus reduction positive", LT(0, E.at(mr, i)))
    E.prove("modulus reduction at most one", LE(E.at(mr, i), 1))
    E.prove("modulus reduction never increases", IMP(LE(E.at(st, i), E.at(st, j)), LE(E.at(mr, j), E.at(mr, i))))
    E.prove("damping never decreases along the table", IMP(LE(i, j), LE(E.at(dp, i), E.at(dp, j))))
    E.reach()


def _a1(g, gr):
    return 100 / PI * (4 * (g - gr * log((g + gr) / gr)) / (g ** 2 / (g + gr)) - 2)


@unit("C07", "shape-damping", _B)
def _dshape(E):
    """damping never falls below its minimum (curvature between 0.6 and 1.2, non-negative scaling)"""
    site = E.mod("site")
    gr, a, b, dm = E.real("gr", 0), E.real("a", num(0.6), num(1.2)), E.real("b", 0), E.real("dm")
    cls = type("Any", (site.ModifiedHyperbolicSoilType,), {"strain_ref": gr, "curvature": a, "masing_scaling": b})
    n = E.int("n", 1)
    st = E.arr("g", n)
    g = lambda k: E.at(st, k)               # noqa: E731
    E.assume(E.all(n, lambda i: LT(0, g(i))))
    o = cls("x", num(18.0), dm, st)
    i, k = E.index("i", n), E.index("k", n)
    # the Masing damping lies between 0 and 200/pi percent:  1-1/t <= log t <= (t-1/t)/2  for t >= 1
    t = E.real("t", 1)
    E.c.assumed.add("log t <= (t - 1/t)/2 for t >= 1 (lemmas/Lemmas.lean: log_le_half)")
    L = log(t)
    m = (4 * (t - 1 - L) * t / (t - 1) ** 2 - 2)
    h1 = LE(L, (t - 1 / t) / 2)
    h2 = LE(1 - 1 / t, L)
    E.prove("Masing damping not negative", IMP(h1, LE(0, m)))
    E.prove("Masing damping bounded", IMP(h2, LE(m, 2)))
    x = E.real("x", 0)
    E.eq("Masing damping in terms of the strain ratio", _a1(x, gr), 100 / PI * (4 * ((x / gr + 1) - 1 - log(x / gr + 1)) * (x / gr + 1) / ((x / gr + 1) - 1) ** 2 - 2))
    c1 = num(-1.1143) * a ** 2 + num(1.8618) * a + num(0.2523)
    c2 = num(0.0805) * a ** 2 - num(0.071) * a - num(0.0095)
    c3 = num(-0.0005) * a ** 2 + num(0.0002) * a + num(0.0003)
    y = E.real("y")
    E.assume(AND(LE(0, y), LE(y, 200 / PI)))
    E.prove("corrected Masing damping not negative", LE(0, c1 * y + c2 * y ** 2 + c3 * y ** 3))
    w, z = E.real("w"), E.real("z", 0)
    E.prove("scaled damping not negative", IMP(LE(0, w), LE(0, b * w * z ** num(0.1) / 100)))
    D = lambda k: b * masing(g(k), gr, a) * (1 / (1 + (g(k) / gr) ** a)) ** num(0.1) / 100        # noqa: E731
    v = E.at(o.damping.values, i)
    E.eq("damping", v, dm + E.max(i + 1, D))
    E.prove("not below the first", IMP(LE(0, D(0)), LE(dm, dm + E.max(i + 1, D))))
    E.reach()


_DOC = {"darendeli": dict(unit_wt=0.0, plas_index=0, ocr=1, stress_mean=101.3, freq=1, num_cycles=10),
        "menq": dict(unit_wt=0.0, coef_unif=10, diam_mean=5, stress_mean=101.3, num_cycles=10),
        "rollins": dict(unit_wt=0.0, stress_mean=101.3, num_cycles=10)}


def _defaults(kind):
    def u(E):
        """what is not given has its documented value"""
        cls = getattr(E.mod("site"), _CLS[kind])
        n = E.int("n", 1)
        st = E.arr("g", n)
        E.assume(E.all(n, lambda i: LT(0, E.at(st, i))))
        a, b = cls(strains=st), cls(strains=st, **{k: num(v) for k, v in _DOC[kind].items()})
        i = E.index("i", n)
        for w in ("unit_wt", "strain_ref", "curvature", "masing_scaling"):
            E.eq(w, getattr(a, w), getattr(b, w))
        E.eq("modulus reduction", E.at(a.mod_reduc.values, i), E.at(b.mod_reduc.values, i))
        E.eq("damping", E.at(a.damping.values, i), E.at(b.damping.values, i))
        E.reach()
    return u


for _k, _c in _CLS.items():
    unit("C07", _k + "-documented-defaults", ["site.%s.__init__" % _c])(_defaults(_k))

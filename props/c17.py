"""C17  curve variation: model, limits, variates, percentiles"""
from props.lib import *

_S = "variation.SoilTypeVariation."
_N = "variation.TruncatedNorm."


@unit("C17", "darendeli-deviations", ["variation.DarendeliVariation.calc_std_mod_reduc", "variation.DarendeliVariation.calc_std_damping"])
def _dar(E):
    V = E.mod("variation")
    n = E.int("n", 1)
    x = E.arr("x", n)
    i = E.index("i", n)
    E.assume(E.all(n, lambda k: AND(LE(0, E.at(x, k)), LE(E.at(x, k), 1))))
    g = E.at(x, i)
    E.eq("modulus reduction", E.at(V.DarendeliVariation.calc_std_mod_reduc(x), i), exp(num(-4.23)) + sqrt(num(0.25) / exp(num(3.62)) - (g - num(0.5)) ** 2 / exp(num(3.62))))
    E.eq("damping", E.at(V.DarendeliVariation.calc_std_damping(x), i), (exp(-5) + exp(num(-0.25)) * sqrt(100 * g)) / 100)
    s = E.real("s", 0, 1)
    E.eq("damping of a constant", V.DarendeliVariation.calc_std_damping(s), (exp(-5) + exp(num(-0.25)) * sqrt(100 * s)) / 100)
    E.reach()


def variates(E):
    r = (E.real("r0"), E.real("r1"))
    from dv.npshim import asarray
    return r, asarray(list(r))


@unit("C17", "darendeli-perturbation", ["variation.DarendeliVariation._get_varied"])
def _darv(E):
    V = E.mod("variation")
    n, m = E.int("n", 1), E.int("m", 1)
    g, d = E.arr("g", n), E.arr("d", m)
    i, j = E.index("i", n), E.index("j", m)
    E.stub("variation.DarendeliVariation.calc_std_mod_reduc", lambda x: x.map(lambda t: tm.app("sdG", (t,))))
    E.stub("variation.DarendeliVariation.calc_std_damping", lambda x: x.map(lambda t: tm.app("sdD", (t,))))
    (r0, r1), r = variates(E)
    G, D = V.DarendeliVariation(E.real("rho"))._get_varied(r, g, d)
    E.eq("modulus reduction: mean plus variate times deviation", E.at(G, i), E.at(g, i) + r0 * fn("sdG", E.at(g, i)))
    E.eq("damping: mean plus variate times deviation", E.at(D, j), E.at(d, j) + r1 * fn("sdD", E.at(d, j)))
    E.reach()


@unit("C17", "spid-perturbation", ["variation.SpidVariation._get_varied", "variation.SpidVariation.__init__", "variation.SpidVariation.std_damping", "variation.SpidVariation.std_mod_reduc"])
def _spid(E):
    V = E.mod("variation")
    n, m = E.int("n", 1), E.int("m", 1)
    g, d = E.arr("g", n), E.arr("d", m)
    i, j = E.index("i", n), E.index("j", m)
    E.assume(E.all(n, lambda k: AND(LE(0, E.at(g, k)), LE(E.at(g, k), 1))))
    (r0, r1), r = variates(E)
    a, b = E.real("a", 0), E.real("b", 0)
    v = V.SpidVariation(E.real("rho"), std_mod_reduc=a, std_damping=b)
    G, D = v._get_varied(r, g, d)
    eps = num(2.220446049250313e-16)
    F = exp(2 * a * r0) * E.at(g, i) / (1 - E.at(g, i) + eps)
    E.eq("modulus reduction: odds scaled by the exponential of the variate", E.at(G, i), F / (1 + F))
    E.eq("damping scaled by the exponential of the variate", E.at(D, j), exp(b * r1) * E.at(d, j))
    w = V.SpidVariation(E.real("rho"))
    E.eq("default deviation of the modulus reduction", w.std_mod_reduc, num(0.15))
    E.eq("default deviation of the damping", w.std_damping, num(0.3))
    E.prove("default limits", list(w.limits_mod_reduc) == [0, 1])
    E.eq("default damping limit (low)", w.limits_damping[0], 0)
    E.eq("default damping limit (high)", w.limits_damping[1], num(0.15))
    E.reach()


def realise(kind, mode):
    def u(E):
        V, site = E.mod("variation"), E.mod("site")
        n, m, q = E.int("n", 1), E.int("m", 1), E.int("q", 1)
        G = site.ModulusReductionCurve("g", E.arr("gx", n), E.arr("gy", n))
        if kind == "curves":
            D = site.DampingCurve("d", E.arr("dx", m), E.arr("dy", m))
        else:
            D = E.real("D", 0)
        st = site.SoilType("soil", E.real("uw", 0), G, D)
        lo, hi, dl, dh = E.real("lo"), E.real("hi"), E.real("dl"), E.real("dh")
        E.assume(LE(lo, hi), LE(dl, dh))
        rho = E.real("rho")
        pct = [E.real("p%d" % k, 0, 1) for k in range(3)]
        v = V.DarendeliVariation(rho, [lo, hi], [dl, dh], sample_mode=mode, percentiles=pct if mode != "random" else None)
        E.prove("sampling mode", v.sample_mode == mode)
        got = []
        r0, r1 = E.real("r0"), E.real("r1")

        def draw(self, *a):
            from dv.npshim import asarray
            got.append(a)
            return asarray([r0, r1])
        E.stub(_N + ("correlated" if mode == "random" else "correlated_at_percentile"), draw)
        E.stub("variation.DarendeliVariation._get_varied", lambda self, r, g, d: (
            g.map(lambda t: tm.app("vG", (t, term_of(r[0])))), d.map(lambda t: tm.app("vD", (t, term_of(r[1])))) if isinstance(d, Arr) else fn("vD", d, r[1])))
        if mode != "random":
            E.raises(lambda: v(st), "an index is required", ValueError)
        k = 1 if mode != "random" else None
        R = v(st, sample_index=k)
        E.prove("one pair of variates", len(got) == 1)
        E.eq("correlation", got[0][0], rho)
        if mode != "random":
            E.eq("percentile", got[0][1], pct[1])
        i, j = E.index("i", n), E.index("j", m)
        clip = lambda x, a, b: ITE(LT(x, a), a, ITE(LT(b, x), b, x))
        g = E.at(R.mod_reduc.values, i)
        E.eq("modulus reduction", g, clip(fn("vG", fn("gy", i), r0), lo, hi))
        E.prove("modulus reduction within limits", AND(LE(lo, g), LE(g, hi)))
        E.eq("strains of the modulus reduction", E.at(R.mod_reduc.strains, i), fn("gx", i))
        d = E.at(R.damping.values, j) if kind == "curves" else R.damping
        E.eq("damping", d, clip(fn("vD", fn("dy", j) if kind == "curves" else D, r1), dl, dh))
        E.prove("damping within limits", AND(LE(dl, d), LE(d, dh)))
        if kind == "curves":
            E.eq("strains of the damping", E.at(R.damping.strains, j), fn("dx", j))
            E.eq("original damping", E.at(st.damping.values, j), fn("dy", j))
            E.prove("damping curve of its own", R.damping is not st.damping)
            E.prove("same number of points", EQ(E.len(R.damping.values), m))
        else:
            E.eq("original damping", st.damping, D)
        E.eq("original modulus reduction", E.at(st.mod_reduc.values, i), fn("gy", i))
        E.prove("modulus reduction of its own", R.mod_reduc is not st.mod_reduc and R is not st)
        E.eq("unit weight", R.unit_wt, E.real("uw"))
        E.prove("name", R.name == st.name)
        # the varied curve is the one that is evaluated
        E.reach()
    return u


for _k in ("curves", "constant-damping"):
    for _m in ("random", "fixed_percentiles"):
        unit("C17", "realisation-%s-%s" % (_k, _m), [_S + "__call__", _S + "__init__", _S + "correlation", _S + "limits_damping", _S + "limits_mod_reduc"])(realise(_k, _m))


@unit("C17", "percentile-variates", [_N + "correlated_at_percentile", _N + "__init__"])
def _pct(E):
    V = E.mod("variation")
    lim, rho, p = E.real("lim", 0), E.real("rho"), E.real("p", 0, 1)
    t = V.TruncatedNorm(lim)
    z = t.correlated_at_percentile(rho, p)
    s = t.scale
    E.eq("scale", s * s * fn("truncnorm.var", -lim, lim), 1)
    z1 = s * fn("truncnorm.ppf", p, -lim / s, lim / s)
    r = 1 - rho * rho
    z2 = rho * z1 + sqrt(ITE(LT(0, r), r, 0)) * z1
    clip = lambda x: ITE(LT(x, -lim), -lim, ITE(LT(lim, x), lim, x))
    E.eq("first variate", E.at(z, 0), clip(z1))
    E.eq("second variate", E.at(z, 1), clip(z2))
    for k in range(2):
        E.prove("variate %d within the limit" % k, AND(LE(-lim, E.at(z, k)), LE(E.at(z, k), lim)))
    E.eq("two variates", E.len(z), 2)
    E.reach()


@unit("C17", "limit-changed", [_N + "limit", _N + "scale", _N + "correlated_at_percentile", _N + "__init__"])
def _lc(E):
    """a limit set later counts as one given at the start"""
    V = E.mod("variation")
    lim, new, rho, p = E.real("lim", 0), E.real("new", 0), E.real("rho"), E.real("p", 0, 1)
    t = V.TruncatedNorm(lim)
    t.limit = new
    f = V.TruncatedNorm(new)
    E.eq("limit", t.limit, new)
    E.eq("scale", t.scale, f.scale)
    z, y = t.correlated_at_percentile(rho, p), f.correlated_at_percentile(rho, p)
    for k in range(2):
        E.eq("variate %d" % k, E.at(z, k), E.at(y, k))
    E.reach()


@unit("C17", "random-variates", [_N + "correlated", _N + "__init__"])
def _rnd(E):
    V = E.mod("variation")
    lim, rho = E.real("lim", 0), E.real("rho")
    z = V.TruncatedNorm(lim).correlated(rho)
    calls = E.c.calls
    E.prove("drawn from the normal distribution", len(calls) >= 1 and all(c[0] == "mvn" for c in calls))
    for c in calls[-1:]:
        E.prove("zero mean", AND(*[EQ(E.at(c[1][0], k), 0) for k in range(2)]))
        E.prove("unit variances", AND(*[EQ(E.at(c[1][1], k, k), 1) for k in range(2)]))
        E.prove("correlation", AND(EQ(E.at(c[1][1], 0, 1), rho), EQ(E.at(c[1][1], 1, 0), rho)))
    for k in range(2):
        E.prove("variate %d within the limit" % k, AND(LT(-lim, E.at(z, k)), LT(E.at(z, k), lim)))
    E.eq("two variates", E.len(z), 2)
    E.reach()


@unit("C17", "options", [_S + "__init__", _S + "sample_mode", _S + "percentiles"])
def _opt(E):
    V = E.mod("variation")
    r = E.real("rho")
    p = E.real("p")
    E.raises(lambda: V.DarendeliVariation(r, sample_mode="other"), "unknown mode", ValueError)
    E.raises(lambda: V.DarendeliVariation(r, sample_mode="fixed_percentiles"), "no percentiles", ValueError)
    E.raises(lambda: V.DarendeliVariation(r, sample_mode="fixed_percentiles", percentiles=[]), "empty percentiles", ValueError)
    try:
        v = V.DarendeliVariation(r, sample_mode="fixed_percentiles", percentiles=[num(0.5), p])
        E.prove("percentiles strictly between 0 and 1", AND(LT(0, p), LT(p, 1)))
        E.prove("percentiles kept in order", AND(EQ(v.percentiles[0], num(0.5)), EQ(v.percentiles[1], p)))
    except ValueError:
        E.prove("rejected only outside the range", OR(LE(p, 0), LE(1, p)))
    v = V.DarendeliVariation(r)
    E.prove("default mode", v.sample_mode == "random")
    E.eq("default limit (low)", v.limits_mod_reduc[0], num(0.05))
    E.eq("default limit (high)", v.limits_mod_reduc[1], 1)
    E.eq("default damping limit (low)", v.limits_damping[0], 0)
    E.eq("default damping limit (high)", v.limits_damping[1], num(0.15))


def shared_profile(E, n):
    return profile(E, n, "nonlinear", wt=E.real("wt", 0, strict=False))


def varied_soil(E, calls):
    site = E.mod("site")

    def call(self, st, sample_index=None):
        calls.append(sample_index)
        return site.SoilType(st.name, fn("vuw", st.unit_wt), None, fn("vD", st.unit_wt))
    return call


def vary(bed):
    def u(E):
        V = E.mod("variation")
        n = E.int("n", 2)
        P = shared_profile(E, n)
        calls = []
        E.stub(_S + "__call__", varied_soil(E, calls))
        E.stub("site.Profile.iter_soil_types", lambda self: [y.soil_type for y in self] if isinstance(n, int) else E.I.shims.map(lambda y: y.soil_type, self.layers))
        v = V.DarendeliVariation(E.real("rho"), vary_bedrock=bed)
        k0 = E.int("index", 0)
        Q = v.vary_profile(P, sample_index=k0)
        E.prove("sample index handed on", AND(*[EQ(c, k0) for c in calls]) if calls else tm.FALSE)
        i = E.index("i", n if bed else n - 1)
        E.eq("varied soil type of the layer", Q[i].soil_type.unit_wt, fn("vuw", fn("uw", i)))
        E.eq("its damping", Q[i].soil_type.damping, fn("vD", fn("uw", i)))
        if not bed:
            E.prove("bedrock soil type kept", SAME(Q[n - 1].soil_type, P[n - 1].soil_type))
        j = E.index("j", n)
        E.eq("thickness", Q[j].thickness, P[j].thickness)
        E.eq("velocity", Q[j].initial_shear_vel, P[j].initial_shear_vel)
        E.eq("minimum damping", Q[j].damping_min, P[j].damping_min)
        E.eq("number of layers", E.len(Q), n)
        E.eq("water table", Q.wt_depth, P.wt_depth)
        E.prove("original soil types", EQ(P[j].soil_type.unit_wt, fn("uw", j)))
        E.reach()
    return u


for _b in (True, False):
    unit("C17", "profile-bedrock-%s" % ("varied" if _b else "kept"), [_S + "vary_profile", _S + "vary_bedrock"])(vary(_b))


@unit("C17", "percentiles-in-order", ["variation.iter_varied_profiles"])
def _cycle(E):
    V, site = E.mod("variation"), E.mod("site")
    n = E.int("n", 2)
    P = shared_profile(E, n)
    m = 3
    v = V.DarendeliVariation(E.real("rho"), sample_mode="fixed_percentiles", percentiles=[E.real("p%d" % k, 0, 1) for k in range(m)])
    E.stub(_S + "vary_profile", lambda self, p, sample_index=None: site.Profile(p.layers, fn("pick", sample_index)))
    N = E.int("N", 1)
    try:
        R = list(V.iter_varied_profiles(P, N, var_soiltypes=v)) if False else E.I.shims.list(V.iter_varied_profiles(P, N, var_soiltypes=v))
    except ValueError:
        E.prove("rejected only when the count is no multiple", NOT(EQ(N % m, 0)))
        return
    E.eq("number of profiles", E.len(R), N)
    k = E.index("k", N)
    E.eq("percentile of the k-th profile", R[k].wt_depth, fn("pick", k % m))
    E.reach()


@unit("C17", "shared-soil-types", [_S + "vary_profile", "site.Profile.iter_soil_types"], bounded="4 soil layers over 2 soil types and a half-space")
def _shared(E):
    V, site = E.mod("variation"), E.mod("site")
    A = site.SoilType("a", E.real("ua", 0), None, E.real("Da"))
    B = site.SoilType("a", E.real("ub", 0), None, E.real("Db"))
    H = site.SoilType("a", E.real("uh", 0), None, E.real("Dh"))
    facts(E, 5)
    ls = [site.Layer(s, fn("th", k), fn("vs", k), fn("dm", k)) for k, s in enumerate([A, B, A, A, H])]
    P = site.Profile(ls, 0)
    E.prove("every soil type listed", all(any(x is s for x in list(P.iter_soil_types())) for s in (A, B, H)))
    E.stub(_S + "__call__", varied_soil(E, []))
    Q = V.DarendeliVariation(E.real("rho"), vary_bedrock=False).vary_profile(P)
    for k, s in enumerate([A, B, A, A]):
        E.eq("layer %d: varied version of its own soil type" % k, Q[k].soil_type.unit_wt, fn("vuw", s.unit_wt))
    E.prove("layers sharing a soil type share the varied one", Q[0].soil_type is Q[2].soil_type and Q[2].soil_type is Q[3].soil_type)
    E.prove("bedrock soil type kept", Q[4].soil_type is H)
    E.reach()

"""C15  velocity variation: covariance and bounds"""
from props.lib import *
from props.c10 import th, start
from props.c11 import top
from props.c12 import vs

_V = "variation.VelocityVariation."
_T = "variation.ToroVelocityVariation."
_D = "variation.DepthDependToroVelVariation."
PAR = ("ln_std", "rho_0", "delta", "rho_200", "h_0", "b")
# Toro (1995), as published
TORO = {
    "Geomatrix AB": (0.46, 0.96, 13.1, 0.96, 0.0, 0.095), "Geomatrix CD": (0.38, 0.99, 8.0, 1.00, 0.0, 0.160),
    "USGS AB": (0.35, 0.95, 4.2, 1.00, 0.0, 0.138), "USGS CD": (0.36, 0.99, 3.9, 1.00, 0.0, 0.293),
    "USGS A": (0.36, 0.95, 3.4, 0.42, 0.0, 0.063), "USGS B": (0.27, 0.97, 3.8, 1.00, 0.0, 0.293),
    "USGS C": (0.31, 0.99, 3.9, 0.98, 0.0, 0.344), "USGS D": (0.37, 0.00, 5.0, 0.50, 0.0, 0.744),
}


def draw(bedrock):
    def u(E):
        n, P = start(E, 2)
        V = E.mod("variation")
        v = V.ToroVelocityVariation(*[E.real(p) for p in PAR], bedrock)
        E.prove("bedrock option", v.vary_bedrock is bedrock)
        rho, sd = E.arr("rho", n - 1), E.arr("sd", n)
        E.assume(E.all(n, lambda k: LE(0, E.at(sd, k))))
        from dv.arrays import mkarr
        E.stub(_T + "_calc_corr", lambda self, p: mkarr((n - 1,), lambda k: T(E.at(rho, k))))
        E.stub(_T + "_calc_ln_std", lambda self, p: mkarr((n,), lambda k: T(E.at(sd, k))))
        Q = v(P)
        calls = [c for c in E.c.__dict__.get("calls", []) if c[0] == "mvn"]
        E.prove("one draw", len(calls) == 1)
        mean, cov = calls[0][1][:2]
        s = V.randnorm.scale
        i, j = E.index("i", n), E.index("j", n)
        E.eq("mean of the draw", E.at(mean, i), log(vs(i)))
        E.eq("variance", E.at(cov, i, i), (s * E.at(sd, i)) ** 2)
        k = E.index("k", n - 1)
        c = E.at(rho, k) * s * s * E.at(sd, k) * E.at(sd, k + 1)
        E.eq("covariance above the diagonal", E.at(cov, k, k + 1), c)
        E.eq("covariance below the diagonal", E.at(cov, k + 1, k), c)
        E.prove("no other covariance", IMP(OR(LT(i + 1, j), LT(j + 1, i)), EQ(E.at(cov, i, j), 0)))
        x = wrap(tm.app(calls[0][2].val, (T(i),)))
        sg = s * E.at(sd, i)
        w = Q[i].initial_shear_vel
        lim = V.randnorm.limit
        lv = log(w)
        free = LT(i, n - 1) if not bedrock else tm.TRUE
        E.prove("not below the lower bound", IMP(free, LE(log(vs(i)) - lim * sg, lv)))
        E.prove("not above the upper bound", IMP(free, LE(lv, log(vs(i)) + lim * sg)))
        E.prove("the draw itself within the bounds", IMP(AND(free, LE(abs(x - log(vs(i))), lim * sg)), EQ(lv, x)))
        E.prove("positive velocity", LT(0, w))
        if not bedrock:
            E.eq("bedrock kept", Q[n - 1].initial_shear_vel, vs(n - 1))
        E.eq("same number of layers", E.len(Q._layers) if hasattr(Q, "_layers") else n, n)
        E.eq("thickness", Q[i].thickness, th(i))
        E.eq("minimum damping", Q[i].damping_min, fn("dm", i))
        E.prove("soil type", SAME(Q[i].soil_type, P[i].soil_type))
        E.eq("original velocity", P[i].initial_shear_vel, vs(i))
        E.reach()
    return u


for _b in (True, False):
    unit("C15", "draw-bedrock-%s" % ("varied" if _b else "kept"), [_V + "__call__", _V + "_calc_covar_matrix", _V + "__init__", _T + "__init__"])(draw(_b))


def toro(E):
    p = {k: E.real(k) for k in PAR}
    E.assume(LT(0, p["delta"]), LE(0, p["h_0"]), LT(0, p["b"]))
    v = E.mod("variation").ToroVelocityVariation(**p)
    for k in PAR:
        E.eq("parameter " + k, getattr(v, k), p[k])
    return v, p


@unit("C15", "correlation", [_T + "_calc_corr"])
def _corr(E):
    n, P = start(E, 2)
    v, p = toro(E)
    c = v._calc_corr(P)
    E.eq("one correlation per interface", E.len(c), n - 1)
    k = E.index("k", n - 2)
    mid = lambda i: top(E, i) + th(i) / 2        # noqa: E731
    d = (mid(k) + mid(k + 1)) / 2
    d1 = (mid(k + 1) + mid(k + 2)) / 2
    t = d1 - d
    t = ITE(LT(t, 100), t, 100)
    rd = ITE(LT(200, d), p["rho_200"], p["rho_200"] * ((d + p["h_0"]) / (200 + p["h_0"])) ** p["b"])
    rt = p["rho_0"] * exp(-t / p["delta"])
    E.eq("depth and thickness dependent correlation", E.at(c, k), (1 - rd) * rt + rd)
    E.eq("lowest layer fully correlated with the bedrock", E.at(c, n - 2), 1)
    E.reach()


@unit("C15", "standard-deviation", [_T + "_calc_ln_std"])
def _sd(E):
    n, P = start(E, 2)
    v, p = toro(E)
    s = v._calc_ln_std(P)
    i = E.index("i", n)
    E.eq("constant", E.at(s, i), p["ln_std"])
    E.eq("one per layer", E.len(s), n)
    E.reach()


@unit("C15", "published-parameters", [_T + "generic_model", _T + "usgs_site_class", _T + "site_classes"])
def _pub(E):
    C = E.mod("variation").ToroVelocityVariation
    E.prove("site classes", sorted(C.site_classes()) == sorted(TORO))
    for k, w in TORO.items():
        v = C.generic_model(k)
        E.prove(k, AND(*[EQ(getattr(v, p), num(x)) for p, x in zip(PAR, w)]))
        E.prove(k + ": bedrock kept", v.vary_bedrock is False)
        a = E.real("a_" + k.replace(" ", ""))
        v = C.generic_model(k, ln_std=a, vary_bedrock=True)
        E.prove(k + ": replaced parameter", AND(EQ(v.ln_std, a), v.vary_bedrock is True, *[EQ(getattr(v, p), num(x)) for p, x in list(zip(PAR, w))[1:]]))
        v = C.generic_model(k)
        E.prove(k + ": published again", AND(*[EQ(getattr(v, p), num(x)) for p, x in zip(PAR, w)]))
    for v, c in ((100, "D"), (180, "D"), (180.1, "C"), (300, "C"), (360, "C"), (361, "B"), (750, "B"), (751, "A"), (3000, "A")):
        E.prove("class at %g m/s" % v, str(C.usgs_site_class(num(float(v)))) == "USGS " + c)
    E.reach()


@unit("C15", "depth-dependent", [_D + "__init__", _D + "_calc_ln_std"])
def _dd(E):
    n, P = start(E, 2)
    m = E.int("m", 2)
    z, s = E.arr("z", m), E.arr("s", m)
    E.assume(E.all(m, lambda a: E.all(m, lambda b: IMP(LT(a, b), LT(E.at(z, a), E.at(z, b))))))
    v = E.mod("variation").DepthDependToroVelVariation(z, s, *[E.real(p) for p in PAR[1:]])
    sd = v._calc_ln_std(P)
    i = E.index("i", n)
    d = top(E, i) + th(i) / 2
    g = E.at(sd, i)
    E.eq("one per layer", E.len(sd), n)
    E.prove("above the table", IMP(LT(d, E.at(z, 0)), EQ(g, E.at(s, 0))))
    E.prove("below the table", IMP(LT(E.at(z, m - 1), d), EQ(g, E.at(s, m - 1))))
    k = E.index("k", m - 1)
    a, b = E.at(z, k), E.at(z, k + 1)
    E.prove("between two depths", IMP(AND(LE(a, d), LT(d, b)), EQ(g, E.at(s, k) + (E.at(s, k + 1) - E.at(s, k)) * (d - a) / (b - a))))
    E.reach()


def named(names, table):
    def u(E):
        S = E.mod("site")
        n = len(names)
        E.assume(*[AND(LT(0, th(k)), LT(0, vs(k)), LT(0, fn("uw", k))) for k in range(n)])
        ls = [S.Layer(S.SoilType(nm, fn("uw", k), None, fn("D", k)), th(k), vs(k), fn("dm", k)) for k, nm in enumerate(names)]
        P = S.Profile(ls, 0)
        z, s = [E.real("z0"), E.real("z1")], [E.real("s0"), E.real("s1")]
        E.assume(LT(z[0], z[1]))
        w = {k: E.real("w_" + k) for k in table}
        kw = dict(zip(PAR[1:], [E.real(p) for p in PAR[1:]]))
        C = E.mod("variation").DepthDependToroVelVariation
        v = C(depth=z, ln_std=s, ln_std_map=dict(w), **kw)
        a, b = v._calc_ln_std(P), C(depth=z, ln_std=s, **kw)._calc_ln_std(P)
        for i, nm in enumerate(names):
            hit = [w[k] for k in table if k in nm]
            E.eq("layer %d" % i, E.at(a, i), hit[-1] if hit else E.at(b, i))
        E.reach()
    return u


unit("C15", "named-soils", [_D + "_calc_ln_std"], bounded="profiles of four named layers")(named(["Clay A", "Sand", "Clay B", "Rock"], ["Clay", "Rock"]))
unit("C15", "named-soils-repeated", [_D + "_calc_ln_std"], bounded="profiles of four named layers")(named(["x", "xy", "y", "x"], ["x", "y"]))


@unit("C15", "depth-dependent-default", [_D + "generic_model"])
def _ddp(E):
    C = E.mod("variation").DepthDependToroVelVariation
    for k, w in TORO.items():
        v = C.generic_model(k)
        E.prove(k, AND(*[EQ(getattr(v, p), num(x)) for p, x in list(zip(PAR, w))[1:]]))
        E.prove(k + ": depths", AND(EQ(v.depth[0], 0), EQ(v.depth[1], 15), EQ(v.ln_std[0], num(0.25)), EQ(v.ln_std[1], num(0.15)), len(v.depth) == 2, len(v.ln_std) == 2))
        d, s = E.arr("d", 3), E.arr("s", 3)
        v = C.generic_model(k, depth=d, ln_std=s, ln_std_map={"x": 0.3})
        E.prove(k + ": given depths", AND(v.depth is d, v.ln_std is s, EQ(v.ln_std_map["x"], num(0.3))))
    E.reach()

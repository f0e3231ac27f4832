"""C22  quarter-wavelength amplification"""
from props.lib import *

_Q = "propagation.QuarterWaveLenCalculator."


def th(j):
    return fn("th", j)


def pr(j):
    return fn("pr", j)


def trapz(impl):
    def u(E):
        n = E.int("n", 1)
        t, p = E.arr("th", n), E.arr("pr", n)
        E.assume(E.all(n, lambda k: LE(0, E.at(t, k))))
        z = E.real("z", 0)
        top = lambda i: E.sum(i, lambda j: E.at(t, j))       # noqa: E731
        part = lambda i: E.sum(i, lambda j: E.at(t, j) * E.at(p, j))     # noqa: E731
        v = getattr(E.mod("propagation"), impl)(t, p, z)
        i = E.index("i", n)
        E.prove("average to a depth in a layer", IMP(AND(LE(top(i), z), LT(z, top(i) + E.at(t, i))), EQ(v, (part(i) + (z - top(i)) * E.at(p, i)) / z)))
        E.prove("average to a depth below the profile", IMP(LE(top(n), z), EQ(v, (part(n) + (z - top(n)) * E.at(p, n - 1)) / z)))
        E.reach()
    return u


for _i in ("my_trapz", "_my_trapz_python"):
    unit("C22", "depth-average-" + _i.strip("_"), [])(trapz(_i))


def calc(E, method, atten):
    """the calculator over any density, thickness and slowness; the depth average is used through its contract only"""
    from dv import npshim as N
    n, nf = E.int("n", 2), E.int("nf", 1)
    f = E.arr("f", nf)
    E.assume(E.all(nf, lambda k: LT(0, E.at(f, k))))
    t, s, d = E.arr("th", n), E.arr("s", n), E.arr("rho", n)
    E.assume(E.all(n, lambda k: AND(LE(0, E.at(t, k)), LT(0, E.at(s, k)), LT(0, E.at(d, k)))))
    P = E.mod("propagation")

    def A(thickness, prop, depth_max):
        return wrap(N.opaque("avg", [thickness, prop, depth_max]))
    P.my_trapz = A
    c = P.QuarterWaveLenCalculator(*([atten, method] if atten is not None else [None, method] if method else []))
    c._motion = E.mod("motion").Motion(f)
    return n, nf, f, t, s, d, A, c


def depths(E, A, t, p, x):
    """depths to which p is averaged in x"""
    ref = T(A(t, p, num(1)))
    return [wrap(u.args[-1]) for u in tm.subterms(T(x)) if u.op == "app" and u.val == ref.val and len(u.args) == len(ref.args) and u.args[:-1] == ref.args[:-1]]


def amplification(method, atten):
    def u(E):
        k = None
        if atten == "some":
            k = E.real("kappa", 0)
        elif atten == "zero":
            k = 0.0
        n, nf, f, t, s, d, A, c = calc(E, method, k)
        try:
            amp, st = c._calc_amp(d, t, s)
        except RuntimeError:
            return      # no convergence within the allowed iterations
        i = E.index("i", nf)
        a = E.at(amp, i)
        D, S = depths(E, A, t, d, a), depths(E, A, t, s, a)
        H = E.sum(n - 1, lambda j: E.at(t, j))
        if method == "ba23":
            S = [x for x in S if T(x) is not T(H) and not _same(x, H)]
        E.prove("one solution depth", AND(len(D) == 1, len(S) == 1))
        Sv, Dv = A(t, s, S[0]), D[0]
        fi = E.at(f, i)
        E.assume(LT(0, Sv), LT(0, A(t, d, Dv)))      # averages of positive numbers
        E.prove("depth is a quarter wavelength within the tolerance", LE(abs(1 / (4 * fi * Sv) - Dv), num(1e-8) + num(0.01) * abs(Dv)))
        ratio = E.at(d, n - 1) / E.at(s, n - 1) / (A(t, d, Dv) / Sv)
        if method == "ba23":
            E.assume(LT(0, H), LT(0, A(t, s, H)))
            eta = c.correction_ba23(E.I.shims.np.log10(fi * 4 * H * A(t, s, H)))
            E.eq("amplification", a, ratio ** eta)
        else:
            E.eq("amplification", a, sqrt(ratio))
        E.eq("site term", E.at(st, i), a * exp(-PI * k * fi) if atten == "some" else a)
        E.eq("one amplification per frequency", E.len(amp), nf)
        E.eq("one site term per frequency", E.len(st), nf)
        E.reach()
    return u


def _same(x, y):
    from dv.prover import zero
    from dv import core
    return zero(tm.sub(T(x), T(y)), list(core.CTX.hyps), core.CTX.defs)


for _m in ("standard", "ba23"):
    for _a in ("none", "zero", "some"):
        unit("C22", "amplification-%s-%s" % (_m, _a), [_Q + "__init__", _Q + "_calc_amp", _Q + "method", _Q + "site_atten"] + ([_Q + "correction_ba23"] if _m == "ba23" else []))(amplification(_m, _a))


@unit("C22", "default-method", [_Q + "__init__"])
def _def(E):
    c = E.mod("propagation").QuarterWaveLenCalculator()
    E.prove("defaults", AND(c.method == "standard", c.site_atten is None))
    k = E.real("k")
    E.eq("attenuation kept", E.mod("propagation").QuarterWaveLenCalculator(site_atten=k).site_atten, k)
    n, nf, f, t, s, d, A, c = calc(E, "other", None)
    try:
        c._calc_amp(d, t, s)
        E.prove("unknown method refused", False)
    except NotImplementedError:
        E.prove("unknown method refused", True)
    except RuntimeError:
        pass
    E.reach()


@unit("C22", "correction", [_Q + "correction_ba23"])
def _cor(E):
    """Boore and Abrahamson (2023)"""
    x = E.real("x")
    y = (x + num(1.301)) / num(1.398)
    E.assume(LT(0, y))
    q = num(0.333)
    v = E.mod("propagation").QuarterWaveLenCalculator.correction_ba23(x)
    E.eq("exponent", v, num(0.56) * y ** 4 / ((1 - y ** 6) ** 2 + num(0.76) * y ** 3) ** q)
    E.reach()


@unit("C22", "run", [_Q + "__call__", _Q + "crustal_amp", _Q + "site_term"])
def _run(E):
    """a run uses the profile's initial velocities, thicknesses and densities"""
    from props.c10 import th as pth, start
    n, P = start(E)
    got = []
    M = E.mod("motion").Motion(E.arr("f", E.int("nf", 1)))
    a, b = E.arr("amp", 3), E.arr("st", 3)

    def amp(self, density, thickness, slowness):
        got.append((density, thickness, slowness))
        return a, b
    E.stub(_Q + "_calc_amp", amp)
    c = E.mod("propagation").QuarterWaveLenCalculator()
    loc = P.location("outcrop", index=-1)
    c(M, P, loc)
    E.prove("one evaluation", len(got) == 1)
    i = E.index("i", n)
    E.eq("density", E.at(got[0][0], i), fn("uw", i) / num(9.80665))
    E.eq("thickness", E.at(got[0][1], i), pth(i))
    E.eq("slowness", E.at(got[0][2], i), 1 / fn("vs", i))
    E.prove("results stored", AND(c.crustal_amp is a, c.site_term is b, c.motion is M, c.profile is P, c.loc_input is loc))
    E.reach()


@unit("C22", "run-reused", [_Q + "__call__"])
def _rr(E):
    """a calculator that served another profile of as many layers before"""
    from props.c10 import th as pth, start
    n, Q = start(E, 3)
    Pr = E.mod("site").Profile
    A = Pr(Q[1:], 0)
    got = []
    M = E.mod("motion").Motion(E.arr("f", E.int("nf", 1)))
    res = [(E.arr("amp0", 3), E.arr("st0", 3)), (E.arr("amp", 3), E.arr("st", 3))]

    def amp(self, density, thickness, slowness):
        got.append((density, thickness, slowness))
        return res[len(got) - 1]
    E.stub(_Q + "_calc_amp", amp)
    c = E.mod("propagation").QuarterWaveLenCalculator()
    c(M, A, A.location("outcrop", index=-1))
    B = Pr(Q[:-1], 0)
    loc = B.location("outcrop", index=-1)
    c(M, B, loc)
    E.prove("evaluated for the profile", len(got) == 2)
    i = E.index("i", n - 1)
    E.eq("density", E.at(got[1][0], i), fn("uw", i) / num(9.80665))
    E.eq("thickness", E.at(got[1][1], i), pth(i))
    E.eq("slowness", E.at(got[1][2], i), 1 / fn("vs", i))
    E.prove("results stored", AND(c.crustal_amp is res[1][0], c.site_term is res[1][1], c.profile is B, c.loc_input is loc))
    E.reach()

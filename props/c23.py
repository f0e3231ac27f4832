"""C23  damping adjustment to a target site attenuation"""
from props.lib import *
from props.c10 import th, start
from props.c12 import vs, strained

_F = ["tools.adjust_damping_values", "site.Profile.reset_layers"]


def dm(k):
    return fn("dm", k)


def scat(E, n=None):
    """contract of calc_atten_scatter (unit scatter): a non-negative number, the profile is untouched

    n: it has to be asked for the initial properties, which the adjusted profile has"""
    s = E.real("scatter")
    E.assume(LE(0, s))

    def of(profile, freqs=None):
        if n is not None:
            k = E.index("ks", n)
            E.eq("scattering of the initial velocities", profile[k].shear_vel, vs(k))
        return s
    E.stub("tools.calc_atten_scatter", of)
    return s


def after(E, n, P, Q, s, target, exc, inplace, s_ret, ran=False):
    """obligations on the returned profile; exc(k) says whether layer k is excluded"""
    k, j = E.index("k", n), E.index("j", n)
    E.eq("scattering returned", s_ret, s)
    if inplace:
        E.prove("the given profile", Q is P)
    else:
        E.prove("a new profile", Q is not P)
        E.eq("original damping", P[k].damping_min, dm(k))
        if not ran:
            E.eq("original current damping", P[k].damping, dm(k))
    E.eq("number of layers", E.len(Q), n)
    E.eq("site attenuation is the target less scattering", Q.site_attenuation() + s, target)
    E.prove("excluded layers unchanged", IMP(exc(k), EQ(Q[k].damping_min, dm(k))))
    E.prove("inversely proportional to velocity", IMP(AND(NOT(exc(k)), NOT(exc(j))), EQ(Q[k].damping_min * vs(k), Q[j].damping_min * vs(j))))
    E.prove("positive damping", IMP(NOT(exc(k)), LT(0, Q[k].damping_min)))
    E.eq("current damping reset", Q[k].damping, Q[k].damping_min)
    E.eq("velocity kept", Q[k].initial_shear_vel, vs(k))
    E.eq("thickness kept", Q[k].thickness, th(k))
    E.eq("unit weight kept", Q[k].unit_wt, fn("uw", k))
    E.eq("atten per layer", Q[k].incr_site_atten, 2 * Q[k].damping_min * th(k) / vs(k))


def _all(inplace, lo=1):
    def u(E):
        n, P = start(E)
        s = scat(E)
        t = E.real("target", 0)
        E.assume(LT(s, t))
        Q, r = E.mod("tools").adjust_damping_values(P, t, inplace=inplace)
        after(E, n, P, Q, s, t, lambda k: tm.FALSE, inplace, r)
        E.reach()
    return u


unit("C23", "all-layers", _F)(_all(False))
unit("C23", "all-layers-in-place", _F)(_all(True))


@unit("C23", "unreachable", _F[:1])
def _un(E):
    """target not above the scattering: always fails, profile untouched"""
    n, P = start(E)
    s = scat(E)
    t = E.real("target")
    E.assume(LE(t, s))
    E.raises(lambda: E.mod("tools").adjust_damping_values(P, t, inplace=True), "refused", RuntimeError)
    k = E.index("k", n)
    E.eq("profile untouched", P[k].damping_min, dm(k))
    E.reach()


def _exc(inplace, ran=False):
    """an arbitrary user predicate excludes layers"""
    def u(E):
        n, P = strained(E) if ran else start(E)
        s = scat(E, n)
        t = E.real("target", 0)
        pr = lambda k: EQ(fn("excl", k, sort="I"), 1)        # noqa: E731
        att = E.sum(n, lambda k: ITE(pr(k), 2 * dm(k) * th(k) / vs(k), 0))
        try:
            Q, r = E.mod("tools").adjust_damping_values(P, t, exclude=excl(E, pr), inplace=inplace)
        except RuntimeError:
            E.prove("fails only when the target cannot be reached", OR(LE(t, s + att), pr(E.index("a", n))))
            k = E.index("k", n)
            E.eq("profile untouched", P[k].damping_min, dm(k))
            return
        E.prove("the target can be reached", LT(s + att, t))
        after(E, n, P, Q, s, t, pr, inplace, r, ran)
        E.reach()
    return u


def excl(E, pr):
    """callable: whether the layer is excluded (depends on the layer's place only)"""
    from dv.seq import pidx
    return lambda y: wrap(pr(wrap(pidx(y))))


unit("C23", "excluding", _F)(_exc(False))
unit("C23", "excluding-in-place", _F)(_exc(True))
unit("C23", "excluding-after-a-run", _F)(_exc(False, True))
unit("C23", "excluding-in-place-after-a-run", _F)(_exc(True, True))


@unit("C23", "scattering", ["tools.calc_atten_scatter"])
def _sc(E):
    """slope of the log transfer function of the linear profile, less its own attenuation, not below zero"""
    n, P = start(E)
    seen = {}

    def run(self, motion, profile, loc_input):
        seen.update(freqs=motion.freqs, profile=profile, loc=loc_input)

    def tf(self, lin, lout):
        seen.update(lin=lin, lout=lout)
        return seen["freqs"] * 0 + E.arr("tf", seen["freqs"].shape[0], sort="C")
    E.stub("propagation.LinearElasticCalculator.__call__", run)
    E.stub("propagation.LinearElasticCalculator.calc_accel_tf", tf)
    s = E.mod("tools").calc_atten_scatter(P)
    E.prove("never negative", LE(0, s))
    k = E.index("k", n)
    Q = seen["profile"]
    E.prove("a separate profile", Q is not P)
    E.eq("same number of layers", E.len(Q), n)
    for a in ("thickness", "initial_shear_vel", "unit_wt", "damping_min"):
        E.eq("same " + a, getattr(Q[k], a), getattr(P[k], a))
    f = seen["freqs"]
    i = E.index("i", 256)
    E.eq("frequencies from 50 to 200 Hz", E.at(f, i), 50 + 150 * i / 255)
    E.eq("input at the half-space outcrop", seen["loc"].index, n - 1)
    E.eq("ratio of the half-space outcrop", seen["lin"].index, n - 1)
    E.eq("and of the surface outcrop", seen["lout"].index, 0)
    for l in ("loc", "lin", "lout"):
        E.prove("outcrop " + l, seen[l].wave_field.name == "outcrop")
    att = E.sum(n, lambda j: 2 * dm(j) * th(j) / vs(j))
    np = E.I.shims.np
    fit = np.polyfit(f, np.log(np.abs(E.arr("tf", 256, sort="C"))), 1)
    E.eq("slope over pi less the damping of the layers", s, ITE(LT(0, -fit[0] / PI - att), -fit[0] / PI - att, 0))
    E.eq("damping untouched", P[k].damping_min, dm(k))
    E.reach()


def _named(how):
    def u(E):
        site = E.mod("site")
        names = ["sand", "clay A", "silty clay B", "rock"]
        n = 4
        facts(E, n)
        P = site.Profile([site.Layer(site.SoilType(names[k], fn("uw", k), None, fn("D", k)), fn("th", k), vs(k), dm(k)) for k in range(n)])
        s = scat(E)
        t = E.real("target", 0)
        ex, out = {"pattern": ("clay", {1}), "alternatives": ("rock|sand", {0, 3}), "list": (["clay", "rock"], {1, 2, 3}), "nothing": (["gravel"], set())}[how]
        att = sum((2 * dm(k) * th(k) / vs(k) for k in out), num(0.0))
        E.assume(LT(s + att, t))
        Q, r = E.mod("tools").adjust_damping_values(P, t, exclude=ex)
        for k in range(n):
            if k in out:
                E.eq("excluded %d" % k, Q[k].damping_min, dm(k))
            else:
                for j in set(range(n)) - out:
                    E.eq("proportional %d %d" % (k, j), Q[k].damping_min * vs(k), Q[j].damping_min * vs(j))
        E.eq("site attenuation", Q.site_attenuation() + s, t)
        E.reach()
    return u


for _h in ("pattern", "alternatives", "list", "nothing"):
    unit("C23", "excluding-" + _h, _F, bounded="four named layers")(_named(_h))

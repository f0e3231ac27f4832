"""C12  average velocities and site attenuation"""
from props.lib import *
from props.c10 import th, start
from props.c11 import top


def vs(k):
    return fn("vs", k)


def time_to(E, n, z, i):
    """vertical travel time to depth z in layer i"""
    return E.sum(i, lambda j: th(j) / vs(j)) + (z - top(E, i)) / vs(i)


def _avg(E, n, z, v, name):
    i = E.index("i", n)
    E.prove(name + " in a layer", IMP(AND(LT(i, n - 1), LE(top(E, i), z), LT(z, top(E, i) + th(i))), EQ(v, z / time_to(E, n, z, i))))
    E.prove(name + " in the half-space", IMP(LE(top(E, n - 1), z), EQ(v, z / time_to(E, n, z, n - 1))))


@unit("C12", "time-average", ["site.Profile.time_average_vel"])
def _t(E):
    n, P = start(E)
    z = E.real("z", 0)
    _avg(E, n, z, P.time_average_vel(z), "depth over travel time")
    E.reach()


@unit("C12", "vs30", ["site.Profile.vs30"])
def _30(E):
    n, P = start(E)
    _avg(E, n, num(30.0), P.vs30(), "30 m over travel time")
    E.reach()


@unit("C12", "attenuation", ["site.Profile.site_attenuation", "site.Layer.incr_site_atten"])
def _a(E):
    n, P = start(E)
    E.eq("site attenuation", P.site_attenuation(), E.sum(n, lambda j: 2 * fn("dm", j) * th(j) / vs(j)))
    E.reach()


@unit("C12", "slowness", ["site.Profile.slowness", "site.Profile.travel_time", "site.Layer.travel_time"])
def _s(E):
    n, P = start(E)
    i = E.index("i", n)
    E.eq("slowness", E.at(P.slowness, i), 1 / vs(i))
    E.eq("travel time", E.at(P.travel_time, i), th(i) / vs(i))
    E.eq("travel time of a layer", P[i].travel_time, th(i) / vs(i))
    for k, f in (("thickness", th), ("initial_shear_vel", vs), ("shear_vel", vs), ("unit_wt", lambda k: fn("uw", k)), ("depth", lambda k: top(E, k)),
                 ("depth_mid", lambda k: top(E, k) + th(k) / 2), ("density", lambda k: fn("uw", k) / num(9.80665)), ("damping", lambda k: fn("dm", k))):
        a = getattr(P, k)
        E.eq("number of " + k, a.shape[0] if isinstance(a.shape[0], int) else wrap(dimterm(a.shape[0])), n)
        E.eq(k + " per layer", E.at(a, i), f(i))
    E.reach()


# ---- the same when the layers carry strain-compatible properties
def strained(E):
    curve_contract(E)
    n = E.int("n", 1)
    facts(E, n)
    E.assume(E.all(n, lambda k: LT(0, fn("mr", k, fn("e", k)))))

    def one(k):
        y = layer(E, k, "nonlinear")
        y.strain = fn("e", k)
        return y
    return n, E.mod("site").Profile(build(E, n, one), E.real("wt"))


@unit("C12", "vs30-after-a-run", ["site.Profile.vs30", "site.Layer.strain"])
def _30s(E):
    n, P = strained(E)
    _avg(E, n, num(30.0), P.vs30(), "30 m over travel time at the initial velocities")
    E.reach()


@unit("C12", "attenuation-after-a-run", ["site.Profile.site_attenuation", "site.Layer.incr_site_atten", "site.Layer.strain"])
def _as(E):
    n, P = strained(E)
    E.eq("site attenuation of the initial properties", P.site_attenuation(), E.sum(n, lambda j: 2 * fn("dm", j) * th(j) / vs(j)))
    E.reach()


@unit("C12", "layers-after-a-run", ["site.Profile.slowness", "site.Profile.travel_time", "site.Layer.travel_time", "site.Layer.strain"])
def _ls(E):
    n, P = strained(E)
    i = E.index("i", n)
    E.eq("slowness of the initial velocity", E.at(P.slowness, i), 1 / vs(i))
    c = P[i].shear_vel
    E.eq("strain-compatible velocity", c * c, vs(i) * vs(i) * fn("mr", i, fn("e", i)))
    E.prove("velocity is positive", LT(0, c))
    E.eq("travel time at the current velocity", E.at(P.travel_time, i), th(i) / c)
    E.eq("travel time of a layer", P[i].travel_time, th(i) / c)
    E.reach()


@unit("C12", "time-average-after-a-run", ["site.Profile.time_average_vel", "site.Layer.strain"])
def _ts(E):
    n, P = strained(E)
    z = E.real("z", 0)
    v = P.time_average_vel(z)
    i = E.index("i", n)
    c = P.shear_vel
    t = E.sum(i, lambda j: th(j) / E.at(c, j)) + (z - top(E, i)) / E.at(c, i)
    last = E.sum(n - 1, lambda j: th(j) / E.at(c, j)) + (z - top(E, n - 1)) / E.at(c, n - 1)
    E.prove("depth over current travel time in a layer", IMP(AND(LT(i, n - 1), LE(top(E, i), z), LT(z, top(E, i) + th(i))), EQ(v, z / t)))
    E.prove("depth over current travel time in the half-space", IMP(LE(top(E, n - 1), z), EQ(v, z / last)))
    E.reach()

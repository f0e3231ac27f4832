"""C10  layer depths and stresses stay consistent after every edit

Inv(P): every layer of P belongs to P, its depth is the sum of the thicknesses
above it and its vertical stress the sum of unit weight times thickness above
it.  The constructor establishes Inv for any number of layers with any values
(equal ones included); append, insert and the thickness setter preserve it."""
from props.lib import *

_U = ["site.Profile.update_layers"]


def inv(E, P, th, uw, n, pre=""):
    """Inv for the expected thickness/unit weight of position k"""
    k = E.index(pre + "k", n)
    y = P[k]
    E.eq(pre + "depth", y.depth, E.sum(k, th))
    E.eq(pre + "vertical stress", y._stress_vert, E.sum(k, lambda j: th(j) * uw(j)))
    E.prove(pre + "owner", y._profile is P)
    E.eq(pre + "thickness", y.thickness, th(k))
    E.eq(pre + "unit weight", y.unit_wt, uw(k))
    E.eq(pre + "mid depth", y.depth_mid, E.sum(k, th) + th(k) / 2)
    E.eq(pre + "base depth", y.depth_base, E.sum(k + 1, th))


def th(k):
    return fn("th", k)


def uw(k):
    return fn("uw", k)


def start(E, lo=1):
    n = E.int("n", lo)
    return n, profile(E, n, wt=E.real("wt"))


def new_layer(E):
    site = E.mod("site")
    t, w = E.real("t", 0), E.real("w", 0)
    return t, w, site.Layer(site.SoilType("s", w, None, E.real("d")), t, E.real("v", 0))


@unit("C10", "constructor", ["site.Profile.__init__"] + _U)
def _c(E):
    n, P = start(E)
    inv(E, P, th, uw, n)
    E.eq("number", E.len(P), n)
    E.eq("water table", P.wt_depth, E.real("wt"))
    E.reach()


@unit("C10", "layers-of-another-profile", ["site.Profile.__init__"] + _U)
def _lp(E):
    """layers that had another place in another profile before"""
    n, Q = start(E, 2)
    P = E.mod("site").Profile(Q[1:], E.real("wt"))
    inv(E, P, lambda k: th(k + 1), lambda k: uw(k + 1), n - 1)
    E.eq("number", E.len(P), n - 1)
    E.reach()


@unit("C10", "append", ["site.Profile.append"] + _U)
def _a(E):
    n, P = start(E)
    t, w, y = new_layer(E)
    P.append(y)
    E.eq("number", E.len(P), n + 1)
    inv(E, P, lambda k: ITE(LT(k, n), th(k), t), lambda k: ITE(LT(k, n), uw(k), w), n + 1)
    E.prove("at the end", P[n] is y)
    E.reach()


@unit("C10", "append-to-empty", ["site.Profile.append"] + _U)
def _ae(E):
    P = E.mod("site").Profile(None, 1)
    t, w, y = new_layer(E)
    P.append(y)
    E.prove("one layer", len(P) == 1 and P[0] is y and y._profile is P)
    E.eq("depth", y.depth, 0)
    E.eq("vertical stress", y._stress_vert, 0)
    E.reach()


@unit("C10", "append-layer-of-another-profile", ["site.Profile.append"] + _U)
def _ap(E):
    """a layer that had another place in another profile before"""
    n, Q = start(E, 2)
    p = E.index("p", n)
    y = Q[p]
    P = E.mod("site").Profile(None, 1)
    P.append(y)
    E.prove("one layer", len(P) == 1 and P[0] is y and y._profile is P)
    E.eq("depth", y.depth, 0)
    E.eq("vertical stress", y._stress_vert, 0)
    E.reach()


@unit("C10", "insert", ["site.Profile.insert"] + _U)
def _i(E):
    n, P = start(E)
    t, w, y = new_layer(E)
    p = E.index("p", n + 1)
    P.insert(p, y)
    E.eq("number", E.len(P), n + 1)
    sel = lambda f, v: lambda k: ITE(LT(k, p), f(k), ITE(EQ(k, p), v, f(k - 1)))     # noqa: E731
    inv(E, P, sel(th, t), sel(uw, w), n + 1)
    E.prove("at its position", P[p] is y)
    E.reach()


def _ins(where):
    """list.insert accepts any index: negative ones count from the end, others are clipped"""
    def u(E):
        n, P = start(E)
        t, w, y = new_layer(E)
        p = E.int("p", None, 0) if where == "negative" else E.int("p", n)
        P.insert(p, y)
        E.eq("number", E.len(P), n + 1)
        q = ITE(LE(p + n, 0), 0, p + n) if where == "negative" else n
        sel = lambda f, v: lambda k: ITE(LT(k, q), f(k), ITE(EQ(k, q), v, f(k - 1)))     # noqa: E731
        inv(E, P, sel(th, t), sel(uw, w), n + 1)
        E.prove("at its position", P[q] is y)
        E.reach()
    unit("C10", "insert-" + where, ["site.Profile.insert"] + _U)(u)


for _w in ("negative", "beyond"):
    _ins(_w)


@unit("C10", "thickness", ["site.Layer.thickness", "site.Profile.index"] + _U)
def _t(E):
    n, P = start(E)
    p = E.index("p", n)
    t = E.real("t", 0)
    y = P[p]
    y.thickness = t
    inv(E, P, lambda k: ITE(EQ(k, p), t, th(k)), uw, n)
    E.reach()


@unit("C10", "position", ["site.Profile.index"])
def _p(E):
    n, P = start(E)
    p = E.index("p", n)
    E.eq("position", P.index(P[p]), p)
    t, w, y = new_layer(E)
    E.raises(lambda: P.index(y), "a layer of no profile is not found", ValueError)
    E.reach()


@unit("C10", "stresses", ["site.Layer.stress_vert", "site.Layer.stress_mean", "site.Profile.pore_pressure"])
def _s(E):
    n, P = start(E)
    p = E.index("p", n)
    d = E.real("d")
    k0 = E.real("k0")
    y = P[p]
    E.assume(LE(0, d), LE(d, th(p)))
    wt = E.real("wt")
    top = E.sum(p, lambda j: th(j) * uw(j))
    z = E.sum(p, th) + d
    tot = top + d * uw(p)
    pw = num(9.80665) * ITE(LT(wt, z), z - wt, 0)
    E.eq("total stress", y.stress_vert(d), tot)
    E.eq("effective stress", y.stress_vert(d, effective=True), tot - pw)
    E.eq("default depth", y.stress_vert(), top)
    E.eq("mean stress", y.stress_mean(d, False, k0), (1 + 2 * k0) / 3 * tot)
    E.eq("mean effective stress", y.stress_mean(d, True, k0), (1 + 2 * k0) / 3 * (tot - pw))
    E.eq("default k0", y.stress_mean(d), num(2.0) / 3 * tot)
    E.eq("pore pressure", P.pore_pressure(E.real("x")), num(9.80665) * ITE(LT(wt, E.real("x")), E.real("x") - wt, 0))
    E.reach()


@unit("C10", "default-water-table", ["site.Profile.__init__"] + _U)
def _dw(E):
    n = E.int("n", 1)
    facts(E, n)
    P = E.mod("site").Profile(build(E, n, lambda k: layer(E, k)))
    E.eq("water table at the surface unless given", P.wt_depth, 0)
    inv(E, P, th, uw, n)
    z = E.real("z", 0)
    E.eq("pore pressure below it", P.pore_pressure(z), num(9.80665) * z)
    E.reach()

"""C16  thickness and half-space depth variations partition depth exactly

The rate transformation is verified over a ghost stream of unit-exponential
draws (the n-th draw is exp(draw(n)), any positive number)."""
from props.lib import *
from props.c10 import th, uw, start

_T = "variation.ToroThicknessVariation."
_H = "variation.HalfSpaceDepthVariation."


def par(E):
    """c1 > 0, c2 > -1 (written p - 1), c3 > 0"""
    return E.real("c1", 0), E.real("p", 0) - 1, E.real("c3", 0)


def inside(E, n):
    """the transformed sum of the first n unit-exponential draws"""
    a, b, c = par(E)
    return E.sum(n, lambda j: exp(fn("draw", j))) * (b + 1) / c + a ** (b + 1)


def base(E, n):
    """depth of the n-th interface plus c1"""
    a, b, c = par(E)
    return inside(E, n) ** (1 / (b + 1))


def larger_power(x, y, q):
    return IMP(AND(LT(0, x), LT(x, y), LT(0, q)), LT(x ** q, y ** q))


@unit("C16", "lemma-larger-power", [])
def _m(E):
    E.prove("power of a larger number is larger", larger_power(E.real("x"), E.real("y"), E.real("q")))


@unit("C16", "rate-transformation", [_T + "__init__", _T + "iter_thickness"])
def _r(E):
    V = E.mod("variation")
    v = V.ToroThicknessVariation(*par(E))
    D = E.real("D")
    g = E.stream()
    R = E.I.shims.list(v.iter_thickness(D))
    E.assume(LT(0, D))
    K = E.len(R)
    c1 = E.real("c1")
    n = E.index("n", K + 1)
    E.eq("no draws, no depth", base(E, num(0)), c1)
    S = lambda n: E.sum(n, lambda j: exp(fn("draw", j)))      # noqa: E731
    E.induction("summed draws are not negative", K + 1, lambda n: LE(0, S(n)))
    X, Y, q = inside(E, n), inside(E, n + 1), 1 / (par(E)[1] + 1)
    E.cut("transformed sum is positive", LT(0, X))
    more = exp(fn("draw", n)) * (par(E)[1] + 1) / par(E)[2]
    E.cut("next transformed sum", EQ(Y, X + more))
    E.cut("increment is positive", LT(0, more))
    E.cut("transformed sum grows", LT(X, Y))
    E.cut("exponent is positive", LT(0, q))
    E.assume(larger_power(X, Y, q))         # instance of the lemma
    E.prove("every draw deepens the interface", LT(base(E, n), base(E, n + 1)))
    P = E.fold("depth_c1", lambda n: base(E, n))
    E.assume(EQ(P(0), c1), E.all(K + 1, lambda n: LT(P(n), P(n + 1))))
    z = lambda k: ITE(LT(D, P(k) - c1), D, P(k) - c1)      # noqa: E731
    k = E.index("k", K)
    t, mid = R[k]
    E.prove("at least one layer", LE(1, K))
    E.eq("one draw for each layer", g.count, K)
    E.eq("thickness", t, z(k + 1) - z(k))
    E.eq("mid depth", mid, (z(k + 1) + z(k)) / 2)
    E.prove("positive", LT(0, t))
    E.prove("interfaces above the last follow the transformed rate", IMP(LT(k, K - 1), EQ(z(k + 1), P(k + 1) - c1)))
    E.eq("fills the depth", z(K), D)
    E.reach()


def toro(E):
    """a profile whose column is n-1 layers over a half-space; thicknesses through the contract of iter_thickness"""
    n, P = start(E, 2)
    K = E.int("K", 1)
    t = lambda k: fn("t", k)      # noqa: E731
    E.assume(E.all(K, lambda k: LT(0, t(k))), EQ(E.sum(K, t), E.sum(n - 1, th)))
    mid = lambda k: E.sum(k, t) + t(k) / 2      # noqa: E731
    seen = []

    def it(self, D):
        seen.append(D)
        return build(E, K, lambda k: (t(k), mid(k)))
    E.stub(_T + "iter_thickness", it)
    return n, P, K, t, mid, seen


def top(E, k):
    return E.sum(k, th)


def setting(E):
    """lemmas about the mid depths, for an arbitrary new layer k"""
    n, P, K, t, mid, seen = toro(E)
    k = E.index("k", K)
    here = lambda i, k: AND(LT(top(E, i), mid(k)), LE(mid(k), top(E, i) + th(i)))     # noqa: E731
    return n, P, K, t, mid, seen, k, here


@unit("C16", "lemma-mid-depths-inside", [])
def _in(E):
    n, P, K, t, mid, seen, k, here = setting(E)
    E.increasing("filled depths", K, t)
    E.cut("below the surface", LT(0, mid(k)))
    E.cut("above the half-space", LT(mid(k), top(E, n - 1)))
    E.assume(E.all(n, lambda i: NOT(here(i, k))))
    E.induction("no layer holds it: it is deeper than each top", n - 1, lambda j: LT(top(E, j), mid(k)))
    E.cut("no layer holds it: it is below the column", LT(top(E, n - 1), mid(k)))
    E.prove("contradiction", False)


@unit("C16", "lemma-one-layer", [])
def _one(E):
    n, P, K, t, mid, seen, k, here = setting(E)
    i, j = E.index("i", n), E.index("j", n)
    E.induction("depths grow", n, lambda q: IMP(LT(i, q), LE(top(E, i + 1), top(E, q))))
    E.prove("two layers do not hold the same depth", IMP(AND(here(i, k), here(j, k)), LE(j, i)))


@unit("C16", "layer-assignment", [_T + "__call__"])
def _c(E):
    n, P, K, t, mid, seen, k, here = setting(E)
    # instances of the two lemmas
    E.assume(E.all(K, lambda k: E.some(n, lambda i: here(i, k))))
    i = E.index("i", n)
    E.assume(E.all(n, lambda j: IMP(AND(here(i, k), here(j, k)), EQ(i, j))))
    v = E.mod("variation").ToroThicknessVariation()
    try:
        Q = v(P)
    except LookupError:
        Q = None
    E.eq("fills the depth to the half-space", seen[0], top(E, n - 1))
    if Q is None:
        E.prove("no look-up fails", False)
        return
    E.eq("layers and half-space", E.len(Q), K + 1)
    E.eq("thickness", Q[k].thickness, t(k))
    y, x = Q[k], P[i]
    here = here(i, k)
    E.prove("soil type of the layer at mid depth", IMP(here, SAME(y.soil_type, x.soil_type)))
    E.prove("velocity of the layer at mid depth", IMP(here, EQ(y.initial_shear_vel, x.initial_shear_vel)))
    E.prove("minimum damping of the layer at mid depth", IMP(here, EQ(y.damping_min, x.damping_min)))
    h = Q[K]
    E.eq("half-space velocity", h.initial_shear_vel, P[n - 1].initial_shear_vel)
    E.eq("half-space damping", h.damping_min, P[n - 1].damping_min)
    E.prove("half-space soil type", SAME(h.soil_type, P[n - 1].soil_type))
    E.eq("half-space thickness", h.thickness, 0)
    E.eq("water table", Q.wt_depth, P.wt_depth)
    E.reach()


def not_above(E, n, z):
    """no layer above the half-space holds depth z"""
    return E.all(n - 1, lambda i: NOT(AND(LE(top(E, i), z), LT(z, top(E, i) + th(i)))))


@unit("C16", "lemma-deeper", [])
def _d(E):
    n, P = start(E, 2)
    z = E.real("z", 0, strict=False)
    E.assume(not_above(E, n, z))
    E.induction("deeper than each top", n - 1, lambda j: LE(top(E, j), z))
    E.cut("in no layer: in the half-space", LE(top(E, n - 1), z))
    E.prove("at least one sublayer", LE(1, (z - top(E, n - 1) + th(n - 2)) / th(n - 2)))


@unit("C16", "half-space-depth", [_H + "__init__", _H + "__call__", "site.Profile.lookup_depth", "site.Layer.copy"])
def _h(E):
    n, P = start(E, 2)
    z = E.real("z", 0, strict=False)

    class Dist:
        def rvs(self):
            return z
    H, outside = n - 1, not_above(E, n, z)
    # instances of the lemma
    E.assume(IMP(outside, LE(top(E, H), z)),
             IMP(outside, LE(1, (z - top(E, H) + th(n - 2)) / th(n - 2))))
    v = E.mod("variation").HalfSpaceDepthVariation(Dist())
    Q = v(P)
    N = E.len(Q)
    j = E.index("j", N - 1)
    E.eq("half-space top at the drawn depth", Q[N - 1].depth, z)
    h, g = Q[N - 1], P[n - 1]
    E.eq("half-space velocity", h.initial_shear_vel, g.initial_shear_vel)
    E.eq("half-space damping", h.damping_min, g.damping_min)
    E.prove("half-space soil type", SAME(h.soil_type, g.soil_type))
    E.eq("water table", Q.wt_depth, P.wt_depth)
    E.prove("no negative thickness", LE(0, Q[j].thickness))
    y = Q[j]
    x = P[ITE(LT(j, n - 2), j, n - 2)]
    E.prove("layers above keep their thickness", IMP(AND(LT(j, N - 2), LT(j, n - 2)), EQ(y.thickness, th(j))))
    E.prove("soil type of the original layer", SAME(y.soil_type, x.soil_type))
    E.eq("velocity of the original layer", y.initial_shear_vel, x.initial_shear_vel)
    E.eq("minimum damping of the original layer", y.damping_min, x.damping_min)
    E.reach()


@unit("C16", "published-coefficients", [_T + "__init__", _T + "c_1", _T + "c_2", _T + "c_3"])
def _pc(E):
    T_ = E.mod("variation").ToroThicknessVariation
    v, w = T_(), T_(*par(E))
    for nm, x, y in zip(("c_1", "c_2", "c_3"), (10.86, -0.89, 1.98), par(E)):
        E.eq("published " + nm, getattr(v, nm), num(x))
        E.eq("given " + nm, getattr(w, nm), y)
    E.reach()

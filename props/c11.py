"""C11  depth lookup and locations"""
from props.lib import *
from props.c10 import th, uw, start

_L = ["site.Profile.lookup_depth"]


def top(E, k):
    return E.sum(k, th)


def contains(E, n, z, i):
    """layer i holds depth z >= 0"""
    return OR(AND(LT(i, n - 1), LE(top(E, i), z), LT(z, top(E, i) + th(i))), AND(EQ(i, n - 1), LE(top(E, n - 1), z)))


def found(E, n, z, i):
    """obligations: i is in range and the layer that contains z"""
    E.prove("in range", AND(LE(0, i), LT(i, n)))
    E.induction("no layer above", n - 1, lambda k: IMP(LE(k, i), LE(top(E, k), z)))
    E.prove("contains the depth", contains(E, n, z, i))
    # it is the only one
    j = E.index("j", n)
    E.induction("tops below", n - 1, lambda k: IMP(AND(LT(i, k)), LE(top(E, i + 1), top(E, k))))
    E.induction("tops above", n - 1, lambda k: IMP(AND(LT(j, k)), LE(top(E, j + 1), top(E, k))))
    E.prove("no other layer contains it", IMP(contains(E, n, z, j), EQ(i, j)))


@unit("C11", "lookup", _L)
def _look(E):
    n, P = start(E)
    z = E.real("z", 0, strict=False)
    i, w = P.lookup_depth(z)
    E.eq("offset", w, z - top(E, i))
    found(E, n, z, i)
    E.reach()


def _bd(_name, E):
    n, P = start(E)
    W = E.mod("motion").WaveField
    z = E.real("z", 0, strict=False)
    for name in (_name,):
        for arg in (name, W[name]):
            l = P.location(arg, depth=z)
            i = l.index
            E.prove("index", AND(LE(0, i), LT(i, n)))
            E.prove("layer", SAME(l.layer, P[i]))
            E.eq("offset", l.depth_within, z - top(E, i))
            E.induction("no layer above", n - 1, lambda k: IMP(LE(k, i), LE(top(E, k), z)))
            E.prove("contains the depth", contains(E, n, z, i))
            E.prove("wave field", l.wave_field is W[name])
    E.reach()


for _n in ("outcrop", "within", "incoming_only"):
    unit("C11", "location-by-depth-" + _n, ["site.Profile.location", "site.Location.__init__"] + _L)(lambda E, _n=_n: _bd(_n, E))


@unit("C11", "location-at-zero", ["site.Profile.location"] + _L)
def _z(E):
    n, P = start(E)
    for z in (0, num(0.0)):
        l = P.location("outcrop", depth=z)
        E.eq("index", l.index, 0)
        E.prove("layer", SAME(l.layer, P[0]))
        E.eq("offset", l.depth_within, 0)
    E.reach()


@unit("C11", "location-by-index", ["site.Profile.location", "site.Profile.index"])
def _bi(E):
    n, P = start(E)
    W = E.mod("motion").WaveField
    p = E.index("p", n)
    for name in ("outcrop", "within"):
        for arg, want in ((p, p), (p - n, p), (0, 0), (-1, n - 1)):
            l = P.location(name, index=arg)
            E.eq("index", l.index, want)
            E.prove("layer", SAME(l.layer, P[want]))
            E.eq("offset", l.depth_within, 0)
            E.prove("wave field", l.wave_field is W[name])
    E.reach()


@unit("C11", "location-rejects", ["site.Profile.location"])
def _r(E):
    n, P = start(E)
    z = E.real("z", 0)
    E.raises(lambda: P.location("within"), "neither depth nor index", NotImplementedError)
    E.raises(lambda: P.location("within", depth=z, index=0), "both depth and index", NotImplementedError)
    E.raises(lambda: P.location("upward", depth=z), "unknown wave field", KeyError)
    E.reach()


@unit("C11", "location-stress", ["site.Location.stress_vert"])
def _s(E):
    n, P = start(E)
    i = E.index("p", n)
    d = E.real("d")
    E.assume(LE(0, d), LE(d, th(i)))
    l = E.mod("site").Location(i, P[i], "within", d)
    for e in (False, True):
        E.eq("stress of the location", l.stress_vert(effective=e), P[i].stress_vert(d, e))
    E.reach()

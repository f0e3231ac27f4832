"""C27  published curves and the discretised normal distribution

The tables are finite: every entry is an obligation.  from_published is also proved for an arbitrary table.
"""
from props.lib import *

_S = "site."


def names(E):
    return [str(x) for x in E.mod("site").known_published_curves()]


@unit("C27", "tables", [_S + "known_published_curves", _S + "NonlinearCurve.from_published"])
def _t(E):
    S = E.mod("site")
    ns = names(E)
    E.prove("some curves, none repeated", len(ns) > 20 and len(set(ns)) == len(ns))
    import tomli
    import os
    from vk.kit import SRC
    with open(os.path.join(SRC, "data", "published_curves.toml"), "rb") as fp:
        raw = tomli.load(fp)["models"]
    E.prove("every published model is known", sorted(m["name"] for m in raw) == sorted(ns))
    raw = {m["name"]: m for m in raw}
    for n in ns:
        for p in ("mod_reduc", "damping"):
            if p not in raw[n]:
                continue
            q = raw[n][p]
            c = S.NonlinearCurve.from_published(n, p)
            st, v = q["strains"], q["values"]
            k = len(st)
            E.prove(n + " " + p + ": sizes", AND(EQ(E.len(c.strains), k), EQ(E.len(c.values), len(v)), k == len(v), k >= 2))
            E.prove(n + " " + p + ": unaltered", AND(*[AND(EQ(E.at(c.strains, i), num(float(st[i]))), EQ(E.at(c.values, i), num(float(v[i])))) for i in range(k)]))
            E.prove(n + " " + p + ": strains positive and increasing", AND(LT(0, E.at(c.strains, 0)), *[LT(E.at(c.strains, i), E.at(c.strains, i + 1)) for i in range(k - 1)]))
            w = [E.at(c.values, i) for i in range(k)]
            if p == "mod_reduc":
                E.prove(n + ": modulus reduction in (0,1]", AND(*[AND(LT(0, x), LE(x, 1)) for x in w]))
                for i in range(k - 1):
                    E.prove("%s: modulus reduction %g -> %g from strain %g to %g" % (n, v[i], v[i + 1], st[i], st[i + 1]), LE(w[i + 1], w[i]))
            else:
                E.prove(n + ": damping in [0,0.49]", AND(*[AND(LE(0, x), LE(x, num(0.49))) for x in w]))
            E.prove(n + " " + p + ": kind and name", AND(c.param == p, c.name == n, type(c).__name__ == ("ModulusReductionCurve" if p == "mod_reduc" else "DampingCurve")))
    E.reach()


@unit("C27", "arbitrary-table", [_S + "NonlinearCurve.from_published", _S + "SoilType.from_published"])
def _a(E):
    """any table: the curve asked for, with exactly its numbers"""
    S = E.mod("site")
    tab = {}
    for m in ("one", "two"):
        d = {"name": m}
        for p in ("mod_reduc", "damping"):
            k = E.int("n_%s_%s" % (m, p), 2)
            d[p] = {"strains": E.arr("st_%s_%s" % (m, p), k), "values": E.arr("v_%s_%s" % (m, p), k)}
        tab[m] = d
    S.PUBLISHED_CURVES = tab

    def same(c, m, p):
        q = tab[m][p]
        k = E.len(q["strains"])
        i = E.index("i_%s_%s" % (m, p), k)
        E.prove("%s %s" % (m, p), AND(EQ(E.len(c.strains), k), EQ(E.len(c.values), k), EQ(E.at(c.strains, i), E.at(q["strains"], i)),
                                     EQ(E.at(c.values, i), E.at(q["values"], i)), c.param == p, c.name == m))
    try:
        for m in tab:
            for p in ("mod_reduc", "damping"):
                same(S.NonlinearCurve.from_published(m, p), m, p)
        # a curve that its user changes afterwards does not change the library
        c = S.NonlinearCurve.from_published("one", "damping")
        c.values = E.arr("other", E.len(c.strains))
        c.strains = E.arr("others", E.len(c.strains))
        same(S.NonlinearCurve.from_published("one", "damping"), "one", "damping")
        uw = E.real("uw", 0)
        s = S.SoilType.from_published("nm", uw, "one")
        E.prove("soil name", s.name == "nm")
        E.eq("unit weight", s.unit_wt, uw)
        same(s.mod_reduc, "one", "mod_reduc")
        same(s.damping, "one", "damping")
        s = S.SoilType.from_published("nm", uw, "one", "two")
        same(s.mod_reduc, "one", "mod_reduc")
        same(s.damping, "two", "damping")
        E.raises(lambda: S.NonlinearCurve.from_published("one", "other"), "unknown parameter", AssertionError)
        E.raises(lambda: S.NonlinearCurve.from_published("three", "damping"), "unknown curve", KeyError)
    finally:
        S.PUBLISHED_CURVES = {}
    E.reach()


@unit("C27", "miller-rice", ["logic_tree.Node.from_miller_rice"])
def _m(E):
    L = E.mod("logic_tree")
    for n in range(2, 11):
        nd = L.Node.from_miller_rice("e%d" % n, n)
        a = list(nd.alts)
        E.prove("%d: count and name" % n, AND(len(a) == n, nd.name == "e%d" % n))
        w, v = [x.weight for x in a], [x.value for x in a]
        s = w[0]
        for x in w[1:]:
            s = s + x
        tol = num(1.5e-6)      # the table has six decimals
        E.prove("%d: weights sum to one" % n, LE(abs(s - 1), num(n * 0.5e-6 + 1e-12)))
        E.prove("%d: positive weights" % n, AND(*[LT(0, x) for x in w]))
        E.prove("%d: symmetric" % n, AND(*[AND(LE(abs(v[i] + v[-1 - i] - 1), tol), LE(abs(w[i] - w[-1 - i]), tol)) for i in range(n)]))
        E.prove("%d: increasing fractiles within (0,1)" % n, AND(LT(0, v[0]), LT(v[-1], 1), *[LT(v[i], v[i + 1]) for i in range(n - 1)]))
    E.reach()

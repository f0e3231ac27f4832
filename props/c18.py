"""C18  a logic tree enumerates exactly the valid combinations, once each

Rules are verified for every value they compare (numbers of any size, member
lists of any length) and a bounded number of rules; the enumeration for trees
of bounded shape with any weights and any rule targets."""
import itertools
from props.lib import *

_L = "logic_tree."


def close(ref, x):
    """within 1e-8 plus 1e-5 of the value"""
    x = wrap(term_of(x))
    tol = num(0.00000001) + num(0.00001) * ITE(LT(x, 0), 0 - x, x)
    return AND(LE(ref - x, tol), LE(x - ref, tol))


def match(ref, x):
    """rule target `ref` against the branch's value"""
    if isinstance(ref, (list, SList)):
        if isinstance(ref, SList) and ref.sym is not None:
            return E_.some(E_.len(ref), lambda i: EQ(wrap(ref.sym.at(term_of(i)).t), x))
        return OR(*[match_plain(r, x) for r in ref]) if len(ref) else False
    if isinstance(ref, Sym) and term_of(ref).sort == "R" or isinstance(ref, float):
        return close(ref, x)
    return match_plain(ref, x)


def match_plain(a, b):
    if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
        return a == b
    return EQ(a, b)


E_ = None


def allowed(requires, excludes, value):
    r = AND(*[match(v, value(k)) for k, v in requires.items()]) if requires else True
    e = NOT(AND(*[match(v, value(k)) for k, v in excludes.items()])) if excludes else True
    return AND(r, e)


def target(E, kind, name):
    """a rule target and the branch value it is compared with"""
    if kind == "float":
        return E.real(name), E.real(name + "_v")
    if kind == "int":
        return E.int(name), E.int(name + "_v")
    if kind == "members":
        n = E.int(name + "_n", 0)
        return build(E, n, lambda i: fn(name, i)), E.real(name + "_v")
    return kind, "b" if name[-1] == "1" else "a"


def rules(cls, req, exc):
    def u(E):
        global E_
        E_ = E
        M = E.mod("logic_tree")
        sides, vals = [], {}
        for side, kinds in (("r", req), ("e", exc)):
            d = {}
            for i, kind in enumerate(kinds):
                k = side + str(i)
                d[k], vals[k] = target(E, kind, k)
            sides.append(d)
        a = M.Alternative(1.5, 1, sides[0], sides[1]) if cls == "Alternative" else M.Realization("x", 1.5, 1, {}, sides[0], sides[1])
        b = M.Branch({k: M.Realization(k, v) for k, v in vals.items()})
        got = bool(a.is_valid(b))
        want = allowed(sides[0], sides[1], lambda k: vals[k])
        E.prove("accepted as the rules say", want if got else NOT(want))
    unit("C18", "rules %s requires(%s) excludes(%s)" % (cls, ",".join(req), ",".join(exc)),
         [_L + cls + ".is_valid"], bounded="number of rules")(u)


for _c in ("Alternative", "Realization"):
    for _k in ("float", "int", "members", "a"):
        rules(_c, (_k,), ())
        rules(_c, (), (_k,))
    rules(_c, (), ())
    rules(_c, ("float", "members"), ())
    rules(_c, (), ("int", "float"))
    rules(_c, ("a", "members"), ("members", "a"))
    rules(_c, ("float", "int", "members"), ("int", "members", "a"))


VALUES = [["p", "q", "s"], [1.5, 2.5, -4.0], [1, 2, 7], [(1.0, "x"), (2.0, "y"), ()]]


def tree(name, shape, rules, check_weights=True, VALUES=VALUES):
    """rules: {(node, alternative): (requires, excludes)} with targets (kind, ...)"""
    def u(E):
        global E_
        E_ = E
        M = E.mod("logic_tree")
        spec, nodes = [], []
        for i, m in enumerate(shape):
            alts = []
            for j in range(m):
                w = E.real("w%d%d" % (i, j)) if check_weights else E.real("w%d%d" % (i, j), 0)
                sides = [{}, {}]
                for s in (0, 1):
                    for k, t in rules.get((i, j), ({}, {}))[s].items():
                        nm = "t%d%d%d%d" % (i, j, s, k)
                        sides[s]["n%d" % k] = {"any": lambda: E.real(nm), "any int": lambda: E.int(nm), "any two": lambda: SList([E.real(nm + "a"), E.real(nm + "b")])}[t]() if isinstance(t, str) and t in ("any", "any int", "any two") else t
                prm = {"p": E.real("p%d%d" % (i, j))}
                plain = not check_weights and not sides[0] and not sides[1] and j == 1
                v = VALUES[i][j]
                alts.append((v, num(1) if plain else w, sides[0], sides[1], {} if plain else prm))
                if plain:
                    alts[-1] = alts[-1] + ("plain",)
            spec.append(alts)
            nodes.append(M.Node("n%d" % i, SList([a[0] if len(a) == 6 else M.Alternative(a[0], a[1], a[2], a[3], a[4]) for a in alts])))
        T = M.LogicTree(nodes)
        got = E.I.shims.list(T)
        E.prove("a list of branches", isinstance(len(got), int))
        seen = [tuple(b["n%d" % i].value for i in range(len(shape))) for b in got]
        E.prove("no combination twice", len(set(seen)) == len(seen))
        combos = {tuple(a[0] for a in c): c for c in itertools.product(*spec)}
        E.prove("only combinations of alternatives", all(s in combos for s in seen))
        for key, c in combos.items():
            val = {"n%d" % i: a[0] for i, a in enumerate(c)}
            ok = AND(*[LT(0, a[1]) for a in c], *[allowed(a[2], a[3], lambda k: val[k]) for a in c])
            E.prove("combination %s present exactly when valid" % (key,), ok if key in seen else NOT(ok))
        for b, key in zip(got, seen):
            if key not in combos:
                continue
            c, w = combos[key], num(1)
            for i, a in enumerate(c):
                r = b["n%d" % i]
                E.eq("weight of the alternative", r.weight, a[1])
                E.prove("parameters of the alternative", set(r.params) == set(a[4]))
                for k in a[4]:
                    E.eq("parameter of the alternative", r.params[k], a[4][k])
                E.prove("name of the node", r.name == "n%d" % i)
                w = w * a[1]
            E.eq("branch weight is the product", b.weight, w)
            E.prove("value of each node", all(b.value("n%d" % i) == a[0] for i, a in enumerate(c)))
            E.prove("as dictionary", b.as_dict() == {"n%d" % i: a[0] for i, a in enumerate(c)})
            E.prove("membership", ("n0" in b) and ("zz" not in b))
    unit("C18", "tree " + name, [_L + "LogicTree.__iter__", _L + "LogicTree.is_valid", _L + "Node.__iter__", _L + "Node.__post_init__", _L + "Branch.weight"],
         bounded="tree shape %s" % (shape,))(u)


tree("weights", (3, 2), {})
tree("three nodes", (2, 1, 2), {})
tree("single node", (3,), {})
tree("requirements", (2, 2, 2), {(0, 0): ({1: "any"}, {}), (2, 1): ({1: "any", 0: "p"}, {})}, False)
tree("exclusions", (2, 2, 2), {(0, 1): ({}, {1: "any"}), (2, 0): ({}, {1: "any", 0: "q"})}, False)
tree("both rules", (2, 3), {(0, 0): ({1: "any"}, {1: "any"}), (1, 2): ({0: ["p", "q"]}, {0: "p"})}, False)
tree("weights and rules", (2, 2), {(0, 0): ({}, {1: "any"}), (1, 1): ({0: "p"}, {})})
tree("members", (2, 2, 2), {(0, 0): ({1: "any two"}, {}), (2, 1): ({}, {1: "any two", 0: ["q", "s"]})}, False)
tree("integers", (2, 2, 2), {(0, 1): ({2: "any int"}, {}), (1, 0): ({}, {2: "any int"})}, False)
tree("mutual", (2, 2, 2), {(0, 0): ({1: "any"}, {}), (1, 1): ({0: "q"}, {2: "any"}), (2, 1): ({1: "any"}, {0: "q", 1: "any"})}, False)
tree("nine", (3, 3), {(0, 2): ({1: "any"}, {})}, False)
tree("four nodes", (2, 1, 2, 2), {(3, 0): ({2: "any int"}, {0: "q"}), (0, 1): ({1: 1.5}, {3: (1.0, "x")})}, False)
tree("nearly equal numbers", (4, 2), {}, False, [[0.1, 0.10000000000000002, 3e-10, 4e-10], [1.5, 2]])
tree("text and number", (2, 3), {(0, 1): ({}, {1: 2})}, False, [["1", 1], [2, "2", "1"]])

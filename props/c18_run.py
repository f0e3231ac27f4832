import json
import os
import tempfile
import itertools
from props.rlib import *
from pystrata.logic_tree import Alternative, Branch, LogicTree, Node, Realization


def match(ref, x):
    if isinstance(ref, list):
        return any(r == x for r in ref)
    if isinstance(ref, float):
        return abs(ref - x) <= 1e-8 + 1e-5 * abs(x)
    return ref == x


def okay(requires, excludes, val):
    if not all(match(r, val[k]) for k, r in requires.items()):
        return False
    return not (excludes and all(match(r, val[k]) for k, r in excludes.items()))


def target(h, vals):
    x = h.rng.choice(vals)
    if h.rng.random() < 0.35:
        return h.rng.sample(vals, h.rng.randrange(0, len(vals) + 1))
    if isinstance(x, float) and h.rng.random() < 0.7:
        return x * (1 + h.rng.choice([1e-7, -3e-6, 9e-6, 3e-5, -1e-3, 0]))
    return x


def spec(h, flat=False):
    kinds = [["a", "b", "c", "d"], [1.0, 1.00005, 2.5, -3.0], [1, 2, 3, 4], [0.25, 0.250001, 100.0, 1e-9], [0.1, 0.1 + 2e-16, 3e-10, 4e-10], ["1", 1, 2, "2"]]
    if not flat:
        kinds.append([("x",), ("x", "y"), (), ("z",)])
    nodes = []
    for i in range(h.rng.choice([1, 2, 2, 3, 3, 4])):
        vs = list(h.rng.choice(kinds))
        h.rng.shuffle(vs)
        nodes.append(("n%d" % (7 - i if h.rng.random() < 0.5 else 10 + i), vs[:h.rng.randrange(1, 5)]))
    if len({n for n, _ in nodes}) < len(nodes):
        raise Skip()
    out = []
    for n, vs in nodes:
        alts = []
        for v in vs:
            d = {"value": v, "weight": h.rng.choice([0, 0.3, 0.5, 1.0, 0.2, h.rng.random()]), "requires": {}, "excludes": {}, "params": {"k": h.rng.random()} if h.rng.random() < 0.5 else {}}
            for side in ("requires", "excludes"):
                if h.rng.random() < 0.3:
                    for m, ws in h.rng.sample(nodes, h.rng.randrange(1, min(3, len(nodes)) + 1)):
                        d[side][m] = target(h, ws)
            alts.append(d)
        out.append({"name": n, "alts": alts})
    return out


@group("C18", "enumeration", 400)
def enum(h):
    mode = h.rng.choice(["objects", "list", "json"])
    S = spec(h, mode == "json")
    h.note(tree=S, built=mode)
    if mode == "objects":
        T = LogicTree([Node(n["name"], [Alternative(**a) for a in n["alts"]]) for n in S])
    elif mode == "list":
        T = LogicTree.from_list(S)
    else:
        fd, p = tempfile.mkstemp(suffix=".json")
        try:
            with os.fdopen(fd, "w") as f:
                json.dump(S, f)
            T = LogicTree.from_json(p)
        finally:
            os.remove(p)
    names = [n["name"] for n in S]
    want = {}
    for c in itertools.product(*[n["alts"] for n in S]):
        val = {n: a["value"] for n, a in zip(names, c)}
        if all(a["weight"] > 0 for a in c) and all(okay(a["requires"], a["excludes"], val) for a in c):
            want[tuple(repr(a["value"]) for a in c)] = c
    got = list(T)
    keys = [tuple(repr(b[n].value) for n in names) for b in got]
    h.check(len(set(keys)) == len(keys), "no combination twice")
    h.check(set(keys) == set(want), "exactly the valid combinations: missing %s, extra %s" % (sorted(set(want) - set(keys))[:3], sorted(set(keys) - set(want))[:3]))
    for b, k in zip(got, keys):
        if k not in want:
            continue
        c = want[k]
        for n, a in zip(names, c):
            r = b[n]
            h.check(r.name == n and r.weight == a["weight"] and r.params == a["params"] and b.value(n) == a["value"], "alternative's own data")
        h.close(b.weight, float(np.prod([a["weight"] for a in c])), "branch weight", rtol=1e-12)
        h.check(b.as_dict() == {n: a["value"] for n, a in zip(names, c)}, "dictionary")
    h.check(len(list(T)) == len(got), "a second iteration yields the same")


@group("C18", "rules", 200)
def rule(h):
    vals = {"a": h.rng.choice(["x", "y"]), "b": h.rng.choice([1.5, 2.5]), "c": h.rng.choice([1, 2]), "d": h.rng.choice([1e-9, 2e-9, 0.0])}
    dom = {"a": ["x", "y"], "b": [1.5, 2.5], "c": [1, 2], "d": [1e-9, 2e-9, 0.0]}
    sides = [{k: target(h, dom[k]) for k in h.rng.sample("abcd", h.rng.randrange(0, 4))} for _ in (0, 1)]
    h.note(values=vals, requires=sides[0], excludes=sides[1])
    b = Branch({k: Realization(k, v) for k, v in vals.items()})
    want = okay(sides[0], sides[1], vals)
    h.check(bool(Alternative("v", 1, sides[0], sides[1]).is_valid(b)) == want, "alternative")
    h.check(bool(Realization("n", "v", 1, {}, sides[0], sides[1]).is_valid(b)) == want, "realization")

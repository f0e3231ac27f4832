"""setup: the evaluator loads every module of the package, agrees with CPython on
selftest/corpus.py (all inputs symbolic, compared at random concrete values), and
the back ends answer.  --full also has Lean check lemmas/Lemmas.lean."""
import inspect, itertools, os, random, subprocess, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import numpy as np
from vk import kit
from dv import core, libs, smt, term as tm, refute
from dv.core import Sym, wrap, term_of
from dv.arrays import Arr, dimterm
from dv.seq import SList, MapSeq

c = core.Ctx()
core.set_ctx(c)
I = libs.new_interp(kit.SRC)
for m in ("motion", "site", "propagation", "output", "variation", "tools", "generic", "logic_tree"):
    I.load(m)
x = tm.var("x", "R")
assert smt.query([tm.lt(tm.RZERO, x)], tm.lt(tm.RZERO, tm.mul(x, x)), timeout=5000).status == "proved"
assert smt.query([tm.lt(tm.RZERO, x)], tm.lt(tm.RZERO, tm.mul(tm.sub(x, tm.const(1)), x)), timeout=5000).status != "proved"


def arg(p):
    n = tm.var("n", "I")
    if p in ("n", "m", "k"):
        return Sym(tm.var(p, "I"))
    if p in ("x", "y"):
        return Sym(tm.var(p, "R"))
    if p in ("a", "b", "s"):
        return Arr((n,), lambda i: tm.app(p, (i,), "R"), "R")
    return SList.symbolic(MapSeq(n, lambda i: wrap(tm.app("c", (i,), "R"))))


def result(v):
    """-> (lengths, element function) of a value of the evaluator"""
    if isinstance(v, Arr):
        return ("array", [dimterm(d) for d in v.shape], v.frozen())
    if isinstance(v, SList) and v.sym is not None:
        s = v.sym
        return ("list", s, None)
    if isinstance(v, (list, tuple)):
        return ("items", [result(y) for y in v], None)
    return ("scalar", term_of(v), None)


def value(r, ev):
    kind, p, f = r
    if kind == "scalar":
        return ev(p)
    if kind == "items":
        return [value(y, ev) for y in p]
    if kind == "array":
        dims = [int(ev(d)) for d in p]
        return [ev(f(*[tm.const(i) for i in ix])) for ix in itertools.product(*map(range, dims))] if len(dims) == 1 else None
    n = int(ev(seq_len(p, ev)))
    return [ev(term_of(seq_at(p, i, ev))) for i in range(n)]


def seq_len(s, ev):
    return s.length()


def seq_at(s, i, ev):
    return s.at(tm.const(i))


class Skip(Exception):
    pass


def check(name, f, tries=40):
    ps = list(inspect.signature(f).parameters)
    paths = []
    ctx = core.Ctx()
    core.set_ctx(ctx)
    ctx.deadline = None
    J = libs.new_interp(os.path.join(ROOT, "selftest"))
    mod = J.load("corpus")

    def one(cc):
        if "n" in ps:
            cc.assume(tm.le(tm.ONE, tm.var("n", "I")))
        if "m" in ps:
            cc.assume(tm.le(tm.ONE, tm.var("m", "I")))
        if "s" in ps:
            n = tm.var("n", "I")
            i, j = tm.fresh("i", "I"), tm.fresh("j", "I")
            cc.assume(tm.forall(i, tm.ZERO, n, tm.forall(j, tm.add(i, tm.ONE), n, tm.lt(tm.app("s", (i,), "R"), tm.app("s", (j,), "R")))))
        try:
            r = result(getattr(mod, name)(*[arg(p) for p in ps]))
        except core.Infeasible:
            raise
        except (IndexError, ValueError) as e:
            r = ("raises", type(e).__name__, None)
        # element terms of symbolic lists are asked for at constants within the path
        if r[0] == "list":
            n = r[1].length()
            els = []
            h = cc.hyps
            for q in range(8):
                if not cc.implied(tm.le(n, tm.const(q))):
                    cc.hyps = h + [tm.lt(tm.const(q), n)]
                    els.append(term_of(r[1].at(tm.const(q))))
            cc.hyps = h
            r = ("flat", (n, els), None)
        paths.append((list(cc.hyps), r, dict(cc.defs)))
    core.explore(ctx, one)
    done = 0
    for t in range(tries):
        rng = random.Random(t * 7919 + len(name))
        n = rng.randint(1, 5)
        pick = lambda: rng.choice([0.0, 0.5, 1.0, -1.0, 2.0, rng.uniform(-2, 3), rng.uniform(-2, 3)])      # noqa: E731
        vals = {"n": n, "m": rng.randint(1, 4), "k": rng.randint(-5, 6), "x": pick(), "y": pick(),
                "a": [pick() for _ in range(n)], "b": [pick() for _ in range(n)], "c": [pick() for _ in range(n)],
                "s": sorted({round(rng.uniform(-2, 3), 3) + i * 1e-4 for i in range(n)})}
        try:
            want = f(*[np.array(vals[p], float) if p in "abs" else list(vals[p]) if p == "c" else vals[p] for p in ps])
        except (IndexError, ValueError) as e:
            want = type(e).__name__
        hit = 0
        for hyps, r, defs in paths:
            terms = list(hyps) + ([r[1]] if r[0] == "scalar" else [])
            free = sorted({v for h in terms for v in tm.fv(h) if v.val not in vals and v is not tm.PI and not v.val.startswith("$")}, key=lambda v: v.id)
            if any(v.sort != "I" for v in free) or len(free) > 2:
                raise AssertionError("%s: free names %s" % (name, [v.val for v in free]))
            for extra in itertools.product(range(-1, 7), repeat=len(free)):
                samplers = {p: (lambda rg, it, i, p=p: vals[p][int(i)] if 0 <= i < n else 0.0) for p in "absc"}
                ints = {tm.var(p, "I" if p in "nmk" else "R"): vals[p] for p in "nmkxy"}
                ints.update(zip(free, extra))
                it = refute.Interp(rng, defs, samplers, ints, 0)
                it.memo = {}
                ev = lambda z: it.ev(z, {})     # noqa: E731
                if not all(ev(h) for h in hyps):
                    continue
                hit += 1
                if r[0] == "raises":
                    got = r[1]
                elif r[0] == "flat":
                    m = int(ev(r[1][0]))
                    got = [ev(z) for z in r[1][1][:m]]
                    if m > len(r[1][1]):
                        got = got + [None]
                        want = list(want)[:len(got) - 1] + [None]
                else:
                    got = value(r, ev)
                same(name, vals, got, want)
        if not hit:
            raise AssertionError("%s: no path for %s" % (name, {p: vals[p] for p in ps}))
        done += hit
    return len(paths), done


def same(name, vals, got, want):
    if isinstance(want, str) or isinstance(got, str):
        ok = got == want
    elif isinstance(got, list):
        w = list(np.asarray(want, dtype=object).ravel())
        ok = len(w) == len(got) and all(g is None and z is None or g is not None and z is not None and abs(float(g) - float(z)) <= 1e-7 * (1 + abs(float(z))) for g, z in zip(got, w))
    else:
        ok = abs(float(np.real(got)) - float(want)) <= 1e-7 * (1 + abs(float(want)))
    if not ok:
        raise AssertionError("%s: evaluator %r, CPython %r at %s" % (name, got, want, vals))


def corpus(only=None):
    sys.path.insert(0, os.path.join(ROOT, "selftest"))
    import corpus as C
    bad = outside = ok = 0
    for name, f in list(vars(C).items()):
        if not inspect.isfunction(f) or only and name not in only:
            continue
        try:
            p, d = check(name, f)
            ok += 1
            if only:
                print(name, p, d)
        except core.Unsupported as e:
            outside += 1
            print("outside the evaluator's reach: %s (%s)" % (name, e))
        except AssertionError as e:
            bad += 1
            print("DISAGREES", e)
    print("evaluator agrees with CPython on %d snippets, %d outside its reach, %d disagree" % (ok, outside, bad))
    return bad


if __name__ == "__main__":
    bad = corpus([a for a in sys.argv[1:] if not a.startswith("-")] or None)
    if "--full" in sys.argv:
        r = subprocess.run(["lean", os.path.join(ROOT, "lemmas", "Lemmas.lean")])
        print("Lean lemmas", "checked" if r.returncode == 0 else "FAIL")
        bad += r.returncode
    if bad:
        sys.exit(1)
    print("evaluator and solver ready")

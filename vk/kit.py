"""Contract units: what a property module uses to state specifications on the
functions of /repo and have their obligations generated and discharged."""
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "pystrata")
if ROOT not in sys.path:
    sys.path.insert(0, ROOT)

from dv import core, libs, prover, smt, term as tm          # noqa: E402
from dv.core import Ctx, Sym, Unsupported, Infeasible, explore, set_ctx, term_of, wrap, S   # noqa: E402
from dv.arrays import Arr, MArr, dimterm, dimval        # noqa: E402
from dv.seq import Family, SList, MapSeq, is_proxy, pfam, pidx   # noqa: E402

_units = {}


class Unit:
    def __init__(self, prop, name, fn, functions, bounded=None, timeout=150, query=15000, tier="quick", stubs=()):
        self.prop, self.name, self.fn, self.bounded = prop, name, fn, bounded
        self.functions = [f.replace(".", ":", 1) for f in functions]
        self.timeout, self.query, self.tier = timeout, query, tier
        self.stubs = list(stubs)


def unit(prop, name, functions=(), bounded=None, timeout=150, query=15000, tier="quick"):
    """@unit('C01', 'name', [functions under contract])"""
    def deco(fn):
        _units.setdefault(prop, []).append(Unit(prop, name, fn, functions, bounded, timeout, query, tier))
        return fn
    return deco


def units_of(prop):
    return _units.get(prop, [])


# ------------------------------------------------------------------ environment of a unit
class Env:
    """passed to a unit on every path"""

    def __init__(self, I, c, u):
        self.I, self.c, self.unit = I, c, u

    def mod(self, name):
        return self.I.load(name)

    def stub(self, qual, fn):
        """replace a callee by its contract (recorded)"""
        q = qual.replace(".", ":", 1)
        self.I.load(q.split(":")[0])
        if q not in self.I.fninfo:
            raise Unsupported("function %s (assumed contract) not found" % qual)
        self.I.stubs[q] = fn

    def set(self, o, name, v):
        """ghost assignment of a contract (undone between paths, seen by loops)"""
        self.I.setattr(o, name, v)

    def assume(self, *ts):
        for t in ts:
            self.c.assume(t)

    def prove(self, name, goal, **kw):
        self.c.prove(name, goal, **kw)

    def cut(self, name, goal, **kw):
        """prove, then use"""
        self.prove(name, goal, **kw)
        self.assume(term_of(goal))

    def eq(self, name, a, b, **kw):
        self.c.prove(name, EQ(a, b), **kw)

    def raises(self, fn, name, *exc):
        """fn() must raise one of exc on this path"""
        try:
            fn()
        except exc:
            self.c.prove(name, tm.TRUE)
            return
        self.c.prove(name, tm.FALSE)

    def reach(self, name="reachable"):
        self.c.prove(name, tm.FALSE, kind="probe")

    def real(self, name, lo=None, hi=None, strict=True):
        v = tm.var(name, "R")
        cmp = tm.lt if strict else tm.le
        for b, f in ((lo, lambda b: cmp(b, v)), (hi, lambda b: cmp(v, b))):
            if b is not None:
                self.c.assume(f(tm.to_real(term_of(b)) if isinstance(b, Sym) else tm.const(float(b)) if not isinstance(b, int) else tm.const(b)))
        return Sym(v)

    def int(self, name, lo=None, hi=None):
        v = tm.var(name, "I")
        if lo is not None:
            self.c.assume(tm.le(term_of(lo), v))
        if hi is not None:
            self.c.assume(tm.lt(v, term_of(hi)))
        return Sym(v)

    def arr(self, name, *dims, sort="R"):
        dims = tuple(dimval(term_of(d)) if not isinstance(d, int) else d for d in dims)
        return Arr(dims, lambda *ix: tm.app(name, ix, sort), sort)

    def all(self, hi, f, lo=0):
        """forall k in [lo,hi): f(k)"""
        v = tm.fresh("all", "I")
        return tm.forall(v, term_of(lo), term_of(hi), term_of(f(Sym(v))))

    def some(self, hi, f, lo=0):
        """exists k in [lo,hi): f(k)"""
        v = tm.fresh("ex", "I")
        return tm.exists(v, term_of(lo), term_of(hi), term_of(f(Sym(v))))

    def index(self, name, hi, lo=0):
        """an arbitrary index lo <= i < hi (skolem constant)"""
        h = term_of(hi)
        if h.op == "const" and isinstance(lo, int) and h.val == lo + 1:
            return lo
        return self.int(name, lo, hi)

    def sum(self, hi, f, lo=0):
        v = tm.fresh("sm", "I")
        return wrap(tm.bigsum(v, term_of(lo), term_of(hi), term_of(f(Sym(v)))))

    def max(self, hi, f, lo=0):
        v = tm.fresh("mx", "I")
        return wrap(tm.bigmax(v, term_of(lo), term_of(hi), term_of(f(Sym(v)))))

    def induction(self, name, hi, q):
        """q(0), q(k) -> q(k+1) for k < hi are obligations; q(k) for 0 <= k <= hi follows"""
        self.prove(name + " (base)", term_of(q(Sym(tm.ZERO))))
        k = Sym(tm.fresh("ind", "I"))
        rng = AND(LE(0, k), LT(k, hi))
        self.prove(name + " (step)", IMP(AND(rng, q(k)), q(k + 1)))
        self.assume(self.all(hi + 1, q))

    def fold(self, name, f):
        """Obligations from here on speak of name(n) instead of the power f(n), whatever
        form it has been given (equal by normal form): its definition is forgotten.
        Returns the function name; facts about it are proved about f first."""
        self.c.folds.append((name, f))
        return lambda n: wrap(tm.app(name, (term_of(n),), "R"))

    def stream(self):
        """name the random draws: the n-th one is draw(n); returns the ghost counter"""
        class Ghost:
            pass
        g = Ghost()
        g.count = 0
        self.c.stream = g
        return g

    def increasing(self, name, n, x):
        """prefix sums of positive x(0..n-1) grow: proved by induction for an arbitrary
        position, then available for all pairs of positions"""
        S = lambda k: self.sum(k, x)        # noqa: E731
        a = self.index("pos." + name, n)
        q = lambda a, j: IMP(LT(a, j), LE(S(a + 1), S(j)))      # noqa: E731
        self.induction(name + " grow", n, lambda j: q(a, j))
        self.assume(self.all(n, lambda a: self.all(n + 1, lambda j: q(a, j))))

    def len(self, a):
        return self.I.shims.len(a)

    def at(self, a, *ix):
        """element of an array value / scalar"""
        if isinstance(a, Arr):
            return wrap(a.at(*[term_of(i) for i in ix]))
        return a


def T(v):
    return term_of(v)


def EQ(a, b):
    a, b = term_of(a), term_of(b)
    if a.sort == "B" and b.sort == "B":
        return tm.iff(a, b)
    return tm.eq(a, b)


def SAME(a, b):
    """the same object"""
    if a is b:
        return tm.TRUE
    if is_proxy(a) and is_proxy(b) and pfam(a) is pfam(b):
        return tm.eq(pidx(a), pidx(b))
    return tm.FALSE


def AND(*xs):
    return tm.and_(*[term_of(x) for x in xs])


def OR(*xs):
    return tm.or_(*[term_of(x) for x in xs])


def NOT(x):
    return tm.not_(term_of(x))


def IMP(a, b):
    return tm.implies(term_of(a), term_of(b))


def ITE(c, a, b):
    a, b = term_of(a), term_of(b)
    if "R" in (a.sort, b.sort) and a.sort != b.sort and "I" in (a.sort, b.sort):
        a, b = tm.to_real(a), tm.to_real(b)
    return wrap(tm.ite(term_of(c), a, b))


def LE(a, b):
    return tm.le(term_of(a), term_of(b))


def LT(a, b):
    return tm.lt(term_of(a), term_of(b))


def exp(x):
    return wrap(tm.exp(term_of(x)))


def log(x):
    return wrap(tm.log(term_of(x)))


def sqrt(x):
    return wrap(tm.sqrt(term_of(x)))


J = Sym(tm.I)
PI = Sym(tm.PI)


def num(x):
    """decimal literal as an exact number"""
    return wrap(tm.const(float(x))) if isinstance(x, float) else x


# ------------------------------------------------------------------ running a unit
def run_unit(u, tier="quick"):
    """evaluate the functions under contract, collect and discharge obligations"""
    t0 = time.time()
    res = {"unit": u.name, "property": u.prop, "bounded": u.bounded, "functions": u.functions, "obligations": [],
           "error": None, "paths": 0, "entered": {}, "loops": {}, "assumed": [], "vacuous": False}
    c = Ctx()
    set_ctx(c)
    c.unit = u.name
    c.deadline = t0 + u.timeout * (3 if tier == "thorough" else 1) * smt.PATIENCE * 0.6
    try:
        I = libs.new_interp(SRC)
        env = Env(I, c, u)

        def one(cc):
            I.stubs = dict(I.stubs0)
            u.fn(env)
        I.stubs0 = dict(I.stubs)
        res["paths"] = explore(c, one)
        res["entered"] = dict(I.entered)
        res["loops"] = dict(I.loops_used)
    except Unsupported as e:
        res["error"] = "outside the evaluator's reach: %s" % e
    except BaseException as e:  # noqa
        res["error"] = "%s: %s" % (type(e).__name__, e)
        res["trace"] = traceback.format_exc()[-3000:]
        if not isinstance(e, (Exception, core.Infeasible)):
            pass
    res["assumed"] = sorted(c.assumed)
    res["explore_s"] = round(time.time() - t0, 2)
    seen = {}
    probes = []
    end = t0 + u.timeout * (3 if tier == "thorough" else 1) * smt.PATIENCE
    for ob in c.obls:
        key = (ob.name, ob.hyps, ob.goal)
        if key in seen:
            continue
        seen[key] = ob
        if ob.kind == "probe":
            probes.append(ob)
            continue
        left = end - time.time()
        if left < 2:
            ob.status, ob.backend, ob.detail = "unknown", "none", "time budget of the unit"
        else:
            prover.settle(ob, min(u.query * (3 if tier == "thorough" else 1), left * 1000), total=left)
        d = {"name": ob.name, "status": ob.status, "backend": ob.backend, "wall": round(ob.wall, 3)}
        if ob.status != "proved":
            d["detail"] = str(ob.detail)[:600]
            d["goal"] = str(ob.goal)[:1500]
            d["hyps"] = [str(h)[:300] for h in ob.hyps][:30]
            if getattr(ob, "cex", None):
                d["counterexample"] = {k: str(v) for k, v in list(ob.cex.items())[:80]}
        res["obligations"].append(d)
    if probes:
        live = False
        for ob in probes:
            r = smt.query(list(ob.hyps), tm.FALSE, timeout=3000, want_model=False)
            if r.status != "proved":
                live = True
                break
        res["vacuous"] = not live
        res["probes"] = len(probes)
    res["wall"] = round(time.time() - t0, 2)
    res["smt"] = dict(prover.STATS)
    res["cvc5"] = dict(smt.OPINION)
    return res

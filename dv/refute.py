"""Numerical refutation of an unproved obligation: random finite
interpretations that satisfy the hypotheses and falsify the goal."""
import cmath
import math
import random
import time
from . import term as tm
from .prover import eq_rewrites

TOL = 1e-7


class Undefined(Exception):
    pass


class Interp:
    def __init__(self, rng, defs, samplers, ints, profile):
        self.rng, self.defs, self.samplers = rng, defs, samplers
        self.vals = dict(ints)
        self.apps = {}
        self.profile = profile
        self.depth = 0

    def rnd(self, sort):
        r = self.rng
        m = self.profile
        if sort == "B":
            return r.random() < 0.5
        if sort == "I":
            return r.randint(0, 4)
        if sort == "C":
            return complex(r.uniform(0.2, 2), r.uniform(-0.5, 0.8))
        if m == 0:
            return r.uniform(0.2, 3.0)
        if m == 1:
            return 10 ** r.uniform(-2, 2)
        if m == 2:
            return r.choice([-1, 1, 1]) * 10 ** r.uniform(-1.5, 1.5)
        if m == 3:
            return r.choice([0.0, 1.0, 0.5, 2.0, -1.0, 0.25, 3.0])
        return 10 ** r.uniform(-6, 5)

    def var(self, t):
        v = self.vals.get(t)
        if v is None:
            s = self.samplers.get(t.val)
            if s is not None:
                v = s(self.rng, self)
            elif t is tm.PI:
                v = math.pi
            else:
                v = self.rnd(t.sort)
            self.vals[t] = v
        return v

    def ev(self, t, env):
        """value of t; env: bound variables"""
        if t.op == "const":
            if t.sort == "C":
                return complex(float(t.val[0]), float(t.val[1]))
            if t.sort == "B":
                return t.val
            return int(t.val) if t.sort == "I" else float(t.val)
        if t.op == "var":
            if t in env:
                return env[t]
            return self.var(t)
        key = None
        if not env or not (tm.fv(t) & env.keys()):
            key = t
            v = self.memo.get(t)
            if v is not None:
                return v
        v = self._ev(t, env)
        if key is not None:
            self.memo[t] = v
        return v

    memo = None

    def _ev(self, t, env):
        op, a = t.op, t.args
        if op == "add":
            return sum(self.ev(x, env) for x in a)
        if op == "mul":
            r = 1
            for x in a:
                r = r * self.ev(x, env)
            return r
        if op == "toreal":
            return float(self.ev(a[0], env))
        if op == "pow":
            b, e = self.ev(a[0], env), self.ev(a[1], env)
            try:
                if a[1].op == "const" and a[1].val.denominator == 1:
                    e = int(e)
                    if e < 0 and b == 0:
                        raise Undefined
                    return b ** e
                if not isinstance(b, complex) and b < 0:
                    raise Undefined
                if b == 0 and e <= 0:
                    raise Undefined
                if isinstance(b, complex):
                    return cmath.sqrt(b) if e == 0.5 else b ** e
                return b ** e
            except (OverflowError, ZeroDivisionError):
                raise Undefined
        if op == "exp":
            x = self.ev(a[0], env)
            try:
                return cmath.exp(x) if isinstance(x, complex) else math.exp(x)
            except OverflowError:
                raise Undefined
        if op == "log":
            x = self.ev(a[0], env)
            if isinstance(x, complex):
                return cmath.log(x)
            if x <= 0:
                raise Undefined
            return math.log(x)
        if op == "fun":
            x = self.ev(a[0], env)
            f = getattr(math, {"arcsinh": "asinh", "arctan": "atan", "arcsin": "asin", "arccos": "acos"}.get(t.val, t.val), None)
            if f is None:
                return self.uf(t.val, [x], t.sort)
            try:
                return f(x)
            except (ValueError, OverflowError):
                raise Undefined
        if op == "floor":
            return math.floor(self.ev(a[0], env) + 1e-12)
        if op == "abs":
            return abs(self.ev(a[0], env))
        if op == "re":
            return complex(self.ev(a[0], env)).real
        if op == "im":
            return complex(self.ev(a[0], env)).imag
        if op == "conj":
            return complex(self.ev(a[0], env)).conjugate()
        if op == "ite":
            return self.ev(a[1] if self.ev(a[0], env) else a[2], env)
        if op in ("sum", "forall", "exists", "bigmax", "bigmin"):
            lo, hi = self.ev(a[0], env), self.ev(a[1], env)
            if hi - lo > 60:
                raise Undefined
            e2 = dict(env)
            vs = []
            for i in range(int(lo), int(hi)):
                e2[t.val] = i
                x = self.ev(a[2], e2)
                if op == "forall" and not x:
                    return False
                if op == "exists" and x:
                    return True
                vs.append(x)
            if op == "forall":
                return True
            if op == "exists":
                return False
            if op == "sum":
                return sum(vs)
            if not vs:
                raise Undefined
            return max(vs) if op == "bigmax" else min(vs)
        if op == "and":
            return all(self.ev(x, env) for x in a)
        if op == "or":
            return any(self.ev(x, env) for x in a)
        if op == "not":
            return not self.ev(a[0], env)
        if op == "iff":
            return bool(self.ev(a[0], env)) == bool(self.ev(a[1], env))
        if op == "eq0":
            return self.iszero(a[0], env)
        if op == "lt":
            return self.ev(a[0], env) < 0
        if op == "le":
            x = self.ev(a[0], env)
            return x <= 0 if not isinstance(x, float) else x <= 1e-11 * self.scale(a[0], env)
        if op == "app":
            if t.val in ("nan", "+inf", "-inf") and not a:
                raise Undefined
            if t.val == "bracket":
                l, x = a
                lo, hi = self.ev(l.args[0], env), self.ev(l.args[1], env)
                xv = self.ev(x, env)
                e2 = dict(env)
                xs = []
                for i in range(int(lo), int(hi)):
                    e2[l.val] = i
                    xs.append(self.ev(l.args[2], e2))
                k = 0
                for i in range(len(xs) - 1):
                    if xs[i] <= xv:
                        k = i
                return k
            if any(x.op == "lam" for x in a):
                args = []
                for x in a:
                    if x.op == "lam":
                        lo, hi = self.ev(x.args[0], env), self.ev(x.args[1], env)
                        e2 = dict(env)
                        w = []
                        for i in range(int(lo), int(hi)):
                            e2[x.val] = i
                            w.append(self.rd(self.ev(x.args[2], e2)))
                        args.append(tuple(w))
                    else:
                        args.append(self.rd(self.ev(x, env)))
                return self.uf(t.val, args, t.sort)
            args = [self.ev(x, env) for x in a]
            d = self.defs.get(t.val)
            if d is not None:
                e2 = dict(zip(d.params, args))
                self.depth += 1
                try:
                    if self.depth > 200:
                        raise Undefined
                    g = self.ev(d.guard, e2)
                    if g:
                        return self.ev(d.body, e2)
                finally:
                    self.depth -= 1
            return self.uf(t.val, args, t.sort)
        raise Undefined

    @staticmethod
    def rd(x):
        return round(x, 9) if isinstance(x, float) else (complex(round(x.real, 9), round(x.imag, 9)) if isinstance(x, complex) else x)

    def uf(self, name, args, sort):
        key = (name,) + tuple(self.rd(x) for x in args)
        v = self.apps.get(key)
        if v is None:
            s = self.samplers.get(name)
            v = s(self.rng, self, *args) if s is not None else self.rnd(sort)
            self.apps[key] = v
        return v

    def scale(self, d, env):
        s = 0.0
        for x in d.args if d.op == "add" else (d,):
            try:
                s = max(s, abs(self.ev(x, env)))
            except TypeError:
                pass
        return s

    def iszero(self, d, env):
        v = self.ev(d, env)
        if isinstance(v, (int, bool)):
            return v == 0
        if v != v:
            raise Undefined
        return abs(v) <= TOL * max(self.scale(d, env), 1e-30)


def refute(hyps, goal, defs, samplers=None, tries=300, budget=12.0, seed=1):
    """-> dict of values (counterexample) or None; second value: number of satisfying samples"""
    samplers = samplers or {}
    t0 = time.time()
    hyps = list(hyps)
    subs = eq_rewrites(hyps)
    for m in subs:
        goal = tm.subst(goal, m)
        hyps = [tm.subst(h, m) for h in hyps]
    hyps = [h for h in hyps if h is not tm.TRUE]
    hyps.sort(key=lambda h: len(tm.subterms(h)))
    ivars = sorted({v for h in hyps + [goal] for v in tm.fv(h) if v.sort == "I" and v.val not in samplers}, key=lambda v: v.id)
    sat = 0
    import sys
    for k in range(tries):
        if time.time() - t0 > budget:
            break
        rng = random.Random(seed * 100003 + k)
        hi = 2 + k % 4
        it = None
        # integers first: rejection on integer-only hypotheses
        for _ in range(60):
            ints = {v: rng.randint(0, hi) for v in ivars}
            I = Interp(rng, defs, samplers, ints, k % 5)
            I.memo = {}
            ok = True
            for h in hyps:
                if all(v.sort == "I" for v in tm.fv(h)) and h.op != "forall" and not any(s.op in ("app", "forall", "sum") for s in tm.subterms(h)):
                    if not I.ev(h, {}):
                        ok = False
                        break
            if ok:
                it = I
                break
        if it is None:
            continue
        try:
            if not all(it.ev(h, {}) for h in hyps):
                continue
            sat += 1
            if not it.ev(goal, {}):
                vals = {str(v.val): it.vals[v] for v in it.vals if not v.val.startswith("$")}
                vals.update({"%s(%s)" % (kk[0], ",".join(map(str, kk[1:]))): vv for kk, vv in list(it.apps.items())[:60]})
                return vals, sat
        except (Undefined, OverflowError, ZeroDivisionError, TypeError, ValueError, RecursionError):
            continue
    return None, sat

"""z3 back end: translation, axiom instantiation, validity queries."""
import os, sys, time
from fractions import Fraction as Fr

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from . import term as tm
from .term import T

z3.set_param("smt.random_seed", 0)
z3.set_param("sat.random_seed", 0)


def skolem(t, pos):
    """Skolemise existential force: pos=True for a hypothesis."""
    if t.op == "exists" and pos or t.op == "forall" and not pos:
        v = tm.fresh("sk", t.val.sort)
        lo, hi, body = t.args
        b = skolem(tm.subst(body, {t.val: v}), pos)
        rng = tm.and_(tm.le(lo, v), tm.lt(v, hi))
        return tm.and_(rng, b) if pos else tm.or_(tm.not_(rng), b)
    if t.op in ("and", "or"):
        return tm.rebuild(t, [skolem(a, pos) for a in t.args])
    if t.op == "not":
        return tm.not_(skolem(t.args[0], not pos))
    return t


class Tr:
    def __init__(self, linear=False):
        self.linear = linear
        self.memo = {}
        self.side = []  # z3 side conditions
        self.seen = {}
        self.names = {}

    # -- scalars
    def name(self, t):
        return t.val

    def r(self, t):
        """Real z3 expression (t real or int)."""
        e = self.e(t)
        if t.sort == "B":
            return z3.If(e, z3.RealVal(1), z3.RealVal(0))
        if t.sort == "I":
            return z3.ToReal(e)
        return e

    def i(self, t):
        e = self.e(t)
        if t.sort == "I":
            return e
        raise ValueError("int expected %s" % t)

    def e(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._e(t)
            self.memo[t] = r
        return r

    def num(self, t, sort):
        return self.i(t) if sort == "I" else self.r(t)

    def _e(self, t):
        op, a = t.op, t.args
        if self.linear and t.sort == "R":
            if op in ("exp", "log", "fun") or op == "pow":
                return z3.Real("opq<%d>" % t.id)
            if op == "mul":
                cs = [x for x in a if x.op == "const"]
                if len(a) - len(cs) > 1:
                    rest = tm.mul(*[x for x in a if x.op != "const"])
                    e = z3.Real("opq<%d>" % rest.id)
                    return z3.Product([self.r(x) for x in cs] + [e]) if cs else e
        if op == "const":
            if t.sort == "B":
                return z3.BoolVal(t.val)
            if t.sort == "I":
                return z3.IntVal(int(t.val))
            return z3.RealVal(str(t.val))
        if op == "var":
            if t.sort == "B":
                return z3.Bool(t.val)
            if t.sort == "I":
                return z3.Int(t.val)
            return z3.Real(t.val)
        if op == "add":
            if t.sort == "I":
                return z3.Sum([self.i(x) for x in a])
            return z3.Sum([self.r(x) for x in a])
        if op == "mul":
            if t.sort == "I":
                return z3.Product([self.i(x) for x in a])
            den = [x for x in a if x.op == "pow" and x.args[1].op == "const" and x.args[1].val < 0 and x.args[1].val.denominator == 1]
            num = [x for x in a if x not in den]
            e = z3.Product([self.r(x) for x in num]) if num else z3.RealVal(1)
            for x in den:
                b = self.r(x.args[0])
                for _ in range(int(-x.args[1].val)):
                    e = e / b
            return e
        if op == "pow":
            b, ex = a
            if ex.op == "const":
                v = ex.val
                if v.denominator == 1 and abs(v) <= 8:
                    x = self.i(b) if t.sort == "I" else self.r(b)
                    e = x
                    for _ in range(int(abs(v)) - 1):
                        e = e * x
                    return e if v > 0 else 1 / e
                if v == Fr(1, 2):
                    x = self.r(b)
                    e = z3.Function("sqrt", z3.RealSort(), z3.RealSort())(x)
                    self.side.append(z3.Implies(x >= 0, z3.And(e >= 0, e * e == x)))
                    return e
            x = self.r(b)
            y = self.r(ex)
            e = z3.Function("powr", z3.RealSort(), z3.RealSort(), z3.RealSort())(x, y)
            self.side += [
                z3.Implies(x > 0, e > 0),
                z3.Implies(z3.And(x >= 1, y >= 0), e >= 1),
                z3.Implies(z3.And(x > 0, x <= 1, y >= 0), e <= 1),
                z3.Implies(z3.And(x > 1, y > 0), e > 1),
                z3.Implies(z3.And(x >= 1, y <= 0), e <= 1),
                z3.Implies(z3.And(x > 0, x <= 1, y <= 0), e >= 1),
                z3.Implies(z3.And(x == 0, y > 0), e == 0),
                z3.Implies(z3.And(x >= 0), e >= 0),
                z3.Implies(y == 0, e == 1),
            ]
            for (x2, y2, e2) in self.seen.setdefault("powr", [])[:12]:
                self.side.append(z3.Implies(z3.And(y == y2, y > 0, x > 0, x2 > 0), z3.And((x < x2) == (e < e2), (x == x2) == (e == e2))))
                self.side.append(z3.Implies(z3.And(x == x2, x > 1), (y < y2) == (e < e2)))
            self.seen["powr"].append((x, y, e))
            return e
        if op == "toreal":
            return z3.ToReal(self.i(a[0]))
        if op == "exp":
            x = self.r(a[0])
            e = z3.Function("exp", z3.RealSort(), z3.RealSort())(x)
            self.side += [e > 0, (e > 1) == (x > 0), (e == 1) == (x == 0), e >= 1 + x]
            for (x2, e2) in self.seen.setdefault("exp", [])[:40]:
                self.side.append((x < x2) == (e < e2))
                self.side.append((x == x2) == (e == e2))
            self.seen["exp"].append((x, e))
            return e
        if op == "log":
            x = self.r(a[0])
            e = z3.Function("log", z3.RealSort(), z3.RealSort())(x)
            self.side += [z3.Implies(x > 0, z3.And((e > 0) == (x > 1), (e == 0) == (x == 1), e <= x - 1, e >= 1 - 1 / x))]
            for (x2, e2) in self.seen.setdefault("log", [])[:40]:
                self.side.append(z3.Implies(z3.And(x > 0, x2 > 0), z3.And((x < x2) == (e < e2), (x == x2) == (e == e2))))
            for (x2, e2) in self.seen.get("exp", [])[:12]:
                self.side.append(z3.Implies(x == e2, e == x2))
            self.seen["log"].append((x, e))
            return e
        if op == "floor":
            return z3.ToInt(self.r(a[0]))
        if op == "abs":
            if a[0].sort == "C":
                re_, im_ = self.r(tm_re(a[0])), self.r(tm_im(a[0]))
                e = z3.Function("cabs", z3.RealSort(), z3.RealSort(), z3.RealSort())(re_, im_)
                self.side += [e >= 0, e * e == re_ * re_ + im_ * im_]
                return e
            x = self.num(a[0], t.sort)
            return z3.If(x >= 0, x, -x)
        if op in ("re", "im"):
            z = a[0]
            ee = expand_reim(z)
            if ee is not None:
                return self.r(ee[0 if op == "re" else 1])
            return z3.Real("%s<%d>" % (op, z.id)) if not z.args else self._uf(op + ":" + str(z.val), z, "R")
        if op == "ite":
            if t.sort == "I":
                return z3.If(self.e(a[0]), self.i(a[1]), self.i(a[2]))
            return z3.If(self.e(a[0]), self.r(a[1]), self.r(a[2]))
        if op == "fun":
            x = self.r(a[0])
            e = z3.Function(t.val, z3.RealSort(), z3.RealSort())(x)
            if t.val in ("sin", "cos"):
                self.side += [e <= 1, e >= -1]
            return e
        if op == "app":
            return self._uf(t.val, t, t.sort)
        if op in ("sum", "bigmax", "lam"):
            return self._uf("%s#%d" % (op, t.args[2].id), t, t.sort)
        # booleans
        if op == "and":
            return z3.And([self.e(x) for x in a])
        if op == "or":
            return z3.Or([self.e(x) for x in a])
        if op == "not":
            return z3.Not(self.e(a[0]))
        if op == "iff":
            return self.e(a[0]) == self.e(a[1])
        if op == "eq0":
            x = a[0]
            if x.sort == "C":
                return z3.And(self.r(tm_re(x)) == 0, self.r(tm_im(x)) == 0)
            return self.num(x, x.sort) == 0
        if op == "lt":
            x = a[0]
            return self.num(x, x.sort) < 0
        if op == "le":
            x = a[0]
            return self.num(x, x.sort) <= 0
        if op in ("forall", "exists"):
            return self._uf("%s#%d" % (op, t.args[2].id), t, "B")
        raise ValueError("smt: " + op)

    def _uf(self, name, t, sort):
        args = []
        sorts = []
        extra = []
        if t.op in tm.BINDERS:
            src = list(t.args[:2]) + sorted(tm.fv(t.args[2]) - {t.val}, key=lambda x: x.id)
        else:
            src = t.args
        for x in src:
            if x.op == "lam":
                name += "|%d" % x.args[2].id
                src2 = list(x.args[:2]) + sorted(tm.fv(x.args[2]) - {x.val}, key=lambda y: y.id)
            else:
                src2 = [x]
            for y in src2:
                if y.sort == "C":
                    args += [self.r(tm_re(y)), self.r(tm_im(y))]
                    sorts += [z3.RealSort()] * 2
                elif y.sort == "B":
                    args.append(self.e(y))
                    sorts.append(z3.BoolSort())
                elif y.sort == "I":
                    args.append(self.i(y))
                    sorts.append(z3.IntSort())
                else:
                    args.append(self.r(y))
                    sorts.append(z3.RealSort())
        rs = {"B": z3.BoolSort(), "I": z3.IntSort(), "R": z3.RealSort(), "C": z3.RealSort()}[sort]
        name = "%s/%s" % (name, "".join(str(s)[0] for s in sorts))
        if not args:
            return z3.Const(name, rs)
        return z3.Function(name, *(sorts + [rs]))(*args)


_reim = {}


def expand_reim(z):
    """(re, im) terms of a complex term, None for opaque atoms."""
    if z.sort != "C":
        return z, tm.RZERO
    r = _reim.get(z)
    if r is not None or z in _reim:
        return r
    op, a = z.op, z.args
    out = None
    if op == "const":
        out = (tm.const(z.val[0]), tm.const(z.val[1]))
    elif op == "add":
        out = (tm.add(*[tm_re(x) for x in a]), tm.add(*[tm_im(x) for x in a]))
    elif op == "mul":
        x, y = tm_re(a[0]), tm_im(a[0])
        for b in a[1:]:
            u, v = tm_re(b), tm_im(b)
            x, y = tm.sub(tm.mul(x, u), tm.mul(y, v)), tm.add(tm.mul(x, v), tm.mul(y, u))
        out = (x, y)
    elif op == "pow" and a[1].op == "const" and a[1].val.denominator == 1:
        n = int(a[1].val)
        x, y = tm.RONE, tm.RZERO
        u, v = tm_re(a[0]), tm_im(a[0])
        for _ in range(abs(n)):
            x, y = tm.sub(tm.mul(x, u), tm.mul(y, v)), tm.add(tm.mul(x, v), tm.mul(y, u))
        if n < 0:
            d = tm.add(tm.mul(x, x), tm.mul(y, y))
            x, y = tm.div(x, d), tm.neg(tm.div(y, d))
        out = (x, y)
    elif op == "exp":
        m = tm.exp(tm_re(a[0]))
        th = tm_im(a[0])
        out = (tm.mul(m, tm.fun("cos", th)), tm.mul(m, tm.fun("sin", th)))
    elif op == "ite":
        out = (tm.ite(a[0], tm_re(a[1]), tm_re(a[2])), tm.ite(a[0], tm_im(a[1]), tm_im(a[2])))
    elif op == "conj":
        out = (tm_re(a[0]), tm.neg(tm_im(a[0])))
    _reim[z] = out
    return out


def tm_re(z):
    r = expand_reim(z)
    return r[0] if r else tm.mk("re", (z,), "R")


def tm_im(z):
    r = expand_reim(z)
    return r[1] if r else tm.mk("im", (z,), "R")


def index_terms(ts):
    out = set()
    seen = set()
    stack = list(ts)
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app":
            for a in x.args:
                if a.sort == "I" and not any(v.val.startswith("$") for v in tm.fv(a) if isinstance(v.val, str)):
                    out.add(a)
        if x.op in tm.BINDERS:
            for a in x.args[:2]:
                if not any(v.val.startswith("$") for v in tm.fv(a)):
                    out.add(a)
        if x.op == "var" and x.sort == "I" and not x.val.startswith("$"):
            out.add(x)
        stack.extend(x.args)
    return out


class Result:
    def __init__(self, status, model=None, wall=0.0, smt2=None):
        self.status, self.model, self.wall, self.smt2 = status, model, wall, smt2


def prefix_axioms(ts, hyps, nonneg):
    """axioms for prefix sums occurring in ts."""
    out = []
    sums = {}
    for t in tm_subterms_all(ts):
        if t.op == "sum" and not any(v.val.startswith("$") for v in tm.fv(t)):
            sums.setdefault((t.args[2], t.val), set()).add((t.args[0], t.args[1]))
    for (body, bv), rngs in sums.items():
        his = {h for l, h in rngs if l is tm.ZERO}
        for l, h in rngs:
            if l is not tm.ZERO:
                continue
            s = tm.mk("sum", (l, h, body), body.sort, bv)
            # S(h) = S(h-1) + body(h-1)
            hm = tm.sub(h, tm.ONE)
            sm = tm.bigsum(bv, l, hm, body) if hm.op != "const" else tm.bigsum(bv, l, hm, body)
            out.append(tm.implies(tm.le(tm.ONE, h), tm.eq(s, tm.add(sm, tm.subst(body, {bv: hm})))))
            out.append(tm.implies(tm.eq(h, tm.ZERO), tm.eq(s, tm.RZERO)))
            for h2 in his:
                if h2 is h:
                    continue
                d = tm.sub(h2, h)
                if d is tm.ONE:
                    s2 = tm.mk("sum", (l, h2, body), body.sort, bv)
                    out.append(tm.implies(tm.le(tm.ZERO, h), tm.eq(s2, tm.add(s, tm.subst(body, {bv: h})))))
                if nonneg and nonneg(bv, body):
                    s2 = tm.mk("sum", (l, h2, body), body.sort, bv)
                    out.append(tm.implies(tm.and_(tm.le(tm.ZERO, h), tm.le(h, h2)), tm.le(s, s2)))
            if nonneg and nonneg(bv, body):
                out.append(tm.implies(tm.le(tm.ZERO, h), tm.le(tm.RZERO, s)))
    return out


def tm_subterms_all(ts):
    seen = set()
    for t in ts:
        tm.subterms(t, seen)
    return sorted(seen, key=lambda x: x.id)


def ground_args(ts):
    """arguments of ground applications by function and position"""
    out = {}
    for s in tm_subterms_all(ts):
        if s.op == "app" and not any(v.val.startswith("$") for v in tm.fv(s)):
            for i, a in enumerate(s.args):
                if a.sort == "I":
                    out.setdefault((s.val, i), {})[a] = None
    return out


def matches(q, ground):
    """terms that turn an application in the body of q into one that occurs"""
    out = {}
    v = q.val
    for s in sorted(tm.subterms(q.args[2]), key=lambda x: x.id):
        if s.op == "app":
            for i, a in enumerate(s.args):
                if a is v or a.op == "add" and v in a.args:
                    off = tm.sub(a, v)
                    if v in tm.fv(off) or any(x.val.startswith("$") for x in tm.fv(off)):
                        continue
                    for g in ground.get((s.val, i), ()):
                        out[tm.sub(g, off)] = None
    # a body that excludes one value of v: that value
    for s in q.args[2].args if q.op == "forall" and q.args[2].op == "and" else q.args[2:]:
        if s.op == "or" and len(s.args) == 2 and all(x.op == "le" for x in s.args):
            for x in s.args:
                off = tm.sub(x.args[0], v)
                if off.sort == "I" and v not in tm.fv(off) and not any(y.val.startswith("$") for y in tm.fv(off)):
                    out[tm.sub(tm.ONE, off)] = None
    return list(out)[:12]


def instantiate(hyps, goal_terms, rounds=2, cap=400, narrow=False):
    """ground instances of universally quantified hypotheses at index terms."""
    quants = []
    flat = []
    for h in hyps:
        for x in h.args if h.op == "and" else (h,):
            if x.op == "forall":
                quants.append(x)
            else:
                flat.append(x)
    # quantifiers under or/implication: pull  (or A forall)
    conds = []
    for x in list(flat):
        if x.op == "or":
            fa = [y for y in x.args if y.op == "forall"]
            if fa:
                conds.append((tm.or_(*[y for y in x.args if y is not fa[0]]), fa[0]))
    insts = set()
    used = {1: 0, 2: 0}
    cur = [x for x in flat if not narrow or len(tm.subterms(x)) < 30] + list(goal_terms)
    for rd in range(rounds):
        idx = sorted(index_terms(cur), key=lambda x: x.id)[:40]
        new, nc = [], len(conds)
        todo = [(tm.FALSE, q) for q in quants] + conds
        ground = ground_args(cur)
        plan = [(pre, q, t, 2) for pre, q in todo for t in matches(q, ground)]
        for pre, q in todo:
            cands = set(idx)
            if rd == 0:
                cands |= {q.args[0], tm.sub(q.args[1], tm.ONE)}
            plan += [(pre, q, t, 1) for t in sorted(cands, key=lambda x: x.id)]
        for pre, q, t, room in plan:
            lo, hi, body = q.args
            if q.val.sort != t.sort:
                continue
            key = (pre, q, t)
            if key in insts or used[room] > cap:
                continue
            insts.add(key)
            used[room] += 1
            b = tm.subst(body, {q.val: t})
            for bb in b.args if b.op == "and" else (b,):
                inst = tm.implies(tm.and_(tm.le(lo, t), tm.lt(t, hi)), bb)
                inst = tm.or_(pre, inst)
                if inst.op == "or":
                    fa = [y for y in inst.args if y.op == "forall"]
                    if fa:
                        conds.append((tm.or_(*[y for y in inst.args if y is not fa[0]]), fa[0]))
                        continue
                if inst is not tm.TRUE:
                    new.append(inst)
        if not new and len(conds) == nc:
            break
        cur += new
        flat += new
    return flat


def bigmax_axioms(ts, idx):
    out = []
    ground = ground_args(ts)
    for t in tm_subterms_all(ts):
        if t.op == "bigmax" and not any(v.val.startswith("$") for v in tm.fv(t)):
            lo, hi, body = t.args
            k = tm.var("argmax<%d>" % t.id, "I")
            out.append(tm.implies(tm.lt(lo, hi), tm.and_(tm.le(lo, k), tm.lt(k, hi), tm.eq(t, tm.subst(body, {t.val: k})))))
            for i in dict.fromkeys(matches(t, ground) + idx):
                out.append(tm.implies(tm.and_(tm.le(lo, i), tm.lt(i, hi)), tm.le(tm.subst(body, {t.val: i}), t)))
    return out


def bigmax_pairs(ts):
    """a maximum over a wider range is not smaller"""
    out = []
    bs = [t for t in tm_subterms_all(ts) if t.op == "bigmax" and not any(v.val.startswith("$") for v in tm.fv(t))]
    for a in bs:
        out.append(tm.implies(tm.lt(a.args[0], a.args[1]), tm.le(tm.subst(a.args[2], {a.val: a.args[0]}), a)))
        for b in bs:
            if a is not b and a.args[2] is b.args[2] and a.val is b.val:
                (l1, h1, _), (l2, h2, _) = a.args, b.args
                out.append(tm.implies(tm.and_(tm.le(l2, l1), tm.le(h1, h2), tm.lt(l1, h1)), tm.le(a, b)))
    return out


def named_conditions(ts):
    """quantified conditions of conditional terms get a name b, with b -> q and not b -> not q"""
    qs = []
    for s in tm_subterms_all(ts):
        if s.op == "ite":
            for x in sorted(tm.subterms(s.args[0]), key=lambda x: x.id):
                if x.op in ("forall", "exists") and not any(v.val.startswith("$") for v in tm.fv(x)):
                    x = x if x.op == "forall" else tm.not_(x)
                    if x.op == "forall" and x not in qs:
                        qs.append(x)
    if not qs:
        return ts
    defs, m = [], {}
    for q in qs[:8]:
        b = tm.fresh("nq", "B")
        m[q], m[tm.not_(q)] = b, tm.not_(b)
        defs += [tm.or_(tm.not_(b), q), tm.or_(b, tm.not_(q))]
    return defs + [tm.subst(t, m) for t in ts]


SECOND = os.environ.get("VERIF_TIER") == "thorough"
OPINION = {"agrees": 0, "no answer": 0, "disagrees": 0}


def second_opinion(s):
    """thorough tier: cvc5 is asked the same question"""
    import subprocess
    if sum(OPINION.values()) >= 400:
        return
    text = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run(["cvc5", "--lang", "smt2", "--tlimit", "4000", "-"], input=text, capture_output=True, text=True, timeout=8)
        a = p.stdout.strip().split("\n")[0]
    except (OSError, subprocess.SubprocessError):
        a = "?"
    k = {"unsat": "agrees", "sat": "disagrees"}.get(a, "no answer")
    OPINION[k] += 1
    if k == "disagrees":
        raise RuntimeError("cvc5 finds a model of a query z3 refutes")


PATIENCE = 1.0


def query(hyps, goal, timeout=10000, nonneg=None, want_model=True, dump=False, light=False, narrow=False):
    """Is goal implied by hyps?  -> Result proved/refuted/unknown."""
    t0 = time.time()
    ts = named_conditions(list(hyps) + [tm.not_(goal)])
    *hs, ng = [skolem(h, True) for h in ts]
    flat = instantiate(hs + [ng], [ng], narrow=narrow)
    extra = prefix_axioms(flat, hyps, nonneg)
    if extra:
        flat = instantiate([h for h in hs if h.op == "forall" or h.op == "and"] + extra + flat, extra)
    mx = bigmax_pairs(flat)
    if not light:
        mx += bigmax_axioms(flat, sorted(index_terms(flat), key=lambda x: x.id)[:12])
    if mx:
        flat = flat + mx
    tr = Tr(light)
    s = z3.Solver()
    s.set("timeout", int(timeout * PATIENCE))
    s.set("random_seed", 0)
    try:
        for h in flat:
            s.add(tr.e(h))
    except (ValueError, z3.Z3Exception, ArithmeticError) as e:
        return Result("unknown", str(e), time.time() - t0)
    pi = z3.Real("pi")
    s.add(pi > z3.RealVal("3.14159265358979"), pi < z3.RealVal("3.1415926535898"))
    for x in tr.side:
        s.add(x)
    r = s.check()
    wall = time.time() - t0
    smt2 = s.to_smt2() if dump else None
    if r == z3.unsat and SECOND:
        second_opinion(s)
    if r == z3.unsat:
        return Result("proved", None, wall, smt2)
    if r == z3.sat:
        m = s.model() if want_model else None
        return Result("refuted", m, wall, smt2)
    return Result("unknown", s.reason_unknown(), wall, smt2)


def decide(hyps, c, timeout=1200):
    """True / False / None: c implied, its negation implied, neither shown"""
    hs = [skolem(h, True) for h in hyps]
    goals = [tm.not_(c), c]
    flat = instantiate(hs, goals, narrow=True)
    mx = bigmax_pairs(flat + [c])
    if mx or any(x.op == "sum" for t in flat + [c] for x in tm.subterms(t)):
        return Ellipsis
    tr = Tr(False)
    s = z3.Solver()
    s.set("timeout", int(timeout * PATIENCE))
    s.set("random_seed", 0)
    try:
        for h in flat:
            s.add(tr.e(h))
        ec = tr.e(c)
    except (ValueError, z3.Z3Exception, ArithmeticError):
        return None
    pi = z3.Real("pi")
    s.add(pi > z3.RealVal("3.14159265358979"), pi < z3.RealVal("3.1415926535898"))
    for x in tr.side:
        s.add(x)
    s.push()
    s.add(z3.Not(ec))
    if s.check() == z3.unsat:
        return True
    s.pop()
    s.add(ec)
    if s.check() == z3.unsat:
        return False
    return None


class Feas:
    """feasibility of path conditions (quick)."""

    def __init__(self):
        self.cache = {}

    def feasible(self, hyps, timeout=1500):
        key = frozenset(hyps)
        r = self.cache.get(key)
        if r is None:
            if tm.FALSE in key:
                r = False
            else:
                r = query(list(hyps), tm.FALSE, timeout=timeout, want_model=False).status != "proved"
            self.cache[key] = r
        return r


FEAS = Feas()


def model_values(m):
    out = {}
    if m is None:
        return out
    for d in m.decls():
        v = m[d]
        try:
            if z3.is_rational_value(v):
                out[d.name()] = Fr(v.numerator_as_long(), v.denominator_as_long())
            elif z3.is_algebraic_value(v):
                a = v.approx(12)
                out[d.name()] = Fr(a.numerator_as_long(), a.denominator_as_long())
            elif z3.is_int_value(v):
                out[d.name()] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                out[d.name()] = z3.is_true(v)
        except Exception:
            pass
    return out

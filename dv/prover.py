"""Discharging obligations: normal forms with case splits, unfolding of loop
definitions, then SMT."""
from fractions import Fraction as Fr
import time
from . import term as tm
from . import smt
from .norm import Norm, TooBig, collect_ites, assume_cond

STATS = {"nf": 0, "smt": 0, "smt_time": 0.0, "nf_time": 0.0, "queries": 0}


class Def:
    """f(params) = body  when guard (guard mentions params)."""

    def __init__(self, name, params, body, guard=tm.TRUE):
        self.name, self.params, self.body, self.guard = name, params, body, guard

    def inst(self, args):
        m = dict(zip(self.params, args))
        return tm.subst(self.guard, m), tm.subst(self.body, m)


# ------------------------------------------------------------------ quick
_qcache = {}


def _syms(t):
    r = _symcache.get(t)
    if r is None:
        r = set()
        for s in tm.subterms(t):
            if s.op == "var" and not s.val.startswith("$"):
                r.add(s.val)
            elif s.op == "app":
                r.add("@" + s.val)
        r = frozenset(r)
        _symcache[t] = r
    return r


_symcache = {}


def relevant(hyps, t, limit=60):
    if t is tm.FALSE:
        return list(hyps)
    want = set(_syms(t))
    left = [h for h in dict.fromkeys(hyps)]
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for h in left:
            s = _syms(h)
            if not s or s & want:
                out.append(h)
                if h.op != "forall":
                    want |= s
                else:
                    want |= {x for x in s if not x.startswith("@")}
                changed = True
            else:
                rest.append(h)
        left = rest
    return out


def is_int_lin(t):
    for s in tm.subterms(t):
        if s.op in ("app", "sum", "bigmax", "floor", "forall", "exists", "pow", "toreal") or s.sort in ("R", "C") and s.op != "const":
            return False
    return True


def quick_implied(hyps, t, timeout=1200):
    if t is tm.TRUE:
        return True
    if t is tm.FALSE:
        return not smt.FEAS.feasible(hyps)
    hs = frozenset(hyps)
    if t in hs:
        return True
    if t.op == "and":
        return all(quick_implied(hyps, a, timeout) for a in t.args)
    key = (hs, t)
    r = _qcache.get(key)
    if r is not None:
        return r
    r = False
    if t.op == "or" and any(a in hs for a in t.args):
        r = True
    else:
        rel = relevant(hyps, t)
        if is_int_lin(t):
            ih = [h for h in rel if is_int_lin(h)]
            if smt.query(ih, t, timeout=timeout, want_model=False).status == "proved":
                r = True
            elif len(ih) == len(rel):
                r = False
            else:
                r = smt.query(rel, t, timeout=timeout, want_model=False).status == "proved"
        else:
            r = smt.query(rel, t, timeout=timeout, want_model=False, narrow=True).status == "proved"
        STATS["queries"] += 1
    _qcache[key] = r
    return r


def decided(hyps, c):
    if c is tm.TRUE or c is tm.FALSE:
        return c is tm.TRUE
    hs = frozenset(hyps)
    a, b = _qcache.get((hs, c)), _qcache.get((hs, tm.not_(c)))
    if a or b:
        return bool(a)
    if a is False and b is False:
        return None
    if c.op in ("le", "lt", "eq0") and not is_int_lin(c) and c not in hs and tm.not_(c) not in hs:
        r = smt.decide(relevant(hyps, c), c)
        STATS["queries"] += 1
        if r is not Ellipsis:
            _qcache[(hs, c)] = r is True
            _qcache[(hs, tm.not_(c))] = r is False
            return r
    if quick_implied(hyps, c):
        return True
    if quick_implied(hyps, tm.not_(c)):
        return False
    return None


# ------------------------------------------------------------------ simplify
def simp(t, hyps, memo=None):
    """resolve if-then-else conditions that the hypotheses decide; sums over
    ranges are split at pointwise conditions."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = _simp(t, hyps, memo)
    memo[t] = r
    return r


def _has_ite(t):
    r = _itecache.get(t)
    if r is None:
        r = t.op == "ite" or any(_has_ite(a) for a in t.args)
        _itecache[t] = r
    return r


_itecache = {}


def _simp(t, hyps, memo):
    if not t.args or not _has_ite(t):
        return t
    if t.op == "ite":
        c = simp(t.args[0], hyps, memo)
        v = decided(hyps, c)
        if v is True:
            return simp(t.args[1], hyps, memo)
        if v is False:
            return simp(t.args[2], hyps, memo)
        a, b = simp(t.args[1], hyps, memo), simp(t.args[2], hyps, memo)
        if a is b:
            return a
        return tm.ite(c, simp(a, list(hyps) + [c], {}), simp(b, list(hyps) + [tm.not_(c)], {}))
    if t.op in tm.BINDERS:
        lo, hi, body = t.args
        lo, hi = simp(lo, hyps, memo), simp(hi, hyps, memo)
        v = tm.fresh("bs", t.val.sort)
        b = tm.subst(body, {t.val: v})
        hs = list(hyps) + [tm.le(lo, v), tm.lt(v, hi)]
        b = simp(b, hs, {})
        if t.op == "sum":
            return split_sum(v, lo, hi, b, hyps)
        if t.op in ("forall", "exists"):
            return tm.forall(v, lo, hi, b) if t.op == "forall" else tm.exists(v, lo, hi, b)
        return tm.bind(t.op, v, lo, hi, b, b.sort)
    return tm.rebuild(t, [simp(a, hyps, memo) for a in t.args])


def split_sum(v, lo, hi, b, hyps, depth=0):
    if depth < 4:
        for c in collect_ites(b):
            if v not in tm.fv(c):
                continue
            pt = None
            if c.op == "eq0" and c.args[0].sort == "I":
                pt = solve_lin(c.args[0], v)
                if pt is not None:
                    inr = tm.and_(tm.le(lo, pt), tm.lt(pt, hi))
                    off = assume_cond(b, c, False)
                    on = assume_cond(b, c, True)
                    if quick_implied(hyps, inr):
                        m = {v: pt}
                        return tm.add(split_sum(v, lo, hi, off, hyps, depth + 1), tm.subst(on, m), tm.neg(tm.subst(off, m)))
                    if quick_implied(hyps, tm.not_(inr)):
                        return split_sum(v, lo, hi, off, hyps, depth + 1)
            if c.op in ("le", "lt") and c.args[0].sort == "I":
                cf = lin_coef(c.args[0], v)
                if cf in (1, -1):
                    rest = tm.sub(c.args[0], tm.mul(tm.const(cf), v))
                    # cf*v + rest <= 0
                    if cf == 1:
                        cut = tm.add(tm.neg(rest), tm.ONE if c.op == "le" else tm.ZERO)   # v < cut  <=> true
                        first, second = True, False
                    else:
                        cut = tm.add(rest, tm.ZERO if c.op == "le" else tm.ONE)           # v >= cut <=> true
                        first, second = False, True
                    if quick_implied(hyps, tm.le(cut, lo)):
                        return split_sum(v, lo, hi, assume_cond(b, c, second), hyps, depth + 1)
                    if quick_implied(hyps, tm.le(hi, cut)):
                        return split_sum(v, lo, hi, assume_cond(b, c, first), hyps, depth + 1)
                    if quick_implied(hyps, tm.and_(tm.le(lo, cut), tm.le(cut, hi))):
                        return tm.add(split_sum(v, lo, cut, assume_cond(b, c, first), hyps, depth + 1),
                                      split_sum(v, cut, hi, assume_cond(b, c, second), hyps, depth + 1))
    return tm.bigsum(v, lo, hi, b)


def indicate(t, memo=None, depth=0):
    """sums of conditionals as sums of products with 0/1 indicators"""
    memo = {} if memo is None else memo
    r = memo.get((t, depth > 0))
    if r is not None:
        return r
    r = t
    if t.args and _has_ite(t):
        args = [indicate(a, memo, 1 if t.op == "sum" and i == 2 else depth if t.op in ("add", "mul") else 0) for i, a in enumerate(t.args)]
        if t.op == "ite" and depth and t.sort == "R" and t.args[1].sort == "R":
            c, a, b = t.args[0], indicate(assume_cond(t.args[1], t.args[0], True), memo, 1), indicate(assume_cond(t.args[2], t.args[0], False), memo, 1)
            if (a, b) != (tm.const(1.0), tm.RZERO):
                k = tm.ite(c, tm.to_real(tm.ONE), tm.RZERO)
                r = tm.add(tm.mul(k, a), b, tm.neg(tm.mul(k, b)))
        else:
            r = tm.rebuild(t, args) if any(x is not y for x, y in zip(args, t.args)) else t
    memo[(t, depth > 0)] = r
    return r


def int_equalities(hyps):
    """substitutions from pairs t <= 0, -t <= 0"""
    les = dict.fromkeys(h.args[0] for h in hyps if h.op == "le")
    out = []
    for t in les:
        if tm.neg(t) in les:
            for m in eq_rewrites([tm.eq(t, tm.ZERO if t.sort == "I" else tm.RZERO)]):
                out.append(m)
    return out[:2]


def _core():
    from . import core
    return core


def folded(t, folds, memo):
    """t with every power equal to f(n), for one of the families f, replaced by name(n)"""
    def match(p):
        ns = [tm.add(v, tm.const(d)) for v in sorted((v for v in tm.fv(p) if v.sort == "I"), key=lambda v: v.id) for d in (0, 1, -1, 2, -2)]
        for name, f in folds:
            for n in ns + [tm.ZERO, tm.ONE, tm.const(2)]:
                q = _core().term_of(f(_core().wrap(n)))
                if q.op == "pow" and q.args[1] is p.args[1]:
                    try:
                        N = Norm()
                        if N.is_zero(N(tm.sub(q.args[0], p.args[0]))):
                            return tm.app(name, (n,), p.sort)
                    except (TooBig, ZeroDivisionError):
                        pass
        return None

    def go(t):
        if not t.args:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        r = match(t) if t.op == "pow" and t.args[1].op != "const" else None
        if r is None:
            if t.op in tm.BINDERS:
                nv = tm.fresh("b", t.val.sort)
                f = {"sum": tm.bigsum, "forall": tm.forall, "bigmax": tm.bigmax, "lam": tm.lam}.get(t.op) or (lambda v, l, h, b: tm.bind(t.op, v, l, h, b, t.sort))
                r = f(nv, go(t.args[0]), go(t.args[1]), go(tm.subst(t.args[2], {t.val: nv})))
            else:
                r = tm.rebuild(t, [go(a) for a in t.args])
        memo[t] = r
        return r
    return go(t)


def pinned(hyps, goal):
    """an integer variable of the goal that two bounds of the hypotheses fix, and its value"""
    les = {h.args[0] for h in hyps if h.op == "le" and h.args[0].sort == "I"}
    for t in les:
        if len(tm.fv(t)) <= 2 and tm.neg(t) in les:
            for v in sorted(tm.fv(t), key=lambda v: -v.id):
                if v.sort == "I" and not v.val.startswith("$") and v in tm.fv(goal):
                    e = solve_lin(t, v)
                    if e is not None:
                        return v, e
    return None


def sum_splits(t, hyps):
    """undecided positions of the case boundaries of summands within the sums of t"""
    out = []
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x in seen or not x.args:
            continue
        seen.add(x)
        if x.op == "sum":
            lo, hi, b = x.args
            v = x.val
            for c in collect_ites(b):
                cf = lin_coef(c.args[0], v) if c.op in ("eq0", "le", "lt") and c.args[0].sort == "I" else None
                if cf not in (1, -1) or any(y.val.startswith("$") for y in tm.fv(c) if y is not v):
                    continue
                rest = tm.sub(c.args[0], tm.mul(tm.const(cf), v))
                if c.op == "eq0":
                    pt = tm.neg(rest) if cf == 1 else rest
                    cs = [tm.le(lo, pt), tm.lt(pt, hi)]
                elif cf == 1:
                    cut = tm.add(tm.neg(rest), tm.ONE if c.op == "le" else tm.ZERO)
                    cs = [tm.le(lo, cut), tm.le(cut, hi)]
                else:
                    cut = tm.add(rest, tm.ZERO if c.op == "le" else tm.ONE)
                    cs = [tm.le(lo, cut), tm.le(cut, hi)]
                out += [k for k in cs if not quick_implied(hyps, k) and not quick_implied(hyps, tm.not_(k))]
            stack += [lo, hi]
        elif x.op not in tm.BINDERS:
            stack += list(x.args)
    return out


def lin_coef(t, v):
    """integer coefficient of v in t when t = coef*v + rest(v-free), else None"""
    cf = 0
    for x in t.args if t.op == "add" else (t,):
        k, r = tm.split_coef(x)
        if r is v:
            cf += int(k[0]) if k[0].denominator == 1 else 99
        elif r is not None and v in tm.fv(r):
            return None
    return cf


def solve_lin(t, v):
    """e with t = 0 <=> v = e (unit coefficient)"""
    cf = lin_coef(t, v)
    if cf in (1, -1):
        rest = tm.sub(t, tm.mul(tm.const(cf), v))
        return tm.neg(rest) if cf == 1 else rest
    return None


# ------------------------------------------------------------------ equations from hypotheses
def eq_rewrites(hyps):
    """substitutions {atom: term} from equality hypotheses, applied in order"""
    out = []
    for h in hyps:
        if h.op != "eq0":
            continue
        d = h.args[0]
        for o in out:
            d = tm.subst(d, o)
        cand = None
        for x in d.args if d.op == "add" else (d,):
            k, r = tm.split_coef(x)
            if r is None or k[1] != 0:
                continue
            if r.op == "toreal":
                r0 = r.args[0]
            else:
                r0 = r
            if r0.op in ("var", "app") or r0.op == "log" and r0.args[0].op != "const" or r0.op == "sum" and _closed(r0):
                rest = tm.sub(d, x)
                if r0 in tm.subterms(rest):
                    continue
                val = tm.mul(tm.const(-1 / k[0]) if k[0] != -1 else tm.ONE, rest) if abs(k[0]) != 1 else (tm.neg(rest) if k[0] == 1 else rest)
                if r0.sort == "I" and val.sort != "I":
                    continue
                if r0.sort == "R":
                    val = tm.to_real(val)
                rank = ({"var": 2, "app": 1}.get(r0.op, 0), -r0.id)
                if cand is None or rank > cand[0]:
                    cand = (rank, r0, val)
        if cand is not None:
            out.append({cand[1]: cand[2]})
    return out


# ------------------------------------------------------------------ look-ups in increasing tables
def brackets(t):
    return sorted([s for s in tm.subterms(t) if s.op == "app" and s.val == "bracket" and _closed(s)], key=lambda s: s.id)


def int_consts(hyps):
    return sorted({v for h in hyps if h.op in ("le", "lt") for v in tm.fv(h) if v.sort == "I" and v.op == "var" and not v.val.startswith("$")}, key=lambda v: v.id)


_mono = {}


def increasing(lam, hyps):
    """is the tabulated function strictly increasing over its range?"""
    if tm.app("increasing", (lam,), "B") in set(hyps):
        return True
    key = (lam, frozenset(h for h in hyps if h.op == "forall"))
    r = _mono.get(key)
    if r is None:
        lo, hi, body = lam.args
        a, b = tm.fresh("ia", "I"), tm.fresh("ib", "I")
        g = tm.lt(tm.subst(body, {lam.val: a}), tm.subst(body, {lam.val: b}))
        hs = [h for h in hyps if h.op == "forall" or is_int_lin(h)] + [tm.le(lo, a), tm.lt(a, b), tm.lt(b, hi)]
        r = g is not tm.FALSE and smt.query(hs, g, timeout=2000, want_model=False).status == "proved"
        if not r:
            # adjacent entries suffice
            d = tm.sub(tm.subst(body, {lam.val: tm.add(a, tm.ONE)}), tm.subst(body, {lam.val: a}))
            hs = [h for h in hyps if h.op == "forall" or is_int_lin(h)] + [tm.le(lo, a), tm.lt(tm.add(a, tm.ONE), hi)]
            N = Norm(positive=lambda t: False)
            try:
                d = N.to_term(N(simp(d, hs)))
            except (TooBig, ZeroDivisionError):
                pass
            r = smt.query(hs, simp(tm.lt(tm.RZERO, d), hs), timeout=4000, want_model=False).status == "proved"
        _mono[key] = r
    return r


def table_facts(hyps, goal):
    """order facts of the increasing tables looked up in the goal"""
    out = []
    for s in brackets(goal):
        lam = s.args[0]
        lo, hi, body = lam.args
        if lo is not tm.ZERO or not increasing(lam, hyps):
            continue
        def xp(i):
            return tm.subst(body, {lam.val: i})
        last = tm.sub(hi, tm.ONE)
        out.append(tm.app("increasing", (lam,), "B"))
        for i in [tm.ZERO, tm.sub(last, tm.ONE)] + int_consts(hyps):
            out.append(tm.implies(tm.and_(tm.lt(lo, i), tm.lt(i, hi)), tm.lt(xp(lo), xp(i))))
            out.append(tm.implies(tm.and_(tm.le(lo, i), tm.lt(i, last)), tm.lt(xp(i), xp(last))))
            n1 = tm.add(i, tm.ONE)
            out.append(tm.implies(tm.and_(tm.le(lo, i), tm.lt(i, last)), tm.and_(tm.lt(xp(i), xp(n1)), tm.le(xp(n1), xp(last)))))
    return [f for f in dict.fromkeys(out) if f is not tm.TRUE]


def sum_facts(hyps, goal):
    """prefix sums of a non-negative summand grow with their upper end"""
    sums = {}
    ends = int_consts(hyps)
    for t in [goal] + [h for h in hyps if h.op != "forall"]:
        for s in tm.subterms(t):
            if s.op == "sum" and s.sort in "RI" and s.args[0] is tm.ZERO and _closed(s):
                sums.setdefault(tm.subst(s.args[2], {s.val: tm.var("?sf", "I")}), {})[s.args[1]] = s
    out = []
    for body, g in sums.items():
        v = tm.var("?sf", "I")
        his = list(g)[:6]
        k = tm.fresh("sf", "I")
        b = tm.subst(body, {v: k})
        Z = tm.RZERO if b.sort == "R" else tm.ZERO
        fa = [h for h in hyps if h.op == "forall" or is_int_lin(h)]
        good = [hi for hi in his if smt.query(fa + [tm.le(tm.ZERO, k), tm.lt(k, hi)], simp(tm.le(Z, b), fa + [tm.le(tm.ZERO, k), tm.lt(k, hi)]), timeout=1500, want_model=False).status == "proved"]
        for h2 in good:
            kk = [tm.le(tm.ZERO, k), tm.lt(k, h2)]
            if smt.query(fa + kk, simp(tm.lt(Z, b), fa + kk), timeout=1500, want_model=False).status == "proved":
                out.append(tm.implies(tm.lt(tm.ZERO, h2), tm.lt(Z, g[h2])))
            out.append(tm.implies(tm.le(tm.ZERO, h2), tm.le(Z, g[h2])))
            out.append(tm.implies(tm.le(h2, tm.ZERO), tm.eq(g[h2], Z)))
            for i in ends[:6]:
                out.append(tm.implies(tm.and_(tm.le(tm.ZERO, i), tm.lt(i, h2)), tm.le(tm.subst(body, {v: i}), g[h2])))
            for h1 in his:
                if h1 is h2:
                    continue
                out.append(tm.implies(tm.and_(tm.le(tm.ZERO, h1), tm.le(h1, h2)), tm.le(g[h1], g[h2])))
                out.append(tm.implies(tm.and_(tm.le(tm.ZERO, h1), tm.lt(h1, h2)), tm.le(tm.add(g[h1], tm.subst(body, {v: h1})), g[h2])))
    return [f for f in dict.fromkeys(out) if f is not tm.TRUE]


def split_foralls(hyps):
    out = []
    for h in hyps:
        if h.op == "forall" and h.args[2].op == "and":
            out += split_foralls([tm.forall(h.val, h.args[0], h.args[1], b) for b in h.args[2].args])
        else:
            out.append(h)
    return out


def pick_brackets(t, hyps):
    """the interval of a look-up, when the hypotheses place the argument in one:
    in a strictly increasing table  x_i <= x < x_{i+1}  determines i"""
    for s in brackets(t):
        lam, x = s.args
        lo, hi, body = lam.args
        if lo is not tm.ZERO or not increasing(lam, hyps):
            continue
        last = tm.sub(hi, tm.ONE)
        def xp(i):
            return tm.subst(body, {lam.val: i})
        for i in [tm.ZERO, tm.sub(last, tm.ONE)] + int_consts(hyps)[:8]:
            if i.op == "var" and not quick_implied([h for h in hyps if is_int_lin(h)], tm.and_(tm.le(lo, i), tm.lt(i, last)), 500):
                continue
            pr = tm.and_(tm.le(lo, i), tm.lt(i, last), tm.le(xp(i), x), tm.lt(x, xp(tm.add(i, tm.ONE))))
            if quick_implied(hyps, pr, 1500):
                t = tm.subst(t, {s: i})
                break
    return t


class Goal:
    def __init__(self, hyps, defs, deadline):
        self.defs, self.deadline = defs, deadline


MAXSPLIT = 7


def zero(d, hyps, defs, depth=0, unf=0, deadline=None, polished=False):
    """d = 0 under hyps by normal form?"""
    if deadline and time.time() > deadline:
        return False
    d0 = simp(d, hyps)
    d = pick_brackets(d0, hyps)
    if d is not d0:
        for m in eq_rewrites(hyps):
            d = tm.subst(d, m)
        d = simp(d, hyps)
    if d.sort == "B":
        return False
    poscache = {}

    def pos(t):
        r = poscache.get(t)
        if r is None:
            hs, vs = hyps, tm.fv(t)
            for v, lo, hi in N.ranges:
                if v in vs:
                    hs = list(hs) + [tm.le(lo, v), tm.lt(v, hi)]
            r = quick_implied(hs, tm.lt(tm.RZERO, t), 600)
            poscache[t] = r
        return r
    N = Norm(positive=pos)
    try:
        p = N(d)
        if N.is_zero(p):
            return True
        d2 = N.to_term(N.reduce(p))
    except (TooBig, ZeroDivisionError, RecursionError):
        return False
    d2 = pick_brackets(d2, hyps)
    ites = [c for c in collect_ites(d2) if not any(v.val.startswith("$") for v in tm.fv(c))]
    if not ites and depth < MAXSPLIT and not polished and any(x.op == "sum" for x in tm.subterms(d) | tm.subterms(d2)):
        m = {}
        dq = d
        for q in int_equalities(hyps):
            dq = tm.subst(dq, q)
        if dq is not d and zero(dq, hyps, defs, depth, unf, deadline, True):
            return True
        di = indicate(d)
        if di is not d:
            try:
                if N.is_zero(N(di)):
                    return True
            except (TooBig, ZeroDivisionError, RecursionError):
                pass
        for x in tm.subterms(d2):
            if x.op == "sum" and x.args[1].sort == "I" and not any(v.val.startswith("$") for v in tm.fv(x)):
                if quick_implied(hyps, tm.le(x.args[1], x.args[0])):
                    m[x] = tm.const(0) if x.sort == "I" else tm.RZERO
                elif quick_implied(hyps, tm.eq(x.args[1], tm.add(x.args[0], tm.ONE))):
                    m[x] = tm.subst(x.args[2], {x.val: x.args[0]})
        d3 = simp(tm.subst(d2, m) if m else d2, hyps)
        for q in int_equalities(hyps):
            d3 = tm.subst(d3, q)
        iv = sorted((x for x in tm.fv(d3) if x.sort == "I" and not x.val.startswith("$")), key=lambda x: x.val)
        for j, x in enumerate(iv[:5]):
            for y in [tm.ZERO] + iv[:j]:
                if quick_implied(hyps, tm.eq(x, y)):
                    d3 = tm.subst(d3, {x: y})
                    break
        if d3 is not d2:
            return zero(d3, hyps, defs, depth + 1, unf, deadline)
        ites = sum_splits(d2, hyps)
    if ites and depth < MAXSPLIT:
        ites = sorted(set(ites), key=lambda c: (bool(collect_ites(c)), len(tm.subterms(c)), c.id))
        c = ites[0]
        ok = True
        for val in (True, False):
            h2 = list(hyps) + [c if val else tm.not_(c)]
            if not smt.FEAS.feasible(relevant(h2, c)):
                continue
            dd = assume_cond(d2, c, val)
            le0 = h2[-1]
            if le0.op == "le" and le0.args[0].sort == "R" and quick_implied(hyps, tm.le(tm.RZERO, le0.args[0]), 600):
                h2[-1] = tm.eq(le0.args[0], tm.RZERO)
            for m in eq_rewrites(h2[-1:]):
                dd = tm.subst(dd, m)
            if le0.op == "le" and le0.args[0].sort == "I":
                for m in int_equalities(h2):
                    dd = tm.subst(dd, m)
            if not zero(dd, h2, defs, depth + 1, unf, deadline):
                ok = False
                break
        if ok:
            return True
    if defs and unf < 4:
        d3 = unfold(d2, hyps, defs)
        if d3 is not None and d3 is not d2:
            return zero(d3, hyps, defs, depth, unf + 1, deadline)
    return False


def unfold(t, hyps, defs):
    """one unfolding step of the top-most defined applications"""
    apps = [s for s in tm.subterms(t) if s.op == "app" and s.val in defs and not any(v.val.startswith("$") for v in tm.fv(s))]
    if not apps:
        return None
    m = {}
    for a in apps:
        g, b = defs[a.val].inst(a.args)
        # only unfold when some other application is "below" this one, or base case, or non-recursive
        rec = [s for s in tm.subterms(b) if s.op == "app" and s.val in defs]
        if rec and a.args and a.args[0].op != "const":
            below = any(x is not a and x.val in defs and x.args and _less(x.args[0], a.args[0]) for x in apps)
            if not below and not quick_implied(hyps, tm.eq(a.args[0], tm.ZERO)):
                continue
        if quick_implied(hyps, g):
            m[a] = b
    if not m:
        # nothing below anything: unfold the maximal ones once
        return None
    return tm.subst(t, m)


def _less(a, b):
    d = tm.sub(b, a)
    return d.op == "const" and d.val > 0


def forall_rewrites(hyps):
    """forall k: f(k..) = rhs  as definitions"""
    out = {}
    for h in hyps:
        if h.op != "forall":
            continue
        lo, hi, body = h.args
        if body.op != "eq0":
            continue
        d = body.args[0]
        for x in d.args if d.op == "add" else (d,):
            k, r = tm.split_coef(x)
            if r is None or abs(k[0]) != 1 or k[1] != 0:
                continue
            if r.op == "app" and h.val in r.args and all(a is h.val or h.val not in tm.fv(a) for a in r.args):
                rest = tm.sub(d, x)
                if any(s.op == "app" and s.val == r.val for s in tm.subterms(rest)):
                    continue
                if len(r.args) != 1:
                    continue
                v = tm.fresh("fr", "I")
                val = tm.neg(rest) if k[0] == 1 else rest
                if r.sort == "I" and val.sort != "I":
                    continue
                out.setdefault(r.val, Def(r.val, [v], tm.subst(tm.to_real(val) if r.sort == "R" else val, {h.val: v}),
                                          tm.subst(tm.and_(tm.le(lo, h.val), tm.lt(h.val, hi)), {h.val: v})))
                break
    return out


class Outcome:
    def __init__(self, status, backend, detail="", model=None, wall=0.0):
        self.status, self.backend, self.detail, self.model, self.wall = status, backend, detail, model, wall


def prove(hyps, goal, defs=None, timeout=20000, deadline=None, depth=0):
    """-> Outcome(status in proved/refuted/unknown)"""
    defs = defs or {}
    if goal is tm.TRUE or goal in hyps or goal.op == "or" and any(g in hyps for g in goal.args):
        return Outcome("proved", "syntactic")
    if goal.op == "and":
        be = set()
        for g in goal.args:
            r = prove(hyps, g, defs, timeout, deadline, depth)
            if r.status != "proved":
                return r
            be.add(r.backend)
        return Outcome("proved", "+".join(sorted(be)))
    if goal.op == "forall":
        v = tm.fresh("sk", goal.val.sort)
        lo, hi, body = goal.args
        return prove(list(hyps) + [tm.le(lo, v), tm.lt(v, hi)], tm.subst(body, {goal.val: v}), defs, timeout, deadline, depth)
    if depth < 3 and (goal.op == "exists" or goal.op == "or" and any(g.op == "exists" for g in goal.args)):
        r = prove_exists(list(hyps), goal, defs, timeout, deadline, depth)
        if r is not None:
            return r
    if goal.op == "or":
        mains = [g for g in goal.args if g.op in ("eq0", "forall", "and")]
        if mains and depth < 6:
            for main in mains[:3]:
                others = [g for g in goal.args if g is not main]
                h2 = list(hyps)
                for o in others:
                    no = tm.not_(o)
                    h2 += list(no.args) if no.op == "and" else [no]
                if main.op == "eq0" or len(mains) == 1:
                    if not smt.FEAS.feasible(relevant(h2, goal)):
                        return Outcome("proved", "z3")
                    r = prove(h2, main, defs, timeout if len(mains) == 1 else timeout // 4, deadline, depth + 1)
                    if r.status == "proved" or len(mains) == 1:
                        return r
    pin = pinned(hyps, goal) if depth < 8 else None
    if pin is not None:
        v, e = pin
        hs = []
        for h in hyps:
            h = tm.subst(h, {v: e})
            hs += list(h.args) if h.op == "and" else [h] if h is not tm.TRUE else []
        if tm.FALSE in hs:
            return Outcome("proved", "syntactic")
        return prove(hs, tm.subst(goal, {v: e}), {k: d for k, d in defs.items()}, timeout, deadline, depth + 1)
    if goal.op == "iff":
        a, b = goal.args
        return prove(hyps, tm.and_(tm.implies(a, b), tm.implies(b, a)), defs, timeout, deadline, depth + 1)
    if goal in set(hyps):
        return Outcome("proved", "syntactic")
    if brackets(goal):
        hyps = list(hyps)
        tf = table_facts(hyps, goal)
        if tf:
            # the ground order facts stand in for the pairwise hypotheses
            hyps = [h for h in split_foralls(hyps) if not (h.op == "forall" and any(s.op == "forall" for s in tm.subterms(h.args[2])))]
            hyps += [f for f in tf if f not in set(hyps)]
    alldefs = dict(forall_rewrites(hyps))
    alldefs.update(defs)
    if goal.op == "eq0":
        t0 = time.time()
        d = goal.args[0]
        for m in eq_rewrites(hyps):
            d = tm.subst(d, m)
        ok = zero(d, list(hyps), alldefs, deadline=deadline)
        STATS["nf_time"] += time.time() - t0
        if ok:
            STATS["nf"] += 1
            return Outcome("proved", "normal-form")
        if depth < 4:
            d2 = congruent(d, list(hyps), defs, timeout, deadline, depth)
            if d2 is not d:
                r = prove(hyps, tm.eq(d2, tm.ZERO), defs, timeout, deadline, depth + 1)
                if r.status == "proved":
                    return r
    t0 = time.time()
    hs = list(hyps)
    g = simp(goal, hs)
    if g is not goal and g.op in ("and", "or", "forall", "eq0") and depth < 6:
        return prove(hyps, g, defs, timeout, deadline, depth + 1)
    # definitional facts for applications in the goal
    extra = def_facts(hs, g, alldefs)
    if any(s.op == "bigmax" for s in tm.subterms(g)):
        r = smt.query(relevant(hs, g), g, timeout=3000, light=True, want_model=False)
        if r.status == "proved":
            STATS["smt"] += 1
            return Outcome("proved", "z3", wall=r.wall)
    r = smt.query(relevant(hs, g) + extra + special_axioms(hs + extra + [g]), g, timeout=timeout)
    STATS["smt"] += 1
    STATS["smt_time"] += time.time() - t0
    be = "z3"
    return Outcome(r.status, be, "" if r.status == "proved" else str(r.model)[:2000] if r.status == "refuted" else str(r.model), r.model if r.status == "refuted" else None, r.wall)


def congruent(d, hyps, defs, timeout, deadline, depth):
    """functions of whole arrays: arguments that agree at every index are the same argument"""
    apps = {}
    for s in tm.subterms(d):
        if s.op == "app" and _closed(s) and any(a.op == "lam" for a in s.args):
            apps.setdefault((s.val, tuple(a.op == "lam" for a in s.args)), []).append(s)
        elif s.op == "bigmax" and _closed(s):
            apps.setdefault("bigmax", []).append(s)
    for _, ss in sorted(apps.items(), key=lambda x: x[1][0].id):
        ss.sort(key=lambda s: s.id)
        for i, y in enumerate(ss[1:5], 1):
            for x in ss[:i]:
                if x.op == "bigmax":
                    x1, y1 = [(tm.lam(z.val, *z.args),) for z in (x, y)]
                else:
                    x1, y1 = x.args, y.args
                if len(x1) == len(y1) and all(_same_arg(a, b, hyps, defs, timeout, deadline, depth) for a, b in zip(x1, y1)):
                    return tm.subst(d, {y: x})
    return d


def _same_arg(a, b, hyps, defs, timeout, deadline, depth):
    if a is b:
        return True
    if a.sort != b.sort and "B" in (a.sort, b.sort):
        return False
    if a.op != "lam":
        return a.sort != "B" and prove(hyps, tm.eq(a, b), defs, min(timeout, 3000), deadline, depth + 2).status == "proved"
    if b.op != "lam" or a.val.sort != b.val.sort:
        return False
    for p, q in zip(a.args[:2], b.args[:2]):
        if p is not q and prove(hyps, tm.eq(p, q), defs, min(timeout, 3000), deadline, depth + 2).status != "proved":
            return False
    v = tm.fresh("cg", a.val.sort)
    h = list(hyps) + [tm.le(a.args[0], v), tm.lt(v, a.args[1])]
    return prove(h, tm.eq(tm.subst(a.args[2], {a.val: v}), tm.subst(b.args[2], {b.val: v})), defs, min(timeout, 5000), deadline, depth + 2).status == "proved"


def _closed(t):
    return not any(v.val.startswith("$") for v in tm.fv(t))


def prove_exists(hyps, goal, defs, timeout, deadline, depth):
    """existential goals: witnesses are the arguments attaining the maxima that
    occur, and the index constants at hand"""
    cands = []
    hyps = list(hyps)
    known = {s.id: s for h in hyps if h.op in ("le", "lt", "eq0") for s in tm.subterms(h) if s.op == "bigmax" and _closed(s)}
    for s in sorted(known.values(), key=lambda s: s.id)[:3]:
        lo, hi, body = s.args
        if quick_implied(hyps, tm.lt(lo, hi)):
            m = tm.fresh("am", "I")
            hyps += [tm.le(lo, m), tm.lt(m, hi), tm.eq(s, tm.subst(body, {s.val: m}))]
            cands.append(m)
    for _ in range(6):
        ms = sorted([s for s in tm.subterms(goal) if s.op == "bigmax" and _closed(s) and not any(x is not s and x.op == "bigmax" and _closed(x) for x in tm.subterms(s))],
                    key=lambda s: s.id)
        if not ms:
            break
        b = ms[0]
        lo, hi, body = b.args
        if not quick_implied(hyps, tm.lt(lo, hi)):
            return None
        m = tm.fresh("am", "I")
        val = tm.subst(body, {b.val: m})
        goal = tm.subst(goal, {b: val})
        hyps = hyps + [tm.le(lo, m), tm.lt(m, hi), tm.forall(b.val, lo, hi, tm.le(body, val))]
        cands.append(m)
    ints = sorted({v for h in hyps if h.op in ("le", "lt") for v in tm.fv(h) if v.sort == "I" and v.op == "var" and not v.val.startswith("$")}, key=lambda v: v.id)
    cands += [v for v in ints if v not in cands][:6]
    alts = []
    for g in goal.args if goal.op == "or" else (goal,):
        if g.op == "exists":
            lo, hi, body = g.args
            for m in cands:
                alts.append(tm.and_(tm.le(lo, m), tm.lt(m, hi), tm.subst(body, {g.val: m})))
        else:
            alts.append(g)

    def leaf(hs, alts, d):
        if not smt.FEAS.feasible(hs):
            return True
        if deadline and time.time() > deadline:
            return False
        alts = [simp(a, hs) for a in alts]
        cs = sorted({c for a in alts for c in collect_ites(a) if _closed(c)}, key=lambda c: (len(tm.subterms(c)), c.id))
        for a in alts:
            for x in a.args if a.op == "or" else (a,):
                if not collect_ites(x) and prove(hs, x, defs, min(timeout, 1500), deadline, 3).status == "proved":
                    return True
        if cs and d < 8:
            c = cs[0]
            for v in (True, False):
                h2 = hs + [c if v else tm.not_(c)]
                if not leaf(h2, [assume_cond(a, c, v) for a in alts], d + 1):
                    return False
            return True
        return False
    if leaf(hyps, alts, 0):
        return Outcome("proved", "witness")
    return None


def def_facts(hyps, g, defs, rounds=2):
    out = []
    done = set()
    cur = [g] + [h for h in hyps if h.op != "forall"]
    for _ in range(rounds):
        new = []
        for s in smt.tm_subterms_all(cur):
            if s.op == "app" and s.val in defs and s not in done and not any(v.val.startswith("$") for v in tm.fv(s)):
                done.add(s)
                if len(done) > 60:
                    return out
                gd, b = defs[s.val].inst(s.args)
                new.append(tm.implies(gd, tm.eq(s, b)))
        out += new
        cur = new
        if not new:
            break
    return out


def special_axioms(ts):
    """facts about library functions that occur (stated in DESIGN.md)"""
    out = []
    for s in smt.tm_subterms_all(ts):
        if s.op == "pow" and s.sort == "C" and s.args[1].op == "const" and s.args[1].val == Fr(1, 2):
            # principal square root
            out.append(tm.le(tm.RZERO, tm.re(s)))
        if s.op == "app" and s.val == "bracket" and not any(v.val.startswith("$") for v in tm.fv(s)):
            l, x = s.args
            lo, hi, body = l.args
            def xp(i):
                return tm.subst(body, {l.val: i})
            inr = tm.and_(tm.le(xp(tm.ZERO), x), tm.lt(x, xp(tm.sub(hi, tm.ONE))))
            out.append(tm.implies(inr, tm.and_(tm.le(tm.ZERO, s), tm.lt(s, tm.sub(hi, tm.ONE)),
                                               tm.le(xp(s), x), tm.lt(x, xp(tm.add(s, tm.ONE))))))
    return out


def discharge(ob, timeout=20000, total=90):
    t0 = time.time()
    defs = ob.kw.get("defs") or {}
    try:
        r = prove(list(ob.hyps), ob.goal, defs, timeout, time.time() + total)
        if r.status != "proved" and total > 3:
            sf = sum_facts(list(ob.hyps), ob.goal)
            if sf:
                r2 = prove(list(ob.hyps) + sf, ob.goal, defs, timeout, time.time() + total)
                r = r2 if r2.status == "proved" else r
    except RecursionError:
        r = Outcome("unknown", "none", "recursion")
    ob.status, ob.backend, ob.model, ob.detail = r.status, r.backend, r.model, r.detail
    ob.wall = time.time() - t0
    return ob


def settle(ob, timeout=20000, total=90, samplers=None):
    """discharge; an unproved obligation is refuted only when a finite
    interpretation satisfies its hypotheses and falsifies it"""
    discharge(ob, timeout, total)
    if ob.status != "proved":
        from .refute import refute
        cex, sat = refute(ob.hyps, ob.goal, ob.kw.get("defs") or {}, {**(samplers or {}), **(ob.kw.get("samplers") or {})})
        if cex is not None:
            ob.status, ob.backend = "refuted", "evaluation of the obligation"
            ob.cex = cex
        else:
            ob.status = "unknown"
            ob.detail = "%s; %d satisfying samples, none falsifies it" % (str(ob.detail)[:300], sat)
    return ob

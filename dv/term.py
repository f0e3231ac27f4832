"""Hash-consed terms (the logic of the verifier).

Sorts: 'B' bool, 'I' integer, 'R' real, 'C' complex.  Numbers are mathematical
(machine arithmetic is treated as exact).  Constructors normalise lightly.
"""
from fractions import Fraction as Fr
import math

SORDER = {"I": 0, "R": 1, "C": 2}


class T:
    __slots__ = ("op", "args", "sort", "val", "id", "_fv", "_bd", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.id < other.id


_table = {}
_count = [0]


def mk(op, args, sort, val=None):
    key = (op, args, sort, val)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.val = op, args, sort, val
        _count[0] += 1
        t.id = _count[0]
        t._fv = None
        t._bd = None
        _table[key] = t
    return t


def memo(f):
    """terms are shared and never change: equal arguments, equal result"""
    d = {}

    def g(*xs):
        r = d.get(xs)
        if r is None:
            r = d[xs] = f(*xs)
        return r
    g.__name__, g.__doc__ = f.__name__, f.__doc__
    return g


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return mk("const", (), "I", Fr(v))
    if isinstance(v, Fr):
        return mk("const", (), "R", v)
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            return mk("app", (), "R", "nan" if v != v else ("+inf" if v > 0 else "-inf"))
        return mk("const", (), "R", Fr(repr(v)))
    if isinstance(v, complex):
        re, im = Fr(repr(v.real)), Fr(repr(v.imag))
        return cconst(re, im)
    raise TypeError(v)


def cconst(re, im):
    if im == 0:
        return mk("const", (), "R", re)
    return mk("const", (), "C", (re, im))


TRUE = mk("const", (), "B", True)
FALSE = mk("const", (), "B", False)


def is_const(t):
    return t.op == "const"


def cval(t):
    """Constant as (re, im)."""
    return t.val if t.sort == "C" else (t.val, Fr(0))


ZERO = const(0)
ONE = const(1)
RZERO = const(Fr(0))
RONE = const(Fr(1))
I = cconst(Fr(0), Fr(1))
PI = mk("var", (), "R", "pi")
NAN = const(float("nan"))
_fresh = [0]


def var(name, sort="R"):
    return mk("var", (), sort, name)


def fresh(name, sort="R"):
    _fresh[0] += 1
    return mk("var", (), sort, "%s!%d" % (name, _fresh[0]))


def app(name, args, sort="R"):
    return mk("app", tuple(args), sort, name)


def join(*sorts):
    s = "I"
    for x in sorts:
        if x == "B":
            x = "I"
        if SORDER[x] > SORDER[s]:
            s = x
    return s


def b2n(t):
    return ite(t, ONE, ZERO) if t.sort == "B" else t


# ---------------------------------------------------------------- arithmetic
def _cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


@memo
def split_coef(t):
    """t = coef * rest, coef a constant pair."""
    if t.op == "const":
        return cval(t), None
    if t.op == "mul" and t.args[0].op == "const":
        rest = t.args[1:]
        return cval(t.args[0]), (rest[0] if len(rest) == 1 else mk("mul", rest, join(*[r.sort for r in rest])))
    return (Fr(1), Fr(0)), t


@memo
def add(*xs):
    acc = {}
    order = []
    c = (Fr(0), Fr(0))
    sort = "I"
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x.sort == "B":
            x = b2n(x)
        sort = join(sort, x.sort)
        if x.op == "add":
            stack.extend(reversed(x.args))
            continue
        k, r = split_coef(x)
        if r is None:
            c = (c[0] + k[0], c[1] + k[1])
        elif r in acc:
            o = acc[r]
            acc[r] = (o[0] + k[0], o[1] + k[1])
        else:
            acc[r] = k
    out = []
    for r, k in acc.items():
        if k[0] == 0 and k[1] == 0:
            continue
        out.append(_scale(k, r))
    out.sort(key=lambda t: t.id)
    if c != (0, 0) or not out:
        cc = _mkconst(c, "I" if sort == "I" else "R")
        out.append(cc)
    if len(out) == 1:
        return out[0]
    return mk("add", tuple(out), join(*[o.sort for o in out]))


def _mkconst(k, sort):
    if k[1] != 0:
        return cconst(*k)
    if sort == "I" and k[0].denominator == 1:
        return mk("const", (), "I", k[0])
    return mk("const", (), "R", k[0])


def _scale(k, r):
    if k == (1, 0):
        return r
    cc = _mkconst(k, r.sort)
    fs = (cc,) + (r.args if r.op == "mul" else (r,))
    return mk("mul", fs, join(*[f.sort for f in fs]))


@memo
def neg(x):
    return mul(const(-1), x)


@memo
def sub(a, b):
    return add(a, neg(b))


@memo
def mul(*xs):
    c = (Fr(1), Fr(0))
    sort = "I"
    pw = {}
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x.sort == "B":
            x = b2n(x)
        sort = join(sort, x.sort)
        if x.op == "mul":
            stack.extend(reversed(x.args))
        elif x.op == "const":
            c = _cmul(c, cval(x))
        else:
            b, e = x, Fr(1)
            if x.op == "pow" and x.args[1].op == "const" and x.args[1].val.denominator == 1 and x.args[1].val > 0:
                b, e = x.args[0], x.args[1].val
            key = (b, e > 0)
            pw[key] = pw.get(key, Fr(0)) + e
    if c == (0, 0):
        return _mkconst(c, sort)
    fs = []
    for (b, _), e in pw.items():
        fs.append(b if e == 1 else pow_(b, mk("const", (), "I", e)))
    if not fs:
        return _mkconst(c, sort)
    fs.sort(key=lambda t: t.id)
    if len(fs) == 1 and fs[0].op == "add":
        if c == (1, 0):
            return fs[0]
        return add(*[mul(_mkconst(c, "I" if c[0].denominator == 1 else "R"), a) for a in fs[0].args])
    if c != (1, 0):
        fs.insert(0, _mkconst(c, "I" if c[0].denominator == 1 else "R"))
    if len(fs) == 1:
        return fs[0]
    return mk("mul", tuple(fs), join(*[f.sort for f in fs]))


def inv(b):
    if b.op == "const":
        re, im = cval(b)
        d = re * re + im * im
        if d != 0:
            return cconst(re / d, -im / d)
    return pow_(b, const(-1))


def div(a, b):
    if b.sort == "B":
        b = b2n(b)
    r = mul(a, inv(b))
    if r.sort == "I":
        if r.op == "const":
            return mk("const", (), "R", r.val)
        return to_real(r)
    return r


def to_real(t):
    if t.sort == "B":
        t = b2n(t)
    if t.sort != "I":
        return t
    if t.op == "const":
        return mk("const", (), "R", t.val)
    return mk("toreal", (t,), "R")


def pow_(b, e):
    if b.sort == "B":
        b = b2n(b)
    if e.op == "const" and e.sort in "IR":
        v = e.val
        if v == 0:
            return ONE if b.sort == "I" else RONE
        if v == 1:
            return b
        if v.denominator == 1:
            n = int(v)
            if b.op == "const" and abs(n) < 64 and (n > 0 or cval(b) != (0, 0)):
                r = (Fr(1), Fr(0))
                for _ in range(abs(n)):
                    r = _cmul(r, cval(b))
                res = _mkconst(r, b.sort)
                return res if n > 0 else inv(res)
            if b.op == "pow" and b.args[1].op == "const" and b.args[1].val.denominator == 1:
                if (b.args[1].val > 0) == (n > 0) or b.args[1].val < 0:
                    return pow_(b.args[0], const(int(b.args[1].val) * n))
            if b.op == "pow" and n > 0 and b.args[1].op == "const" and (b.args[1].val * n).denominator == 1:
                if b.args[1].val > 0:
                    return pow_(b.args[0], const(int(b.args[1].val * n)))
            s = b.sort
            if n < 0:
                s = join(s, "R")
            return mk("pow", (b, const(n)), s)
        if v == Fr(1, 2) and b.op == "const" and b.sort != "C" and b.val >= 0:
            for q in (b.val,):
                rn, rd = math.isqrt(q.numerator), math.isqrt(q.denominator)
                if rn * rn == q.numerator and rd * rd == q.denominator:
                    return mk("const", (), "R", Fr(rn, rd))
        if b is ONE or b is RONE:
            return RONE
        return mk("pow", (b, mk("const", (), "R", v)), join(b.sort, "R"))
    if b.op == "const" and b.sort in "IR" and b.val == 1:
        return RONE
    return mk("pow", (b, e), join(b.sort, e.sort, "R"))


def sqrt(x):
    return pow_(x, mk("const", (), "R", Fr(1, 2)))


def exp(x):
    if x.op == "const" and x.sort in "IR" and x.val == 0:
        return RONE
    if x.op == "log":
        return x.args[0]
    return mk("exp", (x,), join(x.sort, "R"))


def log(x):
    if x.op == "const" and x.sort in "IR" and x.val == 1:
        return RZERO
    if x.op == "exp" and x.sort == "R":
        return x.args[0]
    return mk("log", (x,), join(x.sort, "R"))


def fun(name, x):
    return mk("fun", (x,), "R" if x.sort != "C" else "C", name)


def as_int(x):
    """the integer term a real term is the conversion of, or None"""
    if x.sort == "I":
        return x
    if x.op == "toreal":
        return x.args[0]
    if x.op == "const" and x.sort == "R" and getattr(x.val, "denominator", 0) == 1:
        return const(int(x.val))
    if x.op in ("add", "mul"):
        parts = [as_int(a) for a in x.args]
        if all(p is not None for p in parts):
            return (add if x.op == "add" else mul)(*parts)
    return None


def floor(x):
    if x.sort == "I":
        return x
    if x.op == "const":
        return const(math.floor(x.val))
    if x.op == "toreal":
        return x.args[0]
    whole = as_int(x)
    if whole is not None:
        return whole
    # pull out integer constants
    if x.op == "add":
        c = [a for a in x.args if a.op == "const"]
        if c and c[0].val.denominator == 1 and c[0].val != 0:
            rest = add(*[a for a in x.args if a.op != "const"])
            return add(floor(rest), const(int(c[0].val)))
    return mk("floor", (x,), "I")


def ceil(x):
    if x.sort == "I":
        return x
    return neg(floor(neg(x)))


def re(t):
    if t.sort != "C":
        return t
    if t.op == "const":
        return mk("const", (), "R", t.val[0])
    if t.op == "add":
        return add(*[re(a) for a in t.args])
    if t.op == "mul":
        rl = [a for a in t.args if a.sort != "C"]
        cl = [a for a in t.args if a.sort == "C"]
        if len(cl) > 1 and cl[0].op == "const":
            # (a+bi) z = a re z - b im z
            rest = mul(*cl[1:])
            return mul(*rl, sub(mul(re(cl[0]), re(rest)), mul(im(cl[0]), im(rest))))
        if len(cl) == 1 and rl:
            return mul(*rl, re(cl[0]))
    if t.op == "ite":
        return ite(t.args[0], re(t.args[1]), re(t.args[2]))
    if t.op == "conj":
        return re(t.args[0])
    return mk("re", (t,), "R")


def im(t):
    if t.sort != "C":
        return RZERO
    if t.op == "const":
        return mk("const", (), "R", t.val[1])
    if t.op == "add":
        return add(*[im(a) for a in t.args])
    if t.op == "mul":
        rl = [a for a in t.args if a.sort != "C"]
        cl = [a for a in t.args if a.sort == "C"]
        if len(cl) > 1 and cl[0].op == "const":
            rest = mul(*cl[1:])
            return mul(*rl, add(mul(re(cl[0]), im(rest)), mul(im(cl[0]), re(rest))))
        if len(cl) == 1 and rl:
            return mul(*rl, im(cl[0]))
    if t.op == "ite":
        return ite(t.args[0], im(t.args[1]), im(t.args[2]))
    if t.op == "conj":
        return neg(im(t.args[0]))
    return mk("im", (t,), "R")


def conj(t):
    if t.sort != "C":
        return t
    if t.op == "conj":
        return t.args[0]
    if t.op == "const":
        return cconst(t.val[0], -t.val[1])
    return mk("conj", (t,), "C")


def abs_(t):
    if t.sort == "B":
        t = b2n(t)
    if t.op == "const":
        if t.sort == "C":
            return sqrt(const(t.val[0] ** 2 + t.val[1] ** 2))
        return mk("const", (), t.sort, abs(t.val))
    if t.sort != "C":
        k, r = split_coef(t)
        if k[0] < 0:
            return abs_(neg(t))
        if t.op == "add":
            # canonical sign
            n = neg(t)
            if n.id < t.id:
                t = n
    return mk("abs", (t,), "R" if t.sort == "C" else t.sort)


# ---------------------------------------------------------------- logic
@memo
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return le(RZERO if a.args[0].sort != "I" else ZERO, a.args[0])
    if a.op == "le":
        return lt(RZERO if a.args[0].sort != "I" else ZERO, a.args[0])
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    if a.op == "forall":
        return mk("exists", (a.args[0], a.args[1], not_(a.args[2])), "B", a.val)
    if a.op == "exists":
        return mk("forall", (a.args[0], a.args[1], not_(a.args[2])), "B", a.val)
    return mk("not", (a,), "B")


def as_bool(t):
    if t.sort == "B":
        return t
    return ne(t, RZERO)


def and_(*xs):
    out, seen = [], set()
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            stack.extend(reversed(x.args))
            continue
        if x in seen:
            continue
        if not_(x) in seen:
            return FALSE
        seen.add(x)
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk("and", tuple(out), "B")


def or_(*xs):
    out, seen = [], set()
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == "or":
            stack.extend(reversed(x.args))
            continue
        if x in seen:
            continue
        if not_(x) in seen:
            return TRUE
        seen.add(x)
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk("or", tuple(out), "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    if b.id < a.id:
        a, b = b, a
    return mk("iff", (a, b), "B")


def _posneg(d):
    """normalise the scale of d (positive factor only)."""
    ts = d.args if d.op == "add" else (d,)
    k, _ = split_coef(ts[0])
    return k


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B" and b.sort == "B":
        return iff(a, b)
    if a.op == "ite" and is_const(a.args[1]) and is_const(a.args[2]) and is_const(b):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    d = demote(sub(a, b))
    if d.op == "const":
        return TRUE if cval(d) == (0, 0) else FALSE
    if d.op == "mul":
        fs = []
        for f in d.args:
            if f.op == "const":
                continue
            if f.op == "pow" and f.args[1].op == "const":
                if f.args[1].val < 0:
                    continue
                f = f.args[0]
            if f.op == "exp":
                continue
            fs.append(f)
        if not fs:
            return FALSE
        if len(fs) > 1 or fs[0] is not d:
            return or_(*[eq(f, RZERO) for f in fs])
    if d.op == "pow" and d.args[1].op == "const":
        if d.args[1].val < 0:
            return FALSE
        return eq(d.args[0], RZERO)
    if d.op == "exp":
        return FALSE
    if d.op == "abs":
        return eq(d.args[0], RZERO)
    if d.op == "toreal":
        return eq(d.args[0], ZERO)
    if d.op == "ite" and all(is_const(x) for x in d.args[1:]):
        return ite(d.args[0], eq(d.args[1], RZERO), eq(d.args[2], RZERO))
    k = _posneg(d)
    if k != (1, 0):
        if k[1] == 0:
            d2 = mul(_mkconst((1 / k[0], Fr(0)), "I" if d.sort == "I" else "R"), d)
            if not (d.sort == "I" and d2.sort != "I"):
                d = d2
    if d.sort == "I" and d.op == "add":
        if all(split_coef(x)[0][0].denominator == 1 for x in d.args):
            g = 0
            cst = 0
            for x in d.args:
                kk, r = split_coef(x)
                if r is None:
                    cst = kk[0]
                else:
                    g = math.gcd(g, int(kk[0]))
            if g > 1:
                if cst.denominator != 1 or int(cst) % g != 0:
                    return FALSE
    return mk("eq0", (d,), "B")


def ne(a, b):
    return not_(eq(a, b))


def _signfold(d):
    k = _posneg(d)
    c = abs(k[0])
    if c not in (0, 1) and d.sort != "I":
        return mul(mk("const", (), "R", 1 / c), d)
    return d


def _ite_const_fold(f, d):
    if d.op == "ite" and all(is_const(x) for x in d.args[1:]):
        return ite(d.args[0], f(d.args[1]), f(d.args[2]))
    return None


@memo
def lt(a, b):
    d = demote(sub(a, b))
    if d.op == "const":
        return TRUE if d.val < 0 else FALSE
    r = _ite_const_fold(lambda x: TRUE if x.val < 0 else FALSE, d)
    if r is not None:
        return r
    if d.sort == "I" and int_coefs(d):
        return le(add(d, ONE), ZERO)
    return mk("lt", (_signfold(d),), "B")


def demote(d):
    """a real-sorted combination of integers only, as an integer"""
    if d.sort != "R" or d.op not in ("add", "mul", "toreal"):
        return d
    out = []
    for x in d.args if d.op == "add" else (d,):
        if x.op == "const":
            if x.val.denominator != 1:
                return d
            out.append(const(int(x.val)))
        elif x.sort == "I":
            out.append(x)
        elif x.op == "toreal":
            out.append(x.args[0])
        elif x.op == "mul" and len(x.args) == 2 and x.args[0].op == "const" and x.args[0].val.denominator == 1 and (x.args[1].sort == "I" or x.args[1].op == "toreal"):
            y = x.args[1]
            out.append(mul(const(int(x.args[0].val)), y.args[0] if y.op == "toreal" else y))
        else:
            return d
    r = add(*out)
    return r if r.sort == "I" else d


def int_coefs(d):
    for x in d.args if d.op == "add" else (d,):
        if split_coef(x)[0][0].denominator != 1:
            return False
    return True


@memo
def le(a, b):
    d = demote(sub(a, b))
    if d.op == "const":
        return TRUE if d.val <= 0 else FALSE
    r = _ite_const_fold(lambda x: TRUE if x.val <= 0 else FALSE, d)
    if r is not None:
        return r
    return mk("le", (_signfold(d),), "B")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B" and b.sort == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        return and_(or_(not_(c), a), or_(c, b))
    if a.sort == "B":
        a = b2n(a)
    if b.sort == "B":
        b = b2n(b)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), join(a.sort, b.sort))


def min_(a, b):
    return ite(le(a, b), a, b)


def max_(a, b):
    return ite(le(b, a), a, b)


# ---------------------------------------------------------------- binders
def _bdepth(t):
    if t._bd is None:
        d = 0
        for a in t.args:
            d = max(d, _bdepth(a))
        if t.op in BINDERS:
            d += 1
        t._bd = d
    return t._bd


BINDERS = ("sum", "forall", "exists", "bigmax", "bigmin", "lam")


def bind(op, v, lo, hi, body, sort):
    bv = mk("var", (), v.sort, "$%d" % _bdepth(body))
    if bv is not v:
        body = subst(body, {v: bv})
    return mk(op, (lo, hi, body), sort, bv)


def bigsum(v, lo, hi, body):
    """sum_{v=lo}^{hi-1} body (zero when hi <= lo is NOT built in: prefix semantics)."""
    if body.sort == "B":
        body = b2n(body)
    if is_const(body) and cval(body) == (0, 0):
        return body
    d = sub(hi, lo)
    if d.op == "const" and d.val <= 12:
        r = ZERO
        n = int(d.val)
        for i in range(max(n, 0)):
            r = add(r, subst(body, {v: add(lo, const(i))}))
        return r
    if body.op == "mul" and body.args[0].op == "const":
        return mul(body.args[0], bigsum(v, lo, hi, mul(*body.args[1:])))
    return bind("sum", v, lo, hi, body, body.sort)


def forall(v, lo, hi, body):
    if body is TRUE:
        return TRUE
    d = sub(hi, lo)
    if d.op == "const" and d.val <= 12:
        return and_(*[subst(body, {v: add(lo, const(i))}) for i in range(max(int(d.val), 0))])
    return bind("forall", v, lo, hi, body, "B")


def exists(v, lo, hi, body):
    return not_(forall(v, lo, hi, not_(body)))


def bigmax(v, lo, hi, body):
    d = sub(hi, lo)
    if d.op == "const" and 1 <= d.val <= 12:
        r = subst(body, {v: lo})
        for i in range(1, int(d.val)):
            r = max_(r, subst(body, {v: add(lo, const(i))}))
        return r
    return bind("bigmax", v, lo, hi, body, body.sort)


def bigmin(v, lo, hi, body):
    return neg(bigmax(v, lo, hi, neg(body)))


def lam(v, lo, hi, body):
    """closure argument for abstract functionals over vectors (extensional by alpha-equality)."""
    return bind("lam", v, lo, hi, body, body.sort)


# ---------------------------------------------------------------- traversal
def fv(t):
    if t._fv is None:
        if t.op == "var":
            t._fv = frozenset((t,))
        else:
            s = frozenset().union(*[fv(a) for a in t.args]) if t.args else frozenset()
            if t.op in BINDERS:
                s = (fv(t.args[2]) - {t.val}) | fv(t.args[0]) | fv(t.args[1])
            t._fv = s
    return t._fv


def rebuild(t, args):
    op = t.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        return pow_(*args)
    if op == "exp":
        return exp(*args)
    if op == "log":
        return log(*args)
    if op == "fun":
        return fun(t.val, args[0])
    if op == "floor":
        return floor(*args)
    if op == "toreal":
        return to_real(*args)
    if op == "re":
        return re(*args)
    if op == "im":
        return im(*args)
    if op == "conj":
        return conj(*args)
    if op == "abs":
        return abs_(*args)
    if op == "not":
        return not_(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "iff":
        return iff(*args)
    if op == "eq0":
        return eq(args[0], RZERO)
    if op == "lt":
        return lt(args[0], RZERO if args[0].sort != "I" else ZERO)
    if op == "le":
        return le(args[0], RZERO if args[0].sort != "I" else ZERO)
    if op == "ite":
        return ite(*args)
    return mk(op, tuple(args), t.sort, t.val)


def subst(t, m, memo=None):
    """m: dict var/term -> term."""
    if memo is None:
        memo = {}
    keys = frozenset(k for k in m if k.op == "var")
    general = len(keys) != len(m)

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        if not t.args:
            return t
        if not general and not (fv(t) & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in BINDERS:
            lo, hi = go(t.args[0]), go(t.args[1])
            bv, body = t.val, t.args[2]
            if general or (fv(body) & keys):
                nv = fresh("b", bv.sort)
                body = subst(subst(body, {bv: nv}), {k: v for k, v in m.items() if k is not bv})
                r = {"sum": bigsum, "forall": forall, "bigmax": bigmax, "lam": lam}.get(t.op, None)
                if r is None:
                    r = lambda v, l, h, b: bind(t.op, v, l, h, b, t.sort)
                r = r(nv, lo, hi, body)
            else:
                f = {"sum": bigsum, "forall": forall, "bigmax": bigmax, "lam": lam}.get(t.op)
                if f is None:
                    r = bind(t.op, bv, lo, hi, body, t.sort)
                else:
                    r = f(bv, lo, hi, body)
        else:
            r = rebuild(t, [go(a) for a in t.args])
        memo[t] = r
        return r

    return go(t)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(x.args)
    return seen


def show(t, d=0):
    if d > 12:
        return "…"
    s = lambda x: show(x, d + 1)
    if t.op == "const":
        if t.sort == "B":
            return str(t.val)
        if t.sort == "C":
            return "(%s%+gj)" % (_fr(t.val[0]), float(t.val[1]))
        return _fr(t.val)
    if t.op == "var":
        return str(t.val)
    if t.op == "app":
        return "%s(%s)" % (t.val, ", ".join(map(s, t.args)))
    if t.op == "add":
        return "(" + " + ".join(map(s, t.args)) + ")"
    if t.op == "mul":
        return "*".join(map(s, t.args))
    if t.op == "pow":
        return "%s**%s" % tuple(map(s, t.args))
    if t.op == "eq0":
        return "(%s == 0)" % s(t.args[0])
    if t.op == "lt":
        return "(%s < 0)" % s(t.args[0])
    if t.op == "le":
        return "(%s <= 0)" % s(t.args[0])
    if t.op in BINDERS:
        return "%s[%s in %s..%s](%s)" % (t.op, t.val.val, s(t.args[0]), s(t.args[1]), s(t.args[2]))
    if t.op == "fun":
        return "%s(%s)" % (t.val, s(t.args[0]))
    return "%s(%s)" % (t.op, ", ".join(map(s, t.args)))


def _fr(v):
    if v.denominator == 1:
        return str(v.numerator)
    f = float(v)
    if Fr(repr(f)) == v:
        return repr(f)
    return "%d/%d" % (v.numerator, v.denominator)

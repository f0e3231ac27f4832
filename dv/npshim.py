"""numpy over symbolic arrays (definitions; the listed contracts are assumed of numpy)."""
import math
import numpy as _np
from . import term as tm
from . import core
from .norm import Norm, TooBig
from .core import Sym, Unsupported, term_of, wrap, is_num, num
from .arrays import (Arr, MArr, DType, dimterm, dimval, mkarr, from_terms, scalar_arr, elementwise, as_arr, same_dim,
                     reshape as _reshape)
from . import seq as sq
from .seq import SList

RTOL, ATOL = tm.const(1e-05), tm.const(1e-08)


def asarray(v, dtype=None, copy=False):
    k = core.kind_of(dtype) if dtype is not None else None
    if isinstance(v, (Arr, MArr)):
        if k is not None and k != v.sort:
            return v.astype(dtype)
        return v.copy() if copy else v
    if v is None:
        raise TypeError("array of None")
    if isinstance(v, _np.ndarray):
        return from_np(v) if k is None else from_np(v).astype(dtype)
    if hasattr(v, "_dv_series"):
        return v.values
    if is_num(v):
        return scalar_arr(core.cast_term(term_of(v), k))
    from .interp import GenResult
    if isinstance(v, GenResult):
        v = v.rest()
    if isinstance(v, range):
        v = list(v)
    if isinstance(v, SList) and v.sym is not None:
        r = from_seq(v.sym)
        return r if k is None else r.astype(dtype)
    if isinstance(v, (list, tuple)):
        items = list(v)
        if not items:
            return Arr((0,), lambda i: tm.RZERO, k or "R")
        if all(isinstance(x, str) for x in items):
            return SList(items)
        parts = [asarray(x) if not is_num(x) else None for x in items]
        if all(p is None for p in parts):
            r = from_terms([term_of(x) for x in items])
        else:
            arrs = [p if p is not None else scalar_arr(term_of(x)) for p, x in zip(parts, items)]
            if any(isinstance(a, MArr) for a in arrs):
                raise Unsupported("array of selections")
            arrs = [a if a.ndim or all(b.ndim == 0 for b in arrs) else a for a in arrs]
            if any(a.ndim != arrs[0].ndim for a in arrs):
                raise ValueError("setting an array element with a sequence. inhomogeneous shape")
            if arrs[0].ndim == 0:
                r = from_terms([a.at() for a in arrs])
            else:
                r = stack(arrs)
        return r if k is None else r.astype(dtype)
    raise TypeError("cannot make an array of %s" % type(v).__name__)


def from_seq(s):
    if isinstance(s, sq.FilterSeq):
        n = s.n
        return MArr(mkarr((n,), lambda i: term_of(s.fn(i))), mkarr((n,), s.cond, "B"))
    if isinstance(s, sq.NestedSeq):
        raise Unsupported("array of a flattened sequence")
    n = dimval(s.length())
    pr = s.at(tm.var("?probe", "I"))
    if is_num(pr):
        return mkarr((n,), lambda i: term_of(s.at(i)))
    if isinstance(pr, Arr):
        return mkarr((n,) + pr.shape, lambda i, *ix: s.at(i).at(*ix), pr.sort)
    if isinstance(pr, (tuple, SList)):
        m = len(pr)
        return mkarr((n, m), lambda i, j: asarray(list(s.at(i))).at(j))
    raise TypeError("array of %s" % type(pr).__name__)


def from_np(a):
    if a.ndim == 0:
        return scalar_arr(term_of(a.item()))
    ts = [term_of(x) for x in a.ravel().tolist()]
    sort = {"f": "R", "i": "I", "u": "I", "c": "C", "b": "B"}.get(a.dtype.kind)
    if sort is None:
        raise Unsupported("array dtype")
    r = from_terms(ts, sort)
    return r if a.ndim == 1 else _reshape(r, a.shape)


def stack(arrs, axis=0):
    n = len(arrs)
    sh = arrs[0].shape
    for a in arrs[1:]:
        if len(a.shape) != len(sh) or not all(same_dim(x, y) for x, y in zip(a.shape, sh)):
            raise ValueError("all input arrays must have the same shape")
    fs = [a.frozen() for a in arrs]
    sort = fs and tm.join(*[a.sort for a in arrs]) if not all(a.sort == "B" for a in arrs) else "B"

    def fn(*ix):
        i, rest = ix[axis], ix[:axis] + ix[axis + 1:]
        if i.op == "const":
            return fs[int(i.val)](*rest)
        r = fs[-1](*rest)
        for j in range(n - 2, -1, -1):
            r = tm.ite(tm.eq(i, tm.const(j)), fs[j](*rest), r)
        return r
    shape = list(sh)
    shape.insert(axis, n)
    return Arr(shape, fn, sort)


def concat(arrs, axis=0):
    arrs = [a if isinstance(a, Arr) else asarray(a) for a in arrs]
    if any(isinstance(a, MArr) for a in arrs):
        raise Unsupported("concatenating selections")
    if len(arrs) == 1:
        return arrs[0].copy()
    if axis < 0:
        axis += arrs[0].ndim
    nd = arrs[0].ndim
    for a in arrs[1:]:
        if a.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for d in range(nd):
            if d != axis and not same_dim(a.shape[d], arrs[0].shape[d]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    fs = [a.frozen() for a in arrs]
    dims = [dimterm(a.shape[axis]) for a in arrs]
    offs = [tm.ZERO]
    for d in dims:
        offs.append(tm.add(offs[-1], d))
    shape = list(arrs[0].shape)
    shape[axis] = dimval(offs[-1])
    sorts = [a.sort for a in arrs if not (isinstance(a.shape[axis], int) and a.shape[axis] == 0)] or ["R"]
    sort = "B" if all(s == "B" for s in sorts) else tm.join(*sorts)

    def fn(*ix):
        i = ix[axis]
        r = None
        for k in range(len(fs) - 1, -1, -1):
            d = dims[k]
            if d is tm.ZERO:
                continue
            if i.op == "const" and offs[k].op == "const" and offs[k + 1].op == "const":
                if offs[k].val <= i.val < offs[k + 1].val:
                    j = tm.sub(i, offs[k])
                    return fs[k](*(ix[:axis] + (j,) + ix[axis + 1:]))
                continue
            if r is not None:
                cond = tm.lt(i, offs[k + 1])
                if cond is tm.FALSE:
                    continue
            j = tm.sub(i, offs[k])
            v = fs[k](*(ix[:axis] + (j,) + ix[axis + 1:]))
            r = v if r is None else tm.ite(cond, v, r)
        if r is None:
            raise IndexError("index out of range")
        return r
    return Arr(shape, fn, sort)


# ------------------------------------------------------------------ reductions
_rv = [0]


def rvar():
    _rv[0] += 1
    return tm.var("?r%d" % _rv[0], "I")


def reduce_dim(f, n, op):
    """op over f(i), i<n (n int or term); f: index term -> term"""
    if isinstance(n, int):
        ts = [f(tm.const(i)) for i in range(n)]
        if op == "sum":
            return tm.add(*ts) if ts else tm.RZERO
        if op == "prod":
            return tm.mul(*ts) if ts else tm.RONE
        if op == "all":
            return tm.and_(*[tm.as_bool(t) for t in ts])
        if op == "any":
            return tm.or_(*[tm.as_bool(t) for t in ts])
        if not ts:
            raise ValueError("zero-size array to reduction operation which has no identity")
        r = ts[0]
        for t in ts[1:]:
            r = tm.max_(r, t) if op == "max" else tm.min_(r, t)
        return r
    v = rvar()
    b = f(v)
    if op == "sum":
        return tm.bigsum(v, tm.ZERO, n, b)
    if op == "all":
        return tm.forall(v, tm.ZERO, n, tm.as_bool(b))
    if op == "any":
        return tm.exists(v, tm.ZERO, n, tm.as_bool(b))
    if op == "max":
        return tm.bigmax(v, tm.ZERO, n, b)
    if op == "min":
        return tm.bigmin(v, tm.ZERO, n, b)
    if op == "prod":
        return tm.exp(tm.bigsum(v, tm.ZERO, n, tm.log(b)))
    raise Unsupported(op)


def reduction(a, op, axis=None, keepdims=False):
    if isinstance(a, (Sym, int, float, bool)) or is_num(a):
        return a if op not in ("all", "any") else wrap(tm.as_bool(term_of(a)))
    a = as_arr(a)
    if isinstance(a, MArr):
        n = a.full
        m, b = a.mask, a.base
        if op == "sum":
            return wrap(reduce_dim(lambda i: tm.ite(m.at(i), num(b.at(i)), tm.RZERO if b.sort != "B" else tm.ZERO), n, "sum"))
        if op == "all":
            return wrap(reduce_dim(lambda i: tm.implies(m.at(i), tm.as_bool(b.at(i))), n, "all"))
        if op == "any":
            return wrap(reduce_dim(lambda i: tm.and_(m.at(i), tm.as_bool(b.at(i))), n, "any"))
        raise Unsupported("reduction %s of a selection" % op)
    f = a.frozen()
    pre = num if op in ("sum", "prod", "max", "min") else (lambda t: t)
    if axis is None:
        dims = list(a.shape)

        def go(ix, k):
            if k == len(dims):
                return pre(f(*ix))
            return reduce_dim(lambda i: go(ix + (i,), k + 1), dims[k], op)
        return wrap(go((), 0))
    if isinstance(axis, Sym):
        axis = int(axis)
    if axis < 0:
        axis += a.ndim
    if a.ndim == 1:
        return wrap(reduce_dim(lambda i: pre(f(i)), a.shape[0], op))
    shape = a.shape[:axis] + a.shape[axis + 1:]
    n = a.shape[axis]
    r = mkarr(shape, lambda *ix: reduce_dim(lambda i: pre(f(*(ix[:axis] + (i,) + ix[axis:]))), n, op))
    if keepdims:
        key = [slice(None)] * len(shape)
        key.insert(axis, None)
        r = r[tuple(key)]
    return r


def count(a, axis=None):
    if axis is None:
        return a.size if isinstance(a, (Arr, MArr)) else 1
    d = a.shape[axis]
    return d if isinstance(d, int) else Sym(d)


def mean(a, axis=None, **kw):
    a = as_arr(a)
    if isinstance(a, Arr) and a.ndim == 0:
        return wrap(a.at())
    s = reduction(a, "sum", axis)
    return s / count(a, axis)


def attach():
    for op in ("sum", "max", "min", "all", "any", "prod"):
        def m(self, axis=None, op=op, **kw):
            return reduction(self, op, axis)
        setattr(Arr, op, m)
        setattr(MArr, op, m)
    Arr.mean = lambda self, axis=None: mean(self, axis)
    MArr.mean = Arr.mean
    Arr.cumsum = lambda self, axis=None: cumsum(self)
    Arr.dot = lambda self, o: dot(self, o)
    Arr.__matmul__ = lambda self, o: dot(self, o)
    Arr.clip = lambda self, lo=None, hi=None: clip(self, lo, hi)
    Arr.argmax = lambda self, *a: (_ for _ in ()).throw(Unsupported("argmax"))
    Arr.fill = lambda self, v: self.__setitem__(Ellipsis, v)
    Arr.std = lambda self, axis=None: elementwise(tm.sqrt, var(self, axis))


def dot(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 1 and b.ndim == 1:
        return reduction(a * b, "sum")
    if a.ndim == 2 and b.ndim == 1:
        return reduction(a * b[None, :], "sum", 1)
    if a.ndim == 2 and b.ndim == 2:
        f, g, n = a.frozen(), b.frozen(), a.shape[1]
        return mkarr((a.shape[0], b.shape[1]), lambda i, j: reduce_dim(lambda k: tm.mul(f(i, k), g(k, j)), n, "sum"))
    raise Unsupported("dot")


# ------------------------------------------------------------------ functions
def u1(f):
    def g(x, out=None, **kw):
        if out is not None:
            raise Unsupported("out=")
        if hasattr(x, "_dv_series"):
            x = x.values
        return elementwise(lambda t: f(num(t)), x)
    return g


def u2(f):
    def g(x, y, out=None, **kw):
        if out is not None:
            raise Unsupported("out=")
        return elementwise(lambda a, b: f(num(a), num(b)), x, y)
    return g


def finite(t):
    """all divisions of t are defined (and no NaN/inf token)"""
    conds = []
    seen = set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == "pow" and t.args[1].op == "const" and t.args[1].val < 0:
            conds.append(tm.ne(t.args[0], tm.RZERO))
        if t.op == "app" and t.val in ("nan", "+inf", "-inf") and not t.args:
            conds.append(tm.FALSE)
        if t.op in tm.BINDERS or t.op == "app":
            return
        if t.op == "ite":
            conds.append(tm.and_(tm.implies(t.args[0], finite(t.args[1])), tm.implies(tm.not_(t.args[0]), finite(t.args[2]))))
            return
        for a in t.args:
            go(a)
    go(t)
    return tm.and_(*conds)


def isnan_t(t):
    if t is tm.NAN:
        return tm.TRUE
    if t.op == "ite":
        return tm.ite(t.args[0], isnan_t(t.args[1]), isnan_t(t.args[2]))
    if t.op in ("add", "mul") and any(tm.NAN in tm.subterms(a) for a in t.args):
        return tm.or_(*[isnan_t(a) for a in t.args])
    if t.op in ("log", "exp", "abs", "pow"):
        return isnan_t(t.args[0])
    return tm.FALSE


def not_nan(t):
    """t where isnan_t(t) does not hold"""
    if t.op == "ite":
        if t.args[1] is tm.NAN:
            return not_nan(t.args[2])
        if t.args[2] is tm.NAN:
            return not_nan(t.args[1])
        return tm.ite(t.args[0], not_nan(t.args[1]), not_nan(t.args[2]))
    if t.op in ("add", "mul") and any(tm.NAN in tm.subterms(a) for a in t.args):
        return (tm.add if t.op == "add" else tm.mul)(*[not_nan(a) for a in t.args])
    if t.op == "log":
        return tm.log(not_nan(t.args[0]))
    if t.op == "exp":
        return tm.exp(not_nan(t.args[0]))
    if t.op == "abs":
        return tm.abs_(not_nan(t.args[0]))
    if t.op == "pow":
        return tm.pow_(not_nan(t.args[0]), t.args[1])
    return t


def isclose_t(a, b, rtol, atol):
    if a is b:
        return tm.TRUE
    return tm.le(tm.abs_(tm.sub(a, b)), tm.add(atol, tm.mul(rtol, tm.abs_(b))))


def clip(a, a_min=None, a_max=None, **kw):
    if "min" in kw:
        a_min = kw["min"]
    if "max" in kw:
        a_max = kw["max"]

    r = a
    if a_min is not None:
        r = elementwise(lambda x, y: tm.max_(num(x), num(y)), r, a_min)
    if a_max is not None:
        r = elementwise(lambda x, y: tm.min_(num(x), num(y)), r, a_max)
    return r


def cumsum(a, axis=None):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum n-d")
    f = a.frozen()
    if isinstance(a.shape[0], int):
        out, s = [], tm.RZERO if a.sort == "R" else tm.ZERO
        for i in range(a.shape[0]):
            s = tm.add(s, f(tm.const(i)))
            out.append(s)
        return from_terms(out, a.sort)
    v = rvar()
    body = f(v)
    return mkarr(a.shape, lambda i: tm.bigsum(v, tm.ZERO, tm.add(i, tm.ONE), body))


def max_accumulate(a, axis=0):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("accumulate n-d")
    f = a.frozen()
    if isinstance(a.shape[0], int):
        out = []
        for i in range(a.shape[0]):
            t = f(tm.const(i))
            out.append(t if not out else tm.max_(out[-1], t))
        return from_terms(out, a.sort)
    v = rvar()
    body = f(v)
    return mkarr(a.shape, lambda i: tm.bigmax(v, tm.ZERO, tm.add(i, tm.ONE), body))


def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = as_arr(a)
    if isinstance(a, MArr):
        raise Unsupported("diff of selection")
    if n != 1 or a.ndim != 1:
        raise Unsupported("diff")
    ps = [a]
    if prepend is not None:
        ps.insert(0, atleast_1d(prepend))
    if append is not None:
        ps.append(atleast_1d(append))
    if len(ps) > 1:
        a = concat(ps)
    return a[1:] - a[:-1]


def atleast_1d(a):
    a = asarray(a)
    if isinstance(a, Arr) and a.ndim == 0:
        return a[None] if False else mkarr((1,), lambda i: a.at(), a.sort)
    return a


def lam_of(f, n):
    v = rvar()
    return tm.lam(v, tm.ZERO, dimterm(n), f(v))


def interp_term(x, n, xf, yf, left=None, right=None):
    """np.interp at x for increasing xf(0..n-1)"""
    nt = dimterm(n)
    last = tm.sub(nt, tm.ONE)
    l = yf(tm.ZERO) if left is None else left
    r = yf(last) if right is None else right

    def seg(k):
        x0, x1 = xf(k), xf(tm.add(k, tm.ONE))
        y0, y1 = yf(k), yf(tm.add(k, tm.ONE))
        return tm.add(y0, tm.mul(tm.div(tm.sub(y1, y0), tm.sub(x1, x0)), tm.sub(x, x0)))
    if isinstance(n, int):
        out = r
        # x >= x_last -> right value (left of it by segments)
        body = None
        for k in range(n - 2, -1, -1):
            s = seg(tm.const(k))
            body = s if body is None else tm.ite(tm.lt(x, xf(tm.const(k + 1))), s, body)
        xl = xf(last)
        if body is None:
            body = yf(tm.ZERO)
        res = tm.ite(tm.lt(x, xl), body, tm.ite(tm.eq(x, xl), yf(last), r)) if right is not None else tm.ite(tm.lt(x, xl), body, r)
        return tm.ite(tm.lt(x, xf(tm.ZERO)), l, res)
    k = tm.app("bracket", (lam_of(xf, n), x), "I")
    xl = xf(last)
    res = tm.ite(tm.lt(x, xl), seg(k), tm.ite(tm.eq(x, xl), yf(last), r)) if right is not None else tm.ite(tm.lt(x, xl), seg(k), r)
    return tm.ite(tm.lt(x, xf(tm.ZERO)), l, res)


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp period")
    xp, fp = as_arr(xp), as_arr(fp)
    if isinstance(xp, MArr) or isinstance(fp, MArr):
        raise Unsupported("interp on selections")
    if not same_dim(xp.shape[0], fp.shape[0]):
        raise ValueError("fp and xp are not of the same length.")
    xf, yf = xp.frozen(), fp.frozen()
    n = xp.shape[0]
    l = None if left is None else term_of(left)
    r = None if right is None else term_of(right)
    core.CTX.assumed.add("numpy.interp: piecewise-linear interpolation of increasing abscissae")
    return elementwise(lambda t: interp_term(num(t), n, xf, yf, l, r), x)


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = as_arr(y)
    core.CTX.assumed.add("numpy.trapezoid: sum of (y[i]+y[i+1])/2*(x[i+1]-x[i])")
    if isinstance(y, MArr):
        xm = as_arr(x) if x is not None else None
        args = [lam_of(y.base.frozen(), y.full), lam_of(y.mask.frozen(), y.full)]
        if xm is not None:
            if not isinstance(xm, MArr) or not xm.same(y):
                raise Unsupported("trapezoid of a selection")
            args.append(lam_of(xm.base.frozen(), y.full))
        else:
            args.append(term_of(dx))
        return wrap(tm.app("trapz_sel", args, "R"))
    if y.ndim != 1:
        raise Unsupported("trapezoid n-d")
    f = y.frozen()
    n = y.shape[0]
    if x is not None:
        x = as_arr(x)
        if x.ndim == 0:
            raise Unsupported("trapezoid x")
        if not same_dim(x.shape[0], n):
            raise ValueError("operands could not be broadcast together")
        g = x.frozen()
        d = lambda i: tm.sub(g(tm.add(i, tm.ONE)), g(i))
    else:
        h = term_of(dx)
        d = lambda i: h
    m = n - 1 if isinstance(n, int) else tm.sub(n, tm.ONE)
    if isinstance(m, int) and m <= 0:
        return Sym(tm.RZERO)
    return wrap(reduce_dim(lambda i: tm.mul(tm.const(0.5), d(i), tm.add(f(i), f(tm.add(i, tm.ONE)))), m, "sum"))


def cumulative_trapezoid(y, x=None, dx=1.0, axis=-1, initial=None):
    y = as_arr(y)
    f = y.frozen()
    n = y.shape[0]
    if x is not None:
        g = as_arr(x).frozen()
        d = lambda i: tm.sub(g(tm.add(i, tm.ONE)), g(i))
    else:
        h = term_of(dx)
        d = lambda i: h
    m = n - 1 if isinstance(n, int) else tm.sub(n, tm.ONE)
    v = rvar()
    body = tm.mul(tm.const(0.5), d(v), tm.add(f(v), f(tm.add(v, tm.ONE))))
    r = mkarr((m,), lambda i: tm.bigsum(v, tm.ZERO, tm.add(i, tm.ONE), body))
    core.CTX.assumed.add("scipy.integrate.cumulative_trapezoid: cumulative trapezoidal sums, one entry shorter than the input")
    if initial is not None:
        r = concat([asarray([initial]), r])
    return r


def var(a, axis=None, nan=False):
    m = mean(a, axis)
    if axis is not None and isinstance(m, Arr):
        key = [slice(None)] * m.ndim
        key.insert(axis if axis >= 0 else axis + as_arr(a).ndim, None)
        d = a - m[tuple(key)]
    else:
        d = a - m
    return mean(elementwise(lambda t: tm.pow_(t, tm.const(2)), d), axis)


def nan_red(a, op, axis=None):
    a = as_arr(a)
    g = a.frozen()
    val = mkarr(a.shape, lambda *ix: tm.ite(isnan_t(g(*ix)), tm.RZERO, not_nan(g(*ix))))
    ok = mkarr(a.shape, lambda *ix: tm.ite(isnan_t(g(*ix)), tm.ZERO, tm.ONE))
    s, c = reduction(val, "sum", axis), reduction(ok, "sum", axis)
    mu = s / c
    if op == "sum":
        return s
    if op == "mean":
        return mu
    if op in ("std", "var"):
        if axis is not None and isinstance(mu, Arr):
            key = [slice(None)] * mu.ndim
            key.insert(axis if axis >= 0 else axis + a.ndim, None)
            mub = mu[tuple(key)]
        else:
            mub = mu
        mb = as_arr(mub)
        d = elementwise(lambda x, m: tm.ite(isnan_t(x), tm.RZERO, tm.pow_(tm.sub(not_nan(x), m), tm.const(2))), a, mub)
        v = reduction(d, "sum", axis) / c
        return v if op == "var" else elementwise(tm.sqrt, v)
    raise Unsupported("nan" + op)


def filled(shape, t, sort):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    shape = tuple(dimval(d) for d in shape)
    return Arr(shape, lambda *ix: t, sort)


def zeros_like(a, dtype=None):
    a = as_arr(a)
    if isinstance(a, MArr):
        return a.map(lambda t: tm.RZERO)
    k = core.kind_of(dtype) if dtype is not None else a.sort
    z = tm.FALSE if k == "B" else tm.ZERO if k == "I" else tm.RZERO
    if a.ndim == 0:
        return scalar_arr(z)
    return Arr(a.shape, lambda *ix: z, k)


def ones_like(a, dtype=None):
    a = as_arr(a)
    if isinstance(a, MArr):
        return a.map(lambda t: tm.RONE)
    k = core.kind_of(dtype) if dtype is not None else a.sort
    o = tm.TRUE if k == "B" else tm.ONE if k == "I" else tm.RONE
    if a.ndim == 0:
        return scalar_arr(o)
    return Arr(a.shape, lambda *ix: o, k)


class RC:
    def __init__(self, col):
        self.col = col

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            if isinstance(k, slice):
                raise Unsupported("slice in r_/c_")
            a = asarray(k)
            if isinstance(a, SList):
                raise Unsupported("strings in r_")
            parts.append(a)
        if not self.col:
            nd = max(max(a.ndim for a in parts), 1)
            parts = [a if a.ndim == nd else _reshape(a, (1,) * (nd - a.ndim) + tuple(a.shape)) if a.ndim and nd > a.ndim and a.concrete() else atleast_1d(a) for a in parts]
            return concat(parts, 0)
        out = []
        for a in parts:
            if isinstance(a, MArr):
                raise _selcols(parts)
            if a.ndim == 0:
                a = mkarr((1, 1), (lambda a: lambda i, j: a.at())(a), a.sort)
            elif a.ndim == 1:
                a = a[:, None]
            out.append(a)
        # (columns of fixed number: stacked)
        return concat(out, 1)


def _selcols(parts):
    return Unsupported("columns of selections")


def where(c, x=None, y=None):
    if x is None:
        raise Unsupported("where with one argument")
    return elementwise(lambda c, a, b: tm.ite(tm.as_bool(c), a, b), c, x, y)


def power_t(a, b):
    return core.t_pow(a, b)


def searchsorted(a, v, side="left", sorter=None):
    a = as_arr(a)
    if not a.concrete():
        raise Unsupported("searchsorted")
    es = a.elems()
    cmp = (lambda e, t: tm.lt(e, t)) if side == "left" else (lambda e, t: tm.le(e, t))
    core.CTX.assumed.add("numpy.searchsorted: insertion index into an increasing list")
    return elementwise(lambda t: tm.add(*[tm.ite(cmp(e, t), tm.ONE, tm.ZERO) for e in es]) if es else tm.ZERO, v)


def pad(a, width, mode="constant", constant_values=0, **kw):
    if mode != "constant":
        raise Unsupported("pad mode")
    a = as_arr(a)
    if is_num(width):
        width = ((width, width),) * a.ndim
    width = tuple(width)
    if a.ndim == 1 and len(width) == 2 and is_num(width[0]):
        width = (width,)
    if all(is_num(w) for w in width):
        width = (tuple(width),) * a.ndim
    cv = term_of(constant_values)
    f = a.frozen()
    shape = []
    lows = []
    for d, (lo, hi) in zip(a.shape, width):
        lo, hi = term_of(lo), term_of(hi)
        lows.append(lo)
        shape.append(dimval(tm.add(dimterm(d), lo, hi)))

    def fn(*ix):
        conds, src = [], []
        for i, lo, d in zip(ix, lows, a.shape):
            j = tm.sub(i, lo)
            src.append(j)
            if lo is not tm.ZERO:
                conds.append(tm.le(tm.ZERO, j))
            conds.append(tm.lt(j, dimterm(d)))
        c = tm.and_(*conds)
        if c is tm.FALSE:
            return cv
        return tm.ite(c, f(*src), cv)
    return mkarr(shape, fn, tm.join(a.sort, cv.sort))


def average(a, axis=None, weights=None):
    if weights is None:
        return mean(a, axis)
    return reduction(as_arr(a) * weights, "sum", axis) / reduction(weights, "sum", axis)


def opaque(name, args, sort="R"):
    ts = []
    for a in args:
        if isinstance(a, Arr):
            if a.ndim == 0:
                ts.append(a.at())
            elif a.ndim == 1:
                ts.append(lam_of(a.frozen(), a.shape[0]))
            elif a.ndim == 2:
                f = a.frozen()
                n, m = a.shape
                if isinstance(m, int):
                    for j in range(m):
                        ts.append(lam_of(lambda i, j=j: f(i, tm.const(j)), n))
                else:
                    v, w = rvar(), rvar()
                    ts.append(tm.lam(v, tm.ZERO, dimterm(n), tm.app("rowlam", (tm.lam(w, tm.ZERO, dimterm(m), f(v, w)),))))
            else:
                raise Unsupported("opaque on n-d array")
        elif isinstance(a, MArr):
            ts.append(lam_of(a.base.frozen(), a.full))
            ts.append(lam_of(a.mask.frozen(), a.full))
        elif is_num(a):
            ts.append(term_of(a))
        elif isinstance(a, str) or a is None:
            name += "|%s" % a
        else:
            raise Unsupported("opaque argument")
    return tm.app(name, tuple(ts), sort)


def rfft(a, n=None):
    a = as_arr(a)
    nt = dimterm(a.shape[0]) if n is None else term_of(n)
    x = lam_of(a.frozen(), a.shape[0])
    m = tm.add(core.t_floordiv(nt, tm.const(2)), tm.ONE)
    core.CTX.assumed.add("numpy.fft.rfft: X[k] = sum_{t<n} x[t] exp(-2 pi i k t / n) of x cut or zero-padded to n, k = 0..n//2")
    return Arr((dimval(m),), lambda k: tm.app("rfft", (x, nt, k), "C"), "C")


def irfft(a, n=None):
    a = as_arr(a)
    f = a.frozen()
    nt = term_of(n) if n is not None else tm.mul(tm.const(2), tm.sub(dimterm(a.shape[0]), tm.ONE))
    core.CTX.assumed.add("numpy.fft.irfft: inverse of rfft for equal n; linear in the spectrum")
    v = rvar()
    body = f(v)
    nm = Norm(lambda t: core.CTX.implied(tm.lt(tm.ZERO, t)))
    try:
        body = nm.to_term(nm(body))
    except TooBig:
        pass
    if body.op == "app" and body.val == "rfft" and body.args[1] is nt and body.args[2] is v:
        lam = body.args[0]
        xn = lam.args[1]

        def fn(t):
            return tm.ite(tm.lt(t, xn), tm.subst(lam.args[2], {lam.val: t}), tm.RZERO)
        return Arr((dimval(nt),), fn, "R")
    lamt = tm.lam(v, tm.ZERO, dimterm(a.shape[0]), body)
    return Arr((dimval(nt),), lambda t: tm.app("irfft", (lamt, nt, t), "R"), "R")


class Accum:
    def __init__(self, f, acc):
        self.f = f
        self.acc = acc

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def accumulate(self, a, axis=0):
        return self.acc(a, axis)


class ErrState:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


class Finfo:
    def __init__(self, t=None):
        self.eps = Sym(tm.const(float(_np.finfo(float).eps)))
        self.tiny = Sym(tm.const(float(_np.finfo(float).tiny)))
        self.max = Sym(tm.const(float(_np.finfo(float).max)))


def linspace(a, b, num=50, endpoint=True, **k):
    if k:
        raise Unsupported("linspace options")
    n = term_of(num)
    a, b = term_of(a), term_of(b)
    den = tm.sub(n, tm.ONE) if endpoint else n
    if n.op == "const" and int(n.val) == 1:
        return mkarr((1,), lambda i: tm.to_real(a))
    return mkarr((dimval(n),), lambda i: tm.add(tm.to_real(a), tm.mul(tm.div(tm.sub(b, a), den), i)))


def logspace(a, b, num=50, endpoint=True, base=10.0, **k):
    if k:
        raise Unsupported("logspace options")
    e = linspace(a, b, num, endpoint)
    return e._ew(lambda t: tm.pow_(tm.const(term_of(base).val), t)) if hasattr(e, "_ew") else elementwise(lambda t: power_t(term_of(base), t), e)


def arange(*a, **k):
    if len(a) == 1:
        return mkarr((dimval(term_of(a[0])),), lambda i: i, "I")
    if len(a) == 2:
        lo, hi = term_of(a[0]), term_of(a[1])
        return mkarr((dimval(tm.sub(hi, lo)),), lambda i: tm.add(lo, i), "I")
    raise Unsupported("arange with step")


def array_equal(a, b, **k):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim or not all(same_dim(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    return reduction(elementwise(tm.eq, a, b), "all")


def isclose(a, b, rtol=None, atol=None, **k):
    r = RTOL if rtol is None else term_of(rtol)
    t = ATOL if atol is None else term_of(atol)
    return elementwise(lambda x, y: isclose_t(num(x), num(y), r, t), a, b)


def roll(a, k, axis=None):
    a = as_arr(a)
    if not a.concrete() or a.ndim != 1:
        raise Unsupported("roll")
    es = a.elems()
    k = int(k) % len(es)
    return from_terms(es[-k:] + es[:-k] if k else es, a.sort)


def diag(a):
    a = as_arr(a)
    f = a.frozen()
    if a.ndim == 2:
        return mkarr((a.shape[0],), lambda i: f(i, i))
    return mkarr((a.shape[0], a.shape[0]), lambda i, j: tm.ite(tm.eq(i, j), f(i), tm.RZERO))


def average_dummy():
    pass


class Rng:
    """random draws: unconstrained values, recorded with their arguments"""

    def _rec(self, name, args, shape, lo=None):
        c = core.CTX
        v = c.draw(name)
        calls = c.__dict__.setdefault("calls", [])
        calls.append((name, args, v))
        return v

    def exponential(self, scale=1.0, size=None):
        if size is not None:
            raise Unsupported("exponential(size)")
        if not (term_of(scale).op == "const" and term_of(scale).val == 1):
            raise Unsupported("exponential with a scale")
        # any positive number: the exponential of an unconstrained one
        core.CTX.assumed.add("numpy.random.exponential returns a positive number")
        return wrap(tm.exp(self._rec("exponential", (scale,), ())))

    standard_exponential = exponential

    def multivariate_normal(self, mean, cov, size=None, check_valid=None, **k):
        if size is not None:
            mean = as_arr(mean)
            v = self._rec("mvn", (mean, as_arr(cov), size), ())
            n = dimval(term_of(size))
            return mkarr((n, mean.shape[0]), lambda i, j: tm.app(v.val, (i, j)))
        mean = as_arr(mean)
        v = self._rec("mvn", (mean, as_arr(cov)), ())
        return mkarr(mean.shape, lambda i: tm.app(v.val, (i,)))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            raise Unsupported("numpy.random." + n)
        return f


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


class Vectorize:
    def __init__(self, f, **k):
        self.f = f

    def __call__(self, *args):
        return elementwise(lambda *ts: term_of(self.f(*[wrap(t) for t in ts])), *args)


def _unsupported(name):
    def f(*a, **k):
        raise Unsupported("numpy." + name)
    return f


class NpMod:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("numpy." + n)


def prod(a, axis=None):
    return reduction(asarray(a), "prod", axis)


def make():
    attach()
    m = NpMod()
    d = m.__dict__
    d.update(
        pi=Sym(tm.PI), nan=Sym(tm.NAN), inf=Sym(tm.const(math.inf)), e=Sym(tm.exp(tm.ONE)), newaxis=None,
        ndarray=Arr, float64=float, complex128=complex, int64=int, bool_=bool, float32=float, intp=int, floating=float, integer=int, number=float,
        asarray=lambda a, dtype=None, **k: asarray(a, dtype), array=lambda a, dtype=None, **k: asarray(a, dtype, copy=True),
        asanyarray=lambda a, dtype=None: asarray(a, dtype), ascontiguousarray=lambda a, dtype=None: asarray(a, dtype),
        log=u1(tm.log), log10=u1(lambda t: tm.div(tm.log(t), tm.log(tm.const(10)))), log2=u1(lambda t: tm.div(tm.log(t), tm.log(tm.const(2)))),
        log1p=u1(lambda t: tm.log(tm.add(tm.ONE, t))), expm1=u1(lambda t: tm.sub(tm.exp(t), tm.ONE)),
        exp=u1(tm.exp), sqrt=u1(tm.sqrt), square=u1(lambda t: tm.pow_(t, tm.const(2))), abs=u1(tm.abs_), absolute=u1(tm.abs_), fabs=u1(tm.abs_),
        sin=u1(lambda t: tm.fun("sin", t)), cos=u1(lambda t: tm.fun("cos", t)), tanh=u1(lambda t: tm.fun("tanh", t)),
        negative=u1(tm.neg), reciprocal=u1(lambda t: tm.div(tm.RONE, t)), conj=u1(tm.conj), conjugate=u1(tm.conj), real=u1(tm.re), imag=u1(tm.im),
        ceil=u1(lambda t: tm.to_real(tm.ceil(t))), floor=u1(lambda t: tm.to_real(tm.floor(t))),
        sign=u1(lambda t: tm.ite(tm.lt(tm.RZERO, t), tm.ONE, tm.ite(tm.eq(t, tm.RZERO), tm.ZERO, tm.const(-1)))),
        add=u2(tm.add), subtract=u2(tm.sub), multiply=u2(tm.mul), divide=u2(tm.div), true_divide=u2(tm.div), power=u2(power_t), float_power=u2(power_t),
        mod=u2(core.t_mod), hypot=u2(lambda a, b: tm.sqrt(tm.add(tm.mul(a, a), tm.mul(b, b)))),
        greater=u2(lambda a, b: tm.lt(b, a)), less=u2(tm.lt), greater_equal=u2(lambda a, b: tm.le(b, a)), less_equal=u2(tm.le), equal=u2(tm.eq), not_equal=u2(tm.ne),
        logical_and=lambda a, b: elementwise(lambda x, y: tm.and_(tm.as_bool(x), tm.as_bool(y)), a, b),
        logical_or=lambda a, b: elementwise(lambda x, y: tm.or_(tm.as_bool(x), tm.as_bool(y)), a, b),
        logical_not=lambda a: elementwise(lambda x: tm.not_(tm.as_bool(x)), a),
        maximum=Accum(u2(tm.max_), max_accumulate), fmax=u2(tm.max_), minimum=u2(tm.min_), fmin=u2(tm.min_),
        clip=clip, where=where, isclose=isclose, allclose=lambda a, b, rtol=None, atol=None, **k: reduction(isclose(a, b, rtol, atol), "all"),
        isfinite=lambda a: elementwise(finite, a), isnan=lambda a: elementwise(isnan_t, a), isinf=lambda a: elementwise(lambda t: tm.FALSE, a),
        iscomplexobj=lambda a: as_arr(a).sort == "C", isreal=lambda a: elementwise(lambda t: tm.eq(tm.im(t), tm.RZERO), a),
        all=lambda a, axis=None: reduction(asarray(a), "all", axis), any=lambda a, axis=None: reduction(asarray(a), "any", axis),
        sum=lambda a, axis=None, **k: reduction(asarray(a), "sum", axis), prod=prod, max=lambda a, axis=None, **k: reduction(asarray(a), "max", axis),
        min=lambda a, axis=None, **k: reduction(asarray(a), "min", axis), mean=mean, average=average,
        var=var, std=lambda a, axis=None: elementwise(tm.sqrt, var(a, axis)),
        nansum=lambda a, axis=None: nan_red(a, "sum", axis), nanmean=lambda a, axis=None: nan_red(a, "mean", axis), nanstd=lambda a, axis=None: nan_red(a, "std", axis),
        count_nonzero=lambda a, axis=None: reduction(elementwise(lambda t: tm.ite(tm.as_bool(t), tm.ONE, tm.ZERO), a), "sum", axis),
        cumsum=cumsum, diff=diff, dot=dot, matmul=dot, interp=interp, trapezoid=trapezoid, trapz=trapezoid,
        zeros=lambda s, dtype=None: filled(s, tm.ZERO if dtype is not None and core.kind_of(dtype) == "I" else tm.FALSE if dtype is not None and core.kind_of(dtype) == "B" else tm.RZERO, core.kind_of(dtype) or "R"),
        ones=lambda s, dtype=None: filled(s, tm.ONE if dtype is not None and core.kind_of(dtype) == "I" else tm.TRUE if dtype is not None and core.kind_of(dtype) == "B" else tm.RONE, core.kind_of(dtype) or "R"),
        full=lambda s, v, dtype=None: filled(s, term_of(v), core.kind_of(dtype) or term_of(v).sort),
        empty=lambda s, dtype=None: empty(s, dtype), empty_like=lambda a, dtype=None: empty(as_arr(a).shape, dtype or DType(as_arr(a).sort)),
        zeros_like=zeros_like, ones_like=ones_like, full_like=lambda a, v, dtype=None: filled(as_arr(a).shape, term_of(v), core.kind_of(dtype) or tm.join(as_arr(a).sort, term_of(v).sort)),
        atleast_1d=atleast_1d, ravel=lambda a: as_arr(a).ravel(), reshape=lambda a, s: _reshape(as_arr(a), s if isinstance(s, tuple) else (s,)),
        ndim=lambda a: as_arr(a).ndim, shape=lambda a: as_arr(a).shape, size=lambda a: as_arr(a).size,
        copy=lambda a: as_arr(a).copy(), isscalar=lambda a: is_num(a),
        concatenate=lambda ps, axis=0: concat([asarray(p) for p in ps], axis), hstack=lambda ps: concat([atleast_1d(p) for p in ps], 0 if atleast_1d(ps[0]).ndim == 1 else 1),
        vstack=lambda ps: concat([p if p.ndim == 2 else p[None, :] for p in [asarray(q) for q in ps]], 0),
        column_stack=lambda ps: concat([p if p.ndim == 2 else p[:, None] for p in [asarray(q) for q in ps]], 1),
        stack=lambda ps, axis=0: stack([asarray(p) for p in ps], axis),
        append=lambda a, b, axis=None: concat([atleast_1d(a), atleast_1d(b)]), insert=np_insert, flip=lambda a, axis=None: as_arr(a)[::-1],
        r_=RC(False), c_=RC(True), arange=arange, linspace=linspace, logspace=logspace, geomspace=lambda *a, **k: from_np(_np.geomspace(*[float(x) for x in a[:2]], **{q: int(x) for q, x in k.items()})),
        searchsorted=searchsorted, pad=pad, roll=roll, diag=diag, tile=_unsupported("tile"), array_equal=array_equal,
        errstate=ErrState, finfo=Finfo, vectorize=Vectorize, broadcast_to=lambda a, s: broadcast_to(a, s), squeeze=lambda a: as_arr(a),
        outer=lambda a, b: as_arr(a)[:, None] * as_arr(b)[None, :], multiply_outer=None,
        isin=_unsupported("isin"), unique=_unsupported("unique"),
        fft=NS(rfft=rfft, irfft=irfft, rfftfreq=lambda n, d=1.0: mkarr((dimval(tm.add(core.t_floordiv(term_of(n), tm.const(2)), tm.ONE)),), lambda k: tm.div(k, tm.mul(term_of(n), term_of(d))))),
        random=Rng(), typing=NS(ArrayLike=None, NDArray=None), linalg=NS(lstsq=lstsq), polyfit=polyfit,
        rec=NS(array=lambda cols, names=None: NS(**{n: c for n, c in zip(names, cols)}), recarray=None), recarray=object, genfromtxt=_unsupported("genfromtxt"),
        nanmax=lambda a, axis=None: nanmax(a), bool=bool, float=float,
    )
    d["random"].__dict__["RandomState"] = lambda *a: Rng()
    d["random"].__dict__["default_rng"] = lambda *a: Rng()
    return m


def nanmax(a):
    a = as_arr(a)
    if not a.concrete():
        raise Unsupported("nanmax")
    es = [t for t in a.elems() if isnan_t(t) is not tm.TRUE]
    return reduction(from_terms(es), "max")


def np_insert(a, pos, v, axis=None):
    a = as_arr(a)
    if axis is not None or a.ndim != 1:
        raise Unsupported("insert")
    return concat([a[:pos], atleast_1d(v), a[pos:]])


def broadcast_to(a, s):
    a = as_arr(a)
    f = a.frozen()
    from .arrays import bindex
    if not isinstance(s, tuple):
        s = (s,)
    return mkarr(s, lambda *ix: f(*bindex(a.shape, ix)), a.sort)


_emp = [0]


def empty(shape, dtype=None):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    _emp[0] += 1
    k = core.kind_of(dtype) if dtype is not None and not isinstance(dtype, DType) else (dtype.sort if dtype is not None else "R")
    c = core.CTX
    nm = c.fresh("empty", k or "R").val
    return Arr(tuple(dimval(d) for d in shape), lambda *ix: tm.app(nm, ix, k or "R"), k or "R")


def polyfit(x, y, deg, **k):
    core.CTX.assumed.add("numpy.polyfit: least-squares polynomial coefficients (opaque)")
    if k:
        raise Unsupported("polyfit options")
    return from_terms([opaque("polyfit%d_%d" % (int(deg), i), (as_arr(x), as_arr(y))) for i in range(int(deg) + 1)])


def lstsq(A, b, rcond=None):
    core.CTX.assumed.add("numpy.linalg.lstsq: least-squares solution (opaque)")
    A, b = as_arr(A), as_arr(b)
    m = A.shape[1]
    if not isinstance(m, int):
        raise Unsupported("lstsq")
    sol = from_terms([opaque("lstsq_%d" % i, (A, b)) for i in range(m)])
    return (sol, None, None, None)

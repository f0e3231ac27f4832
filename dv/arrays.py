"""Symbolic arrays: a store maps index terms to element terms; dimensions are
integers or terms.  Views share stores, masks give 'compressed' arrays."""
from . import term as tm
from . import core
from .core import Sym, Unsupported, term_of, wrap, is_num


def dimterm(d):
    return tm.const(d) if isinstance(d, int) else d


def dimval(t):
    """dimension from a term/Sym/int"""
    if isinstance(t, int):
        return t
    t = term_of(t)
    if t.op == "const":
        return int(t.val)
    return t


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = dimterm(a), dimterm(b)
    if a is b:
        return True
    return core.CTX.implied(tm.eq(a, b))


class Store:
    __slots__ = ("fn", "shape", "sort", "birth", "ro")

    def __init__(self, fn, shape, sort="R"):
        self.fn, self.shape, self.sort = fn, shape, sort
        self.birth = core.serial()
        self.ro = False


def memo_fn(fn):
    cache = {}

    def g(*ix):
        r = cache.get(ix)
        if r is None:
            r = fn(*ix)
            cache[ix] = r
        return r
    return g


class Arr:
    """N-d array (view)."""
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, shape, fn=None, sort="R", store=None, imap=None):
        self.shape = tuple(shape)
        if store is None:
            store = Store(memo_fn(fn), self.shape, sort)
        self.store = store
        self.imap = imap

    # -- element access
    def at(self, *ix):
        """element term at index terms"""
        ix = tuple(dimterm(i) if isinstance(i, int) else i for i in ix)
        if self.imap is not None:
            ix = self.imap(*ix)
        return self.store.fn(*ix)

    def frozen(self):
        """current contents as a pure function"""
        f, m = self.store.fn, self.imap
        if m is None:
            return f
        return lambda *ix: f(*m(*ix))

    @property
    def sort(self):
        return self.store.sort

    @property
    def dtype(self):
        return DType(self.sort)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * (d if isinstance(d, int) else Sym(d))
        return r

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        d = self.shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported("len of symbolic array in native code")

    def length(self):
        return wrap(dimterm(self.shape[0]))

    @property
    def T(self):
        if self.ndim < 2:
            return self
        m = self.imap
        return Arr(self.shape[::-1], store=self.store, imap=(lambda *ix: m(*ix[::-1])) if m else (lambda *ix: ix[::-1]))

    def concrete(self):
        return all(isinstance(d, int) for d in self.shape)

    def __iter__(self):
        d = self.shape[0]
        if not isinstance(d, int):
            raise Unsupported("iteration over a symbolic array in native code")
        return iter([self[i] for i in range(d)])

    def elems(self):
        """terms of a concrete array in C order"""
        out = []

        def rec(pre, dims):
            if not dims:
                out.append(self.at(*pre))
            else:
                for i in range(dims[0]):
                    rec(pre + (tm.const(i),), dims[1:])
        rec((), self.shape)
        return out

    def tolist(self):
        if self.ndim == 0:
            return wrap(self.at())
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    def item(self):
        e = self.elems()
        if len(e) != 1:
            raise ValueError("can only convert an array of size 1")
        return wrap(e[0])

    def scalar_term(self):
        if self.ndim == 0:
            return self.at()
        if self.concrete():
            e = self.elems()
            if len(e) == 1:
                return e[0]
        raise TypeError("only size-1 arrays can be converted to scalars")

    def __bool__(self):
        if self.concrete():
            e = self.elems()
            if len(e) == 1:
                return bool(wrap(tm.as_bool(e[0])))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __float__(self):
        return self.scalar_term()

    # -- copies
    def copy(self):
        f = self.frozen()
        return Arr(self.shape, f, self.sort)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def map(self, f, sort=None):
        g = self.frozen()
        return mkarr(self.shape, lambda *ix: f(g(*ix)), sort)

    def astype(self, dt):
        k = core.kind_of(dt)
        g = self.frozen()
        return Arr(self.shape, lambda *ix: core.cast_term(g(*ix), k), k)

    @property
    def real(self):
        return self.map(tm.re)

    @property
    def imag(self):
        return self.map(tm.im)

    def conj(self):
        return self.map(tm.conj)

    conjugate = conj

    def flatten(self):
        return reshape(self, (-1,))

    ravel = flatten

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        setitem(self, key, value)

    # -- reductions are attached in npshim
    def __repr__(self):
        if self.concrete() and len(self.elems()) <= 8:
            return "Arr%r" % ([repr(wrap(e)) for e in self.elems()],)
        return "Arr<%s>" % (",".join(str(d) for d in self.shape))

    def __format__(self, spec):
        return "<array>"


class DType:
    def __init__(self, sort):
        self.sort = sort
        self.name = {"R": "float64", "I": "int64", "C": "complex128", "B": "bool"}[sort]
        self.kind = {"R": "f", "I": "i", "C": "c", "B": "b"}[sort]

    def __eq__(self, o):
        try:
            return core.kind_of(o) == self.sort
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.sort)


def mkarr(shape, fn, sort=None):
    shape = tuple(dimval(d) for d in shape)
    if sort is None:
        probe = []
        for i, d in enumerate(shape):
            if isinstance(d, int):
                probe.append(tm.ZERO)
            else:
                probe.append(tm.var("?probe%d" % i, "I"))
        if any(isinstance(d, int) and d == 0 for d in shape):
            sort = "R"
        else:
            sort = fn(*probe).sort
    return Arr(shape, fn, sort)


def from_terms(ts, sort=None):
    ts = list(ts)
    if sort is None:
        sort = "I"
        for t in ts:
            sort = t.sort if t.sort == "B" and sort in ("I", "B") and all(u.sort == "B" for u in ts) else tm.join(sort, t.sort)
        if not ts:
            sort = "R"
    if sort == "R":
        ts = [tm.to_real(t) for t in ts]

    def fn(i):
        if i.op == "const":
            k = int(i.val)
            return ts[k]
        r = ts[-1]
        for j in range(len(ts) - 2, -1, -1):
            r = tm.ite(tm.eq(i, tm.const(j)), ts[j], r)
        return r
    return Arr((len(ts),), fn, sort)


def scalar_arr(t):
    return Arr((), lambda: t, t.sort)


class MArr:
    """arr[mask]: elements of a 1-d array where mask holds, in order."""
    __array_ufunc__ = None

    def __init__(self, base, mask):
        self.base, self.mask = base, mask   # pure fns idx->term ; dim
        # base: Arr (1-d, full length), mask: Arr bool (1-d)

    @property
    def full(self):
        return self.base.shape[0]

    @property
    def shape(self):
        return (dimval(self.count()),)

    ndim = 1

    @property
    def sort(self):
        return self.base.sort

    def count(self):
        v = tm.var("?mi", "I")
        return tm.bigsum(v, tm.ZERO, dimterm(self.full), tm.ite(self.mask.at(v), tm.ONE, tm.ZERO))

    def length(self):
        return wrap(self.count())

    @property
    def size(self):
        return self.length()

    def same(self, o):
        v = tm.var("?mi", "I")
        return same_dim(self.full, o.full) and self.mask.at(v) is o.mask.at(v)

    def map(self, f):
        return MArr(self.base.map(f), self.mask)

    def frozen_copy(self):
        return MArr(self.base.copy(), self.mask)

    copy = frozen_copy

    def astype(self, dt):
        return MArr(self.base.astype(dt), self.mask)

    @property
    def real(self):
        return self.map(tm.re)

    def __hash__(self):
        raise TypeError("unhashable")

    def concrete(self):
        return False

    def __getitem__(self, key):
        # arr[mask][rank(h)] is arr[h] where mask[h] holds, rank(h) being the number of selected
        # elements before h (what enumerate() over the same selection counts)
        if isinstance(key, Sym) and key.t.op == "sum" and key.t.args[0] is tm.ZERO:
            h, v = key.t.args[1], tm.var("?mi", "I")
            if tm.bigsum(v, tm.ZERO, h, tm.ite(self.mask.at(v), tm.ONE, tm.ZERO)) is key.t and core.CTX.implied(
                    tm.and_(self.mask.at(h), tm.le(tm.ZERO, h), tm.lt(h, dimterm(self.full)))):
                return wrap(self.base.at(h))
        raise Unsupported("indexing of a masked selection")

    def __len__(self):
        raise Unsupported("len of a masked selection")


# --------------------------------------------------------------- broadcasting
def as_arr(v):
    """Arr/MArr/scalar term holder"""
    if isinstance(v, (Arr, MArr)):
        return v
    if is_num(v):
        return scalar_arr(term_of(v))
    from .npshim import asarray
    return asarray(v)


def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = None
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            e = s[j]
            if d is None or (isinstance(d, int) and d == 1):
                d = e
            elif isinstance(e, int) and e == 1:
                pass
            elif not same_dim(d, e):
                if isinstance(d, int) and isinstance(e, int) or not core.CTX.decide(tm.eq(dimterm(d), dimterm(e))):
                    raise ValueError("operands could not be broadcast together with shapes %s" % (shapes,))
                if isinstance(e, int):
                    d = e
        out.append(d)
    return tuple(out)


def bindex(shape, ix):
    """index of an operand of given shape at output index ix"""
    k = len(ix) - len(shape)
    return tuple(tm.ZERO if isinstance(d, int) and d == 1 else i for d, i in zip(shape, ix[k:]))


def elementwise(f, *ops, sort=None):
    """f over terms, numpy broadcasting. Scalars in -> scalar out."""
    arrs = [as_arr(o) for o in ops]
    if any(isinstance(a, MArr) for a in arrs):
        m = next(a for a in arrs if isinstance(a, MArr))
        bases = []
        for a in arrs:
            if isinstance(a, MArr):
                if not m.same(a):
                    raise Unsupported("selections with different masks")
                bases.append(a.base)
            elif a.ndim == 0:
                bases.append(a)
            else:
                raise Unsupported("array combined with a masked selection")
        return MArr(elementwise(f, *bases), m.mask)
    if all(a.ndim == 0 for a in arrs):
        return wrap(f(*[a.at() for a in arrs]))
    shape = bshape([a.shape for a in arrs])
    fs = [(a.frozen(), a.shape) for a in arrs]
    return mkarr(shape, lambda *ix: f(*[g(*bindex(s, ix)) for g, s in fs]), sort)


def _arr_bin(f):
    def op(self, o):
        if not (isinstance(o, (Arr, MArr, list, tuple)) or is_num(o)):
            return NotImplemented
        return elementwise(f, self, o)

    def rop(self, o):
        if not (isinstance(o, (Arr, MArr, list, tuple)) or is_num(o)):
            return NotImplemented
        return elementwise(f, o, self)
    return op, rop


def _num2(f):
    return lambda a, b: f(core.num(a), core.num(b))


_ops = {
    "add": _num2(tm.add), "sub": _num2(tm.sub), "mul": _num2(tm.mul), "truediv": _num2(tm.div),
    "pow": _num2(core.t_pow), "floordiv": _num2(core.t_floordiv), "mod": _num2(core.t_mod),
}


def _install(cls):
    for n, f in _ops.items():
        op, rop = _arr_bin(f)
        setattr(cls, "__%s__" % n, op)
        setattr(cls, "__r%s__" % n, rop)

        def iop(self, o, f=f):
            if isinstance(self, MArr):
                return elementwise(f, self, o)
            r = elementwise(f, self.copy(), o)
            if isinstance(r, MArr):
                raise Unsupported("in-place with selection")
            setitem(self, Ellipsis, r)
            return self
        setattr(cls, "__i%s__" % n, iop)
    for n, f in {"lt": tm.lt, "le": tm.le, "gt": lambda a, b: tm.lt(b, a), "ge": lambda a, b: tm.le(b, a),
                 "eq": tm.eq, "ne": tm.ne}.items():
        op, _ = _arr_bin(f)
        setattr(cls, "__%s__" % n, op)
    for n, f in {"and": tm.and_, "or": tm.or_}.items():
        op, rop = _arr_bin(f)
        setattr(cls, "__%s__" % n, op)
        setattr(cls, "__r%s__" % n, rop)
    cls.__neg__ = lambda self: elementwise(lambda a: tm.neg(a), self)
    cls.__pos__ = lambda self: self
    cls.__abs__ = lambda self: elementwise(tm.abs_, self)

    def inv(a):
        if a.sort != "B":
            raise Unsupported("~ on numbers")
        return tm.not_(a)
    cls.__invert__ = lambda self: elementwise(inv, self)


_install(Arr)
_install(MArr)


# --------------------------------------------------------------- indexing
def norm_index(i, d):
    """index term for a (possibly negative) index in dimension d; IndexError out of range"""
    c = core.CTX
    t = term_of(i)
    if t.sort != "I":
        raise IndexError("only integers, slices are valid indices")
    n = dimterm(d)
    if t.op == "const" and n.op == "const":
        k = int(t.val)
        if k < 0:
            k += int(n.val)
        if not 0 <= k < int(n.val):
            raise IndexError("index out of range")
        return tm.const(k)
    if t.op == "const":
        if t.val < 0:
            t = tm.add(t, n)
    elif not c.implied(tm.le(tm.ZERO, t)):
        if c.decide(tm.lt(t, tm.ZERO)):
            t = tm.add(t, n)
    if not c.decide(tm.and_(tm.le(tm.ZERO, t), tm.lt(t, n))):
        raise IndexError("index out of range")
    return t


def norm_slice(sl, d):
    """(start term, step int, length dim) for a slice of dimension d"""
    c = core.CTX
    step = sl.step
    if step is None:
        step = 1
    step = int(step)
    n = dimterm(d)

    def bound(v, default):
        if v is None:
            return default
        t = term_of(v)
        if t.op == "const" and n.op == "const":
            k = int(t.val)
            if k < 0:
                k += int(n.val)
            lo, hi = (0, int(n.val)) if step > 0 else (-1, int(n.val) - 1)
            return tm.const(max(lo, min(hi, k)))
        if t.op == "const" and t.val < 0:
            t = tm.add(t, n)
            neg = True
        elif t.op != "const" and not c.implied(tm.le(tm.ZERO, t)):
            if c.decide(tm.lt(t, tm.ZERO)):
                t = tm.add(t, n)
        if step > 0:
            if c.decide(tm.lt(t, tm.ZERO)):
                return tm.ZERO
            if c.decide(tm.lt(n, t)):
                return n
            return t
        if c.decide(tm.lt(t, tm.const(-1))):
            return tm.const(-1)
        if c.decide(tm.le(n, t)):
            return tm.sub(n, tm.ONE)
        return t
    if step > 0:
        a = bound(sl.start, tm.ZERO)
        b = bound(sl.stop, n)
        ln = tm.sub(b, a)
    else:
        a = bound(sl.start, tm.sub(n, tm.ONE))
        b = bound(sl.stop, tm.const(-1))
        ln = tm.sub(a, b)
    if abs(step) != 1:
        ln = core.t_floordiv(tm.add(ln, tm.const(abs(step) - 1)), tm.const(abs(step)))
    if ln.op == "const":
        return a, step, max(int(ln.val), 0)
    if not c.decide(tm.le(tm.ZERO, ln)):
        return a, step, 0
    return a, step, dimval(ln)


def is_mask(k):
    return isinstance(k, (Arr,)) and k.sort == "B"


def parse_key(shape, key):
    """-> list of per-source-dim specs & output dims.  spec: ('i',t) ('s',start,step) ('n',) """
    if not isinstance(key, tuple):
        key = (key,)
    nspec = sum(1 for k in key if k is not None and k is not Ellipsis)
    full = []
    seen = False
    for k in key:
        if k is Ellipsis:
            full += [slice(None)] * (len(shape) - nspec)
            seen = True
        else:
            full.append(k)
    if not seen:
        full += [slice(None)] * (len(shape) - nspec)
    if sum(1 for k in full if k is not None) > len(shape):
        raise IndexError("too many indices for array")
    return full


def getitem(a, key):
    full = parse_key(a.shape, key)
    # fancy / mask
    for pos, k in enumerate(full):
        if isinstance(k, (Arr, list)) or isinstance(k, MArr):
            return fancy_get(a, full, pos)
    specs, outshape = [], []
    src = 0
    for k in full:
        if k is None:
            outshape.append(1)
            specs.append(("n",))
            continue
        d = a.shape[src]
        src += 1
        if isinstance(k, slice):
            st, step, ln = norm_slice(k, d)
            outshape.append(ln)
            specs.append(("s", st, step))
        else:
            specs.append(("i", norm_index(k, d)))
    if all(s[0] == "s" and s[1] is tm.ZERO and s[2] == 1 for s in specs) and tuple(outshape) == a.shape:
        return Arr(a.shape, store=a.store, imap=a.imap)

    def conv(*ix):
        out, j = [], 0
        for s in specs:
            if s[0] == "n":
                j += 1
            elif s[0] == "i":
                out.append(s[1])
            else:
                t = ix[j]
                j += 1
                out.append(tm.add(s[1], t if s[2] == 1 else tm.mul(tm.const(s[2]), t)))
        return tuple(out)
    m = a.imap
    imap = (lambda *ix: m(*conv(*ix))) if m else conv
    if not outshape:
        return wrap(a.store.fn(*imap()))
    v = Arr(outshape, store=a.store, imap=imap)
    v.specs = specs if m is None else None
    return v


def fancy_get(a, full, pos):
    k = full[pos]
    if isinstance(k, list):
        from .npshim import asarray
        k = asarray(k)
    others = [x for i, x in enumerate(full) if i != pos]
    if any(not (isinstance(x, slice) and x == slice(None)) for x in others):
        # reduce the plain axes first
        key = list(full)
        key[pos] = slice(None)
        b = getitem(a, tuple(key))
        npos = sum(1 for i, x in enumerate(full[:pos]) if x is None or isinstance(x, slice))
        key2 = [slice(None)] * b.ndim
        key2[npos] = k
        return fancy_get(b, key2, npos)
    if isinstance(k, Arr) and k.sort == "B":
        if k.ndim != 1:
            if k.ndim == a.ndim and k.concrete() and a.concrete():
                return from_terms([t for t, m in zip(a.elems(), k.elems()) if core.CTX.decide(m)])
            raise Unsupported("n-d mask")
        if not same_dim(k.shape[0], a.shape[pos]):
            raise IndexError("boolean index did not match")
        kf = k.copy()
        if a.ndim == 1:
            if a.concrete() and k.concrete() and all(m.op == "const" for m in k.elems()):
                return from_terms([t for t, m in zip(a.elems(), k.elems()) if m is tm.TRUE], a.sort)
            return MArr(a.copy(), kf)
        if k.concrete():
            idx = [i for i, m in enumerate(k.elems()) if core.CTX.decide(m)]
            k = from_terms([tm.const(i) for i in idx], "I")
        else:
            # rows where the mask holds, in order: row k is row sel(k)
            c = core.CTX
            cnt, sel = c.fresh("count", "I"), c.fresh("sel", "R").val
            d = dimterm(a.shape[pos])
            v, w = tm.fresh("sv", "I"), tm.fresh("sw", "I")
            s_ = lambda t: tm.app(sel, (t,), "I")  # noqa: E731
            c.assume(tm.le(tm.ZERO, cnt))
            c.assume(tm.le(cnt, d))
            c.assume(tm.iff(tm.le(tm.ONE, cnt), tm.exists(v, tm.ZERO, d, kf.at(v))))
            c.assume(tm.forall(v, tm.ZERO, cnt, tm.and_(tm.le(tm.ZERO, s_(v)), tm.lt(s_(v), d), kf.at(s_(v)))))
            c.assume(tm.forall(v, tm.ZERO, cnt, tm.forall(w, tm.ZERO, cnt, tm.implies(tm.lt(v, w), tm.lt(s_(v), s_(w))))))
            if c.implied(tm.exists(v, tm.ZERO, d, kf.at(v))):
                c.assume(tm.le(tm.ONE, cnt))
                c.assume(tm.forall(v, tm.ZERO, s_(tm.ZERO), tm.not_(kf.at(v))))
                c.assume(tm.and_(tm.le(tm.ZERO, s_(tm.ZERO)), tm.lt(s_(tm.ZERO), d), kf.at(s_(tm.ZERO))))
            f = a.frozen()
            shape = list(a.shape)
            shape[pos] = dimval(cnt)

            def fsel(*ix):
                ix = list(ix)
                ix[pos] = s_(ix[pos])
                return f(*ix)
            return mkarr(shape, fsel)
    if isinstance(k, MArr):
        raise Unsupported("index by selection")
    if k.ndim == 0:
        key = list(full)
        key[pos] = wrap(k.at())
        return getitem(a, tuple(key))
    if k.ndim != 1:
        raise Unsupported("n-d fancy index")
    f = a.frozen()
    d = a.shape[pos]
    shape = list(a.shape)
    shape[pos] = k.shape[0]
    kf = k.frozen()
    if k.concrete():
        its = [norm_index(wrap(t), d) for t in k.elems()]
        k2 = from_terms(its, "I")
        kf = k2.frozen()
    else:
        v = tm.var("?fi", "I")

    def fn(*ix):
        ix = list(ix)
        ix[pos] = kf(ix[pos])
        return f(*ix)
    return mkarr(shape, fn)


def write_store(store, newfn):
    if store.ro:
        raise Unsupported("writing into an array seen through a copy")
    old = store.fn
    c = core.CTX

    def undo():
        store.fn = old
    c.note(("store", store), undo, store.birth)
    store.fn = memo_fn(newfn)


def setitem(a, key, value):
    """a[key] = value"""
    full = parse_key(a.shape, key)
    c = core.CTX
    mpos = [i for i, k in enumerate(full) if isinstance(k, (Arr, MArr, list))]
    if mpos:
        if len(mpos) > 1:
            raise Unsupported("multiple fancy indices in assignment")
        pos = mpos[0]
        k = full[pos]
        if isinstance(k, list):
            from .npshim import asarray
            k = asarray(k)
        if not (isinstance(k, Arr) and k.sort == "B" and k.ndim == 1):
            if isinstance(k, Arr) and k.ndim == 1 and k.concrete():
                for j, t in enumerate(k.elems()):
                    key2 = list(full)
                    key2[pos] = wrap(t)
                    if isinstance(value, Arr) and value.ndim:
                        if len(full) != 1:
                            raise Unsupported("fancy assignment")
                        setitem(a, tuple(key2), value[j])
                    else:
                        setitem(a, tuple(key2), value)
                return
            raise Unsupported("fancy assignment")
        mask = k.copy()
        # whole-axis view for the mask axis, then conditional write
        key2 = list(full)
        key2[pos] = slice(None)
        npos = sum(1 for x in full[:pos] if isinstance(x, slice))
        if isinstance(value, MArr):
            if not _mask_same(value.mask, mask):
                raise Unsupported("assignment between different masks")
            vf = value.base
            if a.ndim != 1:
                # (n-d with mask axis last)
                pass
            val = vf.frozen()
            _assign_view(a, key2, lambda *ix: val(ix[npos]), cond=lambda *ix: mask.at(ix[npos]))
            return
        if is_num(value) or (isinstance(value, Arr) and value.ndim == 0):
            t = term_of(value)
            _assign_view(a, key2, lambda *ix: t, cond=lambda *ix: mask.at(ix[npos]))
            return
        if isinstance(value, Arr) and mask.concrete() and all(m.op == "const" for m in mask.elems()):
            idx = [i for i, m in enumerate(mask.elems()) if m is tm.TRUE]
            setitem(a, tuple(key2[:pos] + [from_terms([tm.const(i) for i in idx], "I")] + key2[pos + 1:]), value)
            return
        raise Unsupported("masked assignment of an array")
    val = value
    if isinstance(val, MArr):
        raise Unsupported("assigning a selection")
    if not isinstance(val, Arr):
        val = as_arr(val)
    _assign_view(a, full, val, cond=None)


def _mask_same(m1, m2):
    v = tm.var("?mi", "I")
    return same_dim(m1.shape[0], m2.shape[0]) and m1.at(v) is m2.at(v)


def _assign_view(a, full, val, cond):
    if a.imap is not None:
        # compose: only views whose map is a simple slicing of the base store
        if getattr(a, "specs", None) is None:
            raise Unsupported("write through a complex view")
    st = a.store
    outer = getattr(a, "specs", None) if a.imap is not None else None
    specs, outshape = [], []
    for k, d in zip(full, a.shape):
        if isinstance(k, slice):
            s0, step, ln = norm_slice(k, d)
            specs.append(("s", s0, step, ln))
            outshape.append(ln)
        else:
            specs.append(("i", norm_index(k, d)))
    if isinstance(val, Arr):
        vs = val.shape
        while len(vs) > len(outshape):
            if vs[0] == 1:
                val = val[0]
                vs = val.shape if isinstance(val, Arr) else ()
                if not isinstance(val, Arr):
                    val = as_arr(val)
            else:
                raise ValueError("could not broadcast input array")
        full_shape = bshape([tuple(outshape), val.shape])
        for x, y in zip(full_shape, outshape):
            if not same_dim(x, y):
                raise ValueError("could not broadcast input array into shape")
        vfr, vsh = val.frozen(), val.shape
        vf = lambda *ix: vfr(*bindex(vsh, ix))
    else:
        vf = val
    sort = st.sort
    # resolve through an outer simple view
    if outer is not None:
        if a.imap is not None and any(s[0] == "n" for s in outer):
            raise Unsupported("write through newaxis view")
        merged, j = [], 0
        for s in outer:
            if s[0] == "i":
                merged.append(s)
            else:
                t = specs[j]
                j += 1
                if t[0] == "i":
                    merged.append(("i", tm.add(s[1], t[1] if s[2] == 1 else tm.mul(tm.const(s[2]), t[1]))))
                else:
                    merged.append(("s", tm.add(s[1], t[1] if s[2] == 1 else tm.mul(tm.const(s[2]), t[1])), s[2] * t[2], t[3]))
        specs = merged
    old = st.fn

    def new(*ix):
        conds, vix = [], []
        for s, i in zip(specs, ix):
            if s[0] == "i":
                conds.append(tm.eq(i, s[1]))
            else:
                step, s0, ln = s[2], s[1], dimterm(s[3])
                if step == 1:
                    r = tm.sub(i, s0)
                elif step == -1:
                    r = tm.sub(s0, i)
                else:
                    r = None
                if r is not None:
                    cf = tm.and_(tm.le(tm.ZERO, r), tm.lt(r, ln))
                    conds.append(cf)
                    vix.append(r)
                else:
                    r = core.t_floordiv(tm.sub(i, s0), tm.const(step))
                    conds.append(tm.and_(tm.eq(core.t_mod(tm.sub(i, s0), tm.const(step)), tm.ZERO),
                                         tm.le(tm.ZERO, r), tm.lt(r, ln)))
                    vix.append(r)
        # drop range conditions that hold for every index of the store
        cs = []
        for s, i, cd, d in zip(specs, ix, conds, st.shape):
            if s[0] == "s" and s[1] is tm.ZERO and s[2] == 1 and dimterm(s[3]) is dimterm(d):
                continue
            cs.append(cd)
        cnd = tm.and_(*cs)
        if cnd is tm.FALSE:
            return old(*ix)
        if cond is not None:
            cnd = tm.and_(cnd, cond(*vix))
        if cnd is tm.FALSE:
            return old(*ix)
        v = core.cast_term(vf(*vix), sort if sort in "RIB" else None)
        return tm.ite(cnd, v, old(*ix))
    if sort != "C":
        pr = vf(*[tm.var("?w", "I")] * sum(1 for s in specs if s[0] == "s")) if _probe_ok(outshape) else None
        if pr is not None and pr.sort == "C":
            raise TypeError("cannot cast complex to real array")
    write_store(st, new)
    w = getattr(core.CTX, "wlog", None)
    if w is not None:
        w.append((st, [s[1] if s[0] == "i" else ("s", s[1], s[2], s[3]) for s in specs]))


def _probe_ok(outshape):
    return not any(isinstance(d, int) and d == 0 for d in outshape)


def reshape(a, shape):
    shape = tuple(dimval(d) if not isinstance(d, int) else d for d in shape)
    if not a.concrete():
        if len(shape) == a.ndim and all((x == -1) or same_dim(x, y) for x, y in zip(shape, a.shape)):
            return a
        if a.ndim == 1 and len(shape) == 2 and shape[0] == -1 and shape[1] == 1:
            return a[:, None]
        if a.ndim == 1 and len(shape) == 2 and shape[0] == 1:
            return a[None, :]
        raise Unsupported("reshape of a symbolic array")
    es = a.elems()
    n = len(es)
    if -1 in shape:
        p = 1
        for d in shape:
            if d != -1:
                p *= d
        shape = tuple(n // p if d == -1 else d for d in shape)
    strides = []
    p = 1
    for d in reversed(shape):
        strides.insert(0, p)
        p *= d
    if p != n:
        raise ValueError("cannot reshape array")

    def fn(*ix):
        if any(i.op != "const" for i in ix):
            raise Unsupported("symbolic index into reshaped array")
        return es[sum(int(i.val) * s for i, s in zip(ix, strides))]
    return Arr(shape, fn, a.sort)

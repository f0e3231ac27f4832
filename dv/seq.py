"""Sequences of symbolic length, families of objects indexed by a term."""
from . import term as tm
from . import core
from .core import Sym, Unsupported, term_of, wrap, is_num
from .arrays import Arr, MArr, dimterm, dimval, mkarr, norm_index, norm_slice


class Poison:
    """value that must not be used (loop temporaries before assignment)"""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _bad(self, *a, **k):
        raise Unsupported("use of %s" % object.__getattribute__(self, "_why"))

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        self._bad()
    __setattr__ = __call__ = __bool__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = _bad
    __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = __getitem__ = __iter__ = __len__ = _bad
    __pow__ = __rpow__ = __neg__ = __abs__ = _bad


# ------------------------------------------------------------------ families
class Family:
    """Objects o[0..length) of one class; every attribute is a store idx -> value."""
    origin = None

    def __init__(self, cls, name, length, fields=None, birth=None):
        self.cls, self.name, self.length = cls, name, length
        self.fields = {}
        self.cache = {}
        c = core.CTX
        if birth is not None:
            # instantiated on demand: as old as the loop that made its elements (see Template.owns)
            self.birth = birth
        else:
            self.birth = core.serial()
            if c is not None and c.created is not None:
                c.created.append(self)
        for k, f in (fields or {}).items():
            self.fields[k] = f
        self.pcls = proxy_class(cls)

    def at(self, idx):
        idx = dimterm(idx) if isinstance(idx, int) else term_of(idx)
        p = self.cache.get(idx)
        if p is None:
            p = object.__new__(self.pcls)
            d = object.__getattribute__(p, "__dict__")
            d["_dv_fam"], d["_dv_idx"] = self, idx
            self.cache[idx] = p
        return p

    def get(self, name, idx):
        f = self.fields.get(name)
        if f is None:
            raise AttributeError(name)
        return f(idx)

    def set(self, name, idx, value):
        old = self.fields.get(name)
        c = core.CTX

        def undo():
            if old is None:
                self.fields.pop(name, None)
            else:
                self.fields[name] = old
        c.note(("fam", self, name), undo, self.birth)
        w = getattr(c, "wlog", None)
        if w is not None:
            w.append((("fam", self, name), [idx]))

        def new(j):
            if j is idx:
                return value
            cond = tm.eq(j, idx)
            if cond is tm.TRUE:
                return value
            if cond is tm.FALSE or c.implied(tm.not_(cond)):
                if old is None:
                    raise AttributeError(name)
                return old(j)
            if c.implied(cond):
                return value
            if old is None:
                raise Unsupported("attribute %s of another element" % name)
            return merge_value(cond, value, old(j))
        self.fields[name] = new

    def __repr__(self):
        return "<family %s of %s>" % (self.name, self.cls.__name__)


_pclasses = {}


def proxy_class(cls):
    p = _pclasses.get(cls)
    if p is None:
        def ga(self, name):
            d = object.__getattribute__(self, "__dict__")
            fam = d.get("_dv_fam")
            if fam is None or name in ("_dv_fam", "_dv_idx"):
                raise AttributeError(name)
            if name == "__dict__":
                raise Unsupported("__dict__ of a symbolic element")
            return fam.get(name, d["_dv_idx"])

        def sa(self, name, value):
            for k in cls.__mro__:
                a = k.__dict__.get(name)
                if a is not None and hasattr(type(a), "__set__"):
                    type(a).__set__(a, self, value)
                    return
            d = object.__getattribute__(self, "__dict__")
            d["_dv_fam"].set(name, d["_dv_idx"], value)

        ns = {"__getattr__": ga, "__setattr__": sa, "_dv_proxy": True, "__module__": cls.__module__,
              "__qualname__": cls.__qualname__}
        if getattr(cls, "__eq__", object.__eq__) is not object.__eq__ and "__hash__" not in ns:
            ns["__hash__"] = lambda self: id(self)
        p = type(cls)(cls.__name__, (cls,), ns)
        if getattr(p, "__abstractmethods__", None):
            p.__abstractmethods__ = frozenset()
        _pclasses[cls] = p
    return p


def is_proxy(v):
    return getattr(type(v), "_dv_proxy", False)


def pfam(v):
    return object.__getattribute__(v, "__dict__")["_dv_fam"]


def pidx(v):
    return object.__getattribute__(v, "__dict__")["_dv_idx"]


def same_object(a, b):
    if is_proxy(a) and is_proxy(b):
        if pfam(a) is pfam(b):
            return wrap(tm.eq(pidx(a), pidx(b)))
        return False
    if isinstance(a, Sym) and isinstance(b, Sym):
        if a.t.sort == "B" and b.t.sort == "B":
            return wrap(tm.iff(a.t, b.t))
        return a is b
    if isinstance(a, Sym) and isinstance(b, bool) and a.t.sort == "B":
        return a if b else wrap(tm.not_(a.t))
    if isinstance(b, Sym) and isinstance(a, bool):
        return same_object(b, a)
    return a is b


def readonly(v):
    """v stands for another array or list without being it: writing into it is outside the evaluator's reach"""
    if isinstance(v, Arr):
        v.store.ro = True
    elif isinstance(v, SList):
        v.ro = True
    return v


def merge_value(cond, a, b):
    """ite over values"""
    if a is b:
        return a
    if cond is tm.TRUE:
        return a
    if cond is tm.FALSE:
        return b
    if is_num(a) and is_num(b):
        return wrap(tm.ite(cond, term_of(a), term_of(b)))
    if is_proxy(a) and is_proxy(b) and pfam(a) is pfam(b):
        return pfam(a).at(tm.ite(cond, pidx(a), pidx(b)))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
        from .arrays import same_dim
        if all(same_dim(x, y) for x, y in zip(a.shape, b.shape)):
            f, g = a.frozen(), b.frozen()
            return readonly(mkarr(a.shape, lambda *ix: tm.ite(cond, f(*ix), g(*ix))))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_value(cond, x, y) for x, y in zip(a, b))
    if isinstance(a, Poison) or isinstance(b, Poison):
        return Poison("a loop temporary assigned on some paths only")
    if type(a) is type(b) and isinstance(a, (str, bytes, type(None))) and a == b:
        return a
    if isinstance(a, SList) and isinstance(b, SList) and a.sym is None and b.sym is None and list.__len__(a) == list.__len__(b):
        return readonly(SList([merge_value(cond, x, y) for x, y in zip(list.__iter__(a), list.__iter__(b))]))
    if type(a) is type(b) and getattr(type(a), "_dv_class", False) and not is_proxy(a):
        da, db = vars(a), vars(b)
        if set(da) == set(db) and core.birth_of(a) > 0 and core.birth_of(b) > 0:
            o = object.__new__(type(a))
            core.born(o)
            c = core.CTX
            if c.created is not None:
                c.created.append(o)
            vars(o).update({k: merge_value(cond, da[k], db[k]) for k in da})
            return o
    ca, cb = (type(x).__mro__[1] if is_proxy(x) else type(x) for x in (a, b))
    if ca is cb and getattr(ca, "_dv_class", False):
        fa, fb = _fields(a), _fields(b)
        if set(fa) == set(fb):
            o = object.__new__(ca)
            core.born(o)
            c = core.CTX
            if c.created is not None:
                c.created.append(o)
            vars(o).update({k: merge_value(cond, fa[k], fb[k]) for k in fa})
            return o
    raise Unsupported("merging %s and %s" % (type(a).__name__, type(b).__name__))


def _fields(v):
    if is_proxy(v):
        f = pfam(v)
        return {k: f.get(k, pidx(v)) for k in f.fields}
    return vars(v)


class Template:
    """values computed at a generic index var, instantiated at any index"""

    def __init__(self, var, created, freshes=(), start=0):
        self.var = var
        self.start = start
        self.created = {id(o): o for o in created}
        self.fams = {}
        self.fmap = {}
        self.birth = core.serial()
        for f in freshes:
            self.fmap[f] = tm.app(f.val, (var,), f.sort)

    def owns(self, o):
        """o was made by the iteration, or instantiated (on demand) from what it made"""
        while o is not None:
            if id(o) in self.created:
                return True
            o = o.origin if isinstance(o, Family) else None
        return False

    def gen(self, t):
        """functionalise fresh symbols of the body"""
        return tm.subst(t, self.fmap) if self.fmap else t

    def term(self, t, idx):
        t = self.gen(t)
        if idx is self.var:
            return t
        return tm.subst(t, {self.var: idx})

    def inst(self, v, idx):
        if isinstance(v, Sym):
            return wrap(self.term(v.t, idx))
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return v
        if isinstance(v, Arr):
            shape = tuple(d if isinstance(d, int) else dimval(self.term(d, idx)) for d in v.shape)
            if v.store.birth <= self.start and not v.store.ro:
                # (a view of) an array that was there before the loop
                m = v.imap
                return Arr(shape, store=v.store, imap=m and (lambda *ix: tuple(self.term(t, idx) for t in m(*ix))))
            f = v.frozen()
            return readonly(Arr(shape, lambda *ix: self.term(f(*ix), idx), v.sort))
        if isinstance(v, tuple):
            return tuple(self.inst(x, idx) for x in v)
        if is_proxy(v):
            i = self.term(pidx(v), idx)
            f = pfam(v)
            if self.owns(f):
                g = self.fams.get((id(f), idx))
                if g is None:
                    g = Family(f.cls, f.name + "'", None, birth=self.birth)
                    g.origin = f
                    for k in list(f.fields):
                        g.fields[k] = (lambda fn: lambda j: self.inst(fn(j), idx))(f.fields[k])
                    self.fams[(id(f), idx)] = g
                return g.at(i)
            return f.at(i)
        if isinstance(v, SList):
            if v.birth <= self.start and not v.ro:
                return v
            if v.sym is None:
                return readonly(SList([self.inst(x, idx) for x in list.__iter__(v)]))
            return readonly(SList.symbolic(v.sym.inst(self, idx)))
        if id(v) in self.created:
            fam = self.fams.get(id(v))
            if fam is None:
                fam = Family(type(v), "%s@%s" % (type(v).__name__, self.var.val), None, birth=self.birth)
                fam.origin = v
                for k, x in vars(v).items():
                    fam.fields[k] = (lambda x: lambda j: self.inst(x, j))(x)
                self.fams[id(v)] = fam
            return fam.at(idx)
        if hasattr(type(v), "dv_inst"):
            return v.dv_inst(lambda x: self.inst(x, idx))
        if isinstance(v, (dict, set, list)):
            if any(_depends(x, self) for x in (v.values() if isinstance(v, dict) else v)):
                raise Unsupported("container depending on a loop index")
        return v


def _depends(v, tpl):
    if isinstance(v, Sym):
        return bool(tm.fv(v.t) & ({tpl.var} | set(tpl.fmap)))
    if is_proxy(v):
        return tpl.var in tm.fv(pidx(v)) or tpl.owns(pfam(v))
    if isinstance(v, (tuple, list)):
        return any(_depends(x, tpl) for x in v)
    if isinstance(v, Arr) or hasattr(type(v), "dv_inst"):
        return True
    return id(v) in tpl.created


# ------------------------------------------------------------------ sequences
class MapSeq:
    """length N, element fn(k)"""
    guard = None

    def __init__(self, n, fn):
        self.n = dimterm(n) if isinstance(n, int) else n
        self.fn = fn

    def length(self):
        return self.n

    def at(self, k):
        return self.fn(k)

    def inst(self, tpl, idx):
        return MapSeq(tpl.term(self.n, idx), lambda k: tpl.inst(self.fn(k), idx))


class FilterSeq:
    """elements fn(k), k<N, for which cond(k)"""

    def __init__(self, n, cond, fn):
        self.n, self.cond, self.fn = n, cond, fn
        self.guard = cond

    def length(self):
        v = tm.var("?fl", "I")
        return tm.bigsum(v, tm.ZERO, self.n, tm.ite(self.cond(v), tm.ONE, tm.ZERO))

    def at(self, k):
        raise Unsupported("indexing a filtered sequence")


class NestedSeq:
    """flattened: for k<N, for r<count(k): fn(k, r)"""
    guard = None

    def __init__(self, n, count, fn):
        self.n, self.count, self.fn = n, count, fn

    def length(self):
        v = tm.var("?ns", "I")
        return tm.bigsum(v, tm.ZERO, self.n, self.count(v))

    def at(self, k):
        raise Unsupported("indexing a flattened sequence")


class ConcatSeq:
    """concatenation of parts (sequence objects or concrete lists)"""
    guard = None

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, ConcatSeq):
                self.parts += p.parts
            else:
                self.parts.append(p)

    def length(self):
        return tm.add(*[tm.const(len(p)) if isinstance(p, list) else p.length() for p in self.parts])

    def at(self, k):
        c = core.CTX
        off = tm.ZERO
        for j, p in enumerate(self.parts):
            n = tm.const(len(p)) if isinstance(p, list) else p.length()
            end = tm.add(off, n)
            last = j == len(self.parts) - 1
            if last or c.implied(tm.lt(k, end)):
                return self._part(p, tm.sub(k, off))
            if not c.implied(tm.le(end, k)):
                a = self._part_try(p, tm.sub(k, off), tm.lt(k, end))
                rest = ConcatSeq(self.parts[j + 1:]).at(tm.sub(k, end))
                if isinstance(a, core.Sym) or is_num(a) and is_num(rest):
                    return merge_value(tm.lt(k, end), a, rest)
                if c.decide(tm.lt(k, end)):
                    return a
                return rest
            off = end
        raise IndexError

    def _part_try(self, p, k, cond):
        return self._part(p, k)

    def _part(self, p, k):
        if isinstance(p, list):
            if k.op == "const":
                return p[int(k.val)] if 0 <= int(k.val) < len(p) else p[-1]
            r = p[-1]
            for i in range(len(p) - 2, -1, -1):
                cond = tm.eq(k, tm.const(i))
                if is_num(r) and is_num(p[i]):
                    r = merge_value(cond, p[i], r)
                elif core.CTX.decide(cond):
                    return p[i]
            return r
        return p.at(k)

    def inst(self, tpl, idx):
        return ConcatSeq([[tpl.inst(x, idx) for x in p] if isinstance(p, list) else p.inst(tpl, idx) for p in self.parts])


def _concat_slice(seq, st, n):
    """slice of a concatenation part by part, when the order of the bounds and
    the part boundaries is known"""
    c = core.CTX
    end = tm.add(st, n)
    out, off = [], tm.ZERO
    for p in seq.parts:
        m = tm.const(len(p)) if isinstance(p, list) else p.length()
        stop = tm.add(off, m)
        if isinstance(p, FilterSeq) or isinstance(p, NestedSeq):
            return None
        if c.implied(tm.le(stop, st)) or c.implied(tm.le(end, off)):
            off = stop
            continue
        if c.implied(tm.le(st, off)):
            a = tm.ZERO
        elif c.implied(tm.le(off, st)):
            a = tm.sub(st, off)
        else:
            return None
        if c.implied(tm.le(stop, end)):
            b = m
        elif c.implied(tm.le(end, stop)):
            b = tm.sub(end, off)
        else:
            return None
        off = stop
        if a is tm.ZERO and b is m:
            out.append(p)
        elif isinstance(p, list):
            if a.op != "const" or b.op != "const":
                return None
            out.append(p[int(a.val):int(b.val)])
        else:
            out.append(MapSeq(tm.sub(b, a), lambda k, p=p, a=a: p.at(tm.add(a, k))))
    if not out:
        return None
    return ConcatSeq(out)


def seq_slice(seq, st, step, ln):
    n = dimterm(ln)
    if step == 1:
        if isinstance(seq, FilterSeq):
            raise Unsupported("slice of a filtered sequence")
        if isinstance(seq, ConcatSeq):
            r = _concat_slice(seq, st, n)
            if r is not None:
                return r
        return MapSeq(n, lambda k: seq.at(tm.add(st, k)))
    return MapSeq(n, lambda k: seq.at(tm.add(st, tm.mul(tm.const(step), k))))


class SList(list):
    """list that may have symbolic length (sym is not None)"""

    def __init__(self, items=()):
        list.__init__(self, items)
        self.sym = None
        self.birth = core.serial()
        self.ro = False

    @classmethod
    def symbolic(cls, seq):
        r = cls()
        r.sym = seq
        return r

    def _note(self):
        if self.ro:
            raise Unsupported("changing a list seen through a copy")
        c = core.CTX
        if c is not None and c.journal is not None:
            items, sym = list(list.__iter__(self)), self.sym

            def undo():
                list.__setitem__(self, slice(None), items)
                self.sym = sym
            c.note(("list", core.IdKey(self)), undo, self.birth)

    # -- content
    def parts(self):
        return self.sym.parts if isinstance(self.sym, ConcatSeq) else [self.sym] if self.sym is not None else [list(list.__iter__(self))]

    def length(self):
        return wrap(self.sym.length()) if self.sym is not None else list.__len__(self)

    def __len__(self):
        if self.sym is not None:
            n = self.sym.length()
            if n.op == "const":
                return int(n.val)
            raise Unsupported("len() of symbolic list in native code")
        return list.__len__(self)

    def __bool__(self):
        if self.sym is not None:
            return core.CTX.decide(tm.lt(tm.ZERO, self.sym.length()))
        return list.__len__(self) > 0

    def __iter__(self):
        if self.sym is not None:
            raise Unsupported("native iteration over a symbolic list")
        return list.__iter__(self)

    def __getitem__(self, key):
        if self.sym is None:
            if isinstance(key, slice):
                if all(x is None or not isinstance(x, Sym) for x in (key.start, key.stop, key.step)):
                    return SList(list.__getitem__(self, key))
                a, step, ln = norm_slice(key, list.__len__(self))
                if a.op == "const" and isinstance(ln, int):
                    a = int(a.val)
                    return SList([list.__getitem__(self, a + step * i) for i in range(ln)])
                return SList.symbolic(seq_slice(ConcatSeq([list(self)]), a, step, ln))
            if isinstance(key, Sym):
                n = list.__len__(self)
                t = norm_index(key, n)
                if t.op == "const":
                    return list.__getitem__(self, int(t.val))
                return ConcatSeq([list(self)]).at(t)
            return list.__getitem__(self, key)
        n = dimval(self.sym.length())
        if isinstance(key, slice):
            st, step, ln = norm_slice(key, n)
            return SList.symbolic(seq_slice(self.sym, st, step, ln))
        return self.sym.at(norm_index(key, n))

    def __setitem__(self, key, v):
        self._note()
        if self.sym is not None or isinstance(key, Sym):
            if self.sym is None:
                n = list.__len__(self)
                t = norm_index(key, n)
                if t.op == "const":
                    list.__setitem__(self, int(t.val), v)
                    return
                for i in range(n):
                    list.__setitem__(self, i, merge_value(tm.eq(t, tm.const(i)), v, list.__getitem__(self, i)))
                return
            raise Unsupported("assignment into a symbolic list")
        list.__setitem__(self, key, v)

    def append(self, v):
        self._note()
        if self.sym is None:
            list.append(self, v)
        else:
            ps = self.parts()
            if isinstance(ps[-1], list):
                ps = ps[:-1] + [ps[-1] + [v]]
            else:
                ps = ps + [[v]]
            self.sym = ConcatSeq(ps)

    def extend(self, o):
        self._note()
        if self.sym is None and not (isinstance(o, SList) and o.sym is not None):
            list.extend(self, o)
        else:
            op = o.parts() if isinstance(o, SList) else [list(o)]
            self.sym = ConcatSeq([p for p in self.parts() if p != []] + op)
            list.clear(self)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        if self.sym is None and not (isinstance(o, SList) and o.sym is not None):
            return SList(list(self) + list(o))
        op = o.parts() if isinstance(o, SList) else [list(o)]
        return SList.symbolic(ConcatSeq([p for p in self.parts() + op if p != []]))

    def __radd__(self, o):
        return SList(list(o)) + self

    def __mul__(self, k):
        if isinstance(k, Sym):
            if self.sym is None and list.__len__(self) == 1:
                v = list.__getitem__(self, 0)
                return SList.symbolic(MapSeq(k.t, lambda i: v))
            raise Unsupported("list repetition")
        return SList(list.__mul__(self, k))

    __rmul__ = __mul__

    def insert(self, i, v):
        self._note()
        if self.sym is None and not isinstance(i, Sym):
            list.insert(self, i, v)
            return
        if self.sym is None:
            seq = ConcatSeq([list(self)])
            n = tm.const(list.__len__(self))
        else:
            seq, n = self.sym, self.sym.length()
        t = term_of(i)
        c = core.CTX
        if c.decide(tm.lt(t, tm.ZERO)):
            t = tm.add(t, n)
            if c.decide(tm.le(t, tm.ZERO)):
                t = tm.ZERO
        if c.decide(tm.lt(n, t)):
            t = n
        head = MapSeq(t, seq.at)
        tail = MapSeq(tm.sub(n, t), lambda k: seq.at(tm.add(t, k)))
        list.clear(self)
        self.sym = ConcatSeq([head, [v], tail] if t is not tm.ZERO else [[v], tail])

    def pop(self, *a):
        self._note()
        if self.sym is not None:
            raise Unsupported("pop from a symbolic list")
        return list.pop(self, *a)

    def _native(name):
        def m(self, *a, **k):
            if self.sym is not None:
                raise Unsupported("list.%s on a symbolic list" % name)
            if name in ("clear", "sort", "reverse", "remove", "__delitem__"):
                self._note()
            return getattr(list, name)(self, *a, **k)
        return m
    for _n in ("clear", "sort", "reverse", "remove", "count", "__delitem__", "__lt__", "__reversed__"):
        locals()[_n] = _native(_n)
    del _n, _native

    def index(self, v, *a):
        if self.sym is not None:
            raise Unsupported("list.index on symbolic list")
        for i, x in enumerate(list.__iter__(self)):
            if x is v or bool(x == v):
                return i
        raise ValueError("not in list")

    def member(self, v):
        """v equals some element of a symbolic list of numbers"""
        q = self.sym
        i = tm.fresh("in", "I")
        x = q.at(i) if isinstance(q, MapSeq) else None
        if not (is_num(x) and is_num(v)):
            raise Unsupported("membership in symbolic list")
        return wrap(tm.not_(tm.forall(i, tm.ZERO, q.n, tm.not_(tm.eq(term_of(x), term_of(v))))))

    def __contains__(self, v):
        if self.sym is not None:
            return bool(self.member(v))
        for x in list.__iter__(self):
            if x is v or bool(x == v):
                return True
        return False

    def copy(self):
        return self[:]

    def __eq__(self, o):
        if self.sym is None and isinstance(o, list) and not (isinstance(o, SList) and o.sym is not None):
            if list.__len__(self) != list.__len__(o):
                return False
            return all(bool(x is y or x == y) for x, y in zip(list.__iter__(self), list.__iter__(o)))
        if o is self:
            return True
        raise Unsupported("comparison of symbolic lists")

    __hash__ = None

    def __repr__(self):
        return "SList<sym>" if self.sym is not None else list.__repr__(self)

    def __deepcopy__(self, memo):
        import copy
        if self.sym is not None:
            raise Unsupported("deepcopy of a symbolic list")
        return SList([copy.deepcopy(x, memo) for x in self])


class SymRange:
    """range with symbolic bounds"""
    guard = None

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step
        self.n = tm.sub(hi, lo) if step == 1 else tm.sub(lo, hi)

    def length(self):
        return self.n

    def at(self, k):
        return wrap(tm.add(self.lo, k) if self.step == 1 else tm.sub(self.lo, k))


def row(a, k):
    m = a.imap
    r = Arr(a.shape[1:], store=a.store, imap=(lambda *ix: m(k, *ix)) if m else (lambda *ix: (k,) + ix))
    r.specs = [("i", k)] + [("s", tm.ZERO, 1)] * (a.ndim - 1) if m is None else None
    return r


def seq_of(v):
    """symbolic sequence object of an iterable value, or None if concrete"""
    if isinstance(v, SList):
        return v.sym
    if isinstance(v, (MapSeq, FilterSeq, NestedSeq, ConcatSeq, SymRange)):
        return v
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        if isinstance(v.shape[0], int):
            return None
        return MapSeq(v.shape[0], lambda k: row(v, k) if v.ndim > 1 else wrap(v.at(k)))
    if isinstance(v, MArr):
        m = v
        return FilterSeq(dimterm(m.full), lambda k: m.mask.at(k), lambda k: wrap(m.base.at(k)))
    return None

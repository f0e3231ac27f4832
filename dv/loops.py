"""Loops over symbolic sequences and while loops.

The state at the start of iteration k is described by one model per written
location (a candidate loop invariant); the body is evaluated once from that
state for a generic k and the result is compared with the model at k+1."""
from . import term as tm
from . import core
from .core import Sym, SubPath, Unsupported, Infeasible, sub_explore, term_of, wrap, is_num, IdKey
from .arrays import Arr, MArr, Store, dimterm, dimval, write_store, memo_fn
from . import seq as sq
from .seq import (SList, MapSeq, FilterSeq, NestedSeq, ConcatSeq, SymRange, Poison, Template, Family, merge_value, is_proxy, same_object)
from .interp import BreakEx, ContinueEx, ReturnEx, read_loc, _store_dict, _store_dict_attr, _MISSING
from .prover import Def, quick_implied, zero, simp, lin_coef


# ------------------------------------------------------------------ locations
def write_loc(loc, v):
    k = loc[0]
    if k == "dict":
        d = loc[1].o
        if v is _MISSING:
            if loc[2] in d:
                old = d[loc[2]]
                core.CTX.note(loc, lambda: d.__setitem__(loc[2], old))
                del d[loc[2]]
            return
        _store_dict(d, loc[2], v)
    elif k == "attr":
        _store_dict_attr(loc[1].o, loc[1].o.__dict__, loc[2], v)
    elif k == "store":
        write_store(loc[1], v)
    elif k == "fam":
        fam, name = loc[1], loc[2]
        old = fam.fields.get(name)

        def undo():
            if old is None:
                fam.fields.pop(name, None)
            else:
                fam.fields[name] = old
        core.CTX.note(loc, undo, fam.birth)
        fam.fields[name] = v
    elif k == "list":
        s = loc[1].o
        s._note()
        items, sym = v
        list.__setitem__(s, slice(None), items)
        s.sym = sym
    else:
        raise Unsupported("container changed in a loop")


def loc_name(loc):
    if loc[0] in ("dict", "attr"):
        return str(loc[2])
    if loc[0] == "fam":
        return loc[1].name + "." + loc[2]
    return loc[0]


class Opaque:
    """elements appended by earlier iterations, not yet known"""
    guard = None

    def __init__(self, n):
        self.n = n

    def length(self):
        raise Unsupported("length of a list under construction")

    def at(self, k):
        raise Unsupported("element of a list under construction")

    def inst(self, tpl, idx):
        return self


# ------------------------------------------------------------------ models
def choices(e, cond=tm.TRUE):
    """[(condition, value)] of a conditional term"""
    if e.op != "ite":
        return [(cond, e)]
    c, x, y = e.args
    return choices(x, tm.and_(cond, c)) + choices(y, tm.and_(cond, tm.not_(c)))


class Model:
    final = False      # closed or definitively recursive
    recursive = False


class NumModel(Model):
    """numeric scalar"""

    def __init__(self, L, loc, v0, sort):
        self.L, self.loc, self.v0 = L, loc, term_of(v0)
        self.sort = sort
        self.uf = tm.fresh("it_" + loc_name(loc)).val
        self.fn = None       # closed form k -> term

    def app(self, k):
        return tm.app(self.uf, (k,), self.sort)

    def at(self, k):
        return wrap(self.fn(k) if self.fn else self.app(k))

    def update(self, L, paths, unresolved):
        """after an exploration; returns True if the model changed"""
        k = L.k
        e = L.merged_term(self.loc, paths, self)
        if self.fn is not None:
            # verify the candidate
            nxt = self.fn(tm.add(k, tm.ONE))
            ok = L.equal(e, nxt)
            if ok:
                self.final = True
                return False
            self.fn = None
            self.recursive = True
            self.sort = tm.join(self.sort, e.sort) if e.sort != "B" else self.sort
            return True
        if self.recursive:
            s2 = tm.join(self.sort, e.sort) if e.sort != "B" and self.sort != "B" else self.sort
            if s2 != self.sort:
                self.sort = s2
                return True
            self.define(L, e)
            return False
        cand = self.close(L, e, unresolved)
        if cand is not None:
            self.fn = cand
            return True
        s2 = tm.join(self.sort, e.sort) if e.sort != "B" and self.sort != "B" else self.sort
        if s2 != self.sort:
            self.sort = s2
            return True
        self.pending = e
        return False

    def giveup(self):
        self.recursive = True

    def define(self, L, e):
        self.final = True
        t = tm.fresh("dt", "I")
        body = tm.ite(tm.eq(t, tm.ZERO), self.cast(self.v0), L.tpl.term(e, tm.sub(t, tm.ONE)))
        g = tm.le(tm.ZERO, t)
        if L.n is not None:
            g = tm.and_(g, tm.le(t, L.n))
        core.CTX.defs[self.uf] = Def(self.uf, [t], body, g)
        self.last = None
        a = self.app(L.k)
        cases = choices(e)
        if any(v is a for _, v in cases) and len(cases) < 9 and not any(s is a for c, v in cases for s in tm.subterms(v) if v is not a):
            self.last = [(c, v) for c, v in cases if v is not a]

    def history(self, L, k):
        """the value is the initial one, or was set by an earlier iteration (by induction on
        the number of iterations: every case of the definition keeps it or sets it)"""
        v = tm.fresh("q", "I")
        now = self.app(k)
        was = [tm.exists(v, tm.ZERO, k, tm.and_(L.tpl.term(c, v), tm.eq(now, L.tpl.term(x, v)))) for c, x in self.last]
        core.CTX.assume(tm.or_(tm.eq(now, self.cast(self.v0)), *was))

    def cast(self, t):
        return core.cast_term(t, self.sort) if self.sort in "RC" and t.sort in "IR" and self.sort == "R" else t

    def close(self, L, e, unresolved):
        k = L.k
        a = self.app(k)
        names = {m.uf for m in unresolved if m is not self}

        def clean(t, selfok=False):
            for s in tm.subterms(t):
                if s.op == "app" and (s.val in names or not selfok and s.val == self.uf):
                    return False
            return True
        v0 = self.v0
        if e is a:
            return lambda j: v0
        if clean(e):
            tpl = L.tpl
            e0 = tpl.term(e, tm.const(-1))
            if k not in tm.fv(tpl.gen(e)) and e is v0:
                return lambda j: v0
            if e.sort == "B" and v0.sort == "B" or e.sort != "B" and v0.sort != "B":
                try:
                    same = L.equal(e0, v0)
                except ZeroDivisionError:
                    same = False
                if same:
                    return lambda j: tpl.term(e, tm.sub(j, tm.ONE))
            return lambda j: tm.ite(tm.eq(j, tm.ZERO), v0, tpl.term(e, tm.sub(j, tm.ONE)))
        tpl = L.tpl
        if self.sort == "B":
            # and / or accumulation
            ev = [tm.subst(e, {a: tm.TRUE}), tm.subst(e, {a: tm.FALSE})]
            if clean(ev[0]) and clean(ev[1]):
                v = tm.fresh("q", "I")
                if ev[1] is tm.FALSE:
                    return lambda j: tm.and_(v0, tm.forall(v, tm.ZERO, j, tpl.term(ev[0], v)))
                if ev[0] is tm.TRUE:
                    return lambda j: tm.or_(v0, tm.exists(v, tm.ZERO, j, tpl.term(ev[1], v)))
            return None
        if e.op == "ite":
            # running maximum / minimum
            c, x, y = e.args
            for val, keep, pos in ((x, y, True), (y, x, False)):
                if keep is a and clean(val):
                    cc = c if pos else tm.not_(c)
                    v = tm.fresh("q", "I")
                    if cc in (tm.le(a, val), tm.lt(a, val)):
                        mx = lambda j: tm.max_(v0, tm.bigmax(v, tm.ZERO, j, tpl.term(val, v)))
                        return lambda j: tm.ite(tm.le(j, tm.ZERO), v0, mx(j))
                    if cc in (tm.le(val, a), tm.lt(val, a)):
                        mn = lambda j: tm.min_(v0, tm.bigmin(v, tm.ZERO, j, tpl.term(val, v)))
                        return lambda j: tm.ite(tm.le(j, tm.ZERO), v0, mn(j))
        d = L.diff(e, a)
        if d is not None and clean(d):
            g = tpl.gen(d)
            if k not in tm.fv(g):
                return lambda j: tm.add(v0, tm.mul(j, g))
            v = tm.fresh("q", "I")
            return lambda j: tm.add(v0, tm.bigsum(v, tm.ZERO, j, tpl.term(d, v)))
        return None

    def after(self, L, k):
        return self.at(k)


class ConstModel(Model):
    """location always holds the same object at iteration boundaries"""
    final = True
    uf = None

    def __init__(self, v0):
        self.v0 = v0

    def at(self, k):
        return self.v0

    after = lambda self, L, k: self.v0

    def update(self, L, paths, unresolved):
        return False


class LastModel(Model):
    """non-numeric location or temporary: not readable at the start of an iteration"""
    uf = None

    def __init__(self, L, loc, v0):
        self.loc, self.v0 = loc, v0
        self.final = True
        self.val = None

    def at(self, k):
        return Poison("'%s' carried between iterations of a loop" % loc_name(self.loc))

    def update(self, L, paths, unresolved):
        vals = [p.writes.get(self.loc) for p in paths]
        self.paths = paths
        return False

    def after(self, L, k):
        if not quick_implied(core.CTX.hyps, tm.le(tm.ONE, k)):
            if self.v0 is _MISSING:
                return Poison("'%s' after a loop" % loc_name(self.loc))
            if k is tm.ZERO:
                return self.v0
            return Poison("'%s' after a loop" % loc_name(self.loc))
        try:
            return L.tpl.inst(L.merged(self.loc, self.paths), tm.sub(k, tm.ONE))
        except Unsupported as e:
            return Poison("'%s' after a loop (%s)" % (loc_name(self.loc), e))


class ArrModel(Model):
    """variable rebound to an array of fixed shape, or a store rewritten as a whole"""

    def __init__(self, L, loc, f0, shape, sort, isstore):
        self.L, self.loc, self.f0, self.shape, self.sort, self.isstore = L, loc, f0, shape, sort, isstore
        self.uf = tm.fresh("it_" + loc_name(loc)).val
        self.fn = None

    def fun(self, k):
        if self.fn is not None:
            return self.fn(k)
        return lambda *ix: tm.app(self.uf, (k,) + ix, self.sort)

    def at(self, k):
        return self.fun(k) if self.isstore else Arr(self.shape, self.fun(k), self.sort)

    def after(self, L, k):
        return self.at(k)

    def value_fn(self, L, paths):
        fs = []
        for p in paths:
            v = p.writes[self.loc]
            if not self.isstore:
                if not isinstance(v, Arr) or len(v.shape) != len(self.shape):
                    raise Unsupported("array variable changes kind in a loop")
                v = v.frozen()
            fs.append(v)
        return lambda *ix: L.merge_terms([(p.mcond, f(*ix)) for p, f in zip(paths, fs)])

    def update(self, L, paths, unresolved):
        k = L.k
        f = self.value_fn(L, paths)
        q = [tm.fresh("ax", "I") for _ in self.shape]
        rng = []
        for v, d in zip(q, self.shape):
            rng += [tm.le(tm.ZERO, v), tm.lt(v, dimterm(d))]
        e = simp(f(*q), list(core.CTX.hyps) + L.rng + rng)
        tpl = L.tpl
        if self.fn is not None:
            nxt = self.fn(tm.add(k, tm.ONE))(*q)
            if L.equal(e, nxt, rng):
                self.final = True
                return False
            self.fn = None
            self.recursive = True
            return True
        s2 = tm.join(self.sort, e.sort) if e.sort != "B" and self.sort != "B" else self.sort
        if s2 != self.sort and not self.isstore:
            self.sort = s2
            return True
        if self.recursive:
            self.define(L, e, q)
            return False
        names = {m.uf for m in unresolved if m is not self}
        apps = {s.val for s in tm.subterms(e) if s.op == "app"}
        f0 = self.f0
        if not apps & names:
            if self.uf not in apps:
                self.fn = lambda j: (lambda *ix: tm.ite(tm.eq(j, tm.ZERO), f0(*ix), tm.subst(tpl.term(e, tm.sub(j, tm.ONE)), dict(zip(q, ix)))))
                return True
            a = tm.app(self.uf, (k,) + tuple(q), self.sort)
            d = L.diff(e, a)
            if d is not None and not any(s.op == "app" and s.val == self.uf for s in tm.subterms(d)):
                v = tm.fresh("q", "I")
                self.fn = lambda j: (lambda *ix: tm.add(f0(*ix), tm.bigsum(v, tm.ZERO, j, tm.subst(tpl.term(d, v), dict(zip(q, ix))))))
                return True
        return False

    def giveup(self):
        self.recursive = True

    def define(self, L, e, q):
        self.final = True
        t = tm.fresh("dt", "I")
        body = tm.ite(tm.eq(t, tm.ZERO), self.f0(*q), L.tpl.term(e, tm.sub(t, tm.ONE)))
        g = tm.le(tm.ZERO, t)
        if L.n is not None:
            g = tm.and_(g, tm.le(t, L.n))
        core.CTX.defs[self.uf] = Def(self.uf, [t] + list(q), body, g)


class RowModel(Model):
    """store or family field of which iteration k writes exactly row w(k) = cf*k + c"""

    def __init__(self, L, loc, init, axis, cf, c, sort, ndim, numeric):
        self.L, self.loc, self.init, self.axis, self.cf, self.c, self.sort, self.ndim = L, loc, init, axis, cf, c, sort, ndim
        self.numeric = numeric
        self.uf = tm.fresh("row_" + loc_name(loc)).val
        self.closed = None
        self.recursive = False

    def row_of(self, k):
        return tm.add(self.c, k if self.cf == 1 else tm.neg(k))

    def iter_of(self, r):
        return tm.sub(r, self.c) if self.cf == 1 else tm.sub(self.c, r)

    def M(self, ix):
        if self.closed is not None:
            return self.closed(ix)
        if not self.numeric:
            return Poison("element written by an earlier iteration")
        t = tm.app(self.uf, tuple(ix), self.sort)
        return t if self.loc[0] == "store" else wrap(t)

    def fun(self, k):
        isst = self.loc[0] == "store"

        def f(*ix):
            j = self.iter_of(ix[self.axis])
            w = tm.and_(tm.le(tm.ZERO, j), tm.lt(j, k))
            if w is tm.TRUE or core.CTX.implied(w):
                return self.M(ix)
            if w is tm.FALSE or core.CTX.implied(tm.not_(w)):
                return self.init(*ix)
            if isst:
                return tm.ite(w, self.M(ix), self.init(*ix))
            return merge_value(w, self.M(ix), self.init(*ix))
        return f

    at = fun

    def after(self, L, k):
        return self.fun(k)

    def update(self, L, paths, unresolved):
        k = L.k
        isst = self.loc[0] == "store"
        r = self.row_of(k)
        q = [tm.fresh("rx", "I") for _ in range(self.ndim - 1)]
        ix = list(q)
        ix.insert(self.axis, r)
        qr = []
        if isst:
            dims = [d for a, d in enumerate(self.loc[1].shape) if a != self.axis]
            for v, d in zip(q, dims):
                qr += [tm.le(tm.ZERO, v), tm.lt(v, dimterm(d))]
        hy = list(core.CTX.hyps) + L.rng + qr
        if isst:
            e = simp(L.merge_terms([(p.mcond, p.writes[self.loc](*ix)) for p in paths]), hy)
        else:
            vals = L.eval_paths(paths, lambda p: p.writes[self.loc](*ix))
            e = L.merge_values(list(zip([p.mcond for p in paths], vals)))
            if self.numeric != is_num(e):
                self.numeric = is_num(e)
                if self.numeric:
                    self.sort = term_of(e).sort
                self.closed = None
                return True
            if is_num(e):
                e = simp(term_of(e), hy)
        tpl = L.tpl
        if isinstance(e, tm.T):
            if self.sort != e.sort and not isst and e.sort != "B":
                s2 = tm.join(self.sort, e.sort) if self.sort != "B" else e.sort
                if s2 != self.sort:
                    self.sort = s2
                    return True
            names = {m.uf for m in unresolved if m is not self}
            apps = {s.val for s in tm.subterms(e) if s.op == "app"}

            def inst(ixx):
                rest = [x for a, x in enumerate(ixx) if a != self.axis]
                j = self.iter_of(ixx[self.axis])
                t = tm.subst(tpl.term(e, j), dict(zip(q, rest)))
                return t if isst else wrap(t)
            if self.uf not in apps and not apps & names and not self.recursive:
                old = self.closed
                self.closed = inst
                self.final = True
                return old is None
            if self.closed is not None:
                self.closed = None
                self.recursive = True
                return True
            if not apps & names or self.recursive:
                self.recursive = True
                self.final = True
                ps = [tm.fresh("rp", "I") for _ in range(self.ndim)]
                j = self.iter_of(ps[self.axis])
                g = tm.le(tm.ZERO, j)
                if L.n is not None:
                    g = tm.and_(g, tm.lt(j, L.n))
                b = inst(ps)
                core.CTX.defs[self.uf] = Def(self.uf, ps, b if isst else term_of(b), g)
            return False
        # non-numeric element
        old = self.closed
        self.closed = lambda ixx: tpl.inst(e, self.iter_of(ixx[self.axis]))
        self.final = True
        return old is None

    def giveup(self):
        self.recursive = True


class FamFullModel(Model):
    """numeric family field rewritten for every element in each iteration"""

    def __init__(self, L, loc, init, sort):
        self.L, self.loc, self.init, self.sort = L, loc, init, sort
        self.uf = tm.fresh("it_" + loc_name(loc)).val
        self.recursive = True

    def at(self, k):
        return lambda ix: wrap(tm.app(self.uf, (k, ix), self.sort))

    def after(self, L, k):
        return self.at(k)

    def giveup(self):
        pass

    def update(self, L, paths, unresolved):
        q = tm.fresh("fx", "I")
        n = self.loc[1].length
        rng = [tm.le(tm.ZERO, q)] + ([tm.lt(q, dimterm(n))] if n is not None else [])
        vals = L.eval_paths(paths, lambda p: p.writes[self.loc](q))
        e = L.merge_values(list(zip([p.mcond for p in paths], vals)))
        if not is_num(e):
            raise Unsupported("non-numeric attribute rewritten in nested loops")
        e = simp(term_of(e), list(core.CTX.hyps) + L.rng + rng)
        if e.sort != self.sort and e.sort != "B":
            s2 = tm.join(e.sort, self.sort)
            if s2 != self.sort:
                self.sort = s2
                return True
        i0 = self.init(q)
        if not is_num(i0):
            raise Unsupported("attribute without an initial number in nested loops")
        t = tm.fresh("dt", "I")
        body = tm.ite(tm.eq(t, tm.ZERO), term_of(i0), L.tpl.term(e, tm.sub(t, tm.ONE)))
        g = tm.le(tm.ZERO, t)
        core.CTX.defs[self.uf] = Def(self.uf, [t, q], body, g)
        self.final = True
        return False


class ListModel(Model):
    """append-only list"""
    uf = None

    def __init__(self, L, loc, v0):
        self.loc = loc
        items, sym = v0
        if sym is None:
            self.orig = [list(items)] if items else []
        else:
            self.orig = list(sym.parts) if isinstance(sym, ConcatSeq) else [sym]
        self.seqfn = None      # k -> sequence of items appended before iteration k
        self.mark = None
        self.none = False

    def at(self, k):
        if self.none:
            p = self.orig
            if not p:
                return ([], None)
            if len(p) == 1 and isinstance(p[0], list):
                return (list(p[0]), None)
            return ([], ConcatSeq(p))
        self.mark = self.seqfn(k) if self.seqfn else Opaque(k)
        return ([], ConcatSeq(self.orig + [self.mark]))

    def after(self, L, k):
        if self.none:
            return self.at(k)
        s = self.seqfn(k)
        if not self.orig:
            return ([], s)
        return ([], ConcatSeq(self.orig + [s]))

    def appended(self, p):
        items, sym = p.writes[self.loc]
        if self.none:
            if sym is None and not self.orig:
                return [list(items)] if items else []
            ps = [list(items)] if sym is None else (sym.parts if isinstance(sym, ConcatSeq) else [sym])
            if len(ps) == len(self.orig) and all(a is b or a == b for a, b in zip(ps, self.orig)):
                return []
            raise Unsupported("list")
        ps = sym.parts if isinstance(sym, ConcatSeq) else [sym]
        n = len(self.orig) + 1
        if items or len(ps) < n:
            raise Unsupported("list rewritten in a loop")
        if not (type(ps[n - 1]) is type(self.mark)):
            raise Unsupported("list rewritten in a loop")
        return ps[n:]

    def update(self, L, paths, unresolved):
        app = [self.appended(p) for p in paths]
        tpl = L.tpl
        first = self.seqfn is None and not self.none
        conds = [p.mcond for p in paths]
        if all(not a for a in app):
            self.none = True
            self.final = True
            return first
        k = L.k
        flat = [[x for part in a for x in part] if all(isinstance(part, list) for part in a) else None for a in app]
        if all(f is not None for f in flat):
            lens = {len(f) for f in flat}
            if lens == {1}:
                v = L.merge_values([(c, f[0]) for c, f in zip(conds, flat)])
                self.seqfn = lambda n: MapSeq(n, lambda j: tpl.inst(v, j))
                self.final = True
                return first
            if lens <= {0, 1}:
                v = L.merge_values([(c, f[0]) for c, f in zip(conds, flat) if f])
                g = tm.or_(*[c for c, f in zip(conds, flat) if f])
                self.seqfn = lambda n: FilterSeq(n, lambda j: tpl.term(g, j), lambda j: tpl.inst(v, j))
                self.final = True
                return first
        # general: a block per iteration
        cnts, fns = [], []
        for a in app:
            if len(a) == 0:
                cnts.append(tm.ZERO)
                fns.append(None)
            elif len(a) == 1 and not isinstance(a[0], list):
                if not isinstance(a[0], MapSeq):
                    raise Unsupported("flattened block")
                cnts.append(a[0].length())
                fns.append(a[0].at)
            else:
                cs = ConcatSeq(a)
                cnts.append(cs.length())
                fns.append(cs.at)
        cnt = L.merge_terms(list(zip(conds, cnts)))
        live = [(c, f) for c, f in zip(conds, fns) if f is not None]

        def item(j, r):
            # objects merged on demand belong to the iteration
            cx = core.CTX
            saved, cx.created = cx.created, []
            try:
                v = L.merge_values([(c, f(r)) for c, f in live])
                tpl.created.update((id(o), o) for o in cx.created)
            finally:
                cx.created = saved
            return tpl.inst(v, j)
        self.seqfn = lambda n: NestedSeq(n, lambda j: tpl.term(cnt, j), item)
        self.final = True
        return first


def peel(t, k):
    """split the k-th case off quantifiers over 0..k+1"""
    if t.op in ("forall", "exists") and t.args[0] is tm.ZERO and t.args[1] is tm.add(k, tm.ONE):
        lo, hi, body = t.args
        last = tm.subst(body, {t.val: k})
        rest = (tm.forall if t.op == "forall" else tm.exists)(t.val, lo, k, body)
        return tm.and_(rest, last) if t.op == "forall" else tm.or_(rest, last)
    if t.op in ("and", "or"):
        return (tm.and_ if t.op == "and" else tm.or_)(*[peel(x, k) for x in t.args])
    if t.op == "not":
        return tm.not_(peel(t.args[0], k))
    return t


# ------------------------------------------------------------------ the loop
class Loop:
    def __init__(self, I, n, body, label, test=None):
        self.I, self.n, self.body, self.label = I, n, body, label
        c = core.CTX
        self.k = tm.fresh("k", "I")
        self.rng = [tm.le(tm.ZERO, self.k)] + ([tm.lt(self.k, n)] if n is not None else [])
        self.models = {}
        self.draws = {}
        self.pre = {}
        self.tpl = None

    # -- helpers used by models
    def merge_terms(self, cv):
        r = cv[-1][1]
        for c, v in reversed(cv[:-1]):
            r = v if v is r else tm.ite(c, v, r)
        return r

    def merge_values(self, cv):
        r = cv[-1][1]
        for c, v in reversed(cv[:-1]):
            r = merge_value(c, v, r)
        return r

    def eval_paths(self, paths, f):
        """evaluate f(p) under the conditions of each path"""
        c = core.CTX
        out = []
        s = c.hyps
        for p in paths:
            c.hyps = list(s) + self.rng + list(p.conds)
            try:
                out.append(f(p))
            finally:
                c.hyps = s
        return out

    def merged(self, loc, paths):
        return self.merge_values([(p.mcond, p.writes[loc]) for p in paths])

    def merged_term(self, loc, paths, model):
        return self.merge_terms([(p.mcond, term_of(p.writes[loc])) for p in paths])

    def equal(self, a, b, rng=()):
        if a is b:
            return True
        hy = list(core.CTX.hyps) + self.rng + list(rng)
        if a.sort == "B" or b.sort == "B":
            if a.sort != b.sort:
                return False
            a, b = peel(a, self.k), peel(b, self.k)
            return a is b or quick_implied(hy, tm.iff(a, b))
        a, b = self.tpl.gen(a), self.tpl.gen(b)
        return zero(tm.sub(a, b), hy, core.CTX.defs)

    def diff(self, e, a):
        """e - a in normal form"""
        from .norm import Norm, TooBig
        d = tm.sub(e, a)
        if a not in tm.subterms(d):
            return d
        if e.op == "ite":
            c, x, y = e.args
            if a in tm.subterms(c):
                return None
            dx, dy = self.diff(x, a), self.diff(y, a)
            return None if dx is None or dy is None else tm.ite(c, dx, dy)
        try:
            N = Norm()
            d = N.to_term(N(d))
        except (TooBig, ZeroDivisionError):
            return None
        return d if a not in tm.subterms(d) else None

    # -- exploration of one generic iteration
    def explore(self):
        c = core.CTX
        I = self.I
        s_created, s_fresh, s_wlog = c.created, c.fresh_log, c.wlog
        created, freshes, wlogs = [], [], []
        ents = []
        start = core.serial()

        s_draws = c.draw_cache, getattr(c, "draw_n", 0)
        c.draw_cache = self.draws

        def fn():
            c.wlog = []
            c.draw_n = 0
            for loc, m in self.models.items():
                write_loc(loc, m.at(self.k))
            c.wlog = []
            depth = I.depth
            try:
                r = self.body(self.k)
            except (BreakEx,):
                r = ("break", None)
            except ContinueEx:
                r = ("normal", None)
            except ReturnEx as e:
                r = ("return", e.v)
            finally:
                I.depth = depth
                ents.extend(c.wlog)
            return r
        c.created, c.fresh_log = created, freshes
        try:
            paths = sub_explore(fn, read_loc, self.rng)
        finally:
            c.created, c.fresh_log, c.wlog = s_created, s_fresh, s_wlog
            c.draw_cache, c.draw_n = s_draws
        self.wlog = ents
        self.tpl = Template(self.k, created, freshes, start)
        if s_fresh is not None and freshes:
            # nested loops: names become functions of the inner index only
            raise Unsupported("random draws in nested loops")
        if s_created is not None:
            s_created.extend(created)
        return paths

    def new_model(self, loc, paths):
        """model for a newly written location"""
        v0 = read_loc(loc)
        kind = loc[0]
        if kind in ("dict", "attr"):
            ends = [p.writes[loc] for p in paths if loc in p.writes]
            if v0 is not _MISSING and all(v is v0 for v in ends) and not is_num(v0):
                return ConstModel(v0)
            if v0 is not _MISSING and is_num(v0) and all(is_num(v) for v in ends):
                t0 = term_of(v0)
                sort = t0.sort
                for v in ends:
                    s = term_of(v).sort
                    if s != sort:
                        sort = tm.join(sort, s)
                return NumModel(self, loc, v0, sort)
            if isinstance(v0, Arr) and all(isinstance(v, Arr) and v.ndim == v0.ndim for v in ends):
                return ArrModel(self, loc, v0.frozen(), v0.shape, v0.sort, False)
            return LastModel(self, loc, v0)
        if kind == "list":
            return ListModel(self, loc, v0)
        if kind in ("store", "fam"):
            return self.store_model(loc, v0)
        raise Unsupported("loop changes a " + kind)

    def store_model(self, loc, v0):
        key = loc[1] if loc[0] == "store" else loc
        ents = [s for o, s in self.wlog if (o is key if loc[0] == "store" else o == key)]
        if loc[0] == "fam" and v0 is None:
            nm = loc[2]

            def v0(ix):
                raise AttributeError(nm)
        ndim = len(loc[1].shape) if loc[0] == "store" else 1
        if not ents:
            raise Unsupported("untracked write")
        found = None
        unres = {m.uf for m in self.models.values() if m.uf and not m.final}
        for axis in range(ndim):
            ws = {s[axis] if isinstance(s[axis], tm.T) else None for s in ents}
            if None in ws or len(ws) != 1:
                continue
            w = next(iter(ws))
            if any(s.op == "app" and s.val in unres for s in tm.subterms(w)):
                continue
            cf = lin_coef(w, self.k)
            if cf in (1, -1):
                c = tm.sub(w, tm.mul(tm.const(cf), self.k))
                found = (axis, cf, c)
                break
        if found:
            axis, cf, c = found
            if loc[0] == "store":
                return RowModel(self, loc, v0, axis, cf, c, loc[1].sort, ndim, True)
            return RowModel(self, loc, v0, axis, cf, c, "R", 1, True)
        if loc[0] == "store":
            m = ArrModel(self, loc, v0, loc[1].shape, loc[1].sort, True)
        else:
            m = FamFullModel(self, loc, v0, "R")
        m.provisional = bool(unres)
        return m

    def solve(self):
        c = core.CTX
        c0 = len(c.obls)
        for rnd in range(14):
            del c.obls[c0:]
            paths = self.explore()
            norm = [p for p in paths if p.kind == "normal"]
            common = set(norm[0].conds).intersection(*[p.conds for p in norm[1:]]) if norm else ()
            for p in norm:
                p.mconds = [h for h in p.conds if h not in common]
            self.paths, self.norm = paths, norm
            changed = False
            locs = {}
            for p in paths:
                for l in p.writes:
                    locs[l] = None
            for l in locs:
                if l not in self.models:
                    m = self.new_model(l, norm or paths)
                    if not norm:
                        m.final = True
                    self.models[l] = m
                    changed = True
            if changed:
                continue
            if not norm:
                break
            for l, m in list(self.models.items()):
                if getattr(m, "provisional", False):
                    m2 = self.store_model(l, m.f0 if isinstance(m, ArrModel) else m.init)
                    if type(m2) is not type(m):
                        self.models[l] = m2
                        changed = True
                    else:
                        m.provisional = m2.provisional
            if changed:
                continue
            unresolved = [m for m in self.models.values() if m.uf and not m.final and not m.recursive]
            for l, m in self.models.items():
                if m.update(self, norm, unresolved):
                    changed = True
            if changed:
                continue
            pend = [m for m in self.models.values() if not m.final]
            if not pend:
                break
            for m in pend:
                m.giveup()
        else:
            raise Unsupported("no loop invariant found for %s" % self.label)

    def install(self, k):
        """state after k iterations"""
        c = core.CTX
        s_w = c.wlog
        c.wlog = None
        for loc, m in self.models.items():
            write_loc(loc, m.after(self, k))
            if isinstance(m, NumModel) and m.recursive and m.sort == "I" and m.last:
                m.history(self, k)
        c.wlog = s_w
        if s_w is not None:
            done = set()
            for o, s in self.wlog:
                sp = []
                for a, x in enumerate(s):
                    if isinstance(x, tm.T) and self.k in tm.fv(x):
                        cf = lin_coef(x, self.k)
                        st = tm.subst(x, {self.k: tm.ZERO})
                        sp.append(("s", st, cf if cf in (1, -1) else 1, k))
                    else:
                        sp.append(x)
                s_w.append((o, sp))

    def exit_term(self):
        return tm.or_(*[p.cond for p in self.paths if p.kind != "normal"])


def _finish(L, run_body_at, orelse, always_exits):
    """continue after the loop: all iterations, or leave at the first exiting one"""
    c = core.CTX
    E = L.exit_term()
    if c.fresh_log is not None and any(m.uf and m.recursive for m in L.models.values()):
        # the iteration symbols of such models would not be functions of the outer index
        raise Unsupported("loop without closed form inside a loop: %s (%s)" % (L.label, ", ".join(loc_name(k) for k, m in L.models.items() if m.uf and m.recursive)))
    L.I.loops_used[L.label] = {type(m).__name__ + ("/rec" if m.recursive else "") for m in L.models.values()} if False else L.I.loops_used.get(L.label, 0) + 1
    tpl = L.tpl
    v = tm.fresh("xv", "I")

    def chosen(n):
        """what is known of the values chosen within each completed iteration"""
        if tpl.fmap and L.norm:
            f = tm.or_(*[p.cond for p in L.norm])
            if any(x in tm.fv(f) for x in tpl.fmap):
                c.assume(tm.forall(v, tm.ZERO, n, tpl.term(f, v)))
    if not always_exits:
        if E is tm.FALSE:
            chosen(L.n)
            L.install(L.n)
            orelse()
            return
        none = tm.forall(v, tm.ZERO, L.n, tm.not_(tpl.term(E, v)))
        if c.decide(none):
            chosen(L.n)
            L.install(L.n)
            orelse()
            return
    m = c.fresh("m", "I")
    c.assume(tm.le(tm.ZERO, m))
    if L.n is not None:
        c.assume(tm.lt(m, L.n))
    c.assume(tm.forall(v, tm.ZERO, m, tm.not_(tpl.term(E, v))))
    c.assume(tpl.term(E, m))
    chosen(m)
    L.exit_index = m
    L.install(m)
    run_body_at(m)


def sym_for(I, node, seq, fr):
    label = "%s:%d" % (fr.info.qual if fr.info else "<module>", node.lineno)
    if isinstance(seq, ConcatSeq):
        for p in seq.parts:
            if isinstance(p, list):
                for v in p:
                    I.assign(node.target, v, fr)
                    try:
                        I.exec_block(node.body, fr)
                    except BreakEx:
                        return
                    except ContinueEx:
                        continue
            else:
                if _for_part(I, node, p, fr, label) == "break":
                    return
        I.exec_block(node.orelse, fr)
        return
    if _for_part(I, node, seq, fr, label) != "break":
        I.exec_block(node.orelse, fr)


def _for_part(I, node, seq, fr, label):
    c = core.CTX
    if isinstance(seq, NestedSeq):
        raise Unsupported("loop over a flattened sequence")
    n = seq.n if isinstance(seq, FilterSeq) else seq.length()
    guard = seq.cond if isinstance(seq, FilterSeq) else None
    elem = seq.fn if isinstance(seq, FilterSeq) else seq.at
    if n.op == "const" and guard is None and not getattr(seq, "generic", False):
        for i in range(int(n.val)):
            I.assign(node.target, elem(tm.const(i)), fr)
            try:
                I.exec_block(node.body, fr)
            except BreakEx:
                return "break"
            except ContinueEx:
                continue
        return "done"
    if not c.decide(tm.le(tm.ONE, n)):
        return "done"

    def body(k):
        if guard is not None and not c.decide(guard(k)):
            return ("normal", None)
        I.assign(node.target, elem(k), fr)
        I.exec_block(node.body, fr)
        return ("normal", None)
    L = Loop(I, n, body, label)
    L.solve()
    res = ["done"]

    def at_exit(m):
        try:
            body(m)
        except BreakEx:
            res[0] = "break"
            return
        except ContinueEx:
            pass
        raise Infeasible()
    _finish(L, at_exit, lambda: None, False)
    return res[0]


def while_loop(I, node, fr):
    c = core.CTX
    label = "%s:%d" % (fr.info.qual if fr.info else "<module>", node.lineno)
    for i in range(300):
        t = I.eval(node.test, fr)
        if isinstance(t, Sym) and t.t.op != "const":
            tt = tm.as_bool(t.t)
            if c.implied(tt):
                v = True
            elif c.implied(tm.not_(tt)):
                v = False
            else:
                break
        else:
            v = I.truth(t)
            if i > 60 and not isinstance(t, bool):
                raise Unsupported("long concrete while loop")
        if not v:
            I.exec_block(node.orelse, fr)
            return
        d0 = c.stats["decisions"]
        if i >= 3 and getattr(c, "sym_while", True) and isinstance(node.test, ast.Constant):
            break
        try:
            I.exec_block(node.body, fr)
        except BreakEx:
            return
        except ContinueEx:
            continue
        if c.stats["decisions"] > d0 and isinstance(t, Sym) is False and isinstance(node.test, ast.Constant):
            # while True with undecided exit: treat symbolically from here
            break
    else:
        raise Unsupported("while loop of more than 300 concrete iterations")

    def body(k):
        if not I.truth(I.eval(node.test, fr)):
            return ("exit", None)
        I.exec_block(node.body, fr)
        return ("normal", None)
    L = Loop(I, None, body, label)
    L.solve()
    core.CTX.assumed.add("termination of the while loop in %s" % (fr.info.qual if fr.info else "?"))

    def at_exit(m):
        try:
            if not I.truth(I.eval(node.test, fr)):
                I.exec_block(node.orelse, fr)
                return
            I.exec_block(node.body, fr)
        except BreakEx:
            return
        except ContinueEx:
            pass
        raise Infeasible()
    _finish(L, at_exit, lambda: None, True)


import ast  # noqa: E402


# ------------------------------------------------------------------ comprehensions
def _map_paths(I, n, fn, label, rngcond=None):
    """explore fn(k) -> ('val', v) | ('skip', None); returns Loop-like with paths"""
    c = core.CTX

    def body(k):
        return fn(k)
    L = Loop(I, n, body, label)
    for rnd in range(6):
        c0 = len(c.obls)
        paths = L.explore()
        L.paths = paths
        locs = {}
        for p in paths:
            for l in p.writes:
                locs[l] = None
        new = [l for l in locs if l not in L.models]
        if not new:
            break
        del c.obls[c0:]
        for l in new:
            v0 = read_loc(l)
            if l[0] in ("dict", "attr") and all(l in p.writes and _idem(p.writes[l], v0) for p in paths):
                L.models[l] = ConstModel(v0)
            elif l[0] == "dict":
                L.models[l] = LastModel(L, l, v0)
            else:
                raise Unsupported("comprehension with side effects (%s)" % loc_name(l))
    for m in L.models.values():
        if isinstance(m, LastModel):
            m.paths = [p for p in paths if p.kind in ("val", "skip")]
    return L


def _idem(a, b):
    return a is b


def sym_comp(I, gen, seq, cf, emit):
    c = core.CTX
    label = "comprehension:%d" % getattr(gen.target, "lineno", 0)
    if isinstance(seq, ConcatSeq):
        parts = []
        for p in seq.parts:
            if isinstance(p, list):
                for v in p:
                    I.assign(gen.target, v, cf)
                    if all(I.truth(I.eval(x, cf)) for x in gen.ifs):
                        parts.append([emit(cf)])
            else:
                parts.append(sym_comp(I, gen, p, cf, emit))
        return ConcatSeq(parts)
    if isinstance(seq, NestedSeq):
        return nested_comp(I, gen, seq, cf, emit, label)
    n = seq.n if isinstance(seq, FilterSeq) else seq.length()
    guard = seq.cond if isinstance(seq, FilterSeq) else None
    elem = seq.fn if isinstance(seq, FilterSeq) else seq.at

    def fn(k):
        if guard is not None and not c.decide(guard(k)):
            return ("skip", None)
        I.assign(gen.target, elem(k), cf)
        for x in gen.ifs:
            if not I.truth(I.eval(x, cf)):
                return ("skip", None)
        return ("val", emit(cf))
    return map_result(I, n, fn, label)


def map_result(I, n, fn, label):
    c = core.CTX
    L = _map_paths(I, n, fn, label)
    bad = [p for p in L.paths if p.kind not in ("val", "skip")]
    if bad:
        E = tm.or_(*[p.cond for p in bad])
        v = tm.fresh("xv", "I")
        if not c.decide(tm.forall(v, tm.ZERO, n, tm.not_(L.tpl.term(E, v)))):
            m = c.fresh("m", "I")
            c.assume(tm.and_(tm.le(tm.ZERO, m), tm.lt(m, n)))
            c.assume(tm.forall(v, tm.ZERO, m, tm.not_(L.tpl.term(E, v))))
            c.assume(L.tpl.term(E, m))
            fn(m)
            raise Infeasible()
    vals = [p for p in L.paths if p.kind == "val"]
    tpl = L.tpl
    if not vals:
        return ConcatSeq([[]])
    v = L.merge_values([(p.cond, p.value) for p in vals])
    for p in L.paths:
        pass
    if len(vals) == len([p for p in L.paths if p.kind in ("val", "skip")]):
        return MapSeq(n, lambda j: tpl.inst(v, j))
    g = tm.or_(*[p.cond for p in vals])
    return FilterSeq(n, lambda j: tpl.term(g, j), lambda j: tpl.inst(v, j))


def sym_map(I, seq, f):
    return map_result(I, seq.length(), lambda k: ("val", f(seq.at(k))), "map")


def nested_comp(I, gen, seq, cf, emit, label):
    c = core.CTX
    if gen.ifs:
        raise Unsupported("filter over a flattened sequence")
    k = tm.fresh("nk", "I")
    cache = {}

    def inner(j):
        """mapped block of iteration j"""
        r = cache.get(j)
        if r is None:
            def fn(q):
                I.assign(gen.target, seq.fn(j, q), cf)
                return ("val", emit(cf))
            s = c.hyps
            c.hyps = list(s) + [tm.le(tm.ZERO, j), tm.lt(j, seq.n)]
            try:
                r = map_result(I, seq.count(j), fn, label)
            finally:
                c.hyps = s
            if not isinstance(r, MapSeq):
                raise Unsupported("flattened comprehension")
            cache[j] = r
        return r
    inner(k)
    return NestedSeq(seq.n, seq.count, lambda j, q: inner(j).at(q))


def seq_first(I, seq, default):
    """next(iter(seq))"""
    c = core.CTX
    if isinstance(seq, FilterSeq):
        v = tm.fresh("xv", "I")
        if c.decide(tm.forall(v, tm.ZERO, seq.n, tm.not_(seq.cond(v)))):
            if default:
                return default[0]
            raise StopIteration
        m = c.fresh("m", "I")
        c.assume(tm.and_(tm.le(tm.ZERO, m), tm.lt(m, seq.n)))
        c.assume(tm.forall(v, tm.ZERO, m, tm.not_(seq.cond(v))))
        c.assume(seq.cond(m))
        return seq.fn(m)
    n = seq.length()
    if not c.decide(tm.le(tm.ONE, n)):
        if default:
            return default[0]
        raise StopIteration
    return seq.at(tm.ZERO)

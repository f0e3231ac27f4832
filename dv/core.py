"""Execution context of the symbolic evaluator: path conditions, decisions,
journalled heap writes, obligations and symbolic scalars."""
import time
from fractions import Fraction as Fr
from . import term as tm
from .term import T


class Unsupported(BaseException):
    """Construct outside the evaluator's reach (never caught by interpreted code)."""


class Infeasible(BaseException):
    """The current path is contradictory."""


class Ctx:
    def __init__(self):
        self.hyps = []
        self.trace = []
        self.pos = 0
        self.journal = None
        self.obls = []
        self.assumed = set()
        self.fresh_log = None
        self.created = None
        self.stats = {"paths": 0, "decisions": 0}
        self.functions = {}
        self.globals_over = {}
        self.unit = None
        self.max_paths = 400
        self.floor = 0
        self.defs = {}
        self.wlog = None
        self.calls = []
        self.deadline = None
        self.muted = False

    # -- path condition
    def assume(self, t):
        t = term_of(t)
        if t is tm.TRUE:
            return
        if t is tm.FALSE:
            raise Infeasible()
        if t.op == "and":
            for a in t.args:
                self.assume(a)
            return
        self.hyps.append(t)

    def implied(self, t):
        from .smt import FEAS
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        hs = set(self.hyps)
        if t in hs:
            return True
        nt = tm.not_(t)
        if nt in hs:
            return False
        from .prover import quick_implied
        return quick_implied(self.hyps, t)

    def decide(self, t):
        """Concrete truth value of t on this path (forks if both are possible)."""
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        if self.implied(t):
            return True
        nt = tm.not_(t)
        if self.implied(nt):
            return False
        self.stats["decisions"] += 1
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
        else:
            v = True
            self.trace.append(True)
        self.pos += 1
        self.hyps.append(t if v else nt)
        return v

    # -- journal
    def note(self, loc, undo, birth=0):
        """A heap location is about to change (birth: serial of its owner's creation)."""
        if self.journal is not None and birth <= self.floor:
            self.journal.append((loc, undo))

    # -- obligations
    def prove(self, name, goal, kind="post", **kw):
        goal = term_of(goal)
        if self.muted:
            return
        if self.defs:
            kw["defs"] = dict(self.defs)
        hy = tuple(self.hyps)
        if self.folds and kind != "probe":
            from .prover import folded
            memo = {}
            hy = tuple(folded(h, self.folds, memo) for h in hy)
            goal = folded(goal, self.folds, memo)
        self.obls.append(Obligation(self.unit, name, hy, goal, kind, kw))

    folds = ()
    draw_cache = None
    stream = None       # ghost object counting the draws, when a unit names them

    def draw(self, name):
        """the next value of the random stream: the n-th draw of one iteration
        is the same symbol on every path through the loop body"""
        if self.stream is not None:
            from .interp import _store_dict_attr
            g = self.stream
            n = g.count
            _store_dict_attr(g, g.__dict__, "count", n + 1)
            return tm.app("draw", (term_of(n),), "R")
        if self.draw_cache is None:
            return self.fresh("rand_" + name)
        self.draw_n += 1
        key = (name, self.draw_n)
        if key not in self.draw_cache:
            self.draw_cache[key] = tm.fresh("rand_" + name, "R")
        v = self.draw_cache[key]
        if self.fresh_log is not None and v not in self.fresh_log:
            self.fresh_log.append(v)
        return v

    def fresh(self, name, sort="R"):
        v = tm.fresh(name, sort)
        if self.fresh_log is not None:
            self.fresh_log.append(v)
        return v


class Obligation:
    def __init__(self, unit, name, hyps, goal, kind, kw):
        self.unit, self.name, self.hyps, self.goal, self.kind, self.kw = unit, name, hyps, goal, kind, kw
        self.status = None
        self.backend = None
        self.wall = 0.0
        self.model = None
        self.detail = ""


class IdKey:
    """identity key for unhashable containers"""
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __hash__(self):
        return id(self.o)

    def __eq__(self, other):
        return isinstance(other, IdKey) and self.o is other.o


_serial = [0]
_births = {}


def serial():
    _serial[0] += 1
    return _serial[0]


def born(o):
    """register the creation of an object without a birth slot of its own"""
    _births[id(o)] = (serial(), o)
    return o


def birth_of(o):
    r = _births.get(id(o))
    return r[0] if r is not None and r[1] is o else 0


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


def explore(c, fn):
    """Run fn on every feasible path (re-execution); fn(c) registers obligations."""
    base = list(c.hyps)
    trace = []
    n = 0
    f0 = tm._fresh[0]
    defs0 = dict(c.defs)
    while True:
        tm._fresh[0] = f0
        c.defs = dict(defs0)
        c.calls = []
        c.folds, c.stream = [], None
        c.hyps = list(base)
        c.trace, c.pos = trace, 0
        c.journal = None
        n += 1
        c.stats["paths"] += 1
        if c.deadline is not None and time.time() > c.deadline:
            raise Unsupported("time budget of the symbolic evaluation")
        if n > c.max_paths:
            raise Unsupported("more than %d paths" % c.max_paths)
        try:
            fn(c)
        except Infeasible:
            pass
        trace = c.trace[:c.pos]
        while trace and trace[-1] is False:
            trace.pop()
        if not trace:
            break
        trace[-1] = False
    c.hyps = base
    return n


class SubPath:
    __slots__ = ("conds", "kind", "value", "writes", "mconds")

    def __init__(self, conds, kind, value, writes):
        self.conds, self.kind, self.value, self.writes = conds, kind, value, writes
        self.mconds = conds

    @property
    def cond(self):
        return tm.and_(*self.conds)

    @property
    def mcond(self):
        """the conditions that tell the path from the other paths it is merged with"""
        return tm.and_(*self.mconds)


def sub_explore(fn, reader, hyps=(), max_paths=64):
    """Explore fn() below the current state; heap is restored after every path.

    reader(loc) returns the current content of a location.  Returns SubPaths.
    """
    c = CTX
    s_hyps, s_trace, s_pos, s_j = c.hyps, c.trace, c.pos, c.journal
    s_floor = c.floor
    c.floor = serial()
    base = list(s_hyps) + [h for h in hyps if h is not tm.TRUE]
    out = []
    trace = []
    try:
        while True:
            c.hyps = list(base)
            c.trace, c.pos = trace, 0
            c.journal = []
            kind, value = None, None
            try:
                kind, value = fn()
            except Infeasible:
                kind = None
            except Exception as e:  # an exception of the interpreted program
                if getattr(e, "_dv_internal", False):
                    raise
                kind, value = "raise", e
            finally:
                jr = c.journal
                if kind is not None:
                    locs = {}
                    for loc, _ in jr:
                        locs.setdefault(loc, None)
                    writes = {loc: reader(loc) for loc in locs}
                for loc, undo in reversed(jr):
                    undo()
            if kind is not None:
                out.append(SubPath(c.hyps[len(base):], kind, value, writes))
            if len(out) > max_paths:
                raise Unsupported("more than %d paths in a loop body" % max_paths)
            trace = c.trace[:c.pos]
            while trace and trace[-1] is False:
                trace.pop()
            if not trace:
                break
            trace[-1] = False
    finally:
        c.hyps, c.trace, c.pos, c.journal = s_hyps, s_trace, s_pos, s_j
        c.floor = s_floor
    return out


# ------------------------------------------------------------------ scalars
def term_of(v):
    if isinstance(v, T):
        return v
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, bool):
        return tm.TRUE if v else tm.FALSE
    if isinstance(v, int):
        return tm.const(v)
    if isinstance(v, float):
        return tm.const(v)
    if isinstance(v, Fr):
        return tm.const(v)
    if isinstance(v, complex):
        return tm.const(v)
    tp = type(v).__module__
    if tp == "numpy":
        return term_of(v.item())
    if hasattr(v, "scalar_term"):
        return v.scalar_term()
    raise TypeError("unsupported operand type: %r" % type(v).__name__)


def is_num(v):
    return isinstance(v, (Sym, bool, int, float, complex, Fr)) or type(v).__module__ == "numpy" and not getattr(v, "shape", 1)


def wrap(t):
    """Python value of a term (integer constants become ints, booleans bools)."""
    if t.op == "const":
        if t.sort == "B":
            return t.val
        if t.sort == "I":
            return int(t.val)
    return Sym(t)


def _bin(f):
    def op(self, other):
        if not is_num(other):
            return NotImplemented
        return wrap(f(self.t, term_of(other)))

    def rop(self, other):
        if not is_num(other):
            return NotImplemented
        return wrap(f(term_of(other), self.t))
    return op, rop


def t_floordiv(a, b):
    if a.sort == "I" and b.op == "const" and b.sort == "I":
        return tm.floor(tm.div(a, b))
    r = tm.floor(tm.div(a, b))
    return r if a.sort == "I" and b.sort == "I" else tm.to_real(r)


def t_mod(a, b):
    return tm.sub(a, tm.mul(b, t_floordiv(a, b)))


def t_pow(a, b):
    return tm.pow_(a, b)


def num(t):
    return tm.b2n(t) if t.sort == "B" else t


class Sym:
    """Symbolic scalar."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    __add__, __radd__ = _bin(tm.add)
    __sub__, __rsub__ = _bin(tm.sub)
    __mul__, __rmul__ = _bin(tm.mul)
    __truediv__, __rtruediv__ = _bin(lambda a, b: tm.div(num(a), num(b)))
    __floordiv__, __rfloordiv__ = _bin(t_floordiv)
    __mod__, __rmod__ = _bin(t_mod)
    __pow__, __rpow__ = _bin(lambda a, b: t_pow(num(a), num(b)))

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return wrap(tm.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(tm.abs_(self.t))

    def __lshift__(self, k):
        return self * 2 ** k

    def __rshift__(self, k):
        return self // 2 ** k

    def __invert__(self):
        if self.t.sort == "B":
            return wrap(tm.not_(self.t))
        return -self - 1

    def _logic(self, o, f):
        if not is_num(o):
            return NotImplemented
        b = term_of(o)
        if self.t.sort != "B" or b.sort != "B":
            raise Unsupported("bitwise operator on numbers")
        return wrap(f(self.t, b))

    def __and__(self, o):
        return self._logic(o, tm.and_)

    __rand__ = __and__

    def __or__(self, o):
        return self._logic(o, tm.or_)

    __ror__ = __or__

    def __xor__(self, o):
        return self._logic(o, lambda a, b: tm.not_(tm.iff(a, b)))

    def _cmp(self, o, f):
        if not is_num(o):
            return NotImplemented
        return wrap(f(num(self.t), num(term_of(o))))

    def __lt__(self, o):
        return self._cmp(o, tm.lt)

    def __le__(self, o):
        return self._cmp(o, tm.le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: tm.lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: tm.le(b, a))

    def __eq__(self, o):
        if not is_num(o):
            return NotImplemented
        return wrap(tm.eq(self.t, term_of(o)))

    def __ne__(self, o):
        if not is_num(o):
            return NotImplemented
        return wrap(tm.ne(self.t, term_of(o)))

    def __hash__(self):
        return hash(self.t.id)

    def __bool__(self):
        return CTX.decide(tm.as_bool(self.t))

    def __index__(self):
        if self.t.op == "const" and self.t.sort == "I":
            return int(self.t.val)
        raise Unsupported("symbolic integer where a concrete one is needed: %s" % self.t)

    def __int__(self):
        if self.t.op == "const" and self.t.sort != "C":
            return int(self.t.val)
        raise Unsupported("int() of symbolic")

    def __float__(self):
        if self.t.op == "const" and self.t.sort != "C":
            return float(self.t.val)
        raise Unsupported("float() of symbolic")

    def __repr__(self):
        return "<%s>" % self.t

    def __format__(self, spec):
        return "<%s>" % self.t

    # numpy-scalar like interface
    shape = ()
    ndim = 0
    size = 1

    @property
    def real(self):
        return wrap(tm.re(self.t))

    @property
    def imag(self):
        return wrap(tm.im(self.t))

    def conjugate(self):
        return wrap(tm.conj(self.t))

    conj = conjugate

    def astype(self, dt):
        return cast(self, dt)

    def item(self):
        return self

    def copy(self):
        return self

    def all(self):
        return wrap(tm.as_bool(self.t))

    any = all

    def max(self):
        return self

    min = max

    def sum(self, axis=None):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def is_integer(self):
        return wrap(tm.eq(tm.to_real(tm.floor(self.t)), self.t))


def kind_of(dt):
    """sort letter of a dtype-like object"""
    if dt is None:
        return None
    name = getattr(dt, "__name__", None) or getattr(dt, "name", None) or str(dt)
    if name in ("float", "float64", "float32", "double", "f", "d"):
        return "R"
    if name in ("int", "int64", "int32", "intp", "i", "long"):
        return "I"
    if name in ("complex", "complex128", "c"):
        return "C"
    if name in ("bool", "bool_", "b1"):
        return "B"
    raise Unsupported("dtype %r" % (dt,))


def cast_term(t, k):
    if k is None or k == t.sort:
        return t
    if k == "B":
        return tm.as_bool(t)
    if t.sort == "B":
        t = tm.b2n(t)
    if k == "I":
        if t.sort == "I":
            return t
        if t.op == "toreal":
            return t.args[0]
        if CTX is not None and CTX.implied(tm.le(tm.RZERO, t)):
            return tm.floor(t)
        return tm.ite(tm.le(tm.RZERO, t), tm.floor(t), tm.ceil(t))
    if k == "R":
        if t.sort == "C":
            return tm.re(t)
        return tm.to_real(t)
    return t


def cast(v, dt):
    return wrap_keep(cast_term(term_of(v), kind_of(dt)))


def wrap_keep(t):
    return wrap(t)


def S(name, sort="R"):
    """named symbolic input"""
    return Sym(tm.var(name, sort))

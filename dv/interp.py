"""Evaluator for the real source files: parses them on every run and executes
them over symbolic values (see DESIGN.md for what the evaluation drops)."""
import abc
import ast
import builtins as _b
import functools
import operator
import re as _re
import os
from fractions import Fraction as Fr
from . import term as tm
from . import core
from .core import Sym, Unsupported, term_of, wrap, is_num
from .arrays import Arr, MArr, dimterm, dimval
from . import seq as sq
from .seq import SList, same_object, seq_of, Poison


class BreakEx(BaseException):
    pass


class ContinueEx(BaseException):
    pass


class ReturnEx(BaseException):
    def __init__(self, v):
        self.v = v


for _e in (BreakEx, ContinueEx, ReturnEx):
    _e._dv_internal = True


class FnInfo:
    __slots__ = ("node", "name", "qual", "module", "parent", "cls", "locals", "nonlocals", "globals_", "isgen", "argnames", "defaults", "kwdefaults", "file")


class Frame:
    __slots__ = ("vars", "parent", "module", "info", "yields", "first", "isclass", "names", "cls")

    def __init__(self, module, info=None, parent=None, isclass=False, names=None):
        self.vars = {}
        self.module = module
        self.info = info
        self.parent = parent
        self.yields = None
        self.first = None
        self.isclass = isclass
        self.names = names
        self.cls = None


def bound_names(node):
    """names bound in a function body (not in nested scopes)"""
    out, nl, gl = set(), set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for x in ast.walk(c):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            if isinstance(c, ast.Global):
                gl.update(c.names)
            if isinstance(c, ast.Nonlocal):
                nl.update(c.names)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split(".")[0])
            if isinstance(c, ast.MatchAs) and c.name:
                out.add(c.name)
            walk(c)
    walk(node)
    return out - nl - gl, nl, gl


def has_yield(node):
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.GeneratorExp)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(c):
                return True
        return False
    return walk(node)


class Module:
    def __init__(self, name, path):
        self.__dict__["__dvname__"] = name
        self.__dict__["__name__"] = name
        self.__dict__["__file__"] = path


class DvModule:
    """namespace of an interpreted module (attribute access like a real module)"""

    def __init__(self, name, ns):
        self.__dict__.update(_ns=ns, _name=name)

    def __getattr__(self, n):
        try:
            return self._ns[n]
        except KeyError:
            raise AttributeError("module %s has no attribute %s" % (self._name, n))

    def __setattr__(self, n, v):
        ns = self._ns
        _store_dict(ns, n, v)


_MISSING = object()


def _store_dict(d, k, v):
    c = core.CTX
    if c is not None and c.journal is not None:
        old = d.get(k, _MISSING)

        def undo():
            if old is _MISSING:
                d.pop(k, None)
            else:
                d[k] = old
        c.note(("dict", IdKey(d), k), undo, core.birth_of(d))
    d[k] = v


from .core import IdKey

_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
        ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.MatMult: operator.matmul,
        ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
        ast.BitXor: operator.xor}
_IBIN = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
         ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.Pow: operator.ipow, ast.BitOr: operator.ior,
         ast.BitAnd: operator.iand, ast.LShift: operator.ilshift, ast.RShift: operator.irshift, ast.BitXor: operator.ixor}
_CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}


def _leaves(body):
    """break or return in the body of this loop"""
    for x in body:
        if isinstance(x, (ast.Break, ast.Return)):
            return True
        if isinstance(x, (ast.For, ast.While)):
            if _leaves(x.orelse) or any(isinstance(y, ast.Return) for y in ast.walk(x)):
                return True
        elif isinstance(x, ast.If):
            if _leaves(x.body) or _leaves(x.orelse):
                return True
        elif isinstance(x, (ast.With, ast.Try)):
            if _leaves(x.body):
                return True
    return False


class Interp:
    def __init__(self, root):
        self.root = root            # .../src/pystrata
        self.modules = {}
        self.sources = {}
        self.fninfo = {}            # qualified name -> FnInfo
        self.stubs = {}             # qualified name -> python callable(frame-less)
        self.entered = {}           # qualified name -> count of evaluated activations
        self.loops_used = {}
        self.depth = 0
        self.shims = None
        self.consts = {}

    # ------------------------------------------------------------- modules
    def load(self, name):
        """interpreted module pystrata.<name>"""
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.root, name + ".py") if name else os.path.join(self.root, "__init__.py")
        with open(path, encoding="utf-8") as f:
            src = f.read()
        self.sources[path] = src
        tree = ast.parse(src, path)
        ns = {"__name__": "pystrata." + name if name else "pystrata", "__file__": path}
        mod = DvModule(ns["__name__"], ns)
        self.modules[name] = mod
        fr = Frame(ns)
        fr.vars = ns
        fr.info = None
        self.exec_block(tree.body, fr)
        return mod

    def import_(self, name, fromlist=None, level=0):
        if level:
            base = name or ""
            if base:
                return self.load(base.split(".")[0])
            return None
        if name.split(".")[0] == "pystrata":
            rest = name.split(".")[1:]
            return self.load(rest[0]) if rest else self.load("")
        return self.shims.get_module(name)

    # ------------------------------------------------------------- functions
    def make_function(self, node, fr, qual_prefix="", parent=None):
        info = FnInfo()
        info.node = node
        info.module = fr.module
        info.name = getattr(node, "name", "<lambda>")
        info.qual = (qual_prefix + "." if qual_prefix else "") + info.name
        info.parent = parent if parent is not None else fr
        info.cls = None
        if isinstance(node, ast.Lambda):
            info.locals, info.nonlocals, info.globals_ = set(), set(), set()
            info.isgen = False
        else:
            l, n, g = bound_names(node)
            info.locals, info.nonlocals, info.globals_ = l, n, g
            info.isgen = has_yield(node)
        a = node.args
        pos = a.posonlyargs + a.args
        info.argnames = [x.arg for x in pos]
        info.defaults = [self.eval(d, fr) for d in a.defaults]
        info.kwdefaults = {k.arg: self.eval(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        for x in pos + a.kwonlyargs:
            info.locals.add(x.arg)
        if a.vararg:
            info.locals.add(a.vararg.arg)
        if a.kwarg:
            info.locals.add(a.kwarg.arg)
        info.file = fr.module.get("__file__") if isinstance(fr.module, dict) else None
        interp = self

        def fn(*args, **kwargs):
            return interp.call_info(info, args, kwargs)
        fn.__name__ = info.name
        fn.__qualname__ = info.qual
        fn._dv_info = info
        if not isinstance(node, ast.Lambda):
            mname = fr.module.get("__name__", "").split(".")[-1]
            info.qual = info.qual
            self.fninfo[mname + ":" + info.qual] = info
            fn._dv_qual = mname + ":" + info.qual
        else:
            fn._dv_qual = None
        return fn

    def bind(self, info, args, kwargs):
        a = info.node.args
        names = info.argnames
        v = {}
        args = list(args)
        npos = len(names)
        for n, x in zip(names, args):
            v[n] = x
        extra = args[npos:]
        if a.vararg:
            v[a.vararg.arg] = tuple(extra)
        elif extra:
            raise TypeError("%s() takes %d positional arguments but %d were given" % (info.name, npos, len(args)))
        posonly = {x.arg for x in a.posonlyargs}
        kwnames = {x.arg for x in a.kwonlyargs}
        rest = {}
        for k, x in kwargs.items():
            if (k in names and k not in posonly) or k in kwnames:
                if k in v:
                    raise TypeError("%s() got multiple values for argument '%s'" % (info.name, k))
                v[k] = x
            else:
                rest[k] = x
        if a.kwarg:
            v[a.kwarg.arg] = rest
        elif rest:
            raise TypeError("%s() got an unexpected keyword argument '%s'" % (info.name, next(iter(rest))))
        nd = len(info.defaults)
        for n, d in zip(names[npos - nd:], info.defaults):
            v.setdefault(n, d)
        for n, d in info.kwdefaults.items():
            v.setdefault(n, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in v:
                raise TypeError("%s() missing required argument: '%s'" % (info.name, n))
        return v

    def call_info(self, info, args, kwargs):
        mname = info.module.get("__name__", "").split(".")[-1]
        key = mname + ":" + info.qual
        stub = self.stubs.get(key)
        if stub is not None:
            return stub(*args, **kwargs)
        self.entered[key] = self.entered.get(key, 0) + 1
        fr = Frame(info.module, info, info.parent)
        fr.names = info.locals
        fr.vars = core.born(self.bind(info, args, kwargs))
        if info.argnames and args:
            fr.first = args[0]
        elif info.argnames:
            fr.first = fr.vars.get(info.argnames[0])
        self.depth += 1
        if self.depth > 150:
            self.depth = 0
            raise Unsupported("recursion depth")
        try:
            if isinstance(info.node, ast.Lambda):
                return self.eval(info.node.body, fr)
            if info.isgen:
                fr.yields = SList()
                try:
                    self.exec_block(info.node.body, fr)
                except ReturnEx:
                    pass
                return GenResult(fr.yields)
            try:
                self.exec_block(info.node.body, fr)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # ------------------------------------------------------------- names
    def lookup(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if not (f.isclass and not first):
                if f.info is not None and not f.isclass:
                    if name in f.info.globals_:
                        break
                    if name in f.vars:
                        return f.vars[name]
                    if f.names is not None and name in f.names:
                        raise UnboundLocalError("local variable '%s' referenced before assignment" % name)
                elif name in f.vars:
                    return f.vars[name]
            first = False
            f = f.parent
        if name in fr.module:
            return fr.module[name]
        return self.shims.builtin(name)

    def store(self, name, v, fr):
        if fr.info is not None and not fr.isclass:
            if name in fr.info.globals_:
                _store_dict(fr.module, name, v)
                return
            if name in fr.info.nonlocals:
                f = fr.parent
                while f is not None:
                    if not f.isclass and name in f.vars:
                        _store_dict(f.vars, name, v)
                        return
                    f = f.parent
                raise NameError(name)
        _store_dict(fr.vars, name, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.tolist(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise ValueError("not enough values to unpack")
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, SList(vals[i:len(vals) - after]), fr)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, fr)
                return
            if len(vals) != len(t.elts):
                raise ValueError("unpack: expected %d values, got %d" % (len(t.elts), len(vals)))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        else:
            raise Unsupported("assignment target " + type(t).__name__)

    def setattr(self, o, name, v):
        if isinstance(o, DvModule):
            setattr(o, name, v)
            return
        if sq.is_proxy(o) or isinstance(o, (Arr, MArr, Sym)):
            setattr(o, name, v)
            return
        # data descriptors run interpreted setters; otherwise the instance dict changes
        for k in type(o).__mro__:
            a = k.__dict__.get(name)
            if a is not None:
                if hasattr(type(a), "__set__"):
                    setattr(o, name, v)
                    return
                break
        d = getattr(o, "__dict__", None)
        if isinstance(d, dict) and type(o).__setattr__ is object.__setattr__:
            _store_dict_attr(o, d, name, v)
        else:
            setattr(o, name, v)

    def setitem(self, o, k, v):
        if isinstance(o, dict):
            k = dict_key(k)
            _store_dict(o, k, v)
            return
        if isinstance(o, (Arr, SList)):
            o[k] = v
            return
        if isinstance(o, list):
            raise Unsupported("native list store")
        o[k] = v

    def getitem(self, o, k):
        if isinstance(o, (SList, Arr, MArr)):
            return o[k]
        if isinstance(o, dict):
            return o[dict_key(k)]
        if isinstance(o, tuple) and isinstance(k, Sym):
            return SList(list(o))[k]
        if isinstance(o, list) and not isinstance(o, SList):
            return SList(o)[k]
        if isinstance(o, slice):
            raise TypeError("slice")
        return o[k]

    # ------------------------------------------------------------- iteration
    def tolist(self, v):
        """concrete list of an iterable"""
        if isinstance(v, GenResult):
            v = v.rest()
        if isinstance(v, SList) and v.sym is None:
            return list(list.__iter__(v))
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise TypeError("cannot iterate a 0-d array")
            if isinstance(v.shape[0], int):
                return [v[i] for i in range(v.shape[0])]
        s = self.seq(v)
        if s is not None:
            n = s.length()
            if n.op == "const" and not s.guard:
                return [s.at(tm.const(i)) for i in range(max(int(n.val), 0))]
            raise Unsupported("concrete iteration over a symbolic sequence")
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        it = self.iterate_obj(v)
        if it is not v:
            return self.tolist(it)
        return list(v)

    def iterate_obj(self, v):
        """result of iter(v) for interpreted objects"""
        if isinstance(v, (Sym, int, float, Fr)) or v is None:
            raise TypeError("'%s' object is not iterable" % type(v).__name__)
        f = getattr(type(v), "__iter__", None)
        if f is not None and hasattr(f, "_dv_info"):
            return f(v)
        return v

    def seq(self, v):
        """symbolic sequence or None"""
        if isinstance(v, GenResult):
            v = v.rest()
        s = seq_of(v)
        if s is not None:
            return s
        if isinstance(v, (tuple, list, str, dict, Arr, set, range)):
            return None
        f = getattr(type(v), "__iter__", None)
        if f is not None and hasattr(f, "_dv_info"):
            return self.seq(f(v))
        return None

    # ------------------------------------------------------------- statements
    def exec_block(self, body, fr):
        for s in body:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(s, fr)

    def x_Expr(self, s, fr):
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if fr.isclass and isinstance(s.target, ast.Name):
            ann = fr.vars.setdefault("__annotations__", {})
            ann[s.target.id] = ast.unparse(s.annotation)
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        op = _IBIN.get(type(s.op)) or _BIN[type(s.op)]
        t = s.target
        v = None
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.eval(s.value, fr)
            self.store(t.id, self.binop(op, cur, v), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.eval(s.value, fr)
            self.setattr(o, t.attr, self.binop(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            cur = self.getitem(o, k)
            v = self.eval(s.value, fr)
            self.setitem(o, k, self.binop(op, cur, v))
        else:
            raise Unsupported("augmented target")

    def x_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else None)

    def x_Break(self, s, fr):
        raise BreakEx()

    def x_Continue(self, s, fr):
        raise ContinueEx()

    def truth(self, v):
        if isinstance(v, Sym):
            return bool(v)
        if isinstance(v, GenResult):
            return True
        return bool(v)

    def x_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def dict_loop(self, s, sy, fr):
        """for x in seq: [name = value ...;] D[key] = value -- with D an empty, unshared local
        dict, and names not used elsewhere -- is the comprehension {key: value for x in seq}"""
        last = s.body[-1]
        if s.orelse or fr.info is None or fr.isclass or not isinstance(last, ast.Assign) or len(last.targets) != 1:
            return False
        t = last.targets[0]
        if not (isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)):
            return False
        d = fr.vars.get(t.value.id)
        if type(d) is not dict or d or not isinstance(fr.info.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return False
        temps = set()
        for b in s.body[:-1]:
            if not (isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name)):
                return False
            temps.add(b.targets[0].id)
        for e in ast.walk(s.target):
            if isinstance(e, ast.Name):
                temps.add(e.id)
            elif not isinstance(e, (ast.Tuple, ast.List, ast.expr_context)):
                return False
        inside = {id(n) for n in ast.walk(s)}
        uses = 0
        for n in ast.walk(fr.info.node):
            if isinstance(n, (ast.Lambda, ast.FunctionDef)) and n is not fr.info.node and id(n) in inside:
                return False
            if not isinstance(n, ast.Name):
                continue
            if n.id in temps and id(n) not in inside:
                return False
            if n.id == t.value.id:
                if id(n) in inside:
                    if n is not t.value:
                        return False
                elif isinstance(n.ctx, ast.Store) or n.lineno < s.lineno:
                    uses += 1
        if uses != 1:
            return False
        cf = Frame(fr.module, None, fr)
        cf.names = "comp"
        core.born(cf.vars)

        def emit(f):
            for b in s.body[:-1]:
                self.assign(b.targets[0], self.eval(b.value, f), f)
            return (dict_key(self.eval(t.slice, f)), self.eval(last.value, f))
        from .loops import sym_comp
        gen = ast.comprehension(target=s.target, iter=s.iter, ifs=[], is_async=0)
        r = sym_comp(self, gen, sy, cf, emit)
        self.store(t.value.id, SymDict(r.sym if isinstance(r, SList) else r), fr)
        return True

    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        sy = self.seq(it)
        if sy is not None and not (sy.guard is None and sy.length().op == "const"):
            from .loops import sym_for
            if self.dict_loop(s, sy, fr):
                return
            return sym_for(self, s, sy, fr)
        from .seq import SymRange
        if isinstance(it, SList) and it.sym is None and len(it) > 12 and all(isinstance(x, int) for x in list.__iter__(it)) and _leaves(s.body):
            xs = list(list.__iter__(it))
            if xs == list(range(xs[0], xs[0] + len(xs))):
                it = SymRange(tm.const(xs[0]), tm.const(xs[0] + len(xs)))
        if isinstance(it, SymRange) and it.step == 1 and it.length().op == "const" and it.length().val > 12 and _leaves(s.body):
            # a fixed number of tries, left early: one generic try instead of all of them
            from .loops import sym_for
            it.generic = True
            return sym_for(self, s, it, fr)
        for v in self.tolist(it):
            self.assign(s.target, v, fr)
            try:
                self.exec_block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.exec_block(s.orelse, fr)

    def x_While(self, s, fr):
        from .loops import while_loop
        return while_loop(self, s, fr)

    def x_With(self, s, fr):
        for it in s.items:
            cm = self.eval(it.context_expr, fr)
            v = cm.__enter__() if hasattr(cm, "__enter__") else cm
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.exec_block(s.body, fr)

    def x_Raise(self, s, fr):
        if s.exc is None:
            e = getattr(self, "current_exc", None)
            if e is None:
                raise RuntimeError("No active exception to reraise")
            raise e
        e = self.eval(s.exc, fr)
        if isinstance(e, type):
            e = e()
        raise e

    def x_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise AssertionError(self.eval(s.msg, fr) if s.msg is not None else None)

    def x_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except Exception as e:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        tp = self.eval(h.type, fr)
                        match = isinstance(e, tp)
                    if match:
                        if h.name:
                            self.store(h.name, e, fr)
                        prev = getattr(self, "current_exc", None)
                        self.current_exc = e
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.current_exc = prev
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody, fr)

    def x_Global(self, s, fr):
        pass

    x_Nonlocal = x_Global

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval(t.slice, fr)
                del o[k]
            elif isinstance(t, ast.Attribute):
                delattr(self.eval(t.value, fr), t.attr)

    def x_Import(self, s, fr):
        for a in s.names:
            m = self.import_(a.name)
            if a.asname:
                self.store(a.asname, m, fr)
            else:
                self.store(a.name.split(".")[0], self.import_(a.name.split(".")[0]), fr)

    def x_ImportFrom(self, s, fr):
        if s.module == "__future__":
            return
        for a in s.names:
            if s.level and not s.module:
                v = self.load(a.name)
            else:
                m = self.import_(s.module, level=s.level)
                try:
                    v = getattr(m, a.name)
                except AttributeError:
                    if s.module.split(".")[0] == "pystrata" or s.level:
                        v = self.load(a.name)
                    else:
                        v = self.shims.get_module(s.module + "." + a.name)
            self.store(a.asname or a.name, v, fr)

    def x_FunctionDef(self, s, fr):
        prefix = ""
        if fr.isclass:
            prefix = fr.vars.get("__qualname__", "")
        elif fr.info is not None:
            prefix = fr.info.qual + ".<locals>"
        f = self.make_function(s, fr, prefix, self._class_parent(fr) if fr.isclass else fr)
        if fr.isclass:
            fr.cls.append(f._dv_info)
        for d in reversed(s.decorator_list):
            dec = self.eval(d, fr)
            f = self.call(dec, (f,), {})
        self.store(s.name, f, fr)

    def _class_parent(self, fr):
        """defining frame of a method: the frame around the class"""
        f = fr.parent
        while f is not None and f.isclass:
            f = f.parent
        return f

    def x_ClassDef(self, s, fr):
        bases = tuple(self.eval(b, fr) for b in s.bases)
        kw = {k.arg: self.eval(k.value, fr) for k in s.keywords}
        meta = kw.pop("metaclass", None)
        if meta is None:
            meta = type
            for b in bases:
                if issubclass(type(b), meta):
                    meta = type(b)
        ns = meta.__prepare__(s.name, bases, **kw) if hasattr(meta, "__prepare__") else {}
        cf = Frame(fr.module, None, fr, isclass=True)
        cf.vars = ns
        cf.cls = []
        ns["__module__"] = "dvns"
        q = s.name if fr.info is None else fr.info.qual + ".<locals>." + s.name
        ns["__qualname__"] = q
        self.exec_block(s.body, cf)
        cls = meta(s.name, bases, ns, **kw)
        for i in cf.cls:
            i.cls = cls
        cls._dv_class = True
        if "__new__" not in ns and not any(getattr(b, "_dv_class", False) for b in bases) and meta in (type, abc.ABCMeta):
            def __new__(klass, *a, **k):
                o = super(cls, klass).__new__(klass)
                core.born(o)
                c = core.CTX
                if c is not None and c.created is not None:
                    c.created.append(o)
                return o
            cls.__new__ = __new__
        for d in reversed(s.decorator_list):
            cls = self.call(self.eval(d, fr), (cls,), {})
        self.store(s.name, cls, fr)

    def x_Match(self, s, fr):
        raise Unsupported("match statement")

    # ------------------------------------------------------------- expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            r = self.consts.get(("f", v))
            if r is None:
                r = Sym(tm.const(v))
                self.consts[("f", v)] = r
            return r
        if isinstance(v, complex):
            return Sym(tm.const(v))
        return v

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def binop(self, op, a, b):
        if isinstance(a, (int, Fr)) and isinstance(b, (int, Fr)) and not isinstance(a, bool):
            if op in (operator.truediv, operator.itruediv):
                if b == 0:
                    raise ZeroDivisionError("division by zero")
                return wrap(tm.const(Fr(a) / Fr(b)))
            if op in (operator.pow, operator.ipow) and b < 0:
                return wrap(tm.const(Fr(1) / Fr(a) ** (-b)))
        if isinstance(a, float):
            a = Sym(tm.const(a))
        if isinstance(b, float):
            b = Sym(tm.const(b))
        if isinstance(a, (str, bytes)) and op is operator.mod:
            if all(type(x) in (int, str, bool) for x in (b if isinstance(b, tuple) else (b,))):
                return a % b
            return "%s" % (a,)
        if isinstance(a, list) and not isinstance(a, SList):
            a = SList(a)
        if isinstance(b, Sym) and isinstance(a, (tuple, str)):
            return op(a, int(b)) if b.t.op == "const" else op(SList(a), b)
        return op(a, b)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        if isinstance(a, str) and isinstance(e.op, ast.Mod):
            t = percent_text(a, b)
            if t is not None:
                return t
        return self.binop(_BIN[type(e.op)], a, b)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Sym):
                return wrap(tm.not_(tm.as_bool(v.t)))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        if isinstance(v, bool):
            return not v
        return ~v

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t or not isand and t:
                return v if not isinstance(v, Sym) or v.t.sort != "B" else t
        return v

    def e_Compare(self, e, fr):
        a = self.eval(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            b = self.eval(r, fr)
            c = self.compare(op, a, b)
            last = i == len(e.ops) - 1
            if len(e.ops) == 1:
                return c
            if isinstance(c, Sym) and (res is True or isinstance(res, Sym)):
                res = c if res is True else (res & c)
            else:
                if not self.truth(c):
                    return False
            a = b
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return same_object(a, b)
        if isinstance(op, ast.IsNot):
            r = same_object(a, b)
            return wrap(tm.not_(r.t)) if isinstance(r, Sym) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                return wrap(tm.not_(r.t)) if isinstance(r, Sym) else not r
            return r
        if isinstance(a, float):
            a = Sym(tm.const(a))
        if isinstance(b, float):
            b = Sym(tm.const(b))
        return _CMP[type(op)](a, b)

    def contains(self, c, v):
        if isinstance(c, dict):
            return dict_key(v) in c
        if isinstance(c, (str, bytes)):
            return v in c
        if isinstance(c, (set, frozenset)):
            if isinstance(v, Sym):
                raise Unsupported("symbolic set membership")
            return v in c
        f = getattr(type(c), "__contains__", None)
        if f is not None and hasattr(f, "_dv_info"):
            return f(c, v)
        if isinstance(c, SList) and c.sym is not None and is_num(v):
            return c.member(v)
        if isinstance(c, (tuple, list)):
            r = tm.FALSE
            for x in self.tolist(c):
                if x is v:
                    return True
                q = x == v
                if isinstance(q, Sym):
                    r = tm.or_(r, tm.as_bool(q.t))
                elif q is not NotImplemented and self.truth(q):
                    return True
            return wrap(r)
        return v in c

    def e_IfExp(self, e, fr):
        t = self.eval(e.test, fr)
        if self.truth(t):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.info is None and f.parent is not None and getattr(f, "names", None) == "comp":
            f = f.parent
        self.store(e.target.id, v, f)
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.tolist(self.eval(x.value, fr))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = SList()
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.eval(x.value, fr)
                    s = self.seq(v)
                    r.extend(SList.symbolic(s) if s is not None else SList(self.tolist(v)))
                else:
                    r.append(self.eval(x, fr))
            return r
        return SList(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return set(self.elts(e.elts, fr))

    def e_Dict(self, e, fr):
        d = core.born({})
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                d[dict_key(self.eval(k, fr))] = self.eval(v, fr)
        return d

    def e_Lambda(self, e, fr):
        return self.make_function(e, fr)

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.eval(v.value, fr)
                if v.conversion == 114:
                    x = repr(x)
                spec = self.eval(v.format_spec, fr) if v.format_spec else ""
                if int_sym(x) and spec in ("", "d"):
                    out.append(x)
                else:
                    out.append(fmt(x, spec))
        if any(isinstance(x, Sym) for x in out):
            return SymText(out)
        return "".join(out)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def getattr(self, o, name):
        if isinstance(o, list) and not isinstance(o, SList) and name in ("append", "extend", "insert", "pop", "sort"):
            raise Unsupported("native list mutation")
        if name == "shape" and isinstance(o, (Arr, MArr)):
            return tuple(wrap(dimterm(d)) for d in o.shape)
        if type(o) in (bool, int, float) and name in ("all", "any", "astype", "item", "max", "min", "sum", "copy") and not hasattr(o, name):
            return getattr(Sym(tm.const(o) if type(o) is not bool else (tm.TRUE if o else tm.FALSE)), name)
        return getattr(o, name)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(o, type) and type(o) in (type, abc.ABCMeta) or getattr(o, "__module__", None) == "typing":
            return o
        return self.getitem(o, self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        return slice(*[self.eval(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        self._yframe(fr).yields.append(v)
        return None

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        y = self._yframe(fr).yields
        s = self.seq(v)
        y.extend(SList.symbolic(s) if s is not None else SList(self.tolist(v)))

    def _yframe(self, fr):
        while fr.yields is None:
            fr = fr.parent
        return fr

    # -- comprehensions
    def comp(self, gens, fr, emit):
        """returns list of emitted values (concrete) or a symbolic sequence"""
        cf = Frame(fr.module, None, fr)
        cf.names = "comp"
        core.born(cf.vars)
        out = []

        def rec(i):
            if i == len(gens):
                out.append(emit(cf))
                return
            g = gens[i]
            it = self.eval(g.iter, fr if i == 0 else cf)
            sy = self.seq(it)
            if sy is not None and not (sy.guard is None and sy.length().op == "const"):
                if len(gens) != 1:
                    raise Unsupported("nested comprehension over symbolic sequences")
                from .loops import sym_comp
                raise _SymComp(sym_comp(self, g, sy, cf, emit))
            for v in self.tolist(it):
                self.assign(g.target, v, cf)
                if all(self.truth(self.eval(c, cf)) for c in g.ifs):
                    rec(i + 1)
        try:
            rec(0)
        except _SymComp as s:
            return s.seq
        return out

    def e_ListComp(self, e, fr):
        r = self.comp(e.generators, fr, lambda f: self.eval(e.elt, f))
        return SList(r) if isinstance(r, list) else SList.symbolic(r)

    def e_GeneratorExp(self, e, fr):
        r = self.comp(e.generators, fr, lambda f: self.eval(e.elt, f))
        return GenResult(SList(r) if isinstance(r, list) else SList.symbolic(r))

    def e_SetComp(self, e, fr):
        r = self.comp(e.generators, fr, lambda f: self.eval(e.elt, f))
        if not isinstance(r, list):
            raise Unsupported("symbolic set")
        return set(r)

    def e_DictComp(self, e, fr):
        r = self.comp(e.generators, fr, lambda f: (dict_key(self.eval(e.key, f)), self.eval(e.value, f)))
        if isinstance(r, SList) and r.sym is not None:
            return SymDict(r.sym)
        if not isinstance(r, list):
            return SymDict(r)
        return dict(r)

    # -- calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f.info is None or f.info.cls is None:
                f = f.parent
            return super(f.info.cls, f.first)
        fn = self.eval(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.tolist(self.eval(a.value, fr))
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, fr))
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(fn, args, kw)

    def call(self, fn, args, kw):
        m = getattr(fn, "__self__", None)
        if m is not None and type(m) in (dict, set, collections_types[0], collections_types[1]) and getattr(fn, "__name__", "") in (
                "update", "setdefault", "pop", "popitem", "clear", "add", "discard", "remove"):
            self._journal_container(m)
            if type(m) is dict and fn.__name__ in ("pop", "setdefault"):
                args = [dict_key(args[0])] + list(args[1:])
        if isinstance(fn, type):
            r = self.instantiate(fn, args, kw)
        else:
            r = fn(*args, **kw)
        return self.lift(r)

    def _journal_container(self, m):
        c = core.CTX
        if c is not None and c.journal is not None:
            old = m.copy()

            def undo():
                m.clear()
                m.update(old)
            c.note(("container", IdKey(m)), undo, core.birth_of(m))

    def lift(self, r):
        if isinstance(r, float):
            return Sym(tm.const(r))
        if type(r) is list:
            return SList(r)
        return r

    def instantiate(self, cls, args, kw):
        sh = self.shims.types.get(cls)
        if sh is not None:
            return sh(*args, **kw)
        r = cls(*args, **kw)
        if type(r) in (dict, set) or getattr(cls, "_dv_class", False) and core.birth_of(r) == 0:
            core.born(r)
            c = core.CTX
            if c is not None and c.created is not None and getattr(cls, "_dv_class", False):
                c.created.append(r)
        return r


class _SymComp(Exception):
    _dv_internal = True

    def __init__(self, seq):
        self.seq = seq


import collections as _c
collections_types = (_c.OrderedDict, _c.defaultdict)


class GenResult:
    """eagerly evaluated generator"""

    def __init__(self, lst):
        self.lst = lst
        self.pos = 0

    def rest(self):
        if self.pos == 0:
            r = self.lst
        else:
            r = SList(list(self.lst)[self.pos:])
        return r

    def __iter__(self):
        while self.pos < len(self.lst):
            self.pos += 1
            yield self.lst[self.pos - 1]

    def __next__(self):
        if self.pos >= len(self.lst):
            raise StopIteration
        self.pos += 1
        return self.lst[self.pos - 1]


def _store_dict_attr(o, d, name, v):
    c = core.CTX
    if c is not None and c.journal is not None:
        old = d.get(name, _MISSING)

        def undo():
            if old is _MISSING:
                d.pop(name, None)
            else:
                d[name] = old
        c.note(("attr", IdKey(o), name), undo, core.birth_of(o))
    d[name] = v


def dict_key(k):
    if isinstance(k, Sym):
        if k.t.op == "const":
            return k.t.val if k.t.sort != "I" else int(k.t.val)
        raise Unsupported("symbolic dictionary key")
    return k


def int_sym(x):
    return isinstance(x, Sym) and x.t.sort == "I" and x.t.op != "const"


class SymText:
    """text with decimal renderings of symbolic integers in it"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif not (isinstance(p, str) and not p):
                out.append(p)
        self.parts = out

    def equals(self, *parts):
        o = SymText(parts).parts
        if len(o) != len(self.parts) or any(isinstance(a, str) != isinstance(b, str) or (isinstance(a, str) and a != b) for a, b in zip(o, self.parts)):
            return tm.FALSE
        return tm.and_(*[tm.eq(term_of(a), term_of(b)) for a, b in zip(o, self.parts) if not isinstance(a, str)])


def percent_text(a, b):
    """'...%d...' % values with a symbolic integer among them"""
    vals = list(b) if isinstance(b, tuple) else [b]
    if not any(int_sym(v) for v in vals):
        if any(isinstance(v, Sym) and v.t.op == "const" and v.t.sort == "I" for v in vals):
            return a % tuple(int(v.t.val) if isinstance(v, Sym) and v.t.op == "const" and v.t.sort == "I" else v for v in vals)
        return None
    ps = _re.split(r"%[di]|%s", a)
    if len(ps) != len(vals) + 1 or any("%" in p for p in ps) or not all(int_sym(v) or isinstance(v, (str, int)) for v in vals):
        raise Unsupported("text of a symbolic number")
    out = [ps[0]]
    for v, p in zip(vals, ps[1:]):
        out += [v if int_sym(v) else str(v), p]
    return SymText(out)


class ObjText:
    """text of a symbolic element whose class prints its address"""

    def __init__(self, obj):
        self.obj = obj

    def __eq__(self, o):
        return isinstance(o, ObjText) and bool(same_object(self.obj, o.obj))

    def dv_inst(self, f):
        return ObjText(f(self.obj))

    def __hash__(self):
        return 1


class SymDict:
    """{F[k]: value(k) for k < n}, keyed by identity: keys are pairwise different"""

    def __init__(self, seq):
        if seq.guard is not None:
            raise Unsupported("symbolic dict")
        self.seq, self.n = seq, seq.length()
        q = tm.fresh("dk", "I")
        self.key = seq.at(q)[0]
        o = self._obj(self.key)
        if not sq.is_proxy(o) or sq.pidx(o) is not q:
            raise Unsupported("symbolic dict")
        self.fam = sq.pfam(o)

    @staticmethod
    def _obj(k):
        return k.obj if isinstance(k, ObjText) else k

    def __getitem__(self, k):
        o = self._obj(k)
        if type(k) is not type(self.key) or not sq.is_proxy(o) or sq.pfam(o) is not self.fam:
            raise Unsupported("lookup in a symbolic dict")
        i = sq.pidx(o)
        if not core.CTX.decide(tm.and_(tm.le(tm.ZERO, i), tm.lt(i, self.n))):
            raise KeyError(k)
        return self.seq.at(i)[1]

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default


def fmt(x, spec):
    try:
        if isinstance(x, Sym) and x.t.op == "const" and x.t.sort != "C":
            return format(float(x.t.val) if x.t.sort == "R" else x.t.val, spec)
        return format(x, spec)
    except (TypeError, ValueError):
        if isinstance(x, (Arr, MArr, SList)):
            raise TypeError("unsupported format string passed to array")
        return "<%s>" % (x,)


def read_loc(loc):
    k = loc[0]
    if k == "dict":
        return loc[1].o.get(loc[2], _MISSING)
    if k == "attr":
        return loc[1].o.__dict__.get(loc[2], _MISSING)
    if k == "store":
        return loc[1].fn
    if k == "fam":
        return loc[1].fields.get(loc[2])
    if k == "list":
        s = loc[1].o
        return (list(list.__iter__(s)), s.sym)
    if k == "container":
        return loc[1].o.copy()
    raise Unsupported("location " + k)

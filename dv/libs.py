"""Shims of builtins and of the libraries the code imports."""
import builtins as _b
import collections.abc as cabc
import importlib
import itertools
import functools
import sys
import types
from . import term as tm
from . import core
from .core import Sym, Unsupported, term_of, wrap, is_num, num
from .arrays import Arr, MArr, dimterm, dimval, mkarr, from_terms, as_arr, elementwise
from . import npshim as N
from . import seq as sq
from .seq import SList, MapSeq, FilterSeq, SymRange
from .interp import GenResult, Interp, ObjText, dict_key

STDLIB = {"abc", "collections", "collections.abc", "enum", "re", "os", "os.path", "copy", "functools", "itertools", "dataclasses", "pathlib",
          "typing", "warnings", "json", "gzip", "math", "operator", "contextlib", "inspect", "string", "urllib", "urllib.request", "importlib",
          "importlib.metadata", "types", "tomli", "tomllib", "numbers", "textwrap", "logging", "datetime", "weakref", "__future__", "sys", "time", "io"}


class Opaque:
    """library object that may be named but not used"""

    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Opaque(self._n + "." + n)

    def __call__(self, *a, **k):
        raise Unsupported("call of " + self._n)


class Series:
    _dv_series = True

    def __init__(self, values, name=None):
        self.values = N.asarray(values)
        self.name = name

    @property
    def iloc(self):
        return self.values

    def __getitem__(self, k):
        return self.values[k]

    def cumsum(self):
        return Series(N.cumsum(self.values))

    def to_numpy(self):
        return self.values

    def __len__(self):
        return len(self.values)

    def length(self):
        return self.values.length()


for _n in ("add", "sub", "mul", "truediv", "radd", "rsub", "rmul", "rtruediv", "pow"):
    def _f(self, o, _n=_n):
        return Series(getattr(self.values, "__%s__" % _n)(o.values if isinstance(o, Series) else o))
    setattr(Series, "__%s__" % _n, _f)


class DataFrame:
    def __init__(self, data=None, index=None, columns=None):
        self.cols = {}
        self.index = index
        if isinstance(data, dict):
            self.cols = {k: self._col(v) for k, v in data.items()}
        elif isinstance(data, SList) and data.sym is not None:
            s = data.sym
            pr = s.at(tm.var("?probe", "I"))
            if not isinstance(pr, dict):
                raise Unsupported("DataFrame rows")
            for k in pr:
                self.cols[k] = Series(N.from_seq(MapSeq(s.length(), (lambda k: lambda i: s.at(i)[k])(k))))
        elif isinstance(data, list):
            rows = list(data)
            if rows and isinstance(rows[0], dict):
                for k in rows[0]:
                    self.cols[k] = self._col([r[k] for r in rows])
            elif rows and columns:
                for i, k in enumerate(columns):
                    self.cols[k] = self._col([r[i] for r in rows])
            else:
                raise Unsupported("DataFrame")
        elif data is not None:
            a = as_arr(data)
            self.values = a
            self.columns_ = columns

    @staticmethod
    def _col(v):
        if isinstance(v, Series):
            return v
        if isinstance(v, list) and any(not is_num(x) for x in v):
            r = Series([0])
            r.values = SList(v)
            return r
        return Series(v)

    def __getitem__(self, k):
        return self.cols[k]

    def __setitem__(self, k, v):
        self.cols[k] = self._col(v)

    def __getattr__(self, n):
        c = self.__dict__.get("cols", {})
        if n in c:
            return c[n]
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("DataFrame." + n)


class Interp1d:
    """scipy.interpolate.interp1d, kind linear, increasing abscissae"""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        if kind not in ("linear",):
            raise Unsupported("interp1d kind " + str(kind))
        self.x, self.y = N.asarray(x).copy(), N.asarray(y).copy()
        if self.x.ndim != 1 or self.y.ndim != 1:
            raise Unsupported("interp1d n-d")
        from .arrays import same_dim
        if not same_dim(self.x.shape[0], self.y.shape[0]):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        self.be = bounds_error
        self.fill = fill_value
        core.CTX.assumed.add("scipy.interpolate.interp1d(kind='linear'): piecewise-linear interpolation of increasing abscissae, fill values outside")

    def dv_inst(self, f):
        o = object.__new__(Interp1d)
        o.x, o.y, o.be, o.fill = f(self.x), f(self.y), self.be, f(self.fill)
        return o

    def __call__(self, q):
        if not (isinstance(self.be, bool) and self.be is False):
            raise Unsupported("interp1d bounds_error")
        if isinstance(self.fill, tuple):
            l, r = [term_of(v) for v in self.fill]
        elif isinstance(self.fill, str) or self.fill is None:
            if self.fill == "extrapolate":
                raise Unsupported("extrapolate")
            l = r = tm.NAN
        else:
            l = r = term_of(self.fill)
        xf, yf, n = self.x.frozen(), self.y.frozen(), self.x.shape[0]
        return elementwise(lambda t: N.interp_term(num(t), n, xf, yf, l, r), q)


class TruncNorm:
    def __init__(self, name="truncnorm"):
        self.n = name

    def stats(self, a, b, moments="mv", loc=0, scale=1):
        if moments != "v":
            raise Unsupported("truncnorm.stats")
        v = tm.app("truncnorm.var", (term_of(a), term_of(b)))
        core.CTX.assume(tm.lt(tm.RZERO, v))
        core.CTX.assumed.add("scipy.stats.truncnorm.stats: positive variance (opaque)")
        return wrap(v)

    def rvs(self, a, b, loc=0, scale=1, size=1):
        raise Unsupported("truncnorm.rvs")

    def ppf(self, q, a, b, loc=0, scale=1):
        core.CTX.assumed.add("scipy.stats.truncnorm.ppf: quantile function (opaque)")
        return wrap(tm.add(term_of(loc), tm.mul(term_of(scale), tm.app("truncnorm.ppf", (term_of(q), term_of(a), term_of(b))))))


class NormD:
    def cdf(self, x, loc=0, scale=1):
        return elementwise(lambda t: tm.app("norm.cdf", (t,)), x)

    def ppf(self, x, loc=0, scale=1):
        return elementwise(lambda t: tm.app("norm.ppf", (t,)), x)


class Diags:
    def __init__(self, ds, offsets):
        self.ds = [as_arr(d) for d in ds]
        self.off = [int(o) for o in offsets]

    def toarray(self):
        n = None
        for d, o in zip(self.ds, self.off):
            if o == 0:
                n = d.shape[0]
        if n is None:
            raise Unsupported("diags without main diagonal")
        fs = [d.frozen() for d in self.ds]

        def fn(i, j):
            r = tm.RZERO
            for f, o, d in zip(fs, self.off, self.ds):
                c = tm.eq(tm.sub(j, i), tm.const(o))
                if c is tm.FALSE:
                    continue
                k = i if o >= 0 else j
                if k.op == "const" and isinstance(d.shape[0], int) and not int(k.val) < d.shape[0]:
                    continue
                r = tm.ite(c, f(k), r)
            return r
        core.CTX.assumed.add("scipy.sparse.diags(...).toarray: matrix with the given diagonals")
        return mkarr((n, n), fn, "R")


def jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


def rvt_motions():
    """assumed contract of the pyrvt motion classes: they keep what they are given, and the peak is a function of the
    duration, the frequencies and the magnitudes of the (filtered) amplitudes"""
    class RvtMotion:
        def __init__(self, *a, **k):
            names = list(type(self)._args)
            k = dict(zip(names, a), **k)
            if set(k) - set(names):
                raise TypeError("unexpected argument")
            self._given = k
            if "freqs" in names:
                self._freqs, self._fourier_amps, self._duration = k.get("freqs"), k.get("fourier_amps"), k.get("duration")
            else:
                n = core.CTX.fresh("nf", "I")
                core.CTX.assume(tm.lt(tm.ZERO, n))
                self._freqs, self._fourier_amps = [Arr((dimval(n),), lambda i, z=z: tm.app(z, (n, i), "R"), "R") for z in ("rvt_freqs", "rvt_amps")]
                self._duration = wrap(core.CTX.fresh("dur"))
            core.CTX.assumed.add("pyrvt motions keep their arguments; calc_peak is a function of duration, frequencies and |filter|*amplitudes")

        freqs = property(lambda self: self._freqs)
        fourier_amps = property(lambda self: self._fourier_amps)
        duration = property(lambda self: self._duration)

        def calc_peak(self, transfer_func=None, **kwds):
            fa = self._fourier_amps
            if transfer_func is not None:
                fa = N.as_arr(abs(N.as_arr(transfer_func))) * fa
            d = self._duration
            return wrap(N.opaque("pyrvt.peak", [fa, self._freqs, 0 if d is None else d]))

    RvtMotion._args = ("freqs", "fourier_amps", "duration", "peak_calculator", "calc_kwds")
    C = type("CompatibleRvtMotion", (RvtMotion,), {"_args": ("osc_freqs", "osc_accels_target", "duration", "osc_damping", "event_kwds", "window_len", "peak_calculator", "calc_kwds")})
    S = type("SourceTheoryMotion", (RvtMotion,), {"_args": ("magnitude", "distance", "region", "stress_drop", "depth", "peak_calculator", "calc_kwds")})
    return N.NS(RvtMotion=RvtMotion, CompatibleRvtMotion=C, SourceTheoryMotion=S)


class Prange:
    pass


class Shims:
    def __init__(self):
        np = N.make()
        self.np = np
        sc = N.NS(g=Sym(tm.const(9.80665)), kilo=Sym(tm.const(1000.0)), atm=Sym(tm.const(101325.0)), pi=np.pi, milli=Sym(tm.const(0.001)))
        stats = N.NS(truncnorm=TruncNorm(), norm=NormD(), rv_continuous=object)
        pyk = N.NS(smooth=self.pykooh_smooth, CachedSmoother=Opaque("pykooh.CachedSmoother"))

        motions = rvt_motions()
        self.pyrvt = N.NS(motions=motions, peak_calculators=Opaque("pyrvt.peak_calculators"), tools=Opaque("pyrvt.tools"))
        pd = N.NS(DataFrame=DataFrame, Series=Series, Index=lambda v, name=None: Series(v, name), MultiIndex=Opaque("pd.MultiIndex"))
        mpl = Opaque("matplotlib")
        self.mods = {
            "numpy": np, "numpy.typing": np.typing, "numba": N.NS(jit=jit, njit=jit, prange=range, vectorize=jit),
            "scipy": N.NS(constants=sc, stats=stats), "scipy.constants": sc, "scipy.stats": stats,
            "scipy.integrate": N.NS(cumulative_trapezoid=N.cumulative_trapezoid, trapezoid=N.trapezoid),
            "scipy.interpolate": N.NS(interp1d=Interp1d), "scipy.optimize": N.NS(minimize=Opaque("scipy.optimize.minimize")),
            "scipy.sparse": N.NS(diags=Diags, diags_array=Opaque("diags_array")), "pykooh": pyk, "pyrvt": self.pyrvt, "pandas": pd, "matplotlib": mpl,
            "matplotlib.pyplot": mpl, "matplotlib.colors": mpl, "xarray": Opaque("xarray"), "numpy.fft": np.fft, "numpy.random": np.random,
            "scipy.fft": np.fft, "scipy.linalg": Opaque("scipy.linalg"), "scipy.special": Opaque("scipy.special"),
        }
        self.mods["scipy"].integrate = self.mods["scipy.integrate"]
        self.mods["scipy"].interpolate = self.mods["scipy.interpolate"]
        self.mods["math"] = N.NS(pi=np.pi, log=np.log, exp=np.exp, sqrt=np.sqrt, ceil=lambda x: wrap(tm.ceil(term_of(x))), floor=lambda x: wrap(tm.floor(term_of(x))),
                                 isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: N.isclose(a, b, rel_tol, abs_tol), log10=np.log10, fabs=np.abs, prod=N.prod, inf=np.inf, nan=np.nan,
                                 sin=np.sin, cos=np.cos, isfinite=np.isfinite, isnan=np.isnan, hypot=np.hypot, fsum=self.sum, pow=lambda a, b: term_pow(a, b))
        self.mods["warnings"] = N.NS(warn=self.warn, filterwarnings=lambda *a, **k: None, catch_warnings=N.ErrState, simplefilter=lambda *a, **k: None)
        self.mods["itertools"] = N.NS(product=self.product, chain=N.NS(from_iterable=None), count=itertools.count, zip_longest=itertools.zip_longest,
                                      accumulate=Opaque("itertools.accumulate"), repeat=itertools.repeat, islice=itertools.islice, pairwise=self.pairwise, combinations=itertools.combinations)
        self.mods["typing"] = Typing()
        self.mods["copy"] = N.NS(copy=self.copy, deepcopy=self.deepcopy)
        self.types = {float: self.float, int: self.int, list: self.list, tuple: self.tuple, set: self.set, dict: self.dict, bool: self.bool, str: self.str,
                      complex: self.complex, enumerate: self.enumerate, zip: self.zip, range: self.range, reversed: self.reversed, map: self.map, filter: self.filter,
                      type: type, frozenset: lambda x=(): frozenset(self.I.tolist(x))}
        self.b = {"len": self.len, "abs": lambda x: N.elementwise(tm.abs_, x) if not isinstance(x, (int,)) else abs(x), "sum": self.sum, "max": self.max, "min": self.min, "any": self.any, "all": self.all,
                  "isinstance": self.isinstance, "sorted": self.sorted, "round": self.round, "iter": self.iter, "next": self.next, "print": lambda *a, **k: None,
                  "getattr": self.getattr, "setattr": self.setattr, "hasattr": self.hasattr, "open": Opaque("open"), "type": self.type, "pow": lambda a, b: self.I.binop(__import__("operator").pow, a, b),
                  "divmod": lambda a, b: (a // b, a % b), "repr": lambda x: "<%s>" % (x,) if isinstance(x, (Sym, Arr)) else repr(x)}
        self.warned = []

    # ------------------------------------------------------------ imports
    def get_module(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name in STDLIB or name.split(".")[0] in STDLIB:
            try:
                return importlib.import_module(name)
            except ImportError:
                if name == "tomli":
                    return importlib.import_module("tomllib")
                parent, _, attr = name.rpartition(".")
                return getattr(importlib.import_module(parent), attr)
        raise ImportError(name)

    def builtin(self, name):
        f = self.b.get(name)
        if f is not None:
            return f
        try:
            return getattr(_b, name)
        except AttributeError:
            raise NameError("name '%s' is not defined" % name)

    # ------------------------------------------------------------ builtins
    def len(self, x):
        if isinstance(x, GenResult):
            raise TypeError("object of type 'generator' has no len()")
        if isinstance(x, (SList, MArr)):
            return x.length()
        if isinstance(x, Arr):
            if not x.shape:
                raise TypeError("len() of unsized object")
            return x.length()
        if isinstance(x, (sq.MapSeq, sq.FilterSeq, sq.ConcatSeq, sq.SymRange)):
            return wrap(x.length())
        f = getattr(type(x), "__len__", None)
        if f is not None and hasattr(f, "_dv_info"):
            return f(x)
        if isinstance(x, Sym):
            raise TypeError("object of type 'float' has no len()")
        return _b.len(x)

    def isinstance(self, x, cls):
        if isinstance(cls, types.UnionType):
            cls = cls.__args__
        if not isinstance(cls, tuple):
            cls = (cls,)
        for c in cls:
            if isinstance(c, tuple):
                if self.isinstance(x, c):
                    return True
                continue
            if isinstance(x, Sym):
                s = x.t.sort
                if c is float and s == "R" or c is int and s in "IB" or c is complex and s == "C" or c is bool and s == "B":
                    return True
                continue
            if c is Arr and isinstance(x, MArr):
                return True
            if isinstance(x, GenResult):
                if c is types.GeneratorType or c in (cabc.Iterator, cabc.Iterable, cabc.Generator):
                    return True
                continue
            if isinstance(c, type) and isinstance(x, c):
                return True
            if not isinstance(c, type) and getattr(c, "__module__", "") in ("typing", "collections.abc"):
                if isinstance(x, c):
                    return True
        return False

    def type(self, x, *a):
        if a:
            return type(x, *a)
        if isinstance(x, Sym):
            return {"R": float, "I": int, "B": bool, "C": complex}[x.t.sort]
        if sq.is_proxy(x):
            return type(x).__mro__[1]
        return type(x)

    def float(self, x=0):
        if isinstance(x, str):
            return wrap(tm.const(float(x)))
        if isinstance(x, (Sym, int)):
            t = term_of(x)
            if t.sort == "C":
                raise TypeError("can't convert complex to float")
            return wrap(tm.to_real(t))
        if isinstance(x, Arr):
            return wrap(tm.to_real(x.scalar_term()))
        if x is None or isinstance(x, (list, tuple, dict)):
            raise TypeError("float() argument must be a string or a real number")
        return wrap(tm.to_real(term_of(x)))

    def int(self, x=0, *a):
        if isinstance(x, str):
            return int(x, *a)
        if isinstance(x, Arr):
            x = wrap(x.scalar_term())
        return core.cast(x, int)

    def complex(self, a=0, b=0):
        return wrap(tm.add(term_of(a), tm.mul(tm.I, term_of(b))))

    def bool(self, x=False):
        if isinstance(x, Sym):
            return wrap(tm.as_bool(x.t))
        return self.I.truth(x)

    def str(self, x="", *a):
        if sq.is_proxy(x):
            if type(x).__str__ is object.__str__ and type(x).__repr__ is object.__repr__:
                return ObjText(x)
            raise Unsupported("text of a symbolic element")
        return "<%s>" % (x,) if isinstance(x, (Sym, Arr)) else str(x)

    def list(self, x=()):
        s = self.I.seq(x)
        if s is not None:
            if s.guard is None and s.length().op == "const":
                return SList(self.I.tolist(x))
            return SList.symbolic(s)
        return SList(self.I.tolist(x))

    def tuple(self, x=()):
        s = self.I.seq(x)
        if s is not None and not (s.guard is None and s.length().op == "const"):
            return SList.symbolic(s)
        return tuple(self.I.tolist(x))

    def set(self, x=()):
        return set(self.I.tolist(x))

    def dict(self, *a, **k):
        if a and not isinstance(a[0], dict):
            a = ([tuple(self.I.tolist(p)) for p in self.I.tolist(a[0])],)
            a = ([(dict_key(p[0]), p[1]) for p in a[0]],)
        return core.born(dict(*a, **k))

    def sum(self, x, start=0):
        s = self.I.seq(x)
        if s is not None and not (s.guard is None and s.length().op == "const"):
            if isinstance(s, FilterSeq):
                v = N.rvar()
                return start + wrap(tm.bigsum(v, tm.ZERO, s.n, tm.ite(s.cond(v), term_of(s.fn(v)), tm.RZERO)))
            if isinstance(s, sq.ConcatSeq):
                r = start
                for p in s.parts:
                    r = r + self.sum(SList(p) if isinstance(p, list) else p)
                return r
            if isinstance(s, sq.NestedSeq):
                raise Unsupported("sum of a flattened sequence")
            v = N.rvar()
            return start + wrap(tm.bigsum(v, tm.ZERO, s.length(), num(term_of(s.at(v)))))
        r = start
        for v in self.I.tolist(x):
            r = self.I.binop(__import__("operator").add, r, v)
        return r

    def _minmax(self, a, k, op):
        if "key" in k:
            raise Unsupported("max(key=)")
        if len(a) == 1:
            s = self.I.seq(a[0])
            if s is not None and not (s.guard is None and s.length().op == "const"):
                return wrap(N.reduce_dim(lambda i: num(term_of(s.at(i))), dimval(s.length()), op))
            xs = self.I.tolist(a[0])
            if not xs:
                if "default" in k:
                    return k["default"]
                raise ValueError("max() iterable argument is empty")
        else:
            xs = list(a)
        r = xs[0]
        for x in xs[1:]:
            if not (is_num(x) and is_num(r)):
                if isinstance(x, str):
                    r = max(r, x) if op == "max" else min(r, x)
                    continue
                if isinstance(x, Arr) and x.ndim or isinstance(r, Arr) and r.ndim:
                    raise ValueError("The truth value of an array with more than one element is ambiguous")
                raise TypeError("'>' not supported")
            r = wrap((tm.max_ if op == "max" else tm.min_)(num(term_of(r)), num(term_of(x))))
        return r

    def max(self, *a, **k):
        return self._minmax(a, k, "max")

    def min(self, *a, **k):
        return self._minmax(a, k, "min")

    def _anyall(self, x, isall):
        s = self.I.seq(x)
        if s is not None and not (s.guard is None and s.length().op == "const"):
            v = N.rvar()
            if isinstance(s, FilterSeq):
                b = tm.as_bool(term_of(s.fn(v)))
                t = tm.forall(v, tm.ZERO, s.n, tm.implies(s.cond(v), b)) if isall else tm.exists(v, tm.ZERO, s.n, tm.and_(s.cond(v), b))
                return wrap(t)
            b = tm.as_bool(term_of(s.at(v)))
            return wrap(tm.forall(v, tm.ZERO, s.length(), b) if isall else tm.exists(v, tm.ZERO, s.length(), b))
        acc = []
        for v in self.I.tolist(x):
            if isinstance(v, Sym):
                acc.append(tm.as_bool(v.t))
            else:
                acc.append(tm.TRUE if self.I.truth(v) else tm.FALSE)
        return wrap(tm.and_(*acc) if isall else tm.or_(*acc))

    def any(self, x):
        return self._anyall(x, False)

    def all(self, x):
        return self._anyall(x, True)

    def sorted(self, x, key=None, reverse=False):
        xs = self.I.tolist(x)
        if any(isinstance(v, Sym) and v.t.op != "const" for v in xs):
            raise Unsupported("sorted of symbolic values")
        if xs and isinstance(xs[0], tuple):
            if any(isinstance(v[0], Sym) for v in xs) or len({v[0] for v in xs}) != len(xs):
                return SList(sorted(xs, key=key, reverse=reverse))
        if key is None and xs and isinstance(xs[0], Sym):
            key = lambda v: v.t.val
        return SList(sorted(xs, key=key, reverse=reverse))

    def round(self, x, n=None):
        if isinstance(x, Sym) and x.t.op != "const":
            raise Unsupported("round")
        if isinstance(x, Sym):
            return wrap(tm.const(round(float(x), n)))
        return round(x, n)

    def iter(self, x):
        s = self.I.seq(x)
        if s is not None:
            return GenResult(SList.symbolic(s))
        if isinstance(x, GenResult):
            return x
        return GenResult(SList(self.I.tolist(x)))

    def next(self, x, *default):
        if isinstance(x, GenResult) and x.lst.sym is not None:
            from .loops import seq_first
            return seq_first(self.I, x.lst.sym, default)
        try:
            return next(x)
        except StopIteration:
            if default:
                return default[0]
            raise

    def _seqs(self, xs):
        out = []
        for x in xs:
            s = self.I.seq(x)
            if s is not None and s.guard is None and s.length().op == "const":
                s = None
            out.append(s)
        return out

    def enumerate(self, x, start=0):
        s, = self._seqs([x])
        if s is None:
            return GenResult(SList([(i + start, v) for i, v in enumerate(self.I.tolist(x))]))
        st = term_of(start)
        if isinstance(s, FilterSeq):
            def counted(k):
                v = tm.var("?ec", "I")
                return wrap(tm.add(st, tm.bigsum(v, tm.ZERO, k, tm.ite(s.cond(v), tm.ONE, tm.ZERO)))), s.fn(k)
            return GenResult(SList.symbolic(FilterSeq(s.n, s.cond, counted)))
        if s.guard is not None or isinstance(s, sq.NestedSeq):
            raise Unsupported("enumerate of a filtered sequence")
        return GenResult(SList.symbolic(MapSeq(s.length(), lambda k: (wrap(tm.add(st, k)), s.at(k)))))

    def zip(self, *xs, strict=False):
        ss = self._seqs(xs)
        if all(s is None for s in ss):
            return GenResult(SList(list(zip(*[self.I.tolist(x) for x in xs]))))
        ss = [s if s is not None else sq.ConcatSeq([self.I.tolist(x)]) if not isinstance(x, Arr) else MapSeq(dimterm(x.shape[0]), lambda k, x=x: wrap(x.at(k)) if x.ndim == 1 else sq.row(x, k)) for s, x in zip(ss, xs)]
        fs = [s for s in ss if isinstance(s, FilterSeq)]
        if fs:
            v = tm.var("?zf", "I")
            if len(fs) != len(ss) or any(f.cond(v) is not fs[0].cond(v) or f.n is not fs[0].n for f in fs):
                raise Unsupported("zip of different selections")
            return GenResult(SList.symbolic(FilterSeq(fs[0].n, fs[0].cond, lambda k: tuple(f.fn(k) for f in fs))))
        if any(isinstance(s, sq.NestedSeq) for s in ss):
            raise Unsupported("zip of flattened sequences")
        n = ss[0].length()
        for s in ss[1:]:
            m = s.length()
            if m is n or core.CTX.implied(tm.eq(m, n)):
                continue
            n = m if core.CTX.decide(tm.lt(m, n)) else n
        return GenResult(SList.symbolic(MapSeq(n, lambda k: tuple(s.at(k) for s in ss))))

    def range(self, *a):
        if all(not isinstance(x, Sym) or x.t.op == "const" for x in a):
            return SList(list(range(*[int(x) for x in a])))
        lo, hi = (tm.ZERO, term_of(a[0])) if len(a) == 1 else (term_of(a[0]), term_of(a[1]))
        step = 1
        if len(a) == 3:
            step = int(a[2])
            if step not in (1, -1):
                raise Unsupported("range step")
        n = tm.sub(hi, lo) if step == 1 else tm.sub(lo, hi)
        if not core.CTX.decide(tm.le(tm.ZERO, n)):
            return SList()
        if n.op == "const":
            return SList([wrap(tm.add(lo, tm.const(i * step))) for i in range(int(n.val))])
        return SymRange(lo, hi, step)

    def reversed(self, x):
        s, = self._seqs([x])
        if s is None:
            return GenResult(SList(self.I.tolist(x)[::-1]))
        n = s.length()
        return GenResult(SList.symbolic(MapSeq(n, lambda k: s.at(tm.sub(tm.sub(n, tm.ONE), k)))))

    def map(self, f, *xs):
        ss = self._seqs(xs)
        if all(s is None for s in ss):
            return GenResult(SList([self.I.call(f, v, {}) for v in zip(*[self.I.tolist(x) for x in xs])]))
        if len(xs) == 1 and ss[0].guard is None:
            from .loops import sym_map
            return GenResult(SList.symbolic(sym_map(self.I, ss[0], lambda v: self.I.call(f, (v,), {}))))
        raise Unsupported("map over symbolic sequences")

    def filter(self, f, x):
        s, = self._seqs([x])
        if s is not None:
            raise Unsupported("filter over symbolic sequence")
        return GenResult(SList([v for v in self.I.tolist(x) if self.I.truth(v if f is None else self.I.call(f, (v,), {}))]))

    def pairwise(self, x):
        xs = self.I.tolist(x)
        return GenResult(SList(list(zip(xs, xs[1:]))))

    def product(self, *xs, repeat=1):
        return GenResult(SList(list(itertools.product(*[self.I.tolist(x) for x in xs], repeat=repeat))))

    def getattr(self, o, n, *d):
        try:
            return getattr(o, n)
        except AttributeError:
            if d:
                return d[0]
            raise

    def setattr(self, o, n, v):
        self.I.setattr(o, n, v)

    def hasattr(self, o, n):
        try:
            self.I.getattr(o, n)
            return True
        except AttributeError:
            return False

    def warn(self, *a, **k):
        self.warned.append(a)

    # ------------------------------------------------------------ copy
    def copy(self, o):
        if isinstance(o, (Sym, Arr, SList)):
            return o.copy()
        import copy
        if sq.is_proxy(o):
            raise Unsupported("copy of a symbolic element")
        r = copy.copy(o)
        if getattr(type(o), "_dv_class", False):
            core.born(r)
            if core.CTX.created is not None:
                core.CTX.created.append(r)
        return r

    def deepcopy(self, o, memo=None):
        import copy
        if sq.is_proxy(o):
            raise Unsupported("deepcopy of a symbolic element")
        r = copy.deepcopy(o)
        return r

    # ------------------------------------------------------------ others
    def pykooh_smooth(self, freqs, mfreqs, fas, bw, **k):
        core.CTX.assumed.add("pykooh.smooth: Konno-Ohmachi smoothing (opaque functional of its arguments)")
        f = as_arr(freqs)
        a = as_arr(mfreqs)
        b = as_arr(fas)
        la, lb = N.lam_of(a.frozen(), a.shape[0]), N.lam_of(b.frozen(), b.shape[0])
        w = term_of(bw)
        return elementwise(lambda t: tm.app("pykooh.smooth", (t, la, lb, w)), f)


def term_pow(a, b):
    return wrap(tm.pow_(term_of(a), term_of(b)))


class Typing:
    Any = object
    Union = Optional = Callable = List = Dict = Tuple = Sequence = Iterable = Generator = Iterator = Literal = None

    def __init__(self):
        class G:
            def __getitem__(self, k):
                return object
        for n in ("Union", "Optional", "List", "Dict", "Tuple", "Sequence", "Iterable", "Generator", "Iterator", "Literal", "Callable", "ClassVar", "Self", "TypeVar", "cast", "NamedTuple", "Protocol"):
            setattr(self, n, G())
        self.TYPE_CHECKING = False
        self.Any = object


sys.modules.setdefault("dvns", types.ModuleType("dvns"))


def new_interp(root):
    I = Interp(root)
    I.shims = Shims()
    I.shims.I = I
    return I

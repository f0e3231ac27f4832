"""Snippets on which the evaluator is compared with CPython.  Arguments:
n, m: ints (1..5); k: int (-4..6); x, y: reals; a, b: arrays of n reals;
s: increasing array of n reals; c: list of n reals."""
import numpy as np


def sum_loop(n, a):
    t = 0.0
    for i in range(n):
        t += a[i] * i
    return t


def running_max(n, a):
    t = a[0]
    for v in a:
        if v > t:
            t = v
    return t


def running_min_index(n, a):
    best, at = a[0], 0
    for i, v in enumerate(a):
        if v < best:
            best, at = v, i
    return best


def first_above(n, a, x):
    for i, v in enumerate(a):
        if v > x:
            return i
    return -1


def first_above_break(n, a, x):
    at = n
    for i in range(n):
        if a[i] > x:
            at = i
            break
    else:
        at = -7
    return at


def skip_some(n, a, x):
    t = 0.0
    for v in a:
        if v < x:
            continue
        t = t + v
    return t


def all_any(n, a, x):
    return (1 if all(v > x for v in a) else 0) + (2 if any(v > x for v in a) else 0)


def np_all_any(n, a, x):
    return (1 if np.all(a > x) else 0) + (2 if np.any(a > x) else 0)


def accumulate_list(n, a):
    out = []
    t = 0.0
    for v in a:
        out.append(t)
        t += v
    return out


def comprehension(n, a, x):
    return [v * x + i for i, v in enumerate(a)]


def reverse_list(n, c):
    return list(reversed(c))


def neighbours(n, a):
    return [(a[i] - a[i - 1]) for i in range(1, n)]


def zipped(n, a, b):
    return [u * v for u, v in zip(a, b)]


def slice_tail(n, a):
    return a[1:]


def slice_head(n, a):
    return a[:-1]


def slice_back(n, a):
    return a[::-1]


def slice_last(n, c):
    return c[-1]


def slice_assign(n, a, x):
    r = a.copy()
    r[1:] = x
    return r


def in_place(n, a, x):
    r = np.array(a)
    r *= 2
    r[0] += x
    return r


def alias(n, a, x):
    r = np.array(a)
    v = r[1:]
    v += x
    return r


def no_alias(n, a, x):
    r = np.array(a)
    v = r * 1
    v += x
    return r


def masked(n, a, x):
    r = np.array(a)
    r[r < x] = x
    return r


def where(n, a, b):
    return np.where(a < b, a, b)


def clip(n, a, x):
    return np.clip(a, x, x + 1)


def cumsum(n, a):
    return np.cumsum(a)


def cumsum_shift(n, a):
    return np.r_[0, np.cumsum(a)[:-1]]


def diff(n, a):
    return np.diff(a)


def dot(n, a, b):
    return np.dot(a, b)


def mean_std(n, a):
    return np.mean(a)


def maximum(n, a, x):
    return np.maximum(a, x).max()


def interp(n, s, x):
    return np.interp(x, s, s * 2 + 1)


def outer(n, a, b):
    return (a[:, np.newaxis] + b[np.newaxis, :]).sum()


def full_rows(n, a):
    r = np.zeros((n, 2))
    r[:, 0] = a
    r[:, 1] = a ** 2
    return r.sum()


def row_loop(n, a):
    r = np.empty(n)
    r[0] = a[0]
    for i in range(n - 1):
        r[i + 1] = r[i] * 0.5 + a[i + 1]
    return r


def backwards(n, a):
    r = np.zeros(n)
    for i in range(n - 1, -1, -1):
        r[i] = a[i] + i
    return r


def grow(n, x):
    i = 0
    d = 0.0
    while d < n and i < 10:
        d += 0.75
        i += 1
    return i


def while_sum(n, a):
    i, t = 0, 0.0
    while i < n:
        t += a[i]
        i += 1
    return t


def search_down(n, s, x):
    i = n - 1
    while i > 0 and s[i] > x:
        i -= 1
    return i


def last_kept(n, a, x):
    last = -2
    for i in range(n):
        if a[i] > x:
            last = i
    return last


def twice_in_row(n, a, x):
    last = -2
    for i in range(n):
        if a[i] > x:
            if last == i - 1:
                return i
            last = i
    return -1


def negative_index(n, c, k):
    try:
        return c[k]
    except IndexError:
        return -99.0


def insert_any(n, c, k, x):
    r = list(c)
    r.insert(k, x)
    return r


def split(n, c, x):
    return [v for v in c if v > x]


def count(n, c, x):
    return len([v for v in c if v > x])


def in_blocks(n, c):
    r = []
    for v in c:
        r += [v / 2] * 2
    return r


def floor_mod(n, k):
    return (k // n) * 100 + k % n


def rounding(x):
    return int(np.ceil(x)) * 10 + int(np.floor(x)) + int(x) * 100


def power(x):
    return (abs(x) + 0.5) ** 1.5 + np.sqrt(abs(x)) + np.exp(-x) + np.log(abs(x) + 1)


def cplx(x, y):
    z = complex(x, y) * 1j + np.exp(1j * x)
    return abs(z) + z.real - z.imag


def chain(x, y):
    return 1 if 0 < x < y else 2 if x == y else 3


def short(x, y):
    return x and y or x + 1


def star(n, a, x):
    def f(v, *w, z=1.0, **k):
        return v + sum(w) * z + k.get("q", 0)
    return f(x, 1, 2, z=x, q=3)


def closure(n, a):
    fs = [lambda i=i: i * 2 for i in range(3)]
    t = 0.0

    def add(v):
        nonlocal t
        t += v
    for f in fs:
        add(f())
    return t


def handled(n, c, k):
    t = 0
    try:
        if k > 2:
            raise ValueError("x")
        t = 1
    except (KeyError, ValueError):
        t = 2
    else:
        t += 10
    finally:
        t += 100
    return t


class Box:
    kind = 3

    def __init__(self, v, w=2.0):
        self._v = v
        self.w = w
        self.log = []

    @property
    def v(self):
        return self._v

    @v.setter
    def v(self, v):
        self.log.append(self._v)
        self._v = v

    def __add__(self, o):
        return type(self)(self.v + o.v, self.w)

    @classmethod
    def make(cls, v):
        return cls(v, w=cls.kind)

    @staticmethod
    def twice(v):
        return 2 * v

    def __len__(self):
        return len(self.log)


class Sub(Box):
    kind = 5

    def __init__(self, v, w=4.0):
        super().__init__(v * 2, w)

    @property
    def v(self):
        return self._v + 1

    @v.setter
    def v(self, v):
        Box.v.fset(self, v)


def objects(x, y):
    a, b = Box(x), Sub.make(y)
    a.v = 5
    a.v = y
    b.v = x
    c = b + a
    return [a.v, b.v, c.v, c.w, len(a), a.log[0], Box.twice(x), isinstance(b, Box) + 0, isinstance(a, Sub) + 0]


def object_list(n, c, x):
    bs = [Box(v) for v in c]
    for i, b in enumerate(bs):
        b.w = i + x
        b.v = b.v + 1
    return [b.v + b.w for b in bs[:-1]] + [bs[-1].w]


def shared(n, c, x):
    bs = [Box(v) for v in c]
    first = bs[0]
    for b in bs:
        b.w = b.v if b is first else first.w
    return [b.w for b in bs]


def generator(n, c, x):
    def g():
        t = 0.0
        for v in c:
            t += v
            yield t
    return list(g())


def dicts(x, y):
    d = {"a": x, "b": y}
    d["c"] = d.pop("a") + 1
    d.update(z=2)
    return [d.get("a", 7), d["c"], sum(d.values()), len(d), "b" in d]


def sorting(n, x, y):
    return sorted([x, y, 0.5])


def text(x):
    return len("%d-%s" % (3, "ab")) + len(f"{7:03d}") + ("ab" in "cab") + (3 if "x".upper() == "X" else 0)


def nan_mark(n, a, x):
    r = np.where(a > x, a, np.nan)
    return np.isnan(r).sum()


def trapz(n, s, a):
    return np.trapezoid(a, x=s)


def unpack(n, c, x):
    p, (q, *r) = x, (1, 2, 3)
    return p + q + r[-1]


def augmented(n, c, x):
    r = list(c)
    s = r
    s += [x]
    return [len(r), len(s)]


def tables(n, s, x):
    i = np.searchsorted(s, x)
    return i


def argmax(n, a):
    return a[np.argmax(a)]


def minmax(x, y):
    return [min(x, y), max(x, y, 1.0)]


def walrus(n, x):
    return (t := x + 1) * t


def ternary_list(n, c, x):
    return [v if v > x else -v for v in c]


def break_with_value(n, a, x):
    d = 0.0
    i = 0
    for i, v in enumerate(a):
        if d + abs(v) > x:
            break
        d += abs(v)
    return [d, i]


def two_counters(n, a, x):
    p = q = 0
    for v in a:
        if v > x:
            p += 1
        else:
            q += 1
    return [p, q, p + q]


def flag(n, a, x):
    seen = False
    for v in a:
        seen = seen or v > x
    return 1 if seen else 0


def nested(n, m, a):
    t = 0.0
    for i in range(n):
        for j in range(m):
            t += a[i] * j
    return t


def matrix(n, a):
    r = np.zeros((n, n))
    for i in range(n):
        r[i, :] = a[i]
    return r[0].sum() - r[:, 0].sum()


class Pt:
    def __init__(self, v):
        self.v = v
        self.w = 2.0


def fam1(n, c, x):
    bs = [Pt(v) for v in c]
    for b in bs:
        b.v = b.v + 1
    return [b.v for b in bs]


def fam2(n, c, x):
    bs = [Box(v) for v in c]
    for b in bs:
        b.v = b.v + 1
    return [b.v for b in bs]


class Lg:
    def __init__(self, v):
        self.v = v
        self.log = []


def fam3(n, c, x):
    bs = [Lg(v) for v in c]
    for b in bs:
        b.log.append(b.v)
        b.v = b.v + 1
    return [b.v for b in bs]


def fam4(n, c, x):
    bs = [Pt(v) for v in c]
    for i, b in enumerate(bs):
        b.v = b.v + 1
        b.v = b.v * 2
    return [b.v for b in bs]


def fam5(n, c, x):
    bs = [Pt(v) for v in c]
    for b in bs:
        b.v = b.v + 1
    return bs[0].v


def fam6(n, c, x):
    bs = [Pt(v) for v in c]
    return bs[0].v


def fam7(n, c, x):
    bs = [Pt(v) for v in c]
    for b in bs:
        b.v = x
    return bs[0].v


def fam8(n, c, x):
    bs = [Pt(v) for v in c]
    for i in range(n):
        b = bs[i]
        b.v = b.v + 1
    return bs[0].v


def lists_in_objects(n, c, x):
    bs = [Lg(v) for v in c]
    for b in bs:
        b.log.append(b.v)
    return [len(b.log) for b in bs]


class Ar:
    def __init__(self, v):
        self.v = np.zeros(2) + v


def arrays_in_objects(n, c, x):
    bs = [Ar(v) for v in c]
    for b in bs:
        b.v[0] = x
    return [b.v.sum() for b in bs]


def arrays_in_objects_late(n, c, x):
    bs = [Ar(v) for v in c]
    bs[0].v[1] = x
    return [b.v.sum() for b in bs]


def lists_in_objects_late(n, c, x):
    bs = [Lg(v) for v in c]
    bs[0].log.append(x)
    return [len(b.log) for b in bs]


def same_array(n, c, x):
    r = np.zeros(n)
    bs = [r for v in c]
    bs[0][0] = x
    return r


def same_object(n, c, x):
    p = Pt(x)
    bs = [p for v in c]
    for b in bs:
        b.v = b.v + 1
    return p.v


def swap_fields(n, c, x):
    bs = [Pt(v) for v in c]
    for b in bs:
        b.v, b.w = b.w, b.v
    for b in bs:
        b.v = b.v * 2
    return [b.v - b.w for b in bs]


def previous_object(n, c, x):
    bs = [Pt(v) for v in c]
    prev = None
    for b in bs:
        if prev is not None:
            b.w = prev.v + b.v
        prev = b
    return [b.w for b in bs]


def chain_objects(n, c, x):
    bs = [Pt(v) for v in c]
    for i in range(1, n):
        bs[i].v = bs[i - 1].v * 0.5 + bs[i].v
    return [b.v for b in bs]


def copy_objects(n, c, x):
    bs = [Pt(v) for v in c]
    cs = [Pt(b.v + x) for b in bs]
    for b in bs:
        b.v = 0.0
    return [b.v for b in cs]


def same_objects_twice(n, c, x):
    bs = [Pt(v) for v in c]
    cs = list(bs) + [Pt(x)]
    for b in cs:
        b.v = b.v + 1
    return [b.v for b in bs]


def array_of_arrays(n, a):
    r = np.zeros((n, 3))
    for i in range(n):
        row = r[i]
        row[1] = a[i]
    return r[:, 1]


def fresh_each_time(n, a):
    out = []
    for i in range(n):
        r = np.zeros(2)
        r[0] = a[i]
        out.append(r)
    return [r[0] + r[1] for r in out]


def same_each_time(n, a):
    out = []
    r = np.zeros(2)
    for i in range(n):
        r[0] = a[i]
        out.append(r)
    return [r[0] + r[1] for r in out]


def default_list(n, x):
    def f(v, acc=[]):
        acc.append(v)
        return len(acc)
    f(x)
    return f(x)


def array_argument(n, a, x):
    def f(v):
        v += x
        return v
    b = np.array(a)
    f(b)
    return b


def object_argument(n, x):
    def f(p):
        p.v += 1
    p = Pt(x)
    f(p)
    f(p)
    return p.v


def dict_loop(n, c, x):
    d = {}
    for i in range(3):
        d[i] = i * x
    return [d[i] for i in d]

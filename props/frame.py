"""Frame conditions: everything reachable from an object, before and after."""
from props.lib import *

SKIP = ("_profile",)
DROP = ("dv_key",)


def _fields(v):
    if is_proxy(v):
        f, i = pfam(v), pidx(v)
        out = {}
        for k in list(f.fields):
            try:
                out[k] = f.get(k, i)
            except (AttributeError, Unsupported):
                pass
        return out
    return dict(vars(v))


def snap(v, deep=4, top=False):
    if v is None or isinstance(v, (str, bool)):
        return ("id", v)
    if core.is_num(v):
        return ("num", term_of(v))
    if isinstance(v, Arr):
        ix = [tm.fresh("fr", "I") for _ in v.shape]
        return ("arr", v, tuple(v.shape), ix, v.at(*ix))
    if isinstance(v, SList):
        n = v.length()
        if isinstance(n, int):
            return ("list", v, n, [snap(v[k], deep - 1) for k in range(n)])
        return ("list", v, n, None)
    if isinstance(v, (tuple, list)):
        return ("seq", v, [snap(x, deep - 1) for x in v])
    if type(v).__module__.startswith("dv.libs"):
        return ("lib", v, {k: snap(x, deep - 1) for k, x in vars(v).items() if isinstance(x, Arr) or core.is_num(x) or isinstance(x, (str, tuple, list))})
    if type(v).__module__.startswith("dvns") or is_proxy(v):
        if deep <= 0:
            return ("id", v)
        return ("obj", v, {k: snap(x, deep - 1) if k not in SKIP else ("id", x) for k, x in _fields(v).items() if k not in DROP})
    return ("id", v)


def same(E, pre, s, v):
    """obligations: v is now what was recorded in s"""
    k = s[0]
    if k == "num":
        ok = core.is_num(v) and term_of(v).sort in ("R", "I", "C", "B")
        E.prove(pre, EQ(wrap(s[1]), v) if ok else tm.FALSE)
    elif k == "id":
        E.prove(pre, SAME(s[1], v) if not isinstance(s[1], (str, bool)) and s[1] is not None else (tm.TRUE if s[1] is v or s[1] == v else tm.FALSE))
    elif k == "arr":
        ok = isinstance(v, Arr) and v.ndim == len(s[2])
        E.prove(pre + " (shape)", AND(*[EQ(wrap(dimterm(a)), wrap(dimterm(b))) for a, b in zip(s[2], v.shape)]) if ok else tm.FALSE)
        if ok:
            E.prove(pre, EQ(wrap(s[4]), wrap(v.at(*s[3]))))
    elif k == "list":
        E.prove(pre + " (same list)", v is s[1])
        E.prove(pre + " (length)", EQ(v.length(), s[2]) if isinstance(v, SList) else tm.FALSE)
        if s[3] is not None and isinstance(v, SList) and isinstance(v.length(), int) and v.length() == s[2]:
            for j, x in enumerate(s[3]):
                same(E, "%s[%d]" % (pre, j), x, v[j])
    elif k == "seq":
        ok = type(v) is type(s[1]) and len(v) == len(s[2])
        E.prove(pre + " (entries)", tm.TRUE if ok else tm.FALSE)
        if ok:
            for j, x in enumerate(s[2]):
                same(E, "%s[%d]" % (pre, j), x, v[j])
    elif k in ("obj", "lib"):
        if k == "obj":
            E.prove(pre + " (same object)", SAME(s[1], v))
        else:
            E.prove(pre + " (same kind)", tm.TRUE if type(v) is type(s[1]) else tm.FALSE)
        now = _fields(v) if is_proxy(v) or hasattr(v, "__dict__") else {}
        E.prove(pre + " (same attributes)", tm.TRUE if set(now) >= set(s[2]) else tm.FALSE)
        for f, x in s[2].items():
            if f in now:
                same(E, pre + "." + f.lstrip("_"), x, now[f])


class Frame:
    """P and an arbitrary layer of it, as they are now"""

    def __init__(self, E, P, n, i):
        self.E, self.P, self.i = E, P, i
        self.p, self.y = snap(P, 1), snap(P[i])
        self.n = n

    def check(self, pre="original "):
        E = self.E
        E.eq(pre + "number of layers", E.len(self.P), self.n)
        same(E, pre + "profile", self.p, self.P)
        same(E, pre + "layer", self.y, self.P[self.i])
        E.prove(pre + "layer belongs to its profile", self.P[self.i]._profile is self.P)

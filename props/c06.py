"""C06  nonlinear curves interpolate their data log-linearly within limits"""
from props.lib import *

_F = ["site.NonlinearCurve.__call__", "site.NonlinearCurve._update"]


def table(E, m, tag=""):
    """strictly increasing strains not below 1e-9 and arbitrary values"""
    x, y = E.arr("x" + tag, m), E.arr("y" + tag, m)
    E.assume(E.all(m, lambda a: AND(LE(num(1e-9), E.at(x, a)), E.all(m, lambda b: IMP(LT(a, b), LT(E.at(x, a), E.at(x, b)))))))
    return x, y


def lim(E, kind, custom=True):
    if custom:
        lo, hi = E.real("lo"), E.real("hi")
        E.assume(LE(lo, hi))
        return lo, hi
    return {"ModulusReductionCurve": (num(0.001), num(1.0)), "DampingCurve": (num(0.0), num(0.49))}[kind]


def clip(v, lim):
    lo, hi = lim
    return ITE(LT(v, lo), lo, ITE(LT(hi, v), hi, v))


def mk(E, kind, m, custom=True, tag=""):
    cls = getattr(E.mod("site"), kind)
    x, y = table(E, m, tag)
    l = lim(E, kind, custom)
    c = cls("c", x, y, limits=l) if custom else cls("c", x, y)
    return c, x, y, l


def expect(E, v, e, x, y, m, l, pre=""):
    """obligations: v is the value of the curve at strain e"""
    i = E.index(pre + "i", m - 1)
    X, Y = (lambda k: E.at(x, k)), (lambda k: E.at(y, k))
    seg = Y(i) + (Y(i + 1) - Y(i)) * (log(e) - log(X(i))) / (log(X(i + 1)) - log(X(i)))
    E.prove(pre + "within the limits", AND(LE(l[0], v), LE(v, l[1])))
    E.prove(pre + "below the table", IMP(LE(e, X(0)), EQ(v, clip(Y(0), l))))
    E.prove(pre + "above the table", IMP(LE(X(m - 1), e), EQ(v, clip(Y(m - 1), l))))
    E.prove(pre + "tabulated value", IMP(EQ(e, X(i)), EQ(v, clip(Y(i), l))))
    E.prove(pre + "linear in log strain", IMP(AND(LE(X(i), e), LT(e, X(i + 1))), EQ(v, clip(seg, l))))


def _scalar(kind, custom):
    def u(E):
        m = E.int("m", 2)
        c, x, y, l = mk(E, kind, m, custom)
        e = E.real("e")
        expect(E, c(e), e, x, y, m, l)
        E.prove("strains at or below zero", IMP(LE(e, 0), EQ(c(e), clip(E.at(y, 0), l))))
        E.reach()
    return u


def _array(kind):
    def u(E):
        m, ne = E.int("m", 2), E.int("ne", 1)
        c, x, y, l = mk(E, kind, m)
        e = E.arr("e", ne)
        v = c(e)
        j = E.index("j", ne)
        E.eq("one value per strain", v.shape[0], ne)
        expect(E, E.at(v, j), E.at(e, j), x, y, m, l)
        E.reach()
    return u


def _replace(kind, what):
    def u(E):
        m = E.int("m", 2)
        c, x, y, l = mk(E, kind, m)
        e = E.real("e")
        c(e)
        if what == "strains":
            x, _ = table(E, m, "2")
            c.strains = x
        else:
            y = E.arr("y2", m)
            c.values = y
        j = E.index("j", m)
        E.eq("strains are the assigned ones", E.at(c.strains, j), E.at(x, j))
        E.eq("values are the assigned ones", E.at(c.values, j), E.at(y, j))
        expect(E, c(e), e, x, y, m, l)
        E.reach()
    return u


def _columns(kind):
    def u(E):
        """one column of values per frequency, evaluated at a scalar strain"""
        m, nf = E.int("m", 2), E.int("nf", 1)
        cls = getattr(E.mod("site"), kind)
        x, _ = table(E, m)
        y = E.arr("Y", m, nf)
        l = lim(E, kind)
        c = cls("c", x, y, limits=l)
        e = E.real("e")
        v = c(e)
        j = E.index("j", nf)
        E.eq("one value per frequency", v.shape[0], nf)
        col = Arr((T(m),), lambda i: y.at(i, T(j)), "R")
        expect(E, E.at(v, j), e, x, col, m, l)
        E.reach()
    return u


for _k in ("ModulusReductionCurve", "DampingCurve"):
    unit("C06", "scalar-" + _k, _F)(_scalar(_k, True))
    unit("C06", "default-limits-" + _k, _F)(_scalar(_k, False))
    unit("C06", "array-" + _k, _F)(_array(_k))
    for _w in ("strains", "values"):
        unit("C06", "replace-%s-%s" % (_w, _k), _F)(_replace(_k, _w))
    unit("C06", "columns-" + _k, _F)(_columns(_k))

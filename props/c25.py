"""C25  generic velocity profiles of Kamai et al. (2016)"""
from props.lib import *

_F = ["generic.kea16_profile"]
# published coefficients: (b1, b2, b3, b4, b5, b6, b7, b8)
COEF = {"california": (0.25, 104.0, 0.22, 166.0, 53.0, -0.00388, 0.0002, 0.195),
        "japan": (0.2, 40.0, 0.25, 260.0, 28.0, -0.00296, 0.0, 0.4)}


def spec(reg, z, v):
    b1, b2, b3, b4, b5, b6, b7, b8 = [num(x) for x in COEF[reg]]
    a0, a1, a2 = b1 * v + b2, b3 * v + b4, b5 * exp(b6 * v)
    return a0 + a1 * log((z + a2) / a2), b7 * v + b8


def go(reg, spelled, scalar):
    def u(E):
        v = E.real("v", 0)
        if scalar:
            z, n = E.real("z"), 1
            E.assume(LE(0, z))
            d = z
            at = lambda k: z        # noqa: E731
        else:
            n = E.int("n", 1)
            d = E.arr("z", n)
            E.assume(E.all(n, lambda k: LE(0, E.at(d, k))))
            at = lambda k: E.at(d, k)   # noqa: E731
        df = E.mod("generic").kea16_profile(d, v, spelled)
        i = E.index("i", n)
        med, sd = spec(reg, at(i), v)
        a = E.at(df["vs_median"].values, i)
        # the logarithm's argument is bounded below by 1e-9 in the code: never active for depths >= 0
        E.eq("median velocity", a, med)
        s = df["std_vs_ln_units"].values
        E.eq("logarithmic standard deviation", E.at(s, i) if len(s.shape) else wrap(s.at()), sd)
        ix = df.index
        E.eq("indexed by depth", E.at(ix.values, i), at(i))
        E.prove("index name", ix.name == "depth")
        E.eq("one row per depth", E.len(df["vs_median"].values), n)
        E.reach()
    return u


for _r in COEF:
    for _s in (_r, _r.capitalize(), _r.upper(), _r[:2] + _r[2:].upper()):
        unit("C25", "median-" + _s, _F)(go(_r, _s, False))
    unit("C25", "scalar-" + _r, _F)(go(_r, _r, True))


@unit("C25", "warning", _F)
def _w(E):
    """a warning exactly outside 250..850, the values are computed all the same (units above)"""
    v = E.real("v", 0)
    said = []
    E.I.shims.mods["warnings"].warn = lambda *a, **k: said.append(a)
    try:
        E.mod("generic").kea16_profile(E.real("z", 0), v, "japan")
    finally:
        E.I.shims.mods["warnings"].warn = E.I.shims.warn
    E.prove("warned outside the range only", EQ(wrap(tm.TRUE if said else tm.FALSE), OR(LT(v, 250), LT(850, v))))
    E.reach()


@unit("C25", "unsupported", _F)
def _u(E):
    for r in ("taiwan", "", "californias", "japan "):
        E.raises(lambda: E.mod("generic").kea16_profile(E.real("z", 0), E.real("v", 0), r), "region %r rejected" % r, ValueError)
    E.reach()

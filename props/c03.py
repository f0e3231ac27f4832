"""C03  layer stiffness and damping always follow the current strain"""
from props.lib import *

_F = ["site.Layer.strain", "site.Layer.shear_mod", "site.Layer.damping"]
KINDS = ("nonlinear", "mod_reduc only", "damping only", "linear")


def mk(E, kind, own_damping=True):
    """a fresh layer; its curves are arbitrary functions"""
    curve_contract(E)
    site = E.mod("site")
    uw, vs, th, dm, D = (E.real(x, 0) for x in ("uw", "vs", "th", "dm", "D"))
    mr = curve(E, "mod_reduc", "mr") if kind in ("nonlinear", "mod_reduc only") else None
    dp = curve(E, "damping", "dp") if kind in ("nonlinear", "damping only") else D
    st = site.SoilType("s", uw, mr, dp)
    lay = site.Layer(st, th, vs, dm) if own_damping else site.Layer(st, th, vs)
    d0 = fn("dp_y", 0) if dp is not D else D
    if not own_damping:
        dm = d0
    G0 = uw / num(9.80665) * vs * vs
    G = lambda e: G0 * (wrap(tm.app("mr", (T(e),), "R")) if mr is not None else 1)                      # noqa: E731
    C = lambda e: (wrap(tm.app("dp", (T(e),), "R")) - d0 + dm) if dp is not D else dm                    # noqa: E731
    return lay, G0, dm, G, C


def at(E, v, j):
    return E.at(v, j) if j is not None else v


def strain(E, name, nf):
    if nf is None:
        return E.real(name), None
    return E.arr(name, nf), None


def _follow(kind, shape, hist, own):
    def u(E):
        lay, G0, dm, G, C = mk(E, kind, own)
        nf = E.int("nf", 1) if shape == "per frequency" else None
        j = E.index("j", nf) if nf is not None else None
        es = []
        for h in range(hist):
            e = E.arr("e%d" % h, nf) if nf is not None else E.real("e%d" % h)
            lay.strain = e
            es.append(at(E, e, j))
        E.eq("modulus follows the strain", at(E, lay.shear_mod, j), G(es[-1]))
        E.eq("damping follows the strain, shifted to the layer's minimum", at(E, lay.damping, j), C(es[-1]))
        E.eq("strain is the assigned one", at(E, lay.strain, j), es[-1])
        E.eq("initial modulus is density times velocity squared", lay.initial_shear_mod, G0)
        E.eq("modulus reduction is relative to the initial modulus", at(E, lay.shear_mod_reduc, j) * G0, G(es[-1]))
        E.eq("shear stress is modulus times strain", at(E, lay.stress_shear_eff, j), G(es[-1]) * es[-1])
        E.eq("minimum damping unchanged", lay.damping_min, dm)
        E.reach()
    return u


def _error(kind, shape, hist):
    def u(E):
        lay, G0, dm, G, C = mk(E, kind)
        nf = E.int("nf", 1) if shape == "per frequency" else None
        es = [None]
        for h in range(hist):
            e = E.arr("e%d" % h, nf) if nf is not None else E.real("e%d" % h)
            lay.strain = e
            es.append(e)

        def val(f, init, k, j):
            return init if es[k] is None else f(at(E, es[k], j))
        j = E.index("j", nf) if nf is not None else None
        pos = lambda i: AND(LT(0, val(G, G0, -1, i)), LT(0, val(C, dm, -1, i)))                     # noqa: E731
        E.assume(E.all(nf, pos) if nf is not None else pos(None))
        err = lay.max_error
        rel = lambda f, init, i: 100 * abs(val(f, init, -2, i) - val(f, init, -1, i)) / val(f, init, -1, i)     # noqa: E731
        if nf is None:
            a, b = rel(G, G0, None), rel(C, dm, None)
            E.eq("error is the largest relative change in percent", err, ITE(LE(b, a), a, b))
        else:
            # at least every change, and attained
            E.prove("error not below any change of modulus", LE(rel(G, G0, j), err))
            E.prove("error not below any change of damping", LE(rel(C, dm, j), err))
            E.prove("error is one of the changes", E.some(nf, lambda i: OR(EQ(err, rel(G, G0, i)), EQ(err, rel(C, dm, i)))))
        E.reach()
    return u


def _restore(kind, how, shape):
    def u(E):
        lay, G0, dm, G, C = mk(E, kind)
        nf = E.int("nf", 1) if shape == "per frequency" else None
        lay.strain = E.arr("e0", nf) if nf is not None else E.real("e0")
        lay.strain_max = E.real("em")
        if how == "reset":
            lay.reset()
        elif how == "velocity":
            v = E.real("v1", 0)
            lay.initial_shear_vel = v
            G0 = lay.density * v * v
            E.eq("velocity is the assigned one", lay.initial_shear_vel, v)
        else:
            d = E.real("d1", 0)
            lay.damping_min = d
            dm = d
        E.eq("initial modulus restored", lay.shear_mod, G0)
        E.eq("minimum damping restored", lay.damping, dm)
        E.eq("damping_min", lay.damping_min, dm)
        E.prove("no peak strain after a reset", EQ(int(lay.strain_max is None), 1))
        E.eq("modulus reduction is one", lay.shear_mod_reduc, 1)
        # and a later strain follows the restored state
        x = E.real("x")
        lay.strain = x
        g = lambda e: G0 * (wrap(tm.app("mr", (T(e),), "R")) if kind in ("nonlinear", "mod_reduc only") else 1)    # noqa: E731
        E.eq("modulus follows the strain after the change", lay.shear_mod, g(x))
        d = (wrap(tm.app("dp", (T(x),), "R")) - fn("dp_y", 0) + dm) if kind in ("nonlinear", "damping only") else dm
        E.eq("damping follows the strain after the change", lay.damping, d)
        E.reach()
    return u


for _k in KINDS:
    _t = _k.replace(" ", "-")
    for _s in ("scalar", "per frequency"):
        unit("C03", "follow-%s-%s" % (_t, _s.replace(" ", "-")), _F)(_follow(_k, _s, 1, True))
        unit("C03", "follow-again-%s-%s" % (_t, _s.replace(" ", "-")), _F)(_follow(_k, _s, 2, True))
        for _h in (1, 2):
            unit("C03", "error-%s-%s-%d" % (_t, _s.replace(" ", "-"), _h), ["site.Layer.max_error", "site.IterativeValue.relative_error"])(_error(_k, _s, _h))
        for _w in ("reset", "velocity", "damping"):
            unit("C03", "restore-%s-%s-%s" % (_w, _t, _s.replace(" ", "-")), ["site.Layer.reset"])(_restore(_k, _w, _s))
    unit("C03", "follow-default-damping-%s" % _t, _F)(_follow(_k, "scalar", 1, False))


@unit("C03", "error-unchanged-zero-damping", ["site.IterativeValue.relative_error"])
def _zero(E):
    """a linear, undamped layer does not change"""
    site = E.mod("site")
    lay = site.Layer(site.SoilType("s", E.real("uw", 0), None, 0.0), E.real("th", 0), E.real("vs", 0))
    lay.strain = E.real("e0")
    E.eq("no change, no error", lay.max_error, 0)
    E.reach()


@unit("C03", "strain-max-stress", ["site.Layer.stress_shear_max"])
def _smax(E):
    lay, G0, dm, G, C = mk(E, "nonlinear")
    e, m = E.real("e0"), E.real("em")
    lay.strain = e
    lay.strain_max = m
    E.eq("peak stress is modulus times peak strain", lay.stress_shear_max, G(e) * m)
    E.reach()


@unit("C03", "soil-density", ["site.SoilType.density", "site.SoilType.damping_min"])
def _dens(E):
    site = E.mod("site")
    uw = E.real("uw", 0)
    st = site.SoilType("s", uw, None, curve(E, "damping", "dp"))
    E.eq("density is unit weight over gravity", st.density * num(9.80665), uw)
    E.eq("minimum damping is the smallest-strain value of the curve", st.damping_min, fn("dp_y", 0))
    E.reach()

@unit("C03", "error-with-a-zero", ["site.IterativeValue.relative_error"])
def _some_zero(E):
    """damping that is zero at some frequency: unchanged, or the change is not finite"""
    nf = E.int("nf", 1)
    p, q = E.arr("p", nf), E.arr("q", nf)
    z, j = E.index("z", nf), E.index("j", nf)
    E.assume(E.all(nf, lambda i: AND(LE(0, E.at(p, i)), LE(0, E.at(q, i)))), EQ(E.at(q, z), 0))
    v = E.mod("site").IterativeValue(p)
    v.value = q
    err = v.relative_error
    if str(term_of(err)) == "+inf()":
        E.prove("something changed", E.some(nf, lambda i: NOT(EQ(E.at(p, i), E.at(q, i)))))
    else:
        E.eq("no error", err, 0)
        E.prove("no change beyond the rounding of numpy's isclose", LE(abs(E.at(p, j) - E.at(q, j)), num(1e-8) + num(1e-5) * E.at(p, j)))
    E.reach()

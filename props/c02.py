"""C02  transfer functions are exact ratios of the computed wave field"""
from props.lib import *

FIELDS = ("outcrop", "within", "incoming_only")


def wave(f, A, B, K, z):
    """wave field of the layered-medium solution at depth z in a layer"""
    up, dn = A * exp(J * K * z), B * exp(-(J * K * z))
    return {"outcrop": 2 * up, "within": up + dn, "incoming_only": up}[f]


class Motion:
    def __init__(self, w):
        self.angular_freqs = w


def setup(E, n, nf, kind="linear"):
    """a calculator after a run: waves are arbitrary (C01 states what they are)"""
    prop = E.mod("propagation")
    curve_contract(E)
    A, B, K = (E.arr(x, n, nf, sort="C") for x in ("A", "B", "K"))
    w = E.arr("w", nf)
    for q in ("propagation._calc_waves_numba", "propagation._calc_waves_python"):
        E.stub(q, lambda ws, vs, G, th: (A, B, K))
    pr = profile(E, n, kind)
    calc = prop.LinearElasticCalculator()
    E.I.call(calc, [Motion(w), pr, None], {})
    return calc, pr, (lambda i, j: (E.at(A, i, j), E.at(B, i, j), E.at(K, i, j))), w


def place(E, pr, n, tag, field):
    i = E.index("i" + tag, n)
    z = E.real("z" + tag, 0, strict=False)
    lay = pr[i]
    E.assume(LE(z, lay.thickness))
    return E.mod("site").Location(i, lay, field, z), i, z


# ---------------------------------------------------------------- wave field at a location
def _at(impl, field):
    def u(E):
        nf = E.int("nf", 1)
        A, B, K = (E.arr(x, nf, sort="C") for x in ("A", "B", "K"))
        z = E.real("z", 0, strict=False)
        r = getattr(E.mod("propagation"), impl)(K, z, A, B, E.mod("motion").WaveField[field].value)
        j = E.index("j", nf)
        E.eq("one value per frequency", r.shape[0], nf)
        E.eq("wave field " + field, E.at(r, j), wave(field, E.at(A, j), E.at(B, j), E.at(K, j), z))
        E.reach()
    return u


# ---------------------------------------------------------------- strain transfer function
def _strain(impl, field):
    def u(E):
        nf = E.int("nf", 1)
        A, B, K, a, b, k = (E.arr(x, nf, sort="C") for x in ("A", "B", "K", "a", "b", "k"))
        w = E.arr("w", nf)
        zo, zi, g = E.real("zo", 0, strict=False), E.real("zi", 0, strict=False), E.real("g", 0)
        j = E.index("j", nf)
        win = wave(field, E.at(a, j), E.at(b, j), E.at(k, j), zi)
        wj = E.at(w, j)
        E.assume(OR(EQ(wj, 0), AND(tm.lt(tm.const(1e-8), tm.abs_(T(wj))), tm.ne(T(win), tm.RZERO))))
        r = getattr(E.mod("propagation"), impl)(K, A, B, zo, w, k, a, b, zi, E.mod("motion").WaveField[field].value, g)
        up, dn = E.at(A, j) * exp(J * E.at(K, j) * zo), E.at(B, j) * exp(-(J * E.at(K, j) * zo))
        grad = J * E.at(K, j) * (up - dn)          # d/dz of the within displacement
        E.prove("zero at zero frequency", IMP(EQ(wj, 0), EQ(E.at(r, j), 0)))
        E.prove("strain transfer function", IMP(tm.ne(T(wj), tm.RZERO), EQ(E.at(r, j) * (-(wj * wj)) * win, g * grad)))
        E.reach()
    return u


for _t, _tag in (("python", "python"), ("numba", "compiled")):
    for _f in FIELDS:
        _n = "_wave_at_location_" + _t
        unit("C02", "wave-%s-%s" % (_f, _tag), ["propagation." + _n])(_at(_n, _f))
        _n = "_calc_strain_tf_" + _t
        unit("C02", "strain-%s-%s" % (_f, _tag), ["propagation." + _n])(_strain(_n, _f))


# ---------------------------------------------------------------- calculator methods
def _accel(fi, fo):
    def u(E):
        n, nf = E.int("n", 1), E.int("nf", 1)
        calc, pr, W, w = setup(E, n, nf)
        lin, i, zi = place(E, pr, n, "in", fi)
        lout, o, zo = place(E, pr, n, "out", fo)
        j = E.index("j", nf)
        den, nu = wave(fi, *W(i, j), zi), wave(fo, *W(o, j), zo)
        E.assume(tm.ne(T(den), tm.RZERO))
        tf = calc.calc_accel_tf(lin, lout)
        E.eq("acceleration transfer function is the ratio of wave fields", E.at(tf, j) * den, nu)
        E.eq("wave at location", E.at(calc.wave_at_location(lout), j), nu)
        E.reach()
    return u


for _a in FIELDS:
    for _b in FIELDS:
        unit("C02", "accel-%s-to-%s" % (_a, _b), ["propagation.LinearElasticCalculator.calc_accel_tf", "propagation.LinearElasticCalculator.wave_at_location"])(_accel(_a, _b))


@unit("C02", "accel-self-and-chain", ["propagation.LinearElasticCalculator.calc_accel_tf"])
def _chain(E):
    """wave_at_location is any function of the location (its contract is above)"""
    n, nf = E.int("n", 1), E.int("nf", 1)
    calc, pr, W, w = setup(E, n, nf)
    j = E.index("j", nf)
    la, lb, lc = (place(E, pr, n, x, "within")[0] for x in "abc")
    lb = E.mod("site").Location(lb.index, lb.layer, "outcrop", lb.depth_within)
    E.assume(*[tm.ne(T(E.at(calc.wave_at_location(q), j)), tm.RZERO) for q in (la, lb, lc)])
    f = lambda p, q: E.at(calc.calc_accel_tf(p, q), j)      # noqa: E731
    E.eq("one from a location to itself", f(la, la), 1)
    E.eq("chains through an intermediate location", f(la, lb) * f(lb, lc), f(la, lc))
    E.reach()


def _strain_m(field, kind):
    def u(E):
        n, nf = E.int("n", 1), E.int("nf", 1)
        calc, pr, W, w = setup(E, n, nf, kind)
        lin, i, zi = place(E, pr, n, "in", field)
        lout, o, zo = place(E, pr, n, "out", "within")
        j = E.index("j", nf)
        wj = E.at(w, j)
        win = wave(field, *W(i, j), zi)
        E.assume(OR(EQ(wj, 0), AND(tm.lt(tm.const(1e-8), tm.abs_(T(wj))), tm.ne(T(win), tm.RZERO))))
        A, B, K = W(o, j)
        grad = J * K * (A * exp(J * K * zo) - B * exp(-(J * K * zo)))
        e = E.at(calc.calc_strain_tf(lin, lout), j)
        g = num(9.80665)
        E.prove("zero strain at zero frequency", IMP(EQ(wj, 0), EQ(e, 0)))
        E.prove("strain is gravity times displacement gradient over acceleration",
                IMP(tm.ne(T(wj), tm.RZERO), EQ(e * (-(wj * wj)) * win, g * grad)))
        E.eq("damped stress uses the complex modulus of the output layer", E.at(calc.calc_stress_tf(lin, lout, True), j), e * lout.layer.comp_shear_mod)
        E.eq("undamped stress uses the modulus of the output layer", E.at(calc.calc_stress_tf(lin, lout, False), j), e * lout.layer.shear_mod)
        E.eq("strain transfer function is not changed by the stress", E.at(calc.calc_strain_tf(lin, lout), j), e)
        E.reach()
    return u


for _f in FIELDS:
    unit("C02", "strain-stress-" + _f, ["propagation.LinearElasticCalculator.calc_strain_tf", "propagation.LinearElasticCalculator.calc_stress_tf"])(
        _strain_m(_f, "linear"))
unit("C02", "strain-stress-nonlinear", ["propagation.LinearElasticCalculator.calc_strain_tf"])(_strain_m("outcrop", "nonlinear"))


@unit("C02", "strain-needs-within", ["propagation.LinearElasticCalculator.calc_strain_tf"])
def _within(E):
    n, nf = E.int("n", 1), E.int("nf", 1)
    calc, pr, W, w = setup(E, n, nf)
    lin = place(E, pr, n, "in", "outcrop")[0]
    for f in ("outcrop", "incoming_only"):
        lout = place(E, pr, n, "o" + f, f)[0]
        E.raises(lambda: calc.calc_strain_tf(lin, lout), "strain outside of within motion is rejected (%s)" % f, AssertionError)
    E.reach()


@unit("C02", "gravity", [])
def _grav(E):
    E.eq("gravity in the transfer function", num(E.mod("propagation").GRAVITY), num(9.80665))

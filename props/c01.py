"""C01  waves solve the layered-medium equations"""
from props.lib import *


def _inputs(E):
    n, nf = E.int("n", 1), E.int("nf", 1)
    vs, G = E.arr("vs", n, nf, sort="C"), E.arr("G", n, nf, sort="C")
    th, w = E.arr("h", n), E.arr("w", nf)
    E.assume(E.all(n, lambda a: E.all(nf, lambda b: AND(tm.ne(T(E.at(vs, a, b)), tm.RZERO), tm.ne(T(E.at(G, a, b)), tm.RZERO)))))
    return n, nf, w, vs, G, th


def _interface(impl):
    def u(E):
        n, nf, w, vs, G, th = _inputs(E)
        a, b, k = getattr(E.mod("propagation"), impl)(w, vs, G, th)
        j = E.index("j", nf)
        E.assume(tm.lt(tm.const(1e-8), tm.abs_(T(E.at(w, j)))))
        i = E.index("i", n - 1)
        A, B, K, M = (lambda q: E.at(a, q, j)), (lambda q: E.at(b, q, j)), (lambda q: E.at(k, q, j)), (lambda q: E.at(G, q, j))
        # facts used below: wave numbers at both sides are nonzero
        E.prove("wave number nonzero below", tm.ne(T(K(i + 1)), tm.RZERO))
        E.assume(tm.ne(T(K(i + 1)), tm.RZERO), tm.ne(T(M(i + 1)), tm.RZERO))
        ct = J * K(i) * E.at(th, i)
        up, dn = A(i) * exp(ct), B(i) * exp(-ct)
        E.eq("displacement continuous across interface", A(i + 1) + B(i + 1), up + dn)
        E.eq("shear stress continuous across interface", K(i + 1) * M(i + 1) * (A(i + 1) - B(i + 1)), K(i) * M(i) * (up - dn))
        E.reach()
    return u


def _basic(impl):
    def u(E):
        n, nf, w, vs, G, th = _inputs(E)
        a, b, k = getattr(E.mod("propagation"), impl)(w, vs, G, th)
        i, j = E.index("i", n), E.index("j", nf)
        E.eq("wave number is angular frequency over complex velocity", E.at(k, i, j) * E.at(vs, i, j), E.at(w, j))
        E.eq("unit up-going wave at the surface", E.at(a, 0, j), 1)
        E.eq("unit down-going wave at the surface", E.at(b, 0, j), 1)
        E.reach()
    return u


def _zero(impl):
    def u(E):
        n, nf, w, vs, G, th = _inputs(E)
        j = E.index("j", nf)
        E.assume(EQ(E.at(w, j), 0))
        i = E.index("i", n)
        a, b, k = getattr(E.mod("propagation"), impl)(w, vs, G, th)
        E.eq("uniform up-going wave at zero frequency", E.at(a, i, j), 1)
        E.eq("uniform down-going wave at zero frequency", E.at(b, i, j), 1)
        E.reach()
    return u


for _impl, _tag in (("_calc_waves_python", "python"), ("_calc_waves_numba", "compiled")):
    _f = ["propagation." + _impl]
    unit("C01", "interface-" + _tag, _f, timeout=280)(_interface(_impl))
    unit("C01", "surface-" + _tag, _f, timeout=280)(_basic(_impl))
    unit("C01", "zero-frequency-" + _tag, _f, timeout=480)(_zero(_impl))


def _broadcast(kind, again=False):
    def u(E):
        """each layer's complex velocity and modulus reach the recurrence, layer by
        layer (again: whatever profile and frequencies the calculator had before)"""
        n, nf = E.int("n", 1), E.int("nf", 1)
        prop = E.mod("propagation")
        pr = profile(E, n, kind)
        w = E.arr("w", nf)
        seen = {}

        def waves(ws, vs, G, th):
            seen.update(w=ws, vs=vs, G=G, th=th)
            return E.arr("A", n, nf, sort="C"), E.arr("B", n, nf, sort="C"), E.arr("K", n, nf, sort="C")
        for q in ("propagation._calc_waves_numba", "propagation._calc_waves_python"):
            E.stub(q, waves)
        calc = prop.LinearElasticCalculator()
        if again:
            calc._calc_waves(E.arr("w_old", nf), profile(E, n, kind, p="o"))
        calc._calc_waves(w, pr)
        i, j = E.index("i", n), E.index("j", nf)
        E.eq("complex velocity of each layer", E.at(seen["vs"], i, j), pr[i].comp_shear_vel)
        E.eq("complex modulus of each layer", E.at(seen["G"], i, j), pr[i].comp_shear_mod)
        E.eq("thickness of each layer", E.at(seen["th"], i), pr[i].thickness)
        E.eq("angular frequencies", E.at(seen["w"], j), E.at(w, j))
        E.eq("results kept: up-going", E.at(calc._waves_a, i, j), fn("A", i, j, sort="C"))
        E.eq("results kept: down-going", E.at(calc._waves_b, i, j), fn("B", i, j, sort="C"))
        E.eq("results kept: wave numbers", E.at(calc._wave_nums, i, j), fn("K", i, j, sort="C"))
        E.reach()
    return u


for _k in ("linear", "nonlinear"):
    unit("C01", "properties-of-layers-" + _k, ["propagation.LinearElasticCalculator._calc_waves"], timeout=200)(_broadcast(_k))
    unit("C01", "calculator-used-before-" + _k, ["propagation.LinearElasticCalculator._calc_waves"], timeout=200)(_broadcast(_k, True))

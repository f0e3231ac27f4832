"""C05  complex modulus encodes stiffness, damping and density"""
from props.lib import *

_F = ["site.Layer.comp_shear_mod", "site.Layer.comp_shear_vel", "site.Layer.shear_vel"]


def _layer(E, state):
    """a layer in any reachable state: initial, or after a strain was assigned
    (scalar, or one value per frequency), with soil curves that are arbitrary
    functions; modulus reduction is positive"""
    curve_contract(E)
    kind = "linear" if state in ("initial", "linear") else "nonlinear"
    lay = layer(E, 0, kind)
    E.assume(LT(0, fn("uw", 0)), LT(0, fn("vs", 0)), LT(0, fn("th", 0)), LE(0, fn("dm", 0)))
    nf, j = None, None
    if state == "per-frequency":
        nf = E.int("nf", 1)
        e = E.arr("e", nf)
        lay.strain = e
        j = E.index("j", nf)
        x = E.at(e, j)
    elif state != "initial":
        x = E.real("e")
        lay.strain = x
    if kind == "nonlinear":
        E.assume(LT(0, wrap(tm.app("mr", (tm.ZERO, T(x)), "R"))))
    return lay, j


def _spec(state, model):
    def u(E):
        E.mod("site").COMP_MODULUS_MODEL = model
        lay, j = _layer(E, state)
        at = (lambda v: E.at(v, j)) if j is not None else (lambda v: v)
        G, D, M, V = at(lay.shear_mod), at(lay.damping), at(lay.comp_shear_mod), at(lay.comp_shear_vel)
        d = ITE(LT(D, 0), 0, ITE(LT(num(0.49), D), num(0.49), D))
        E.prove("modulus positive", LT(0, G))
        E.eq("imaginary part is twice modulus times clipped damping", M.imag, 2 * G * d)
        re = {"seed": G, "kramer": G * (1 - d * d), "dormieux": G * sqrt(1 - 4 * d * d)}[model]
        E.eq("real part of the %s formulation" % model, M.real, re)
        if model == "dormieux":
            E.eq("magnitude equals the shear modulus", M.real * M.real + M.imag * M.imag, G * G)
        E.eq("complex velocity squared times density is the complex modulus", V * V * lay.density, M)
        E.prove("complex velocity on the branch with non-negative real part", LE(0, V.real))
        W = at(lay.shear_vel)
        E.eq("velocity squared times density is the shear modulus", W * W * lay.density, G)
        E.prove("velocity non-negative", LE(0, W))
        E.reach()
    return u


for _m in ("dormieux", "seed", "kramer"):
    for _s in ("initial", "scalar", "per-frequency", "linear"):
        unit("C05", "%s-%s" % (_m, _s), _F, timeout=120)(_spec(_s, _m))


@unit("C05", "unknown-model", ["site.Layer.comp_shear_mod"])
def _unknown(E):
    E.mod("site").COMP_MODULUS_MODEL = "other"
    lay, _ = _layer(E, "scalar")
    E.raises(lambda: lay.comp_shear_mod, "unknown formulation is rejected", NotImplementedError)
    E.reach()


@unit("C05", "default-model", [])
def _default(E):
    E.prove("default formulation is the one whose magnitude is the modulus", EQ(int(E.mod("site").COMP_MODULUS_MODEL == "dormieux"), 1))

from props.rlib import *


@group("C05", "complex modulus", 120)
def cm(h):
    l = layers(h, 1, halfspace=False)[0]
    model = h.rng.choice(["dormieux", "dormieux", "seed", "kramer"])
    st = h.rng.choice(["initial", "scalar", "array", "high damping", "negative damping"])
    if st == "scalar":
        l.strain = lu(h, 1e-6, 0.05)
    elif st == "array":
        l.strain = np.array([lu(h, 1e-6, 0.05) for _ in range(4)])
    elif st == "high damping":
        l.damping_min = u(h, 0.4, 0.9)
    elif st == "negative damping":          # an unphysical input is held at zero
        l.damping_min = u(h, -0.3, -0.001)
    h.note(layer=desc([l]), model=model, state=st, strain=l.strain)
    h.check(site.COMP_MODULUS_MODEL == "dormieux", "default model")
    old = site.COMP_MODULUS_MODEL
    site.COMP_MODULUS_MODEL = model
    try:
        G, d, M, V = l.shear_mod, np.clip(l.damping, 0, 0.49), l.comp_shear_mod, l.comp_shear_vel
    finally:
        site.COMP_MODULUS_MODEL = old
    h.close(np.imag(M), 2 * G * d, "imaginary part")
    h.close(np.real(M), {"seed": G, "kramer": G * (1 - d ** 2), "dormieux": G * np.sqrt(1 - 4 * d ** 2)}[model] + 0 * d, "real part")
    if model == "dormieux":
        h.close(np.abs(M), G + 0 * d, "magnitude")
    h.close(V ** 2 * l.density, M, "complex velocity")
    h.check(np.all(np.real(V) >= 0), "branch")
    h.close(np.asarray(l.shear_vel) ** 2 * l.density, G, "velocity")

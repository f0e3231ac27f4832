from props.rlib import *


def props_of(l):
    st = l.soil_type
    G0 = st.unit_wt / G0_ * l.initial_shear_vel ** 2
    return st, G0


G0_ = 9.80665


def expect(l, e):
    st = l.soil_type
    G = st.unit_wt / G0_ * l.initial_shear_vel ** 2
    mr = st.mod_reduc(e) if st.mod_reduc is not None else 1.0
    if callable(st.damping):
        D = np.asarray(st.damping(e)) - st.damping.values[0] + l.damping_min
    else:
        D = l.damping_min
    return G * mr, D


@group("C03", "history", 150)
def hist(h):
    l = layers(h, 1, halfspace=False)[0]
    p = site.Profile([l, site.Layer(site.SoilType("r", 22, None, 0.01), 0, 1000)])
    h.note(layer=desc([l]))
    ops = []
    prev = None
    for _ in range(h.rng.randint(1, 7)):
        op = h.rng.choice(["strain", "strain", "strain", "array", "reset", "vel", "dmin"])
        before = (l.shear_mod, l.damping)
        if op == "strain":
            e = lu(h, 1e-7, 0.1)
        elif op == "array":
            e = np.array([lu(h, 1e-7, 0.1) for _ in range(3)])
        if op in ("strain", "array"):
            l.strain = e
            G, D = expect(l, e)
            h.close(l.strain, e, "strain")
            h.close(l.shear_mod, G, "modulus", detail=str(ops))
            h.close(l.damping, D, "damping", detail=str(ops), rtol=1e-9)
            if np.all(np.asarray(l.damping) > 0) and np.shape(before[0]) in ((), np.shape(l.shear_mod)):
                err = max(np.max(100 * np.abs(np.asarray(before[k]) - now) / now) for k, now in ((0, l.shear_mod), (1, l.damping)))
                h.close(l.max_error, err, "error", detail=str(ops), rtol=1e-6, atol=1e-9)
            h.close(l.shear_mod_reduc, G / expect(l, 0.0)[0] if l.soil_type.mod_reduc is None else l.shear_mod / l.initial_shear_mod, "reduction")
            h.close(l.stress_shear_eff, l.shear_mod * e, "stress")
        else:
            if op == "reset":
                l.reset()
            elif op == "vel":
                l.initial_shear_vel = v = lu(h, 80, 3000)
                h.check(l.initial_shear_vel == v, "velocity kept")
            else:
                l.damping_min = d = u(h, 0.001, 0.08)
                h.check(l.damping_min == d, "damping kept")
            h.close(l.shear_mod, l.soil_type.unit_wt / G0_ * l.initial_shear_vel ** 2, "restored modulus", detail=op)
            h.close(l.damping, l.damping_min, "restored damping", detail=op)
            h.check(l.strain_max is None, "no peak strain")
        ops.append(op)
    h.note(ops=ops)


@group("C03", "error per frequency", 60)
def err(h):
    n = h.rng.randint(1, 5)
    a, b = (np.array([h.rng.choice([0.0, u(h, 1e-3, 1), u(h, 1e-3, 1)]) for _ in range(n)]) for _ in range(2))
    if h.rng.random() < 0.2:
        b = a.copy()
    h.note(before=a.tolist(), now=b.tolist())
    v = site.IterativeValue(a)
    v.value = b
    e = v.relative_error
    h.check(not np.isnan(e), "error is a number")
    if np.all(b > 0):
        h.close(e, 100 * np.max(np.abs(a - b) / b), "largest relative change", rtol=1e-9)
    else:
        h.check(e == (0 if np.array_equal(a, b) else np.inf), "error with a zero", detail=str(e))

from props.rlib import *


def verify(h, p, what):
    d = s = 0
    for i, y in enumerate(p):
        h.close(y.depth, d, what + " depth of %d" % i, rtol=1e-9)
        h.close(y.stress_vert(), s, what + " stress of %d" % i, rtol=1e-9)
        h.check(y._profile is p, what + " owner")
        h.check(p.index(y) == i, what + " position of %d" % i)
        x = u(h, 0, y.thickness)
        z = d + x
        tot = s + x * y.unit_wt
        pw = G0 * max(z - p.wt_depth, 0)
        k0 = u(h, 0.2, 2)
        h.close(y.stress_vert(x), tot, what + " total", rtol=1e-9)
        h.close(y.stress_vert(x, True), tot - pw, what + " effective", rtol=1e-9, atol=1e-7)
        h.close(y.stress_mean(x, True, k0), (1 + 2 * k0) / 3 * (tot - pw), what + " mean effective", rtol=1e-9, atol=1e-7)
        h.close(y.stress_mean(x, False, k0), (1 + 2 * k0) / 3 * tot, what + " mean", rtol=1e-9)
        d += y.thickness
        s += y.thickness * y.unit_wt


@group("C10", "edits", 200)
def go(h):
    p = profile(h, dup=0.6, kinds=["linear", "table"])
    h.note(layers=desc(p), wt=p.wt_depth)
    if len(p) > 1 and h.rng.random() < 0.3:
        # layers that had other places in another profile
        p = site.Profile(list(p)[1:], p.wt_depth)
    verify(h, p, "built")
    ops = []
    for _ in range(h.rng.randint(1, 5)):
        o = h.rng.choice(["append", "insert", "thickness", "thickness"])
        new = layers(h, 1, ["linear"], halfspace=False)[0]
        if h.rng.random() < 0.4:
            q = h.rng.choice(p.layers)
            new = site.Layer(q.soil_type, q.thickness, q.initial_shear_vel)
        if o == "append":
            ops.append("append")
            p.append(new)
        elif o == "insert":
            i = h.rng.randint(0, len(p)) if h.rng.random() < 0.7 else h.rng.randint(-len(p) - 2, len(p) + 2)
            ops.append("insert %d" % i)
            p.insert(i, new)
        else:
            i = h.rng.randrange(len(p))
            t = lu(h, 0.5, 30)
            ops.append("thickness %d" % i)
            p[i].thickness = t
            h.close(p[i].thickness, t, "new thickness")
        h.note(ops=ops)
        verify(h, p, str(ops))

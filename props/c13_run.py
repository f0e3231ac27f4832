from props.rlib import *
from props.c14_run import snap


@group("C13", "discretise", 250)
def go(h):
    n = h.rng.choice([1, 2, 3, 6])
    p = profile(h, n=n + 1, kinds=["table", "linear", "halves"][: h.rng.choice([1, 2, 2])], thick=(0.5, 60), dup=0.3)
    for y in p:
        y.soil_type.name = "s%d" % id(y.soil_type)
    run = h.rng.random() < 0.5
    if run:
        for y in p[:-1]:
            y.strain = lu(h, 1e-6, 1e-2)
    mf, wf = lu(h, 2, 100), h.rng.choice([0.2, 1 / 3, 0.25, 1.0])
    if h.rng.random() < 0.3:        # an exact multiple of the limit
        y = h.rng.choice(p[:-1])
        mf, wf = 50.0, 0.25
        y.initial_shear_vel = 200.0
        y._thickness = float(h.rng.randrange(1, 9))
        p.update_layers()
    plain = h.rng.random() < 0.15
    if plain:
        mf, wf = 50.0, 0.2
    mode = h.rng.random() < 0.6
    kw = {"nonlinear_only": mode} if h.rng.random() < 0.7 else {}
    mode = kw.get("nonlinear_only", True)
    h.note(layers=desc(p), max_freq=mf, wave_frac=wf, options=kw, after_run=run, nonlinear=[bool(y.soil_type.is_nonlinear) for y in p])
    s = snap(p)
    q = p.auto_discretize(**kw) if plain else p.auto_discretize(mf, wf, **kw)
    h.check(snap(p) == s, "original untouched")
    h.check(q is not p and not any(a is b for a in q for b in p), "layers of its own")
    h.close(q.wt_depth, p.wt_depth, "water table")
    i = 0
    for y in p[:-1]:
        opt = y.initial_shear_vel / mf * wf
        sel = not mode or y.soil_type.is_nonlinear
        ratio = y.thickness / opt
        c = max(1, int(np.ceil(ratio * (1 - 1e-12)))) if sel else 1
        block, i = q[i:i + c], i + c
        near = abs(ratio - round(ratio)) < 1e-9 * ratio and ratio != round(ratio)
        if sel and near:
            raise Skip()
        h.check(len(block) == c and all(b.soil_type is y.soil_type for b in block), "block of the layer")
        h.close([b.thickness for b in block], [y.thickness / c] * c, "equal parts", rtol=1e-12)
        for b in block:
            h.check(b.initial_shear_vel == y.initial_shear_vel and b.damping_min == y.damping_min, "velocity and damping")
            h.check(not sel or b.thickness <= opt * (1 + 1e-12), "no thicker than the limit")
            h.close(b.shear_vel, b.initial_shear_vel, "undisturbed", rtol=1e-12)
            h.check(b._profile is q, "owner")
    h.check(len(q) == i + 1, "number of layers")
    h.check(q[-1].soil_type is p[-1].soil_type and q[-1].initial_shear_vel == p[-1].initial_shear_vel
            and q[-1].damping_min == p[-1].damping_min, "half-space")
    h.close(q[-1].depth, p[-1].depth, "depth to the half-space", rtol=1e-9)
    d = np.cumsum([0] + [y.thickness for y in q[:-1]])
    h.close([y.depth for y in q], d, "depths", rtol=1e-9, atol=1e-9)
    h.close(sum(y.travel_time for y in q[:-1]), sum(y.thickness / y.initial_shear_vel for y in p[:-1]), "travel time", rtol=1e-9)

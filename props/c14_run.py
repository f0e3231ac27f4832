import copy
import scipy.stats
from props.rlib import *


def snap(o, seen=None, path="p"):
    """every number, text and object identity reachable from o"""
    seen = {} if seen is None else seen
    if isinstance(o, np.ndarray):
        return [(path, o.shape, o.tobytes())]
    if isinstance(o, (int, float, complex, str, bool, type(None), np.generic)):
        return [(path, repr(o))]
    if id(o) in seen:
        return [(path, "->", seen[id(o)])]
    seen[id(o)] = path
    if isinstance(o, (list, tuple)):
        return [(path, "len", len(o))] + [t for i, x in enumerate(o) for t in snap(x, seen, "%s[%d]" % (path, i))]
    if type(o).__module__.startswith("pystrata"):
        return [(path, id(o), type(o).__name__)] + [t for k in sorted(vars(o)) for t in snap(vars(o)[k], seen, path + "." + k)]
    return []


def nonlin(h):
    p = profile(h, n=h.rng.choice([3, 4, 6]), kinds=["table", "linear"], thick=(2, 20), dup=0.3)
    for i, y in enumerate(p):
        y.soil_type.name = "soil%d" % id(y.soil_type)
    if h.rng.random() < 0.5:
        for y in p[:-1]:
            y.strain = lu(h, 1e-6, 1e-2)
    return p


def variations(h, p):
    vt = variation.ToroThicknessVariation()
    vv = variation.ToroVelocityVariation.generic_model(h.rng.choice(["USGS A", "USGS C", "Geomatrix AB"]), vary_bedrock=h.rng.random() < 0.5)
    vd = variation.DepthDependToroVelVariation.generic_model("USGS C")
    vs = h.rng.choice([variation.DarendeliVariation, variation.SpidVariation])(-0.5)
    vh = variation.HalfSpaceDepthVariation(scipy.stats.uniform(0.3 * p[-1].depth, 1.2 * p[-1].depth))
    return {"thickness": vt, "velocity": vv, "depth dependent velocity": vd, "curves": vs.vary_profile, "half-space": vh}


@group("C14", "original untouched", 60)
def go(h):
    p = nonlin(h)
    h.note(layers=desc(p))
    s = snap(p)
    np.random.seed(h.rng.randrange(2 ** 31))
    V = variations(h, p)
    for nm in V:
        q = V[nm](p)
        h.check(snap(p) == s, "original after " + nm)
        h.check(q is not p and not any(a is b for a in q for b in p), "own layers after " + nm)
        h.close(q.wt_depth, p.wt_depth, "water table after " + nm)
        for y in q:
            y.strain = 1e-3
            y.initial_shear_vel = 123.0
        h.check(snap(p) == s, "original after editing the result of " + nm)
    q = p.copy()
    for a, b in zip(p, q):
        h.check(a.soil_type is b.soil_type, "copy keeps the soil type")
        h.close([b.thickness, b.initial_shear_vel, b.damping_min], [a.thickness, a.initial_shear_vel, a.damping_min], "copy")
    h.check(len(p) == len(q) and snap(p) == s, "copy leaves the original")
    qs = p.auto_discretize()
    h.check(snap(p) == s and not any(a is b for a in qs for b in p), "original after discretizing")


@group("C14", "sampling from the original", 25)
def many(h):
    p = nonlin(h)
    h.note(layers=desc(p))
    s = snap(p)
    V = variations(h, p)
    seed = h.rng.randrange(2 ** 31)
    use_t = h.rng.random() < 0.5
    np.random.seed(seed)
    sv = variation.DarendeliVariation(-0.5)
    out = []
    for q in variation.iter_varied_profiles(p, 4, var_thickness=V["thickness"] if use_t else None, var_velocity=V["velocity"], var_soiltypes=sv):
        h.check(snap(p) == s, "original during sampling")
        out.append([(y.thickness, y.initial_shear_vel, float(y.damping_min)) for y in q])
        m = ts_motion(h, 256, 0.01, 0.2)
        propagation.EquivalentLinearCalculator(max_iterations=4)(m, q.auto_discretize(), q.auto_discretize().location("outcrop", index=-1))
        for y in q:
            y.strain, y.initial_shear_vel = 1e-2, 5.0
    np.random.seed(seed)
    for k, want in enumerate(out):
        q = p.copy()
        if use_t:
            q = V["thickness"](q)
        q = V["velocity"](q)
        q = sv.vary_profile(q)
        h.close(np.array([(y.thickness, y.initial_shear_vel, float(y.damping_min)) for y in q]), np.array(want), "draw %d from the original" % (k + 1), rtol=1e-12)


@group("C14", "carried over", 60)
def carried(h):
    p = nonlin(h)
    h.note(layers=desc(p))
    np.random.seed(h.rng.randrange(2 ** 31))
    bed = h.rng.random() < 0.5
    key = lambda y: (y.soil_type.name, float(y.soil_type.unit_wt), float(y.initial_shear_vel), float(y.damping_min))  # noqa: E731

    def same(q, nm, attrs, rows):
        h.close(q.wt_depth, p.wt_depth, "water table after " + nm)
        if h.check(len(q) == len(p), "number of layers after " + nm):
            for k in rows:
                for a in attrs:
                    h.close(getattr(q[k], a), getattr(p[k], a), "%s of layer %d after %s" % (a, k, nm))
    every = range(len(p))
    q = variation.ToroVelocityVariation.generic_model("USGS C", vary_bedrock=bed)(p)
    same(q, "velocity", ["thickness", "damping_min", "depth", "unit_wt"], every)
    h.check(all(a.soil_type is b.soil_type for a, b in zip(p, q)), "soil types after velocity")
    if not bed:
        h.close(q[-1].initial_shear_vel, p[-1].initial_shear_vel, "velocity of a bedrock that is not varied")
    V = variation.DarendeliVariation(-0.5, vary_bedrock=bed) if h.rng.random() < 0.7 else variation.SpidVariation(-0.5)
    bed = V.vary_bedrock
    q = V.vary_profile(p)
    same(q, "curves", ["thickness", "initial_shear_vel", "damping_min", "depth", "unit_wt"], every)
    if not bed:
        h.check(q[-1].soil_type is p[-1].soil_type, "soil type of a bedrock that is not varied")
    q = p.copy()
    same(q, "copying", ["thickness", "initial_shear_vel", "damping_min", "depth", "unit_wt"], every)
    q = variation.ToroThicknessVariation()(p)
    h.close(q.wt_depth, p.wt_depth, "water table after thickness")
    h.check(all(key(y) in {key(x) for x in p[:-1]} for y in q[:-1]) and key(q[-1]) == key(p[-1]), "properties of the layers after thickness")
    z = u(h, 0.3 * p[-1].depth, 1.2 * p[-1].depth)
    q = variation.HalfSpaceDepthVariation(scipy.stats.uniform(z, 1e-12))(p)
    h.close(q.wt_depth, p.wt_depth, "water table after half-space")
    h.check([key(y) for y in q[:-1]] == [key(p[min(k, len(p) - 2)]) for k in range(len(q) - 1)] and key(q[-1]) == key(p[-1]), "properties of the layers after half-space")

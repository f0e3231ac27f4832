from props.rlib import *


class Fixed:
    """a distribution with one value"""
    def __init__(self, v):
        self.v = v

    def rvs(self, *a, **k):
        return self.v


def toro(h):
    if h.rng.random() < 0.3:
        return 10.86, -0.89, 1.98
    return lu(h, 0.5, 20), h.rng.uniform(-0.95, 0.3), lu(h, 1, 10)


@group("C16", "rate", 80)
def rate(h):
    """interfaces follow the inverse of the cumulative rate at the summed draws, and fill the depth"""
    c1, c2, c3 = toro(h)
    D = lu(h, 5, 400)
    v = variation.ToroThicknessVariation(*(() if (c1, c2, c3) == (10.86, -0.89, 1.98) else (c1, c2, c3)))
    h.note(c1=c1, c2=c2, c3=c3, depth=D)
    seed = h.rng.randrange(2 ** 31)
    np.random.seed(seed)
    R = []
    for x in v.iter_thickness(D):
        R.append(x)
        if len(R) > 20000:
            raise Skip()
    np.random.seed(seed)
    e = np.cumsum([np.random.exponential(1.0) for _ in R])
    # rate c3 (d + c1)^c2 integrated from the surface
    lam = lambda d: c3 * ((d + c1) ** (c2 + 1) - c1 ** (c2 + 1)) / (c2 + 1)      # noqa: E731
    t = np.array([x[0] for x in R])
    m = np.array([x[1] for x in R])
    z = np.cumsum(t)
    h.check(len(R) >= 1 and np.all(t > 0), "positive thicknesses")
    h.close(z[-1], D, "fills the depth", rtol=1e-9)
    h.close(m, z - t / 2, "mid depths", rtol=1e-7)
    # rates for (d + c1)/c3: the transformation of the documentation
    if len(R) > 1:
        want = (e[:-1] * (c2 + 1) / c3 + c1 ** (c2 + 1)) ** (1 / (c2 + 1)) - c1
        h.close(z[:-1], want, "interfaces follow the rate", rtol=1e-6)
        h.close(c3 * lam(z[:-1]) / c3, e[:-1], "integrated rate is the summed draws", rtol=1e-5)
    h.check(e[-1] >= lam(D) * (1 - 1e-9), "the last draw reaches the depth")


@group("C16", "layers", 120)
def layers(h):
    p = profile(h, n=h.rng.choice([2, 3, 5, 8]), kinds=["table", "linear"], thick=(1, 40), dup=0.2)
    h.note(layers=desc(p))
    np.random.seed(h.rng.randrange(2 ** 31))
    c1, c2, c3 = toro(h)
    q = variation.ToroThicknessVariation(c1, c2, c3)(p)
    edges = np.r_[0, np.cumsum([y.thickness for y in p[:-1]])]
    d = 0
    h.close(sum(y.thickness for y in q[:-1]), edges[-1], "depth to the half-space", rtol=1e-9)
    h.check(all(y.thickness > 0 for y in q[:-1]), "positive thicknesses")
    h.check(not any(a is b for a in q for b in p), "layers of its own")
    for y in q[:-1]:
        m = d + y.thickness / 2
        d += y.thickness
        if np.min(np.abs(edges - m)) < 1e-9 * edges[-1]:
            continue
        x = p[int(np.searchsorted(edges, m) - 1)]
        h.check(y.soil_type is x.soil_type, "soil type at mid depth")
        h.check(y.initial_shear_vel == x.initial_shear_vel, "velocity at mid depth")
        h.check(y.damping_min == x.damping_min, "minimum damping at mid depth")
    h.check(q[-1].soil_type is p[-1].soil_type and q[-1].initial_shear_vel == p[-1].initial_shear_vel, "half-space kept")
    h.check(q[-1].thickness == 0, "half-space thickness")
    h.close(q.wt_depth, p.wt_depth, "water table")


@group("C16", "half-space", 200)
def half(h):
    p = profile(h, n=h.rng.choice([2, 3, 5]), kinds=["table", "linear"], thick=(1, 40), dup=0.2)
    edges = np.r_[0, np.cumsum([y.thickness for y in p[:-1]])]
    where = h.rng.choice(["inside", "interface", "top", "deeper", "much deeper", "multiple", "bottom"])
    i = h.rng.randrange(len(p) - 1)
    last = p[-2].thickness
    z = {"inside": edges[i] + h.rng.uniform(0.01, 0.99) * p[i].thickness,
         "interface": p[i].depth if i else p[i].depth + p[i].thickness / 2, "top": 0.01 * p[0].thickness,
         "deeper": edges[-1] + h.rng.uniform(0.01, 0.99) * last,
         "much deeper": edges[-1] + h.rng.uniform(1, 30) * last,
         "multiple": edges[-1] + h.rng.randrange(1, 6) * last, "bottom": p[-1].depth}[where]
    z = float(z)
    h.note(layers=desc(p), where=where, depth=z)
    q = variation.HalfSpaceDepthVariation(Fixed(z))(p)
    h.close(q[-1].depth, z, "half-space top at the drawn depth", rtol=1e-9)
    h.check(q[-1].soil_type is p[-1].soil_type and q[-1].initial_shear_vel == p[-1].initial_shear_vel
            and q[-1].damping_min == p[-1].damping_min, "half-space kept")
    h.check(all(y.thickness >= 0 for y in q), "no negative thickness")
    h.close(q.wt_depth, p.wt_depth, "water table")
    d = 0
    for k, y in enumerate(q[:-1]):
        h.close(y.depth, d, "depths are summed thicknesses", rtol=1e-9, atol=1e-9)
        m = d + y.thickness / 2
        d += y.thickness
        if y.thickness <= 0 or np.min(np.abs(edges - m)) < 1e-9 * edges[-1]:
            continue
        x = p[int(min(np.searchsorted(edges, m) - 1, len(p) - 2))]
        h.check(y.soil_type is x.soil_type and y.initial_shear_vel == x.initial_shear_vel and y.damping_min == x.damping_min,
                "properties of the layer there")

from props.rlib import *


@group("C11", "locations", 300)
def go(h):
    p = profile(h, dup=0.6, kinds=["linear", "table"])
    tops = np.r_[0, np.cumsum([y.thickness for y in p])]
    n = len(p)
    z = h.rng.choice([0, 0.0, u(h, 0, tops[-1] * 1.3), float(h.rng.choice([y.depth for y in p])), tops[-1], 1e5])
    if h.rng.random() < 0.3:        # just beside an interface
        b = float(p[h.rng.randrange(n)].depth)
        z = h.rng.choice([float(np.nextafter(b, -1)) if b else 0.0, float(np.nextafter(b, 1e9)), b * (1 - 1e-7), b * (1 + 1e-7)])
    h.note(layers=desc(p), z=z)
    e = 0
    while e < n - 1 and not (p[e].depth <= z < p[e].depth_base):
        e += 1
    if e == n - 1 and z < p[e].depth:
        e = [k for k in range(n) if p[k].depth <= z][-1]
    i, w = p.lookup_depth(z)
    h.check(i == e, "layer index %s, expected %s" % (i, e))
    h.close(w, z - tops[e], "offset", rtol=1e-9, atol=1e-9)
    f = h.rng.choice(["outcrop", "within", "incoming_only"])
    l = p.location(f, depth=z)
    h.check(l.index == e and l.layer is p[e], "location by depth")
    h.check(l.wave_field is motion.WaveField[f], "wave field")
    h.close(l.depth_within, z - tops[e], "offset of the location", rtol=1e-9, atol=1e-9)
    k = h.rng.randrange(-n, n)
    l = p.location(f, index=k)
    h.check(l.index == k % n and l.layer is p[k], "location by index %d: %s" % (k, l.index))
    h.check(l.depth_within == 0 and l.wave_field is motion.WaveField[f], "location by index")
    l = site.Location(e, p[e], f, p[e].thickness / 2)
    h.close(l.stress_vert(effective=True), p[e].stress_vert(p[e].thickness / 2, True), "stress")

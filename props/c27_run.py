from scipy.stats import norm
from props.rlib import *


@group("C27", "published curves", len(site.known_published_curves()))
def go(h):
    ns = site.known_published_curves()
    n = ns[h.idx % len(ns)]
    d = site.PUBLISHED_CURVES[n]
    h.note(name=n)
    for p in ("mod_reduc", "damping"):
        if p in d:
            c = site.NonlinearCurve.from_published(n, p)
            h.close(c.strains, d[p]["strains"], "strains")
            h.close(c.values, d[p]["values"], "values")
            h.check(c.param == p, "kind")
            # the curve is returned usable: it passes through its own points
            h.close(c(np.asarray(d[p]["strains"], float)), np.clip(d[p]["values"], *c._limits), "through its points", rtol=1e-6)
            if p == "mod_reduc":
                for a, b, x in zip(d[p]["values"], d[p]["values"][1:], d[p]["strains"]):
                    h.check(b <= a, "%s: modulus reduction %g -> %g beyond strain %g" % (n, a, b, x), "increases")
                h.check(0 < min(d[p]["values"]) and max(d[p]["values"]) <= 1, "modulus reduction in (0,1]")
            else:
                h.check(0 <= min(d[p]["values"]) and max(d[p]["values"]) <= 0.49, "damping in [0,0.49]")
            h.check(d[p]["strains"][0] > 0 and all(b > a for a, b in zip(d[p]["strains"], d[p]["strains"][1:])) and len(d[p]["strains"]) == len(d[p]["values"]), "strains increase")
            c.values = np.asarray(c.values) * 0.5
            h.close(site.NonlinearCurve.from_published(n, p).values, d[p]["values"], "library not changed by its users")
    if "mod_reduc" in d and "damping" in d:
        s = site.SoilType.from_published("x", 18.0, n)
        h.close(s.mod_reduc.values, d["mod_reduc"]["values"], "soil modulus")
        h.close(s.damping.values, d["damping"]["values"], "soil damping")


@group("C27", "discretised normal", 9)
def mr(h):
    n = h.idx % 9 + 2
    nd = logic_tree.Node.from_miller_rice("e", n)
    v, w = np.array([a.value for a in nd.alts]), np.array([a.weight for a in nd.alts])
    h.note(n=n)
    h.close(w.sum(), 1, "weights", rtol=1e-5)
    h.close(v + v[::-1], np.ones(n), "symmetric", rtol=1e-5)
    # moments of the uniform fractiles: the points integrate polynomials of degree up to 2n-1 over the fractile
    for k in range(1, min(2 * n, 6)):
        h.close(np.sum(w * v ** k), 1 / (k + 1), "moment %d" % k, rtol=2e-1)

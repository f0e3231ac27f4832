import scipy.stats
from props.rlib import *
from props.c15 import TORO, PAR

NAMES = ["Clay A", "Sand", "Clay B", "Rock", "x"]


@group("C15", "velocity draws", 200)
def go(h):
    n = h.rng.choice([2, 3, 5, 9, 14])
    ls = [site.Layer(site.SoilType(h.rng.choice(NAMES), u(h, 14, 24), None, 0.02), lu(h, 0.5, 90), lu(h, 80, 3000), u(h, 0, 0.05)) for _ in range(n)]
    P = site.Profile(ls, 3.0)
    th = np.array([y.thickness for y in P])
    v0 = np.array([y.initial_shear_vel for y in P])
    mid = np.cumsum(th) - th / 2
    par = dict(zip(PAR, (u(h, 0.05, 0.6), u(h, 0, 1), lu(h, 2, 20), u(h, 0.3, 1), h.rng.choice([0.0, u(h, 0, 5)]), u(h, 0.05, 0.8))))
    bed = h.rng.random() < 0.5
    kind = h.rng.choice(["toro", "generic", "depth", "depth-generic"])
    cls = h.rng.choice(sorted(TORO))
    m = None
    if kind == "toro":
        V = variation.ToroVelocityVariation(vary_bedrock=bed, **par)
        sd = np.full(n, par["ln_std"])
    elif kind == "generic":
        par = dict(zip(PAR, TORO[cls]))
        V = variation.ToroVelocityVariation.generic_model(cls, vary_bedrock=bed)
        sd = np.full(n, par["ln_std"])
    else:
        z = np.cumsum([lu(h, 1, 40) for _ in range(h.rng.choice([1, 2, 4]))])
        s = np.array([u(h, 0.05, 0.5) for _ in z])
        m = h.rng.choice([None, {"Clay": 0.11}, {"Rock": 0.01, "Clay B": 0.2}])
        if kind == "depth":
            par.pop("ln_std")
            V = variation.DepthDependToroVelVariation(depth=z, ln_std=s, ln_std_map=m, vary_bedrock=bed, **par)
        else:
            par = dict(zip(PAR, TORO[cls]))
            z, s = np.array([0, 15]), np.array([0.25, 0.15])
            V = variation.DepthDependToroVelVariation.generic_model(cls, ln_std_map=m, vary_bedrock=bed)
        sd = np.interp(mid, z, s)
        for k, w in (m or {}).items():
            sd = np.where([k in y.soil_type.name for y in P], w, sd)
    h.note(kind=kind, layers=desc(P), par=par, bedrock=bed, map=m)
    sc = 1 / np.sqrt(scipy.stats.truncnorm.stats(-2, 2, moments="v"))
    d = (mid[:-1] + mid[1:]) / 2
    cor = np.ones(n - 1)
    for k in range(n - 2):
        rd = par["rho_200"] if d[k] > 200 else par["rho_200"] * ((d[k] + par["h_0"]) / (200 + par["h_0"])) ** par["b"]
        rt = par["rho_0"] * np.exp(-min(d[k + 1] - d[k], 100) / par["delta"])
        cor[k] = (1 - rd) * rt + rd
    S = sc * sd
    cov = np.diag(S ** 2) + np.diag(cor * S[1:] * S[:-1], 1) + np.diag(cor * S[1:] * S[:-1], -1)
    got = []
    real = np.random.multivariate_normal
    x = np.log(v0) + S * h.nprng.normal(size=n) * h.rng.choice([0.3, 1, 3])

    def fake(mean, c, *a, **k):
        got.append((np.array(mean), np.array(c)))
        return x.copy()
    if h.rng.random() < 0.4:
        # drawn from for another profile before, of as many layers
        V(site.Profile([site.Layer(site.SoilType(h.rng.choice(NAMES), u(h, 14, 24), None, 0.02), lu(h, 0.5, 90), lu(h, 80, 3000), 0.02) for _ in range(n)], 3.0))
    np.random.multivariate_normal = fake
    try:
        Q = V(P)
    finally:
        np.random.multivariate_normal = real
    if h.check(len(got) == 1, "one draw"):
        h.close(got[0][0], np.log(v0), "mean", rtol=1e-9)
        h.close(got[0][1], cov, "covariance", rtol=1e-9)
    v1 = np.array([y.initial_shear_vel for y in Q])
    e = np.exp(np.clip(x, np.log(v0) - 2 * S, np.log(v0) + 2 * S))
    if not bed:
        e[-1] = v0[-1]
    h.close(v1, e, "bounded velocity", rtol=1e-9)
    h.close([y.initial_shear_vel for y in P], v0, "original kept")
    np.random.seed(h.rng.randrange(2 ** 31))
    for _ in range(3):
        w = np.log([y.initial_shear_vel for y in V(P)])
        h.check(np.all(np.abs(w - np.log(v0)) <= 2 * S * (1 + 1e-9) + 1e-12), "truncation limit")
        h.check(bed or w[-1] == np.log(v0[-1]), "bedrock")


@group("C15", "site classes", 40)
def classes(h):
    for v in (u(h, 50, 1200), h.rng.choice([180, 360, 750]) + h.rng.choice([-0.5, 0.5, -5, 5])):
        h.note(vs30=v)
        want = "USGS " + ("D" if v < 180 else "C" if v < 360 else "B" if v < 750 else "A")
        h.check(variation.ToroVelocityVariation.usgs_site_class(v) == want, "site class of vs30 %g" % v)

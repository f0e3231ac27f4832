import scipy.stats
from props.rlib import *


def std_g(x):
    return np.exp(-4.23) + np.sqrt(0.25 / np.exp(3.62) - (x - 0.5) ** 2 / np.exp(3.62))


def std_d(x):
    return (np.exp(-5) + np.exp(-0.25) * np.sqrt(100 * x)) / 100


@group("C17", "varied curves", 150)
def go(h):
    n = h.rng.choice([1, 2, 7])
    x = np.sort(10 ** h.nprng.uniform(-6, -1, n))
    g = np.sort(h.nprng.uniform(0.02, 1, n))[::-1]
    d = np.sort(h.nprng.uniform(0.001, 0.2, n))
    const = h.rng.random() < 0.3
    S = site.SoilType("s", 18.0, site.ModulusReductionCurve("g", x, g.copy()), 0.03 if const else site.DampingCurve("d", x, d.copy()))
    kind = h.rng.choice(["darendeli", "spid"])
    mode = h.rng.choice(["random", "fixed_percentiles"])
    lim = h.rng.choice([[0.05, 1], [0.2, 0.7]])
    ld = h.rng.choice([[0, 0.15], [0.01, 0.05]])
    pct = [0.1, 0.5, 0.9, 0.999]
    rho = u(h, -1, 1)
    kw = dict(limits_mod_reduc=lim, limits_damping=ld, sample_mode=mode, percentiles=pct if mode != "random" else None)
    if kind == "spid":
        a, b = u(h, 0.05, 0.5), u(h, 0.05, 0.6)
        V = variation.SpidVariation(rho, std_mod_reduc=a, std_damping=b, **kw)
    else:
        V = variation.DarendeliVariation(rho, **kw)
    h.note(kind=kind, mode=mode, x=x, g=g, d=None if const else d, rho=rho, limits=[lim, ld])
    if h.rng.random() < 0.4:
        # applied to another soil with as many points before, of the same name
        V(site.SoilType("s", 18.0, site.ModulusReductionCurve("g", x, np.sort(h.nprng.uniform(0.02, 1, n))[::-1]), 0.02 if const else site.DampingCurve("d", x, d * 0.8)), sample_index=1 if mode != "random" else None)
    got = []
    N = variation.randnorm
    k = h.rng.randrange(4)
    cls = type(N)
    o1, o2 = cls.correlated, cls.correlated_at_percentile
    cls.correlated = lambda self, *q: got.append(o1(self, *q)) or got[-1]
    cls.correlated_at_percentile = lambda self, *q: got.append(o2(self, *q)) or got[-1]
    try:
        R = V(S, sample_index=k if mode != "random" else None)
    finally:
        cls.correlated, cls.correlated_at_percentile = o1, o2
    h.check(len(got) == 1, "one pair of variates")
    r = got[0]
    h.check(np.all(np.abs(r) <= N.limit), "variates within the limit")
    if mode != "random":
        sc = 1 / np.sqrt(scipy.stats.truncnorm.stats(-2, 2, moments="v"))
        z = scipy.stats.truncnorm.ppf(pct[k], -2 / sc, 2 / sc, scale=sc)
        h.close(r[0], np.clip(z, -2, 2), "first variate")
        h.close(r[1], np.clip(rho * z + np.sqrt(1 - rho ** 2) * z, -2, 2), "second variate")
    dd = 0.03 if const else d
    if kind == "spid":
        F = np.exp(r[0] * 2 * a) * g / (1 - g + np.finfo(float).eps)
        eg, ed = F / (1 + F), np.exp(r[1] * b) * dd
    else:
        eg, ed = g + r[0] * std_g(g), dd + r[1] * std_d(dd)
    h.close(R.mod_reduc.values, np.clip(eg, *lim), "modulus reduction")
    h.close(R.damping if const else R.damping.values, np.clip(ed, *ld), "damping")
    h.close(R.mod_reduc(x), np.clip(eg, *lim), "evaluated")
    h.close(S.mod_reduc.values, g, "original kept")
    if not const:
        h.close(S.damping.values, d, "original damping kept")


@group("C17", "profiles and cycling", 40)
def cyc(h):
    st = [site.SoilType("s%d" % (k % 2), u(h, 15, 20), site.ModulusReductionCurve("g", [1e-5, 1e-2], [1, u(h, 0.1, 0.6)]), site.DampingCurve("d", [1e-5, 1e-2], [0.01, 0.1])) for k in range(3)]
    pick = [h.rng.randrange(3) for _ in range(5)]
    P = site.Profile([site.Layer(st[k], lu(h, 1, 20), lu(h, 100, 900), 0.01) for k in pick] + [site.Layer(site.SoilType("rock", 22, None, 0.01), 0, 1500)], 2.0)
    pct = [0.2, 0.5, 0.8]
    bed = h.rng.random() < 0.5
    if bed:
        P = site.Profile(list(P)[:-1] + [site.Layer(st[0], 0, 1500)], 2.0)
    V = variation.DarendeliVariation(-0.5, vary_bedrock=bed, sample_mode="fixed_percentiles", percentiles=pct)
    m = h.rng.choice([3, 6])
    got = list(variation.iter_varied_profiles(P, m, var_soiltypes=V))
    h.check(len(got) == m, "count")
    for k, Q in enumerate(got):
        for i, j in enumerate(pick):
            h.close(Q[i].soil_type.mod_reduc.values, V(st[j], sample_index=k % 3).mod_reduc.values, "percentile %d layer %d" % (k, i))
            h.close(Q[i].soil_type.unit_wt, st[j].unit_wt, "unit weight")
            h.close(Q[i].thickness, P[i].thickness, "thickness")
        h.check(len(Q) == len(P), "number of layers")
        if bed:
            h.close(Q[-1].soil_type.mod_reduc.values, V(st[0], sample_index=k % 3).mod_reduc.values, "bedrock at percentile %d" % k)
        else:
            h.check(Q[-1].soil_type is P[-1].soil_type, "bedrock kept")
    h.raises(ValueError, lambda: list(variation.iter_varied_profiles(P, 4, var_soiltypes=V)), "count not a multiple")


@group("C17", "limits unless given", 20)
def defaults(h):
    x = np.array([1e-6, 1e-4, 1e-2])
    g, d = np.array([1.0, 0.6, u(h, 0.02, 0.3)]), np.array([0.01, 0.05, u(h, 0.1, 0.3)])
    for cls, lim in ((variation.DarendeliVariation, [0.05, 1]), (variation.SpidVariation, [0, 1])):
        S = site.SoilType("s", 18, site.ModulusReductionCurve("g", x, g), site.DampingCurve("d", x, d))
        seed = h.rng.randrange(2 ** 31)
        np.random.seed(seed)
        a = cls(0.3)(S)
        np.random.seed(seed)
        b = cls(0.3, limits_mod_reduc=lim, limits_damping=[0, 0.15])(S)
        h.note(model=cls.__name__, g=g, d=d)
        h.close(a.mod_reduc.values, b.mod_reduc.values, "modulus reduction with the default limits")
        h.close(a.damping.values, b.damping.values, "damping with the default limits")
        h.check(not cls(0.3).vary_bedrock and cls(0.3).sample_mode == "random", "bedrock kept and random draws unless asked")


@group("C17", "truncated distribution", 40)
def truncated(h):
    """unit standard deviation after truncation, whatever limit was set before"""
    a, b = u(h, 0.3, 4), u(h, 0.3, 4)
    h.note(limits=[a, b])
    t = variation.TruncatedNorm(a)
    for lim in (a, b):
        t.limit = lim
        h.close(t.limit, lim, "limit")
        h.close(t.scale, 1 / np.sqrt(scipy.stats.truncnorm.stats(-lim, lim, moments="v")), "scale", rtol=1e-6)
        p = h.rng.choice([0.02, 0.5, 0.9])
        z = scipy.stats.truncnorm.ppf(p, -lim / t.scale, lim / t.scale, scale=t.scale)
        r = u(h, -1, 1)
        g = np.asarray(t.correlated_at_percentile(r, p)).ravel()
        h.close(g, np.clip([z, r * z + np.sqrt(1 - r ** 2) * z], -lim, lim), "variates at a percentile", rtol=1e-9, atol=1e-12)

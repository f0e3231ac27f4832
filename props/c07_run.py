from props.rlib import *

ATM = 101.325


def common(st, gr, a, b, d0):
    mr = 1 / (1 + (st / gr) ** a)
    g, r = st * 100, gr * 100
    a1 = 100 / np.pi * (4 * (g - r * np.log((g + r) / r)) / (g ** 2 / (g + r)) - 2)
    dm = (-1.1143 * a ** 2 + 1.8618 * a + 0.2523) * a1 + (0.0805 * a ** 2 - 0.071 * a - 0.0095) * a1 ** 2 + (-0.0005 * a ** 2 + 0.0002 * a + 0.0003) * a1 ** 3
    d = np.maximum.accumulate(b * dm * mr ** 0.1 / 100)
    return mr, (d0 + d if np.ndim(d0) == 0 else np.asarray(d0)[None, :] + d[:, None])


@group("C07", "models", 200)
def go(h):
    s = lu(h, 5, 3000)
    N = lu(h, 1, 1000)
    kw = {}
    if h.rng.random() < 0.5:
        kw["strains"] = np.sort([lu(h, 1e-7, 0.1) for _ in range(h.rng.randint(1, 25))])
        if np.any(np.diff(kw["strains"]) <= 0):
            raise Skip
    st = kw.get("strains", 10 ** np.linspace(-6, -1.5, 20))
    dm = h.rng.choice([None, None, "s", "f"])
    if dm == "s":
        kw["damping_min"] = u(h, 0.0, 0.05)
    elif dm == "f":
        kw["damping_min"] = np.array([u(h, 0, 0.05) for _ in range(h.rng.randint(1, 4))])
    k = h.rng.choice(["d", "m", "r", "r0"])
    if k == "d":
        pi, ocr, f = u(h, 0, 100), lu(h, 0.8, 12), lu(h, 0.1, 100)
        o = site.DarendeliSoilType(18, plas_index=pi, ocr=ocr, stress_mean=s, freq=f, num_cycles=N, **kw)
        par = ((0.0352 + 0.001 * pi * ocr ** 0.3246) * (s / ATM) ** 0.3483 / 100, 0.919, 0.6329 - 0.00566 * np.log(N))
        d0 = (0.8005 + 0.0129 * pi * ocr ** -0.1069) * (s / ATM) ** -0.2889 * (1 + 0.2919 * np.log(f)) / 100
        h.note(k=k, pi=pi, ocr=ocr, f=f, s=s, N=N, kw=kw)
    elif k == "m":
        cu, d50 = lu(h, 1, 50), lu(h, 0.05, 30)
        o = site.MenqSoilType("", 18, coef_unif=cu, diam_mean=d50, stress_mean=s, num_cycles=N, **kw)
        par = (0.12 * cu ** -0.6 * (s / ATM) ** (0.5 * cu ** -0.15) / 100, 0.86 + 0.1 * np.log10(s / ATM), 0.6329 - 0.00566 * np.log(N))
        d0 = 0.55 * cu ** 0.1 * d50 ** -0.3 * (s / ATM) ** -0.08 / 100
        h.note(k=k, cu=cu, d50=d50, s=s, N=N, kw=kw)
    else:
        cu = lu(h, 1, 80) if k == "r" else None
        o = site.RollinsEtAlSoilType(18, stress_mean=s, coef_unif=cu, num_cycles=N, **kw)
        par = ((0.0046 * cu ** -0.197 * s ** 0.52 if cu else 0.0039 * s ** 0.42) / 100, 0.84, 0.53 - 0.0057 * np.log(N))
        d0 = 0.01
        h.note(k=k, cu=cu, s=s, N=N, kw=kw)
    d0 = kw.get("damping_min", d0)
    mr, dp = common(st, *par, d0)
    h.close(o.mod_reduc.strains, st, "strains", rtol=1e-9)
    h.close(o.mod_reduc.values, mr, "modulus", rtol=1e-9, atol=0)
    h.close(o.damping.values, dp, "damping", rtol=1e-6, atol=1e-8)
    v, d = np.asarray(o.mod_reduc.values), np.asarray(o.damping.values)
    h.check(np.all((v > 0) & (v <= 1)) and np.all(np.diff(v) <= 1e-15), "modulus shape")
    if k != "m" or 0.6 < par[1] < 1.2:
        h.check(np.all(d >= np.asarray(d0) - 1e-7) and np.all(np.diff(d, axis=0) >= -1e-12), "damping shape")


@group("C07", "documented defaults", 6)
def defaults(h):
    cls, kw = h.rng.choice([(site.DarendeliSoilType, dict(unit_wt=0.0, plas_index=0, ocr=1, stress_mean=101.3, freq=1, num_cycles=10)),
                            (site.MenqSoilType, dict(unit_wt=0.0, coef_unif=10, diam_mean=5, stress_mean=101.3, num_cycles=10)),
                            (site.RollinsEtAlSoilType, dict(unit_wt=0.0, stress_mean=101.3, num_cycles=10))])
    a, b = cls(), cls(**kw)
    h.note(cls=cls.__name__)
    h.close(a.damping.values, b.damping.values, "damping")
    h.close(a.mod_reduc.values, b.mod_reduc.values, "modulus")
    h.check(a.unit_wt == b.unit_wt, "unit weight")

from props.rlib import *
from props import wang

ATM = 101.325
FN = {"gmax": "calc_shear_mod", "ggmax": "calc_mod_reduc", "dmin": "calc_damping_min", "damping": "calc_damping"}
RNG = {"stress_mean": (20, 1500), "void_ratio": (0.3, 1.5), "fines_cont": (0.05, 12), "water_cont": (0.1, 20), "plas_index": (0.1, 60), "coef_unif": (1.2, 40), "diam_50": (0.1, 10), "ocr": (1, 8)}


def val(h, k, group):
    if group == "clayey_soil" and k == "fines_cont":
        return u(h, 50, 100)
    if group == "clayey_soil" and k == "water_cont":
        return u(h, 15, 25)
    return lu(h, *RNG[k])


def spec(group, kw):
    a = {}
    for k, v in kw.items():
        a[wang.SHORT[k]] = v / ATM if k == "stress_mean" else v / 100 if k in wang.PERCENT else v
    return wang.eqs(float, np.exp, **a)


def level(order, kw):
    n = 0
    while n < len(order) and order[n] in kw:
        n += 1
    return n - 1


@group("C08", "wang", 250)
def go(h):
    W = site.WangSoilType
    g = h.rng.choice(list(wang.ORDER))
    keys = [k for k in wang.SHORT if k == "stress_mean" or h.rng.random() < 0.75]
    h.rng.shuffle(keys)
    kw = {k: val(h, k, g) for k in keys}
    h.note(group=g, kw=kw)
    Q = spec(g, kw)
    st = np.sort([lu(h, 1e-7, 0.05) for _ in range(6)])
    q = {m: Q[g, m][level(wang.ORDER[g][m], kw)]() for m in FN}
    if not all(np.all(np.isfinite(np.asarray(x, dtype=complex)) & (np.imag(x) == 0)) for x in q.values()) or np.min([q["ggmax"][2], q["damping"][2]]) <= 0:
        raise Skip
    h.close(W.calc_shear_mod(g, **kw), q["gmax"], "small-strain modulus", rtol=1e-9)
    h.close(W.calc_damping_min(g, **kw), q["dmin"] / 100, "minimum damping", rtol=1e-9)
    a, b, gr = q["ggmax"]
    mr = 1 / (1 + (100 * st / gr) ** a) ** b
    h.close(W.calc_mod_reduc(st, g, **kw), mr, "modulus reduction", rtol=1e-9)
    c, d, gd = q["damping"]

    def damp(m):
        r = (100 * st / gd) ** c
        return (d * r + 100 * m) / (r + 1) / 100
    h.close(W.calc_damping(st, g, **kw), damp(q["dmin"] / 100), "damping with its own minimum", rtol=1e-9)
    h.close(W.calc_damping(st, g, 0.013, **kw), damp(0.013), "damping with a given minimum", rtol=1e-9)
    dm = h.rng.choice([None, 0.02])
    o = W(g, unit_wt=18, strains=st, damping_min=dm, **kw)
    h.close(o.mod_reduc.values, mr, "modulus of the soil type", rtol=1e-9)
    h.close(o.damping.values, damp(q["dmin"] / 100 if dm is None else dm), "damping of the soil type", rtol=1e-9)


@group("C08", "others", 100)
def oth(h):
    st = np.sort([lu(h, 1e-7, 0.05) for _ in range(6)])
    s = lu(h, 10, 500)
    p = s / ATM
    h.note(stress=s)
    co, args = None, (1.04, 0.438, -0.007, 0.011, 0.318, 1.47, -0.2, 13.125, 1.187, 0.11, 0.23)
    if h.rng.random() < 0.5:
        args = tuple(abs(x) * u(h, 0.5, 1.5) for x in args)
        co = site.TwoParamModifiedHyperbolicCoeffs(*args)
    a, b1, b2, g1, g2, d0, d1, d, c, gd1, gd2 = args
    o = site.TwoParamModifiedHyperbolicSoilType("x", 18, s, st, co)
    h.close(o.mod_reduc.values, 1 / (1 + (st / (g1 * p ** g2 / 100)) ** a) ** (b1 + b2 * p), "two-parameter modulus", rtol=1e-9)
    t = (st / (gd1 * p ** gd2 / 100)) ** c
    h.close(o.damping.values, (d * t + d0 * p ** d1) / (t + 1) / 100, "two-parameter damping", rtol=1e-9)
    pi, ocr, fc = u(h, 0, 32), lu(h, 1, 9), u(h, 30, 100)
    h.note(pi=pi, ocr=ocr, fc=fc)
    o = site.AlemuEtAlSoilType(18, "x", plas_index=pi, ocr=ocr, stress_mean=s, fines_cont=fc, strains=st)
    gm = (0.166 * ocr ** -1.678 * p ** 0.196 + 0.025 * (pi + 1) ** 0.675) / 100
    h.close(o.mod_reduc.values, 1 / (1 + (st / gm) ** 0.905) ** 1.373, "Alemu modulus", rtol=1e-9)
    gd = (ocr ** -0.381 * p ** 0.853 + 0.021 * pi) ** 1.249 / 100
    h.close(o.damping.values, (0.000364 * ocr * (pi + 1) + 0.012 * fc) / p + 0.29805 * (st / gd) / (1 + st / gd) ** 0.68, "Alemu damping", rtol=1e-9)

from props.rlib import *
COEF = {"california": (0.25, 104.0, 0.22, 166.0, 53.0, -0.00388, 0.0002, 0.195), "japan": (0.2, 40.0, 0.25, 260.0, 28.0, -0.00296, 0.0, 0.4)}
import warnings


@group("C25", "profiles", 200)
def go(h):
    reg = h.rng.choice(sorted(COEF))
    s = "".join(h.rng.choice([c.upper(), c.lower()]) for c in reg)
    v = lu(h, 100, 2000) if h.rng.random() < 0.8 else h.rng.choice([250, 850, 249.999, 850.001])
    n = h.rng.choice([1, 2, 7, 30])
    z = np.sort([0 if h.rng.random() < 0.1 else lu(h, 1e-3, 3000) for _ in range(n)])
    d = h.rng.choice([z, list(z), float(z[0])])
    h.note(region=s, vs30=v, depth=d)
    if h.rng.random() < 0.3:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            generic.kea16_profile(d, lu(h, 100, 2000), h.rng.choice(sorted(COEF)))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        df = generic.kea16_profile(d, v, s)
    h.check(bool(w) == (v < 250 or v > 850), "warning outside the range")
    b1, b2, b3, b4, b5, b6, b7, b8 = COEF[reg]
    zz = np.atleast_1d(d)
    a2 = b5 * np.exp(b6 * v)
    h.close(df["vs_median"], b1 * v + b2 + (b3 * v + b4) * np.log((zz + a2) / a2), "median", rtol=1e-9)
    h.close(df["std_vs_ln_units"], np.full(len(zz), b7 * v + b8), "ln std", rtol=1e-9)
    h.close(df.index.values, zz, "depth index")
    bad = s + h.rng.choice(["x", " ", "-north"])
    h.raises(ValueError, lambda: generic.kea16_profile(d, v, bad), "unsupported region")

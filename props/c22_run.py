from props.rlib import *


def mean_to(th, p, z):
    edges = np.r_[0, np.cumsum(th)]
    tot = 0.0
    for j in range(len(th)):
        lo, hi = edges[j], (edges[j + 1] if j < len(th) - 1 else max(edges[j + 1], np.inf))
        tot += max(0.0, min(hi, z) - lo) * p[j]
    return tot / z


def integ(th, p, z):
    """integral of the piecewise-constant p to depths z, the last layer without end"""
    e = np.r_[0, np.cumsum(th)]
    c = np.r_[0, np.cumsum(th * p)]
    return np.interp(z, e, c) + np.maximum(z - e[-1], 0) * p[-1]


@group("C22", "depth average", 300)
def da(h):
    n = h.rng.choice([1, 2, 3, 6])
    t = np.array([lu(h, 0.5, 40) for _ in range(n)])
    if h.rng.random() < 0.5:
        t[-1] = 0
    p = np.array([lu(h, 1e-4, 3) for _ in range(n)])
    e = np.cumsum(t)
    z = h.rng.choice([u(h, 0.1, e[-1] * 1.6 + 1), float(e[h.rng.randrange(n)]) or 2.0])
    h.note(th=t.tolist(), p=p.tolist(), z=z)
    for f in (propagation.my_trapz, propagation._my_trapz_python):
        h.close(f(t, p, z), mean_to(t, p, z), "depth average", rtol=1e-9)


@group("C22", "amplification", 150)
def am(h):
    p = profile(h, n=h.rng.choice([2, 3, 6]), kinds=["linear"], dup=0.1)
    for y in p:
        y.strain = 1e-4
    f = np.sort([lu(h, 0.1, 50) for _ in range(h.rng.choice([1, 5, 20]))])
    M = motion.Motion(f)
    k = h.rng.choice([None, 0, 0.02, u(h, 0.001, 0.08)])
    meth = h.rng.choice(["standard", "ba23"])
    h.note(layers=desc(p), f=f.tolist(), kappa=k, method=meth)
    c = propagation.QuarterWaveLenCalculator(site_atten=k, method=meth)
    if h.rng.random() < 0.4:
        # the calculator served another profile before
        q = profile(h, n=len(p), kinds=["linear"])
        try:
            with np.errstate(all="ignore"):
                c(M, q, q.location("outcrop", index=-1))
        except RuntimeError:
            pass
    try:
        with np.errstate(all="ignore"):
            c(M, p, p.location("outcrop", index=-1))
    except RuntimeError:
        return
    th, s, d = np.array([y.thickness for y in p]), np.array([1 / y.initial_shear_vel for y in p]), np.array([y.unit_wt / G0 for y in p])
    h.close(c.site_term, c.crustal_amp * np.exp(-np.pi * (k or 0) * f), "site term", rtol=1e-9)
    eta = np.full(len(f), 0.5)
    if meth == "ba23":
        H = th[:-1].sum()
        fb = 1 / (4 * H * mean_to(th, s, H))
        y = (np.log10(f / fb) + 1.301) / 1.398
        with np.errstate(all="ignore"):
            eta = 0.56 * y ** 4 / ((1 - y ** 6) ** 2 + 0.76 * y ** 3) ** 0.333
    # every depth the tolerance admits: z the new depth, w the one before
    w = np.exp(np.linspace(np.log(1e-3), np.log(1e6), 60000))
    tt, mm = integ(th, s, w), integ(th, d, w)
    for i, fi in enumerate(f):
        if not np.isfinite(eta[i]):
            continue
        z = (w + 1 / (4 * fi * tt / w)) / 2
        ok = np.abs(w - z) <= 0.0102 * z + 2e-8
        ok |= np.r_[ok[1:], False] | np.r_[False, ok[:-1]]
        a = (d[-1] / s[-1] / (integ(th, d, z[ok]) / z[ok] / (tt[ok] / w[ok]))) ** eta[i]
        h.check(min(a) * 0.999 <= c.crustal_amp[i] <= max(a) * 1.001, "amplification", "%g not within %g..%g" % (c.crustal_amp[i], min(a), max(a)))
    x = h.rng.uniform(-0.9, 3)
    y = (x + 1.301) / 1.398
    h.close(c.correction_ba23(x), 0.56 * y ** 4 / ((1 - y ** 6) ** 2 + 0.76 * y ** 3) ** 0.333, "exponent", rtol=1e-9)

from props.rlib import *

FIELDS = ["outcrop", "within", "incoming_only"]


def setup(h):
    p = profile(h, n=h.rng.choice([2, 3, 5]), thick=(1, 15))
    if h.rng.random() < 0.5:
        for l in p:
            l.strain = lu(h, 1e-6, 1e-3)
    m = ts_motion(h, n=h.rng.choice([32, 65, 128]))
    c = propagation.LinearElasticCalculator()
    if h.rng.random() < 0.3:
        # the calculator served another profile and another motion before
        q = profile(h, n=len(p), thick=(1, 15))
        c(m if h.rng.random() < 0.5 else ts_motion(h, n=len(m.accels)), q, q.location("outcrop", index=0))
    c(m, p, p.location("outcrop", index=-1), reset_layers=h.rng.random() < 0.7)
    h.note(profile=desc(p), dt=m.time_step, n=len(m.accels))
    return p, m, c


def place(h, p, field=None):
    field = field or h.rng.choice(FIELDS)
    i = h.rng.randrange(len(p))
    z = 0 if h.rng.random() < 0.3 else u(h, 0, max(float(p[i].thickness), 0))
    return site.Location(i, p[i], field, z), field, i, z


def wv(c, f, i, z):
    return wave(f, (c._waves_a[i], c._waves_b[i], c._wave_nums[i]), z)


@group("C02", "accel", 60)
def accel(h):
    p, m, c = setup(h)
    (la, fa, ia, za), (lb, fb, ib, zb), (lc, fc, ic, zc) = (place(h, p) for _ in range(3))
    h.note(a=(fa, ia, za), b=(fb, ib, zb))
    A, B = wv(c, fa, ia, za), wv(c, fb, ib, zb)
    with np.errstate(all="ignore"):
        h.close(c.calc_accel_tf(la, lb), B / A, "ratio of wave fields", rtol=1e-6, atol=0)
        h.close(c.calc_accel_tf(la, la), np.ones(len(A)), "identity", rtol=1e-9)
        h.close(c.calc_accel_tf(la, lb) * c.calc_accel_tf(lb, lc), c.calc_accel_tf(la, lc), "chaining", rtol=1e-6, atol=0)
        h.close(c.calc_accel_tf(la, lb) * c.calc_accel_tf(lb, la), np.ones(len(A)), "inverse", rtol=1e-7)
    h.close(c.wave_at_location(la), A, "wave at location", rtol=1e-8)


@group("C02", "strain", 60)
def strain(h):
    p, m, c = setup(h)
    lin, fi, i, zi = place(h, p)
    lo, fo, o, zo = place(h, p, "within")
    h.note(lin=(fi, i, zi), lout=(o, zo))
    w = m.angular_freqs
    k = c._wave_nums[o]
    e = np.exp(1j * k * zo)
    grad = 1j * k * (c._waves_a[o] * e - c._waves_b[o] / e)
    with np.errstate(all="ignore"):
        exp = G0 * grad / (-w ** 2 * wv(c, fi, i, zi))
    exp[np.abs(w) < 1e-8] = 0
    got = c.calc_strain_tf(lin, lo)
    h.close(got, exp, "strain", rtol=1e-6, atol=0)
    h.close(c.calc_stress_tf(lin, lo, True), exp * p[o].comp_shear_mod, "damped stress", rtol=1e-6, atol=0)
    h.close(c.calc_stress_tf(lin, lo, False), exp * p[o].shear_mod, "undamped stress", rtol=1e-6, atol=0)
    if fi != "within":
        h.raises(AssertionError, lambda: c.calc_strain_tf(lo, lin), "needs within")


@group("C02", "both implementations", 60)
def both(h):
    n = h.rng.choice([1, 3, 8])
    cx = lambda: h.nprng.normal(size=n) + 1j * h.nprng.normal(size=n)      # noqa: E731
    A, B, K, a, b, k = (cx() for _ in range(6))
    w = np.array([0.0 if h.rng.random() < 0.3 else lu(h, 0.1, 200) for _ in range(n)])
    zo, zi = h.rng.choice([0, u(h, 0, 2)]), h.rng.choice([0, u(h, 0, 2)])
    f = h.rng.choice(FIELDS)
    h.note(n=n, w=w.tolist(), zo=zo, zi=zi, field=f, A=A[0])
    code = motion.WaveField[f].value
    win = wave(f, (a, b, k), zi)
    e = np.exp(1j * K * zo)
    with np.errstate(all="ignore"):
        exp = 9.81 * (1j * K * (A * e - B / e)) / (-w ** 2 * win)
    exp[w == 0] = 0
    for t in ("python", "numba"):
        if t == "numba" and not propagation.HAS_NUMBA:
            continue
        h.close(getattr(propagation, "_wave_at_location_" + t)(k, zi, a, b, code), win, "wave " + t)
        h.close(getattr(propagation, "_calc_strain_tf_" + t)(K, A, B, zo, w, k, a, b, zi, code, 9.81), exp, "strain " + t)

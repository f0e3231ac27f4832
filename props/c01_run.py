from props.rlib import *


def run(h, impl):
    n, nf = h.rng.choice([1, 2, 3, 5, 9]), h.rng.choice([1, 2, 7])
    w = np.array([lu(h, *h.rng.choice([(0.05, 200), (0.05, 200), (1e-7, 0.05)])) for _ in range(nf)])
    zero = h.rng.random() < 0.4
    if zero:
        w[h.rng.randrange(nf)] = 0.0
    D = np.array([u(h, 0, 0.3) for _ in range(n)])
    rho = np.array([u(h, 1.2, 2.6) for _ in range(n)])
    v = np.array([lu(h, 60, 3000) for _ in range(n)])
    G = (rho * v ** 2 * (np.sqrt(1 - 4 * D ** 2) + 2j * D))[:, None] * np.exp(np.array([[u(h, -.3, 0) for _ in range(nf)] for _ in range(n)]))
    V = np.sqrt(G / rho[:, None])
    th = np.array([lu(h, 0.5, 30) for _ in range(n)])
    h.note(impl=impl, n=n, w=w.tolist(), v=v.round(3).tolist(), D=D.round(4).tolist(), h=th.round(3).tolist())
    a, b, k = getattr(propagation, impl)(w, V.copy(), G.copy(), th)
    z = np.abs(w) < 1e-9
    h.close(a[:, z], np.ones((n, z.sum())), "zero frequency: up-going")
    h.close(b[:, z], np.ones((n, z.sum())), "zero frequency: down-going")
    a, b, k, G, V, w = a[:, ~z], b[:, ~z], k[:, ~z], G[:, ~z], V[:, ~z], w[~z]
    if not len(w):
        return
    h.close(k * V, np.broadcast_to(w, k.shape), "wave number", atol=0)
    h.close(a[0], np.ones(len(w)), "surface up")
    h.close(b[0], np.ones(len(w)), "surface down")
    for i in range(n - 1):
        e = np.exp(1j * k[i] * th[i])
        U, L = a[i] * e, b[i] / e
        sc = np.abs(U) + np.abs(L)
        h.close((a[i + 1] + b[i + 1]) / sc, (U + L) / sc, "displacement continuity", rtol=1e-6, atol=1e-8)
        q = k[i] * G[i]
        q1 = k[i + 1] * G[i + 1]
        sq = (np.abs(a[i + 1]) + np.abs(b[i + 1])) * np.abs(q1)
        h.close(q1 * (a[i + 1] - b[i + 1]) / sq, q * (U - L) / sq, "stress continuity", rtol=1e-6, atol=1e-7)


@group("C01", "python", 60)
def python(h):
    run(h, "_calc_waves_python")


if propagation.HAS_NUMBA:
    @group("C01", "compiled", 60)
    def compiled(h):
        run(h, "_calc_waves_numba")


@group("C01", "calculator", 20)
def calculator(h):
    p = profile(h)
    m = ts_motion(h, n=h.rng.choice([32, 65]))
    h.note(profile=desc(p), dt=m.time_step, n=len(m.accels))
    c = propagation.LinearElasticCalculator()
    if h.rng.random() < 0.5:        # the calculator was used before
        q = profile(h, len(p))
        c(m, q, q.location("outcrop", index=-1))
    c(m, p, p.location("outcrop", index=-1))
    w = m.angular_freqs
    k, a, b = c._wave_nums, c._waves_a, c._waves_b
    for i, l in enumerate(p):
        h.close(k[i] * l.comp_shear_vel, w, "wave number of layer", rtol=1e-9)
    for i in range(len(p) - 1):
        e = np.exp(1j * k[i] * p[i].thickness)
        U, L = a[i] * e, b[i] / e
        h.close((a[i + 1] + b[i + 1]) / (abs(U) + abs(L)), (U + L) / (abs(U) + abs(L)), "layer displacement continuity", rtol=1e-6, atol=1e-8)
        s = np.maximum((abs(a[i + 1]) + abs(b[i + 1])) * abs(k[i + 1] * p[i + 1].comp_shear_mod), 1e-12)
        h.close(k[i + 1] * p[i + 1].comp_shear_mod * (a[i + 1] - b[i + 1]) / s, k[i] * p[i].comp_shear_mod * (U - L) / s, "layer stress continuity", rtol=1e-6, atol=1e-6)

import pyrvt
from props.rlib import *


def rvt(h, fs=None):
    f = np.sort(np.exp(h.nprng.uniform(np.log(h.rng.choice([0.05, 1e-4])), np.log(50), size=h.rng.choice([20, 64]))))
    if h.rng.random() < 0.3:
        f[0] = 0.0
    a = np.exp(h.nprng.normal(size=len(f))) * 1e-2
    if h.rng.random() < 0.2:
        return motion.RvtMotion(f[::-1], a[::-1], u(h, 2, 30)), f, a
    return motion.RvtMotion(f, a, u(h, 2, 30)), f, a


def common(h, M):
    f = np.asarray(M.freqs)
    w = 2 * np.pi * f
    h.close(M.angular_freqs, w, "angular frequencies")
    v = np.zeros(len(f), complex)
    nz = w > 1e-8
    v[nz] = 1 / (1j * w[nz])
    hf = np.exp(-0.3j * f) * (1 + f) ** -0.4
    for tf in (None, hf):
        h.close(M.calc_pga(tf), M.calc_peak(tf), "peak acceleration", rtol=1e-9)
        h.close(M.calc_pgv(tf), G0 * 100 * M.calc_peak(v if tf is None else v * tf), "peak velocity", rtol=1e-9)
    a, b = M.pga, M.pgv
    h.close(a, M.calc_peak(), "attribute pga", rtol=1e-9)
    h.close(b, G0 * 100 * M.calc_peak(v), "attribute pgv", rtol=1e-9)
    M.calc_pga(hf), M.calc_pgv(hf)
    M.calc_peak = lambda *x, **k: 1e9
    h.check(M.pga == a and M.pgv == b, "measures stay fixed")
    h.check(np.isfinite(a) and a > 0 and np.isfinite(b) and b > 0, "positive measures")


@group("C26", "recorded", 40)
def ts(h):
    M = ts_motion(h)
    h.note(n=len(M.accels), dt=M.time_step)
    h.close(M.pga, np.abs(M.accels).max(), "peak of the record", rtol=1e-9)
    common(h, M)
    a, c = M.arias_intensity, M.cav
    M._time_step = 7.0
    h.check(M.arias_intensity == a and M.cav == c, "record measures stay fixed")


@group("C26", "random vibration", 40)
def rv(h):
    M, f, a = rvt(h)
    h.note(f=f[:3], n=len(f))
    h.close(M.freqs, f, "frequencies")
    h.close(M.fourier_amps, a, "amplitudes")
    common(h, M)


@group("C26", "spectrum compatible and source theory", 8)
def other(h):
    of = np.logspace(-0.5, 1.7, 15)
    sa = 0.3 * np.exp(-np.log(of / 5) ** 2 / 3)
    if h.rng.random() < 0.5:
        d = u(h, 5, 20)
        xi = h.rng.choice([0.05, 0.02])
        h.note(kind="compatible", d=d, xi=xi)
        M = motion.CompatibleRvtMotion(of, sa, duration=d, osc_damping=xi)
        P = pyrvt.motions.CompatibleRvtMotion(of, sa, duration=d, osc_damping=xi)
    else:
        m, r, reg = u(h, 5, 7.5), u(h, 5, 100), h.rng.choice(["cena", "wna"])
        dep = u(h, 4, 12)
        h.note(kind="source", m=m, r=r, reg=reg)
        M = motion.SourceTheoryRvtMotion(m, r, reg, depth=dep)
        P = pyrvt.motions.SourceTheoryMotion(m, r, reg, depth=dep)
    for M_ in (M, P):
        if hasattr(M_, "calc_fourier_amps"):
            M_.calc_fourier_amps()
    h.close(M.freqs, P.freqs, "frequencies")
    h.close(M.fourier_amps, P.fourier_amps, "amplitudes", rtol=1e-9)
    h.close(M.duration, P.duration, "duration")
    common(h, M)

import os
import tempfile
from props.rlib import *


def record(h):
    m = h.rng.choice([1, 2, 3, 7, 64, 65, 100, 257])
    return h.nprng.normal(size=m) * lu(h, 1e-3, 1), h.rng.choice([0.002, 0.005, 0.01, 0.013])


@group("C21", "time series", 120)
def ts(h):
    x, dt = record(h)
    m = len(x)
    n = h.rng.choice([None, m, m + 1, 2 * m + 3, 512 + m])
    h.note(m=m, dt=dt, n=n)
    x0 = x.copy()
    M = motion.TimeSeriesMotion("f", "d", dt, x, *([] if n is None else [n]))
    N = n or 1 << (m - 1).bit_length()
    y = np.r_[x, np.zeros(N - m)]
    k = np.arange(N // 2 + 1)
    dft = np.array([np.sum(y * np.exp(-2j * np.pi * kk * np.arange(N) / N)) for kk in k])
    s = np.abs(x).max()
    if N > 1:
        h.close(M.calc_time_series(), y, "record followed by zeros", rtol=1e-9, atol=1e-12 * s * N)
        h.close(M.calc_peak(), s, "peak", rtol=1e-9)
        h.close(M.pga, s, "peak acceleration", rtol=1e-9)
        h.close(M.arias_intensity, np.pi * G0 / 2 * dt * np.sum((y[1:] ** 2 + y[:-1] ** 2) / 2), "Arias", rtol=1e-9)
        h.close(M.cav, G0 * dt * np.sum((np.abs(y[1:]) + np.abs(y[:-1])) / 2), "CAV", rtol=1e-9)
    h.close(M.freqs, k / (N * dt), "frequencies", rtol=1e-12)
    h.close(M.fourier_amps, dt * dft, "amplitudes", rtol=1e-9, atol=1e-11 * dt * s * N)
    h.close(M.times, np.arange(m) * dt, "times")
    h.close(M.accels, x0, "record kept")
    # oscillators, by the definition
    of = np.sort([lu(h, 0.2, 30) for _ in range(4)])
    xi = u(h, 0.005, 0.2)
    hf = h.rng.choice([None, (1 + 0.3 * k / (N // 2 + 1)) * np.exp(-0.5j * k / (N // 2 + 1))])
    if N > 3:
        for kind in (np.array, list):
            a = M.calc_osc_accels(kind(of), xi, hf)
            e = []
            for f0 in of:
                r = k / (N * dt) / f0
                tf = 1 / (1 - r ** 2 + 2j * xi * r) * (1 if hf is None else hf)
                e.append(np.abs(np.fft.irfft(tf * dft, N)).max())
            h.close(a, e, "response spectrum", rtol=1e-7)
        z = np.fft.irfft((1 if hf is None else hf) * dft, N)
        h.close(M.calc_time_series(hf), z, "filtered history", rtol=1e-8, atol=1e-11 * s * N)
        h.close(M.calc_peak(hf), np.abs(z).max(), "filtered peak", rtol=1e-8)
        h.close(M.calc_arias_intensity(hf), np.pi * G0 / 2 * dt * np.sum((z[1:] ** 2 + z[:-1] ** 2) / 2), "filtered Arias", rtol=1e-8)
        h.close(M.calc_cav(hf), G0 * dt * np.sum((np.abs(z[1:]) + np.abs(z[:-1])) / 2), "filtered CAV", rtol=1e-8)


@group("C21", "records in files", 40)
def files(h):
    n = h.rng.choice([1, 5, 8, 13, 40])
    x = np.round(h.nprng.normal(size=n), 4)
    dt = h.rng.choice([0.005, 0.01, 0.02])
    sc = h.rng.choice([1.0, 0.3, -2.0])
    h.note(n=n, dt=dt, scale=sc)
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "r.at2")
        per = h.rng.choice([5, 3, 1])
        with open(fn, "w") as fp:
            fp.write("PEER STRONG MOTION DATABASE RECORD\n Some Event, 1/1/99 \nACCELERATION IN UNITS OF G\n")
            fp.write("%d  %.4f  NPTS, DT\n" % (n, dt))
            for i in range(0, n, per):
                fp.write(" ".join("%15.7E" % v for v in x[i:i + per]) + "\n")
        M = motion.TimeSeriesMotion.load_at2_file(fn, sc)
        h.close(M.accels, sc * x, "AT2 record", rtol=1e-6, atol=1e-12)
        h.close(M.time_step, dt, "AT2 time step")
        h.check(M.description == "Some Event, 1/1/99" and str(M.filename) == fn, "AT2 description")
        fn = os.path.join(d, "r.smc")
        nc = h.rng.choice([0, 1, 3])
        vi = [0] * 48
        vi[15], vi[16] = nc, n
        vf = [0.0] * 50
        vf[1] = 1 / dt
        head = ["2 CORRECTED ACCELEROGRAM"] + ["x"] * 4 + ["station =Foo bar   component= UP  "] + ["x"] * 5
        with open(fn, "w") as fp:
            fp.write("\n".join(head) + "\n")
            for i in range(0, 48, 8):
                fp.write("".join("%10d" % v for v in vi[i:i + 8]) + "\n")
            for i in range(0, 50, 5):
                fp.write("".join("%15.7E" % v for v in vf[i:i + 5]) + "\n")
            for i in range(nc):
                fp.write("| comment 1.0 2.0\n")
            for i in range(0, n, 8):
                fp.write("".join("%10.4f" % v for v in x[i:i + 8]) + "\n")
        M = motion.TimeSeriesMotion.load_smc_file(fn, sc)
        h.close(M.accels, sc * x, "SMC record", rtol=1e-9, atol=1e-12)
        h.close(M.time_step, dt, "SMC time step", rtol=1e-6)
        h.check(M.description == "Foo bar; UP", "SMC description")

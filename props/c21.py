"""C21  time-series motions: spectrum, time history and measures"""
from props.lib import *

_T = "motion.TimeSeriesMotion."
_I = [_T + "__init__", _T + "_calc_fourier_spectrum"]


def rec(E, given=True):
    """any record (m values), time step and transform length"""
    m = E.int("m", 1)
    dt = E.real("dt", 0)
    x = E.arr("x", m)
    n = E.int("n", 1) if given else None
    M = E.mod("motion").TimeSeriesMotion("f", "d", dt, x, *([n] if given else []))
    return M, x, m, dt, n


def X(E, x, n, k):
    return E.at(E.I.shims.np.fft.rfft(x, n), k)


@unit("C21", "spectrum", _I + [_T + "fourier_amps", _T + "freqs", _T + "times"])
def _s(E):
    M, x, m, dt, n = rec(E)
    nk = n // 2 + 1
    k = E.index("k", nk)
    E.eq("number of frequencies", E.len(M.freqs), nk)
    E.eq("number of amplitudes", E.len(M.fourier_amps), nk)
    E.eq("frequencies", E.at(M.freqs, k), k / (n * dt))
    E.eq("amplitudes", E.at(M.fourier_amps, k), dt * X(E, x, n, k))
    t = E.index("t", m)
    E.eq("times", E.at(M.times, t), t * dt)
    E.eq("record", E.at(M.accels, t), E.at(x, t))
    E.eq("angular frequencies", E.at(M.angular_freqs, k), 2 * PI * k / (n * dt))
    E.reach()


@unit("C21", "inverse", _I + [_T + "calc_time_series"])
def _i(E):
    M, x, m, dt, n = rec(E)
    E.assume(LE(m, n))
    y = M.calc_time_series()
    E.eq("length", E.len(y), n)
    t = E.index("t", n)
    E.eq("record followed by zeros", E.at(y, t), ITE(LT(t, m), E.at(x, t), 0))
    z = M.calc_time_series(1)
    E.eq("unit filter", E.at(z, t), ITE(LT(t, m), E.at(x, t), 0))
    E.reach()


def filt(E, x, n, h):
    """filtered time history: inverse transform of filter times spectrum"""
    np = E.I.shims.np
    return np.fft.irfft(h * np.fft.rfft(x, n), n)


@unit("C21", "filtered", _I + [_T + "calc_time_series", _T + "calc_peak", _T + "calc_arias_intensity", _T + "calc_cav"])
def _f(E):
    M, x, m, dt, n = rec(E)
    h = E.arr("h", n // 2 + 1, sort="C")
    y = filt(E, x, n, h)
    t = E.index("t", n)
    E.eq("filtered history", E.at(M.calc_time_series(h), t), E.at(y, t))
    a = lambda k: abs(E.at(y, k))        # noqa: E731
    E.eq("peak", M.calc_peak(h), E.max(n, a))
    g = num(9.80665)
    trap = lambda f: E.sum(n - 1, lambda k: dt * (f(k) + f(k + 1)) / 2)      # noqa: E731
    E.eq("Arias intensity", M.calc_arias_intensity(h), PI * g / 2 * trap(lambda k: E.at(y, k) ** 2))
    E.eq("cumulative absolute velocity", M.calc_cav(h), g * trap(a))
    E.eq("peak of the record", M.calc_peak(), E.max(n, lambda k: abs(E.at(M.calc_time_series(), k))))
    E.reach()


@unit("C21", "record-measures", _I + [_T + "calc_peak", _T + "calc_arias_intensity", _T + "calc_cav"])
def _r(E):
    M, x, m, dt, n = rec(E)
    E.assume(LE(m, n))
    g = num(9.80665)
    v = lambda k: ITE(LT(k, m), E.at(x, k), 0)       # noqa: E731
    trap = lambda f: E.sum(n - 1, lambda k: dt * (f(k) + f(k + 1)) / 2)      # noqa: E731
    E.eq("peak", M.calc_peak(), E.max(n, lambda k: abs(v(k))))
    E.eq("Arias intensity", M.arias_intensity, PI * g / 2 * trap(lambda k: v(k) ** 2))
    E.eq("cumulative absolute velocity", M.cav, g * trap(lambda k: abs(v(k))))
    E.reach()


@unit("C21", "oscillator", _I + [_T + "_calc_sdof_tf"])
def _o(E):
    M, x, m, dt, n = rec(E)
    of, xi = E.real("of", 0), E.real("xi", 0)
    k = E.index("k", n // 2 + 1)
    f = k / (n * dt)
    h = E.at(M._calc_sdof_tf(of, xi), k)
    r = f / of
    E.eq("damped single degree of freedom", h * (1 - r * r + 2 * J * xi * r), 1)
    E.eq("default damping is 5%", E.at(M._calc_sdof_tf(of), k) * (1 - r * r + 2 * J * num(0.05) * r), 1)
    E.eq("unit at zero frequency", E.at(M._calc_sdof_tf(of, xi), 0), 1)
    E.reach()


def _osc(with_tf):
    def u(E):
        M, x, m, dt, n = rec(E)
        no = E.int("no", 1)
        of = E.arr("of", no)
        E.assume(E.all(no, lambda j: LT(0, E.at(of, j))))
        xi = E.real("xi", 0)
        h = E.arr("h", n // 2 + 1, sort="C") if with_tf else None
        a = M.calc_osc_accels(of, xi, h) if with_tf else M.calc_osc_accels(of, xi)
        j = E.index("j", no)
        E.eq("one value per oscillator", E.len(a), no)
        s = M._calc_sdof_tf(E.at(of, j), xi)
        E.eq("peak response of the oscillator", E.at(a, j), M.calc_peak(h * s if with_tf else s))
        E.reach()
    return u


unit("C21", "response-spectrum", _I + [_T + "calc_osc_accels"])(_osc(False))
unit("C21", "response-spectrum-filtered", _I + [_T + "calc_osc_accels"])(_osc(True))


@unit("C21", "default-length", _I)
def _d(E):
    M, x, m, dt, _ = rec(E, False)
    n = E.len(M.calc_time_series())
    E.prove("at least the record", LE(m, n))
    E.prove("less than twice the record", OR(EQ(n, 1), LT(n, 2 * m)))
    t = E.index("t", n)
    E.eq("record followed by zeros", E.at(M.calc_time_series(), t), ITE(LT(t, m), E.at(x, t), 0))
    k = E.index("k", n // 2 + 1)
    E.eq("frequencies", E.at(M.freqs, k), k / (n * dt))
    E.reach()

"""C26  intensity measures of every motion type"""
from props.lib import *

_M, _T = "motion.Motion.", "motion.TimeSeriesMotion."
G = num(9.80665)


def integ(E, M, i):
    """frequency-domain integration of acceleration; nothing at zero frequency"""
    w = 2 * PI * E.at(M.freqs, i)
    # 'zero' is what the code calls zero: within 1e-8
    return ITE(LE(abs(w), num(1e-8)), 0 * J, 1 / (w * J))


def mk_ts(E):
    m = E.int("m", 1)
    n = E.int("n", 1)
    return E.mod("motion").TimeSeriesMotion("f", "d", E.real("dt", 0), E.arr("x", m), n)


def mk_rvt(E):
    n = E.int("n", 1)
    f, a = E.arr("f", n), E.arr("a", n)
    M = E.mod("motion").RvtMotion(f, a, E.real("dur", 0))
    i = E.index("i0", n)
    E.eq("frequencies kept", E.at(M.freqs, i), E.at(f, i))
    E.eq("amplitudes kept", E.at(M.fourier_amps, i), E.at(a, i))
    return M


def mk_comp(E):
    no = E.int("no", 1)
    o, a = E.arr("o", no), E.arr("oa", no)
    xi, dur = E.real("xi", 0), E.real("dur", 0)
    ev = {"magnitude": E.real("mag")}
    M = E.mod("motion").CompatibleRvtMotion(o, a, duration=dur, osc_damping=xi, event_kwds=ev, window_len=7, peak_calculator="BJ84", calc_kwds={"x": 1})
    g = M._given
    E.prove("compatible motion: arguments handed on", AND(
        g["osc_freqs"] is o, g["osc_accels_target"] is a, EQ(g["duration"], dur), EQ(g["osc_damping"], xi), g["event_kwds"] is ev,
        EQ(g["window_len"], 7), g["peak_calculator"] == "BJ84", g["calc_kwds"]["x"] == 1))
    return M


def mk_src(E):
    a = [E.real(x) for x in ("mag", "dist", "sd", "dep")]
    M = E.mod("motion").SourceTheoryRvtMotion(a[0], a[1], "cena", a[2], a[3], "BJ84", {"x": 1})
    g = M._given
    E.prove("source theory motion: arguments handed on", AND(
        EQ(g["magnitude"], a[0]), EQ(g["distance"], a[1]), g["region"] == "cena", EQ(g["stress_drop"], a[2]), EQ(g["depth"], a[3]),
        g["peak_calculator"] == "BJ84", g["calc_kwds"]["x"] == 1))
    return M


def mk_rvt_args(E):
    M = E.mod("motion").RvtMotion([1.0, 2.0], [3.0, 4.0], 5.0, "BJ84", {"x": 1})
    g = M._given
    E.prove("random vibration motion: arguments handed on", AND(
        EQ(E.at(g["freqs"], 1), 2), EQ(E.at(g["fourier_amps"], 0), 3), EQ(g["duration"], 5), g["peak_calculator"] == "BJ84", g["calc_kwds"]["x"] == 1))
    return M


KINDS = {"record": (mk_ts, _T + "__init__", _T + "calc_peak"), "random-vibration": (mk_rvt, "motion.RvtMotion.__init__"),
         "spectrum-compatible": (mk_comp, "motion.CompatibleRvtMotion.__init__"), "source-theory": (mk_src, "motion.SourceTheoryRvtMotion.__init__"),
         "random-vibration-arguments": (mk_rvt_args, "motion.RvtMotion.__init__")}


def kind(mk):
    def u(E):
        M = mk(E)
        n = E.len(M.freqs)
        i = E.index("i", n)
        E.eq("angular frequencies", E.at(M.angular_freqs, i), 2 * PI * E.at(M.freqs, i))
        seen = []
        peak = M.calc_peak
        h = E.arr("h", n, sort="C")
        A = E.I.shims.np
        hv = A.array([0.0])
        # the filters, formed here independently
        from dv.arrays import mkarr
        v = mkarr((n,), lambda k: T(integ(E, M, wrap(k))), "C")
        E.eq("peak acceleration", M.calc_pga(), peak(None))
        E.eq("peak acceleration, filtered", M.calc_pga(h), peak(h))
        E.eq("peak velocity", M.calc_pgv(), G * 100 * peak(v))
        E.eq("peak velocity, filtered", M.calc_pgv(h), G * 100 * peak(v * h))
        E.eq("attribute pga", M.pga, peak(None))
        E.eq("attribute pgv", M.pgv, G * 100 * peak(v))
        E.reach()
        del seen, hv
    return u


for _k, (_f, *_q) in KINDS.items():
    unit("C26", _k, list(_q) + [_M + "calc_pga", _M + "calc_pgv", _M + "pga", _M + "pgv", _M + "angular_freqs", _M + "__init__"])(kind(_f))


@unit("C26", "filter-of-any-peak", [_M + "calc_pgv", _M + "calc_pga", _M + "freqs", _M + "angular_freqs"])
def _any(E):
    """the velocity filter handed to an arbitrary peak calculator"""
    n = E.int("n", 1)
    f = E.arr("f", n)
    M = E.mod("motion").Motion(f)
    got = []

    def peak(self, tf=None, **k):
        got.append(tf)
        return wrap(tm.app("anypeak", (tm.const(len(got)),)))
    E.stub("motion.Motion.calc_peak", peak)
    i = E.index("i", n)
    M.calc_pga()
    E.prove("no filter for the acceleration", got.pop() is None)
    p = M.calc_pgv()
    E.eq("filter", E.at(got[-1], i), integ(E, M, i))
    E.eq("scaled to cm/s", p, G * 100 * wrap(tm.app("anypeak", (tm.ONE,))))
    E.eq("one filter value per frequency", E.len(got[-1]), n)
    E.reach()


@unit("C26", "computed-once", [_M + x for x in ("pga", "pgv", "arias_intensity", "cav")])
def _once(E):
    """later changes of the calculator do not alter a measure already taken, and each is computed from its own function"""
    M = E.mod("motion").Motion(E.arr("f", E.int("n", 1)))
    cnt = {}
    for a in ("pga", "pgv"):
        def st(self, *x, a=a, **k):
            cnt[a] = cnt.get(a, 0) + 1
            return wrap(tm.app("m_" + a, (tm.const(cnt[a]),)))
        E.stub("motion.Motion.calc_" + a, st)
    T_ = mk_ts(E)
    for a in ("arias_intensity", "cav"):
        def st(self, *x, a=a, **k):
            cnt[a] = cnt.get(a, 0) + 1
            return wrap(tm.app("m_" + a, (tm.const(cnt[a]),)))
        E.stub(_T + "calc_" + a, st)
    for a, o in (("pga", M), ("pgv", M), ("arias_intensity", T_), ("cav", T_)):
        for r in range(3):
            E.eq("%s, read %d" % (a, r + 1), getattr(o, a), wrap(tm.app("m_" + a, (tm.ONE,))))
        E.prove("%s computed once" % a, cnt[a] == 1)
    E.reach()

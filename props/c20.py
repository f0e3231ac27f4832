"""C20  each output reports the declared quantity at the declared location"""
from props.lib import *
from props.c10 import th, start
from props.c11 import top

O = "output."


class Sink:
    """records every call of a contract stub on the current path"""

    def __init__(self):
        self.log = []


class Calc:
    """contract of a calculator after a run: motion, profile, input location and
    transfer functions (C02 states which) that depend only on the two locations"""

    def __init__(self, E, motion, profile, nf):
        self.motion, self.profile = motion, profile
        self.loc_input = object()
        self.log = []
        self.nf = nf

    def _tf(self, kind, *a):
        for k, b in self.log:
            if k == kind and len(a) == len(b) and all(x is y for x, y in zip(a, b)):
                break
        else:
            self.log.append((kind, a))
        i = [j for j, (k, b) in enumerate(self.log) if k == kind and all(x is y for x, y in zip(a, b))][0]
        nm = "%s_tf%d" % (kind, i)
        return Arr((dimval(term_of(self.nf)),), lambda j: tm.app(nm, (j,), "C"), "C")

    def calc_accel_tf(self, lin, lout):
        return self._tf("accel", lin, lout)

    def calc_strain_tf(self, lin, lout):
        return self._tf("strain", lin, lout)

    def calc_stress_tf(self, lin, lout, damped):
        return self._tf("stress", lin, lout, damped)

    def called(self, kind):
        return [a for k, a in self.log if k == kind]


def locations(E, pr=None, n=None):
    """contract of Profile.location (C11): one location per request"""
    site = E.mod("site")
    made = []

    def location(self, wave_field, depth=None, index=None):
        for r in made:
            if r[0] is self and r[1] is wave_field and r[2] is depth and r[3] is index:
                return r[4]
        if n is None:
            loc = object()
        else:
            i = E.index("loc", n)
            z = E.real("locz", 0, strict=False)
            E.assume(LE(z, th(i)))
            loc = site.Location(i, pr[i], wave_field, z)
        made.append((self, wave_field, depth, index, loc))
        return loc
    E.stub("site.Profile.location", location)
    return made


def ts(E, full=False):
    """a time-series motion; its transforms are replaced by their contract (C21)"""
    mo = E.mod("motion")
    m = E.int("m", 2)
    dt = E.real("dt", 0)
    M = mo.TimeSeriesMotion("f", "d", dt, E.arr("acc", m))
    got = []

    def series(self, tf=None):
        got.append(tf)
        nm = "series%d" % len(got)
        return Arr((dimval(term_of(m)),), lambda k: tm.app(nm, (k,)))
    E.stub("motion.TimeSeriesMotion.calc_time_series", series)
    return M, m, dt, got


def world(E, with_loc=False):
    n, P = start(E, 2)
    M, m, dt, got = ts(E)
    nf = E.int("nf", 1)
    calc = Calc(E, M, P, nf)
    made = locations(E, P, n if with_loc else None)
    return n, P, M, m, dt, got, nf, calc, made


def ran_as(E, o, calc):
    o(calc, "a run")
    named = getattr(E, "named", None)      # C19 states what becomes of the name
    if named:
        named(o)


def declared(E, name, req, P, wf, depth=None, index=None):
    E.prove(name + ": asked of the run's profile", req[0] is P)
    E.prove(name + ": wave field", req[1] is wf)
    for t, a, b in (("depth", req[2], depth), ("index", req[3], index)):
        E.prove("%s: %s" % (name, t), (a is None) if b is None else EQ(a, b))


def times(E, o, m, dt):
    t = E.index("t", m)
    E.eq("number of values", E.len(o.values), m)
    E.eq("number of times", E.len(o.refs), m)
    E.eq("time", E.at(o.refs, t), t * dt)
    E.eq("times", E.at(o.times, t), t * dt)
    return t


TSB = [O + "TimeSeriesOutput.__call__", O + "TimeSeriesOutput.__init__", O + "TimeSeriesOutput.times", O + "LocationBasedOutput._get_location", O + "OutputLocation.__call__", O + "OutputLocation.__init__"]


def wfs(E):
    return {w.name: w for w in E.mod("motion").WaveField}


def accel_ts(field, where):
    def u(E):
        n, P, M, m, dt, got, nf, calc, made = world(E)
        out = E.mod("output")
        z, ix = E.real("z"), E.int("ix")
        kw = {"depth": z} if where == "depth" else {"index": ix}
        o = out.AccelerationTSOutput(out.OutputLocation(field, **kw))
        ran_as(E, o, calc)
        t = times(E, o, m, dt)
        E.prove("one location", len(made) == 1)
        declared(E, "location", made[0], P, wfs(E)[field], **kw)
        E.prove("from the input location to the output's", [list(a) for a in calc.called("accel")] == [[calc.loc_input, made[0][4]]])
        j = E.index("j", nf)
        E.prove("one inverse transform", len(got) == 1)
        E.eq("transfer function used", E.at(got[0], j), E.at(calc.calc_accel_tf(calc.loc_input, made[0][4]), j))
        E.eq("acceleration", E.at(o.values, t), fn("series1", t))
        E.reach()
    return u


for _f, _w in (("outcrop", "depth"), ("within", "index"), ("incoming_only", "depth")):
    unit("C20", "acceleration-%s-%s" % (_f, _w), TSB + [O + "AccelerationTSOutput._get_trans_func", O + "TimeSeriesOutput._modify_values"])(accel_ts(_f, _w))


@unit("C20", "arias-intensity", TSB + [O + "AriasIntensityTSOutput._modify_values", O + "AccelerationTSOutput._get_trans_func"])
def _arias(E):
    n, P, M, m, dt, got, nf, calc, made = world(E)
    out = E.mod("output")
    o = out.AriasIntensityTSOutput(out.OutputLocation("outcrop", index=0))
    ran_as(E, o, calc)
    t = times(E, o, m, dt)
    g = E.mod("motion").GRAVITY
    a2 = lambda k: fn("series1", k) ** 2
    E.eq("Arias intensity", E.at(o.values, t), E.sum(t, lambda k: dt * (a2(k) + a2(k + 1)) / 2) * g * PI / 2)
    j = E.index("j", nf)
    E.eq("transfer function used", E.at(got[0], j), E.at(calc.calc_accel_tf(calc.loc_input, made[0][4]), j))
    E.prove("only that transfer function", len(calc.log) == 1 and len(made) == 1)
    E.reach()


def strain_ts(pct):
    def u(E):
        n, P, M, m, dt, got, nf, calc, made = world(E)
        out = E.mod("output")
        z = E.real("z")
        o = out.StrainTSOutput(out.OutputLocation("within", depth=z), in_percent=pct)
        ran_as(E, o, calc)
        t = times(E, o, m, dt)
        declared(E, "location", made[0], P, wfs(E)["within"], depth=z)
        E.prove("strain transfer function", [k for k, a in calc.log] == ["strain"])
        j = E.index("j", nf)
        E.eq("transfer function used", E.at(got[0], j), E.at(calc.calc_strain_tf(calc.loc_input, made[0][4]), j))
        E.prove("one transfer function, one transform", len(calc.log) == 1 and len(got) == 1)
        E.eq("strain", E.at(o.values, t), (100 if pct else 1) * fn("series1", t))
        E.raises(lambda: out.StrainTSOutput(out.OutputLocation("outcrop", depth=z)), "only within the profile", AssertionError)
        E.reach()
    return u


for _p in (True, False):
    unit("C20", "strain-%s" % ("percent" if _p else "decimal"), TSB + [O + "StrainTSOutput._get_trans_func", O + "StrainTSOutput._modify_values", O + "StrainTSOutput.__init__"])(strain_ts(_p))


def stress_ts(damped, norm):
    def u(E):
        n, P, M, m, dt, got, nf, calc, made = world(E, True)
        out = E.mod("output")
        z = E.real("z")
        o = out.StressTSOutput(out.OutputLocation("within", depth=z), damped=damped, normalized=norm)
        ran_as(E, o, calc)
        t = times(E, o, m, dt)
        declared(E, "location", made[0], P, wfs(E)["within"], depth=z)
        E.prove("stress transfer function, damped as asked", len(calc.log) == 1 and calc.log[0][0] == "stress" and calc.log[0][1][2] is damped)
        E.prove("one transform", len(got) == 1)
        j = E.index("j", nf)
        tf = E.at(calc.calc_stress_tf(calc.loc_input, made[0][4], damped), j)
        E.prove("from the input location to the output's", len(calc.log) == 1)
        if norm:
            sv = made[0][4].stress_vert(effective=True)
            E.assume(LT(0, sv))
            E.eq("transfer function over effective vertical stress", E.at(got[0], j), tf / sv)
        else:
            E.eq("transfer function used", E.at(got[0], j), tf)
        E.eq("stress", E.at(o.values, t), fn("series1", t))
        E.raises(lambda: out.StressTSOutput(out.OutputLocation("incoming_only", depth=z)), "only within the profile", AssertionError)
        E.reach()
    return u


for _d in (True, False):
    for _n in (True, False):
        unit("C20", "stress-%s-%s" % ("damped" if _d else "undamped", "normalized" if _n else "plain"), TSB + [O + "StressTSOutput._get_trans_func", O + "StressTSOutput.__init__", O + "StressTSOutput.damped"])(stress_ts(_d, _n))


# ---------------------------------------------------------------- spectra
def table(E, x, nf):
    E.assume(E.all(nf, lambda a: E.all(nf, lambda b: IMP(LT(a, b), LT(E.at(x, a), E.at(x, b))))))


def interp_spec(E, name, got, q, x, y, nf):
    """value at q of the piecewise linear function through the table"""
    k = E.index("seg", nf - 1)
    last = nf - 1
    x0, x1, y0, y1 = E.at(x, k), E.at(x, k + 1), y(k), y(k + 1)
    E.prove(name + " at a tabulated frequency", IMP(EQ(q, x0), EQ(got, y0)))
    E.prove(name + " between frequencies", IMP(AND(LE(x0, q), LT(q, x1)), EQ(got, y0 + (y1 - y0) * (q - x0) / (x1 - x0))))
    E.prove(name + " below the table", IMP(LT(q, E.at(x, 0)), EQ(got, y(0))))
    E.prove(name + " above the table", IMP(LT(E.at(x, last), q), EQ(got, y(last))))


class Freqs:
    """contract of a motion: frequencies, amplitudes and oscillator response"""

    def __init__(self, E, nf):
        self.E, self.freqs, self.fourier_amps, self.log = E, E.arr("mf", nf), E.arr("amps", nf, sort="C"), []

    def calc_osc_accels(self, freqs, damping=0.05, tf=None):
        self.log.append((freqs, damping, tf))
        nm = "osc%d" % len(self.log)
        return Arr(freqs.shape, lambda k: tm.app(nm, (k,)))

    def calc_peak(self, tf=None, **k):
        self.log.append(tf)
        v = tm.bigsum(tm.var("?pk", "I"), tm.ZERO, term_of(self.E.int("nf", 1)), tm.abs_(term_of(self.E.at(tf, Sym(tm.var("?pk", "I"))))))
        return wrap(tm.app("peak", (v,)))


def freq_world(E):
    n, P = start(E, 2)
    nf = E.int("nf", 2)
    M = Freqs(E, nf)
    calc = Calc(E, M, P, nf)
    made = locations(E)
    q = E.int("q", 1)
    return n, P, nf, M, calc, made, E.arr("of", q), q


class Kooh:
    def __init__(self, log):
        self.log = log

    def smooth(self, *a):
        self.log.append(a)
        return Arr(a[0].shape, lambda k: tm.app("smoothed", (k,), a[2].sort))


def fas(smooth):
    def u(E):
        n, P, nf, M, calc, made, of, q = freq_world(E)
        out = E.mod("output")
        ko = []
        out.pykooh = Kooh(ko)
        table(E, M.freqs, nf)
        bw = E.real("bw", 0)
        o = out.FourierAmplitudeSpectrumOutput(of, out.OutputLocation("outcrop", index=0), ko_bandwidth=bw if smooth else None)
        ran_as(E, o, calc)
        declared(E, "location", made[0], P, wfs(E)["outcrop"], index=0)
        tf = calc.calc_accel_tf(calc.loc_input, made[0][4])
        E.prove("one transfer function, from the input location", len(calc.log) == 1 and len(made) == 1)
        y = lambda k: wrap(tm.abs_(tm.mul(term_of(E.at(tf, k)), tm.app("amps", (term_of(k),), "C"))))
        i = E.index("i", q)
        E.eq("frequencies", E.at(o.freqs, i), fn("of", i))
        E.eq("number of values", E.len(o.values), q)
        if smooth:
            a = ko[0]
            j = E.index("j", nf)
            E.prove("one smoothing", len(ko) == 1)
            E.eq("smoothed at", E.at(a[0], i), fn("of", i))
            E.eq("smoothed over", E.at(a[1], j), fn("mf", j))
            E.eq("smoothed values", E.at(a[2], j), y(j))
            E.eq("bandwidth", a[3], bw)
            E.eq("result", E.at(o.values, i), fn("smoothed", i))
        else:
            interp_spec(E, "Fourier amplitude", E.at(o.values, i), fn("of", i), M.freqs, y, nf)
        E.eq("default bandwidth", out.FourierAmplitudeSpectrumOutput(of, None).ko_bandwidth, 30)
        E.reach()
    return u


for _s in (True, False):
    unit("C20", "fourier-spectrum-%s" % ("smoothed" if _s else "interpolated"), [O + "FourierAmplitudeSpectrumOutput." + x for x in ("__call__", "__init__", "freqs", "ko_bandwidth")])(fas(_s))


@unit("C20", "response-spectrum", [O + "ResponseSpectrumOutput." + x for x in ("__call__", "__init__", "freqs", "periods", "osc_damping")])
def _rs(E):
    n, P, nf, M, calc, made, of, q = freq_world(E)
    out = E.mod("output")
    D = E.real("D", 0)
    ix = E.int("ix")
    o = out.ResponseSpectrumOutput(of, out.OutputLocation("within", index=ix), D)
    ran_as(E, o, calc)
    declared(E, "location", made[0], P, wfs(E)["within"], index=ix)
    tf = calc.calc_accel_tf(calc.loc_input, made[0][4])
    E.prove("one transfer function, from the input location", len(calc.log) == 1 and len(made) == 1 and len(M.log) == 1)
    i, j = E.index("i", q), E.index("j", nf)
    f, d, t = M.log[0]
    E.eq("oscillator frequency", E.at(f, i), fn("of", i))
    E.eq("oscillator damping", d, D)
    E.eq("transfer function", E.at(t, j), E.at(tf, j))
    E.eq("spectral acceleration", E.at(o.values, i), fn("osc1", i))
    E.eq("frequencies", E.at(o.freqs, i), fn("of", i))
    E.assume(tm.ne(T(fn("of", i)), tm.RZERO))
    E.eq("periods", E.at(o.periods, i), 1 / fn("of", i))
    E.reach()


def two(E, calc, made, P, wf):
    E.prove("two locations", len(made) == 2)
    by = {id(r[3]): r for r in made}
    return by


@unit("C20", "response-spectrum-ratio", [O + "ResponseSpectrumRatioOutput." + x for x in ("__call__", "__init__", "freqs", "osc_damping")] + [O + "RatioBasedOutput._get_locations", O + "RatioBasedOutput.__init__"])
def _rsr(E):
    n, P, nf, M, calc, made, of, q = freq_world(E)
    out = E.mod("output")
    D = E.real("D", 0)
    a, b = E.int("a"), E.int("b")
    o = out.ResponseSpectrumRatioOutput(of, out.OutputLocation("within", index=a), out.OutputLocation("outcrop", index=b), D)
    ran_as(E, o, calc)
    W = wfs(E)
    la = [r for r in made if r[1] is W["within"]]
    lb = [r for r in made if r[1] is W["outcrop"]]
    E.prove("two locations", len(la) == 1 and len(lb) == 1)
    declared(E, "first location", la[0], P, W["within"], index=a)
    declared(E, "second location", lb[0], P, W["outcrop"], index=b)
    calls = {id(x[1]): k for k, x in enumerate(calc.called("accel"))}
    E.prove("both from the input location", all(x[0] is calc.loc_input for x in calc.called("accel")) and len(calls) == 2)
    j, i = E.index("j", nf), E.index("i", q)
    which = {}
    for k, (f, d, t) in enumerate(M.log):
        E.eq("oscillator frequency %d" % k, E.at(f, i), fn("of", i))
        E.eq("oscillator damping %d" % k, d, D)
        nm = term_of(E.at(t, j)).val
        which[nm] = "osc%d" % (k + 1)
    ta = term_of(E.at(calc.calc_accel_tf(calc.loc_input, la[0][4]), j)).val
    tb = term_of(E.at(calc.calc_accel_tf(calc.loc_input, lb[0][4]), j)).val
    E.prove("one spectrum per location", ta in which and tb in which and len(M.log) == 2)
    den = fn(which[ta], i)
    E.assume(LT(0, den))
    E.eq("second location over first", E.at(o.values, i) * den, fn(which[tb], i))
    E.eq("frequencies", E.at(o.freqs, i), fn("of", i))
    E.reach()


def atf(smooth, absolute):
    def u(E):
        n, P, nf, M, calc, made, of, q = freq_world(E)
        out = E.mod("output")
        ko = []
        out.pykooh = Kooh(ko)
        table(E, M.freqs, nf)
        bw = E.real("bw", 0)
        a, b = E.int("a"), E.int("b")
        o = out.AccelTransferFunctionOutput(of, out.OutputLocation("within", index=a), out.OutputLocation("outcrop", index=b), ko_bandwidth=bw if smooth else None, absolute=absolute)
        ran_as(E, o, calc)
        W = wfs(E)
        la = [r for r in made if r[1] is W["within"]]
        lb = [r for r in made if r[1] is W["outcrop"]]
        E.prove("two locations", len(la) == 1 and len(lb) == 1)
        declared(E, "first location", la[0], P, W["within"], index=a)
        declared(E, "second location", lb[0], P, W["outcrop"], index=b)
        tf = calc.calc_accel_tf(la[0][4], lb[0][4])
        E.prove("from the first location to the second", len(calc.log) == 1)
        y = lambda k: wrap(tm.abs_(term_of(E.at(tf, k)))) if absolute else E.at(tf, k)
        i, j = E.index("i", q), E.index("j", nf)
        if smooth:
            s = ko[0]
            E.prove("one smoothing", len(ko) == 1)
            E.eq("smoothed at", E.at(s[0], i), fn("of", i))
            E.eq("smoothed over", E.at(s[1], j), fn("mf", j))
            E.eq("smoothed values", E.at(s[2], j), y(j))
            E.eq("bandwidth", s[3], bw)
            E.eq("result", E.at(o.values, i), fn("smoothed", i, sort="R" if absolute else "C"))
        else:
            interp_spec(E, "transfer function", E.at(o.values, i), fn("of", i), M.freqs, y, nf)
        E.eq("frequencies", E.at(o.freqs, i), fn("of", i))
        E.reach()
    return u


for _s, _a in ((True, True), (False, True), (False, False)):
    unit("C20", "transfer-function-%s-%s" % ("smoothed" if _s else "interpolated", "absolute" if _a else "complex"), [O + "AccelTransferFunctionOutput." + x for x in ("__call__", "__init__", "freqs")] + [O + "RatioBasedOutput._get_locations", O + "RatioBasedOutput.__init__"])(atf(_s, _a))


# ---------------------------------------------------------------- profiles
MID = ("MaxStrainProfile", "CyclicStressRatioProfile")


def stub_props(E):
    """contract of the layer's strain-compatible properties (C03, C05, C10): one number per layer"""
    for p, nm in (("damping", "pD"), ("shear_mod_reduc", "pMR"), ("shear_vel", "pVs"), ("stress_shear_max", "pTau")):
        E.stub("site.Layer.%s" % p, (lambda nm: lambda self: fn(nm, self.thickness))(nm))


def ran(E):
    """a profile after a run: each layer holds its peak strain"""
    n = E.int("n", 2)
    facts(E, n)

    def one(k):
        y = layer(E, k)
        y.strain_max = fn("pSmax", k)
        return y
    return n, E.mod("site").Profile(build(E, n, one), E.real("wt"))


QUANT = {
    "MaxStrainProfile": lambda E, P, k: fn("pSmax", k),
    "DampingProfile": lambda E, P, k: fn("pD", th(k)),
    "ShearModReducProfile": lambda E, P, k: fn("pMR", th(k)),
    "InitialVelProfile": lambda E, P, k: fn("vs", k),
    "CompatVelProfile": lambda E, P, k: fn("pVs", th(k)),
    "CyclicStressRatioProfile": lambda E, P, k: num(0.65) * fn("pTau", th(k)) / fn("sv", th(k)),
}


def prof(cls):
    def u(E):
        n, P = ran(E)
        stub_props(E)
        args = []
        if cls == "CyclicStressRatioProfile":
            E.stub("site.Layer.stress_vert", lambda self, depth_within=0, effective=False: (args.append((self, depth_within, effective)), fn("sv", self.thickness))[1])
            E.assume(E.all(n, lambda k: LT(0, fn("sv", th(k)))))
        calc = Calc(E, None, P, E.int("nf", 1))
        o = getattr(E.mod("output"), cls)()
        ran_as(E, o, calc)
        k = E.index("k", n - 1)
        E.eq("number of values", E.len(o.values), n)
        E.eq("number of depths", E.len(o.refs), n)
        q = QUANT[cls]
        E.eq("value of a layer", E.at(o.values, k + 1), q(E, P, k))
        E.eq("value at the surface", E.at(o.values, 0), 0 if cls == "MaxStrainProfile" else q(E, P, wrap(tm.ZERO)))
        E.eq("first depth", E.at(o.refs, 0), 0)
        if cls in MID:
            E.eq("depth: middle of the layer", E.at(o.refs, k + 1), top(E, k) + th(k) / 2)
        else:
            E.eq("depth: base of the layer", E.at(o.refs, k + 1), top(E, k) + th(k))
        for y, z, e in args:
            E.prove("effective stress at mid-layer", AND(EQ(z, y.thickness / 2), tm.TRUE if e is True else tm.FALSE))
        E.prove("stress taken", bool(args) or cls != "CyclicStressRatioProfile")
        E.reach()
    return u


_names = {"MaxStrainProfile": ["MaxStrainProfile.__call__", "ProfileBasedOutput.__call__"], "CyclicStressRatioProfile": ["CyclicStressRatioProfile.__call__", "ProfileBasedOutput.__call__"]}
for _c in QUANT:
    unit("C20", "profile-" + _c, [O + x for x in _names.get(_c, [_c + ".__call__"])])(prof(_c))


@unit("C20", "profile-MaxAccelProfile", [O + "MaxAccelProfile.__call__", O + "MaxAccelProfile._calc_accel"])
def _ma(E):
    n, P = start(E, 2)
    nf = E.int("nf", 2)
    site = E.mod("site")
    reqs = []

    class Place:
        def __init__(self, z):
            self.z = z

    def location(self, wave_field, depth=None, index=None):
        w = wave_field if isinstance(wave_field, str) else wave_field.name
        reqs.append((self is P, w, index))
        return Place(depth)
    E.stub("site.Profile.location", location)
    M = Freqs(E, nf)
    calc = Calc(E, M, P, nf)
    seen = []

    def accel(lin, lout):
        seen.append(lin is calc.loc_input)
        z = term_of(lout.z)
        return Arr((dimval(term_of(nf)),), lambda j: tm.app("tfz", (z, j), "C"), "C")
    calc.calc_accel_tf = accel
    M.calc_peak = lambda tf, **k: wrap(tm.app("peakOf", (term_of(E.at(tf, 0)), term_of(E.at(tf, nf - 1)))))
    o = E.mod("output").MaxAccelProfile()
    ran_as(E, o, calc)
    k = E.index("k", n)
    E.prove("from the input location", all(seen) and bool(seen))
    E.prove("within motion of the run's profile", all(a and w == "within" and ix is None for a, w, ix in reqs) and bool(reqs))
    E.eq("number of values", E.len(o.values), n)
    E.eq("depths: tops of the layers", E.at(o.refs, k), top(E, k))
    z = term_of(top(E, k))
    E.eq("peak acceleration", E.at(o.values, k), wrap(tm.app("peakOf", (tm.app("tfz", (z, tm.ZERO), "C"), tm.app("tfz", (z, term_of(nf - 1)), "C")))))
    E.reach()

KINDS = dict({c: prof(c) for c in QUANT}, AccelerationTSOutput=accel_ts("outcrop", "depth"), AriasIntensityTSOutput=_arias, StrainTSOutput=strain_ts(False), StressTSOutput=stress_ts(False, False),
             FourierAmplitudeSpectrumOutput=fas(False), ResponseSpectrumOutput=_rs, ResponseSpectrumRatioOutput=_rsr, AccelTransferFunctionOutput=atf(False, True), MaxAccelProfile=_ma)


@unit("C20", "location-reused", [O + "OutputLocation.__call__", O + "OutputLocation.__init__"])
def _lr(E):
    """a declared location serves another run, on another profile of as many layers"""
    from props.c10 import start
    n, Q = start(E, 3)
    Pr = E.mod("site").Profile
    A, B = Pr(Q[1:], 0), Pr(Q[:-1], 0)
    made = locations(E, A)
    z, ix = E.real("z"), E.int("ix")
    L = E.mod("output").OutputLocation
    for kw in ({"depth": z}, {"index": ix}):
        del made[:]
        o = L("within", **kw)
        o(A)
        got = o(B)
        E.prove("asked of each profile", len(made) == 2 and got is made[1][4])
        if len(made) == 2:
            declared(E, "location", made[1], B, wfs(E)["within"], **kw)
    E.reach()

from props.rlib import *
from props.rlib import profile as rprofile


@group("C20", "outputs of a run", 50)
def go(h):
    p = rprofile(h, n=h.rng.choice([2, 3, 5]), thick=(1, 15))
    m = ts_motion(h, n=h.rng.choice([64, 129]))
    eql = h.rng.random() < 0.5
    c = propagation.EquivalentLinearCalculator() if eql else propagation.LinearElasticCalculator()
    try:
        c(m, p, p.location("outcrop", index=-1))
    except RuntimeError:
        raise Skip()
    O = output
    L = O.OutputLocation
    n = len(p)
    zmax = float(p[-1].depth)
    z = u(h, 0, zmax)
    fr = np.sort(np.exp(h.nprng.uniform(np.log(0.2), np.log(40), 12)))
    bw = h.rng.choice([20, 30, 50])
    h.note(profile=desc(p), dt=m.time_step, n=len(m.accels), depth=z, eql=eql)
    loc = lambda w, **k: p.location(w, **k)
    dt = m.time_step
    wf = h.rng.choice(["outcrop", "within", "incoming_only"])

    c0 = None
    if h.rng.random() < 0.6:
        # the outputs served another run before
        q = rprofile(h, n=n, thick=(zmax / (n - 1) + 1, zmax / (n - 1) + 15), kinds=["linear"])
        c0 = propagation.LinearElasticCalculator()
        c0(m, q, q.location("outcrop", index=-1))

    def run(o, reuse=True):
        if c0 is None or not reuse:
            o(c)
            return o.values
        with np.errstate(all="ignore"):
            o(c0)
        o(c)
        return o.values[:, -1]
    ta = c.calc_accel_tf(c.loc_input, loc(wf, depth=z))
    base = m.calc_time_series(ta)
    o = O.AccelerationTSOutput(L(wf, depth=z))
    h.close(run(o), base, "acceleration")
    ref_of = lambda o: o.refs if o.refs.ndim == 1 else o.refs[:, -1]      # noqa: E731
    h.close(ref_of(o), dt * np.arange(len(base)), "times")
    o = O.AriasIntensityTSOutput(L(wf, depth=z))
    v = run(o)
    h.check(len(v) == len(base) == len(ref_of(o)), "Arias intensity: one value per time")
    exp = np.concatenate([[0], np.cumsum((base[1:] ** 2 + base[:-1] ** 2) / 2 * dt)]) * np.pi / 2 * G0
    h.close(v, exp, "Arias intensity", rtol=1e-3)
    ts = c.calc_strain_tf(c.loc_input, loc("within", depth=z))
    pc = h.rng.random() < 0.5
    h.close(run(O.StrainTSOutput(L("within", depth=z), in_percent=pc)), (100 if pc else 1) * m.calc_time_series(ts), "strain", atol=1e-14)
    lo = loc("within", depth=z)
    d, nm = h.rng.random() < 0.5, h.rng.random() < 0.5
    sv = float(lo.stress_vert(True))
    with np.errstate(all="ignore"):
        tt = c.calc_stress_tf(c.loc_input, lo, d) / (sv if nm else 1)
        if sv > 0:
            h.close(run(O.StressTSOutput(L("within", depth=z), damped=d, normalized=nm)), m.calc_time_series(tt), "stress")
    import pykooh
    fas = np.abs(ta * m.fourier_amps)
    h.close(run(O.FourierAmplitudeSpectrumOutput(fr, L(wf, depth=z), ko_bandwidth=None)), np.interp(fr, m.freqs, fas), "Fourier spectrum")
    h.close(run(O.FourierAmplitudeSpectrumOutput(fr, L(wf, depth=z), ko_bandwidth=bw)), pykooh.smooth(fr, m.freqs, fas, bw), "smoothed Fourier spectrum")
    D = h.rng.choice([0.02, 0.05, 0.2])
    sa = m.calc_osc_accels(fr, D, ta)
    h.close(run(O.ResponseSpectrumOutput(fr, L(wf, depth=z), D)), sa, "response spectrum")
    k = h.rng.randrange(n)
    si = m.calc_osc_accels(fr, D, c.calc_accel_tf(c.loc_input, loc("within", index=k)))
    h.close(run(O.ResponseSpectrumRatioOutput(fr, L("within", index=k), L(wf, depth=z), D)), sa / si, "response spectrum ratio")
    t2 = c.calc_accel_tf(loc("outcrop", index=k), loc(wf, depth=z))
    ab = h.rng.random() < 0.5
    y = np.abs(t2) if ab else t2
    h.close(run(O.AccelTransferFunctionOutput(fr, L("outcrop", index=k), L(wf, depth=z), absolute=ab)), np.interp(fr, m.freqs, y), "transfer function")
    th = np.array([x.thickness for x in p], float)
    top = np.concatenate([[0], np.cumsum(th)[:-1]])
    mid = top + th / 2
    rep = lambda v: np.concatenate([[v[0]], v])
    soil_ = list(p)[:-1]
    for cls, vals, ref in (
            ("MaxStrainProfile", np.concatenate([[0], [float(x.strain_max) for x in soil_]]) if eql else None, np.concatenate([[0], mid[:-1]])),
            ("DampingProfile", rep([float(x.damping) for x in soil_]), top),
            ("ShearModReducProfile", rep([float(x.shear_mod_reduc) for x in soil_]), top),
            ("InitialVelProfile", rep([float(x.initial_shear_vel) for x in soil_]), top),
            ("CompatVelProfile", rep([float(x.shear_vel) for x in soil_]), top),
            ("CyclicStressRatioProfile", 0.65 * rep([float(x.shear_mod * x.strain_max / x.stress_vert(x.thickness / 2, True)) for x in soil_]) if eql else None, np.concatenate([[0], mid[:-1]])),
            ("MaxAccelProfile", np.array([m.calc_peak(c.calc_accel_tf(c.loc_input, loc("within", depth=float(t)))) for t in top]), top)):
        if vals is None:
            continue
        o = getattr(O, cls)()
        with np.errstate(all="ignore"):
            h.close(run(o, False), vals, cls)
        h.close(o.refs, ref, cls + " depths")

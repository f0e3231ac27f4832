"""Contract runs for C04: the statement, checked on real runs of both calculators."""
from props.rlib import *
from props.c14_run import snap


def state(p):
    return [(y.strain, y.strain_max, y.shear_mod, y.damping) for y in p]


def same(a, b):
    return all((x is None and z is None) or (x is not None and z is not None and np.array_equal(x, z)) for u, v in zip(a, b) for x, z in zip(u, v))


def geometry(p):
    return [(y.thickness, y.depth, y.initial_shear_vel, y.damping_min, y.unit_wt, id(y.soil_type)) for y in p]


class Spy:
    """the real calculator, with every computed set of waves and strain recorded"""

    def __init__(self, calc):
        self.calc, self.waves, self.limited = calc, 0, []
        wav, lim = calc._calc_waves, calc.strain_limit
        strain = calc._calc_strain

        def waves(*a):
            self.waves += 1
            self.limited.append(False)
            return wav(*a)

        def st(*a):
            s = strain(*a)
            if lim and np.any(s > lim):
                self.limited[-1] = True
            return s
        calc._calc_waves, calc._calc_strain = waves, st


def make(h, fd):
    lim = h.rng.choice([None, 0.05, lu(h, 1e-5, 1e-3)])
    kw = dict(strain_ratio=u(h, 0.3, 1.0), tolerance=h.rng.choice([0.01, 1.0, 5.0]), max_iterations=h.rng.choice([0, 1, 2, 3, 5, 15, 40]), strain_limit=lim)
    if not fd:
        return lambda: propagation.EquivalentLinearCalculator(**kw), kw
    m = h.rng.choice(["ka02", "zr15", "ko:30"])
    kw["method"] = m
    return lambda: propagation.FrequencyDependentEqlCalculator(**kw), kw


def estimate_fails(m, p, loc, kw):
    q = site.Profile([y.copy() for y in p], p.wt_depth)
    try:
        with np.errstate(all="ignore"):
            propagation.EquivalentLinearCalculator(strain_ratio=kw["strain_ratio"], strain_limit=kw["strain_limit"])(m, q, q.location(loc.wave_field.name, index=-1))
    except RuntimeError:
        return True
    return False


def go(h, fd):
    p = profile(h, n=h.rng.choice([2, 3, 4]), wt=0, kinds=["table", "linear", "mixed"][: h.rng.choice([1, 2, 3])], thick=(2, 30), vel=(100, 800))
    q, first = p.copy(), None
    m = ts_motion(h, n=h.rng.choice([64, 128]), dt=0.02, amp=lu(h, 1e-3, 0.6))
    mk, kw = make(h, fd)
    reset = h.rng.random() < 0.8
    if fd and kw["strain_limit"] is None and h.rng.random() < 0.5:      # far beyond the default limit
        m = ts_motion(h, n=64, dt=0.02, amp=u(h, 3, 30))
    loc = p.location(h.rng.choice(["outcrop", "within"]), index=-1)
    h.note(layers=desc(p), options=kw, reset=reset, peak=float(np.max(np.abs(m.accels))))
    dirty = h.rng.random() < 0.6
    if dirty:           # what was run before
        for y in p:
            y.strain = lu(h, 1e-6, 1e-2)
        try:
            propagation.EquivalentLinearCalculator(0.65)(ts_motion(h, n=64, dt=0.02), p, loc)
        except RuntimeError:
            pass
    geo = geometry(p)
    c = mk()
    spy = Spy(c)
    try:
        with np.errstate(all="ignore"):
            c(m, p, loc, reset_layers=reset)
        ok = True
    except RuntimeError:
        ok = False
    except np.linalg.LinAlgError:
        raise Skip()
    h.check(geometry(p) == geo, "geometry, initial velocity, density and minimum damping unchanged")
    lim, tol, mx = kw["strain_limit"], kw["tolerance"], kw["max_iterations"]
    its = spy.waves - 1
    if not ok:
        # the estimate of a frequency-dependent run is itself an equivalent-linear run
        if fd and its < 1:
            h.check(estimate_fails(m, p, loc, kw), "the first estimate follows the options of the run")
        if not fd or its >= 1:
            h.check(lim and len(spy.limited) >= 3 and spy.limited[-1] and spy.limited[-2], "fails only when limited twice in a row")
            h.check(not max(p.max_error) < tol, "fails only without convergence")
    else:
        h.check(its <= mx, "no more than the limit of iterations")
        err = max(y.max_error for y in p)
        h.check(its == mx or err < tol, "converged or the last iteration")
        for a, b in zip(spy.limited[1:-1], spy.limited[2:]):
            if a and b and its < mx:
                # limited twice in a row ends the run, unless the second converged
                h.check(b is spy.limited[-1] and err < tol, "a run limited twice in a row goes on")
        for i, y in enumerate(p[:-1]):
            ll = site.Location(i, y, "within", y.thickness / 2)
            tf = c.calc_strain_tf(loc, ll)
            peak = m.calc_peak(tf)
            h.close(y.strain_max, peak, "peak strain of the last waves", rtol=1e-9)
            if mx:
                if not fd:
                    eff = kw["strain_ratio"] * peak
                    h.close(y.strain, min(eff, lim) if lim else eff, "effective strain", rtol=1e-9)
                else:
                    s = np.asarray(y.strain)
                    h.check(s.shape == np.shape(m.freqs), "a strain for every frequency")
                    if kw["method"] == "zr15":
                        fas = np.abs(tf * m.fourier_amps)
                        w = kw["strain_ratio"] * peak * fas / fas.max()
                        h.close(s, np.minimum(w, lim) if lim else w, "strain spectrum", rtol=1e-9)
                    elif kw["method"] != "ka02" and not lim:
                        h.close(s.max(), kw["strain_ratio"] * peak, "largest strain", rtol=1e-9)
                    h.check(not lim or np.all(s <= lim), "capped at the limit")
    if reset:
        q = site.Profile([y.copy() for y in q], q.wt_depth)
        c2 = mk()
        try:
            with np.errstate(all="ignore"):
                c2(m, q, q.location(loc.wave_field.name, index=-1), reset_layers=True)
            ok2 = True
        except RuntimeError:
            ok2 = False
        h.check(ok2 == ok, "the same end whatever was run before")
        if ok:
            h.check(same(state(p), state(q)), "the same result whatever was run before")
            h.check(np.array_equal(c._waves_a, c2._waves_a), "the same waves whatever was run before")


@group("C04", "equivalent-linear", 160)
def a(h):
    go(h, False)


@group("C04", "frequency-dependent", 60)
def b(h):
    go(h, True)


@group("C04", "scripted-strains", 120)
def c(h):
    """any sequence of strains, whatever the motion: when the iteration ends and with what"""
    p = profile(h, n=h.rng.choice([2, 3, 4]), wt=0, kinds=["table", "linear"][: h.rng.choice([1, 2])], thick=(2, 30), vel=(100, 800))
    m = ts_motion(h, n=64, dt=0.02)
    lim = h.rng.choice([1e-3, 1e-3, None])
    tol, mx = h.rng.choice([1e-3, 3.0, 20.0]), h.rng.choice([0, 1, 2, 3, 4, 6, 8])
    base = [lu(h, 1e-5, 1e-2) for _ in p]
    over = h.rng.uniform(0.02, 0.6)
    script = [[b * (1 if h.rng.random() < 0.3 else lu(h, 0.5, 2)) if h.rng.random() < 0.5 else lu(h, 1e-5, 1e-3) if h.rng.random() > over / len(p) else lu(h, 1e-3, 2e-3)
               for b in base] for _ in range(mx + 1)]
    c = propagation.EquivalentLinearCalculator(strain_ratio=1.0, tolerance=tol, max_iterations=mx, strain_limit=lim)
    count = [-1]
    wav = c._calc_waves

    def waves(*a):
        count[0] += 1
        return wav(*a)
    c._calc_waves = waves
    c._calc_strain = lambda li, ll, mo, *a: script[count[0] - 1][ll.index]
    h.note(layers=desc(p), script=script, limit=lim, tolerance=tol, iterations=mx)
    q = site.Profile([y.copy() for y in p], 0)
    # what should happen
    for y in q:
        y.reset()
        y.strain = m.pgv / 100 / y.initial_shear_vel
    want, its, lims = "done", 0, []
    for it in range(mx):
        its += 1
        for i, y in enumerate(q[:-1]):
            y.strain = min(script[it][i], lim) if lim else script[it][i]
        lims.append(bool(lim) and any(s > lim for s in script[it][:len(q) - 1]))
        if max(y.max_error for y in q) < tol:
            break
        if lims[-2:] == [True, True]:
            want = "fails"
            break
    try:
        c(m, p, p.location("outcrop", index=-1))
        got = "done"
    except RuntimeError:
        got = "fails"
    h.check(got == want and count[0] == its, "%s after %d iterations, expected %s after %d (limited: %s)" % (got, count[0], want, its, lims))
    h.check(got == "fails" or [y.strain for y in p] == [y.strain for y in q], "strains of the last iteration")

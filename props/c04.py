"""C04  equivalent-linear iteration ends consistent, converged and state-free

The iteration is verified for any number of layers and any iteration limit.
Waves are represented by a ghost stamp (how often they have been computed);
the peak strain is an arbitrary function of stamp and layer.  A layer is
represented by the strain set last (units layer-*); a frequency-dependent
strain is followed at one arbitrary frequency."""
from props.lib import *

_Q = "propagation.EquivalentLinearCalculator."
_F = "propagation.FrequencyDependentEqlCalculator."


class GhostMotion:
    def __init__(self, E):
        self.pgv = E.real("pgv", 0)
        self.angular_freqs = E.arr("w", E.int("nf", 1))

    def calc_peak(self, tf, **k):
        return fn("peak_of", tf.at(I0))


I0 = Sym(tm.ZERO).t


def ghost_layers(E, f0=None):
    """contract of a layer: its strain is what was set last (units layer-*)"""
    def strain(self, *v):
        if v:
            E.set(self, "gs", wrap(v[0].at(f0.t)) if isinstance(v[0], Arr) else v[0])
            return None
        return self.gs

    def reset(self):
        E.set(self, "gs", num(1e-6))
        E.set(self, "strain_max", None)
    E.stub("site.Layer.strain", strain)
    E.stub("site.Layer.reset", reset)


def setup(E, limit, fd=False):
    n = E.int("n", 2)
    facts(E, n)
    mo = GhostMotion(E)
    nf = mo.angular_freqs.shape[0]
    f0 = E.index("f", wrap(nf)) if fd else None
    ghost_layers(E, f0)
    prop = E.mod("propagation")

    def one(k):
        y = layer(E, k)
        y.gs = fn("before", k)
        y.strain_max = fn("before_max", k)
        y.idx = k
        return y
    P = E.mod("site").Profile(build(E, n, one))
    ratio, tol, mx = E.real("ratio", 0), E.real("tol", 0), E.int("mx", 0)
    lim = E.real("lim", 0) if limit else None
    calc = prop.FrequencyDependentEqlCalculator("zr15", ratio, tol, mx, lim) if fd else prop.EquivalentLinearCalculator(ratio, tol, mx, lim)
    calc.stamp = num(0)

    def waves(self, w, p):
        E.set(self, "stamp", self.stamp + 1)
    E.stub("propagation.LinearElasticCalculator._calc_waves", waves)
    # the linear run that precedes the iteration computes the waves with stamp 0
    E.stub("propagation.LinearElasticCalculator.__call__", lambda self, m, p, loc, reset_layers=True, **k: prop.AbstractCalculator.__call__(self, m, p, loc, reset_layers=reset_layers))
    E.stub(_Q + "_calc_strain_max", lambda self, loc_in, loc, motion, *a: fn("peak", self.stamp, loc.index))
    E.stub("site.Layer.max_error", lambda self: fn("err", calc.stamp, self.idx))
    if fd:
        E.stub(_F + "_calc_strain", lambda self, loc_in, loc, motion, *a: Arr((nf,), lambda f: tm.app("eff", (term_of(self.stamp), term_of(loc.index), f), "R"), "R"))
        # some first estimate that resets the layers (unit fd-estimate)
        E.stub(_F + "_estimate_strains", lambda self: prop.EquivalentLinearCalculator._estimate_strains(self))
    return n, P, calc, ratio, tol, mx, lim, mo, f0, wrap(nf)


def run(limit, reset, fd=False):
    def u(E):
        n, P, calc, ratio, tol, mx, lim, mo, f0, nf = setup(E, limit, fd)
        E.assume(LE(0, mx))
        loc = E.mod("site").Location(0, P[0], "outcrop", 0)
        if fd:
            eff = lambda s, k: fn("eff", s, k, f0)      # noqa: E731
            capped = lambda s: E.some(n - 1, lambda k: E.some(nf, lambda f: LT(lim, fn("eff", s, k, f))))      # noqa: E731
        else:
            eff = lambda s, k: ratio * fn("peak", s, k)      # noqa: E731
            capped = lambda s: E.some(n - 1, lambda k: LT(lim, eff(s, k)))      # noqa: E731
        try:
            calc(mo, P, loc, reset_layers=reset)
            ok = True
        except RuntimeError:
            ok = False
        s = calc.stamp
        k = E.index("k", n - 1)
        if not ok:
            E.prove("fails only when limited twice in a row", AND(limit, LE(2, s), capped(s), capped(s - 1)) if limit else False)
            E.prove("fails only without convergence", E.some(n, lambda k: LE(tol, fn("err", s, k))))
            E.prove("fails before the limit of iterations", LE(s, mx))
            E.reach()
            return
        y, z = P[k], P[E.index("q", n)]
        before = fn("before", k) if not reset else mo.pgv / 100 / fn("vs", k)
        E.prove("converged or the last iteration", OR(AND(LT(0, mx), E.all(n, lambda k: LT(fn("err", s, k), tol))), EQ(s, mx)))
        E.prove("no more than the limit of iterations", LE(s, mx))
        if fd and limit:
            E.cut("either some frequency is limited or this one is not", OR(E.some(nf, lambda f: LT(lim, fn("eff", s, k, f))), LE(eff(s, k), lim)))
        now = ITE(LT(lim, eff(s, k)), lim, eff(s, k)) if limit else eff(s, k)
        E.prove("effective strain of the last waves", IMP(LT(0, mx), EQ(y.strain, now)))
        E.prove("untouched without an iteration", IMP(EQ(mx, 0), EQ(y.strain, before)))
        E.eq("peak strain of the last waves", y.strain_max, fn("peak", s, k))
        E.eq("thickness", z.thickness, fn("th", E.index("q", n)))
        E.eq("initial velocity", z.initial_shear_vel, fn("vs", E.index("q", n)))
        E.eq("minimum damping", z.damping_min, fn("dm", E.index("q", n)))
        E.eq("unit weight", z.unit_wt, fn("uw", E.index("q", n)))
        E.reach()
    unit("C04", "%s-%s-%s" % ("fd" if fd else "run", "limit" if limit else "no-limit", "reset" if reset else "continue"), [_Q + "__call__"])(u)


for _l in (True, False):
    for _r in (True, False):
        run(_l, _r)
        run(_l, _r, True)


# ------------------------------------------------------------------ the parts
def tf(E, mo):
    """strain transfer function of the current waves at any frequency"""
    def f(self, lin, lout):
        return Arr(mo.angular_freqs.shape, lambda i: tm.app("tf", (term_of(self.stamp), term_of(lin.index), term_of(lout.index), i), "C"), "C")
    E.stub("propagation.LinearElasticCalculator.calc_strain_tf", f)


@unit("C04", "strain-measure", [_Q + "_calc_strain", _Q + "_calc_strain_max"])
def u(E):
    """effective strain = ratio * peak of the mid-layer strain transfer function of the current waves"""
    mo = GhostMotion(E)
    ratio = E.real("ratio", 0)
    calc = E.mod("propagation").EquivalentLinearCalculator(ratio, E.real("tol", 0), 5, E.real("lim", 0))
    calc.stamp = E.int("s", 0)
    tf(E, mo)
    seen = []

    def peak(t, **k):
        seen.append(t)
        return fn("peak", calc.stamp)
    mo.calc_peak = peak
    y = layer(E, 0)
    L = E.mod("site").Location
    lin, lout = L(E.int("a", 0), y, "outcrop", 0), L(E.int("b", 0), y, "within", y.thickness / 2)
    E.eq("effective", calc._calc_strain(lin, lout, mo), ratio * fn("peak", calc.stamp))
    E.eq("peak", calc._calc_strain_max(lin, lout, mo), fn("peak", calc.stamp))
    i = E.index("i", wrap(mo.angular_freqs.shape[0]))
    E.prove("measured twice", len(seen) == 2)
    for t in seen:
        E.eq("mid-layer transfer function", wrap(t.at(i.t)), wrap(tm.app("tf", tuple(term_of(x) for x in (calc.stamp, lin.index, lout.index, i)), "C")))
    E.reach()


def part(kind):
    @unit("C04", "layer-" + kind, ["site.Layer.reset", "site.Layer.strain", "site.IterativeValue.value"])
    def u(E):
        """reset forgets everything; the strain read is the one set last; nothing else is kept"""
        curve_contract(E)
        facts(E, 1)
        E.assume(E.all(1, lambda k: LT(0, fn("dm", k))))
        a, b = layer(E, 0, kind), layer(E, 0, kind)
        if kind != "linear":
            x, z = E.real("any_x"), E.real("any_z")
            E.assume(E.all(1, lambda k: AND(*[LT(0, fn(q, k, v)) for q in ("mr",) for v in (x, z)])))
        s1, s2 = E.real("s1"), E.real("s2")
        for v in (E.real("h1"), E.real("h2"), E.real("h3")):      # an earlier run
            a.strain = v
        a.strain_max = E.real("h4")
        a.reset()
        E.prove("peak strain forgotten", a.strain_max is None)
        for y in (a, b):
            y.strain = s1
        for w in ("strain", "shear_mod", "damping"):
            E.eq(w + " independent of the past", getattr(a, w), getattr(b, w))
            E.eq(w + " before", getattr(a, "_" + w).previous if w != "strain" or kind != "linear" else 0, getattr(b, "_" + w).previous if w != "strain" or kind != "linear" else 0)
        g = a.shear_mod
        a.strain = s2
        E.eq("strain set last", a.strain, s2)
        E.eq("modulus before", a._shear_mod.previous, g)
        E.eq("velocity", a.initial_shear_vel, fn("vs", 0))
        E.eq("thickness", a.thickness, fn("th", 0))
        E.eq("minimum damping", a.damping_min, fn("dm", 0))
        E.eq("unit weight", a.unit_wt, fn("uw", 0))
        E.reach()


for _k in ("linear", "nonlinear"):
    part(_k)


@unit("C04", "estimate", [_Q + "_estimate_strains"])
def u(E):
    """the first estimate: peak velocity over initial velocity in every layer, whatever was there"""
    n = E.int("n", 1)
    facts(E, n)
    ghost_layers(E)

    def one(k):
        y = layer(E, k)
        y.gs, y.strain_max = fn("before", k), fn("before_max", k)
        return y
    calc = E.mod("propagation").EquivalentLinearCalculator()
    calc._motion, calc._profile = GhostMotion(E), E.mod("site").Profile(build(E, n, one))
    calc._estimate_strains()
    k = E.index("k", n)
    E.eq("strain", calc._profile[k].strain, calc._motion.pgv / 100 / fn("vs", k))
    E.prove("peak strain forgotten", calc._profile[k].strain_max is None)
    E.reach()


@unit("C04", "fd-estimate", [_F + "_estimate_strains"])
def u(E):
    """the frequency-dependent run starts from an equivalent-linear run that resets the layers"""
    n = E.int("n", 2)
    P = profile(E, n)
    prop = E.mod("propagation")
    ratio, lim = E.real("ratio", 0), E.real("lim", 0)
    calc = prop.FrequencyDependentEqlCalculator("zr15", ratio, E.real("tol", 0), 7, lim)
    mo = GhostMotion(E)
    loc = E.mod("site").Location(0, P[0], "outcrop", 0)
    calc._motion, calc._profile, calc._loc_input = mo, P, loc
    seen = []

    def call(self, m, p, li, reset_layers=True, **k):
        seen.append((self, m, p, li, reset_layers))
    E.stub(_Q + "__call__", call)
    calc._estimate_strains()
    E.prove("one run", len(seen) == 1)
    self, m, p, li, r = seen[0]
    E.prove("a calculator of its own", self is not calc and type(self) is prop.EquivalentLinearCalculator)
    E.prove("same motion, profile and location", m is mo and p is P and li is loc)
    E.prove("resets the layers", r is True)
    E.eq("strain ratio", self.strain_ratio, ratio)
    E.eq("strain limit", self.strain_limit, lim)
    E.reach()


@unit("C04", "fd-strain", [_F + "_calc_strain"])
def u(E):
    """zr15: the strain spectrum is the shape of the strain amplitudes scaled to the effective strain"""
    mo = GhostMotion(E)
    nf = mo.angular_freqs.shape[0]
    mo.freqs = E.arr("fq", wrap(nf))
    mo.fourier_amps = Arr((nf,), lambda i: tm.app("fa", (i,), "C"), "C")
    ratio = E.real("ratio", 0)
    calc = E.mod("propagation").FrequencyDependentEqlCalculator("zr15", ratio, E.real("tol", 0), 5, E.real("lim", 0))
    calc.stamp = E.int("s", 0)
    tf(E, mo)
    mo.calc_peak = lambda t, **k: fn("peak", calc.stamp)
    y = layer(E, 0)
    L = E.mod("site").Location
    lin, lout = L(E.int("a", 0), y, "outcrop", 0), L(E.int("b", 0), y, "within", y.thickness / 2)
    amp = lambda i: wrap(tm.abs_(tm.mul(tm.app("tf", tuple(term_of(x) for x in (calc.stamp, lin.index, lout.index, i)), "C"), tm.app("fa", (term_of(i),), "C"))))      # noqa: E731
    E.assume(LT(0, amp(0)), LE(0, fn("peak", calc.stamp)))
    r = calc._calc_strain(lin, lout, mo)
    i = E.index("i", wrap(nf))
    E.eq("shape", wrap(r.at(i.t)) * E.max(wrap(nf), amp), ratio * fn("peak", calc.stamp) * amp(i))
    E.reach()

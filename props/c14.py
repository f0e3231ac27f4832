"""C14  varying or copying a profile never disturbs the original"""
from props.lib import *
from props.frame import Frame
from props.c10 import th
from props.c12 import vs

_S = "variation.SoilTypeVariation."


def after_run(E, lo=2, wt=None):
    """a profile of nonlinear soils whose layers carry the strains of a run"""
    n = E.int("n", lo)
    facts(E, n)
    E.assume(E.all(n, lambda k: AND(LT(0, fn("strain", k)), LE(1, fn("mr_n", k, sort="I")), LE(1, fn("dp_n", k, sort="I")))))

    def one(k):
        y = layer(E, k, "nonlinear")
        y.strain = fn("strain", k)
        y.strain_max = fn("smax", k)
        return y
    curve_contract(E)
    return n, E.mod("site").Profile(build(E, n, one), E.real("wt"))


def carried(E, Q, P, n, i, soil=True, vel=True, thick=True, count=True):
    if count:
        E.eq("number of layers", E.len(Q), n)
    E.eq("water table", Q.wt_depth, E.real("wt"))
    if thick:
        E.eq("thickness", Q[i].thickness, th(i))
    if vel:
        E.eq("initial velocity", Q[i].initial_shear_vel, vs(i))
    E.eq("minimum damping", Q[i].damping_min, fn("dm", i))
    E.eq("unit weight", Q[i].unit_wt, fn("uw", i))
    if soil:
        E.prove("soil type", SAME(Q[i].soil_type, P[i].soil_type))
    E.prove("layers of its own", NOT(SAME(Q[i], P[i])))
    E.prove("owned by the new profile", Q[i]._profile is Q)


@unit("C14", "layer-copy", ["site.Layer.copy"])
def _lc(E):
    n, P = after_run(E)
    i = E.index("i", n)
    f = Frame(E, P, n, i)
    y = P[i].copy()
    E.eq("initial velocity", y.initial_shear_vel, vs(i))
    E.eq("thickness", y.thickness, th(i))
    E.eq("minimum damping", y.damping_min, fn("dm", i))
    E.prove("soil type", SAME(y.soil_type, P[i].soil_type))
    E.prove("not yet part of a profile", y._profile is None)
    E.eq("modulus of an undisturbed layer", y.shear_mod, y.initial_shear_mod)
    f.check()
    E.reach()


@unit("C14", "profile-copy", ["site.Profile.copy", "site.Layer.copy"])
def _pc(E):
    n, P = after_run(E)
    i = E.index("i", n)
    f = Frame(E, P, n, i)
    Q = P.copy()
    E.prove("a new profile", Q is not P and Q.layers is not P.layers)
    carried(E, Q, P, n, i)
    f.check()
    Q.wt_depth = E.real("other")
    Q[i].initial_shear_vel = E.real("v", 0)
    Q[i].strain = E.real("e", 0)
    f.check("after editing the copy: ")
    E.reach()


@unit("C14", "soil-type-copy", ["site.SoilType.copy"])
def _sc(E):
    site = E.mod("site")
    g, d = curve(E, "mod_reduc", "g"), curve(E, "damping", "d")
    s = site.SoilType("s", E.real("u"), g, d)
    t = s.copy()
    E.prove("new object", t is not s)
    E.prove("name", t.name == "s")
    E.eq("unit weight", t.unit_wt, E.real("u"))
    E.prove("curves", t.mod_reduc is g and t.damping is d and s.mod_reduc is g and s.damping is d)
    E.reach()


def velocity(bed):
    def u(E):
        n, P = after_run(E)
        V = E.mod("variation")
        v = V.ToroVelocityVariation(*[E.real(p) for p in ("ln_std", "rho_0", "delta", "rho_200", "h_0", "b")], bed)
        rho, sd = E.arr("rho", n - 1), E.arr("sd", n)
        from dv.arrays import mkarr
        E.stub("variation.ToroVelocityVariation._calc_corr", lambda self, p: mkarr((n - 1,), lambda k: T(E.at(rho, k))))
        E.stub("variation.ToroVelocityVariation._calc_ln_std", lambda self, p: mkarr((n,), lambda k: T(E.at(sd, k))))
        i = E.index("i", n)
        f = Frame(E, P, n, i)
        Q = v(P)
        E.prove("a new profile", Q is not P)
        carried(E, Q, P, n, i, vel=False)
        if not bed:
            E.eq("bedrock velocity", Q[n - 1].initial_shear_vel, vs(n - 1))
        f.check()
        E.reach()
    return u


for _b in (True, False):
    unit("C14", "velocity-bedrock-%s" % ("varied" if _b else "kept"), ["variation.VelocityVariation.__call__", "site.Profile.copy", "site.Layer.copy"])(velocity(_b))


def curves(bed):
    def u(E):
        V, site = E.mod("variation"), E.mod("site")
        n, P = after_run(E)
        E.stub(_S + "__call__", lambda self, st, sample_index=None: site.SoilType(st.name, st.unit_wt, None, fn("vD", st.unit_wt)))
        E.stub("site.Profile.iter_soil_types", lambda self: E.I.shims.map(lambda y: y.soil_type, self.layers))
        i = E.index("i", n)
        f = Frame(E, P, n, i)
        v = V.DarendeliVariation(E.real("rho"), vary_bedrock=bed)
        Q = v.vary_profile(P)
        E.prove("a new profile", Q is not P)
        carried(E, Q, P, n, i, soil=False)
        if not bed:
            E.prove("bedrock soil type", SAME(Q[n - 1].soil_type, P[n - 1].soil_type))
        f.check()
        E.reach()
    return u


for _b in (True, False):
    unit("C14", "curves-bedrock-%s" % ("varied" if _b else "kept"), [_S + "vary_profile"])(curves(_b))


def realise(mode):
    """one soil type: the varied one shares nothing with it that a draw changes"""
    def u(E):
        V, site = E.mod("variation"), E.mod("site")
        g, d = curve(E, "mod_reduc", "g"), curve(E, "damping", "d")
        st = site.SoilType("soil", E.real("uw", 0), g, d)
        E.stub("variation.TruncatedNorm.correlated", lambda self, *a: [E.real("r0"), E.real("r1")])
        E.stub("variation.TruncatedNorm.correlated_at_percentile", lambda self, *a: [E.real("r0"), E.real("r1")])
        E.stub("variation.%s._get_varied" % mode, lambda self, r, a, b: (a.map(lambda t: tm.app("vG", (t,))), b.map(lambda t: tm.app("vD", (t,)))))
        from props.frame import snap, same
        s = snap(st)
        v = getattr(V, mode)(E.real("rho"))
        R = v(st)
        E.prove("new soil type", R is not st)
        E.prove("curves of its own", R.mod_reduc is not g and R.damping is not d)
        E.eq("unit weight", R.unit_wt, E.real("uw"))
        E.prove("class", type(R) is type(st))
        same(E, "original soil type", s, st)
        same(E, "original modulus reduction", s[2]["mod_reduc"], g)
        v(st)
        same(E, "after a second draw: soil type", s, st)
        E.reach()
    return u


for _m in ("DarendeliVariation", "SpidVariation"):
    unit("C14", "soil-type-" + _m, [_S + "__call__"])(realise(_m))


@unit("C14", "sampling", ["variation.iter_varied_profiles", "site.Profile.copy"])
def _it(E):
    """every draw starts from the original: the k-th profile is the composition
    of the variations applied to a copy of the original"""
    V, site = E.mod("variation"), E.mod("site")
    n, P = after_run(E)
    N = E.int("N", 1)
    i = E.index("i", n)
    f = Frame(E, P, n, i)
    seen = []

    def stage(nm):
        def g(p):
            seen.append((nm, p is P))
            for y in (p[i],):
                y.initial_shear_vel = fn(nm, y.initial_shear_vel)      # a variation may work in place on what it is given
            return p
        return g
    soils = V.DarendeliVariation(E.real("rho"))
    E.stub(_S + "vary_profile", lambda self, p, sample_index=None: stage("soils")(p))
    R = E.I.shims.list(V.iter_varied_profiles(P, N, var_thickness=stage("thick"), var_velocity=stage("vel"), var_soiltypes=soils))
    E.eq("number of profiles", E.len(R), N)
    k = E.index("k", N)
    E.eq("thickness, then velocity, then curves", R[k][i].initial_shear_vel, fn("soils", fn("vel", fn("thick", vs(i)))))
    E.prove("never the original itself", not any(b for _, b in seen) and bool(seen))
    f.check()
    E.reach()

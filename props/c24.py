"""C24  depth-model helpers"""
from props.lib import *

_M = ["tools.calc_mean_eff_stress"]
_S = ["generic._simplify_profile"]


@unit("C24", "mean-effective-stress", _M)
def _m(E):
    n = E.int("n", 1)
    z, w = E.arr("z", n), E.arr("w", n)
    Z, W = (lambda k: E.at(z, k)), (lambda k: E.at(w, k))
    E.assume(E.all(n - 1, lambda k: LE(Z(k), Z(k + 1))), E.all(n, lambda k: LT(0, W(k))))
    wt, k0 = E.real("wt"), E.real("k0")
    v = E.mod("tools").calc_mean_eff_stress(z, w, wt, k0)
    i = E.index("i", n)
    t = lambda k: ITE(EQ(k, n - 1), 0, Z(k + 1) - Z(k))         # noqa: E731
    mid = Z(i) + t(i) / 2
    over = E.sum(i, lambda k: W(k) * t(k)) + W(i) * t(i) / 2
    head = mid - wt
    pw = num(9.81) * ITE(LT(0, head), head, 0)
    E.eq("mean effective stress", E.at(v, i), (1 + 2 * k0) / 3 * (over - pw))
    E.eq("one value per depth", E.len(v), n)
    d = E.mod("tools").calc_mean_eff_stress(z, w, wt)
    E.eq("default K0 is 0.5", E.at(d, i), num(2.0) / 3 * (over - pw))
    E.reach()


def _simple(n):
    def u(E):
        """any n depths, velocities and unit weights; every grouping"""
        z, v, w = E.arr("z", n), E.arr("v", n), E.arr("w", n)
        Z, V, W = (lambda k: E.at(z, k)), (lambda k: E.at(v, k)), (lambda k: E.at(w, k))
        for k in range(n):
            E.assume(LT(0, V(k)), LT(0, W(k)))
            if k:
                E.assume(LT(Z(k - 1) + num(1e-9), Z(k)))
        tol = E.real("tol", 0)
        df = E.I.shims.mods["pandas"].DataFrame({"depth": z, "vel_shear": v, "unit_wt": w})
        r = E.mod("generic")._simplify_profile(df, tol)
        d, vs, uw = r["depth"].values, r["vel_shear"].values, r["unit_wt"].values
        m = len(d)
        # the groups this path has formed, recomputed from the definition
        starts = [0]
        for k in range(1, n):
            f = starts[-1]
            far = LT(tol * V(f), ITE(LT(V(k), V(f)), V(f) - V(k), V(k) - V(f)))
            if E.c.decide(far):
                starts.append(k)
        E.prove("one row per group", len(starts) == m)
        if len(starts) != m:
            return
        th = [Z(k + 1) - Z(k) if k < n - 1 else num(0.0) for k in range(n)]
        for g, (a, b) in enumerate(zip(starts, starts[1:] + [n])):
            E.eq("starts at its first depth", E.at(d, g), Z(a))
            t = sum((th[k] for k in range(a, b)), num(0.0))
            if b == n and b - a == 1:
                E.eq("last single depth keeps its velocity", E.at(vs, g), V(a))
                E.eq("and its unit weight", E.at(uw, g), W(a))
                continue
            E.eq("travel time", t / E.at(vs, g), sum((th[k] / V(k) for k in range(a, b)), num(0.0)))
            if b < n:
                E.eq("weight", t * E.at(uw, g), sum((th[k] * W(k) for k in range(a, b)), num(0.0)))
        E.reach()
    return u


for _n in (1, 2, 3, 4, 5):
    unit("C24", "simplify-%d" % _n, _S, bounded="%d depths" % _n)(_simple(_n))

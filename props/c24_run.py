from props.rlib import *
import json
import tempfile
import os
import gzip
import pandas as pd


def mes(z, w, wt, k0):
    t = np.r_[np.diff(z), 0]
    tot = np.cumsum(w * t) - w * t / 2
    return (1 + 2 * k0) / 3 * (tot - np.maximum(0, 9.81 * (z + t / 2 - wt)))


def groups(v, tol):
    g = [[0]]
    for i in range(1, len(v)):
        f = v[g[-1][0]]
        if abs(v[i] - f) / f <= tol:
            g[-1].append(i)
        else:
            g.append([i])
    return g


def table(h):
    n = h.rng.choice([1, 2, 3, 6, 20, 60])
    z = np.r_[0, np.cumsum([lu(h, 0.1, 30) for _ in range(n - 1)])]
    v = np.cumprod([lu(h, 100, 400)] + [h.rng.choice([1, 1.01, 1.02, 0.985, 1.3, 0.7]) for _ in range(n - 1)])
    return z, v, np.array([u(h, 8, 32) for _ in range(n)])


@group("C24", "stress", 150)
def stress(h):
    z, v, w = table(h)
    wt, k0 = h.rng.choice([0, 5, float(z[-1]), 1e4]), u(h, 0.2, 2)
    h.note(z=z, w=w, wt=wt, k0=k0)
    a = h.rng.choice([list, np.array])
    h.close(tools.calc_mean_eff_stress(a(z), a(w), wt, k0), mes(z, w, wt, k0), "mean effective stress", rtol=1e-9, atol=1e-9)
    h.close(tools.calc_mean_eff_stress(z, w, wt), mes(z, w, wt, 0.5), "default K0", rtol=1e-9, atol=1e-9)


@group("C24", "simplify", 150)
def simp(h):
    z, v, w = table(h)
    tol = h.rng.choice([0.0, 0.02, 0.1, 0.5])
    h.note(z=z, v=v, w=w, tol=tol)
    r = generic._simplify_profile(pd.DataFrame({"depth": z, "vel_shear": v, "unit_wt": w}), tol)
    g = groups(v, tol)
    if not h.check(len(r) == len(g), "number of groups", "%d %d" % (len(r), len(g))):
        return
    t = np.r_[np.diff(z), 0]
    for i, k in enumerate(g):
        h.close(r["depth"].iloc[i], z[k[0]], "first depth of a group")
        T = t[k].sum()
        if T == 0:
            h.close(r["vel_shear"].iloc[i], v[k[0]], "velocity of the last depth")
            continue
        h.close(T / r["vel_shear"].iloc[i], np.sum(t[k] / v[k]), "travel time of a group", rtol=1e-9)
        h.close(T * r["unit_wt"].iloc[i], np.sum(t[k] * w[k]), "weight of a group", rtol=1e-7)


@group("C24", "load", 40)
def load(h):
    z, v, w = table(h)
    tol = h.rng.choice([0.02, 0.1])
    wt = u(h, 0, 50)
    data = {"response": {"results": [{"location": {"water_table_depth": wt}, "profile": {"vs": list(v), "density": list(w * 1000 / 9.81)}}]},
            "request": {"depths": {"depth_vector": list(z)}}}
    s = h.rng.random() < 0.5
    h.note(z=z, v=v, w=w, tol=tol, simplify=s)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "x.json")
        if h.rng.random() < 0.5:
            with gzip.open(f, "wt") as fp:
                json.dump(data, fp)
        else:
            with open(f, "w") as fp:
                json.dump(data, fp)
        df, got = generic.load_ncm_profile(f, s, tol)
    h.close(got, wt, "water table")
    if s:
        r = generic._simplify_profile(pd.DataFrame({"depth": z, "vel_shear": v, "unit_wt": w}), tol)
        zz, vv, ww = (r[k].values for k in ("depth", "vel_shear", "unit_wt"))
    else:
        zz, vv, ww = z, v, w
    h.close(df["depth"].values, zz, "depths")
    h.close(df["vel_shear"].values, vv, "velocities", rtol=1e-9)
    h.close(df["unit_wt"].values, ww, "unit weights", rtol=1e-9)
    h.close(df["mean_eff_stress"].values, mes(zz, ww, wt, 0.5), "mean effective stress", rtol=1e-8, atol=1e-8)
    h.close(df["thickness"].values, np.r_[np.diff(zz), 0], "thickness")

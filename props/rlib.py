"""Input generators and independent oracles for the contract runs."""
import numpy as np
from vk.concrete import group, Skip          # noqa: F401
import pystrata
from pystrata import site, motion, propagation, output, variation, tools, generic, logic_tree  # noqa: F401

G0 = 9.80665


def u(h, lo, hi):
    return h.rng.uniform(lo, hi)


def lu(h, lo, hi):
    return float(np.exp(h.rng.uniform(np.log(lo), np.log(hi))))


def curves(h, n=None):
    n = n or h.rng.randint(2, 9)
    st = np.sort(np.exp([h.rng.uniform(np.log(1e-6), np.log(0.05)) for _ in range(n)]))
    st = np.unique(np.round(st, 9))
    k = len(st)
    mr = np.sort([h.rng.uniform(0.02, 1) for _ in range(k)])[::-1]
    if h.rng.random() < 0.5:
        mr[0] = 1.0
    dm = np.sort([h.rng.uniform(0.002, 0.3) for _ in range(k)])
    return st, mr, dm


def soil(h, kind=None):
    kind = kind or h.rng.choice(["linear", "table", "darendeli", "mixed"])
    uw = u(h, 14, 25)
    name = h.rng.choice(["a", "b", "c", "soil", "rock"])
    if kind == "linear":
        return site.SoilType(name, uw, None, u(h, 0, 0.06))
    if kind == "darendeli":
        return site.DarendeliSoilType(uw, plas_index=u(h, 0, 100), ocr=lu(h, 1, 8), stress_mean=lu(h, 10, 1000), freq=u(h, 0.5, 10), num_cycles=u(h, 1, 100))
    st, mr, dm = curves(h)
    if kind == "mixed":
        return site.SoilType(name, uw, site.ModulusReductionCurve("x", st, mr), u(h, 0, 0.06)) if h.rng.random() < 0.5 else \
            site.SoilType(name, uw, None, site.DampingCurve("x", st, dm))
    return site.SoilType(name, uw, site.ModulusReductionCurve("x", st, mr), site.DampingCurve("y", st, dm))


def layers(h, n=None, kinds=None, thick=(0.5, 40), vel=(80, 3000), dup=0.2, halfspace=True):
    n = n or h.rng.choice([1, 2, 3, 4, 5, 8, 12])
    out = []
    for i in range(n):
        k = h.rng.choice(kinds) if kinds else None
        s = soil(h, k)
        if out and h.rng.random() < dup:
            p = out[-1]
            out.append(site.Layer(p.soil_type, p.thickness, p.initial_shear_vel, p.damping_min))
            continue
        dm = None if h.rng.random() < 0.5 else u(h, 0, 0.08)
        out.append(site.Layer(s, lu(h, *thick), lu(h, *vel), dm))
    if halfspace and h.rng.random() < 0.7:
        p = out[-1]
        out[-1] = site.Layer(p.soil_type, 0, p.initial_shear_vel, p.damping_min)
    return out


def profile(h, n=None, wt=None, **kw):
    if wt is None:
        wt = h.rng.choice([0, 0, 3.5, 10.0, 1e4])
    return site.Profile(layers(h, n, **kw), wt_depth=wt)


def desc(p):
    return [(round(x.thickness, 5), round(x.initial_shear_vel, 4), round(float(x.damping_min), 5), type(x.soil_type).__name__) for x in p]


def ts_motion(h, n=None, dt=None, amp=None):
    n = n or h.rng.choice([64, 100, 257, 512, 1000])
    dt = dt or h.rng.choice([0.005, 0.01, 0.02])
    t = np.arange(n) * dt
    a = h.nprng.normal(size=n) * np.exp(-((t - t[-1] / 3) / (t[-1] / 4)) ** 2)
    a *= (amp or lu(h, 1e-4, 0.5)) / np.max(np.abs(a))
    return motion.TimeSeriesMotion("x", "", dt, a)


def wave(f, p_waves, z):
    a, b, k = p_waves
    e = np.exp(1j * k * z)
    return {"within": a * e + b / e, "outcrop": 2 * a * e, "incoming_only": a * e}[f]

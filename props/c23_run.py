from props.rlib import *
import re
import contextlib
import io


@group("C23", "adjust", 150)
def go(h):
    p = profile(h, h.rng.choice([2, 3, 5, 9]), dup=0.3, kinds=["linear", "table"], halfspace=True)
    for y in p:
        y.damping_min = y.damping_min                 # a number from here on
    if h.rng.random() < 0.4:
        for y in p:                                   # as a nonlinear run leaves them
            y.strain = lu(h, 1e-6, 1e-2)
    names = [y.soil_type.name for y in p]
    how = h.rng.choice([None, "str", "list", "fn"])
    ex = {None: None, "str": h.rng.choice(["a", "s", "roc", "b|c"]), "list": h.rng.sample(["a", "b", "oil", "rock"], 2), "fn": None}[how]
    if how == "fn":
        lim = lu(h, 100, 3000)
        ex = lambda y: y.initial_shear_vel > lim      # noqa: E731
    def out(y):
        if how == "fn":
            return ex(y)
        if how == "str":
            return bool(re.match(ex, y.soil_type.name))
        return how == "list" and any(e in y.soil_type.name for e in ex)
    excl = [bool(out(y)) for y in p]
    before = [(y.damping_min, y.initial_shear_vel, y.thickness, y.damping, y.shear_vel) for y in p]
    att = sum(2 * y.damping_min * y.thickness / y.initial_shear_vel for y, e in zip(p, excl) if e)
    with contextlib.redirect_stdout(io.StringIO()):
        sc = tools.calc_atten_scatter(p.copy())
        h.check(sc >= 0, "scattering not negative")
        t = h.rng.choice([lu(h, 1e-3, 0.1), sc + att + lu(h, 1e-6, 0.05), sc + att * 0.9])
        inplace = h.rng.random() < 0.4
        h.note(layers=desc(p), names=names, how=how, ex=str(ex), target=t, inplace=inplace)
        ok = t - (sc + att) > 0 and not all(excl) and sum(y.thickness for y, e in zip(p, excl) if not e) > 0
        if not ok:
            if t - (sc + att) < -1e-12 or all(excl):
                h.raises(RuntimeError, lambda: tools.adjust_damping_values(p, t, ex, inplace), "unreachable target")
                h.check([(y.damping_min, y.initial_shear_vel, y.thickness, y.damping, y.shear_vel) for y in p] == before, "untouched after failure")
            return
        if t - (sc + att) < 1e-9:
            return
        q, s = tools.adjust_damping_values(p, t, ex, inplace)
    h.close(s, sc, "scattering returned", rtol=1e-9)
    h.check((q is p) == inplace, "in place only when asked")
    if not inplace:
        h.check([(y.damping_min, y.initial_shear_vel, y.thickness, y.damping, y.shear_vel) for y in p] == before, "original untouched")
    h.close(q.site_attenuation() + s, t, "target attenuation", rtol=1e-8)
    for y, e, b in zip(q, excl, before):
        if e:
            h.close(y.damping_min, b[0], "excluded layer")
        h.close(y.damping, y.damping_min, "current damping")
        h.close(y.initial_shear_vel, b[1], "velocity")
        h.close(y.thickness, b[2], "thickness")
    v = [y.damping_min * y.initial_shear_vel for y, e in zip(q, excl) if not e]
    h.close(v, np.full(len(v), v[0]), "inversely proportional to velocity", rtol=1e-9)


@group("C23", "scattering", 40)
def scattering(h):
    """difference between the high-frequency decay of the transfer function and the attenuation of the damping"""
    p = profile(h, h.rng.choice([2, 3, 5]), dup=0.3, kinds=["linear"], halfspace=True)
    fr = h.rng.choice([None, np.linspace(40, 120, 81)])
    h.note(layers=desc(p), freqs=None if fr is None else [40, 120, 81])
    f = np.linspace(50, 200, 256) if fr is None else fr
    y = np.array(p.thickness, float)
    vs = np.array([x.shear_vel for x in p])
    rho = np.array([x.soil_type.unit_wt for x in p]) / G0
    d = np.array([float(x.damping_min) for x in p])
    vc = np.sqrt(vs ** 2 * (np.sqrt(1 - 4 * np.minimum(d, 0.49) ** 2) + 2j * np.minimum(d, 0.49)))
    k = 2 * np.pi * f / vc[:, None]
    A = np.ones(len(f), complex)
    B = A.copy()
    for i in range(len(y) - 1):
        z = rho[i] * vc[i] / (rho[i + 1] * vc[i + 1])
        e = np.exp(1j * k[i] * y[i])
        A, B = (A * (1 + z) * e + B * (1 - z) / e) / 2, (A * (1 - z) * e + B * (1 + z) / e) / 2
    tf = 1 / A                                      # outcrop at the surface over outcrop at the half-space
    if not np.all(np.isfinite(tf)) or np.any(tf == 0):
        raise Skip()
    want = max(-np.polyfit(f, np.log(np.abs(tf)), 1)[0] / np.pi - np.sum(2 * d * y / vs), 0)
    got = tools.calc_atten_scatter(p) if fr is None else tools.calc_atten_scatter(p, fr)
    h.close(got, want, "scattering attenuation", rtol=1e-5, atol=1e-8)

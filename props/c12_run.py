from props.rlib import *


def tt(th, v, z):
    t = 0
    for k in range(len(th)):
        d = min(z, th[k]) if k < len(th) - 1 else z
        t += d / v[k]
        z -= d
        if z <= 0:
            break
    return t


@group("C12", "averages", 300)
def go(h):
    p = profile(h, dup=0.4, kinds=["linear", "table"], thick=(0.5, 40))
    th, v = np.array([y.thickness for y in p]), np.array([y.initial_shear_vel for y in p])
    tops = np.r_[0, np.cumsum(th)]
    z = h.rng.choice([u(h, 0.1, tops[-1] * 1.5 + 1), float(tops[h.rng.randrange(len(tops))]) or 1.0, 30])
    h.note(layers=desc(p), z=z)
    h.close(p.vs30(), 30 / tt(th, v, 30), "vs30", rtol=1e-9)
    h.close(p.time_average_vel(z), z / tt(th, v, z), "time average", rtol=1e-9)
    h.close(p.site_attenuation(), sum(2 * y.damping_min * y.thickness / y.initial_shear_vel for y in p), "attenuation", rtol=1e-9)
    h.close(p.slowness, 1 / v, "slowness")
    for y in p:
        y.strain = lu(h, 1e-6, 1e-2)
    h.close(p.site_attenuation(), sum(2 * y.damping_min * y.thickness / y.initial_shear_vel for y in p), "attenuation keeps the initial properties", rtol=1e-9)
    c = np.array([y.shear_vel for y in p])
    h.close(p.travel_time, th / c, "travel time after a nonlinear run", rtol=1e-9)
    h.close(p.time_average_vel(z), z / tt(th, c, z), "time average after a nonlinear run", rtol=1e-9)
    h.close(p.vs30(), 30 / tt(th, v, 30), "vs30 keeps the initial velocities", rtol=1e-9)
    h.close(p.slowness, 1 / v, "slowness keeps the initial velocities")

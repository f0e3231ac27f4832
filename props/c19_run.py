from props.rlib import *


@group("C19", "histories of runs", 200)
def go(h):
    cls = h.rng.choice(["plain", "const"])
    n0 = h.rng.randint(1, 6)
    user = np.arange(n0, dtype=float)
    o = output.Output() if cls == "plain" else output.ResponseSpectrumOutput(user, None, 0.05)
    for rnd in range(h.rng.choice([1, 2])):
        k = h.rng.randint(1, 6)
        runs, names = [], []
        own = h.rng.random() < 0.5 and cls == "plain"
        lens = [h.rng.randint(1, 7) for _ in range(k)]
        h.note(lens=lens, cls=cls, own=own, round=rnd)
        for i, n in enumerate(lens):
            v = np.exp(h.nprng.normal(size=n))
            given = h.rng.random() < 0.4
            output.Output.__call__(o, None, name="run-%d" % i if given else None)
            names.append("run-%d" % i if given else "r%d" % (i + 1))
            o._add_values(v.tolist() if h.rng.random() < 0.3 else v)
            if own:
                o._add_refs(np.arange(n) * (i + 1.0))
            runs.append(v.copy())
            if h.rng.random() < 0.3:
                v[:] = -1
                if i == 0:
                    runs[0] = np.array(o.values)      # the first run may share the caller's array
        h.check(list(o.names) == names, "names")
        V = o.values
        if k == 1:
            h.check(V.shape == (lens[0],), "shape")
            h.close(V, runs[0], "first run")
        else:
            h.check(V.shape == (max(lens), k), "shape")
            for j, r in enumerate(runs):
                h.check(np.array_equal(V[:len(r), j], r), "run %d" % j)
                h.check(np.all(np.isnan(V[len(r):, j])), "padding of run %d" % j)
        if own or cls == "const":
            res = list(o.iter_results())
            h.check([x[0] for x in res] == names, "iterated names")
            for j, (nm, ref, val) in enumerate(res):
                h.check(np.array_equal(val[:lens[j]], runs[j]), "iterated values %d" % j)
                e = np.arange(lens[j]) * (j + 1.0) if own else user
                h.check(np.array_equal(ref[:len(e)], e), "iterated references %d" % j)
        if k > 1 and (V > 0).any(axis=1).all():
            with np.errstate(all="ignore"):
                s = o.calc_stats()
            for i in range(V.shape[0]):
                g = np.log([r[i] for r in runs if len(r) > i and r[i] > 0])
                if len(g) and all(r[i] > 0 for r in runs if len(r) > i):
                    h.close(s["median"][i], np.exp(np.mean(g)), "median")
                    h.close(s["ln_std"][i], np.std(g), "deviation")
        o.reset()
        h.check(o.values is None and list(o.names) == [], "reset")
        h.check(len(o.refs) == (0 if cls == "plain" else n0), "references after reset")


@group("C19", "names of real runs", 12)
def real_names(h):
    from props import rlib
    p = rlib.profile(h, n=h.rng.choice([2, 3, 4]), thick=(1, 15))
    m = ts_motion(h, n=64)
    c = propagation.LinearElasticCalculator()
    c(m, p, p.location("outcrop", index=-1))
    L = output.OutputLocation
    fr = np.array([0.5, 1.0, 5.0])
    os_ = [output.AccelerationTSOutput(L("outcrop", index=0)), output.AriasIntensityTSOutput(L("outcrop", index=0)), output.StrainTSOutput(L("within", depth=0.5)),
           output.StressTSOutput(L("within", depth=0.5)), output.FourierAmplitudeSpectrumOutput(fr, L("outcrop", index=0)), output.ResponseSpectrumOutput(fr, L("outcrop", index=0), 0.05),
           output.ResponseSpectrumRatioOutput(fr, L("outcrop", index=-1), L("outcrop", index=0), 0.05), output.AccelTransferFunctionOutput(fr, L("outcrop", index=-1), L("outcrop", index=0)),
           output.DampingProfile(), output.ShearModReducProfile(), output.InitialVelProfile(), output.CompatVelProfile(), output.MaxAccelProfile()]
    col = output.OutputCollection(os_)
    names = ["first", ("second", 2)]
    for nm in names:
        col(c, name=nm)
    for o in os_:
        h.check(list(o.names) == names and o.values.shape[1] == 2, "names of " + type(o).__name__)

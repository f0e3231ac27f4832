from props.rlib import *


def oracle(st, v, lim, e):
    e = max(e, 1e-9)
    if e <= st[0]:
        r = v[0]
    elif e >= st[-1]:
        r = v[-1]
    else:
        i = int(np.searchsorted(st, e, side="right")) - 1
        r = v[i] + (v[i + 1] - v[i]) * (np.log(e) - np.log(st[i])) / (np.log(st[i + 1]) - np.log(st[i]))
    return min(max(r, lim[0]), lim[1])


@group("C06", "curves", 150)
def go(h):
    st, mr, dm = curves(h)
    cls, v, lim = h.rng.choice([(site.ModulusReductionCurve, mr, (0.001, 1)), (site.DampingCurve, dm, (0, 0.49))])
    if h.rng.random() < 0.4:
        v = v * h.rng.choice([1, 3, -1])
    if h.rng.random() < 0.4:
        v = h.rng.sample(list(v), len(v))
    kw = {}
    if h.rng.random() < 0.5:
        a, b = sorted([u(h, -0.1, 1), u(h, -0.1, 1)])
        lim = kw["limits"] = (a, b)
    seq = h.rng.choice([list, tuple, np.array])
    c = cls("c", seq(st), seq(v), **kw)
    h.note(strains=st, values=v, limits=lim, cls=cls.__name__)

    def probe(tag):
        es = list(st) + [0.0, -1.0, st[0] / 3, st[-1] * 3, 1e-12] + [lu(h, st[0] / 2, st[-1] * 2) for _ in range(5)]
        want = [oracle(st, v, lim, e) for e in es]
        h.close(c(np.array(es)), want, tag + " array", rtol=1e-9, atol=1e-12)
        for e, w in zip(es, want):
            h.close(c(e), w, tag + " scalar", rtol=1e-9, atol=1e-12, detail="at %r" % e)
    probe("initial")
    k = h.rng.randrange(3)
    if k == 0:
        v = v = np.asarray(v) * 0.7 + 0.01
        c.values = v
        h.close(c.values, v, "values")
        probe("replaced values")
    elif k == 1:
        st = st * 1.7
        c.strains = st
        h.close(c.strains, st, "strains")
        probe("replaced strains")


@group("C06", "columns", 60)
def cols(h):
    st, mr, dm = curves(h)
    nf = h.rng.randint(1, 5)
    cls, b, lim = h.rng.choice([(site.ModulusReductionCurve, mr, (0.001, 1)), (site.DampingCurve, dm, (0, 0.49))])
    v = np.column_stack([b * u(h, 0.5, 1.4) for _ in range(nf)])
    if v.shape[0] == 1:
        raise Skip
    c = cls("c", st, v)
    for e in list(st) + [0.0, lu(h, 1e-7, 0.1), lu(h, 1e-7, 0.1), lu(h, 1e-5, 0.01)]:
        h.note(e=e, n=len(st), nf=nf)
        h.close(c(e), [oracle(st, v[:, j], lim, e) for j in range(nf)], "column value", rtol=1e-9, atol=1e-12)

from props.rlib import *


@group("C09", "kishida", 200)
def go(h):
    sv, oc, lcr = lu(h, 5, 500), u(h, 1, 90), lu(h, 1, 6)
    st = np.sort([lu(h, 1e-7, 0.05) for _ in range(h.rng.randint(1, 12))])
    if h.rng.random() < 0.3:
        h.rng.shuffle(st)
    uw = h.rng.choice([None, 12.0])
    kw = {} if h.rng.random() < 0.5 else {"strains": st}
    st = kw.get("strains", 10 ** np.linspace(-6, -1.5, 20))
    h.note(sv=sv, oc=oc, lcr=lcr, uw=uw, kw=kw)
    o = site.KishidaSoilType("x", uw, sv, oc, lcr, **kw)
    x3, x2, x4 = 2 / (1 + np.exp(oc / 23)), np.log(sv), np.log(lcr)
    gr = np.exp(-1.41 - 0.95 * (x3 - 0.5))
    g = st * 100
    x1, d = np.log(g + gr), np.log((1 + g) / gr)
    w = 1 + (np.log(gr) + 2.5) / d
    a, b, c = x1 + 2.5, x2 - 4, x3 - 0.5
    G = np.exp(5.11 - 0.729 * x1 + (1 - 0.185 * w) * x2 - 0.693 * x3 + (0.8 - 0.4 * x3) * x4 + 0.185 / d * a * b - 0.37 * w * b * c + 0.37 / d * a * b * c)
    mr = G / G[0]
    h.close(o.mod_reduc.strains, st, "strains")
    h.close(o.mod_reduc.values, mr, "modulus reduction", rtol=1e-8)
    h.check(np.asarray(o.mod_reduc.values)[0] == 1, "starts at one")
    with np.errstate(all="ignore"):
        y = np.log(np.log(1 / mr) + 0.103)
        dm = np.exp(2.86 + 0.571 * y - 0.103 * x2 - 0.141 * x3 + 0.0419 * (y + 1) * b - 0.24 * b * c) / 100
    h.close(o.damping.values, dm, "damping", rtol=1e-7)
    h.close(o.unit_wt, uw if uw else np.exp(-0.112 + 0.038 * x2 + 0.36 * x3) * G0, "unit weight", rtol=1e-9)

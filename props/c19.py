"""C19  outputs accumulate every run unchanged and aligned

Inv(o; m, R, len, val): o holds m runs; for m = 0 no values, for m = 1 a vector
of len(0) values, otherwise an R x m table (R >= every len(j)) whose column j is
val(., j) above row len(j) and not-a-number below; one name per run; references
either shared or stored by the same rule.  A new output satisfies Inv with
m = 0; adding one run preserves it for every m, R, len and every new length."""
from props.lib import *
from dv.npshim import isnan_t

O = "output."
NAN = wrap(tm.NAN)


def nan(x):
    return isnan_t(term_of(x))


def held(E, o, m, R, tag="v", attr="_values"):
    """make o hold m runs (m: 1, or a term >= 2)"""
    ln = lambda j: fn(tag + "_len", j, sort="I")
    val = lambda i, j: fn(tag, i, j)
    if m is None:
        a = None
    elif isinstance(m, int) and m == 1:
        E.assume(LE(1, ln(0)))
        a = Arr((dimval(term_of(ln(0))),), lambda i: tm.app(tag, (i, tm.ZERO)))
    else:
        E.assume(E.all(m, lambda j: AND(LE(1, ln(j)), LE(ln(j), R))), E.some(m, lambda j: EQ(ln(j), R)))
        a = Arr((dimval(term_of(R)), dimval(term_of(m))), lambda i, j: tm.ite(tm.lt(i, term_of(ln(wrap(j)))), tm.app(tag, (i, j)), tm.NAN))
    setattr(o, attr, a)
    return ln, val


def kept(E, pre, a, m, ln, val, new, L):
    """a: table after a run with L values new(i) joined m others"""
    R2 = a.shape[0]
    if m == 0:
        E.prove(pre + "vector after the first run", len(a.shape) == 1)
        i = E.index(pre + "i", L)
        E.eq(pre + "length", wrap(dimterm(R2)), L)
        E.eq(pre + "values of the run", E.at(a, i), new(i))
        return
    E.prove(pre + "one column per run", EQ(wrap(dimterm(a.shape[1])), m + 1))
    R2 = wrap(dimterm(R2))
    i, j = E.index(pre + "i", R2), E.index(pre + "j", m)
    E.prove(pre + "rows for the longest run", AND(LE(L, R2), LE(ln(j), R2)))
    E.prove(pre + "no more rows than the longest run", OR(EQ(R2, L), E.some(m, lambda k: EQ(ln(k), R2))))
    E.prove(pre + "earlier run unchanged", IMP(LT(i, ln(j)), EQ(E.at(a, i, j), val(i, j))))
    E.prove(pre + "earlier run padded", IMP(LE(ln(j), i), nan(E.at(a, i, j))))
    E.prove(pre + "new run", IMP(LT(i, L), EQ(E.at(a, i, m), new(i))))
    E.prove(pre + "new run padded", IMP(LE(L, i), nan(E.at(a, i, m))))


CASES = {"first": 0, "second": 1, "later": None}


def runs(E, case):
    m = CASES[case]
    return E.int("m", 2) if m is None else m


def add(case, what):
    def u(E):
        out = E.mod("output")
        o = out.Output()
        m, R, L = runs(E, case), E.int("R", 1), E.int("L", 1)
        attr = "_values" if what == "values" else "_refs"
        ln = val = None
        if m != 0 if isinstance(m, int) else True:
            ln, val = held(E, o, m, R, attr=attr)
        x = E.arr("new", L)
        (o._add_values if what == "values" else o._add_refs)(x)
        kept(E, "", getattr(o, what), m, ln, val, lambda i: fn("new", i), L)
        i = E.index("q", L)
        E.eq("given data unchanged", E.at(x, i), fn("new", i))
        E.reach()
    return u


for _c in CASES:
    for _w in ("values", "refs"):
        unit("C19", "%s-%s-run" % (_w, _c), [O + "Output._add_%s" % _w] + ([O + "append_arrays"] if _c != "first" else []))(add(_c, _w))


def naming(case, given):
    def u(E):
        o = E.mod("output").Output()
        m, R = runs(E, case), E.int("R", 1)
        if not (isinstance(m, int) and m == 0):
            held(E, o, m, R)
        o._names = SList.symbolic(MapSeq(term_of(m), lambda k: fn("nm", wrap(k)))) if not isinstance(m, int) else SList([fn("nm", k) for k in range(m)])
        calc = object()
        if given:
            tag = object()
            o(calc, name=tag)
        else:
            o(calc)
        E.eq("one more name", E.len(o.names), m + 1)
        if not (isinstance(m, int) and m == 0):
            j = E.index("j", m)
            E.eq("earlier names", o.names[j], fn("nm", j))
        last = o.names[m]
        if given:
            E.prove("the given name", last is tag)
        elif isinstance(m, int):
            E.prove("numbered name", last == "r%d" % (m + 1))
        else:
            E.prove("numbered name", last.equals("r", m + 1))
        E.reach()
    return u


for _c in CASES:
    for _g in (True, False):
        unit("C19", "name-%s-%s" % (_c, "given" if _g else "default"), [O + "Output.__call__"])(naming(_c, _g))


def iterate(case, shared):
    def u(E):
        o = E.mod("output").Output()
        m, R = runs(E, case), E.int("R", 1)
        held(E, o, m, R)
        ln, val = (lambda j: fn("v_len", j, sort="I"), lambda i, j: fn("v", i, j))
        if shared or m == 1:
            q = E.int("q", 1)
            o._refs = E.arr("ref", q)
        else:
            held(E, o, m, R, "r", "_refs")
        o._names = SList.symbolic(MapSeq(term_of(m), lambda k: fn("nm", wrap(k)))) if not isinstance(m, int) else SList([fn("nm", k) for k in range(m)])
        res = E.I.shims.list(o.iter_results())
        E.eq("one result per run", E.len(res), m)
        j = E.index("j", m)
        name, refs, values = res[j]
        E.eq("name", name, fn("nm", j))
        if isinstance(m, int):
            i = E.index("i", ln(0))
            E.eq("values", E.at(values, i), val(i, 0))
        else:
            i = E.index("i", R)
            E.prove("values", IMP(LT(i, ln(j)), EQ(E.at(values, i), val(i, j))))
            E.prove("padding", IMP(LE(ln(j), i), nan(E.at(values, i))))
        if shared or m == 1:
            k = E.index("k", q)
            E.eq("shared references", E.at(refs, k), fn("ref", k))
        else:
            E.prove("own references", IMP(LT(i, fn("r_len", j, sort="I")), EQ(E.at(refs, i), fn("r", i, j))))
        E.reach()
    return u


for _c, _s in (("second", True), ("later", True), ("later", False)):
    unit("C19", "iterate-%s-%s" % (_c, "shared" if _s else "own"), [O + "Output.iter_results"])(iterate(_c, _s))


def reset(cls):
    def u(E):
        out = E.mod("output")
        n = E.int("n", 1)
        if cls == "Output":
            o = out.Output(E.arr("ref", n))
        else:
            o = out.ResponseSpectrumOutput(E.arr("ref", n), None, E.real("D", 0))
        k = E.index("k", n)
        E.eq("user references", E.at(o.refs, k), fn("ref", k))
        E.prove("new output is empty", o.values is None and len(o.names) == 0)
        m, R = E.int("m", 2), E.int("R", 1)
        held(E, o, m, R)
        o._names = SList.symbolic(MapSeq(term_of(m), lambda k: fn("nm", wrap(k))))
        o.reset()
        E.prove("no values", o.values is None)
        E.eq("no names", E.len(o.names), 0)
        if cls == "Output":
            E.eq("no references", E.len(o.refs), 0)
        else:
            E.eq("user references kept", E.at(o.refs, k), fn("ref", k))
            E.eq("all of them", E.len(o.refs), n)
        E.reach()
    return u


unit("C19", "reset", [O + "Output.reset", O + "Output.__init__"])(reset("Output"))
unit("C19", "reset-user-references", [O + "Output.reset", O + "Output.__init__"])(reset("user"))


@unit("C19", "collection", [O + "OutputCollection.__call__", O + "OutputCollection.reset", O + "OutputCollection.__iter__"])
def _coll(E):
    out = E.mod("output")
    log = []

    class Probe:
        def __init__(self, k):
            self.k = k

        def __call__(self, calc, name=None):
            log.append((self.k, calc, name))

        def reset(self):
            log.append((self.k, "reset"))
    c = out.OutputCollection(SList([Probe(k) for k in range(3)]))
    calc, tag = object(), object()
    c(calc, name=tag)
    E.prove("every output gets the run and its name", [x[0] for x in log] == [0, 1, 2] and all(x[1] is calc and x[2] is tag for x in log))
    del log[:]
    c.reset()
    E.prove("every output is reset", log == [(0, "reset"), (1, "reset"), (2, "reset")])
    E.reach()


@unit("C19", "statistics", [O + "Output.calc_stats"])
def _stats(E):
    o = E.mod("output").Output()
    m, R = E.int("m", 2), E.int("R", 1)
    ln, val = held(E, o, m, R)
    E.assume(E.all(m, lambda j: E.all(R, lambda i: LT(0, val(i, j)))))
    o._refs = E.arr("ref", R)
    s = o.calc_stats()
    i = E.index("i", R)
    on = lambda j: LT(i, ln(j))
    cnt = E.sum(m, lambda j: ITE(on(j), 1, 0))
    E.assume(LE(1, cnt))
    lv = lambda j: log(val(i, j))
    mean = E.sum(m, lambda j: ITE(on(j), lv(j), 0)) / cnt
    E.eq("median: exponential of the mean logarithm", E.at(s["median"], i), exp(mean))
    E.eq("logarithmic standard deviation", E.at(s["ln_std"], i), sqrt(E.sum(m, lambda j: ITE(on(j), (lv(j) - mean) ** 2, 0)) / cnt))
    E.eq("references", E.at(s["ref"], i), fn("ref", i))
    E.reach()


# ---- every kind of output records the name of the run it holds
def recorded(builder):
    """the runs of C20, with the name as the only claim"""
    def u(E):
        eq, prove = E.eq, E.prove
        E.eq = E.prove = lambda *a, **k: None

        def named(o):
            prove("one name per column, as given", list(o.names) == ["a run"])
        E.named = named
        try:
            builder(E)
        finally:
            E.eq, E.prove = eq, prove
            del E.named
    return u


from props import c20 as _c20  # noqa: E402

for _n, _b in list(_c20.KINDS.items()):
    unit("C19", "recorded-" + _n, [O + x for x in [("TimeSeriesOutput" if "TSOutput" in _n else "ProfileBasedOutput" if _n in _c20.MID else _n) + ".__call__", "Output.__call__"]])(recorded(_b))

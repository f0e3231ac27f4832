"""Normal forms: Laurent polynomials over Q(i) in canonical atoms.

Atoms: terms, inverses/fractional powers of polynomials, exp(monomial), log(atom),
primes with fractional exponents, prefix sums of monomials.  Two terms with the same
normal form are equal wherever both are defined (fractional powers are split over a
product only when the factors are positive).
"""
from fractions import Fraction as Fr
from . import term as tm
from .term import T

Z = (Fr(0), Fr(0))
U = (Fr(1), Fr(0))


class TooBig(Exception):
    pass


MAXTERMS = 6000


def cmul(a, b):
    if a[1] == 0 and b[1] == 0:
        return (a[0] * b[0], Fr(0))
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cinv(a):
    d = a[0] * a[0] + a[1] * a[1]
    return (a[0] / d, -a[1] / d)


class Norm:
    def __init__(self, positive=None):
        self.positive_cb = positive
        self.ranges = []           # (bound variable, lo, hi) of the enclosing sums
        self.atoms = []  # id -> key
        self.akey = {}
        self.memo = {}
        self.posmemo = {}

    # ------------------------------------------------------------ atoms
    def atom(self, key):
        i = self.akey.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(key)
            self.akey[key] = i
        return i

    def tatom(self, t):
        return self.atom(("T", t))

    # ------------------------------------------------------------ polys
    @staticmethod
    def const(c):
        if not isinstance(c, tuple):
            c = (Fr(c), Fr(0))
        return {} if c == Z else {(): c}

    @staticmethod
    def padd(a, b):
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            o = r.get(m)
            if o is None:
                r[m] = c
            else:
                s = (o[0] + c[0], o[1] + c[1])
                if s == Z:
                    del r[m]
                else:
                    r[m] = s
        return r

    @staticmethod
    def pscale(a, k):
        if k == Z:
            return {}
        return {m: cmul(c, k) for m, c in a.items()}

    def mmul(self, m1, m2):
        """monomial product -> (coef, mono, list of polys to multiply)."""
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for a, e in m2:
            s = d.get(a, 0) + e
            if s == 0:
                d.pop(a, None)
            else:
                d[a] = s
        return tuple(sorted(d.items()))

    def pmul(self, a, b):
        if not a or not b:
            return {}
        if len(a) * len(b) > MAXTERMS * 40:
            raise TooBig
        r = {}
        needfix = False
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                c = cmul(c1, c2)
                o = r.get(m)
                if o is None:
                    r[m] = c
                else:
                    s = (o[0] + c[0], o[1] + c[1])
                    if s == Z:
                        del r[m]
                    else:
                        r[m] = s
        if len(r) > MAXTERMS:
            raise TooBig
        return self.reduce(r)

    def reduce(self, p):
        """apply atom relations: P^k (k>=1) expanded, prime integer powers, abs^2."""
        while True:
            bad = None
            for m in p:
                for a, e in m:
                    k = self.atoms[a]
                    if k[0] == "P" and e >= 1:
                        bad = (m, a, e)
                    elif k[0] == "p" and (e >= 1 or e < 0):
                        bad = (m, a, e)
                    elif k[0] == "A" and (e >= 2 or e <= -2):
                        bad = (m, a, e)
                    if bad:
                        break
                if bad:
                    break
            if not bad:
                return p
            m, a, e = bad
            c = p.pop(m) if False else p[m]
            p = dict(p)
            del p[m]
            rest = [(x, y) for x, y in m if x != a]
            k = self.atoms[a]
            if k[0] == "P":
                n = e.numerator // e.denominator
                fr = e - n
                if fr:
                    rest.append((a, fr))
                q = {tuple(sorted(rest)): c}
                base = dict(k[1])
                for _ in range(n):
                    q = self._rawmul(q, base)
            elif k[0] == "p":
                n = e.numerator // e.denominator  # floor
                fr = e - n
                if fr:
                    rest.append((a, fr))
                f = Fr(k[1]) ** n
                q = {tuple(sorted(rest)): (c[0] * f, c[1] * f)}
            else:  # |x|^2 = x^2 (real x)
                n = int(e / 2)
                fr = e - 2 * n
                if fr:
                    rest.append((a, fr))
                base = {((k[1], Fr(2 * n)),): U}
                q = self._rawmul({tuple(sorted(rest)): c}, base)
            p = self.padd(p, q)

    def _rawmul(self, a, b):
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                c = cmul(c1, c2)
                o = r.get(m)
                s = c if o is None else (o[0] + c[0], o[1] + c[1])
                if s == Z:
                    r.pop(m, None)
                else:
                    r[m] = s
        if len(r) > MAXTERMS:
            raise TooBig
        return r

    def ppow(self, p, n):
        r = self.const(1)
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    # ------------------------------------------------------------ factoring
    def split(self, p):
        """p = c * m * q with q monic, without common monomial factor."""
        if len(p) == 1:
            (m, c), = p.items()
            return c, m, None
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = d
            else:
                for a in set(common) | set(d):
                    lo = min(common.get(a, Fr(0)), d.get(a, Fr(0)))
                    if lo == 0:
                        common.pop(a, None)
                    else:
                        common[a] = lo
        m0 = tuple(sorted(common.items()))
        if m0:
            inv = tuple((a, -e) for a, e in m0)
            q = {self.mmul(m, inv): c for m, c in p.items()}
        else:
            q = p
        lead = max(q, key=self._mkey)
        c = q[lead]
        if c[1] == 0:
            k = (abs(c[0]), Fr(0))
        else:
            k = c
        q = self.pscale(q, cinv(k))
        return k, m0, q

    def _mkey(self, m):
        return tuple(m)

    def patom(self, q):
        return self.atom(("P", frozenset(q.items())))

    def pinv(self, p):
        if not p:
            raise ZeroDivisionError
        c, m, q = self.split(p)
        r = {tuple((a, -e) for a, e in m): cinv(c)}
        if q is not None:
            r = self._rawmul(r, {((self.patom(q), Fr(-1)),): U})
        return self.reduce(r)

    def primes(self, n):
        n = int(n)
        out = {}
        f = 2
        while f * f <= n:
            while n % f == 0:
                out[f] = out.get(f, 0) + 1
                n //= f
            f += 1 if f == 2 else 2
            if f > 200000:
                break
        if n > 1:
            out[n] = out.get(n, 0) + 1
        return out

    def ratpow(self, c, e):
        """positive rational c to rational power e."""
        d = {}
        for f, k in self.primes(c.numerator).items():
            d[f] = d.get(f, 0) + k
        for f, k in self.primes(c.denominator).items():
            d[f] = d.get(f, 0) - k
        m = {}
        for f, k in d.items():
            if k:
                m[self.atom(("p", f))] = Fr(k) * e
        return self.reduce({tuple(sorted(m.items())): U})

    def ppowfrac(self, p, e):
        """p ** e, e non-integer rational."""
        if not p:
            return {}
        c, m, q = self.split(p)
        neg = []
        posm = []
        for a, k in m:
            if self.apos(a):
                posm.append((a, k * e))
            else:
                neg.append((a, k))
        base = q if q is not None else self.const(1)
        if neg:
            base = self._rawmul(base, {tuple(neg): U})
        if c[1] == 0 and c[0] > 0:
            r = self.ratpow(c[0], e)
        elif c[1] == 0 and (neg or q is not None):
            r = self.ratpow(-c[0], e)
            base = self.pscale(base, (Fr(-1), Fr(0)))
        else:
            r = self.const(1)
            base = self.pscale(base, c)
        r = self._rawmul(r, {tuple(posm): U})
        if base != self.const(1):
            r = self._rawmul(r, {((self.patom(base), e),): U})
        return self.reduce(r)

    # ------------------------------------------------------------ signs
    def apos(self, a):
        r = self.posmemo.get(a)
        if r is None:
            k = self.atoms[a]
            if k[0] == "p":
                r = True
            elif k[0] == "E":
                r = not k[2] and self.mreal(k[1])
            elif k[0] == "P":
                r = self.tpos(self.to_term({((a, Fr(1)),): U}))
            elif k[0] == "A":
                r = self.tpos(self.to_term({((k[1], Fr(1)),): U}))
            else:
                r = self.tpos(self.atom_term(a))
            self.posmemo[a] = r
        return r

    def tpos(self, t):
        if t.sort == "C":
            return False
        if t.op == "const":
            return t.val > 0
        if t is tm.PI:
            return True
        if t.op == "exp":
            return True
        if t.op in ("mul", "add"):
            if all(self.tpos(a) for a in t.args):
                return True
        if t.op == "pow" and self.tpos(t.args[0]):
            return True
        return bool(self.positive_cb and self.positive_cb(t))

    def areal(self, a):
        k = self.atoms[a]
        if k[0] == "T":
            return k[1].sort != "C"
        if k[0] == "P":
            return all(c[1] == 0 and self.mreal(m) for m, c in k[1])
        if k[0] == "E":
            return not k[2] and self.mreal(k[1])
        if k[0] == "L":
            return self.areal(k[1])
        if k[0] == "S":
            return self.mreal(k[1])
        return True

    def mreal(self, m):
        return all(self.areal(a) for a, _ in m)

    def preal(self, p):
        return all(c[1] == 0 and self.mreal(m) for m, c in p.items())

    # ------------------------------------------------------------ conj / abs
    def conj(self, p):
        r = {}
        for m, c in p.items():
            q = {(): (c[0], -c[1])}
            for a, e in m:
                q = self._rawmul(q, {self._aconj(a, e): U})
            r = self.padd(r, q)
        return self.reduce(r)

    def _aconj(self, a, e):
        k = self.atoms[a]
        if self.areal(a):
            return ((a, e),)
        if k[0] == "T":
            return ((self.tatom(tm.conj(k[1])), e),)
        if k[0] == "E" and self.mreal(k[1]):
            return ((a, -e),)
        if k[0] == "P":
            return ((self.patom(self.conj(dict(k[1]))), e),)
        return ((self.tatom(tm.conj(self.atom_term(a))), e),)

    def pabs(self, p):
        if not p:
            return {}
        c, m, q = self.split(p)
        if c[1] == 0:
            r = self.const(abs(c[0]))
        else:
            r = self.ppowfrac(self.const(c[0] ** 2 + c[1] ** 2), Fr(1, 2))
        for a, e in m:
            k = self.atoms[a]
            if self.apos(a):
                r = self._rawmul(r, {((a, e),): U})
            elif k[0] == "E" and k[2] and self.mreal(k[1]):
                continue
            elif self.areal(a):
                if e.denominator == 1 and e % 2 == 0:
                    r = self._rawmul(r, {((a, e),): U})
                else:
                    r = self._rawmul(r, {((self.atom(("A", a)), e),): U})
            else:
                z = {((a, Fr(1)),): U}
                zz = self._rawmul(z, self.conj(z))
                r = self._rawmul(r, self.ppowfrac(zz, e / 2))
        if q is not None:
            if self.preal(q):
                t = self.to_term(q)
                if self.tpos(t):
                    r = self.pmul(r, q)
                elif self.tpos(tm.neg(t)):
                    r = self.pmul(r, self.pscale(q, (Fr(-1), Fr(0))))
                else:
                    nq = self.pscale(q, (Fr(-1), Fr(0)))
                    if frozenset(nq.items()) in [k[1] for k in self.atoms if k[0] == "P"] and self.patom(nq) < self.patom(q):
                        q = nq
                    r = self._rawmul(r, {((self.atom(("A", self.patom(q))), Fr(1)),): U})
            else:
                zz = self.pmul(q, self.conj(q))
                r = self.pmul(r, self.ppowfrac(zz, Fr(1, 2)))
        return self.reduce(r)

    # ------------------------------------------------------------ exp / log
    def pexp(self, p):
        r = {}
        poly = self.const(1)
        for m, c in p.items():
            if c[0] != 0:
                if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == "L":
                    a = self.atoms[m[0][0]][1]
                    poly = self.pmul(poly, self.apow(a, c[0]))
                else:
                    a = self.atom(("E", m, False))
                    r[a] = r.get(a, Fr(0)) + c[0]
            if c[1] != 0:
                # exp(i*pi*k): constants
                a = self.atom(("E", m, True))
                r[a] = r.get(a, Fr(0)) + c[1]
        return self.pmul(poly, {tuple(sorted(r.items())): U})

    def apow(self, a, e):
        k = self.atoms[a]
        if k[0] == "p":
            return self.reduce({((a, e),): U})
        return self.reduce({((a, e),): U})

    def plog(self, p):
        if not p:
            raise ZeroDivisionError
        c, m, q = self.split(p)
        r = {}
        rest = self.const(1)
        if c[1] == 0 and c[0] > 0:
            for n, s in ((c[0].numerator, 1), (c[0].denominator, -1)):
                for f, k in self.primes(n).items():
                    r = self.padd(r, {((self.atom(("L", self.atom(("p", f)))), Fr(1)),): (Fr(s * k), Fr(0))})
        else:
            rest = self.const(c)
        for a, e in m:
            k = self.atoms[a]
            if k[0] == "E" and self.mreal(k[1]) and not k[2]:
                r = self.padd(r, {k[1]: (e, Fr(0))})
            elif self.apos(a):
                r = self.padd(r, {((self.atom(("L", a)), Fr(1)),): (e, Fr(0))})
            else:
                rest = self._rawmul(rest, {((a, e),): U})
        if q is not None:
            if rest == self.const(1) and self.tpos(self.to_term(q)):
                r = self.padd(r, {((self.atom(("L", self.patom(q))), Fr(1)),): U})
                return r
            rest = self._rawmul(rest, q)
        if rest != self.const(1):
            r = self.padd(r, {((self.atom(("L", self.patom(rest))), Fr(1)),): U})
        return r

    # ------------------------------------------------------------ main
    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._norm(t)
            if len(r) > MAXTERMS:
                raise TooBig
            self.memo[t] = r
        return r

    def _norm(self, t):
        op = t.op
        if op == "const":
            if t.sort == "B":
                return self.const(1 if t.val else 0)
            return self.const(tm.cval(t))
        if op == "add":
            r = {}
            for a in t.args:
                r = self.padd(r, self(a))
            return r
        if op == "mul":
            r = self.const(1)
            for a in t.args:
                r = self.pmul(r, self(a))
            return r
        if op == "toreal":
            return self(t.args[0])
        if op == "pow":
            b, e = t.args
            if e.op == "const":
                v = e.val
                p = self(b)
                if v.denominator == 1:
                    n = int(v)
                    if n < 0:
                        p = self.pinv(p)
                        n = -n
                    return self.ppow(p, n)
                return self.ppowfrac(p, v)
            ep = self(e)
            if not ep:
                return self.const(1)
            if set(ep) == {()} and ep[()][1] == 0:
                return self._norm(tm.pow_(b, tm.const(ep[()][0])))
            return self.pexp(self.pmul(ep, self.plog(self(b))))
        if op == "exp":
            return self.pexp(self(t.args[0]))
        if op == "log":
            return self.plog(self(t.args[0]))
        if op == "abs":
            return self.pabs(self(t.args[0]))
        if op == "conj":
            return self.conj(self(t.args[0]))
        if op == "re":
            p = self(t.args[0])
            return self.pscale(self.padd(p, self.conj(p)), (Fr(1, 2), Fr(0)))
        if op == "im":
            p = self(t.args[0])
            return self.pscale(self.padd(p, self.pscale(self.conj(p), (Fr(-1), Fr(0)))), (Fr(0), Fr(-1, 2)))
        if op == "fun" and t.val in ("sin", "cos"):
            p = self(t.args[0])
            ip = self.pexp(self.pscale(p, (Fr(0), Fr(1))))
            im_ = self.pexp(self.pscale(p, (Fr(0), Fr(-1))))
            if t.val == "cos":
                return self.pscale(self.padd(ip, im_), (Fr(1, 2), Fr(0)))
            return self.pscale(self.padd(ip, self.pscale(im_, (Fr(-1), Fr(0)))), (Fr(0), Fr(-1, 2)))
        if op == "sum":
            return self.psum(t)
        if op == "ite":
            c = self.canon_bool(t.args[0])
            a, b = self(t.args[1]), self(t.args[2])
            if a == b:
                return a
            if c.op in ("lt", "le") and (c.args[0].sort == "R" or self.ranges):
                n = self.canon_bool(tm.not_(c))
                if (c.op, n.op) == ("le", "lt") or (c.op == n.op and flipped(c) and not flipped(n)):
                    c, a, b = n, b, a
            d = tm.ite(c, self.to_term(a), self.to_term(b))
            if d.op != "ite":
                return self(d)
            # canonical orientation: factor linear structure  b + [c]*(a-b)
            return {((self.tatom(d), Fr(1)),): U}
        if op == "var":
            return {((self.tatom(t), Fr(1)),): U}
        if t.sort == "B":
            return {((self.tatom(self.canon_bool(t)), Fr(1)),): U}
        # app, fun, floor, bigmax, lam ... : canonical arguments
        return {((self.tatom(self.canon_shallow(t)), Fr(1)),): U}

    def canon_shallow(self, t):
        if op_binder(t):
            v = tm.fresh("cb", t.val.sort)
            body = tm.subst(t.args[2], {t.val: v})
            lo, hi = self.canon(t.args[0]), self.canon(t.args[1])
            body = self.canon(body)
            return tm.bind(t.op, v, lo, hi, body, t.sort)
        return tm.rebuild(t, [self.canon(a) for a in t.args])

    def canon(self, t):
        if t.sort == "B":
            return self.canon_bool(t)
        try:
            r = self.to_term(self(t))
        except ZeroDivisionError:
            return t
        if t.sort == "I" and r.sort != "I":
            return t
        return r

    def canon_bool(self, t):
        if not t.args:
            return t
        if t.op in ("eq0", "lt", "le"):
            a = self.canon(t.args[0])
            return tm.rebuild(t, [a])
        if op_binder(t):
            v = tm.fresh("cb", t.val.sort)
            body = self.canon(tm.subst(t.args[2], {t.val: v}))
            return tm.bind(t.op, v, self.canon(t.args[0]), self.canon(t.args[1]), body, "B")
        return tm.rebuild(t, [self.canon(a) for a in t.args])

    # ------------------------------------------------------------ sums
    def psum(self, t):
        lo, hi, body = t.args
        bv = tm.fresh("sv", t.val.sort)
        body = tm.subst(body, {t.val: bv})
        self.ranges.append((bv, lo, hi))
        try:
            bp = self(body)
        finally:
            self.ranges.pop()
        r = {}
        for m, c in bp.items():
            out, ins = [], []
            for a, e in m:
                if bv in tm.fv(self.atom_term(a)):
                    ins.append((a, e))
                else:
                    out.append((a, e))
            if not ins:
                s = self(tm.sub(hi, lo))
            else:
                bt = self.to_term({tuple(ins): U})
                s = self.padd(self.prefix(bv, bt, hi), self.pscale(self.prefix(bv, bt, lo), (Fr(-1), Fr(0))))
            r = self.padd(r, self.pmul({tuple(out): c}, s))
        return r

    def prefix(self, bv, bt, n):
        """S(n) = sum_{k<n} bt(k), with integer shift of n and of the body canonicalised."""
        # canonical shift of the body: minimal constant offset of the index in applications
        offs, syms = set(), set()
        for s in tm.subterms(bt):
            if s.op == "app":
                for a in s.args:
                    if a.sort == "I" and bv in tm.fv(a):
                        d = tm.sub(a, bv)
                        if bv in tm.fv(d):
                            continue
                        k0 = sum(int(x.val) for x in (d.args if d.op == "add" else (d,)) if x.op == "const" and x.val.denominator == 1)
                        offs.add(k0)
                        syms.add(tm.sub(d, tm.const(k0)))
        sh = min(offs) if offs else 0
        sh = tm.add(tm.const(sh), syms.pop()) if len(syms) == 1 else tm.const(sh)
        if sh is not tm.ZERO:
            # sum_{k<n} f(k+sh) = S_f(n+sh) - S_f(sh)
            base = tm.subst(bt, {bv: tm.sub(bv, sh)})
            a = self.prefix(bv, base, tm.add(n, sh))
            b = self.prefix(bv, base, sh)
            return self.padd(a, self.pscale(b, (Fr(-1), Fr(0))))
        n = self.canon(n)
        c = 0
        parts = n.args if n.op == "add" else (n,)
        for x in parts:
            if x.op == "const" and x.val.denominator == 1:
                c = int(x.val)
        n0 = tm.sub(n, tm.const(c))
        if n0.op == "const" and n0.val == 0:
            base = {}
        else:
            v = tm.fresh("pv", "I")
            base = {((self.tatom(tm.bind("sum", v, tm.ZERO, n0, tm.subst(bt, {bv: v}), bt.sort)), Fr(1)),): U}
        if c > 0:
            for i in range(c):
                base = self.padd(base, self(tm.subst(bt, {bv: tm.add(n0, tm.const(i))})))
        elif c < 0:
            for i in range(1, -c + 1):
                base = self.padd(base, self.pscale(self(tm.subst(bt, {bv: tm.sub(n0, tm.const(i))})), (Fr(-1), Fr(0))))
        return base

    # ------------------------------------------------------------ back to terms
    def atom_term(self, a):
        k = self.atoms[a]
        if k[0] == "T":
            return k[1]
        if k[0] == "p":
            return tm.const(k[1])
        if k[0] == "P":
            return self.to_term(dict(k[1]))
        if k[0] == "E":
            x = self.to_term({k[1]: U})
            if k[2]:
                x = tm.mul(tm.I, x)
            return tm.exp(x)
        if k[0] == "L":
            return tm.log(self.atom_term(k[1]))
        if k[0] == "A":
            return tm.abs_(self.atom_term(k[1]))
        raise KeyError(k)

    def to_term(self, p):
        if not p:
            return tm.ZERO
        out = []
        # log 2, log 5, .. back to the logarithm of one number
        lc = []
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and c[1] == 0 and c[0].denominator == 1 and abs(c[0]) <= 40:
                k = self.atoms[m[0][0]]
                if k[0] == "L":
                    b = self.atom_term(k[1])
                    if b.op == "const" and b.sort != "C":
                        lc.append((m, b.val, int(c[0])))
        if lc:
            q = Fr(1)
            for m, b, e in lc:
                q *= Fr(b) ** e
            gone = {m for m, _, _ in lc}
            p = {m: c for m, c in p.items() if m not in gone}
            out.append(tm.log(tm.const(q)))
        for m, c in sorted(p.items(), key=lambda x: x[0]):
            fs = [tm.cconst(*c) if c[1] != 0 else (tm.const(int(c[0])) if c[0].denominator == 1 else tm.const(c[0]))]
            for a, e in m:
                k = self.atoms[a]
                if k[0] == "E":
                    x = self.to_term({k[1]: (e, Fr(0))})
                    if k[2]:
                        x = tm.mul(tm.I, x)
                    fs.append(tm.exp(x))
                    continue
                b = self.atom_term(a)
                fs.append(tm.pow_(b, tm.const(int(e)) if e.denominator == 1 else tm.const(e)))
            out.append(tm.mul(*fs))
        return tm.add(*out)

    # ------------------------------------------------------------ zero test
    def is_zero(self, p):
        p = self.reduce(p)
        for _ in range(40):
            if not p:
                return True
            worst = {}
            for m in p:
                for a, e in m:
                    if self.atoms[a][0] == "P" and e < 0:
                        n = -(e.numerator // e.denominator)
                        worst[a] = max(worst.get(a, 0), n)
            if not worst:
                # non-negative real algebraic leftovers cannot cancel further
                return False
            # clear the outermost one (highest id first: built last, contains the others)
            a = max(worst)
            n = worst[a]
            q = {}
            base = dict(self.atoms[a][1])
            mul = {((a, Fr(n)),): U}
            r = {}
            for m, c in p.items():
                mm = self.mmul(m, ((a, Fr(n)),))
                o = r.get(mm)
                r[mm] = c if o is None else (o[0] + c[0], o[1] + c[1])
            p = self.reduce({m: c for m, c in r.items() if c != Z})
        return False


def flipped(c):
    """a comparison and its negation: one of the two is chosen for both"""
    d = c.args[0]
    best = None
    for x in d.args if d.op == "add" else (d,):
        k, r = tm.split_coef(x)
        if r is not None and (best is None or r.id < best[0]):
            best = (r.id, k[0])
    return best is not None and best[1] < 0


def op_binder(t):
    return t.op in tm.BINDERS


def collect_ites(t):
    """conditions of ites outside binders."""
    out = []
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            out.append(x.args[0])
        if x.op in tm.BINDERS:
            stack.extend(x.args[:2])
            continue
        stack.extend(x.args)
    return out


def assume_cond(t, c, val):
    """replace condition c (a boolean term) by a truth value in t."""
    m = {c: tm.TRUE if val else tm.FALSE}
    nc = tm.not_(c)
    if nc is not c:
        m[nc] = tm.FALSE if val else tm.TRUE
    return tm.subst(t, m)

"""Normal form for gate-free value-graph nodes: rational functions over uninterpreted atoms.

A node becomes  num / prod(factor_k^e_k)  where num is a Laurent polynomial with exact rational coefficients over
generators (symbols and function atoms keyed by the normal form of their argument).  Identities used:
field axioms, sin^2+cos^2=1, tan=sin/cos, exp(a+b)=exp(a)exp(b), exp(log a)=a, sinh/cosh/tanh through exp,
sqrt(a)^2=a.  Two nodes are equal iff the cross-multiplied difference is the zero polynomial.
"""
import math
import random
from fractions import Fraction


from nfbase import Blowup  # noqa: F401


MAXTERMS = 6000


class NF:
    def __init__(self, g):
        self.g = g
        g.nf = self
        self.gens = []            # (kind, payload...)
        self.gtab = {}
        self.memo = {}
        self.ftab = {}            # factor key -> poly
        self.stats = dict(nf_equal=0, random_interp=0)

    # generators
    def gen(self, key):
        i = self.gtab.get(key)
        if i is None:
            i = len(self.gens)
            self.gens.append(key)
            self.gtab[key] = i
            self.red = None
        return i

    # --- polynomials: dict mono->Fraction, mono: sorted tuple of (gen,exp)
    @staticmethod
    def pconst(c):
        return {(): Fraction(c)} if c != 0 else {}

    @staticmethod
    def padd(a, b):
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    @staticmethod
    def pscale(a, c):
        return {m: v * c for m, v in a.items()} if c != 0 else {}

    @staticmethod
    def mmul(a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for g, e in b:
            v = d.get(g, 0) + e
            if v == 0:
                del d[g]
            else:
                d[g] = v
        return tuple(sorted(d.items()))

    def pmul(self, a, b):
        if len(a) * len(b) > 40 * MAXTERMS:
            raise Blowup()
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        if len(r) > MAXTERMS:
            raise Blowup()
        return self.reduce(r)

    def reduce(self, p):
        """apply cos^2 -> 1-sin^2 and sqrt(a)^2 -> a on positive powers"""
        again = True
        while again:
            again = False
            for m in list(p):
                for gi, e in m:
                    if e >= 2 and self.gens[gi][0] in ('cos', 'sqrt'):
                        k = self.gens[gi]
                        if k[0] == 'cos':
                            s = self.gen(('sin',) + k[1:])
                            rep = {(): Fraction(1), ((s, 2),): Fraction(-1)}
                        else:
                            rep = k[2]
                            if rep is None:
                                continue
                            rep = dict(rep)
                        c = p.pop(m)
                        rest = self.mmul(m, ((gi, -2),))
                        add = {self.mmul(rest, mm): cc * c for mm, cc in rep.items()}
                        p = self.padd(p, add)
                        again = True
                        break
                if again:
                    break
        return p

    @staticmethod
    def pkey(p):
        return tuple(sorted(p.items()))

    # --- rationals: (num, ((factorkey, e), ...))
    def content(self, p):
        """split p = coef * mono * primitive, primitive with leading coefficient 1 and no common monomial"""
        ms = list(p)
        common = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for gi in list(common):
                common[gi] = min(common[gi], d.get(gi, 0))
            for gi, e in d.items():
                if gi not in common and e < 0:
                    common[gi] = e
        for m in ms:
            d = dict(m)
            for gi in list(common):
                if gi not in d and common[gi] > 0:
                    common[gi] = 0
        common = tuple(sorted((k, v) for k, v in common.items() if v != 0))
        inv = tuple((k, -v) for k, v in common)
        q = {self.mmul(m, inv): c for m, c in p.items()}
        lead = max(q)
        c = q[lead]
        q = {m: v / c for m, v in q.items()}
        return c, common, q

    def rmul(self, a, b):
        n = self.pmul(a[0], b[0])
        d = dict(a[1])
        for f, e in b[1]:
            d[f] = d.get(f, 0) + e
        return self.rnorm(n, d)

    def rnorm(self, n, d):
        if not n:
            return ({}, ())
        # cancel a factor when the numerator is a multiple of it up to a monomial
        if d:
            if len(n) > 1:
                c, m, q = self.content(n)
                k = self.pkey(q)
                if d.get(k, 0) > 0:
                    d[k] -= 1
                    n = {m: c}
            d = {k: e for k, e in d.items() if e > 0}
        return (n, tuple(sorted(d.items())))

    def expandf(self, fs):
        p = self.pconst(1)
        for k, e in fs:
            for _ in range(e):
                p = self.pmul(p, dict(k))
        return p

    def radd(self, a, b):
        if not a[0]:
            return b
        if not b[0]:
            return a
        if a[1] == b[1]:
            return self.rnorm(self.padd(a[0], b[0]), dict(a[1]))
        da, db = dict(a[1]), dict(b[1])
        l = {k: max(da.get(k, 0), db.get(k, 0)) for k in set(da) | set(db)}
        ca = tuple((k, e - da.get(k, 0)) for k, e in l.items() if e > da.get(k, 0))
        cb = tuple((k, e - db.get(k, 0)) for k, e in l.items() if e > db.get(k, 0))
        n = self.padd(self.pmul(a[0], self.expandf(ca)), self.pmul(b[0], self.expandf(cb)))
        return self.rnorm(n, l)

    def rinv(self, a):
        n, d = a
        num = self.expandf(d)
        if not n:
            raise ZeroDivisionError
        c, m, q = self.content(n)
        # 1/sqrt(a) = sqrt(a)/a
        roots = [(k, v) for k, v in m if v > 0 and self.gens[k][0] == 'sqrt' and self.gens[k][2] is not None]
        num = self.pmul(num, {tuple((k, -v) for k, v in m if (k, v) not in roots): 1 / c})
        if len(q) == 1 and () in q:
            r = self.rnorm(num, {})
        else:
            r = self.rnorm(num, {self.pkey(q): 1})
        for k, v in roots:
            for _ in range(v):
                r = self.rmul(self.rmul(r, ({((k, 1),): Fraction(1)}, ())), self.rinv((dict(self.gens[k][2]), ())))
        return r

    def rkey(self, a):
        return (self.pkey(a[0]), a[1])

    def fromgen(self, key, e=1):
        return ({((self.gen(key), e),): Fraction(1)}, ())

    # --- conversion
    def nf(self, i):
        r = self.memo.get(i)
        if r is not None:
            return r
        # iterative to avoid deep recursion
        st = [i]
        n = self.g.n
        while st:
            x = st[-1]
            if x in self.memo:
                st.pop()
                continue
            t = n[x]
            ch = t[1:3] if t[0] in ('+', '*', '/') else t[1:2] if t[0] == 'neg' else t[2:3] if t[0] == 'fn' else ()
            todo = [c for c in ch if c not in self.memo]
            if todo:
                st += todo
                continue
            self.memo[x] = self._nf(t)
            st.pop()
        return self.memo[i]

    def _nf(self, t):
        k = t[0]
        if k == 'c':
            return (self.pconst(t[1]), ())
        if k == 's':
            return self.fromgen(('s', t[1]))
        if k in ('inf', 'ninf', 'nan'):
            r = self.fromgen((k if k == 'nan' else 'inf',))
            return r if k != 'ninf' else (self.pscale(r[0], Fraction(-1)), ())
        if k == '+':
            return self.radd(self.memo[t[1]], self.memo[t[2]])
        if k == 'neg':
            a = self.memo[t[1]]
            return (self.pscale(a[0], Fraction(-1)), a[1])
        if k == '*':
            return self.rmul(self.memo[t[1]], self.memo[t[2]])
        if k == '/':
            try:
                return self.rmul(self.memo[t[1]], self.rinv(self.memo[t[2]]))
            except ZeroDivisionError:
                return self.fromgen(('nan',))
        if k == 'fn':
            try:
                return self._fn(t[1], self.memo[t[2]])
            except ZeroDivisionError:
                return self.fromgen(('nan',))
        raise ValueError('nf of ' + k)

    def flip(self, a):
        """canonical sign of an argument: (arg, flipped?)"""
        if not a[0]:
            return a, False
        lead = a[0][max(a[0])]
        if lead < 0:
            return (self.pscale(a[0], Fraction(-1)), a[1]), True
        return a, False

    def _fn(self, name, a):
        one = (self.pconst(1), ())
        if name in ('sin', 'tan', 'cos', 'asin', 'atan', 'erf'):
            b, fl = self.flip(a)
            key = self.rkey(b)
            if not b[0]:
                return one if name == 'cos' else ({}, ())
            if name == 'tan':
                r = self.rmul(self.fromgen(('sin', key)), self.fromgen(('cos', key), -1))
            else:
                r = self.fromgen((name, key))
            if fl and name != 'cos':
                r = (self.pscale(r[0], Fraction(-1)), r[1])
            return r
        if name == 'exp':
            return self._exp(a)
        if name in ('sinh', 'cosh', 'tanh'):
            e = self._exp(a)
            m = self._exp((self.pscale(a[0], Fraction(-1)), a[1]))
            neg = (self.pscale(m[0], Fraction(-1)), m[1])
            half = (self.pconst(Fraction(1, 2)), ())
            if name == 'sinh':
                return self.rmul(half, self.radd(e, neg))
            if name == 'cosh':
                return self.rmul(half, self.radd(e, m))
            return self.rmul(self.radd(e, neg), self.rinv(self.radd(e, m)))
        if name == 'sqrt':
            rep = self.pkey(a[0]) if not a[1] else None
            if len(a[0]) == 1 and not a[1]:
                (m, c), = a[0].items()
                if not m and c >= 0:
                    s = math.isqrt(c.numerator), math.isqrt(c.denominator)
                    if s[0] ** 2 == c.numerator and s[1] ** 2 == c.denominator:
                        return (self.pconst(Fraction(*s)), ())
            return self.fromgen(('sqrt', self.rkey(a), rep))
        if name == 'log':
            # log of a product of powers of positive atoms stays one atom; log(1/a) = -log a
            if len(a[0]) == 1 and not a[1]:
                (m, c), = a[0].items()
                if any(self.gens[gi][0] == 'sqrt' and e % 2 and self.gens[gi][2] is not None for gi, e in m):
                    # where log u is defined, u > 0 and log u = 1/2 log u^2
                    r = self._fn('log', self.rmul(a, a))
                    return (self.pscale(r[0], Fraction(1, 2)), r[1])
                if c == 1 and len(m) == 1:
                    gi, e = m[0]
                    if self.gens[gi][0] == 'exp':
                        pass
                    elif e < 0:
                        r = self._fn('log', ({((gi, -e),): Fraction(1)}, ()))
                        return (self.pscale(r[0], Fraction(-1)), r[1])
            return self.fromgen(('log', self.rkey(a)))
        return self.fromgen((name, self.rkey(a)))

    def _exp(self, a):
        one = (self.pconst(1), ())
        if a[1]:
            b, fl = self.flip(a)
            return self.fromgen(('exp', self.rkey(b)), -1 if fl else 1)
        r = one
        for m, c in a[0].items():
            if not m:
                r = self.rmul(r, (self.pconst(Fraction(math.exp(float(c)))), ()))
                continue
            if len(m) == 1 and m[0][1] == 1 and self.gens[m[0][0]][0] == 'log' and c.denominator == 1:
                argk = self.gens[m[0][0]][1]
                base = (dict(argk[0]), argk[1])
                if c < 0:
                    base = self.rinv(base)
                for _ in range(abs(int(c))):
                    r = self.rmul(r, base)
                continue
            k = abs(c)
            num, den = k.numerator, k.denominator
            if num > 64:
                num, base = 1, k
            else:
                base = Fraction(1, den)
            key = ('exp', (((m, base),), ()))
            r = self.rmul(r, self.fromgen(key, num if c > 0 else -num))
        return r

    # --- signs
    def gen_sign(self, gi):
        k = self.gens[gi]
        if k[0] == 'exp':
            return '+'
        if k[0] == 'sqrt':
            return '0+'
        return None

    def psign(self, p):
        """1/-1 when the polynomial is strictly of one sign for all (defined) arguments, 0 when zero, else None"""
        if not p:
            return 0
        signs = set()
        strict = False
        for m, c in p.items():
            ok = True
            st = True
            for gi, e in m:
                s = self.gen_sign(gi)
                if s == '+':
                    continue
                if s == '0+' or e % 2 == 0:
                    if e < 0:
                        continue
                    st = False
                    continue
                ok = False
            if not ok:
                return None
            signs.add(1 if c > 0 else -1)
            strict |= st
        if len(signs) == 1 and strict:
            return signs.pop()
        return None

    def sign_known(self, i):
        try:
            a = self.nf(i)
        except Blowup:
            return None
        s = self.psign(a[0])
        if s is None:
            return None
        for k, e in a[1]:
            if e % 2:
                f = self.psign(dict(k))
                if f is None:
                    return None
                s *= f
        return s

    def sign_parts(self, i):
        """sign(i) = s * prod sign(gen)^parity * sign(primitive).  Returns (s, [(gen, odd?)], primitive key or None);
        generators that are always positive are left out."""
        a = self.nf(i)
        q = a[0]
        for k, e in a[1]:
            if e % 2:
                q = self.pmul(q, dict(k))
        c, m, pr = self.content(q)
        parts = []
        for gi, e in m:
            s = self.gen_sign(gi)
            if s == '+' or (e < 0 and (s == '0+' or e % 2 == 0)):
                continue
            parts.append((gi, bool(e % 2)))
        s = -1 if c < 0 else 1
        pk = None
        if not (len(pr) == 1 and () in pr):
            ps = self.psign(pr)
            if ps:
                s *= ps
            else:
                pk = self.pkey(pr)
        return s, parts, pk

    # --- back to nodes
    def node_of_gen(self, gi):
        k = self.gens[gi]
        if k[0] == 's':
            return self.g.sym(k[1])
        if k[0] in ('inf', 'nan'):
            return self.g.const(math.inf if k[0] == 'inf' else math.nan)
        return self.g.fn(k[0], self.node_of_rat(k[1]))

    def node_of_poly(self, pk):
        g = self.g
        r = g.ZERO
        for m, c in pk:
            t = g.const(c)
            for gi, e in m:
                n = self.node_of_gen(gi) if not isinstance(gi, str) else gi
                if isinstance(e, Fraction) and e.denominator != 1:
                    raise Blowup()
                for _ in range(abs(int(e))):
                    t = g.mul(t, n) if e > 0 else g.div(t, n)
            r = g.add(r, t)
        return r

    def node_of_rat(self, r):
        g = self.g
        n = self.node_of_poly(r[0])
        for k, e in r[1]:
            d = self.node_of_poly(k)
            for _ in range(e):
                n = g.div(n, d)
        return n

    # --- equality
    def clear_neg(self, *ps):
        low = {}
        for p in ps:
            for m in p:
                for gi, e in m:
                    if e < 0:
                        low[gi] = min(low.get(gi, 0), e)
        if not low:
            return ps
        mm = tuple(sorted((gi, -e) for gi, e in low.items()))
        return tuple(self.reduce({self.mmul(m, mm): c for m, c in p.items()}) for p in ps)

    def nf_equal(self, i, j):
        if i == j:
            return True
        try:
            a, b = self.nf(i), self.nf(j)
            if self.rkey(a) == self.rkey(b):
                return True
            da, db = dict(a[1]), dict(b[1])
            l = {k: max(da.get(k, 0), db.get(k, 0)) for k in set(da) | set(db)}
            ca = tuple((k, e - da.get(k, 0)) for k, e in l.items() if e > da.get(k, 0))
            cb = tuple((k, e - db.get(k, 0)) for k, e in l.items() if e > db.get(k, 0))
            x = self.pmul(a[0], self.expandf(ca))
            y = self.pmul(b[0], self.expandf(cb))
            for _ in range(3):
                x, y = self.clear_neg(x, y)
        except Blowup:
            return None
        if any(self.gens[gi][0] in ('nan',) for p in (x, y) for m in p for gi, _ in m):
            return False
        # coefficients of the same monomial may differ by the rounding of the constants in them, and by nothing else
        for m in set(x) | set(y):
            u, v = x.get(m, Fraction(0)), y.get(m, Fraction(0))
            if abs(u - v) > max(abs(u), abs(v)) * Fraction(1, 2**46):
                return False
        return True

    def nf_support(self, i):
        """symbols surviving in the normal form"""
        a = self.nf(i)
        out = set()

        def walkp(p):
            for m, c in (p.items() if isinstance(p, dict) else p):
                for gi, e in m:
                    walkg(gi)
        seen = set()

        def walkg(gi):
            if gi in seen:
                return
            seen.add(gi)
            k = self.gens[gi]
            if k[0] == 's':
                out.add(k[1])
            elif len(k) > 1:
                walkr(k[1])

        def walkr(r):
            walkp(r[0])
            for f, e in r[1]:
                walkp(f)
        walkp(a[0])
        for f, e in a[1]:
            walkp(f)
        return out

"""Value-graph dataflow over SSA.

One forward pass in topological order over the blocks of a function gives every SSA name and every
memory cell a node of a hash-consed value graph.  Joins become gated nodes (`ite` over a decision diagram of
comparison atoms); no path is enumerated, nothing is executed and no solver is involved.
"""
import re
import math
import struct
from nfbase import Blowup
from fractions import Fraction
from irparse import IRError


# storage Eigen keeps for itself (cache-size table of its matrix products)
EIGEN_GLOBAL = r'@?"?_ZG?V?Z+N5Eigen'


class Unanalysable(Exception):
    pass


def nice(x):
    """exact rational for a double; short rationals that round to the same double are preferred"""
    if x == math.floor(x) and abs(x) < 1e15:
        return Fraction(int(x))
    fr = Fraction(x)
    lim = fr.limit_denominator(1000000)
    if lim != 0 and float(lim) == x:
        return lim
    return fr


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r, self.o = r, o

    def __eq__(self, b):
        return isinstance(b, Ptr) and self.r == b.r and self.o == b.o

    def __hash__(self):
        return hash((self.r, self.o))

    def __repr__(self):
        return '%s+%d' % (self.r, self.o)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class F:
    """float-valued graph node reference"""
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def __eq__(self, b):
        return isinstance(b, F) and b.i == self.i

    def __hash__(self):
        return hash(('F', self.i))

    def __repr__(self):
        return 'F%d' % self.i


class B:
    """boolean value: node of the decision diagram"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __eq__(self, o):
        return isinstance(o, B) and o.b == self.b

    def __hash__(self):
        return hash(('B', self.b))

    def __repr__(self):
        return 'B%d' % self.b


class Cells:
    """the bytes of a wide load of which only some are initialised (a copied struct with padding)"""
    __slots__ = ('sz', 'parts')

    def __init__(self, sz, parts):
        self.sz, self.parts = sz, parts     # parts: [(offset, size, value)]


class Bits:
    """the bit pattern of a float node, as an integer"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, Bits) and o.f == self.f

    def __hash__(self):
        return hash(('Bits', self.f))


class VIte:
    """gated non-float value"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, VIte) and (self.c, self.a, self.b) == (o.c, o.a, o.b)

    def __hash__(self):
        return hash((self.c, self.a, self.b))


class Agg:
    def __init__(self, els):
        self.els = els

    def __eq__(self, o):
        return isinstance(o, Agg) and self.els == o.els

    def __hash__(self):
        return hash(tuple(self.els))


FN1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'sqrt', 'erf', 'sinh', 'cosh', 'tanh'}


class Graph:
    def __init__(self):
        self.n = []
        self.tab = {}
        self.bn = [None, None]          # decision diagram: (atom, lo, hi)
        self.btab = {}
        self.atoms = []                 # ('pos'|'zero', nfkey, float node p)
        self.atab = {}
        self.bmemo = {}
        self.nf = None                  # installed by nf.py
        self.itefree = {}
        self.ZERO = self.const(Fraction(0))
        self.ONE = self.const(Fraction(1))

    # -- nodes
    def _mk(self, *t):
        i = self.tab.get(t)
        if i is None:
            i = len(self.n)
            self.n.append(t)
            self.tab[t] = i
        return i

    def const(self, q):
        if isinstance(q, float):
            if math.isinf(q):
                return self._mk('inf' if q > 0 else 'ninf')
            if math.isnan(q):
                return self._mk('nan')
            q = nice(q)
        return self._mk('c', Fraction(q))

    def sym(self, name):
        return self._mk('s', name)

    def isc(self, i):
        return self.n[i][0] == 'c'

    def cv(self, i):
        return self.n[i][1]

    def neg(self, a):
        t = self.n[a]
        if t[0] == 'c':
            return self.const(-t[1])
        if t[0] == 'neg':
            return t[1]
        if t[0] == 'inf':
            return self._mk('ninf')
        if t[0] == 'ninf':
            return self._mk('inf')
        if t[0] == 'ite':
            return self.ite(t[1], self.neg(t[2]), self.neg(t[3]))
        return self._mk('neg', a)

    def isinf(self, a):
        return self.n[a][0] in ('inf', 'ninf')

    def hasinf(self, a):
        t = self.n[a]
        return t[0] in ('inf', 'ninf', 'nan') or (t[0] == 'ite' and (self.hasinf(t[2]) or self.hasinf(t[3])))

    def _lift2(self, f, a, b):
        """lift gates whose leaves carry infinities, so that absorption rules apply"""
        ta = self.n[a]
        if ta[0] == 'ite' and self.hasinf(a):
            return self.ite(ta[1], f(ta[2], b), f(ta[3], b))
        tb = self.n[b]
        if tb[0] == 'ite' and self.hasinf(b):
            return self.ite(tb[1], f(a, tb[2]), f(a, tb[3]))
        return None

    def add(self, a, b):
        r = self._lift2(self.add, a, b)
        if r is not None:
            return r
        ta, tb = self.n[a], self.n[b]
        if ta[0] == 'nan' or tb[0] == 'nan':
            return self._mk('nan')
        if ta[0] in ('inf', 'ninf'):
            if tb[0] in ('inf', 'ninf') and tb[0] != ta[0]:
                return self._mk('nan')
            return a
        if tb[0] in ('inf', 'ninf'):
            return b
        if ta[0] == 'c' and tb[0] == 'c':
            return self.const(ta[1] + tb[1])
        if a == self.ZERO:
            return b
        if b == self.ZERO:
            return a
        if a > b:
            a, b = b, a
        return self._mk('+', a, b)

    def sub(self, a, b):
        if a == b and not self.hasinf(a):
            return self.ZERO
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        r = self._lift2(self.mul, a, b)
        if r is not None:
            return r
        ta, tb = self.n[a], self.n[b]
        if ta[0] == 'nan' or tb[0] == 'nan':
            return self._mk('nan')
        if ta[0] == 'c' and tb[0] == 'c':
            return self.const(ta[1] * tb[1])
        for x, y in ((a, b), (b, a)):
            tx, ty = self.n[x], self.n[y]
            if tx[0] == 'c':
                if ty[0] in ('inf', 'ninf'):
                    if tx[1] == 0:
                        return self._mk('nan')
                    return y if tx[1] > 0 else self.neg(y)
                if tx[1] == 0:
                    return self.ZERO
                if tx[1] == 1:
                    return y
                if tx[1] == -1:
                    return self.neg(y)
        if ta[0] in ('inf', 'ninf') and tb[0] in ('inf', 'ninf'):
            return self._mk('inf' if ta[0] == tb[0] else 'ninf')
        for x, y in ((a, b), (b, a)):
            tx = self.n[x]
            if tx[0] in ('inf', 'ninf'):
                # sign decided by the other factor
                c = self.cmp_pos(y)
                z = self.cmp_zero(y)
                return self.ite(z, self._mk('nan'), self.ite(c, x, self.neg(x)))
        if a > b:
            a, b = b, a
        return self._mk('*', a, b)

    def div(self, a, b):
        r = self._lift2(self.div, a, b)
        if r is not None:
            return r
        ta, tb = self.n[a], self.n[b]
        if ta[0] == 'nan' or tb[0] == 'nan':
            return self._mk('nan')
        if tb[0] in ('inf', 'ninf'):
            return self._mk('nan') if ta[0] in ('inf', 'ninf') else self.ZERO
        if tb[0] == 'c':
            if tb[1] == 0:
                if ta[0] == 'c':
                    if ta[1] == 0:
                        return self._mk('nan')
                    return self._mk('inf' if ta[1] > 0 else 'ninf')
                return self._mk('/', a, b)
            return self.mul(a, self.const(1 / tb[1]))
        if ta[0] in ('inf', 'ninf'):
            return self.mul(a, b)
        if a == self.ZERO:
            return a
        return self._mk('/', a, b)

    def fn(self, name, a):
        t = self.n[a]
        if t[0] == 'ite' and (self.hasinf(a)):
            return self.ite(t[1], self.fn(name, t[2]), self.fn(name, t[3]))
        if t[0] == 'nan':
            return a
        if t[0] == 'c':
            v = t[1]
            try:
                fv = float(v)
                if name == 'f32':
                    return self.const(narrow32(fv))
                if name == 'round':
                    return self.const(math.floor(fv + 0.5))
                if name == 'log' and v == 0:
                    return self._mk('ninf')
                f = getattr(math, name)
                return self.const(f(fv))
            except (ValueError, OverflowError):
                return self._mk('fn', name, a)
        if t[0] == 'inf' and name in ('exp', 'log', 'sqrt'):
            return a
        if t[0] == 'ninf' and name == 'exp':
            return self.ZERO
        if name == 'log' and t[0] == 'fn' and t[1] == 'exp':
            return t[2]
        return self._mk('fn', name, a)

    def fabs(self, a):
        t = self.n[a]
        if t[0] == 'c':
            return self.const(abs(t[1]))
        if t[0] in ('inf', 'ninf'):
            return self._mk('inf')
        if t[0] == 'nan':
            return a
        if t[0] == 'ite':
            return self.ite(t[1], self.fabs(t[2]), self.fabs(t[3]))
        lt = self.cmp_pos(self.neg(a))
        return self.ite(lt, self.neg(a), a)

    def refine(self, i, memo=None):
        """the same value with the points at which a logarithm or quotient is not finite made explicit; used only where
        the program asks whether a number is finite"""
        memo = {} if memo is None else memo
        if i in memo:
            return memo[i]
        t = self.n[i]
        R = lambda x: self.refine(x, memo)
        if t[0] == '+':
            r = self.add(R(t[1]), R(t[2]))
        elif t[0] == '*':
            r = self.mul(R(t[1]), R(t[2]))
        elif t[0] == 'neg':
            r = self.neg(R(t[1]))
        elif t[0] == '/':
            n, d = R(t[1]), R(t[2])
            z = self.cmp_zero(d) if not self.hasinf(d) else 0
            if z == 0 or self.hasinf(n):
                r = self.div(n, d)
            else:
                r = self.ite(z, self.ite(self.cmp_zero(n), self._mk('nan'), self.ite(
                    self.cmp_pos(n), self._mk('inf'), self._mk('ninf'))), self.div(n, d))
        elif t[0] == 'fn':
            u = R(t[2])
            r = self.fn(t[1], u)
            if t[1] in ('log', 'sqrt') and self.n[u][0] not in ('c', 'inf', 'ninf', 'nan') and not self.hasinf(u):
                if t[1] == 'log':
                    r = self.ite(self.cmp_zero(u), self._mk('ninf'), r)
                r = self.ite(self.cmp_pos(self.neg(u)), self._mk('nan'), r)
        elif t[0] == 'ite':
            r = self.ite(t[1], R(t[2]), R(t[3]))
        else:
            r = i
        memo[i] = r
        return r

    def pow(self, a, b):
        tb = self.n[b]
        if tb[0] == 'ite':
            return self.ite(tb[1], self.pow(a, tb[2]), self.pow(a, tb[3]))
        if tb[0] == 'c':
            if tb[1].denominator == 1 and abs(tb[1]) <= 64:
                k = int(tb[1])
                r = self.ONE
                for _ in range(abs(k)):
                    r = self.mul(r, a)
                return r if k >= 0 else self.div(self.ONE, r)
            if tb[1] == Fraction(1, 2):
                return self.fn('sqrt', a)
        if self.n[a][0] == 'c' and tb[0] == 'c':
            try:
                return self.const(math.pow(float(self.cv(a)), float(tb[1])))
            except (ValueError, OverflowError):
                pass
        return self.fn('exp', self.mul(b, self.fn('log', a)))

    # -- decision diagram
    def bmk(self, atom, lo, hi):
        if lo == hi:
            return lo
        t = (atom, lo, hi)
        i = self.btab.get(t)
        if i is None:
            i = len(self.bn)
            self.bn.append(t)
            self.btab[t] = i
        return i

    def bite(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a == b:
            return a
        if a == 1 and b == 0:
            return c
        k = (c, a, b)
        r = self.bmemo.get(k)
        if r is not None:
            return r
        top = min(self.bn[x][0] for x in (c, a, b) if x > 1)

        def co(x, v):
            if x > 1 and self.bn[x][0] == top:
                return self.bn[x][2] if v else self.bn[x][1]
            return x
        r = self.bmk(top, self.bite(co(c, 0), co(a, 0), co(b, 0)), self.bite(co(c, 1), co(a, 1), co(b, 1)))
        self.bmemo[k] = r
        return r

    def band(self, a, b):
        return self.bite(a, b, 0)

    def bor(self, a, b):
        return self.bite(a, 1, b)

    def bnot(self, a):
        return self.bite(a, 0, 1)

    def bxor(self, a, b):
        return self.bite(a, self.bnot(b), b)

    def brestrict(self, x, atom, val):
        if x <= 1:
            return x
        k = ('r', x, atom, val)
        r = self.bmemo.get(k)
        if r is None:
            a, lo, hi = self.bn[x]
            if a > atom:
                r = x
            elif a == atom:
                r = hi if val else lo
            else:
                r = self.bmk(a, self.brestrict(lo, atom, val), self.brestrict(hi, atom, val))
            self.bmemo[k] = r
        return r

    def atom(self, kind, key, p):
        k = (kind, key)
        i = self.atab.get(k)
        if i is None:
            i = len(self.atoms)
            self.atoms.append((kind, key, p))
            self.atab[k] = i
        return self.bmk(i, 0, 1)

    # -- gates
    def ite(self, c, a, b):
        if c == 1 or a == b:
            return a
        if c == 0:
            return b
        # redundant nested gates
        t = self.n[a]
        if t[0] == 'ite' and t[1] == c:
            a = t[2]
        t = self.n[b]
        if t[0] == 'ite' and t[1] == c:
            b = t[3]
        if a == b:
            return a
        return self._mk('ite', c, a, b)

    def has_ite(self, i):
        r = self.itefree.get(i)
        if r is None:
            t = self.n[i]
            if t[0] == 'ite':
                r = True
            elif t[0] in ('+', '*', '/'):
                r = self.has_ite(t[1]) or self.has_ite(t[2])
            elif t[0] == 'neg':
                r = self.has_ite(t[1])
            elif t[0] == 'fn':
                r = self.has_ite(t[2])
            else:
                r = False
            self.itefree[i] = r
        return r

    def top_atom(self, i, memo=None):
        """smallest atom gating node i (None if ite-free)"""
        if not self.has_ite(i):
            return None
        if memo is None:
            memo = {}
        if i in memo:
            return memo[i]
        t = self.n[i]
        best = None
        if t[0] == 'ite':
            best = self.bn[t[1]][0]
            ch = t[2:4]
        elif t[0] in ('+', '*', '/'):
            ch = t[1:3]
        elif t[0] == 'neg':
            ch = t[1:2]
        else:
            ch = t[2:3]
        for x in ch:
            r = self.top_atom(x, memo)
            if r is not None and (best is None or r < best):
                best = r
        memo[i] = best
        return best

    def restrict(self, i, atom, val, memo):
        if not self.has_ite(i):
            return i
        r = memo.get(i)
        if r is not None:
            return r
        t = self.n[i]
        R = lambda x: self.restrict(x, atom, val, memo)
        if t[0] == 'ite':
            c = self.brestrict(t[1], atom, val)
            if c == 1:
                r = R(t[2])
            elif c == 0:
                r = R(t[3])
            else:
                r = self.ite(c, R(t[2]), R(t[3]))
        elif t[0] == '+':
            r = self.add(R(t[1]), R(t[2]))
        elif t[0] == '*':
            r = self.mul(R(t[1]), R(t[2]))
        elif t[0] == '/':
            r = self.div(R(t[1]), R(t[2]))
        elif t[0] == 'neg':
            r = self.neg(R(t[1]))
        else:
            r = self.fn(t[1], R(t[2]))
        memo[i] = r
        return r

    # -- comparisons
    def _lift_cmp(self, p, f):
        """apply f (ite-free float -> bdd) to p, lifting gates"""
        a = self.top_atom(p)
        if a is None:
            return f(p)
        lo = self._lift_cmp(self.restrict(p, a, 0, {}), f)
        hi = self._lift_cmp(self.restrict(p, a, 1, {}), f)
        # result may mention atoms smaller than a: use full ite
        return self.bite(self.bmk(a, 0, 1), hi, lo)

    def cmp_pos(self, p):
        return self._lift_cmp(p, self._pos)

    def cmp_zero(self, p):
        return self._lift_cmp(p, self._zero)

    def _atoms_of(self, p):
        """(sign, [(pos-bdd, zero-bdd, odd?)]) for the sign-deciding factors of p; None when constant"""
        try:
            s, parts, pk = self.nf.sign_parts(p)
            out = []
            for gi, odd in parts:
                key = ((((gi, 1),), Fraction(1)),)
                if self.nf.gen_sign(gi) == '0+':
                    z = self.atom('zero', key, self.nf.node_of_gen(gi))
                    out.append((self.bnot(z), z, odd))
                else:
                    n = self.nf.node_of_gen(gi)
                    out.append((self.atom('pos', key, n), self.atom('zero', key, n), odd))
            if pk is not None:
                n = self.nf.node_of_poly(pk)
                out.append((self.atom('pos', pk, n), self.atom('zero', pk, n), True))
            return s, out
        except Blowup:
            key = ('node', p)
            return 1, [(self.atom('pos', key, p), self.atom('zero', key, p), True)]

    def _pos(self, p):
        t = self.n[p]
        if t[0] == 'c':
            return int(t[1] > 0)
        if t[0] == 'inf':
            return 1
        if t[0] in ('ninf', 'nan'):
            return 0
        s = self.nf.sign_known(p)
        if s is not None:
            return int(s > 0)
        s, parts = self._atoms_of(p)
        neg = 1 if s < 0 else 0
        nz = 1
        for pos, z, odd in parts:
            nz = self.band(nz, self.bnot(z))
            if odd:
                neg = self.bxor(neg, self.bnot(pos))
        return self.band(nz, self.bnot(neg))

    def _zero(self, p):
        t = self.n[p]
        if t[0] == 'c':
            return int(t[1] == 0)
        if t[0] in ('inf', 'ninf', 'nan'):
            return 0
        s = self.nf.sign_known(p)
        if s is not None:
            return int(s == 0)
        r = 0
        for pos, z, odd in self._atoms_of(p)[1]:
            r = self.bor(r, z)
        return r

    def fcmp(self, pred, a, b):
        if pred == 'true' or pred == 'ord':
            return 1 if pred == 'true' else self.bnot(self._isnan2(a, b))
        if pred == 'false':
            return 0
        if pred == 'uno':
            return self._isnan2(a, b)
        if pred[0] == 'u' or pred[0] == 'o':
            nn = self._isnan2(a, b)
            r = self._fcmp(pred[1:], a, b)
            if nn == 0:
                return r
            return self.bite(nn, 1 if pred[0] == 'u' else 0, r)
        raise Unanalysable('fcmp ' + pred)

    def _isnan2(self, a, b):
        def nanc(p):
            if not self.hasinf(p):
                return 0
            t = self.n[p]
            if t[0] == 'nan':
                return 1
            if t[0] == 'ite':
                return self.bite(t[1], nanc(t[2]), nanc(t[3]))
            return 0
        return self.bor(nanc(a), nanc(b))

    def _fcmp(self, p, a, b, refined=False):
        # lift when infinities are involved so that inf-inf never arises
        ta, tb = self.n[a], self.n[b]
        if not refined and tb[0] in ('inf', 'ninf') and not self.hasinf(a):
            a = self.refine(a)
            ta = self.n[a]
        elif not refined and ta[0] in ('inf', 'ninf') and not self.hasinf(b):
            b = self.refine(b)
            tb = self.n[b]
        if (self.hasinf(a) and ta[0] == 'ite'):
            return self.bite(ta[1], self._fcmp(p, ta[2], b, True), self._fcmp(p, ta[3], b, True))
        if (self.hasinf(b) and tb[0] == 'ite'):
            return self.bite(tb[1], self._fcmp(p, a, tb[2], True), self._fcmp(p, a, tb[3], True))
        if ta[0] in ('inf', 'ninf') or tb[0] in ('inf', 'ninf'):
            va = {'inf': 1, 'ninf': -1}.get(ta[0], 0)
            vb = {'inf': 1, 'ninf': -1}.get(tb[0], 0)
            return int({'lt': va < vb, 'le': va <= vb, 'gt': va > vb, 'ge': va >= vb,
                        'eq': va == vb, 'ne': va != vb}[p])
        d = self.sub(a, b)
        if p == 'gt':
            return self.cmp_pos(d)
        if p == 'le':
            return self.bnot(self.cmp_pos(d))
        if p == 'eq':
            return self.cmp_zero(d)
        if p == 'ne':
            return self.bnot(self.cmp_zero(d))
        e = self.sub(b, a)
        if p == 'lt':
            return self.cmp_pos(e)
        if p == 'ge':
            return self.bnot(self.cmp_pos(e))
        raise Unanalysable('fcmp ' + p)

    def support(self, i, out=None, seen=None):
        """symbols a node depends on (data and gates)"""
        if out is None:
            out, seen = set(), set()
        st = [i]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            t = self.n[x]
            if t[0] == 's':
                out.add(t[1])
            elif t[0] in ('+', '*', '/'):
                st += t[1:3]
            elif t[0] == 'neg':
                st.append(t[1])
            elif t[0] == 'fn':
                st.append(t[2])
            elif t[0] == 'ite':
                st += t[2:4]
                bs = [t[1]]
                bseen = set()
                while bs:
                    y = bs.pop()
                    if y <= 1 or y in bseen:
                        continue
                    bseen.add(y)
                    st.append(self.atoms[self.bn[y][0]][2])
                    bs += self.bn[y][1:3]
        return out

    # -- formal derivative of an ite-free node
    def deriv(self, i, s, memo):
        r = memo.get(i)
        if r is not None:
            return r
        t = self.n[i]
        D = lambda x: self.deriv(x, s, memo)
        if t[0] == 's':
            r = self.ONE if t[1] == s else self.ZERO
        elif t[0] in ('c', 'inf', 'ninf', 'nan'):
            r = self.ZERO
        elif t[0] == '+':
            r = self.add(D(t[1]), D(t[2]))
        elif t[0] == 'neg':
            r = self.neg(D(t[1]))
        elif t[0] == '*':
            r = self.add(self.mul(D(t[1]), t[2]), self.mul(t[1], D(t[2])))
        elif t[0] == '/':
            da, db = D(t[1]), D(t[2])
            r = self.div(da, t[2])
            if db != self.ZERO:
                r = self.sub(r, self.div(self.mul(t[1], db), self.mul(t[2], t[2])))
        elif t[0] == 'fn':
            a = t[2]
            d = D(a)
            if d == self.ZERO:
                r = self.ZERO
            else:
                nm = t[1]
                one = self.ONE
                sq = lambda x: self.mul(x, x)
                if nm == 'sin':
                    g = self.fn('cos', a)
                elif nm == 'cos':
                    g = self.neg(self.fn('sin', a))
                elif nm == 'tan':
                    g = self.div(one, sq(self.fn('cos', a)))
                elif nm == 'asin':
                    g = self.div(one, self.fn('sqrt', self.sub(one, sq(a))))
                elif nm == 'acos':
                    g = self.neg(self.div(one, self.fn('sqrt', self.sub(one, sq(a)))))
                elif nm == 'atan':
                    g = self.div(one, self.add(one, sq(a)))
                elif nm == 'exp':
                    g = i
                elif nm == 'log':
                    g = self.div(one, a)
                elif nm == 'sqrt':
                    g = self.div(one, self.mul(self.const(2), i))
                elif nm == 'erf':
                    g = self.mul(self.const(2 / math.sqrt(math.pi)), self.fn('exp', self.neg(sq(a))))
                elif nm == 'sinh':
                    g = self.fn('cosh', a)
                elif nm == 'cosh':
                    g = self.fn('sinh', a)
                elif nm == 'tanh':
                    g = self.sub(one, sq(i))
                elif nm == 'f32':
                    g = one
                elif nm in ('floor', 'ceil', 'trunc', 'round'):
                    g = self.ZERO
                else:
                    raise Unanalysable('derivative of ' + nm)
                r = self.mul(g, d)
        else:
            raise Unanalysable('derivative of gate')
        memo[i] = r
        return r

    # -- numeric evaluation of an ite-free node (used only for counterexample points and feasibility)
    def evalf(self, i, env, memo, M=math):
        r = memo.get(i)
        if r is not None:
            return r
        t = self.n[i]
        E = lambda x: self.evalf(x, env, memo, M)
        if t[0] == 'c':
            r = M.mpf(t[1].numerator) / t[1].denominator if hasattr(M, 'mpf') else float(t[1])
        elif t[0] == 's':
            r = env[t[1]]
        elif t[0] == 'inf':
            r = M.inf
        elif t[0] == 'ninf':
            r = -M.inf
        elif t[0] == 'nan':
            r = M.nan
        elif t[0] == '+':
            r = E(t[1]) + E(t[2])
        elif t[0] == '*':
            r = E(t[1]) * E(t[2])
        elif t[0] == 'neg':
            r = -E(t[1])
        elif t[0] == '/':
            r = E(t[1]) / E(t[2])
        elif t[0] == 'fn':
            x = E(t[2])
            if t[1] in ('log', 'sqrt') and x < 0:
                raise ValueError('domain')
            if t[1] in ('asin', 'acos') and abs(x) > 1:
                raise ValueError('domain')
            if t[1] == 'f32':
                r = narrow32(x)
                r = M.mpf(r) if hasattr(M, 'mpf') else r
            elif t[1] == 'trunc':
                r = M.floor(x) if x >= 0 else M.ceil(x)
            elif t[1] == 'round':
                r = M.floor(x + 0.5)
            else:
                r = getattr(M, t[1])(x)
        else:
            raise Unanalysable('evalf of gate')
        memo[i] = r
        return r

    def show(self, i, depth=12):
        t = self.n[i]
        if depth == 0:
            return '…'
        S = lambda x: self.show(x, depth - 1)
        if t[0] == 'c':
            q = t[1]
            return str(q) if q.denominator < 10000 else repr(float(q))
        if t[0] == 's':
            return t[1]
        if t[0] in ('inf', 'nan'):
            return t[0]
        if t[0] == 'ninf':
            return '-inf'
        if t[0] == '+':
            return '(%s + %s)' % (S(t[1]), S(t[2]))
        if t[0] == '*':
            return '%s*%s' % (S(t[1]), S(t[2]))
        if t[0] == '/':
            return '(%s / %s)' % (S(t[1]), S(t[2]))
        if t[0] == 'neg':
            return '-%s' % S(t[1])
        if t[0] == 'fn':
            return '%s(%s)' % (t[1], S(t[2]))
        return 'ite(%d, %s, %s)' % (t[1], S(t[2]), S(t[3]))


class Access:
    __slots__ = ('region', 'off', 'size', 'kind', 'cond', 'dbg')

    def __init__(self, region, off, size, kind, cond, dbg):
        self.region, self.off, self.size, self.kind, self.cond, self.dbg = region, off, size, kind, cond, dbg


class FInt:
    """an integer that is the truncation of a symbolic floating-point value"""

    def __init__(self, i, w):
        self.i, self.w = i, w

    def __eq__(self, o):
        return isinstance(o, FInt) and o.i == self.i

    def __hash__(self):
        return hash(('fint', self.i))


def narrow32(x):
    import struct
    return struct.unpack('f', struct.pack('f', float(x)))[0]


# functions that lose information: opaque, locally constant (or, for narrowing to single precision, locally the identity)
ROUND = {'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'round': 'round', 'rint': 'round', 'nearbyint': 'round'}
MATH1 = {}
for _f, _n in ROUND.items():
    MATH1[_f] = _n
    MATH1['llvm.%s.f64' % _f] = _n
for _f in FN1:
    MATH1[_f] = _f
    MATH1['llvm.%s.f64' % _f] = _f
    MATH1[_f + 'f'] = _f
    MATH1['llvm.%s.f32' % _f] = _f


class Analysis:
    """dataflow pass over one function"""

    def __init__(self, mod, fname, argnames, g, argsyms=None):
        self.mod, self.g = mod, g
        self.fn = mod.func(fname)
        self.argnames = argnames
        self.argsyms = argsyms or {}
        self.accesses = []
        self.issues = []          # (kind, cond, message, dbg)
        self.env = {}
        self.regions = {}         # name -> dict(kind,size)
        self.nheap = 0
        self.ninst = 0
        self.nundef = 0
        self.final = None
        self.final_cond = 0
        self.regions['null'] = dict(kind='null', size=0)

    # ---- top level
    MAXITER = 600          # iterations of one residual loop
    MAXSTEPS = 400000      # instructions analysed per function

    def cfg(self):
        """successors, reverse post order without back edges, natural loops (header -> body)"""
        f = self.fn
        succ = {}
        for l, ins in f.blocks.items():
            t = ins[-1]
            if t.op == 'br':
                succ[l] = [t.args[0]] if len(t.args) == 1 else [t.args[1], t.args[2]]
            elif t.op == 'switch':
                succ[l] = [t.args[1]] + [x[1] for x in t.args[2]]
            else:
                succ[l] = []
        pred = {}
        for l, ss in succ.items():
            for x in ss:
                pred.setdefault(x, []).append(l)
        order, state, back = [], {}, []
        st = [(f.order[0], iter(succ[f.order[0]]))]
        state[f.order[0]] = 1
        while st:
            l, it = st[-1]
            for s in it:
                if state.get(s) == 1:
                    back.append((l, s))
                if s not in state:
                    state[s] = 1
                    st.append((s, iter(succ[s])))
                    break
            else:
                state[l] = 2
                order.append(l)
                st.pop()
        order.reverse()
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x in body:
                    continue
                if x == f.order[0]:
                    raise Unanalysable('irreducible control flow')
                body.add(x)
                st += [p for p in pred.get(x, []) if p in state]
        return succ, order, loops

    def where(self, dbg):
        fr = self.mod.frames(dbg)
        return fr[0] if fr else ('?', 0, '?')

    def run(self):
        f = self.fn
        self.dbg = None
        succ, self.rpo, self.loops = self.cfg()
        for k, (t, nm) in enumerate(f.params):
            an = self.argnames[k]
            if t[0] == 'ptr':
                self.regions.setdefault(an, dict(kind='arg', size=None))
                self.env[nm] = Ptr(an, 0)
            elif t[0] == 'double':
                self.env[nm] = F(self.g.sym(an))
            else:
                raise Unanalysable('parameter type')
        self.inc = {f.order[0]: [(None, 1, {}, {}, {})]}
        self.rets = []
        self.region(set(f.blocks), None)
        if not self.rets:
            self.final = {}
        elif len(self.rets) == 1:
            self.final = self.rets[0][1]
        else:
            raise Unanalysable('several returns')
        return self

    def region(self, blocks, header):
        """process the blocks of a region in topological order; inner loops are processed as a whole"""
        done = set()
        for l in self.rpo:
            if l not in blocks or l in done:
                continue
            if l in self.loops and l != header:
                body = self.loops[l]
                done |= body
                self.loop(l, body)
            else:
                done.add(l)
                self.block(l)

    def loop(self, h, body):
        """unroll in the abstract: every iteration gets its own values; ends when no edge re-enters the header"""
        n = 0
        while self.inc.get(h):
            n += 1
            if n > self.MAXITER:
                raise Unanalysable('loop without a bound at %s' % (self.where(self.fn.blocks[h][-1].dbg),))
            self.region(body, h)

    def block(self, l):
        g = self.g
        ins_ = self.inc.pop(l, None)
        if not ins_:
            return
        c = 0
        for e in ins_:
            c = g.bor(c, e[1])
        self.cond = c
        if len(ins_) == 1:
            self.mem = {r: dict(m) for r, m in ins_[0][2].items()}
            self.freed = dict(ins_[0][3])
        else:
            self.mem, self.freed = self.join(ins_)
        self.cur = l
        blk = self.fn.blocks[l]
        phis = [i for i in blk if i.op == 'phi']
        if phis:
            vals = []
            for i in phis:
                acc = None
                for e in reversed(ins_):
                    v = e[4][i.res]
                    acc = v if acc is None else self.gite(e[1], v, acc)
                vals.append(acc)
            for i, v in zip(phis, vals):
                self.env[i.res] = v
        for ins in blk:
            self.ninst += 1
            if ins.op != 'phi':
                self.step(ins)
        if self.ninst > self.MAXSTEPS:
            raise Unanalysable('too many instructions')
        t = blk[-1]
        out = {}
        if t.op == 'br':
            if len(t.args) == 1:
                out[t.args[0]] = self.cond
            else:
                b = self.boolv(self.val(('int', 1), t.args[0]))
                for x, cc in ((t.args[1], g.band(self.cond, b)), (t.args[2], g.band(self.cond, g.bnot(b)))):
                    out[x] = g.bor(out.get(x, 0), cc)
        elif t.op == 'switch':
            v = self.val(t.ty, t.args[0])
            rest = self.cond
            for cv, cl in t.args[2]:
                b = self.icmp('eq', v, cv, t.ty)
                out[cl] = g.bor(out.get(cl, 0), g.band(rest, b))
                rest = g.band(rest, g.bnot(b))
            out[t.args[1]] = g.bor(out.get(t.args[1], 0), rest)
        elif t.op == 'ret':
            self.final_cond = g.bor(self.final_cond, self.cond)
            self.rets.append((l, self.mem))
        for x, cc in out.items():
            if cc == 0:
                continue
            pv = {}
            for i in self.fn.blocks[x]:
                if i.op != 'phi':
                    break
                for v, pl in i.args:
                    if pl == l:
                        y = self.val(i.ty, v)
                        if i.ty[0] == 'double' and not isinstance(y, F):
                            y = self.as_float(y)
                        pv[i.res] = y
            self.inc.setdefault(x, []).append((l, cc, self.mem, self.freed, pv))

    def join(self, ins_):
        g = self.g
        mem = {}
        regs = []
        for e in ins_:
            for r in e[2]:
                if r not in regs:
                    regs.append(r)
        for r in regs:
            ms = [e[2].get(r) for e in ins_]
            offs = set()
            for m in ms:
                if m:
                    offs |= set(m)
            out = {}
            for o in sorted(offs):
                cells = [m.get(o) if m else None for m in ms]
                sizes = {c[0] for c in cells if c is not None}
                if len(sizes) > 1:
                    raise Unanalysable('memory cells of different width meet')
                sz = sizes.pop()
                isf = any(c is not None and isinstance(c[1], F) for c in cells)
                vals = []
                for k, c in enumerate(cells):
                    if c is None:
                        # overlapping narrower/wider cell in that predecessor?
                        m = ms[k] or {}
                        for oo, cc in m.items():
                            if oo < o + sz and oo + cc[0] > o:
                                raise Unanalysable('memory cells of different width meet')
                        v = self.initial(r, o, sz, 'f' if (isf or sz == 8 and self.regions[r]['kind'] == 'arg') else 'i')
                    else:
                        v = c[1]
                    vals.append(v)
                if isf:
                    vals = [self.as_float(v) for v in vals]
                v = vals[-1]
                for k in range(len(ins_) - 2, -1, -1):
                    v = self.gite(ins_[k][1], vals[k], v)
                out[o] = (sz, v)
            mem[r] = out
        freed = {}
        for e in ins_:
            for r, c in e[3].items():
                freed[r] = g.bor(freed.get(r, 0), g.band(c, e[1]))
        return mem, freed

    # ---- value helpers
    def fval(self, q):
        return F(self.g.const(q))

    def as_float(self, v):
        if isinstance(v, F):
            return v
        if isinstance(v, int):
            if v == 0:
                return F(self.g.ZERO)
            return F(self.g.const(struct.unpack('<d', struct.pack('<Q', v & (2**64 - 1)))[0]))
        if isinstance(v, Bits):
            return F(v.f)
        if isinstance(v, VIte):
            return self.gite(v.c, self.as_float(v.a), self.as_float(v.b))
        if v is UNDEF:
            self.nundef += 1
            return F(self.g.sym('undef#%d' % self.nundef))
        raise Unanalysable('value %r used as floating point' % (v,))

    def gite(self, c, a, b):
        g = self.g
        if c == 1 or a == b:
            return a
        if c == 0:
            return b
        if isinstance(a, F) or isinstance(b, F):
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            a, b = self.as_float(a), self.as_float(b)
            return F(g.ite(c, a.i, b.i))
        if isinstance(a, B) and isinstance(b, B):
            return B(g.bite(c, a.b, b.b))
        if isinstance(a, B) or isinstance(b, B):
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            return B(g.bite(c, self.boolv(a), self.boolv(b)))
        if isinstance(a, Cells) and isinstance(b, Cells):
            if [x[:2] for x in a.parts] != [x[:2] for x in b.parts]:
                raise Unanalysable('partially initialised words of different layout meet')
            return Cells(a.sz, [(o, z, self.gite(c, x, y)) for (o, z, x), (_, _, y) in zip(a.parts, b.parts)])
        if isinstance(a, Cells) and b is not UNDEF or isinstance(b, Cells) and a is not UNDEF:
            raise Unanalysable('partially initialised word meets another')
        if isinstance(a, Agg) and isinstance(b, Agg):
            return Agg([self.gite(c, x, y) for x, y in zip(a.els, b.els)])
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return VIte(c, a, b)

    def lift(self, f, *vs):
        for k, v in enumerate(vs):
            if isinstance(v, VIte):
                a = self.lift(f, *(vs[:k] + (v.a,) + vs[k + 1:]))
                b = self.lift(f, *(vs[:k] + (v.b,) + vs[k + 1:]))
                return self.gite(v.c, a, b)
        return f(*[UNDEF if isinstance(v, Cells) else v for v in vs])

    def boolv(self, v):
        if isinstance(v, B):
            return v.b
        if isinstance(v, int):
            return v & 1
        if isinstance(v, VIte):
            return self.g.bite(v.c, self.boolv(v.a), self.boolv(v.b))
        if v is UNDEF:
            self.issues.append(('undef', self.cond, 'control flow depends on an undefined or uninitialised value', self.dbg))
            return 0
        raise Unanalysable('boolean %r' % (v,))

    def narrow(self, i):
        """narrowing of a double to single precision"""
        return self.g.fn('f32', i)

    def toint(self, v):
        """B -> int/VIte"""
        if isinstance(v, B):
            if v.b == 0:
                return 0
            if v.b == 1:
                return 1
            return VIte(v.b, 1, 0)
        return v

    def const_operand(self, ty, v):
        k = v[0]
        if k == 'int':
            if ty[0] == 'int' and ty[1] == 1:
                return B(v[1] & 1)
            if ty[0] in ('double', 'float'):
                return self.fval(float(v[1]))
            return v[1]
        if k == 'fp':
            return F(self.g.const(v[1]))
        if k == 'null':
            return Ptr('null', 0)
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'global':
            nm = v[1][1:].strip('"')
            self.regions.setdefault('@' + nm, dict(kind='global', size=None))
            return Ptr('@' + nm, 0)
        if k == 'gep':
            base = self.const_operand(('ptr',), v[2])
            return self.gep(v[1], base, [(('int', 64), ('int', x[1])) for x in v[3]])
        if k == 'cast':
            return self.const_operand(('int', 64), v[2]) if v[2][0] != 'null' else 0
        if k == 'agg':
            return Agg([self.const_operand(t, e) for t, e in zip(v[2], v[1])])
        if k == 'cstr':
            return UNDEF
        if k == 'cbin':
            return UNDEF
        raise Unanalysable('constant %r' % (v,))

    def zero(self, ty):
        if ty[0] in ('double', 'float', 'x86_fp80'):
            return F(self.g.ZERO)
        if ty[0] == 'int':
            return B(0) if ty[1] == 1 else 0
        if ty[0] == 'ptr':
            return Ptr('null', 0)
        if ty[0] == 'struct':
            return Agg([self.zero(t) for t in ty[1]])
        if ty[0] == 'array':
            return Agg([self.zero(ty[2])] * ty[1])
        if ty[0] == 'named':
            return self.zero(self.mod.types.named[ty[1]])
        raise Unanalysable('zero of %r' % (ty,))

    def val(self, ty, v):
        if v[0] == 'local':
            if v[1] not in self.env:
                return UNDEF
            return self.env[v[1]]
        return self.const_operand(ty, v)

    # ---- memory
    def initial(self, r, o, sz, want):
        kind = self.regions[r]['kind']
        if kind == 'arg':
            if sz == 8 and (want == 'f' or want == 'i' and o % 8 == 0):
                return F(self.g.sym('%s[%s]' % (r, o // 8 if o % 8 == 0 else o / 8)))
            return UNDEF
        if kind == 'global':
            return self.global_load(r[1:], o, sz, want)
        if kind == 'null':
            return UNDEF if want != 'f' else F(self.g.sym('null[%d]' % o))
        if want == 'f':
            return F(self.g.sym('uninit:%s+%d' % (r, o)))
        return UNDEF

    def global_load(self, name, o, sz, want):
        gi = self.mod.global_init(name)
        if gi is None:
            raise Unanalysable('load from unknown global ' + name)
        isconst, t, v = gi
        if not isconst and not re.match(EIGEN_GLOBAL, name):
            if not hasattr(self, 'mutable_globals'):
                self.mutable_globals = set()
            self.mutable_globals.add(name)
            self.issues.append(('global', self.cond, 'reads mutable global ' + name, self.dbg))
        if t is None or v is None:
            raise Unanalysable('initialiser of global ' + name)
        T = self.mod.types
        while True:
            if t[0] == 'named':
                t = T.named[t[1]]
            if v[0] == 'zero':
                return F(self.g.ZERO) if want == 'f' else 0
            if t[0] in ('struct', 'array', 'vector') and v[0] == 'agg':
                n = len(v[1])
                for i in range(n):
                    fo, ft = T.field(t, i)
                    s, _ = T.size_align(ft)
                    if fo <= o < fo + s:
                        o, t, v = o - fo, ft, v[1][i]
                        break
                else:
                    raise Unanalysable('global offset')
                continue
            if o != 0:
                raise Unanalysable('global offset in scalar')
            return self.const_operand(t, v)

    def check_access(self, p, sz, kind):
        """record accesses; report null/out-of-object/freed accesses"""
        if p.r == 'null':
            self.issues.append(('null', self.cond, 'accesses memory through a null (unbound) pointer', self.dbg))
            return
        ri = self.regions[p.r]
        if ri['size'] is not None and (p.o < 0 or p.o + sz > ri['size']):
            self.issues.append(('oob', self.cond, '%s of %d bytes at offset %d outside %s object of %d bytes' % (
                kind, sz, p.o, ri['kind'], ri['size']), self.dbg))
        fc = self.freed.get(p.r, 0)
        if fc and self.g.band(fc, self.cond):
            self.issues.append(('uaf', self.g.band(fc, self.cond), '%s of freed storage' % kind, self.dbg))
        if ri['kind'] == 'arg':
            self.accesses.append(Access(p.r, p.o, sz, kind, self.cond, self.dbg))
        if ri['kind'] == 'global' and kind == 'write' and not re.match(EIGEN_GLOBAL, p.r):
            self.issues.append(('global', self.cond, 'writes global ' + p.r, self.dbg))

    def load1(self, p, sz, want):
        if isinstance(p, int) and 0 <= p < 65536:
            p = Ptr('null', p)
        if p is UNDEF or not isinstance(p, Ptr):
            if p is UNDEF:
                self.issues.append(('wild', self.cond, 'reads through an uninitialised pointer', self.dbg))
                return UNDEF if want != 'f' else self.as_float(UNDEF)
            raise Unanalysable('load through %r' % (p,))
        m = self.mem.get(p.r, {})
        c = m.get(p.o)
        if c is not None and c[0] == sz:
            v = c[1]
        else:
            ov = [(o, x) for o, x in m.items() if o < p.o + sz and o + x[0] > p.o]
            if not ov:
                v = self.initial(p.r, p.o, sz, want)
                if self.regions[p.r]['kind'] in ('arg',) and want == 'f':
                    self.mem.setdefault(p.r, {})[p.o] = (sz, v)
                return self.conv(v, want, sz)
            if len(ov) == 1 and ov[0][0] <= p.o and ov[0][0] + ov[0][1][0] >= p.o + sz:
                o, (s2, v2) = ov[0]
                sh = (p.o - o) * 8
                mask = (1 << (8 * sz)) - 1

                def ex(x):
                    if isinstance(x, B):
                        x = self.toint(x)
                    if isinstance(x, int):
                        return ((x & ((1 << (8 * s2)) - 1)) >> sh) & mask
                    if isinstance(x, F) and self.g.isc(x.i):
                        bits = struct.unpack('<Q', struct.pack('<d', float(self.g.cv(x.i))))[0]
                        return (bits >> sh) & mask
                    if x is UNDEF:
                        return UNDEF
                    raise Unanalysable('partial load of a wider cell')
                v = self.lift(ex, self.toint(v2) if isinstance(v2, B) else v2)
            else:
                # assemble from narrower integer cells
                if any(o < p.o or o + s2 > p.o + sz for o, (s2, _) in ov):
                    raise Unanalysable('load spanning several cells')
                szs = [(o, s2) for o, (s2, _) in ov]
                if want == 'i' and sum(s2 for _, s2 in szs) < sz:
                    return Cells(sz, sorted(((o - p.o, s2, v2) for o, (s2, v2) in ov), key=lambda x: x[0]))

                def asm(*vals):
                    acc = known = 0
                    for (o, s2), v2 in zip(szs, vals):
                        v2 = self.toint(v2) if isinstance(v2, B) else v2
                        if isinstance(v2, F) and v2.i == self.g.ZERO:
                            v2 = 0
                        known += s2
                        if v2 is UNDEF:
                            continue
                        if not isinstance(v2, int):
                            raise Unanalysable('load spanning several cells')
                        acc |= (v2 & ((1 << (8 * s2)) - 1)) << (8 * (o - p.o))
                    return acc if known == sz else UNDEF
                v = self.lift(asm, *[self.toint(x[1]) for _, x in ov])
        return self.conv(v, want, sz)

    def conv(self, v, want, sz):
        if want == 'f':
            return self.as_float(v)
        if want == 'i':
            def cv(x):
                if isinstance(x, F):
                    if self.g.isc(x.i):
                        return struct.unpack('<Q', struct.pack('<d', float(self.g.cv(x.i))))[0]
                    return Bits(x.i)
                if isinstance(x, Ptr):
                    if x.r == 'null':
                        return x.o
                    return x
                return self.toint(x) if isinstance(x, B) and sz > 1 else x
            return self.lift(cv, v)
        if want == 'p':
            def cp(x):
                if isinstance(x, int):
                    return Ptr('null', x)
                return x
            return self.lift(cp, v)
        return v

    def load(self, pv, ty):
        sz, _ = self.mod.types.size_align(ty)
        if ty[0] in ('struct', 'named', 'array', 'vector'):
            raise Unanalysable('aggregate load')
        want = 'f' if ty[0] in ('double', 'float') else 'p' if ty[0] == 'ptr' else 'i'

        def go(p):
            if isinstance(p, Ptr):
                self.check_access(p, sz, 'read')
            return self.load1(p, sz, want)
        return self.guarded(go, pv)

    def guarded(self, f, pv):
        """apply f to each alternative of a gated pointer under its gate"""
        if isinstance(pv, VIte):
            c0 = self.cond
            self.cond = self.g.band(c0, pv.c)
            a = self.guarded(f, pv.a) if self.cond else UNDEF
            self.cond = self.g.band(c0, self.g.bnot(pv.c))
            b = self.guarded(f, pv.b) if self.cond else UNDEF
            self.cond = c0
            return self.gite(pv.c, a, b)
        return f(pv)

    def store1(self, p, sz, v, gate):
        if isinstance(p, int) and 0 <= p < 65536:
            p = Ptr('null', p)
        if not isinstance(p, Ptr):
            if p is UNDEF:
                self.issues.append(('wild', self.cond, 'writes through an uninitialised pointer', self.dbg))
                return
            raise Unanalysable('store through %r' % (p,))
        self.check_access(p, sz, 'write')
        if p.r == 'null':
            return
        if isinstance(v, Cells):
            at = 0
            if gate is None:
                m = self.mem.get(p.r, {})
                for o in [o for o, x in m.items() if p.o <= o and o + x[0] <= p.o + v.sz]:
                    del m[o]
            for o, z, x in v.parts:
                for k in range(at, o):
                    self.store1(Ptr(p.r, p.o + k), 1, UNDEF, gate)
                self.store1(Ptr(p.r, p.o + o), z, x, gate)
                at = o + z
            for k in range(at, v.sz):
                self.store1(Ptr(p.r, p.o + k), 1, UNDEF, gate)
            return
        m = self.mem.setdefault(p.r, {})
        for o in [o for o, x in m.items() if o != p.o and o < p.o + sz and o + x[0] > p.o]:
            s2, v2 = m[o]
            # split constant-zero or drop fully covered cells
            if o >= p.o and o + s2 <= p.o + sz:
                del m[o]
                continue
            self._split(m, o, p.o, sz)
        c = m.get(p.o)
        if c is not None and c[0] != sz:
            if c[0] > sz:
                self._split(m, p.o, p.o, sz)
            m.pop(p.o, None)
        if gate is not None:
            old = m.get(p.o)
            ov = old[1] if old else self.initial(p.r, p.o, sz, 'f' if isinstance(v, F) else 'i')
            v = self.gite(gate, v, ov)
        m[p.o] = (sz, v)

    def _split(self, m, o, cut, csz):
        """break cell at o into bytes (constants only), so a narrower store can overwrite part of it"""
        s2, v2 = m.pop(o)
        v2 = self.toint(v2)
        if isinstance(v2, F):
            if not self.g.isc(v2.i):
                raise Unanalysable('partial overwrite of a symbolic cell')
            v2 = struct.unpack('<Q', struct.pack('<d', float(self.g.cv(v2.i))))[0]
        if v2 is UNDEF:
            for k in range(s2):
                m[o + k] = (1, UNDEF)
            return
        if not isinstance(v2, int):
            raise Unanalysable('partial overwrite of a symbolic cell')
        for k in range(s2):
            m[o + k] = (1, (v2 >> (8 * k)) & 255)

    def store(self, pv, v, sz):
        def go(p, gate):
            if isinstance(p, VIte):
                c0 = self.cond
                for cc, q in ((p.c, p.a), (self.g.bnot(p.c), p.b)):
                    self.cond = self.g.band(c0, cc)
                    if self.cond:
                        go(q, cc if gate is None else self.g.band(gate, cc))
                self.cond = c0
            else:
                self.store1(p, sz, v, gate)
        go(pv, None)

    def alts(self, v, cond):
        if isinstance(v, VIte):
            a = self.g.band(cond, v.c)
            if a:
                yield from self.alts(v.a, a)
            b = self.g.band(cond, self.g.bnot(v.c))
            if b:
                yield from self.alts(v.b, b)
        else:
            yield cond, v

    def memcpy(self, d, s, n):
        if isinstance(d, VIte) or isinstance(s, VIte) or isinstance(n, VIte):
            # word by word, each alternative of the operands under its own gate
            c0, stores = self.cond, []
            for c1, n1 in self.alts(n, c0):
                for c2, d1 in self.alts(d, c1):
                    if not isinstance(d1, Ptr) or not isinstance(n1, int) or n1 % 8:
                        raise Unanalysable('memcpy operands')
                    self.cond = c2
                    if c2 == c0:
                        gate = None
                    else:
                        gate = c2
                    for k in range(0, n1, 8):
                        q = self.lift(lambda x: Ptr(x.r, x.o + k) if isinstance(x, Ptr) else x, s)
                        v = self.guarded(lambda x: (self.check_access(x, 8, 'read') if isinstance(x, Ptr) else None,
                                                    self.load1(x, 8, 'f'))[1], q)
                        stores.append((c2, gate, Ptr(d1.r, d1.o + k), v))
            for c2, gate, q, v in stores:
                self.cond = c2
                self.store1(q, 8, v, gate)
            self.cond = c0
            return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr) or not isinstance(n, int):
            raise Unanalysable('memcpy operands')
        if n == 0:
            return
        self.check_access(s, n, 'read')
        self.check_access(d, n, 'write')
        if d.r == 'null' or s.r == 'null':
            return
        src = self.mem.get(s.r, {})
        if self.regions[s.r]['kind'] == 'arg':
            for k in range(0, n, 8):
                if not any(o < s.o + k + 8 and o + x[0] > s.o + k for o, x in src.items()):
                    self.load1(Ptr(s.r, s.o + k), 8, 'f')
            src = self.mem.get(s.r, {})
        cells = []
        if self.regions[s.r]['kind'] == 'global':
            for k in range(0, n, 8):
                cells.append((k, 8, self.initial(s.r, s.o + k, 8, 'f')))
        for o, (z, v) in src.items():
            if o < s.o + n and o + z > s.o:
                if o < s.o or o + z > s.o + n:
                    raise Unanalysable('memcpy splits a cell')
                cells.append((o - s.o, z, v))
        m = self.mem.setdefault(d.r, {})
        for o in list(m):
            z = m[o][0]
            if o < d.o + n and o + z > d.o:
                if o < d.o or o + z > d.o + n:
                    self._split(m, o, d.o, n)
        for o in list(m):
            if d.o <= o < d.o + n:
                del m[o]
        if self.regions[d.r]['kind'] == 'arg':
            cov = set()
            for k, z, v in cells:
                cov |= set(range(k, k + z))
            for k in range(0, n, 8):
                if k not in cov:
                    cells.append((k, 8, F(self.g.sym('uninit:%s+%d' % (s.r, s.o + k)))))
        for k, z, v in cells:
            m[d.o + k] = (z, v)

    def memset(self, d, byte, n):
        if isinstance(d, VIte) or isinstance(n, VIte):
            c0 = self.cond
            for c1, n1 in self.alts(n, c0):
                for c2, d1 in self.alts(d, c1):
                    if not isinstance(d1, Ptr) or not isinstance(n1, int) or byte != 0:
                        raise Unanalysable('memset operands')
                    self.cond = c2
                    gate = None if c2 == c0 else c2
                    k = 0
                    while k < n1:
                        z = 8 if (d1.o + k) % 8 == 0 and n1 - k >= 8 else 4 if (d1.o + k) % 4 == 0 and n1 - k >= 4 else 1
                        self.store1(Ptr(d1.r, d1.o + k), z, 0, gate)
                        k += z
            self.cond = c0
            return
        if not isinstance(d, Ptr) or not isinstance(n, int) or not isinstance(byte, int):
            raise Unanalysable('memset operands')
        if n == 0:
            return
        self.check_access(d, n, 'write')
        if d.r == 'null':
            return
        m = self.mem.setdefault(d.r, {})
        for o in list(m):
            z = m[o][0]
            if o < d.o + n and o + z > d.o and (o < d.o or o + z > d.o + n):
                self._split(m, o, d.o, n)
        for o in list(m):
            if d.o <= o < d.o + n:
                del m[o]
        k = 0
        while k < n:
            z = 8 if (d.o + k) % 8 == 0 and n - k >= 8 else 4 if (d.o + k) % 4 == 0 and n - k >= 4 else 1
            v = 0
            for _ in range(z):
                v = v << 8 | (byte & 255)
            m[d.o + k] = (z, v)
            k += z

    def gep(self, ty, base, idx):
        T = self.mod.types
        ivs = [self.toint(self.val(t, v)) for t, v in idx]

        def go(p, *ix):
            if p is UNDEF or any(x is UNDEF for x in ix):
                return UNDEF
            if not isinstance(p, Ptr) or not all(isinstance(x, int) for x in ix):
                raise Unanalysable('address computation is not region+constant')
            s, _ = T.size_align(ty)
            off = s * ix[0]
            t = ty
            for x in ix[1:]:
                if t[0] == 'named':
                    t = T.named[t[1]]
                o, t = T.field(t, x)
                off += o
            return Ptr(p.r, p.o + off)
        return self.lift(go, base, *ivs)

    # ---- integers
    @staticmethod
    def signed(x, w):
        x &= (1 << w) - 1
        return x - (1 << w) if x >> (w - 1) else x

    def low(self, c, n):
        """the low n bytes of a partially initialised word"""
        ps = [x for x in c.parts if x[0] < n]
        if not ps or sum(z for _, z, _ in ps) < n:
            return UNDEF

        def asm(*vals):
            acc = 0
            for (o, z, _), x in zip(ps, vals):
                if not isinstance(x, int):
                    return UNDEF
                acc |= (x & ((1 << (8 * z)) - 1)) << (8 * o)
            return acc & ((1 << (8 * n)) - 1)
        return self.lift(asm, *[self.toint(x) for _, _, x in ps])

    def ibin(self, op, a, b, w):
        g = self.g
        if w == 1:
            x, y = self.boolv(a), self.boolv(b)
            return B({'and': g.band, 'or': g.bor, 'xor': g.bxor, 'add': g.bxor, 'mul': g.band}[op](x, y))

        if isinstance(a, Cells) and isinstance(b, int):
            if op == 'and' and b > 0 and (b + 1) & b == 0:
                n = (b.bit_length() + 7) // 8
                return self.lift(lambda x: x & b if isinstance(x, int) else x, self.low(a, n))
            if op == 'lshr' and b % 8 == 0:
                k = b // 8
                return Cells(a.sz, [(o - k, z, x) for o, z, x in a.parts if o >= k] + [(a.sz - k, k, 0)] if k else a.parts)

        def go(x, y):
            if x is UNDEF or y is UNDEF:
                return UNDEF
            if isinstance(x, Ptr) and isinstance(y, Ptr) and op == 'sub':
                if x.r == y.r:
                    return x.o - y.o
                return UNDEF            # undefined behaviour: pointers into different objects
            if op == 'sub' and isinstance(x, int) and isinstance(y, Ptr):
                return UNDEF            # undefined behaviour: a null-based pointer minus a pointer to an object
            if isinstance(x, Ptr) and isinstance(y, int) and op in ('add', 'sub'):
                return Ptr(x.r, x.o + (y if op == 'add' else -y))
            if isinstance(y, Ptr) and isinstance(x, int) and op == 'add':
                return Ptr(y.r, y.o + x)
            if isinstance(x, Ptr) and isinstance(y, int) and op == 'and':
                # alignment arithmetic: every object is 16-byte aligned here
                if y in (7, 15, 3, 1):
                    return x.o & y
                if self.signed(y, 64) in (-8, -16):
                    return Ptr(x.r, x.o & self.signed(y, 64))
            if isinstance(x, Bits) and isinstance(y, int):
                f = x.f
                if op == 'and' and y == 0x7fffffffffffffff:
                    return Bits(g.fabs(f))
                if op == 'xor' and y in (1 << 63, -(1 << 63)):
                    return Bits(g.neg(f))
            if not (isinstance(x, int) and isinstance(y, int)):
                raise Unanalysable('integer %s on %r, %r' % (op, x, y))
            m = (1 << w) - 1
            sx, sy = self.signed(x, w), self.signed(y, w)
            ux, uy = x & m, y & m
            if op in ('udiv', 'urem', 'sdiv', 'srem') and uy == 0:
                return UNDEF
            r = {'add': lambda: sx + sy, 'sub': lambda: sx - sy, 'mul': lambda: sx * sy,
                 'and': lambda: ux & uy, 'or': lambda: ux | uy, 'xor': lambda: ux ^ uy,
                 'shl': lambda: ux << uy if uy < w else 0, 'lshr': lambda: ux >> uy if uy < w else 0,
                 'ashr': lambda: sx >> min(uy, w - 1),
                 'udiv': lambda: ux // uy, 'urem': lambda: ux % uy,
                 'sdiv': lambda: int(Fraction(sx, sy)), 'srem': lambda: sx - sy * int(Fraction(sx, sy))}[op]()
            return self.signed(r, w)
        return self.lift(go, self.toint(a), self.toint(b))

    def icmp(self, pred, a, b, ty):
        g = self.g
        w = ty[1] if ty[0] == 'int' else 64
        if w == 1:
            x, y = self.boolv(a), self.boolv(b)
            if pred == 'eq':
                return g.bnot(g.bxor(x, y))
            if pred == 'ne':
                return g.bxor(x, y)
            if pred == 'ult':
                return g.band(g.bnot(x), y)
            if pred == 'ugt':
                return g.band(x, g.bnot(y))
            raise Unanalysable('icmp i1 ' + pred)

        def go(x, y):
            if x is UNDEF or y is UNDEF:
                return UNDEF
            if isinstance(x, Ptr) and isinstance(y, Ptr) or isinstance(x, Ptr) and y == 0 or isinstance(y, Ptr) and x == 0:
                if isinstance(x, int):
                    x = Ptr('null', x)
                if isinstance(y, int):
                    y = Ptr('null', y)
                if x.r == y.r:
                    xo, yo = x.o, y.o
                    return B(int({'eq': xo == yo, 'ne': xo != yo, 'ult': xo < yo, 'ule': xo <= yo,
                                  'ugt': xo > yo, 'uge': xo >= yo, 'slt': xo < yo, 'sgt': xo > yo,
                                  'sle': xo <= yo, 'sge': xo >= yo}[pred]))
                if pred == 'eq':
                    return B(0)
                if pred == 'ne':
                    return B(1)
                # distinct objects: order unspecified; overlap tests are the only legitimate use
                if 'null' in (x.r, y.r):
                    return B(int(pred in ('ugt', 'uge')) if y.r == 'null' else int(pred in ('ult', 'ule')))
                names = sorted((x.r, y.r))
                lt = x.r == names[0]
                return B(int(lt if pred in ('ult', 'ule') else not lt))
            if isinstance(x, int) and isinstance(y, int):
                m = (1 << w) - 1
                sx, sy = self.signed(x, w), self.signed(y, w)
                ux, uy = x & m, y & m
                return B(int({'eq': ux == uy, 'ne': ux != uy, 'ult': ux < uy, 'ule': ux <= uy,
                              'ugt': ux > uy, 'uge': ux >= uy, 'slt': sx < sy, 'sgt': sx > sy,
                              'sle': sx <= sy, 'sge': sx >= sy}[pred]))
            if isinstance(x, Bits) and isinstance(y, int):
                # sign-bit tests and zero tests on a float's representation
                if pred in ('slt',) and y == 0:
                    return B(g.cmp_pos(g.neg(x.f)))
                if pred == 'sgt' and self.signed(y, w) == -1:
                    return B(g.bnot(g.cmp_pos(g.neg(x.f))))
                if pred in ('eq', 'ne') and y == 0:
                    z = g.cmp_zero(x.f)
                    return B(z if pred == 'eq' else g.bnot(z))
            raise Unanalysable('icmp %s on %r, %r' % (pred, x, y))
        r = self.lift(go, self.toint(a), self.toint(b))
        return self.boolv(r)

    # ---- instructions
    def step(self, ins):
        g = self.g
        op = ins.op
        self.dbg = ins.dbg
        env = self.env
        a = ins.args
        if op == 'load':
            if ins.ty == ('int', 1) or ins.ty == ('int', 8):
                v = self.load(self.val(('ptr',), a[0]), ('int', 8))
                env[ins.res] = v
            else:
                env[ins.res] = self.load(self.val(('ptr',), a[0]), ins.ty)
        elif op == 'store':
            v = self.val(ins.ty, a[0])
            if ins.ty[0] in ('struct', 'array', 'named', 'vector'):
                raise Unanalysable('aggregate store')
            sz, _ = self.mod.types.size_align(ins.ty)
            if isinstance(v, Bits):
                v = F(v.f)
            self.store(self.val(('ptr',), a[1]), v, sz)
        elif op == 'getelementptr':
            env[ins.res] = self.gep(ins.ty, self.val(('ptr',), a[0]), a[1])
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            if ins.ty[0] == 'vector':
                raise Unanalysable('vector arithmetic')
            x = self.as_float(self.val(ins.ty, a[0])).i
            y = self.as_float(self.val(ins.ty, a[1])).i
            env[ins.res] = F({'fadd': g.add, 'fsub': g.sub, 'fmul': g.mul, 'fdiv': g.div}[op](x, y))
        elif op == 'fneg':
            env[ins.res] = F(g.neg(self.as_float(self.val(ins.ty, a[0])).i))
        elif op == 'freeze':
            env[ins.res] = self.val(ins.ty, a[0])
        elif op == 'fcmp':
            x = self.as_float(self.val(ins.ty, a[1])).i
            y = self.as_float(self.val(ins.ty, a[2])).i
            env[ins.res] = B(g.fcmp(a[0], x, y))
        elif op == 'icmp':
            x = self.val(ins.ty, a[1])
            y = self.val(ins.ty, a[2])
            env[ins.res] = B(self.icmp(a[0], x, y, ins.ty))
        elif op == 'select':
            c = self.boolv(self.val(('int', 1), a[0]))
            x, y = self.val(ins.ty, a[1]), self.val(ins.ty, a[2])
            env[ins.res] = self.gite(c, x, y)
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            if ins.ty[0] != 'int':
                raise Unanalysable('vector integer op')
            env[ins.res] = self.ibin(op, self.val(ins.ty, a[0]), self.val(ins.ty, a[1]), ins.ty[1])
        elif op == 'alloca':
            sz, _ = self.mod.types.size_align(ins.ty)
            n = self.val(('int', 64), a[0])
            if not isinstance(n, int):
                raise Unanalysable('variable-size alloca')
            r = 'stack%s' % ins.res
            self.regions[r] = dict(kind='stack', size=sz * n)
            env[ins.res] = Ptr(r, 0)
        elif op in ('sitofp', 'uitofp'):
            w = a[1][1]

            def cvt(x):
                if isinstance(x, int):
                    if w == 1:
                        x &= 1
                        return self.fval(-x if op == 'sitofp' else x)
                    return self.fval(self.signed(x, w) if op == 'sitofp' else x & ((1 << w) - 1))
                if x is UNDEF:
                    return self.as_float(UNDEF)
                if isinstance(x, FInt):
                    return F(g.fn('trunc', x.i))
                raise Unanalysable('int to float of %r' % (x,))
            env[ins.res] = self.lift(cvt, self.toint(self.val(a[1], a[0])))
        elif op in ('fptosi', 'fptoui'):
            f = self.as_float(self.val(a[1], a[0])).i

            def cvt(i):
                t = g.n[i]
                if t[0] == 'c':
                    return int(t[1])
                if t[0] == 'ite':
                    return self.gite(t[1], cvt(t[2]), cvt(t[3]))
                return FInt(i, ins.ty[1])
            env[ins.res] = cvt(f)
        elif op == 'fpext':
            env[ins.res] = self.val(a[1], a[0])
        elif op == 'fptrunc':
            env[ins.res] = F(self.narrow(self.as_float(self.val(a[1], a[0])).i))
        elif op in ('sext', 'zext', 'trunc'):
            v = self.toint(self.val(a[1], a[0]))
            w, w2 = a[1][1], ins.ty[1]
            if isinstance(v, Cells) and op == 'trunc':
                v = self.low(v, (w2 + 7) // 8)

            def cvt(x):
                if isinstance(x, int):
                    if op == 'zext':
                        return x & ((1 << w) - 1)
                    if op == 'sext':
                        return self.signed(x, w)
                    return self.signed(x, w2) if w2 > 1 else B(x & 1)
                if x is UNDEF:
                    return UNDEF
                if isinstance(x, Bits):
                    raise Unanalysable('truncation of float bits')
                if isinstance(x, Ptr) and op == 'trunc':
                    return x.o & ((1 << w2) - 1) if w2 <= 4 else (_ for _ in ()).throw(Unanalysable('truncated pointer'))
                raise Unanalysable('%s of %r' % (op, x))
            if w2 == 1:
                env[ins.res] = B(self.boolv(self.lift(cvt, v)))
            else:
                env[ins.res] = self.lift(cvt, v)
        elif op in ('ptrtoint', 'inttoptr'):
            v = self.val(a[1], a[0])
            if op == 'inttoptr':
                v = self.conv(v, 'p', 8)
            else:
                v = self.conv(v, 'i', 8)
            env[ins.res] = v
        elif op == 'bitcast':
            v = self.val(a[1], a[0])
            if ins.ty[0] == 'double':
                v = self.as_float(v)
            elif ins.ty == ('int', 64) and isinstance(v, F):
                v = self.conv(v, 'i', 8)
            else:
                raise Unanalysable('bitcast')
            env[ins.res] = v
        elif op == 'extractvalue':
            v = self.val(ins.ty, a[0])
            for i in a[1]:
                v = v.els[i] if isinstance(v, Agg) else UNDEF
            env[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(ins.ty, a[0])
            env[ins.res] = self.insertv(ins.ty, v, a[1], a[2])
        elif op == 'call':
            r = self.call(ins)
            if ins.res is not None:
                env[ins.res] = r
        elif op in ('br', 'switch', 'ret'):
            pass
        elif op == 'unreachable':
            # reached only after a call that does not return
            if not getattr(self, 'noreturn', False):
                self.issues.append(('unreachable', self.cond, 'control reaches undefined behaviour', self.dbg))
            self.noreturn = False
        else:
            raise Unanalysable('instruction ' + op)

    def insertv(self, ty, v, ev, idx):
        if ty[0] == 'named':
            ty = self.mod.types.named[ty[1]]
        n = len(ty[1]) if ty[0] == 'struct' else ty[1]
        els = list(v.els) if isinstance(v, Agg) else [UNDEF] * n
        et = ty[1][idx[0]] if ty[0] == 'struct' else ty[2]
        if len(idx) == 1:
            els[idx[0]] = self.val(et, ev)
        else:
            els[idx[0]] = self.insertv(et, els[idx[0]], ev, idx[1:])
        return Agg(els)

    def cstring(self, p):
        if isinstance(p, Ptr) and p.r.startswith('@'):
            s = self.mod.globals.get(p.r[1:], '')
            import re
            m = re.search(r'c"((?:[^"\\]|\\.)*)"', s)
            if m:
                return m.group(1).replace('\\00', '').replace('\\22', '"')
        return '?'

    def call(self, ins):
        g = self.g
        name, args = ins.args
        if name[0] == '%':
            raise Unanalysable('indirect call')
        name = name[1:].strip('"')
        vals = [self.val(t, v) if v[0] != 'meta' else None for t, v in args]
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias',
                            'llvm.invariant', 'llvm.prefetch', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.donothing')):
            return UNDEF
        if name.startswith('llvm.launder') or name.startswith('llvm.strip') or name.startswith('llvm.ptr.annotation'):
            return vals[0]
        if name in MATH1:
            r = g.fn(MATH1[name], self.as_float(vals[0]).i)
            return F(self.narrow(r) if ins.ty[0] == 'float' else r)
        if name in ('llvm.fabs.f64', 'fabs', 'llvm.fabs.f32'):
            return F(g.fabs(self.as_float(vals[0]).i))
        if name in ('log1p', 'log1pf'):
            return F(g.fn('log', g.add(g.ONE, self.as_float(vals[0]).i)))
        if name in ('expm1', 'expm1f'):
            return F(g.sub(g.fn('exp', self.as_float(vals[0]).i), g.ONE))
        if name == 'erfc':
            return F(g.sub(g.ONE, g.fn('erf', self.as_float(vals[0]).i)))
        if name in ('exp2', 'llvm.exp2.f64'):
            return F(g.fn('exp', g.mul(self.as_float(vals[0]).i, g.const(math.log(2)))))
        if name in ('log2', 'llvm.log2.f64'):
            return F(g.div(g.fn('log', self.as_float(vals[0]).i), g.const(math.log(2))))
        if name in ('log10', 'llvm.log10.f64'):
            return F(g.div(g.fn('log', self.as_float(vals[0]).i), g.const(math.log(10))))
        if name in ('pow', 'llvm.pow.f64', 'powf'):
            return F(g.pow(self.as_float(vals[0]).i, self.as_float(vals[1]).i))
        if name.startswith('llvm.powi.f64'):
            if not isinstance(vals[1], int):
                raise Unanalysable('powi exponent')
            return F(g.pow(self.as_float(vals[0]).i, g.const(Fraction(self.signed(vals[1], 32)))))
        if name in ('llvm.fma.f64', 'llvm.fmuladd.f64', 'fma'):
            x, y, z = (self.as_float(v).i for v in vals[:3])
            return F(g.add(g.mul(x, y), z))
        if name == 'hypot':
            x, y = (self.as_float(v).i for v in vals[:2])
            return F(g.fn('sqrt', g.add(g.mul(x, x), g.mul(y, y))))
        if name in ('llvm.maxnum.f64', 'fmax', 'llvm.maximum.f64', 'llvm.minnum.f64', 'fmin', 'llvm.minimum.f64'):
            x, y = (self.as_float(v).i for v in vals[:2])
            c = g.fcmp('ogt', x, y)
            if 'min' in name:
                x, y = y, x
            return F(g.ite(c, x, y))
        if name == 'llvm.copysign.f64':
            x, y = (self.as_float(v).i for v in vals[:2])
            ax = g.fabs(x)
            return F(g.ite(g.fcmp('olt', y, g.ZERO), g.neg(ax), ax))
        if name.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
            w = ins.ty[1]
            pred = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[name[5:9]]
            c = self.icmp(pred, vals[0], vals[1], ('int', w))
            return self.gite(c, vals[0], vals[1])
        if name.startswith('llvm.abs.'):
            w = ins.ty[1]
            return self.lift(lambda x: abs(self.signed(x, w)), vals[0])
        if name.startswith('llvm.umul.with.overflow'):
            if isinstance(vals[0], int) and isinstance(vals[1], int):
                r = (vals[0] & (2**64 - 1)) * (vals[1] & (2**64 - 1))
                return Agg([r & (2**64 - 1), B(int(r >> 64 != 0))])
        if name.startswith('llvm.is.fpclass'):
            i = self.as_float(vals[0]).i
            return B(self.fpclass(i, vals[1]))
        if name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove'):
            self.memcpy(vals[0], vals[1], vals[2])
            return vals[0]
        if name.startswith('llvm.memset') or name == 'memset':
            self.memset(vals[0], vals[1], vals[2])
            return vals[0]
        if name.startswith('__heap_'):
            name = name[7:]
        if name in ('malloc', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', 'calloc', 'aligned_alloc', '_ZnwmSt11align_val_t'):
            n = vals[0]
            if name == 'calloc':
                n = vals[0] * vals[1]
            if name == 'aligned_alloc':
                n = vals[1]
            if not isinstance(n, int):
                raise Unanalysable('symbolic allocation size')
            if n < 0 or n > 1 << 40:
                self.issues.append(('alloc', self.cond, 'impossible allocation size %d' % n, self.dbg))
                return Ptr('null', 0)
            r = 'heap%d' % self.nheap
            self.nheap += 1
            self.regions[r] = dict(kind='heap', size=n, cond=self.cond, dbg=self.dbg)
            if name == 'calloc':
                self.memset(Ptr(r, 0), 0, n)
            return Ptr(r, 0)
        if name in ('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'):
            def fr(p):
                if isinstance(p, Ptr) and p.r != 'null':
                    if p.o != 0 or self.regions[p.r]['kind'] != 'heap':
                        self.issues.append(('badfree', self.cond, 'frees storage that was not allocated', self.dbg))
                    if self.g.band(self.freed.get(p.r, 0), self.cond):
                        self.issues.append(('doublefree', self.cond, 'frees storage twice', self.dbg))
                    self.freed[p.r] = g.bor(self.freed.get(p.r, 0), self.cond)
                elif p is UNDEF:
                    self.issues.append(('badfree', self.cond, 'frees an uninitialised pointer', self.dbg))
                return UNDEF
            self.guarded(fr, vals[0])
            return UNDEF
        if name in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_unlock',
                    'printf', 'fprintf', 'puts', 'fputs', 'fputc', 'putchar', 'fwrite', 'fflush'):
            return 0        # no effect on the values a witness looks at (P27 looks at external effects)
        if name == '__assert_fail':
            self.issues.append(('assert', self.cond, 'assertion can fail: ' + self.cstring(vals[0]), self.dbg))
            self.noreturn = True
            return UNDEF
        if name in ('abort', '__exception_thrown', 'exit', '_Exit', '__cxa_throw_bad_array_new_length', '__cxa_pure_virtual', 'llvm.trap',
                    '_ZSt9terminatev') or name.startswith('_ZSt') and 'throw' in name:
            self.issues.append(('abort', self.cond, 'calls ' + name, self.dbg))
            self.noreturn = True
            return UNDEF
        raise Unanalysable('call to %s' % name)

    def fpclass(self, i, mask, refined=False):
        g = self.g
        if not refined:
            i = g.refine(i)
            refined = True
        t = g.n[i]
        if t[0] == 'ite' and g.hasinf(i):
            return g.bite(t[1], self.fpclass(t[2], mask, True), self.fpclass(t[3], mask, True))
        if t[0] == 'nan':
            return int(mask & 3 != 0)
        if t[0] == 'inf':
            return int(mask & 512 != 0)
        if t[0] == 'ninf':
            return int(mask & 4 != 0)
        neg = mask & (8 | 16)
        pos = mask & (128 | 256)
        zer = mask & (32 | 64)
        r = 0
        if neg:
            r = g.bor(r, g.fcmp('olt', i, g.ZERO))
        if pos:
            r = g.bor(r, g.fcmp('ogt', i, g.ZERO))
        if zer:
            r = g.bor(r, g.fcmp('oeq', i, g.ZERO))
        return r

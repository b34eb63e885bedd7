"""Case analysis over the gates of value-graph nodes, with counterexample points."""
import math
import random
from fractions import Fraction
from nfbase import Blowup


class Budget(Exception):
    pass


def cases(g, nodes, limit=20000, assign=None):
    """Yield (assignment, gate-free nodes).  The split follows the decision diagrams, so only combinations of
    comparisons that some gate distinguishes are visited."""
    count = [0]

    def go(nodes, asg):
        a = None
        for x in nodes:
            t = g.top_atom(x)
            if t is not None and (a is None or t < a):
                a = t
        if a is None:
            count[0] += 1
            if count[0] > limit:
                raise Budget()
            yield dict(asg), nodes
            return
        kind, key, p = g.atoms[a]
        for v in (1, 0):
            if v and kind == 'zero' and asg.get(('pos', key)):
                continue
            if v and kind == 'pos' and asg.get(('zero', key)):
                continue
            memo = {}
            asg2 = dict(asg)
            asg2[(kind, key)] = v
            yield from go([g.restrict(x, a, v, memo) for x in nodes], asg2)
    yield from go(list(nodes), dict(assign or {}))


def bdd_cases(g, b):
    """satisfying partial assignments of a decision diagram"""
    def go(b, asg):
        if b == 0:
            return
        if b == 1:
            yield dict(asg)
            return
        a, lo, hi = g.bn[b]
        kind, key, p = g.atoms[a]
        for v, x in ((1, hi), (0, lo)):
            other = 'zero' if kind == 'pos' else 'pos'
            if v and asg.get((other, key)):
                continue
            asg2 = dict(asg)
            asg2[(kind, key)] = v
            yield from go(x, asg2)
    yield from go(b, {})


def subst(g, i, s, by, memo):
    """replace symbol s by node `by` in a gate-free node"""
    r = memo.get(i)
    if r is not None:
        return r
    t = g.n[i]
    S = lambda x: subst(g, x, s, by, memo)
    if t[0] == 's':
        r = by if t[1] == s else i
    elif t[0] == '+':
        r = g.add(S(t[1]), S(t[2]))
    elif t[0] == '*':
        r = g.mul(S(t[1]), S(t[2]))
    elif t[0] == '/':
        r = g.div(S(t[1]), S(t[2]))
    elif t[0] == 'neg':
        r = g.neg(S(t[1]))
    elif t[0] == 'fn':
        r = g.fn(t[1], S(t[2]))
    else:
        r = i
    memo[i] = r
    return r


def abstracted(g, i, j):
    """i and j with every outermost function application replaced by a symbol for its normal form: equal if these are"""
    nf = g.nf
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        t = g.n[x]
        if t[0] == 'fn':
            r = g.sym(('fn', nf.rkey(nf.nf(x))))
        elif t[0] == '+':
            r = g.add(go(t[1]), go(t[2]))
        elif t[0] == '*':
            r = g.mul(go(t[1]), go(t[2]))
        elif t[0] == '/':
            r = g.div(go(t[1]), go(t[2]))
        elif t[0] == 'neg':
            r = g.neg(go(t[1]))
        else:
            r = x
        memo[x] = r
        return r
    return go(i), go(j)


def equal_nf(g, i, j):
    r = g.nf.nf_equal(i, j)
    if r is None:
        try:
            a, b = abstracted(g, i, j)
        except Blowup:
            return False
        r = g.nf.nf_equal(a, b)
        if r is None:
            r = all(modular(g, a, b, n) for n in range(2))
    return bool(r)


PRIME = 2 ** 521 - 1


def modular(g, i, j, n):
    """two rational functions of independent symbols agree at a random point of a large prime field: unless they are
    the same function, the chance of that is at most their degree over 2^521 (Schwartz, Zippel)"""
    rng = random.Random(n)
    val, memo = {}, {}

    def go(x):
        if x in memo:
            return memo[x]
        t = g.n[x]
        if t[0] == 'c':
            r = t[1].numerator * pow(t[1].denominator, -1, PRIME)
        elif t[0] == 's':
            r = val.get(t[1])
            if r is None:
                r = val[t[1]] = rng.randrange(1, PRIME)
        elif t[0] == '+':
            r = go(t[1]) + go(t[2])
        elif t[0] == '*':
            r = go(t[1]) * go(t[2])
        elif t[0] == '/':
            r = go(t[1]) * pow(go(t[2]), -1, PRIME)
        elif t[0] == 'neg':
            r = -go(t[1])
        else:
            raise ValueError(t[0])
        memo[x] = r = r % PRIME
        return r
    try:
        return go(i) == go(j)
    except ValueError:
        return False


def zero_solutions(g, key, p):
    """ways of solving p == 0 for a symbol: list of [(symbol, node)]"""
    nf = g.nf
    a = nf.nf(p)
    num = a[0]
    sols = []
    lin = {}
    for m, c in num.items():
        for gi, e in m:
            lin.setdefault(gi, []).append((m, c, e))
    if len(num) == 1:
        (m, c), = num.items()
        for gi, e in m:
            if nf.gens[gi][0] == 's' and e > 0:
                sols.append((nf.gens[gi][1], g.ZERO))
        return sols
    for gi, occ in sorted(lin.items()):
        if nf.gens[gi][0] == 's' and len(occ) == 1 and len(occ[0][0]) == 1 and occ[0][2] == 1 and not a[1]:
            s = nf.gens[gi][1]
            # not inside any other atom
            if any(s in atom_support(nf, gj) for gj in lin if gj != gi):
                continue
            c = occ[0][1]
            rest = subst(g, p, s, g.ZERO, {})
            rc = nf.nf(p)[0]
            # p = k*(c*s + rest) up to scaling already divided out: recompute coefficient from p itself
            cof = num[occ[0][0]]
            sols.append((s, g.mul(g.const(-1 / cof), rest)))
            return sols
    return sols


def atom_support(nf, gi):
    out = set()
    seen = set()

    def walkg(gi):
        if gi in seen:
            return
        seen.add(gi)
        k = nf.gens[gi]
        if k[0] == 's':
            out.add(k[1])
        elif len(k) > 1:
            for m, c in k[1][0]:
                for gj, e in m:
                    walkg(gj)
            for f, e in k[1][1]:
                for m, c in f:
                    for gj, e2 in m:
                        walkg(gj)
    walkg(gi)
    return out


def signs_of(g, asg):
    """assignment -> list of (node p, allowed signs)"""
    by = {}
    for (kind, key), v in asg.items():
        by.setdefault(key, {})[kind] = v
    out = []
    for key, d in by.items():
        p = None
        for kind in ('pos', 'zero'):
            i = g.atab.get((kind, key))
            if i is not None:
                p = g.atoms[i][2]
        allowed = {1, 0, -1}
        if 'pos' in d:
            allowed &= {1} if d['pos'] else {0, -1}
        if 'zero' in d:
            allowed &= {0} if d['zero'] else {1, -1}
        out.append((key, p, allowed))
    return out


def resolve_zeros(g, asg):
    """alternatives of substitutions implied by equalities; each a list of (symbol,node) applied in order.
    Returns None when an equality cannot be solved for a symbol."""
    alts = [[]]
    for key, p, allowed in signs_of(g, asg):
        if allowed == {0}:
            new = []
            for al in alts:
                q = p
                for s, by in al:
                    q = subst(g, q, s, by, {})
                t = g.nf.nf(q)
                if not t[0]:
                    new.append(al)
                    continue
                for sol in zero_solutions(g, key, q):
                    new.append(al + [sol])
            alts = new
    return alts


def sample_point(g, asg, subs, syms, rng, tries=4000, extra_nodes=(), mixed=False):
    """a concrete point satisfying the assignment (after substitutions), or None.  The first draw is all positive, or
    (mixed) of either sign"""
    conds = []
    for key, p, allowed in signs_of(g, asg):
        if allowed == {0}:
            continue
        q = p
        for s, by in subs:
            q = subst(g, q, s, by, {})
        conds.append((q, allowed))
    nodes = list(extra_nodes)
    for s, by in subs:
        pass
    free = set(syms)
    for q, _ in conds:
        free |= g.support(q)
    for s, by in subs:
        free |= g.support(by)
    for x in nodes:
        free |= g.support(x)
    for s, _ in subs:
        free.discard(s)
    free = sorted(free)
    scales = [1.0, 3.0, 0.3, 10.0]
    best = None
    env = {}

    def draw(k):
        sc = scales[k % 4]
        if k % 5 == 0:
            return rng.uniform(0.05, 1.0) * sc
        return rng.uniform(-1, 1) * sc

    def bad(env):
        n = 0
        memo = {}
        for q, allowed in conds:
            try:
                v = g.evalf(q, env, memo)
            except (ValueError, ZeroDivisionError, OverflowError):
                n += 1
                continue
            if v != v or abs(v) > 1e290:    # overflowed: exact enough arithmetic
                import mpmath
                try:
                    v = g.evalf(q, {k: mpmath.mpf(x) for k, x in env.items()}, {}, mpmath)
                except (ValueError, ZeroDivisionError, OverflowError):
                    v = float('nan')
                if getattr(v, 'imag', 0) or not v == v:
                    n += 1
                    continue
            sg = 1 if v > 1e-9 else -1 if v < -1e-9 else 0
            if sg not in allowed:
                n += 1
        return n
    def finish(env):
        full = dict(env)
        for s, by in reversed(subs):
            try:
                full[s] = g.evalf(by, full, {})
            except (ValueError, ZeroDivisionError, OverflowError, KeyError):
                return None
        return full
    k = 0
    while k < tries:
        env = {s: draw(rng.randrange(20) if mixed else k) for s in free}
        b = bad(env)
        k += 1
        # local search: redraw single coordinates
        t = 0
        while b and t < 40 and k < tries:
            s = rng.choice(free) if free else None
            if s is None:
                break
            old = env[s]
            env[s] = draw(k)
            k += 1
            t += 1
            nb = bad(env)
            if nb <= b:
                b = nb
            else:
                env[s] = old
        if not b:
            full = finish(env)
            if full is not None:
                return full
        if not free:
            return env if not b else None
    if tries < 300 or not getattr(g, 'directed', True):
        return None
    for env in directed(g, conds, free, rng, draw):
        full = finish(env)
        if full is not None:
            return full
    return None


GRID = sorted([0.0] + [sg * m * 10.0 ** e for e in range(-12, 7, 2) for m in (1.0, 3.7) for sg in (1, -1)])


def sign_at(g, q, env, exact=False):
    """exact enough sign of a gate-free node at a point, or None"""
    try:
        v = g.evalf(q, env, {})
    except (ValueError, ZeroDivisionError, OverflowError):
        return None
    if exact or v != v or abs(v) > 1e290 or abs(v) <= 1e-9:
        import mpmath
        try:
            with mpmath.workdps(60):
                v = g.evalf(q, {k: mpmath.mpf(x) for k, x in env.items()}, {}, mpmath)
        except (ValueError, ZeroDivisionError, OverflowError):
            return None
        if getattr(v, 'imag', 0) or not v == v:
            return None
        if v and abs(v) < 1e-20:
            return None             # too close to call
        return 1 if v > 0 else -1 if v < 0 else 0
    return 1 if v > 0 else -1


def directed(g, conds, free, rng, draw, rounds=3, steps=12):
    """points in narrow or remote regions: one coordinate at a time, along it the boundary of a violated condition"""
    sup = [sorted(set(free) & set(g.support(q))) for q, _ in conds]
    if not conds or any(not x for x in sup):
        return
    for r in range(rounds):
        env = {s: draw(rng.randrange(20)) for s in free}
        for st in range(steps):
            sg = [sign_at(g, q, env) for q, al in conds]
            bad = [i for i, (q, al) in enumerate(conds) if sg[i] not in al]
            if not bad:
                if all(sign_at(g, q, env, True) in al for q, al in conds):
                    yield env
                break
            i = rng.choice(bad)
            q, al = conds[i]
            s = rng.choice(sup[i])
            e = dict(env)

            def at(x):
                e[s] = x
                return sign_at(g, q, e)
            pts = [(x, at(x)) for x in GRID]
            cand = [x for x, v in pts if v in al]
            for (x, u), (y, v) in zip(pts, pts[1:]):
                if u is None or v is None or u == v or (cand and rng.random() < 0.5):
                    continue
                lo, hi = x, y
                for t in range(60):
                    m = (lo + hi) / 2
                    w = at(m)
                    if w == u:
                        lo = m
                    else:
                        hi = m
                for d in range(1, 15, 3):
                    d = abs(hi) * 10.0 ** -d
                    cand += [z for z in (lo - d, hi + d) if at(z) in al]
                cand += [z for z in (lo, hi) if at(z) in al]
            if not cand:
                continue
            best = None
            for x in (cand if len(cand) <= 8 else rng.sample(cand, 8)):
                e[s] = x
                n = sum(1 for (q2, al2) in conds if sign_at(g, q2, e) not in al2)
                if best is None or n < best[0]:
                    best = (n, x)
            if best[0] <= len(bad):
                env[s] = best[1]


def nonfinite(g, x):
    if g.n[x][0] in ('inf', 'ninf', 'nan'):
        return True
    try:
        a = g.nf.nf(x)
    except Blowup:
        return False
    ps = [m for m in a[0]] + [m for k, e in a[1] for m, c in k]
    return any(g.nf.gens[gi][0] in ('inf', 'nan') for m in ps for gi, _ in m)


OVERFLOW = object()


def value_at(g, x, pt):
    """value of a gate-free node at a point; None outside its domain"""
    import mpmath
    try:
        with mpmath.workdps(40):
            v = g.evalf(x, {k: mpmath.mpf(u) for k, u in pt.items()}, {}, mpmath)
    except OverflowError:
        return OVERFLOW
    except (ValueError, ZeroDivisionError):
        return None
    if isinstance(v, complex) or getattr(v, 'imag', 0):
        return None
    return v


def rounding(g, x, pt):
    """(value, how far rounded constants and this evaluation itself may have moved it): constants that no double
    represents exactly (pi, 0.1) may have been written slightly differently on the two sides"""
    import mpmath
    memo = {}
    U = mpmath.mpf(10) ** -38
    C = mpmath.mpf(2) ** -51

    def fn(t, v):
        if t in ('log', 'sqrt') and v < 0 or t in ('asin', 'acos') and abs(v) > 1:
            return None
        return g.evalf(g.fn(t, g.sym('__x')), {'__x': v}, {}, mpmath)

    def go(i):
        if i in memo:
            return memo[i]
        t = g.n[i]
        if t[0] == 'c':
            v = mpmath.mpf(t[1].numerator) / t[1].denominator
            r = (v, mpmath.mpf(0) if t[1].denominator <= 1024 else abs(v) * C)
        elif t[0] == 's':
            r = (mpmath.mpf(pt[t[1]]), mpmath.mpf(0))
        elif t[0] == 'neg':
            v, e = go(t[1])
            r = (-v, e)
        elif t[0] == '+':
            (v, e), (w, f) = go(t[1]), go(t[2])
            r = (v + w, e + f + U * (abs(v) + abs(w)))
        elif t[0] == '*':
            (v, e), (w, f) = go(t[1]), go(t[2])
            r = (v * w, abs(v) * f + abs(w) * e + e * f + U * abs(v * w))
        elif t[0] == '/':
            (v, e), (w, f) = go(t[1]), go(t[2])
            if abs(w) <= f:
                raise ZeroDivisionError
            q = v / w
            r = (q, (e + abs(q) * f) / (abs(w) - f) + U * abs(q))
        elif t[0] == 'fn':
            v, e = go(t[2])
            q = g.evalf(i, pt, {t[2]: v}, mpmath)
            d = mpmath.mpf(0)
            if e:
                ss = [fn(t[1], v + e), fn(t[1], v - e)]
                if any(z is None for z in ss):
                    raise ValueError('domain')
                d = 2 * max(abs(z - q) for z in ss)
            r = (q, d + U * abs(q))
        else:
            raise ValueError('not finite')
        memo[i] = r
        return r
    with mpmath.workdps(40):
        return go(x)


def partial_ops(g, roots):
    """(divisors, arguments of functions with a proper domain) under gate-free nodes"""
    seen, div, dom = set(), set(), set()
    st = list(roots)
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        t = g.n[i]
        if t[0] == '/':
            div.add(t[2])
        if t[0] == 'fn':
            if t[1] in ('log', 'sqrt', 'asin', 'acos'):
                dom.add((t[1], t[2]))
            st.append(t[2])
        elif t[0] in ('+', '*', '/'):
            st += t[1:3]
        elif t[0] == 'neg':
            st.append(t[1])
    return div, dom


def undefined_at(g, a, ref, asg, subs, rng):
    """a point at which `a` is undefined although all of `ref` (equal to it as expressions) are defined"""
    if a == ref[0]:
        return None
    da, ma = partial_ops(g, [a])
    if not da and not ma:
        return None
    db, mb = partial_ops(g, ref)

    def probe(subs, mixed):
        pt = sample_point(g, asg, subs, (), rng, extra_nodes=[a] + list(ref), tries=300, mixed=mixed)
        if pt is None:
            return None
        rs = [value_at(g, x, pt) for x in ref]
        if any(r is None or r is OVERFLOW or r != r for r in rs):
            return None
        v = value_at(g, a, pt)
        if v is None:
            import mpmath
            return pt, mpmath.nan, rs[0]
        return None
    if ma - mb:
        for t in range(6):
            r = probe(subs, True)
            if r:
                return r
    for p in sorted(da - db):
        try:
            if g.nf.nf(p)[1]:
                continue
            sols = zero_solutions(g, None, p)
        except Blowup:
            continue
        for s, by in sols[:8]:
            r = probe(list(subs) + [(s, by)], False)
            if r:
                return r
    return None


def decide_equal(g, i, j, asg, rng, finite=()):
    """gate-free i, j under assignment asg.  ('equal', how) | ('differs', point, vi, vj) | ('infeasible',)"""
    nf = g.nf
    alts = resolve_zeros(g, asg)
    if not alts:
        # an equality that no symbol solves: the combination has no witness in reach
        if equal_nf(g, i, j):
            return ('equal', 'nf')
        return ('infeasible',)
    feasible = False
    how = 'nf'
    for subs in alts:
        a, b = i, j
        fin = list(finite)
        for s, by in subs:
            m = {}
            a, b = subst(g, a, s, by, m), subst(g, b, s, by, m)
            fin = [subst(g, x, s, by, m) for x in fin]
        if any(g.has_ite(x) for x in [a, b] + fin):
            # substitution exposed new comparisons (infinities times a symbol): split again
            for asg2, ns in cases(g, [a, b] + fin, limit=500, assign=asg):
                if len(asg2) == len(asg):
                    continue
                r = decide_equal(g, ns[0], ns[1], asg2, rng, ns[2:])
                if r[0] == 'differs':
                    return r
                feasible |= r[0] == 'equal'
            continue
        if any(nonfinite(g, x) for x in fin):
            feasible = True             # nothing is claimed where the reference is not finite
            continue
        if equal_nf(g, a, b):
            feasible = True
            d = undefined_at(g, a, [b] + fin, asg, subs, rng)
            if d:
                return ('differs', d[0], d[1], d[2])
            continue
        # candidate mismatch: look for a concrete point
        pts = 0
        bad = None
        for t in range(12):
            pt = sample_point(g, asg, subs, (), rng, extra_nodes=[a, b] + fin, tries=3000 if pts == 0 else 1500, mixed=t % 4 != 0)
            if pt is None:
                break
            vb = value_at(g, b, pt)
            if vb is None or any(value_at(g, x, pt) is None for x in fin):
                continue                # outside the domain of the reference
            va = value_at(g, a, pt)
            if va is OVERFLOW or vb is OVERFLOW:
                continue
            import mpmath
            if va is None:              # undefined where the reference is defined
                if vb != vb:
                    pts += 1
                    continue
                bad = (pt, mpmath.nan, vb)
                break
            if va != va and vb != vb:
                pts += 1
                continue
            pts += 1
            if va == vb:
                continue
            if not (mpmath.isfinite(va) and mpmath.isfinite(vb)):
                bad = (pt, va, vb)
                break
            try:
                (wa, ea), (wb, eb) = rounding(g, a, pt), rounding(g, b, pt)
            except (ValueError, ZeroDivisionError, OverflowError, KeyError):
                continue
            if abs(wa - wb) > 16 * (ea + eb):
                bad = (pt, va, vb)
                break
        if bad:
            return ('differs', bad[0], bad[1], bad[2])
        if pts == 0:
            continue                    # combination not realisable (as far as sampling shows)
        feasible = True
        how = 'random-interpretation'
    if not feasible:
        return ('infeasible',)
    return ('equal', how)

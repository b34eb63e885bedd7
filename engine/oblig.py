"""Obligations decided on the value graph of one witness."""
import random
import re
import zlib
from fractions import Fraction
from vgraph import Graph, Analysis, F, Unanalysable, UNDEF
from nf import NF, Blowup
import cases as C

ARGS = ['x', 'ax', 'p', 'ap', 'c', 'v', 'a', 's', 'y', 'got', 'want', 'sz', 'x2', 'ax2', 'p2', 'ap2', 'v2', 'a2', 's2']


class Violation:
    def __init__(self, witness, rule, msg, frames, point=None):
        self.witness, self.rule, self.msg, self.frames, self.point = witness, rule, msg, frames, point

    def as_dict(self):
        return dict(witness=self.witness, rule=self.rule, message=self.msg,
                    location=[list(f) for f in self.frames], point=self.point)


def pt(point):
    if not point:
        return {}
    return {k: float('%.6g' % float(v)) for k, v in sorted(point.items())}


class Eval:
    def __init__(self, mod, w):
        self.mod, self.w = mod, w
        self.g = Graph()
        self.nf = NF(self.g)
        # full-pivoting LU: rank decisions relative to the largest pivot are a matter of rounding (not claimed): no operands of very unlike size there
        self.g.directed = not re.search(r'\bad::(log_)?det\b', w.body) or bool(re.search('DetLLT|DetLDLT', w.body))
        self.A = Analysis(mod, w.name, ARGS, self.g).run()
        self.rng = random.Random(zlib.crc32(w.name.encode()))
        self.viol = []
        self.counts = dict(obligations=0, cases=0, nf=0, random_interp=0, infeasible=0, undecided=0)
        self.fileset = {}

    # -- helpers
    def fin(self, region, k):
        c = self.A.final.get(region, {}).get(8 * k)
        if c is None:
            return self.g.sym('%s[%d]' % (region, k))
        return self.A.as_float(c[1]).i

    def written(self, region):
        """indices of cells of a region the function stores to"""
        return sorted({a.off // 8 for a in self.A.accesses if a.region == region and a.kind == 'write'
                       for k in [0]} | set())

    def repo_frames(self, dbg):
        fr = self.mod.frames(dbg)
        out = []
        for f, l, n in fr:
            if f and '/include/fastad' in f:
                out.append((f[f.index('/include/') + 1:], l, n))
        return out

    def store_frames(self, region, k):
        for a in reversed(self.A.accesses):
            if a.region == region and a.kind == 'write' and a.off <= 8 * k < a.off + a.size:
                f = self.repo_frames(a.dbg)
                if f:
                    return f
        return []

    def any_frames(self):
        seen = []
        for a in self.A.accesses:
            for f in self.repo_frames(a.dbg):
                if f[:1] + f[2:] not in seen:
                    return [f]
        return []

    def functions(self):
        out = set()
        for l, ins in self.A.fn.blocks.items():
            for i in ins:
                for f in self.repo_frames(i.dbg):
                    out.add((f[0], f[2]))
        return out

    def add(self, rule, msg, frames, point=None):
        self.viol.append(Violation(self.w.name, rule, msg, frames or self.any_frames(), pt(point)))

    def live_cases(self, nodes):
        """cases in which the witness returns"""
        g = self.g
        fc = self.A.final_cond
        extra = [g.ite(fc, g.ONE, g.ZERO)]
        if self.w.opt.get('assume'):        # condition under which the property is claimed, written by the witness
            extra.append(self.fin('got', 15))
        nodes = list(nodes)
        for asg, ns in C.cases(g, nodes + extra, limit=self.w.opt.get('limit', 6000)):
            if any(n == g.ZERO for n in ns[len(nodes):]):
                continue
            self.counts['cases'] += 1
            yield asg, ns[:len(nodes)]

    def decide(self, a, b, asg, finite=()):
        r = C.decide_equal(self.g, a, b, asg, self.rng, finite)
        self.counts['obligations'] += 1
        if r[0] == 'equal':
            self.counts['nf' if r[1] == 'nf' else 'random_interp'] += 1
        elif r[0] == 'infeasible':
            self.counts['infeasible'] += 1
        return r

    # -- rules
    def rule_issues(self):
        g = self.g
        seen = set()
        ign = self.w.opt.get('ignore_issues', ())
        for kind, cond, msg, dbg in self.A.issues:
            self.counts['obligations'] += 1
            if kind in ign:
                continue
            if cond == 0:
                continue
            feas = None
            if cond == 1:
                feas = {}
            else:
                for n, asg in enumerate(C.bdd_cases(g, cond)):
                    if n > 40:
                        break
                    for subs in C.resolve_zeros(g, asg):
                        p = C.sample_point(g, asg, subs, (), self.rng)
                        if p is not None:
                            feas = p
                            break
                    if feas is not None:
                        break
            if feas is None:
                self.counts['infeasible'] += 1
                continue
            fr = self.repo_frames(dbg)
            k = (kind, msg, tuple(fr[:1]))
            if k in seen:
                continue
            seen.add(k)
            self.add('memory:' + kind, msg, fr, feas)

    def rule_storage(self):
        """cache accesses stay inside what the expression reported, and binding consumes exactly that"""
        g = self.g
        for reg, i in (('v', 0), ('a', 1)):
            n = g.n[self.fin('sz', i)]
            u = g.n[self.fin('sz', 2 + i)]
            self.counts['obligations'] += 1
            if [t for t in (n, u) if t[0] == 's' and t[1].startswith(('undef#', 'uninit:'))]:
                self.add('storage:consumed', 'the end of the %s storage that binding assigns is not a position in the storage it '
                         'was given' % ('value' if i == 0 else 'adjoint'), self.store_frames('y', 0))
                continue
            if n[0] != 'c' or u[0] != 'c':
                raise Unanalysable('reported size is not constant')
            if n[1] != u[1]:
                self.add('storage:consumed', 'binding consumes %s %s cells but the expression reports %s' % (
                    u[1], 'value' if i == 0 else 'adjoint', n[1]), self.store_frames('y', 0))
            lim = int(n[1]) * 8
            seen = set()
            for a in self.A.accesses:
                if a.region != reg:
                    continue
                self.counts['obligations'] += 1
                if a.off < 0 or a.off + a.size > lim:
                    if (a.off, a.kind) in seen:
                        continue
                    seen.add((a.off, a.kind))
                    if self.feasible(a.cond) is None:
                        self.counts['infeasible'] += 1
                        continue
                    self.add('storage:bounds', '%s of %s cell %s but only %s cells are reserved' % (
                        a.kind, 'value' if i == 0 else 'adjoint', a.off / 8, n[1]), self.repo_frames(a.dbg))

    def feasible(self, cond):
        if cond == 1:
            return {}
        if cond == 0:
            return None
        for n, asg in enumerate(C.bdd_cases(self.g, cond)):
            if n > 20:
                return None
            for subs in C.resolve_zeros(self.g, asg):
                p = C.sample_point(self.g, asg, subs, (), self.rng, tries=1500)
                if p is not None:
                    return p
        return None

    def rule_bounds(self):
        """leaf, adjoint and seed accesses stay inside the leaves"""
        w = self.w
        lim = dict(x=w.nx, ax=w.nx, p=w.np, ap=w.np, x2=w.opt.get('nx2', max(w.nx, 1)), ax2=w.opt.get('nx2', max(w.nx, 1)),
                   c=w.opt.get('nc', 16))
        seen = set()
        for a in self.A.accesses:
            if a.region in lim:
                self.counts['obligations'] += 1
                if a.off < 0 or a.off + a.size > 8 * lim[a.region]:
                    if (a.region, a.off) in seen or self.feasible(a.cond) is None:
                        continue
                    seen.add((a.region, a.off))
                    self.add('storage:leaf-bounds', '%s outside the operand storage (%s cell %s of %d)' % (
                        a.kind, a.region, a.off / 8, lim[a.region]), self.repo_frames(a.dbg))

    def rule_readonly(self):
        """operand values and constants come out as they went in"""
        w = self.w
        regs = [('c', w.opt.get('nc', 0))]
        if not w.opt.get('mutates'):
            regs.append(('x', w.nx))
        for r, n in regs:
            for k in range(n):
                i = self.fin(r, k)
                s = self.g.sym('%s[%d]' % (r, k))
                self.counts['obligations'] += 1
                if i == s:
                    continue
                for asg, (v,) in self.live_cases([i]):
                    d = self.decide(v, s, asg)
                    if d[0] == 'differs':
                        self.add('readonly', 'the value of operand %s[%d] is modified' % (r, k), self.store_frames(r, k), d[1])
                        break

    BAD = re.compile(r'^(v|a|v2|a2)\[|^uninit:|^undef#|^null')

    def rule_defined(self, regions):
        """results do not depend on what the cache storage held before, or on uninitialised storage"""
        for r, n in regions:
            for k in range(n):
                i = self.fin(r, k)
                self.counts['obligations'] += 1
                if not any(self.BAD.match(s) for s in self.g.support(i)):
                    continue
                hit = None
                for asg, (v,) in self.live_cases([i]):
                    try:
                        bad = [s for s in self.nf.nf_support(v) if self.BAD.match(s)]
                    except Blowup:
                        continue
                    if bad and self.feasible_asg(asg) is not None:
                        hit = (bad, asg)
                        break
                if hit:
                    self.add('stale-storage', '%s[%d] depends on prior contents of storage: %s' % (
                        r, k, ', '.join(sorted(hit[0])[:4])), self.store_frames(r, k), self.feasible_asg(hit[1]))

    def feasible_asg(self, asg):
        for subs in C.resolve_zeros(self.g, asg):
            p = C.sample_point(self.g, asg, subs, (), self.rng, tries=1500)
            if p is not None:
                return p
        return None

    def rule_value(self, ra='y', rb='want', n=None, label='evaluated value differs from its mathematical definition'):
        n = self.w.ny if n is None else n
        for k in range(n):
            a, b = self.fin(ra, k), self.fin(rb, k)
            for asg, (u, v) in self.live_cases([a, b]):
                d = self.decide(u, v, asg)
                if d[0] == 'differs':
                    self.add('value', '%s: component %d is %s, expected %s' % (label, k, self.num(d[2]), self.num(d[3])),
                             self.store_frames(ra, k) or self.store_frames('v', k), d[1])
                    break

    @staticmethod
    def num(v):
        try:
            return '%.9g' % float(v)
        except Exception:
            return str(v)

    def rule_grad(self, scale=1, leaves=None, xr='x', axr='ax', yr='y', sr='s', init=True):
        """delivered adjoint = initial adjoint + seed^T (formal derivative of the evaluated value)"""
        g, w = self.g, self.w
        leaves = range(w.nx) if leaves is None else leaves
        ys = [self.fin(yr, i) for i in range(w.ny)]
        ns = w.opt.get('ns', w.ny)
        const = set(w.opt.get('const_leaves', ())) if xr == 'x' else set()
        zeroed = set(w.opt.get('zeroed', ()))
        bad = ('nan', 'inf', 'ninf') if w.opt.get('grad_finite_only') else ('nan', 'inf')
        for k in leaves:
            d = self.fin(axr, k)
            done = False
            for asg, nodes in self.live_cases(ys + [d]):
                if any(g.n[y][0] in bad for y in nodes[:-1]):
                    continue
                exp = g.sym('%s[%d]' % (axr, k)) if init and not (axr == 'ax' and k in zeroed) else g.ZERO
                if k not in const:
                    for i, y in enumerate(nodes[:-1]):
                        dy = g.deriv(y, '%s[%d]' % (xr, k), {})
                        exp = g.add(exp, g.mul(g.const(scale), g.mul(g.sym('%s[%d]' % (sr, i if ns > 1 else 0)), dy)))
                if any(self.BAD.match(s) for s in g.support(nodes[-1])) and False:
                    continue
                r = self.decide(nodes[-1], exp, asg, (exp,) + tuple(y for y in nodes[:-1] if g.n[y][0] != 'ninf'))
                if r[0] == 'differs':
                    self.add('gradient', 'adjoint delivered to leaf %s[%d] is %s, the derivative of the evaluated value '
                             'gives %s' % (xr, k, self.num(r[2]), self.num(r[3])), self.store_frames(axr, k), r[1])
                    break

    def rule_tangent(self, n=1, yr='y', tr='got', xr='x', sr='s'):
        """forward mode: tangent of an output = (formal derivative of its value) . (tangents of the inputs)"""
        g, w = self.g, self.w
        for i in range(n):
            y, d = self.fin(yr, i), self.fin(tr, i)
            for asg, (yy, dd) in self.live_cases([y, d]):
                if g.n[yy][0] in ('nan', 'inf', 'ninf'):
                    continue
                exp = g.ZERO
                for k in range(w.nx):
                    exp = g.add(exp, g.mul(g.sym('%s[%d]' % (sr, k)), g.deriv(yy, '%s[%d]' % (xr, k), {})))
                r = self.decide(dd, exp, asg, (exp, yy))
                if r[0] == 'differs':
                    self.add('tangent', 'tangent of the result is %s, the directional derivative of its value is %s' % (
                        self.num(r[2]), self.num(r[3])), self.store_frames(tr, i), r[1])
                    break

    def rule_samen(self, label):
        """got[0..n) against want[0..n), n recorded by the witness"""
        n = self.g.n[self.fin('sz', 0)]
        if n[0] != 'c':
            raise Unanalysable('number of recorded results is not constant')
        self.rule_same([(('got', i), ('want', i)) for i in range(int(n[1]))], label)

    def rule_leak(self):
        """every heap block is released on every path on which the program returns"""
        g = self.g
        fc = self.A.final_cond
        n = 0
        for r, i in self.A.regions.items():
            if i['kind'] != 'heap':
                continue
            n += 1
            self.counts['obligations'] += 1
            c = g.band(g.band(i['cond'], fc), g.bnot(self.A.freed.get(r, 0)))
            if c and self.feasible(c) is not None:
                self.add('leak', 'a block of %s bytes is allocated and never released' % i['size'], self.repo_frames(i['dbg']))
        self.counts['heap_blocks'] = n

    def rule_traps(self):
        """no path returns normally"""
        self.counts['obligations'] += 1
        if not self.A.final_cond:
            return
        for asg, _ in self.live_cases([]):
            for subs in C.resolve_zeros(self.g, asg):
                p = C.sample_point(self.g, asg, subs, (), self.rng)
                if p is not None:
                    self.add('traps', 'an ill-formed use returns normally instead of failing a check', [], p)
                    return
        self.counts['infeasible'] += 1

    def rule_same(self, pairs, label):
        for (ra, ka), (rb, kb) in pairs:
            a, b = self.fin(ra, ka), self.fin(rb, kb)
            if a == b:
                self.counts['obligations'] += 1
                self.counts['nf'] += 1
                continue
            for asg, (u, v) in self.live_cases([a, b]):
                d = self.decide(u, v, asg)
                if d[0] == 'differs':
                    self.add('agree', '%s: %s[%d] is %s, expected %s' % (label, ra, ka, self.num(d[2]), self.num(d[3])),
                             self.store_frames(ra, ka), d[1])
                    break

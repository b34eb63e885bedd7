"""Builders: small DSL from which witnesses are generated.

A builder is one way of writing a user-level expression.  Leaves (variables) live in x/ax, placeholders in p/ap,
constants in c.  From one builder several witnesses are generated (gradient, re-evaluation, nesting, ...).
"""
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'engine'))
from driver import Witness  # noqa: E402
import pipeline             # noqa: E402


def shape(s):
    """'s' | 'v3' | 'm2,3' -> (kind, rows, cols)"""
    if s == 's':
        return 's', 1, 1
    if s[0] == 'v':
        return 'v', int(s[1:]), 1
    r, c = s[1:].split(',')
    return 'm', int(r), int(c)


def decls(spec, val, adj):
    """leaf declarations and plain arrays for reference formulas"""
    out, ref, n = [], [], 0
    for it in spec.split():
        name, sh = it.split(':')
        k, r, c = shape(sh)
        ty = {'s': 'S', 'v': 'V', 'm': 'M'}[k]
        args = {'s': '', 'v': ', %d' % r, 'm': ', %d, %d' % (r, c)}[k]
        out.append('%s %s(m.%s+%d, m.%s+%d%s);' % (ty, name, val, n, adj, n, args))
        ref.append((name, val, n))
        n += r * c
    return ' '.join(out), ref, n


class Builder:
    def __init__(self, name, leaves, expr, out='s', want=None, ph='', decl='', pre='', tags=(), **opt):
        self.name, self.leaves, self.expr, self.out = name, leaves, expr, out
        self.want, self.ph, self.decl, self.pre, self.tags, self.opt = want, ph, decl, pre, set(tags), dict(opt)
        self.ld, self.lref, self.nx = decls(leaves, 'x', 'ax')
        self.pd, self.pref, self.np = decls(ph, 'p', 'ap')
        k, r, c = shape(out)
        self.okind, self.ny = k, r * c
        self.nc = opt.get('nc', 0)

    def lam(self):
        return '[](Mem m) { %s %s %s return %s; }' % (self.ld, self.pd, self.decl, self.expr)

    def wantcode(self):
        if self.want is None:
            return ''
        s = ''.join('const double* %s = k.%s + %d; (void)%s; ' % (n, v, o, n) for n, v, o in self.lref)
        s += 'const double* c = k.c; (void)c; double* W = k.want; '
        w = self.want
        if isinstance(w, (list, tuple)):
            for i, e in enumerate(w):
                s += 'W[%d] = %s; ' % (i, e)
        else:
            s += w
        return '{ ' + s + ' }'

    def assume(self, second=False):
        """the witness records whether its operands lie where the property is claimed"""
        a = self.opt.get('assume')
        if not a:
            return ''
        s = ''
        for sfx in ([''] + (['2'] if second else [])):
            s += 'const auto in_domain%s = [&]{ ' % sfx
            s += ''.join('const double* %s = k.%s%s + %d; (void)%s; ' % (n, v, sfx, o, n) for n, v, o in self.lref)
            s += 'const double* c = k.c; (void)c; return %s; }; ' % a
        return s + 'k.got[15] = (%s) ? 1. : 0.; ' % ' && '.join('in_domain%s()' % x for x in ([''] + (['2'] if second else [])))

    # ---- modes
    def w(self, mode, body, rules, **kw):
        o = dict(self.opt)
        o.update(kw)
        o.setdefault('nc', max(self.nc, 0))
        nx, ny = o.pop('NX', self.nx), o.pop('NY', self.ny)
        o.pop('np', None)
        if not (mode in ('reeval', 'refwd') and self.opt.get('reeval_all')):       # history independence needs no domain
            body = self.assume(mode in ('reeval', 'refwd')) + body
        else:
            o.pop('assume', None)
        return Witness('%s__%s' % (self.name, mode), body, nx=nx, ny=ny, np=self.np, rules=rules, pre=self.pre, **o)

    def zero(self):
        """placeholders start with zero adjoints, as a caller arranges before differentiating"""
        return ''.join('k.ap[%d] = 0; ' % i for i in range(self.np)) + self.opt.get('prep', '')

    def base_rules(self):
        r = ['issues']
        if not self.opt.get('mutates'):
            r.append('readonly')
        r.append(('defined', dict(regions=[('y', self.ny)] + [('ax', self.nx)])))
        return r

    def grad(self, value=True, grad=True, storage=False):
        rules = self.base_rules()
        if storage:
            rules += ['storage', 'bounds']
        if value and self.want is not None:
            rules.append('value')
        if grad:
            rules.append('grad')
        return self.w('grad', self.wantcode() + self.zero() + 'wit::grad(%s, k);' % self.lam(), rules)

    def storage(self):
        return self.w('store', self.zero() + 'wit::grad(%s, k);' % self.lam(), ['issues', 'storage', 'bounds'])

    def refwd(self):
        return self.reeval('refwd')

    def reeval(self, fn='reeval'):
        n, q = self.nx, self.np
        rules = [('same', dict(pairs=[(('got', i), ('want', i)) for i in range(self.ny)],
                               label='value of the second evaluation')),
                 ('same', dict(pairs=[(('ax', i), ('ax2', i)) for i in range(n)],
                               label='gradient of the second evaluation')), 'issues']
        return self.w(fn, self.opt.get('setx', '') + 'wit::%s(%s, k, %d, %d);' % (fn, self.lam(), n, q), rules, nx2=n)

    def nested(self):
        leaf = self.nx
        rules = ['issues', 'storage', 'bounds',
                 ('defined', dict(regions=[('y', 1), ('ax', self.nx), ('ax2', 1)])),
                 'grad', ('grad', dict(leaves=[0], xr='x2', axr='ax2'))]
        if not self.opt.get('mutates'):
            rules.append('readonly')
        return self.w('nest', self.zero() + 'wit::nested%s(%s, k);' % ('1' if self.np or self.opt.get('zeroed') else '', self.lam()), rules, NY=1, nx2=1, grad_finite_only=True)

    def twice(self):
        return self.w('twice', self.zero() + 'wit::twice(%s, k);' % self.lam(), ['issues', ('grad', dict(scale=2))])

    def intact(self):
        """operand values and constants after one forward and one backward pass"""
        r = [('issues', {})] if self.opt.get('mutates') else ['readonly']
        return self.w('intact', self.zero() + 'wit::grad(%s, k);' % self.lam(), r)

    def prior(self):
        """results as functions of the operands alone"""
        return self.w('prior', self.zero() + 'wit::grad(%s, k);' % self.lam(), [
            'issues', ('defined', dict(regions=[('y', self.ny), ('ax', self.nx), ('ap', self.np)]))])

    def reread(self):
        rules = [] if self.opt.get('mutates') else ['readonly']
        return self.w('reread', self.zero() + 'wit::reread(%s, k);' % self.lam(), rules + [
            ('same', dict(pairs=[(('got', i), ('want', i)) for i in range(self.ny)],
                          label='result read after the backward pass'))])

    def bound(self):
        """a bound expression, which owns its cache: every access inside what was allocated for it"""
        return self.w('bound', self.zero() + 'wit::api(%s, k);' % self.lam(), ['issues'], heap=True)

    def api(self, mode='api'):
        rules = self.base_rules() + (['value'] if self.want is not None else []) + ['grad']
        return self.w(mode, self.wantcode() + self.zero() + 'wit::%s(%s, k);' % (mode, self.lam()), rules)


MAXSIZE = 24


def new_literals(MAXSIZE=MAXSIZE):
    """Integer constants >= 3 in the library's code: sizes at which its control flow could change."""
    out = set()
    inc = os.path.join(pipeline.REPO, 'include')
    for d, _, fs in os.walk(inc):
        for f in fs:
            try:
                t = open(os.path.join(d, f)).read()
            except (OSError, UnicodeDecodeError):
                continue
            t = re.sub(r'//[^\n]*|/\*.*?\*/|"(\\.|[^"\\])*"', ' ', t, flags=re.S)
            num = r'(0[xX][0-9a-fA-F]+|\d+)(?:[uU]?[lL]{0,2}|[lL]{1,2}[uU]?)'
            big = r'(?<![\w.])(?:%s)(?:\s*(<<|\*)\s*(?:%s))?(?![\w.])' % (num, num)
            for m in re.finditer(big, t):
                a = int(m.group(1), 0) if not re.match(r'0\d', m.group(1)) else int(m.group(1), 8)
                if m.group(2):
                    b = int(m.group(3), 0)
                    out |= {x for x in (b, a << min(b, 9) if m.group(2) == '<<' else a * b) if 3 <= x <= MAXSIZE}
                if 3 <= a <= MAXSIZE:
                    out.add(a)
            for m in re.finditer(r'(?:[<>]=?|==|!=)\s*(\d+)\.0*(?![\w.])', t):     # a size compared as a floating-point number
                if 4 <= int(m.group(1)) <= MAXSIZE:
                    out.add(int(m.group(1)))
    return sorted(out)


_lits = None


def sizes(base, extra=True):
    """base sizes plus the neighbourhood of every integer literal of the library >= 3"""
    global _lits
    if _lits is None:
        _lits = new_literals()
    out = set(base)
    if extra:
        for n in _lits[:5]:
            out |= {n, n + 1}
    return sorted(out)


_big = None


def bigsizes():
    """sizes of the witnesses of catalog5: one beyond those of the other catalogs, and both sides of the thresholds a change may have introduced"""
    global _big
    if _big is None:
        ls = new_literals(100)
        _big = sorted({7} | {m for n in ls[:3] + ls[-1:] for m in (n, n + 1)} | ({101} if ls else set()))     # 101: beyond products of such constants, and prime
    return _big

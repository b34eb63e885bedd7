"""Witnesses that are not single reverse-mode expressions: forward mode, variables, bound expressions, interface."""
from dsl import Builder, Witness

B = Builder

# ---------------------------------------------------------------- forward mode
FUN = {
    'neg': ('-{0}', '-{0}'), 'sin': ('sin({0})', 'std::sin({0})'), 'cos': ('cos({0})', 'std::cos({0})'),
    'tan': ('tan({0})', 'std::tan({0})'), 'asin': ('asin({0})', 'std::asin({0})'), 'acos': ('acos({0})', 'std::acos({0})'),
    'atan': ('atan({0})', 'std::atan({0})'), 'exp': ('exp({0})', 'std::exp({0})'), 'log': ('log({0})', 'std::log({0})'),
    'sqrt': ('sqrt({0})', 'std::sqrt({0})'), 'erf': ('erf({0})', 'std::erf({0})'),
}
FB = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}


def fw(name, n, code, ref, pre='', dirs=None):
    """code: statements defining `ForwardVar<double> r` from f0..fn-1; ref: the same over doubles x0.."""
    d = ''.join('ad::ForwardVar<double> f%d; f%d.set_value(k.x[%d]); f%d.set_adjoint(k.s[%d]); ' % (i, i, i, i, i) for i in range(n))
    d += ''.join('const double x%d = k.x[%d]; (void)x%d; ' % (i, i, i) for i in range(n))
    return Witness('fw_%s' % name, d + code + ' k.y[0] = r.get_value(); k.got[0] = r.get_adjoint(); k.want[0] = %s;' % ref,
                   nx=n, ny=1, rules=['issues', 'value', ('tangent', {})], pre=pre)


def forward(tier='quick'):
    out = []
    F_ = 'ad::ForwardVar<double> r = '
    for f, (c, r) in FUN.items():
        q = c if f == 'neg' else 'ad::' + c
        out.append(fw('%s' % f, 1, F_ + q.format('f0') + ';', r.format('x0')))
        out.append(fw('%s_of' % f, 2, F_ + q.format('(f0 * f1)') + ' + f0;', r.format('(x0*x1)') + '+x0'))
        for g, (c2, r2) in FUN.items():
            q2 = c2 if g == 'neg' else 'ad::' + c2
            out.append(fw('%s_%s' % (f, g), 1, F_ + q.format('(%s)' % q2.format('f0')) + ';', r.format('(%s)' % r2.format('x0'))))
    for o, op in FB.items():
        out.append(fw('b_%s' % o, 2, F_ + 'f0 %s f1;' % op, 'x0 %s x1' % op))
        out.append(fw('b_%s_self' % o, 1, F_ + 'f0 %s f0;' % op, 'x0 %s x0' % op))
        for o2, op2 in FB.items():
            out.append(fw('b_%s_%s' % (o, o2), 3, F_ + '(f0 %s f1) %s f2;' % (op, op2), '(x0 %s x1) %s x2' % (op, op2)))
            out.append(fw('b_%s_r%s' % (o, o2), 3, F_ + 'f0 %s (f1 %s f2);' % (op, op2), 'x0 %s (x1 %s x2)' % (op, op2)))
        for f, (c, r) in FUN.items():
            q = c if f == 'neg' else 'ad::' + c
            out.append(fw('bu_%s_%s' % (o, f), 2, F_ + '(%s) %s (%s);' % (q.format('f0'), op, q.format('f1')),
                          '(%s) %s (%s)' % (r.format('x0'), op, r.format('x1'))))
    out.append(fw('pe', 2, 'ad::ForwardVar<double> r = f0; r += f1;', 'x0+x1'))
    out.append(fw('pe_self', 1, 'ad::ForwardVar<double> r = f0; r += r;', 'x0+x0'))
    out.append(fw('pe_chain', 3, 'ad::ForwardVar<double> r = f0 * f1; r += f2; r += r * f0;', '(x0*x1+x2)+(x0*x1+x2)*x0'))
    out.append(fw('pe_ret', 2, 'ad::ForwardVar<double> r = f0; (r += f1) += f0;', '(x0+x1)+x0'))
    out.append(fw('ctor_v', 1, 'ad::ForwardVar<double> z(3.); ad::ForwardVar<double> r = z * f0;', '3.*x0'))
    out.append(fw('ctor_va', 1, 'ad::ForwardVar<double> z(k.x[0], k.s[0]); ad::ForwardVar<double> r = z * z;', 'x0*x0'))
    out.append(fw('ctor_d', 1, 'ad::ForwardVar<double> z; ad::ForwardVar<double> r = z + f0;', 'x0'))
    out.append(fw('copy', 2, 'auto z = f0; z.set_value(k.x[1]); z.set_adjoint(k.s[1]); ad::ForwardVar<double> r = z * f0;', 'x1*x0'))
    out.append(fw('assign', 2, 'ad::ForwardVar<double> r = f0; r = f1; r = r * f0;', 'x1*x0'))
    out.append(fw('loop', 1, 'ad::ForwardVar<double> r(1.); for (int i = 0; i < 5; ++i) r = r * f0 + f0;',
                  '((((1*x0+x0)*x0+x0)*x0+x0)*x0+x0)*x0+x0'))
    out.append(fw('readme', 2, 'ad::ForwardVar<double> w3 = f0 * sin(f1); ad::ForwardVar<double> w4 = w3 + f0 * f1; ad::ForwardVar<double> r = exp(w4 * w3);',
                  'std::exp((x0*std::sin(x1)+x0*x1)*(x0*std::sin(x1)))'))
    out.append(fw('speel', 4, 'ad::ForwardVar<double> r = f0; r = r * f1; r = r * f2; r = r * f3;', 'x0*x1*x2*x3'))
    return out


# ---------------------------------------------------------------- forward and reverse agree
def agree(tier='quick'):
    out = []
    D2 = 'ad::ForwardVar<double> a; a.set_value(k.x[0]); a.set_adjoint(k.s2[0]); ad::ForwardVar<double> b; b.set_value(k.x[1]); b.set_adjoint(k.s2[1]); '

    def A(name, e):
        body = ('{ using std::sin; const double x0 = 0; (void)x0; %s auto r = %s; k.want[0] = r.get_value(); k.got[1] = r.get_adjoint(); } '
                'k.ax[0] = 0; k.ax[1] = 0; { S a(k.x, k.ax), b(k.x + 1, k.ax + 1); auto e = ad::bind(%s); k.got[0] = ad::autodiff(e); } '
                'k.want[1] = k.ax[0] * k.s2[0] + k.ax[1] * k.s2[1];') % (D2, e, e)
        out.append(Witness('ag_' + name, body, nx=2, ny=1, rules=[
            'issues', ('same', dict(pairs=[(('got', 0), ('want', 0))], label='reverse-mode value against forward-mode value')),
            ('same', dict(pairs=[(('got', 1), ('want', 1))], label='forward-mode tangent against the reverse-mode gradient'))]))
    for f, (c, _) in FUN.items():
        q = c if f == 'neg' else 'ad::' + c
        A(f, q.format('(a * b)'))
        for o, op in FB.items():
            A('%s_%s' % (o, f), '(%s) %s (%s)' % (q.format('a'), op, q.format('(a + b)')))
    for o, op in FB.items():
        A(o, 'a %s b' % op)
        for o2, op2 in FB.items():
            A('%s_%s' % (o, o2), '(a %s b) %s (b %s a)' % (op, op2, op))
    A('mix', 'ad::exp(ad::sin(a) * b) / (a - b) + ad::log(b)')
    return out


# ---------------------------------------------------------------- variables
def ww(name, body, n, nx=6, pre='', zero=0, label='state of a variable', extra=(), **kw):
    """body fills k.got[0..n) from the library and k.want[0..n) with what it should be"""
    rules = ['issues', ('samen', dict(label=label))] + list(extra)
    return Witness(name, body + ' k.sz[0] = o.n;', nx=nx, ny=1, rules=rules, pre=pre, **kw)


HELP = r'''
using VS = ad::Var<double, ad::scl>; using VV = ad::Var<double, ad::vec>; using VM = ad::Var<double, ad::mat>;
static inline void setv(VV& v, const double* p) { for (int i = 0; i < int(v.size()); ++i) v.get()(i) = p[i]; }
static inline void setm(VM& v, const double* p) { for (int i = 0; i < int(v.size()); ++i) v.data()[i] = p[i]; }
struct Outp { double* g; double* w; int n = 0; void operator()(double a, double b) { g[n] = a; w[n] = b; ++n; } };
'''


def var(tier='quick'):
    out = []

    def A(name, code, n, **kw):
        out.append(ww('var_' + name, 'Outp o{k.got, k.want}; const double* X = k.x; (void)X; ' + code, n, pre=HELP, **kw))
    # construction
    A('s_default', 'VS a; o(a.get(), 0); o(a.get_adj(), 0); o(a.rows(), 1); o(a.cols(), 1); o(a.size(), 1);', 5)
    A('s_value', 'VS a(X[0]); o(a.get(), X[0]); o(a.get_adj(), 0); o(a.get(0, 0), X[0]); o(a.get_adj(0, 0), 0); o(*a.data(), X[0]); o(*a.data_adj(), 0);', 6)
    A('v_ctor', 'VV a(3); o(a.size(), 3); o(a.rows(), 3); o(a.cols(), 1); for (int i = 0; i < 3; ++i) { o(a.get()(i), 0); o(a.get_adj()(i), 0); }', 9)
    A('m_ctor', 'VM a(2, 3); o(a.size(), 6); o(a.rows(), 2); o(a.cols(), 3); for (int i = 0; i < 6; ++i) { o(a.get()(i % 2, i / 2), 0); o(a.get_adj(i % 2, i / 2), 0); }', 15)
    # accessors
    A('v_access', 'VV a(3); setv(a, X); a.get_adj()(1) = X[4]; o(a.get(2, 0), X[2]); o(a.get()(0), X[0]); o(a.get_adj(1, 0), X[4]); o(a.data()[1], X[1]); o(a.data_adj()[1], X[4]); o(a.get_adj(0, 0), 0);', 6)
    A('m_access', 'VM a(2, 2); setm(a, X); a.get_adj(0, 1) = X[4]; o(a.get(1, 0), X[1]); o(a.get()(0, 1), X[2]); o(a.get_adj()(0, 1), X[4]); o(a.data_adj()[2], X[4]); o(a.get_adj(1, 1), 0); o(a.data()[3], X[3]);', 6)
    A('reset', 'VS a(X[0]); a.get_adj() = X[1]; a.reset_adj(); o(a.get_adj(), 0); o(a.get(), X[0]);'
               'VV b(2); setv(b, X); b.get_adj()(0) = X[2]; b.get_adj()(1) = X[3]; b.reset_adj(); o(b.get_adj()(0), 0); o(b.get_adj()(1), 0); o(b.get()(0), X[0]); o(b.get()(1), X[1]);'
               'VM c(1, 2); setm(c, X); c.get_adj(0, 0) = X[2]; c.get_adj(0, 1) = X[3]; c.reset_adj(); o(c.get_adj(0, 0), 0); o(c.get_adj(0, 1), 0); o(c.get(0, 1), X[1]); o(c.get(0, 0), X[0]);', 10)
    A('zero_ones', 'VV b(2); setv(b, X); b.get_adj()(0) = X[2]; b.ones_adj(); o(b.get_adj()(0), 1); o(b.get_adj()(1), 1); b.zero_adj(); o(b.get_adj()(0), 0); o(b.get()(0), X[0]); b.ones(); o(b.get()(1), 1); o(b.get_adj()(1), 0); b.zero(); o(b.get()(1), 0);', 7)
    A('zero_ones_s', 'VS b(X[0]); b.ones_adj(); o(b.get_adj(), 1); o(b.get(), X[0]); b.zero_adj(); o(b.get_adj(), 0); b.ones(); o(b.get(), 1); o(b.get_adj(), 0); b.get_adj() = X[1]; b.zero(); o(b.get(), 0); o(b.get_adj(), X[1]);', 7)
    A('zero_ones_m', 'VM b(1, 2); setm(b, X); b.ones_adj(); o(b.get_adj(0, 1), 1); o(b.get(0, 1), X[1]); b.ones(); o(b.get(0, 0), 1); b.zero_adj(); o(b.get_adj(0, 0), 0); o(b.get(0, 1), 1); b.ones_adj(); b.zero(); o(b.get(0, 0), 0); o(b.get_adj(0, 1), 1);', 7)
    # copies own separate storage and start as equal
    kinds = {
        's': ('VS a(X[0]); a.get_adj() = X[1];', 'VS', 1), 'v': ('VV a(2); setv(a, X); a.get_adj()(0) = X[2]; a.get_adj()(1) = X[3];', 'VV', 2),
        'm': ('VM a(1, 2); setm(a, X); a.get_adj(0, 0) = X[2]; a.get_adj(0, 1) = X[3];', 'VM', 2),
    }
    for kd, (mk, ty, n) in kinds.items():
        q = 1 if n == 1 else 2
        same = ''.join('o(b.data()[%d], X[%d]); o(b.data_adj()[%d], X[%d]); ' % (i, i, i, q + i) for i in range(n))
        keep = ''.join('o(a.data()[%d], X[%d]); o(a.data_adj()[%d], X[%d]); ' % (i, i, i, q + i) for i in range(n))
        mod = ''.join('b.data()[%d] = X[4]; b.data_adj()[%d] = X[5]; ' % (i, i) for i in range(n))
        modv = ''.join('o(b.data()[%d], X[4]); o(b.data_adj()[%d], X[5]); ' % (i, i) for i in range(n))
        shp = 'o(b.size(), %d); o(b.rows(), %d); o(b.cols(), %d); ' % (n, 1 if kd in 'sm' else 2, 2 if kd == 'm' else 1)
        other = {'s': 'VS b(7.);', 'v': 'VV b(2);', 'm': 'VM b(1, 2);'}[kd]
        A('copy_' + kd, '%s %s b(a); %s%s%s%s%s' % (mk, ty, same, shp, mod, keep, modv), 6 * n + 3)
        A('assign_' + kd, '%s %s b = a; %s%s%s%s%s' % (mk, other, same, shp, mod, keep, modv), 6 * n + 3)
        A('move_' + kd, '%s %s b(std::move(a)); %s%s%s%s' % (mk, ty, same, shp, mod, modv), 4 * n + 3)
        A('moveassign_' + kd, '%s %s b = std::move(a); %s%s%s%s' % (mk, other, same, shp, mod, modv), 4 * n + 3)
        A('self_' + kd, '%s %s& r = a; a = r; %s' % (mk, ty, keep), 2 * n)
        A('copied_from_dead_' + kd, 'std::unique_ptr<%s> q; { %s q.reset(new %s(a)); } %s& b = *q; %s' % (ty, mk, ty, ty, same), 2 * n)
        A('assigned_from_dead_' + kd, '%s { %s b = a; } %s' % (other, mk, same), 2 * n)
        A('view_' + kd, '%s auto b = ad::VarView<double, ad::%s>(a); %s%s%s%s' % (mk, {'s': 'scl', 'v': 'vec', 'm': 'mat'}[kd], same, shp, mod,
                                                                            modv.replace('o(b.', 'o(a.')), 4 * n + 3)
        A('vector_' + kd, 'std::vector<%s> r; r.reserve(2); { %s r.push_back(a); r.emplace_back(a); r.push_back(std::move(a)); } for (int t = 0; t < 3; ++t) { auto& b = r[t]; %s } '
          '{ auto& b = r[1]; %s } { auto& b = r[0]; %s } { auto& b = r[2]; %s }' % (ty, mk, same, mod, same, same), 10 * n)
        # an expression over a copy reaches the copy only
        ex = 'b * b' if kd == 's' else 'ad::sum(b * b)'
        grad = ''.join('o(b.data_adj()[%d], X[%d] + 2. * X[%d]); ' % (i, q + i, i) for i in range(n))
        for how, mk2 in (('copy', '%s b(a);' % ty), ('assign', other + ' b = a;')):
            A('expr_%s_%s' % (how, kd), '%s %s auto e = ad::bind(%s); ad::autodiff(e); %s%s' % (mk, mk2, ex, grad, keep), 4 * n)
        for how, mk2 in (('move', '%s b(std::move(a));' % ty), ('moveassign', other + ' b = std::move(a);')):
            A('expr_%s_%s' % (how, kd), '%s %s auto e = ad::bind(%s); ad::autodiff(e); %s' % (mk, mk2, ex, grad), 2 * n)
        A('expr_vector_' + kd, 'std::vector<%s> r; { %s r.push_back(a); r.push_back(a); r.push_back(a); } auto& b = r[1]; auto e = ad::bind(%s * (r[0].data()[0] + 0.)); ad::autodiff(e); '
          .replace('b * b', ex) % (ty, mk, ex) + ''.join('o(b.data_adj()[%d], X[%d] + 2. * X[%d] * X[0]); ' % (i, q + i, i) for i in range(n)) +
          '{ auto& b = r[0]; %s } { auto& b = r[2]; %s }' % (same, same), 5 * n)
    # subviews
    A('sub_v', 'VV a(4); setv(a, X); auto h = a.head(3); auto t = a.tail(2); auto e = a(1); auto f = a[3]; o(h.size(), 3); o(t.size(), 2); o(e.size(), 1);'
      'h.get()(2) = X[4]; o(a.get()(2), X[4]); o(t.get()(0), X[4]); t.get_adj()(1) = X[5]; o(a.get_adj()(3), X[5]); o(f.get_adj(), X[5]); o(f.get(), X[3]); e.get_adj() = X[4]; o(h.get_adj()(1), X[4]); o(a.get_adj(1, 0), X[4]); o(e.get(), X[1]);', 11)
    A('sub_expr', 'VV a(4); setv(a, X); auto e = ad::bind(ad::sum(a.head(2) * a.tail(2)) + a[1] * a(2)); o(ad::autodiff(e), X[0] * X[2] + X[1] * X[3] + X[1] * X[2]);'
      'o(a.get_adj(0, 0), X[2]); o(a.get_adj(1, 0), X[3] + X[2]); o(a.get_adj(2, 0), X[0] + X[1]); o(a.get_adj(3, 0), X[1]);', 5)
    # views bound by hand, as in the advanced section of the documentation
    A('bind_views', 'double vals[6], adjs[6]; for (int i = 0; i < 6; ++i) { vals[i] = X[i]; adjs[i] = 0; } ad::VarView<double, ad::scl> s(nullptr, nullptr); ad::VarView<double, ad::vec> v(nullptr, nullptr, 3); ad::VarView<double, ad::mat> m(nullptr, nullptr, 1, 2);'
      'auto p = s.bind({vals, adjs}); p = v.bind(p); p = m.bind(p); o(p.val - vals, 6); o(p.adj - adjs, 6); o(s.get(), X[0]); o(v.get()(2), X[3]); o(m.get(0, 1), X[5]); o(v.size(), 3); o(m.rows(), 1); o(m.cols(), 2);'
      'v.get_adj()(1) = X[0]; o(adjs[2], X[0]); m.get_adj(0, 0) = X[1]; o(adjs[4], X[1]); s.get_adj() = X[2]; o(adjs[0], X[2]);', 11)
    A('readme_adv', 'double va[6], aa[6], wv[3], wa[3]; for (int i = 0; i < 6; ++i) { va[i] = X[i]; aa[i] = 0; } for (int i = 0; i < 3; ++i) wa[i] = 0;'
      'ad::VarView<double, ad::scl> x(va, aa); ad::VarView<double, ad::vec> v(va + 1, aa + 1, 3), w(wv, wa, 3); auto e = ad::bind((w = ad::cos(v), ad::sin(x) + w + ad::sum(w)));'
      'Eigen::ArrayXd seed(3); seed.setZero(); seed[1] = 1; auto f = ad::autodiff(e, seed); o(f(1), std::sin(X[0]) + std::cos(X[2]) + (std::cos(X[1]) + std::cos(X[2]) + std::cos(X[3])));'
      'o(x.get_adj(), std::cos(X[0])); o(v.get_adj()(0), -std::sin(X[1])); o(v.get_adj(1, 0), -2. * std::sin(X[2])); o(aa[3], -std::sin(X[3]));', 5)
    return out


# ---------------------------------------------------------------- bound expressions
def bound(tier='quick'):
    out = []

    def A(name, code, n, **kw):
        out.append(ww('bnd_' + name, 'Outp o{k.got, k.want}; const double* X = k.x; (void)X; ' + code, n, pre=HELP, **kw))
    setup = 'VS a(X[0]), b(X[1]); auto mk = [&] { return ad::bind(ad::sin(a * b) * ad::exp(a) + ad::pow<2>(b)); };'
    val = 'std::sin(%(a)s*%(b)s)*std::exp(%(a)s)+%(b)s*%(b)s'
    da = '(std::cos(%(a)s*%(b)s)*%(b)s*std::exp(%(a)s)+std::sin(%(a)s*%(b)s)*std::exp(%(a)s))'
    db = '(std::cos(%(a)s*%(b)s)*%(a)s*std::exp(%(a)s)+2.*%(b)s)'
    X01 = dict(a='X[0]', b='X[1]')
    chk = lambda e, m=X01, t=1: 'a.reset_adj(); b.reset_adj(); o(ad::autodiff(%s), %s); o(a.get_adj(), %s); o(b.get_adj(), %s); ' % (e, val % m, da % m, db % m)
    A('plain', setup + 'auto e = mk(); ' + chk('e'), 3)
    A('copy', setup + 'auto e = mk(); auto f = e; ' + chk('f') + chk('e'), 6)
    A('copy_dead', setup + 'std::unique_ptr<decltype(mk())> q; { auto e = mk(); q.reset(new decltype(mk())(e)); } ' + chk('*q'), 3)
    A('copy_after', setup + 'auto e = mk(); ad::autodiff(e); auto f = e; a.get() = X[2]; b.get() = X[3]; ' + chk('f', dict(a='X[2]', b='X[3]')) + chk('e', dict(a='X[2]', b='X[3]')), 6)
    A('move', setup + 'auto e = mk(); auto f = std::move(e); ' + chk('f'), 3)
    A('assign', setup + 'auto e = mk(); auto f = mk(); f = e; ' + chk('f') + chk('e'), 6)
    A('assign_dead', setup + 'auto f = mk(); { auto e = mk(); f = e; } ' + chk('f'), 3)
    A('self', setup + 'auto e = mk(); auto& r = e; e = r; ' + chk('e'), 3)
    A('vector', setup + 'std::vector<decltype(mk())> r; r.push_back(mk()); r.push_back(mk()); r.push_back(mk()); ' + chk('r[0]') + chk('r[2]'), 6)
    A('return', setup + 'auto g = [&] { auto e = mk(); auto f = e; return f; }; auto h = g(); ' + chk('h'), 3)
    A('temp', setup + chk('mk()'), 3)
    A('two', setup + 'auto e = mk(); auto f = ad::bind(a * b); o(ad::evaluate(e), %s); o(ad::evaluate(f), X[0] * X[1]); ad::evaluate_adj(e); o(a.get_adj(), %s); ad::evaluate_adj(f); o(a.get_adj(), %s + X[1]); o(b.get_adj(), %s + X[0]); '
      % (val % X01, da % X01, da % X01, db % X01), 5)
    A('interleave', setup + 'auto e = mk(); auto f = e; o(ad::evaluate(e), %s); o(ad::evaluate(f), %s); ad::evaluate_adj(f); o(a.get_adj(), %s); ad::evaluate_adj(e); o(a.get_adj(), 2. * %s); ' % (val % X01, val % X01, da % X01, da % X01), 4)
    # evaluating one of the two elsewhere leaves what the other holds
    other = dict(a='X[2]', b='X[3]')
    for nm, cp in (('before', 'auto e = mk(); auto f = e; ad::evaluate(e); '), ('after', 'auto e = mk(); ad::evaluate(e); auto f = e; '),
                   ('assigned', 'auto e = mk(); auto f = mk(); ad::evaluate(f); f = e; ad::evaluate(e); '), ('onto', 'auto e = mk(); auto f = mk(); ad::evaluate(f); ad::evaluate(e); f = e; '),
                   ('moved', 'auto g = mk(); auto f = g; auto e = std::move(g); ad::evaluate(e); '), ('third', 'auto e = mk(); auto g = e; auto f = g; ad::evaluate(e); ad::evaluate(g); ')):
        A('keeps_' + nm, setup + cp + 'a.get() = X[2]; b.get() = X[3]; ' + chk('f', other)
          + 'o(e.get().get(), %s); a.get() = X[0]; b.get() = X[1]; a.reset_adj(); b.reset_adj(); ad::evaluate_adj(e); o(a.get_adj(), %s); o(b.get_adj(), %s);' % (val % X01, da % X01, db % X01), 6)
    A('keeps_vec', 'VV v(2); setv(v, X); auto e = ad::bind(ad::exp(v) * ad::sin(v)); auto f = e; auto r = ad::evaluate(e); setv(v, X + 2); auto q = ad::evaluate(f);'
      'for (int i = 0; i < 2; ++i) { o(r(i), std::exp(X[i]) * std::sin(X[i])); o(q(i), std::exp(X[i+2]) * std::sin(X[i+2])); }'
      'setv(v, X); Eigen::ArrayXd s(2); s << X[4], X[5]; ad::evaluate_adj(e, s); for (int i = 0; i < 2; ++i) o(v.get_adj()(i), X[4+i] * std::exp(X[i]) * (std::sin(X[i]) + std::cos(X[i])));', 6)
    A('keeps_sum', 'VV v(2); setv(v, X); auto e = ad::bind(ad::sum(ad::exp(v) * ad::sin(v)) * ad::prod(ad::exp(v))); auto f = e; ad::evaluate(e); setv(v, X + 2); ad::evaluate(f);'
      'o(e.get().get(), (std::exp(X[0]) * std::sin(X[0]) + std::exp(X[1]) * std::sin(X[1])) * std::exp(X[0]) * std::exp(X[1]));'
      'o(f.get().get(), (std::exp(X[2]) * std::sin(X[2]) + std::exp(X[3]) * std::sin(X[3])) * std::exp(X[2]) * std::exp(X[3]));', 2)
    A('keeps_if', 'VS a(X[0]), b(X[1]); auto e = ad::bind(ad::if_else(a < b, ad::exp(a) * b, ad::sin(a)) * b); auto f = e; ad::evaluate(e); a.get() = X[2]; ad::evaluate(f); a.get() = X[0];'
      'o(e.get().get(), (X[0] < X[1] ? std::exp(X[0]) * X[1] : std::sin(X[0])) * X[1]); ad::evaluate_adj(e); o(a.get_adj(), (X[0] < X[1] ? std::exp(X[0]) * X[1] : std::cos(X[0])) * X[1]);', 2)
    # several shapes of expression
    A('vec_copy', 'VV v(2); setv(v, X); std::unique_ptr<decltype(ad::bind(ad::exp(v) * v))> q; { auto e = ad::bind(ad::exp(v) * v); q.reset(new decltype(ad::bind(ad::exp(v) * v))(e)); }'
      'Eigen::ArrayXd s(2); s << X[2], X[3]; auto r = ad::autodiff(*q, s); o(r(0), std::exp(X[0]) * X[0]); o(r(1), std::exp(X[1]) * X[1]); o(v.get_adj()(0), X[2] * (std::exp(X[0]) * X[0] + std::exp(X[0]))); o(v.get_adj()(1), X[3] * (std::exp(X[1]) * X[1] + std::exp(X[1])));', 4)
    A('mat_copy', 'VM v(1, 2); setm(v, X); auto e = ad::bind(ad::sin(v) * v); auto f = e; Eigen::ArrayXXd s(1, 2); s << X[2], X[3]; auto r = ad::autodiff(f, s); o(r(0, 0), std::sin(X[0]) * X[0]); o(r(0, 1), std::sin(X[1]) * X[1]);'
      'o(v.get_adj(0, 0), X[2] * (std::cos(X[0]) * X[0] + std::sin(X[0]))); o(v.get_adj(0, 1), X[3] * (std::cos(X[1]) * X[1] + std::sin(X[1])));', 4)
    A('glue_copy', 'VS a(X[0]), b(X[1]), w; auto e = ad::bind((w = a * b, w * w + ad::sin(w))); auto f = e; { auto g = e; (void)g; } o(ad::autodiff(f), X[0]*X[1]*X[0]*X[1] + std::sin(X[0]*X[1])); o(a.get_adj(), (2.*X[0]*X[1] + std::cos(X[0]*X[1])) * X[1]);', 2)
    A('stat_copy', 'VV a(2); setv(a, X); VS m(X[2]); auto e = ad::bind(ad::normal_adj_log_pdf(a, m, 2.)); auto f = e; o(ad::autodiff(f), -0.5*((X[0]-X[2])*(X[0]-X[2]) + (X[1]-X[2])*(X[1]-X[2]))/4. - 2.*std::log(2.)); o(m.get_adj(), ((X[0]-X[2]) + (X[1]-X[2]))/4.);', 2)
    A('if_copy', 'VS a(X[0]), b(X[1]); auto e = ad::bind(ad::if_else(a < b, a * b, ad::sin(a)) * b); auto f = e; { auto g = e; (void)g; } o(ad::autodiff(f), (X[0] < X[1] ? X[0]*X[1] : std::sin(X[0])) * X[1]); o(a.get_adj(), (X[0] < X[1] ? X[1] : std::cos(X[0])) * X[1]);', 2)
    A('prod_copy', 'VV a(2); setv(a, X); auto e = ad::bind(ad::prod(ad::sin(a)) * ad::sum(a)); auto f = e; { auto g = e; (void)g; } o(ad::autodiff(f), std::sin(X[0]) * std::sin(X[1]) * (X[0] + X[1])); o(a.get_adj()(0), std::cos(X[0]) * std::sin(X[1]) * (X[0] + X[1]) + std::sin(X[0]) * std::sin(X[1]));', 2)
    # the unbound original is not disturbed, and binding two expressions that share a leaf is independent
    A('raw', 'VS a(X[0]), b(X[1]); auto r = a * b + ad::sin(a); auto e = ad::bind(r); auto f = ad::bind(r); o(ad::autodiff(e), X[0]*X[1] + std::sin(X[0])); a.get() = X[2]; o(ad::evaluate(f), X[2]*X[1] + std::sin(X[2])); o(a.get_adj(), X[1] + std::cos(X[0]));', 3)
    A('manual', 'VS a(X[0]), b(X[1]); auto r = ad::exp(a * b) * a; auto n = r.bind_cache_size(); std::vector<double> v(n(0)), d(n(1)); r.bind_cache({v.data(), d.data()}); o(ad::autodiff(r), std::exp(X[0]*X[1])*X[0]); o(b.get_adj(), std::exp(X[0]*X[1])*X[0]*X[0]);', 2)
    A('rebind', 'VS a(X[0]), b(X[1]); auto r = ad::exp(a * b) * a; { std::vector<double> v(9), d(9); r.bind_cache({v.data(), d.data()}); ad::autodiff(r); } double v[9], d[9]; r.bind_cache({v, d}); a.reset_adj(); b.reset_adj(); o(ad::autodiff(r), std::exp(X[0]*X[1])*X[0]); o(b.get_adj(), std::exp(X[0]*X[1])*X[0]*X[0]);', 2)
    return out


# ---------------------------------------------------------------- differentiation interface
def api(tier='quick'):
    out = []

    def A(name, code, n, **kw):
        out.append(ww('api_' + name, 'Outp o{k.got, k.want}; const double* X = k.x; (void)X; ' + code, n, pre=HELP, **kw))
    A0 = 'VS a(X[0]), b(X[1]); '
    f, fa, fb = 'std::sin(X[0]*X[1])', '(std::cos(X[0]*X[1])*X[1])', '(std::cos(X[0]*X[1])*X[0])'
    E = 'ad::sin(a * b)'
    out_ = 'o(a.get_adj(), %s); o(b.get_adj(), %s); '
    d1, ds = out_ % (fa, fb), out_ % ('X[2]*' + fa, 'X[2]*' + fb)
    A('bound_default', A0 + 'auto e = ad::bind(%s); o(ad::autodiff(e), %s); %s' % (E, f, d1), 3)
    A('bound_seed', A0 + 'auto e = ad::bind(%s); o(ad::autodiff(e, X[2]), %s); %s' % (E, f, ds), 3)
    A('rvalue_default', A0 + 'o(ad::autodiff(ad::bind(%s)), %s); %s' % (E, f, d1), 3)
    A('rvalue_seed', A0 + 'o(ad::autodiff(ad::bind(%s), X[2]), %s); %s' % (E, f, ds), 3)
    raw = A0 + 'auto e = %s; auto n = e.bind_cache_size(); std::vector<double> v(n(0)), d(n(1)); e.bind_cache({v.data(), d.data()}); ' % E
    A('raw_default', raw + 'o(ad::autodiff(e), %s); %s' % (f, d1), 3)
    A('raw_seed', raw + 'o(ad::autodiff(e, X[2]), %s); %s' % (f, ds), 3)
    A('raw_split', raw + 'o(ad::evaluate(e), %s); ad::evaluate_adj(e); %s' % (f, d1), 3)
    A('raw_split_seed', raw + 'o(ad::evaluate(e), %s); ad::evaluate_adj(e, X[2]); %s' % (f, ds), 3)
    A('bound_split', A0 + 'auto e = ad::bind(%s); o(ad::evaluate(e), %s); ad::evaluate_adj(e); %s' % (E, f, d1), 3)
    A('bound_split_seed', A0 + 'auto e = ad::bind(%s); o(ad::evaluate(e), %s); ad::evaluate_adj(e, X[2]); %s' % (E, f, ds), 3)
    A('rvalue_eval', A0 + 'o(ad::evaluate(ad::bind(%s)), %s); o(a.get_adj(), 0); o(b.get_adj(), 0);' % (E, f), 3)
    # what is returned is a value, not a view of storage that dies with the temporary
    A('rvalue_eval_kept', A0 + 'auto&& r = ad::evaluate(ad::bind(%s)); std::vector<double> other(4, X[3]); o(r, %s); o(other[1], X[3]);' % (E, f), 2)
    A('rvalue_kept', A0 + 'auto&& r = ad::autodiff(ad::bind(%s)); std::vector<double> other(4, X[3]); o(r, %s); o(other[1], X[3]); %s' % (E, f, d1), 4)
    A('rvalue_seed_kept', A0 + 'auto&& r = ad::autodiff(ad::bind(%s), X[2]); std::vector<double> other(4, X[3]); o(r, %s); o(other[1], X[3]); %s' % (E, f, ds), 4)
    A('int_seed', A0 + 'auto e = ad::bind(%s); o(ad::autodiff(e, 3), %s); %s' % (E, f, out_ % ('3.*' + fa, '3.*' + fb)), 3)
    A('accumulate', A0 + 'auto e = ad::bind(%s); ad::autodiff(e, X[2]); ad::autodiff(e, X[3]); %s' % (E, out_ % ('(X[2]+X[3])*' + fa, '(X[2]+X[3])*' + fb)), 2)
    A('initial', A0 + 'a.get_adj() = X[3]; b.get_adj() = X[4]; auto e = ad::bind(%s); ad::autodiff(e); %s' % (E, out_ % ('X[3]+' + fa, 'X[4]+' + fb)), 2)
    A('reset', A0 + 'auto e = ad::bind(%s); ad::autodiff(e, X[2]); a.reset_adj(); b.reset_adj(); ad::autodiff(e); %s' % (E, d1), 2)
    A('evaluate_only', A0 + 'a.get_adj() = X[3]; auto e = ad::bind(%s); o(ad::evaluate(e), %s); o(ad::evaluate(e), %s); o(a.get_adj(), X[3]); o(b.get_adj(), 0); o(a.get(), X[0]);' % (E, f, f), 5)
    A('leaf', A0 + 'auto e = ad::bind(a + 0.); o(ad::autodiff(e, X[2]), X[0]); o(a.get_adj(), X[2]); o(ad::evaluate(b), X[1]); ad::evaluate_adj(b, X[3]); o(b.get_adj(), X[3]); ad::autodiff(b); o(b.get_adj(), X[3] + 1.);', 5)
    # vector and matrix expressions
    for kd, mk, seed, ty in (('v', 'VV a(2), b(2); setv(a, X); setv(b, X + 2); ', 'Eigen::ArrayXd s(2); s << X[4], X[5]; ', 'v'),
                             ('m', 'VM a(2, 1), b(2, 1); setm(a, X); setm(b, X + 2); ', 'Eigen::ArrayXXd s(2, 1); s << X[4], X[5]; ', 'm')):
        ev = lambda r: ''.join('o(%s.data()[%d], X[%d] * std::sin(X[%d])); ' % (r, i, i, i + 2) for i in range(2))
        dv = ''.join('o(a.data_adj()[%d], X[%d] * std::sin(X[%d])); o(b.data_adj()[%d], X[%d] * X[%d] * std::cos(X[%d])); ' % (i, 4 + i, 2 + i, i, 4 + i, i, 2 + i) for i in range(2))
        e = 'a * ad::sin(b)'
        A(kd + '_bound', mk + seed + 'auto e = ad::bind(%s); auto r = ad::autodiff(e, s); %s%s' % (e, ev('r'), dv), 6)
        A(kd + '_split', mk + seed + 'auto e = ad::bind(%s); auto r = ad::evaluate(e); ad::evaluate_adj(e, s); %s%s' % (e, ev('r'), dv), 6)
        A(kd + '_raw', mk + seed + 'auto e = %s; auto n = e.bind_cache_size(); std::vector<double> v(n(0)), d(n(1)); e.bind_cache({v.data(), d.data()}); auto r = ad::autodiff(e, s); %s%s' % (e, ev('r'), dv), 6)
        A(kd + '_rawsplit', mk + seed + 'auto e = %s; auto n = e.bind_cache_size(); std::vector<double> v(n(0)), d(n(1)); e.bind_cache({v.data(), d.data()}); auto r = ad::evaluate(e); ad::evaluate_adj(e, s); %s%s' % (e, ev('r'), dv), 6)
        A(kd + '_seedexpr', mk + seed + 'auto e = ad::bind(%s); ad::autodiff(e, s * 2.); %s' % (e, dv.replace('X[4]', '2. * X[4]').replace('X[5]', '2. * X[5]').replace('data_adj()[2. * ', 'data_adj()[')), 4)
        A(kd + '_rvalue', mk + seed + 'ad::autodiff(ad::bind(%s), s); %s' % (e, dv), 4)
        A(kd + '_twice', mk + seed + 'auto e = ad::bind(%s); ad::autodiff(e, s); ad::autodiff(e, s); %s' % (e, dv.replace(', X[', ', 2. * X[')), 4)
        A(kd + '_value', mk + 'auto e = ad::bind(%s); auto r = ad::evaluate(e); %s o(a.data_adj()[0], 0); o(b.data_adj()[1], 0); o(r.rows(), 2); o(r.cols(), 1);' % (e, ev('r')), 6)
    A('bs', 'VS S(X[0]); std::vector<VS> c; c.emplace_back(); c.emplace_back(); auto Phi = [](const auto& x) { return 0.5 * (ad::erf(x / std::sqrt(2.)) + 1.); };'
      'auto e = ad::bind((c[0] = ad::log(S / X[1]), c[1] = c[0] + X[2], S * Phi(c[1]) - X[1] * Phi(c[0]))); o(ad::autodiff(e), X[0]*0.5*(std::erf((std::log(X[0]/X[1])+X[2])/std::sqrt(2.))+1.) - X[1]*0.5*(std::erf(std::log(X[0]/X[1])/std::sqrt(2.))+1.));', 1)
    return out

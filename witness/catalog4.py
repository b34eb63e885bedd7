"""Ill-shaped uses, heap ownership, the documentation's applications, constants that view caller data."""
from dsl import Builder as B, Witness
import catalog3 as c3


# ---------------------------------------------------------------- sizes that disagree at run time
def mismatch(tier='quick'):
    out = []

    def A(name, decl, expr, dom=''):
        body = ('k.got[15] = (%s) ? 1. : 0.; ' % dom if dom else '') + 'wit::trap([](Mem m) { %s return %s; }, k);' % (decl, expr)
        w = Witness('mm_' + name, body, nx=16, ny=1, rules=['traps'], **(dict(assume=1) if dom else {}))
        w.src_expr = expr
        out.append(w)
    V = lambda n, o, k: 'V %s(m.x+%d, m.ax+%d, %d); ' % (n, o, o, k)
    M = lambda n, o, r, c: 'M %s(m.x+%d, m.ax+%d, %d, %d); ' % (n, o, o, r, c)
    vv = V('a', 0, 3) + V('b', 4, 2)
    vw = V('a', 0, 2) + V('b', 4, 3)
    mr = M('a', 0, 2, 2) + M('b', 4, 3, 2)
    mc = M('a', 0, 2, 2) + M('b', 4, 2, 3)
    one = [('v31', V('a', 0, 3) + V('b', 4, 1)), ('v13', V('a', 0, 1) + V('b', 4, 3)), ('m11', M('a', 0, 2, 2) + M('b', 4, 1, 1)),
           ('m12', M('a', 0, 2, 2) + M('b', 4, 1, 2)), ('m21', M('a', 0, 2, 1) + M('b', 4, 2, 2)), ('mtr', M('a', 0, 2, 3) + M('b', 6, 3, 2))]
    cv = 'V a(m.x, m.ax, 3); Eigen::VectorXd b(2); b << m.c[0], m.c[1]; '
    for o, op in dict(add='+', sub='-', mul='*', div='/', lt='<', eq='==').items():
        for n, d in [('vv', vv), ('vw', vw), ('mr', mr), ('mc', mc)] + one:
            A('%s_%s' % (o, n), d, 'a %s b' % op)
        A('%s_e' % o, vv, 'ad::sum(ad::sin(a) %s ad::exp(b))' % op if o not in ('lt', 'eq') else 'ad::sin(a) %s ad::exp(b)' % op)
        A('%s_c' % o, cv, 'a %s ad::constant(b)' % op)
        A('%s_cl' % o, cv, 'ad::constant(b) %s a' % op)
    for n, d in [('vv', vv), ('vw', vw), ('mr', mr), ('mc', mc)] + one:
        A('if_' + n, 'S s(m.x+12, m.ax+12); ' + d, 'ad::if_else(s < 1., a, b)')
        A('if_e_' + n, 'S s(m.x+12, m.ax+12); ' + d, 'ad::if_else(s < 1., ad::sin(a), ad::exp(b))')
        A('assign_' + n, d, '(a = ad::sin(b))')
        for o in ('+=', '-=', '*=', '/='):
            A('op%s_%s' % (dict(zip(('+=', '-=', '*=', '/='), 'asmd'))[o], n), d, '(a %s ad::sin(b))' % o)
    A('dot_mm', M('a', 0, 2, 2) + M('b', 4, 3, 2), 'ad::dot(a, b)')
    A('dot_mm2', M('a', 0, 2, 3) + M('b', 8, 2, 2), 'ad::dot(a, b)')
    A('dot_mv', M('a', 0, 2, 2) + V('b', 4, 3), 'ad::dot(a, b)')
    A('dot_tv', V('a', 0, 3) + V('b', 4, 2), 'ad::dot(ad::transpose(a), b)')
    A('dot_m1', M('a', 0, 2, 2) + M('b', 4, 1, 2), 'ad::dot(a, b)')
    A('dot_v1', M('a', 0, 2, 2) + V('b', 4, 1), 'ad::dot(a, b)')
    A('dot_row', M('a', 0, 1, 3) + V('b', 4, 2), 'ad::dot(a, b)')
    A('dot_mtr', M('a', 0, 2, 3) + M('b', 6, 2, 3), 'ad::dot(a, b)')
    A('dot_mc', V('b', 4, 2) + M('a', 0, 2, 3), 'ad::dot(a, ad::constant_view(m.c, 2))')
    A('dot_mcc', M('a', 0, 2, 3), 'ad::dot(ad::constant_view(m.c, 2, 3), a)')
    for f in ('sum', 'prod'):
        A(f + '_range_v', 'std::vector<V> r{V(m.x, m.ax, 2), V(m.x+4, m.ax+4, 3)}; ', 'ad::sum(ad::%s(r.begin(), r.end(), [](const auto& e) { return ad::sin(e); }))' % f)
        A(f + '_range_v2', 'std::vector<V> r{V(m.x, m.ax, 3), V(m.x+4, m.ax+4, 1)}; ', 'ad::sum(ad::%s(r.begin(), r.end(), [](const auto& e) { return e; }))' % f)
        A(f + '_range_m', 'std::vector<M> r{M(m.x, m.ax, 2, 1), M(m.x+4, m.ax+4, 1, 2)}; ', 'ad::sum(ad::%s(r.begin(), r.end(), [](const auto& e) { return ad::sin(e); }))' % f)
    A('bern_vv', 'Eigen::VectorXd q(2); q << 0., 1.; ' + V('b', 4, 3), 'ad::bernoulli_adj_log_pdf(q, b)')
    A('bern_vv2', 'Eigen::VectorXd q(3); q << 0., 1., 1.; ' + V('b', 4, 2), 'ad::bernoulli_adj_log_pdf(q, b)')
    A('bern_vv3', 'Eigen::VectorXd q(3); q << 0., 1., 1.; ' + V('b', 4, 1), 'ad::bernoulli_adj_log_pdf(q, b)')
    A('dot_cm', 'Eigen::MatrixXd q(2, 3); q.setOnes(); ' + V('b', 4, 2), 'ad::dot(ad::constant(q), b)')
    for f in ('det', 'log_det'):
        p = 'Det' if f == 'det' else 'LogDet'
        A(f + '_lu', M('a', 0, 2, 3), 'ad::%s(a)' % f)
        A(f + '_llt', M('a', 0, 3, 2), 'ad::%s<ad::%sLLT>(a)' % (f, p))
        A(f + '_ldlt', M('a', 0, 2, 3), 'ad::%s<ad::%sLDLT>(a)' % (f, p))
    pos = lambda o, k: ' && '.join('k.x[%d] > 0' % (o + i) for i in range(k))
    for d in ('normal', 'cauchy', 'uniform'):
        D = (lambda x: x) if d != 'uniform' else (lambda x: '')
        A(d + '_vvs', vv + 'S s(m.x+12, m.ax+12); ', 'ad::%s_adj_log_pdf(a, b, s)' % d, D(pos(12, 1)))
        A(d + '_vsv', vv + 'S s(m.x+12, m.ax+12); ', 'ad::%s_adj_log_pdf(a, s, b)' % d, D(pos(4, 2)))
        A(d + '_vvv', vv + V('q', 8, 3), 'ad::%s_adj_log_pdf(a, q, b)' % d, D(pos(4, 2)))
        A(d + '_vvv2', vv + V('q', 8, 3), 'ad::%s_adj_log_pdf(a, b, q)' % d, D(pos(8, 3)))
        A(d + '_vvv3', vw + V('q', 8, 3), 'ad::%s_adj_log_pdf(a, b, q)' % d, D(pos(8, 3)))
    A('normal_mat', V('a', 0, 2) + M('q', 4, 2, 3) + 'S s(m.x+12, m.ax+12); ', 'ad::normal_adj_log_pdf(a, s, q)')
    A('normal_mat2', V('a', 0, 3) + M('q', 4, 2, 2) + 'S s(m.x+12, m.ax+12); ', 'ad::normal_adj_log_pdf(a, s, q)')
    A('normal_mat3', vv + M('q', 6, 3, 3), 'ad::normal_adj_log_pdf(a, b, q)')
    A('normal_mat4', V('a', 0, 2) + V('b', 2, 2) + M('q', 6, 3, 3), 'ad::normal_adj_log_pdf(a, b, q)')
    A('wishart', M('a', 0, 2, 2) + M('q', 4, 3, 3), 'ad::wishart_adj_log_pdf(a, q, 5.)',
      'k.x[0] > 0 && k.x[0] * k.x[3] > k.x[1] * k.x[1] && k.x[4] > 0 && k.x[4] * k.x[8] > k.x[5] * k.x[5] && '
      'k.x[12] > k.x[6] * k.x[6] / k.x[4] + (k.x[9] - k.x[5] * k.x[6] / k.x[4]) * (k.x[9] - k.x[5] * k.x[6] / k.x[4]) / (k.x[8] - k.x[5] * k.x[5] / k.x[4])')
    A('wishart2', M('a', 0, 2, 3) + M('q', 6, 2, 2), 'ad::wishart_adj_log_pdf(a, q, 5.)')
    A('wishart3', M('a', 0, 2, 2) + M('q', 6, 2, 3), 'ad::wishart_adj_log_pdf(a, q, 5.)')
    A('head', V('a', 0, 2), 'ad::sum(a.head(3))')
    A('tail', V('a', 0, 2), 'ad::sum(a.tail(3))')
    A('elem', V('a', 0, 2), 'a(2) * 2.')
    A('elem2', V('a', 0, 2), 'a[5] * 2.')
    return out


# ---------------------------------------------------------------- heap ownership
def heap(tier, builders):
    ws = []
    for g in (c3.var, c3.bound, c3.api):
        for w in g(tier):
            w.name += '__heap'
            w.rules = ['issues', 'leak']
            w.src_expr, w.family = w.body, g.__name__
            ws.append(w)
    for b in builders:
        if tier == 'quick' and ('slow' in b.tags or 'lone' in b.tags):
            continue
        w = b.w('heap', b.zero() + 'wit::api(%s, k);' % b.lam(), ['issues', 'leak'])
        w.src_expr, w.family = b.expr, b.family
        ws.append(w)
        w = b.w('heapc', b.zero() + 'wit::apicopy(%s, k);' % b.lam(), ['issues', 'leak'])
        w.src_expr, w.family = b.expr, b.family
        ws.append(w)
    return ws


# ---------------------------------------------------------------- whole programs, the documentation's among them
def apps(tier='quick'):
    out = []

    def A(name, leaves, expr, osh, want, **k):
        out.append(B('app_' + name, leaves, expr, osh, want, **k))
    # Black-Scholes with placeholders: c = K, sigma, tau, r
    phi = ('template <class T> static inline auto Phi(const T& x) { return 0.5 * (ad::erf(x / std::sqrt(2.)) + 1.); }\n'
           'static inline double phi(double x) { return 0.5 * (std::erf(x / std::sqrt(2.)) + 1.); }\n')
    common = ('q0 = ad::log(S_ / m.c[0]), q1 = (q0 + ((m.c[3] + m.c[1] * m.c[1] / 2.) * m.c[2])) / (m.c[1] * std::sqrt(m.c[2])), '
              'q2 = q1 - (m.c[1] * std::sqrt(m.c[2]))')
    d1 = '((std::log(S_[0]/c[0]) + (c[3]+c[1]*c[1]/2.)*c[2]) / (c[1]*std::sqrt(c[2])))'
    d2 = '(%s - c[1]*std::sqrt(c[2]))' % d1
    bs = dict(pre=phi, ph='q0:s q1:s q2:s', nc=4, decl='const double PV = m.c[0] * std::exp(-m.c[3] * m.c[2]);',
              assume='S_[0] > 0 && c[0] > 0 && c[1] > 0 && c[2] > 0')
    pv = 'c[0]*std::exp(-c[3]*c[2])'
    A('bs_call', 'S_:s', '(%s, Phi(q1) * S_ - Phi(q2) * PV)' % common, 's', ['phi(%s)*S_[0] - phi(%s)*%s' % (d1, d2, pv)], **bs)
    A('bs_put', 'S_:s', '(%s, Phi(-q2) * PV - Phi(-q1) * S_)' % common, 's', ['phi(-%s)*%s - phi(-%s)*S_[0]' % (d2, pv, d1)], **bs)
    A('bs_nested', 'S_:s', '((%s), Phi(q1) * S_ - Phi(q2) * PV)' % common, 's', ['phi(%s)*S_[0] - phi(%s)*%s' % (d1, d2, pv)], **bs)
    # x^T Sigma x
    A('quad', 'a:m2,1', 'ad::dot(ad::dot(ad::transpose(a), ad::constant_view(m.c, 2, 2)), a)', 'm1,1',
      ['a[0]*c[0]*a[0] + a[0]*c[2]*a[1] + a[1]*c[1]*a[0] + a[1]*c[3]*a[1]'], nc=4)
    # linear regression
    A('reg', 'a:m2,1', 'ad::pow<2>(ad::constant_view(m.c+2, 1, 1) - ad::dot(ad::constant_view(m.c, 1, 2), a))', 'm1,1',
      ['(c[2]-(c[0]*a[0]+c[1]*a[1]))*(c[2]-(c[0]*a[0]+c[1]*a[1]))'], nc=3)
    rs = lambda i: '(c[%d]-(c[%d]*a[0]+c[%d]*a[1]+b[0]))' % (6 + i, i, i + 3)
    A('reg_sum', 'a:v2 b:s', 'ad::sum(ad::pow<2>(ad::constant_view(m.c+6, 3) - (ad::dot(ad::constant_view(m.c, 3, 2), a) + b)))', 's',
      ['+'.join(rs(i) + '*' + rs(i) for i in range(3))], nc=9)
    A('reg_norm', 'a:v2 b:s', 'ad::norm(ad::constant_view(m.c+6, 3) - (ad::dot(ad::constant_view(m.c, 3, 2), a) + b))', 's',
      ['+'.join(rs(i) + '*' + rs(i) for i in range(3))], nc=9)
    A('reg_lik', 'a:v2 b:s s:s', 'ad::normal_adj_log_pdf(ad::constant_view(m.c+6, 3), ad::dot(ad::constant_view(m.c, 3, 2), a) + b, s)', 's',
      ['s[0] > 0 ? -0.5*(%s)/(s[0]*s[0]) - 3*std::log(s[0]) : -%s' % ('+'.join(rs(i) + '*' + rs(i) for i in range(3)), 'std::numeric_limits<double>::infinity()')],
      nc=9, assume='s[0] > 0')
    # a posterior: priors and likelihood glued over placeholders
    A('post', 'a:s b:s s:s', '(t0 = a * m.c[0] + b, t1 = ad::exp(s), ad::normal_adj_log_pdf(m.c[1], t0, t1) + ad::normal_adj_log_pdf(a, 0., 1.) + '
      'ad::cauchy_adj_log_pdf(b, 0., 2.) - t1)', 's',
      ['-0.5*(c[1]-(a[0]*c[0]+b[0]))*(c[1]-(a[0]*c[0]+b[0]))/(std::exp(s[0])*std::exp(s[0])) - std::log(std::exp(s[0])) - 0.5*a[0]*a[0] '
       '- std::log(2.+b[0]*b[0]/2.) - std::exp(s[0])'], nc=2, ph='t0:s t1:s')
    # one layer, then the three-layer network with a jump connection
    sg = '1./(1.+std::exp(-(%s)))'
    l1 = lambda i: '(A[%d]*c[0]+A[%d]*c[1]+b[%d])' % (i, i + 2, i)
    A('layer', 'A:m2,2 b:m2,1', 'ad::sigmoid(ad::dot(A, ad::constant_view(m.c, 2, 1)) + b)', 'm2,1', [sg % l1(i) for i in range(2)], nc=2)
    y1 = ['(' + sg % l1(i) + ')' for i in range(2)]
    y2 = ['((' + sg % 'C[%d]*%s+C[%d]*%s+d[%d]' % (i, y1[0], i + 2, y1[1], i) + ')+%s)' % l1(i) for i in range(2)]
    y3 = '(E[0]*%s+E[1]*%s+f[0])' % tuple(y2)
    A('nn', 'A:m2,2 b:m2,1 C:m2,2 d:m2,1 E:m1,2 f:m1,1', 'ad::pow<2>(ad::constant_view(m.c+2, 1, 1) - (ad::dot(E, ad::sigmoid(ad::dot(C, ad::sigmoid('
      'ad::dot(A, ad::constant_view(m.c, 2, 1)) + b)) + d) + (ad::dot(A, ad::constant_view(m.c, 2, 1)) + b)) + f))', 'm1,1',
      ['(c[2]-%s)*(c[2]-%s)' % (y3, y3)], nc=3)
    A('nn_shared', 'A:m2,2 b:m2,1 E:m1,2', '[&]{ auto x1 = ad::dot(A, ad::constant_view(m.c, 2, 1)) + b; auto y1 = ad::sigmoid(x1) + x1; return ad::dot(E, y1); }()', 'm1,1',
      ['E[0]*(%s+%s)+E[1]*(%s+%s)' % (y1[0], l1(0), y1[1], l1(1))], nc=2)
    # the documentation's longer example and its placeholder examples
    w = ['(M_[%d]*u[0]+M_[%d]*u[1]+M_[%d]*u[2]+v[%d])' % (i, i + 2, i + 4, i) for i in range(2)]
    A('matprog', 'u:v3 v:v2 M_:m2,3', '(w = ad::dot(M_, u) + v, r = ad::sum(w) * ad::sum(w * v))', 's',
      ['(%s+%s)*(%s*v[0]+%s*v[1])' % (w[0], w[1], w[0], w[1])], ph='w:v2 r:s')
    A('sincos', 'x_:s v:v3', 'ad::sin(x_) + ad::cos(v)', 'v3', ['std::sin(x_[0])+std::cos(v[%d])' % i for i in range(3)])
    cs = '+'.join('std::cos(v[%d])' % i for i in range(3))
    A('sincos_sum', 'x_:s v:v3', 'ad::sin(x_) + ad::cos(v) + ad::sum(ad::cos(v))', 'v3', ['std::sin(x_[0])+std::cos(v[%d])+(%s)' % (i, cs) for i in range(3)])
    A('sincos_ph', 'x_:s v:v3', '(w = ad::cos(v), ad::sin(x_) + w + ad::sum(w))', 'v3', ['std::sin(x_[0])+std::cos(v[%d])+(%s)' % (i, cs) for i in range(3)], ph='w:v3')
    # numerical staples
    A('lse', 'a:v3', 'ad::log(ad::sum(ad::exp(a)))', 's', ['std::log(std::exp(a[0])+std::exp(a[1])+std::exp(a[2]))'])
    A('softmax', 'a:v3', 'ad::exp(a) / ad::sum(ad::exp(a))', 'v3', ['std::exp(a[%d])/(std::exp(a[0])+std::exp(a[1])+std::exp(a[2]))' % i for i in range(3)])
    A('softmax_ph', 'a:v3', '(w = ad::exp(a), w / ad::sum(w))', 'v3', ['std::exp(a[%d])/(std::exp(a[0])+std::exp(a[1])+std::exp(a[2]))' % i for i in range(3)], ph='w:v3')
    A('rosen', 'a:v3', 'ad::sum(100. * ad::pow<2>(a.tail(2) - ad::pow<2>(a.head(2))) + ad::pow<2>(1. - a.head(2)))', 's',
      ['+'.join('100.*(a[%d]-a[%d]*a[%d])*(a[%d]-a[%d]*a[%d])+(1.-a[%d])*(1.-a[%d])' % (i + 1, i, i, i + 1, i, i, i, i) for i in range(2))])
    A('mixture', 'a:s b:s', 'ad::log(0.3 * ad::exp(ad::normal_adj_log_pdf(m.c[0], a, 1.)) + 0.7 * ad::exp(ad::normal_adj_log_pdf(m.c[0], b, 2.)))', 's',
      ['std::log(0.3*std::exp(-0.5*(c[0]-a[0])*(c[0]-a[0])) + 0.7*std::exp(-0.5*(c[0]-b[0])*(c[0]-b[0])/4. - std::log(2.)))'], nc=1)
    A('horner', 'a:s', '(t = a * m.c[2] + m.c[1], t = t * a + m.c[0])' if False else '(t = a * m.c[2] + m.c[1], t * a + m.c[0])', 's', ['c[0]+c[1]*a[0]+c[2]*a[0]*a[0]'], nc=3, ph='t:s')
    A('huber', 'a:s', 'ad::if_else((a < 1.) && (a > -1.), 0.5 * a * a, ad::if_else(a > 0., a, -a) - 0.5)', 's',
      ['(a[0]<1. && a[0]>-1.) ? 0.5*a[0]*a[0] : (a[0]>0. ? a[0] : -a[0]) - 0.5'])
    A('relu', 'A:m2,2 b:v2', '[&]{ auto h = ad::dot(A, b); return ad::sum(ad::if_else(ad::sum(h) > 0., h, h * 0.1)); }()', 's',
      ['(A[0]*b[0]+A[2]*b[1]+A[1]*b[0]+A[3]*b[1] > 0.) ? A[0]*b[0]+A[2]*b[1]+A[1]*b[0]+A[3]*b[1] : 0.1*(A[0]*b[0]+A[2]*b[1]+A[1]*b[0]+A[3]*b[1])'])
    A('ar1', 'p:s s:s h:v3', 'ad::sum(r.begin(), r.end(), [&](int i) { return ad::normal_adj_log_pdf(h[i], p * h[i - 1], s); })', 's',
      ['s[0] > 0 ? -0.5*((h[1]-p[0]*h[0])*(h[1]-p[0]*h[0])+(h[2]-p[0]*h[1])*(h[2]-p[0]*h[1]))/(s[0]*s[0]) - 2.*std::log(s[0]) : -std::numeric_limits<double>::infinity()'],
      decl='std::vector<int> r{1, 2};', assume='s[0] > 0')
    A('speel', 'a:v4', 'ad::prod(r.begin(), r.end(), [&](int i) { return ad::sin(a[i]); })', 's', ['*'.join('std::sin(a[%d])' % i for i in range(4))],
      decl='std::vector<int> r{0, 1, 2, 3};')
    A('poly_acc', 'a:s', '(t = 1. + 0. * a, ad::for_each(r.begin(), r.end(), [&](int i) { return t *= a + (double) i; }), t * t)', 's',
      ['(a[0]+1.)*(a[0]+2.)*(a[0]+3.)*(a[0]+1.)*(a[0]+2.)*(a[0]+3.)'], ph='t:s', decl='std::vector<int> r{1, 2, 3};')
    return out


# ---------------------------------------------------------------- constants that view storage of the caller
def cviews(tier='quick'):
    """The viewed cells are declared as leaves, so that re-evaluation changes them too; they take no gradient."""
    out = []
    A = lambda name, leaves, expr, osh, **k: out.append(B('cv_' + name, leaves, expr, osh, **k))
    v = 'ad::constant_view(m.x+%d, %d)'
    mt = 'ad::constant_view(m.x+%d, %d, %d)'
    for o, op in dict(add='+', sub='-', mul='*', div='/').items():
        A('%s_vr' % o, 'a:v2 d:v2', 'a %s %s' % (op, v % (2, 2)), 'v2')
        A('%s_vl' % o, 'a:v2 d:v2', '%s %s a' % (v % (2, 2), op), 'v2')
        A('%s_sr' % o, 'a:s d:v2', 'a %s %s' % (op, v % (1, 2)), 'v2')
        A('%s_mr' % o, 'a:m2,2 d:m2,2', 'a %s %s' % (op, mt % (4, 2, 2)), 'm2,2')
        A('%s_e' % o, 'a:v2 d:v2', 'ad::sum(ad::sin(a) %s %s)' % (op, v % (2, 2)), 's')
    A('dot_l', 'a:v2 d:m2,2', 'ad::dot(%s, a)' % (mt % (2, 2, 2)), 'v2')
    A('dot_r', 'a:m2,2 d:v2', 'ad::dot(a, %s)' % (v % (4, 2)), 'v2')
    A('dot_rm', 'a:m2,2 d:m2,2', 'ad::dot(a, %s)' % (mt % (4, 2, 2)), 'm2,2')
    A('cmp', 'a:v2 d:v2', 'ad::if_else(ad::sum(a) < ad::sum(a * %s), a, a * 2.)' % (v % (2, 2)), 'v2')
    A('if', 'a:v2 z:s d:v2', 'ad::if_else(z < 1., %s, a)' % (v % (3, 2)), 'v2')
    A('assign', 'a:v2 d:v2', '(w = a * %s, w * w)' % (v % (2, 2)), 'v2', ph='w:v2')
    A('opeq', 'a:v2 d:v2', '(w = a + 0., w *= a * %s, ad::sum(w))' % (v % (2, 2)), 's', ph='w:v2')
    A('glue', 'a:v2 d:v2', '(a * 2., a * %s)' % (v % (2, 2)), 'v2')
    A('reg', 'a:m2,1 d:m1,3', 'ad::pow<2>(%s - ad::dot(%s, a))' % (mt % (4, 1, 1), mt % (2, 1, 2)), 'm1,1')
    A('nn', 'A:m2,2 b:m2,1 d:m2,1', 'ad::sigmoid(ad::dot(A, %s) + b)' % (mt % (6, 2, 1)), 'm2,1')
    A('range', 'a:v2 d:v2', 'ad::sum(r.begin(), r.end(), [&](int i) { return ad::sum(a * %s) * a[i]; })' % (v % (2, 2)), 's', decl='std::vector<int> r{0, 1};')
    A('each', 'a:v2 d:v2', 'ad::for_each(r.begin(), r.end(), [&](int i) { return a * %s * a[i]; })' % (v % (2, 2)), 'v2', decl='std::vector<int> r{0, 1};')
    A('plain', 'a:v2 d:v2', 'a + (%s)' % (v % (2, 2)), 'v2')
    return out

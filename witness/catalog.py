"""Catalogue of user-level expressions, grouped by the part of the library they exercise."""
from dsl import Builder as B, sizes

INF = 'std::numeric_limits<double>::infinity()'

UN = {  # name: (call, reference as a function of a C++ scalar expression)
    'neg': ('-', '-({0})'),
    'sin': ('ad::sin', 'std::sin({0})'), 'cos': ('ad::cos', 'std::cos({0})'), 'tan': ('ad::tan', 'std::tan({0})'),
    'asin': ('ad::asin', 'std::asin({0})'), 'acos': ('ad::acos', 'std::acos({0})'), 'atan': ('ad::atan', 'std::atan({0})'),
    'exp': ('ad::exp', 'std::exp({0})'), 'log': ('ad::log', 'std::log({0})'), 'sqrt': ('ad::sqrt', 'std::sqrt({0})'),
    'erf': ('ad::erf', 'std::erf({0})'), 'sigmoid': ('ad::sigmoid', '1./(1.+std::exp(-({0})))'),
    'sinh': ('ad::sinh', 'std::sinh({0})'), 'cosh': ('ad::cosh', 'std::cosh({0})'), 'tanh': ('ad::tanh', 'std::tanh({0})'),
}


def unary(tier='quick'):
    out = []
    for f, (call, ref) in UN.items():
        out.append(B('un_%s_s' % f, 'a:s', '%s(a)' % call, 's', [ref.format('a[0]')]))
        vs = sizes([1, 3] if tier == 'quick' else [1, 2, 3, 5])
        for n in vs:
            out.append(B('un_%s_v%d' % (f, n), 'a:v%d' % n, '%s(a)' % call, 'v%d' % n,
                         [ref.format('a[%d]' % i) for i in range(n)], tags=[] if n == 3 else ['lone']))
        for r, c in ([(2, 3), (2, 2), (1, 2)] if tier == 'quick' else [(2, 3), (1, 2), (3, 1), (2, 2), (1, 1), (3, 3)]):
            out.append(B('un_%s_m%d%d' % (f, r, c), 'a:m%d,%d' % (r, c), '%s(a)' % call, 'm%d,%d' % (r, c),
                         [ref.format('a[%d]' % i) for i in range(r * c)], tags=[] if (r, c) == (2, 3) else ['lone']))
        # over a non-leaf operand
        out.append(B('un_%s_of' % f, 'a:v2 b:v2', '%s(a*b)' % call, 'v2',
                     [ref.format('a[%d]*b[%d]' % (i, i)) for i in range(2)]))
    return out


OPS = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
VEC = 'Eigen::Map<const Eigen::VectorXd>(m.c, %d)'


def binary(tier='quick'):
    out = []
    shp = {'s': 's', 'v': 'v3', 'm': 'm2,3'}
    num = {'s': 1, 'v': 3, 'm': 6}
    combos = ['ss', 'sv', 'vs', 'vv', 'sm', 'ms', 'mm']
    for o, op in OPS.items():
        for cb in combos:
            l, r = cb
            big = max(num[l], num[r])
            osh = shp[l] if num[l] == big else shp[r]
            ref = ['a[%d] %s b[%d]' % (i if l != 's' else 0, op, i if r != 's' else 0) for i in range(big)]
            out.append(B('bin_%s_%s' % (o, cb), 'a:%s b:%s' % (shp[l], shp[r]), 'a %s b' % op, osh, ref))
        # operands that are expressions, the same variable on both sides
        out.append(B('bin_%s_self' % o, 'a:v2', 'a %s a' % op, 'v2', ['a[%d] %s a[%d]' % (i, op, i) for i in range(2)]))
        out.append(B('bin_%s_selfs' % o, 'a:s', '(a*a) %s ad::exp(a)' % op, 's', ['(a[0]*a[0]) %s std::exp(a[0])' % op]))
        out.append(B('bin_%s_bcast' % o, 'a:s b:v3', '(a*a) %s ad::exp(b)' % op, 'v3',
                     ['(a[0]*a[0]) %s std::exp(b[%d])' % (op, i) for i in range(3)]))
        out.append(B('bin_%s_bcast2' % o, 'a:s b:m2,2', 'ad::exp(b) %s (a*a)' % op, 'm2,2',
                     ['std::exp(b[%d]) %s (a[0]*a[0])' % (i, op) for i in range(4)]))
        for n in sizes([1, 2] if tier == 'quick' else [1, 2, 4]):
            out.append(B('bin_%s_vv%d' % (o, n), 'a:v%d b:v%d' % (n, n), 'a %s b' % op, 'v%d' % n,
                         ['a[%d] %s b[%d]' % (i, op, i) for i in range(n)]))
            out.append(B('bin_%s_sv%d' % (o, n), 'a:s b:v%d' % n, 'a %s b' % op, 'v%d' % n,
                         ['a[0] %s b[%d]' % (op, i) for i in range(n)]))
            out.append(B('bin_%s_vs%d' % (o, n), 'a:v%d b:s' % n, 'a %s b' % op, 'v%d' % n,
                         ['a[%d] %s b[0]' % (i, op) for i in range(n)]))
        for r, c in ([(1, 3), (3, 1), (2, 2), (1, 1)]):
            out.append(B('bin_%s_mm%d%d' % (o, r, c), 'a:m%d,%d b:m%d,%d' % (r, c, r, c), 'a %s b' % op, 'm%d,%d' % (r, c),
                         ['a[%d] %s b[%d]' % (i, op, i) for i in range(r * c)], tags=['lone'] if r == c else []))
            out.append(B('bin_%s_sm%d%d' % (o, r, c), 'a:s b:m%d,%d' % (r, c), 'a %s b' % op, 'm%d,%d' % (r, c),
                         ['a[0] %s b[%d]' % (op, i) for i in range(r * c)], tags=['lone']))
            out.append(B('bin_%s_ms%d%d' % (o, r, c), 'a:m%d,%d b:s' % (r, c), 'a %s b' % op, 'm%d,%d' % (r, c),
                         ['a[%d] %s b[0]' % (i, op) for i in range(r * c)], tags=['lone']))
    return out


def binary_const(tier='quick'):
    """operators against constants of every kind, on either side"""
    out = []
    kinds = {
        'd': ('m.c[0]', 's', lambda i: 'c[0]'),
        'cs': ('ad::constant(m.c[0])', 's', lambda i: 'c[0]'),
        'cv': ('ad::constant(Eigen::VectorXd(%s))' % (VEC % 3), 'v', lambda i: 'c[%d]' % i),
        'view': ('ad::constant_view(m.c, 3)', 'v', lambda i: 'c[%d]' % i),
        'ev': ('Eigen::VectorXd(%s)' % (VEC % 3), 'v', lambda i: 'c[%d]' % i),
        'cm': ('ad::constant(Eigen::MatrixXd(Eigen::Map<const Eigen::MatrixXd>(m.c, 2, 2)))', 'm', lambda i: 'c[%d]' % i),
        'viewm': ('ad::constant_view(m.c, 2, 2)', 'm', lambda i: 'c[%d]' % i),
        'em': ('Eigen::MatrixXd(Eigen::Map<const Eigen::MatrixXd>(m.c, 2, 2))', 'm', lambda i: 'c[%d]' % i),
    }
    shp = {'s': ('s', 1), 'v': ('v3', 3), 'm': ('m2,2', 4)}
    for o, op in OPS.items():
        for kn, (ke, ks, kr) in kinds.items():
            for vs in 'svm':
                if ks != 's' and vs != 's' and ks != vs:
                    continue
                n = max(shp[ks][1], shp[vs][1])
                osh = shp[ks][0] if shp[ks][1] == n else shp[vs][0]
                vi = (lambda i: 'a[%d]' % i) if vs != 's' else (lambda i: 'a[0]')
                out.append(B('bc_%s_%s_%sl' % (o, kn, vs), 'a:%s' % shp[vs][0], '%s %s a' % (ke, op), osh,
                             ['%s %s %s' % (kr(i), op, vi(i)) for i in range(n)], nc=4))
                out.append(B('bc_%s_%s_%sr' % (o, kn, vs), 'a:%s' % shp[vs][0], 'a %s %s' % (op, ke), osh,
                             ['%s %s %s' % (vi(i), op, kr(i)) for i in range(n)], nc=4))
        out.append(B('bc_%s_int_r' % o, 'a:s', 'a %s 3' % op, 's', ['a[0] %s 3.' % op]))
        out.append(B('bc_%s_int_l' % o, 'a:s', '3 %s a' % op, 's', ['3. %s a[0]' % op]))
        out.append(B('bc_%s_int_vr' % o, 'a:v2', 'a %s 3' % op, 'v2', ['a[%d] %s 3.' % (i, op) for i in range(2)]))
        out.append(B('bc_%s_int_vl' % o, 'a:v2', '3 %s a' % op, 'v2', ['3. %s a[%d]' % (op, i) for i in range(2)]))
    return out


def _rng(leaf, n, lam):
    """range builders over a std::vector of n scalar views of vector leaf `leaf`"""
    return ('std::vector<S> r; for (int i = 0; i < %d; ++i) r.push_back(%s[i]);' % (n, leaf), lam)


def reduce_(tier='quick'):
    out = []
    ns = sizes([1, 2, 3, 4])
    for n in ns:
        terms = ['a[%d]' % i for i in range(n)]
        out.append(B('sum_v%d' % n, 'a:v%d' % n, 'ad::sum(a)', 's', ['+'.join(terms)]))
        if n <= 4:
            out.append(B('prod_v%d' % n, 'a:v%d' % n, 'ad::prod(a)', 's', ['*'.join(terms)]))
        else:
            # keep the zero-splitting finite: most factors are nonzero by construction
            out.append(B('prodx_v%d' % n, 'a:v%d' % n, 'ad::prod(ad::exp(a))', 's',
                         ['*'.join('std::exp(%s)' % t for t in terms)]))
        out.append(B('norm_v%d' % n, 'a:v%d' % n, 'ad::norm(a)', 's', ['+'.join('%s*%s' % (t, t) for t in terms)]))
        d = _rng('a', n, '')[0]
        out.append(B('sumr_%d' % n, 'a:v%d b:s' % n, 'ad::sum(r.begin(), r.end(), [&](const auto& e) { return e * b; })', 's',
                     ['(' + '+'.join(terms) + ')*b[0]'], decl=d))
        if n <= 4:
            out.append(B('prodr_%d' % n, 'a:v%d b:s' % n,
                         'ad::prod(r.begin(), r.end(), [&](const auto& e) { return e + b; })', 's',
                         ['*'.join('(%s+b[0])' % t for t in terms)], decl=d))
        else:
            out.append(B('prodrx_%d' % n, 'a:v%d b:s' % n,
                         'ad::prod(r.begin(), r.end(), [&](const auto& e) { return ad::exp(e * b); })', 's',
                         ['*'.join('std::exp(%s*b[0])' % t for t in terms)], decl=d))
    for r, c in [(2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (1, 1)]:
        tg = [] if (r, c) in ((2, 2), (1, 3), (3, 1)) else ['lone']
        t = ['a[%d]' % i for i in range(r * c)]
        out.append(B('sum_m%d%d' % (r, c), 'a:m%d,%d' % (r, c), 'ad::sum(a)', 's', ['+'.join(t)], tags=tg))
        if r * c <= 4:
            out.append(B('prod_m%d%d' % (r, c), 'a:m%d,%d' % (r, c), 'ad::prod(a)', 's', ['*'.join(t)], tags=tg))
        else:
            out.append(B('prodx_m%d%d' % (r, c), 'a:m%d,%d' % (r, c), 'ad::prod(ad::exp(a))', 's', ['*'.join('std::exp(%s)' % x for x in t)], tags=tg))
        out.append(B('norm_m%d%d' % (r, c), 'a:m%d,%d' % (r, c), 'ad::norm(a)', 's', ['+'.join('%s*%s' % (x, x) for x in t)], tags=tg))
    out.append(B('sum_s', 'a:s', 'ad::sum(a)', 's', ['a[0]']))
    out.append(B('prod_s', 'a:s', 'ad::prod(a)', 's', ['a[0]']))
    # operands that are expressions, broadcast operands
    out.append(B('sum_e', 'a:v3 b:s', 'ad::sum(a * b + a)', 's', ['(a[0]+a[1]+a[2])*b[0] + a[0]+a[1]+a[2]']))
    out.append(B('prod_e', 'a:v3 b:s', 'ad::prod(a * b)', 's', ['a[0]*a[1]*a[2]*b[0]*b[0]*b[0]']))
    out.append(B('norm_e', 'a:v3 b:s', 'ad::norm(a - b)', 's',
                 ['(a[0]-b[0])*(a[0]-b[0])+(a[1]-b[0])*(a[1]-b[0])+(a[2]-b[0])*(a[2]-b[0])']))
    # ranges of vector- and matrix-valued terms
    for f, op in (('sum', '+'), ('prod', '*')):
        out.append(B('%srv' % f, 'a:v2 b:v2', 'ad::%s(r.begin(), r.end(), [&](const auto& e) { return e * b; })' % f, 'v2',
                     ['(a[%d]*b[%d])%s(b[%d]*b[%d])' % (i, i, op, i, i) for i in range(2)],
                     decl='std::vector<V> r{a, b};'))
        out.append(B('%srl' % f, 'a:v2 b:v2', 'ad::%s(r.begin(), r.end(), [&](const auto& e) { return e; })' % f, 'v2',
                     ['a[%d]%sb[%d]' % (i, op, i) for i in range(2)], decl='std::vector<V> r{a, b};'))
        out.append(B('%srm' % f, 'a:m2,1 b:m2,1', 'ad::%s(r.begin(), r.end(), [&](const auto& e) { return ad::sin(e); })' % f,
                     'm2,1', ['std::sin(a[%d])%sstd::sin(b[%d])' % (i, op, i) for i in range(2)],
                     decl='std::vector<M> r{a, b};'))
    # the same term several times
    # expressions that differ in how much storage they take
    for n1, n2 in ((1, 3), (3, 1)):
        t = lambda v, n: '(' + '+'.join('std::sin(%s[%d])' % (v, i) for i in range(n)) + ')'
        for f, op in (('sum', '+'), ('prod', '*')):
            out.append(B('%srd%d' % (f, n1), 'a:v%d b:v%d' % (n1, n2), 'ad::%s(r.begin(), r.end(), [&](const auto& e) { return ad::sum(ad::sin(e)); })' % f, 's',
                         [t('a', n1) + op + t('b', n2)], decl='std::vector<V> r{a, b};'))
    out.append(B('sum_dup', 'a:s', 'ad::sum(r.begin(), r.end(), [&](const auto& e) { return e * e; })', 's',
                 ['a[0]*a[0]+a[0]*a[0]'], decl='std::vector<S> r{a, a};'))
    out.append(B('prod_dup', 'a:s', 'ad::prod(r.begin(), r.end(), [&](const auto& e) { return e; })', 's',
                 ['a[0]*a[0]*a[0]'], decl='std::vector<S> r{a, a, a};'))
    return out


def pow_(tier='quick'):
    out = []

    def ref(x, n):
        if n == 0:
            return '1.'
        if n > 0:
            return '*'.join([x] * n)
        return '(%s == 0. ? %s : 1./(%s))' % (x, INF, '*'.join([x] * -n))
    for n in list(range(8, 33 if tier == 'quick' else 65)) + list(range(-16 if tier == 'quick' else -32, -4)):
        # every exponent has instantiations of its own
        t = str(n).replace('-', 'm')
        out.append(B('pow%s_s' % t, 'a:s', 'ad::pow<%d>(a)' % n, 's', [ref('a[0]', n)], tags=['pow', 'lone'] + (['neg'] if n < 0 else [])))
        out.append(B('pow%s_v' % t, 'a:v1', 'ad::pow<%d>(a)' % n, 'v1', [ref('a[0]', n)], tags=['pow', 'lone'] + (['neg'] if n < 0 else [])))
    for n in (0, 1, 2, 3, 4, 5, 6, 7, -1, -2, -3, -4):
        t = str(n).replace('-', 'm')
        kw = dict(neg=1) if n < 0 else {}
        out.append(B('pow%s_s' % t, 'a:s', 'ad::pow<%d>(a)' % n, 's', [ref('a[0]', n)], tags=['pow'] + (['neg'] if n < 0 else [])))
        out.append(B('pow%s_e' % t, 'a:s b:s', 'ad::pow<%d>(a*b)' % n, 's', [ref('(a[0]*b[0])', n)],
                     tags=['pow'] + (['neg'] if n < 0 else [])))
        out.append(B('pow%s_v' % t, 'a:v2', 'ad::pow<%d>(a)' % n, 'v2', [ref('a[%d]' % i, n) for i in range(2)],
                     tags=['pow'] + (['neg'] if n < 0 else [])))
        for r, c in ((2, 1), (1, 2), (2, 2), (1, 1)):
            out.append(B('pow%s_m%s' % (t, '' if (r, c) == (2, 1) else '%d%d' % (r, c)), 'a:m%d,%d' % (r, c), 'ad::pow<%d>(a)' % n, 'm%d,%d' % (r, c),
                         [ref('a[%d]' % i, n) for i in range(r * c)], tags=['pow'] + (['neg'] if n < 0 else []) + (['lone'] if (r, c) != (2, 1) else [])))
    return out


def mm(a, ra, ca, b, rb, cb):
    """column-major matrix product formulas"""
    return ['+'.join('%s*%s' % (a(i, k), b(k, j)) for k in range(ca)) for j in range(cb) for i in range(ra)]


def el(n, r, t=False):
    return lambda i, j: '%s[%d]' % (n, (i * r + j) if t else (j * r + i))


def dot_(tier='quick'):
    out = []
    big = sizes([], True)
    for r, k in [(2, 2), (2, 3), (1, 3), (3, 1), (3, 3), (3, 2), (1, 1)] + [(2, n) for n in big[:2]] + [(n, 2) for n in big[:2]]:
        out.append(B('dot_mv_%d%d' % (r, k), 'a:m%d,%d b:v%d' % (r, k, k), 'ad::dot(a, b)', 'v%d' % r,
                     mm(el('a', r), r, k, el('b', k), k, 1), tags=['lone'] if (r, k) in ((3, 3), (3, 2), (1, 1)) else []))
    for r, k, q in [(2, 2, 2), (2, 3, 2), (1, 2, 3), (2, 1, 2), (3, 2, 1), (3, 3, 3), (1, 3, 1), (1, 1, 1), (3, 3, 2), (2, 3, 3)]:
        out.append(B('dot_mm_%d%d%d' % (r, k, q), 'a:m%d,%d b:m%d,%d' % (r, k, k, q), 'ad::dot(a, b)', 'm%d,%d' % (r, q),
                     mm(el('a', r), r, k, el('b', k), k, q), tags=['lone'] if (r, k, q) in ((3, 3, 3), (1, 3, 1), (1, 1, 1), (3, 3, 2), (2, 3, 3)) else []))
    cm = 'ad::constant(Eigen::MatrixXd(Eigen::Map<const Eigen::MatrixXd>(m.c, 2, 2)))'
    cv = 'ad::constant(Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(m.c, 2)))'
    out.append(B('dot_cm_v', 'b:v2', 'ad::dot(%s, b)' % cm, 'v2', mm(el('c', 2), 2, 2, el('b', 2), 2, 1), nc=4))
    out.append(B('dot_cm_m', 'b:m2,2', 'ad::dot(%s, b)' % cm, 'm2,2', mm(el('c', 2), 2, 2, el('b', 2), 2, 2), nc=4))
    out.append(B('dot_m_cm', 'b:m2,2', 'ad::dot(b, %s)' % cm, 'm2,2', mm(el('b', 2), 2, 2, el('c', 2), 2, 2), nc=4))
    out.append(B('dot_m_cv', 'b:m2,2', 'ad::dot(b, %s)' % cv, 'v2', mm(el('b', 2), 2, 2, el('c', 2), 2, 1), nc=2))
    out.append(B('dot_m_vw', 'b:m2,2', 'ad::dot(b, ad::constant_view(m.c, 2))', 'v2', mm(el('b', 2), 2, 2, el('c', 2), 2, 1), nc=2))
    out.append(B('dot_vw_m', 'b:m2,2', 'ad::dot(ad::constant_view(m.c, 1, 2), b)', 'm1,2', mm(el('c', 1), 1, 2, el('b', 2), 2, 2), nc=2))
    out.append(B('dot_em_v', 'b:v2', 'ad::dot(Eigen::MatrixXd(Eigen::Map<const Eigen::MatrixXd>(m.c, 2, 2)), b)', 'v2',
                 mm(el('c', 2), 2, 2, el('b', 2), 2, 1), nc=4))
    c23 = 'ad::constant(Eigen::MatrixXd(Eigen::Map<const Eigen::MatrixXd>(m.c, 2, 3)))'
    out.append(B('dot_c23_v', 'b:v3', 'ad::dot(%s, b)' % c23, 'v2', mm(el('c', 2), 2, 3, el('b', 3), 3, 1), nc=6))
    out.append(B('dot_c23_m', 'b:m3,2', 'ad::dot(%s, b)' % c23, 'm2,2', mm(el('c', 2), 2, 3, el('b', 3), 3, 2), nc=6))
    out.append(B('dot_m_c23', 'b:m3,2', 'ad::dot(b, %s)' % c23, 'm3,3', mm(el('b', 3), 3, 2, el('c', 2), 2, 3), nc=6))
    out.append(B('dot_m_vw23', 'b:m1,2', 'ad::dot(b, ad::constant_view(m.c, 2, 3))', 'm1,3', mm(el('b', 1), 1, 2, el('c', 2), 2, 3), nc=6))
    out.append(B('dot_self', 'a:m2,2', 'ad::dot(a, a)', 'm2,2', mm(el('a', 2), 2, 2, el('a', 2), 2, 2)))
    out.append(B('dot_e', 'a:m2,2 b:v2 z:s', 'ad::dot(a * z, ad::sin(b))', 'v2',
                 ['(a[0]*std::sin(b[0])+a[2]*std::sin(b[1]))*z[0]', '(a[1]*std::sin(b[0])+a[3]*std::sin(b[1]))*z[0]']))
    out.append(B('dot_chain', 'a:m2,2 b:m2,2 z:v2', 'ad::dot(a, ad::dot(b, z))', 'v2',
                 ['a[0]*(b[0]*z[0]+b[2]*z[1])+a[2]*(b[1]*z[0]+b[3]*z[1])', 'a[1]*(b[0]*z[0]+b[2]*z[1])+a[3]*(b[1]*z[0]+b[3]*z[1])']))
    out.append(B('quad', 'a:m2,1', 'ad::dot(ad::dot(ad::transpose(a), %s), a)' % cm, 'm1,1',
                 ['a[0]*(c[0]*a[0]+c[2]*a[1])+a[1]*(c[1]*a[0]+c[3]*a[1])'], nc=4))
    for r, c in [(2, 3), (1, 2), (2, 2), (3, 1), (3, 2), (3, 3), (1, 1)]:
        out.append(B('tr_m%d%d' % (r, c), 'a:m%d,%d' % (r, c), 'ad::transpose(a)', 'm%d,%d' % (c, r),
                     ['a[%d]' % (i * 1 + j * r) for i in range(r) for j in range(c)], tags=['lone'] if (r, c) in ((3, 2), (3, 3), (1, 1)) else []))
    out.append(B('tr_v', 'a:v3', 'ad::transpose(a)', 'm1,3', ['a[0]', 'a[1]', 'a[2]']))
    out.append(B('tr_e', 'a:m2,3 b:s', 'ad::transpose(ad::sin(a) * b)', 'm3,2',
                 ['std::sin(a[%d])*b[0]' % (i + j * 2) for i in range(2) for j in range(3)]))
    out.append(B('tr_tr', 'a:m2,3', 'ad::transpose(ad::transpose(a))', 'm2,3', ['a[%d]' % i for i in range(6)]))
    out.append(B('tr_dot', 'a:m2,3 b:v2', 'ad::dot(ad::transpose(a), b)', 'v3',
                 ['a[%d]*b[0]+a[%d]*b[1]' % (2 * i, 2 * i + 1) for i in range(3)]))
    out.append(B('vtv', 'a:v2', 'ad::dot(ad::transpose(a), a)', 'v1', ['a[0]*a[0]+a[1]*a[1]']))
    out.append(B('tr_c', 'b:v3', 'ad::dot(ad::transpose(ad::constant(Eigen::MatrixXd(Eigen::Map<const Eigen::MatrixXd>(m.c, 3, 2)))), b)',
                 'v2', ['c[0]*b[0]+c[1]*b[1]+c[2]*b[2]', 'c[3]*b[0]+c[4]*b[1]+c[5]*b[2]'], nc=6))
    return out


# ---------------------------------------------------------------- distributions
def _stat(name, call, leaves, consts, formula, comp=False, **kw):
    """leaves/consts: list of (argname, shape|'c:shape'); formula(ctx) gives C++ statements setting W[0]"""
    off, co, decl, args, get = 0, 0, [], [], {}
    lv = []
    for nm, sh in leaves:
        if sh.startswith('c:'):
            s = sh[2:]
            if s == 's':
                args.append('m.c[%d]' % co)
                get[nm] = (lambda o: (lambda i: 'c[%d]' % o))(co)
                co += 1
            elif s[0] == 'v':
                n = int(s[1:])
                decl.append('auto %s = ad::constant_view(m.c+%d, %d);' % (nm, co, n))
                args.append(nm)
                get[nm] = (lambda o: (lambda i: 'c[%d]' % (o + i)))(co)
                co += n
            elif s[0] == 'w':       # owned vector constant
                n = int(s[1:])
                args.append('Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(m.c+%d, %d))' % (co, n))
                get[nm] = (lambda o: (lambda i: 'c[%d]' % (o + i)))(co)
                co += n
        else:
            lv.append('%s:%s' % (nm, sh))
            args.append('-' + nm if comp else nm)
            get[nm] = (lambda q, s: (lambda i: ('(-%s[%d])' if comp else '%s[%d]') % (q, i if s != 's' else 0)))(nm, sh)
    return B(name, ' '.join(lv), '%s(%s)' % (call, ', '.join(args)), 's', formula(get), decl=' '.join(decl), nc=max(co, 1), **kw)


def _combos(n, case, maxc=None):
    """every mixture of variable/constant arguments except all-constant"""
    import itertools
    for mask in itertools.product((0, 1), repeat=len(case)):
        if all(mask):
            continue
        yield mask


def _args(names, case, mask, n, own=False):
    out = []
    for nm, k, cst in zip(names, case, mask):
        sh = 's' if k == 's' else 'v%d' % n
        if cst:
            sh = 'c:' + (sh if not own or k == 's' else 'w%d' % n)
        out.append((nm, sh))
    return out


def stat3(dist, n=2, tier='quick'):
    out = []
    names = {'normal': ('q', 'mu', 'sg'), 'cauchy': ('q', 'lo', 'sc'), 'uniform': ('q', 'mn', 'mx')}[dist]
    A, Bn, C = names

    def normal(get, k):
        cond = '&&'.join('(%s > 0)' % get[C](i) for i in range(k))
        s = '+'.join('(-0.5*((%s-%s)/%s)*((%s-%s)/%s)-std::log(%s))' % (
            get[A](i), get[Bn](i), get[C](i), get[A](i), get[Bn](i), get[C](i), get[C](i)) for i in range(k))
        return 'if (%s) W[0] = %s; else W[0] = -%s;' % (cond, s, INF)

    def cauchy(get, k):
        cond = '&&'.join('(%s > 0)' % get[C](i) for i in range(k))
        s = '-('+'+'.join('std::log({g}+({x}-{l})*({x}-{l})/{g})'.format(x=get[A](i), l=get[Bn](i), g=get[C](i)) for i in range(k))+')'
        return 'if (%s) W[0] = %s; else W[0] = -%s;' % (cond, s, INF)

    def uniform(get, k):
        cond = '&&'.join('(%s < %s && %s < %s)' % (get[Bn](i), get[A](i), get[A](i), get[C](i)) for i in range(k))
        s = '-('+'+'.join('std::log(%s-%s)' % (get[C](i), get[Bn](i)) for i in range(k))+')'
        return 'if (%s) W[0] = %s; else W[0] = -%s;' % (cond, s, INF)
    f = dict(normal=normal, cauchy=cauchy, uniform=uniform)[dist]
    for case in ('sss', 'vss', 'vsv', 'vvs', 'vvv'):
        k = 1 if case == 'sss' else n
        for mask in _combos(k, case):
            nm = '%s_%s_%s' % (dist, case, ''.join('c' if x else 'x' for x in mask))
            out.append(_stat(nm, 'ad::%s_adj_log_pdf' % dist, _args(names, case, mask, k), None, lambda g, k=k: f(g, k)))
            if any(m and c == 'v' for m, c in zip(mask, case)):
                out.append(_stat(nm + 'o', 'ad::%s_adj_log_pdf' % dist, _args(names, case, mask, k, True), None,
                                 lambda g, k=k: f(g, k)))
            # every non-constant argument a subexpression, which holds nothing before it is bound and evaluated
            out.append(_stat(nm + '_e', 'ad::%s_adj_log_pdf' % dist, _args(names, case, mask, k), None, lambda g, k=k: f(g, k), comp=True,
                             only=('grad', 'reeval')))
    for k in ([1, 3] if dist != 'uniform' else [1, 3]):
        for case in ('vss', 'vvv'):
            out.append(_stat('%s_%s_n%d' % (dist, case, k), 'ad::%s_adj_log_pdf' % dist, _args(names, case, (0, 0, 0), k), None,
                             lambda g, k=k: f(g, k)))
    return out


def bernoulli(n=2, tier='quick'):
    out = []

    def f(get, k):
        s = 'double t = 0; bool ok = true; '
        for i in range(k):
            x, p = get['q'](i), get['p'](i)
            s += ('if (!({x} == 0 || {x} == 1)) ok = false; '
                  'else if ({p} <= 0) {{ if ({x} != 0) ok = false; }} '
                  'else if ({p} >= 1) {{ if ({x} != 1) ok = false; }} '
                  'else if ({x} == 1) t += std::log({p}); else t += std::log(1-{p}); ').format(x=x, p=p)
        return s + 'W[0] = ok ? t : -%s;' % INF
    for case in ('ss', 'vs', 'vv'):
        k = 1 if case == 'ss' else n
        for mask in ((0, 0), (1, 0), (0, 1)):
            nm = 'bern_%s_%s' % (case, ''.join('c' if x else 'x' for x in mask))
            cl = [i for i in range(k)] if not mask[0] else []
            out.append(_stat(nm, 'ad::bernoulli_adj_log_pdf', _args(('q', 'p'), case, mask, k), None, lambda g, k=k: f(g, k),
                             const_leaves=tuple(cl), grad_finite_only=case == 'vv'))
            if any(m and c == 'v' for m, c in zip(mask, case)):
                out.append(_stat(nm + 'o', 'ad::bernoulli_adj_log_pdf', _args(('q', 'p'), case, mask, k, True), None,
                                 lambda g, k=k: f(g, k), const_leaves=tuple(cl), grad_finite_only=case == 'vv'))
            out.append(_stat(nm + '_e', 'ad::bernoulli_adj_log_pdf', _args(('q', 'p'), case, mask, k), None, lambda g, k=k: f(g, k),
                             comp=True, only=('grad', 'reeval'), const_leaves=tuple(cl), grad_finite_only=case == 'vv'))
    return out

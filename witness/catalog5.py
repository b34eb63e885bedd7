"""Witnesses for every kind of node at one larger size, and at sizes around the integer constants a change brought into the library."""
from dsl import Builder as B, bigsizes


def _j(n, t, op='+'):
    return op.join(t.format(i=i) for i in range(n))


def unary(n):
    for f, call, ref in (('sin', 'ad::sin(a)', 'std::sin(a[{i}])'), ('exp', 'ad::exp(a)', 'std::exp(a[{i}])'), ('neg', '-a', '(-a[{i}])')):
        yield B('big_un_%s_%d' % (f, n), 'a:v%d' % n, 'ad::sum(%s)' % call, 's', [_j(n, ref)])
        yield B('big_unm_%s_%d' % (f, n), 'a:m2,%d' % n, 'ad::sum(%s)' % (call,), 's', [_j(2 * n, ref)])


def binary(n):
    for o, op in dict(add='+', sub='-', mul='*', div='/').items():
        yield B('big_bin_%s_vv%d' % (o, n), 'a:v%d b:v%d w:v%d' % (n, n, n), 'ad::sum((a %s b) * w)' % op, 's', [_j(n, '(a[{i}] %s b[{i}])*w[{i}]' % op)])
        yield B('big_bin_%s_sv%d' % (o, n), 'a:s b:v%d w:v%d' % (n, n), 'ad::sum((a %s b) * w)' % op, 's', [_j(n, '(a[0] %s b[{i}])*w[{i}]' % op)])
        yield B('big_bin_%s_vs%d' % (o, n), 'a:v%d b:s w:v%d' % (n, n), 'ad::sum((a %s b) * w)' % op, 's', [_j(n, '(a[{i}] %s b[0])*w[{i}]' % op)])


def binary_const(n):
    yield B('big_binc_%d' % n, 'a:v%d' % n, 'ad::sum(a * ad::constant_view(m.c, %d))' % n, 's', [_j(n, 'a[{i}]*c[{i}]')], nc=n)
    yield B('big_bino_%d' % n, 'a:v%d' % n, 'ad::sum(a / ad::constant(Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(m.c, %d))))' % n, 's', [_j(n, 'a[{i}]/c[{i}]')], nc=n)


def reduce(n):
    yield B('big_sum_%d' % n, 'a:v%d' % n, 'ad::sum(a)', 's', [_j(n, 'a[{i}]')])
    yield B('big_norm_%d' % n, 'a:v%d' % n, 'ad::norm(a)', 's', [_j(n, 'a[{i}]*a[{i}]')])
    yield B('big_prod_%d' % n, 'a:v%d' % n, 'ad::prod(ad::exp(a))', 's', [_j(n, 'std::exp(a[{i}])', '*')])
    d = 'std::vector<S> r; for (int i = 0; i < %d; ++i) r.push_back(a[i]);' % n
    yield B('big_sumr_%d' % n, 'a:v%d b:s' % n, 'ad::sum(r.begin(), r.end(), [&](const auto& e) { return e * b; })', 's', ['(%s)*b[0]' % _j(n, 'a[{i}]')], decl=d)
    yield B('big_prodr_%d' % n, 'a:v%d b:s' % n, 'ad::prod(r.begin(), r.end(), [&](const auto& e) { return ad::exp(e * b); })', 's', [_j(n, 'std::exp(a[{i}]*b[0])', '*')], decl=d)


def pow(n):
    yield B('big_pow2_%d' % n, 'a:v%d' % n, 'ad::sum(ad::pow<2>(a))', 's', [_j(n, 'a[{i}]*a[{i}]')])
    yield B('big_powm_%d' % n, 'a:v%d' % n, 'ad::sum(ad::pow<-1>(a))', 's', [_j(n, '1./a[{i}]')])


def dot(n):
    yield B('big_dot_mv%d' % n, 'a:m2,%d b:v%d' % (n, n), 'ad::sum(ad::dot(a, b))', 's', ['+'.join('a[%d]*b[%d]' % (i + 2 * j, j) for i in range(2) for j in range(n))])
    yield B('big_dot_vm%d' % n, 'a:m%d,1 b:m1,2 w:m%d,2' % (n, n), 'ad::sum(ad::dot(a, b) * w)', 's', ['+'.join('a[%d]*b[%d]*w[%d]' % (i, j, i + n * j) for i in range(n) for j in range(2))])
    yield B('big_dot_in%d' % n, 'a:m1,%d b:m%d,1' % (n, n), 'ad::sum(ad::dot(a, b))', 's', [_j(n, 'a[{i}]*b[{i}]')])
    yield B('big_tr_v%d' % n, 'a:v%d b:v%d' % (n, n), 'ad::sum(ad::dot(ad::transpose(a), b))', 's', [_j(n, 'a[{i}]*b[{i}]')])
    yield B('big_tr_m%d' % n, 'a:m2,%d w:m%d,2' % (n, n), 'ad::sum(ad::transpose(a) * w)', 's', ['+'.join('a[%d]*w[%d]' % (i + 2 * j, j + n * i) for i in range(2) for j in range(n))])


def glue(n):
    yield B('big_eq_%d' % n, 'a:v%d b:v%d' % (n, n), '(w = a * b, ad::sum(w * w))', 's', [_j(n, 'a[{i}]*b[{i}]*a[{i}]*b[{i}]')], ph='w:v%d' % n)


def opeq(n):
    for o, op in dict(add='+', sub='-', mul='*', div='/').items():
        b = B('big_oe_%s_%d' % (o, n), 'z:v%d a:v%d' % (n, n), '(z %s= a, ad::sum(z * z))' % op, 's', [_j(n, '(z[{i}]%sa[{i}])*(z[{i}]%sa[{i}])' % (op, op))])
        b.opt['prep'] = ''.join('k.ax[%d] = 0; ' % i for i in range(n))
        b.opt['zeroed'] = list(range(n))
        yield b


def ifelse(n):
    yield B('big_if_%d' % n, 'a:v%d z:s' % n, 'ad::sum(ad::if_else(z > 0., a * a, a))', 's', ['z[0] > 0 ? %s : %s' % (_j(n, 'a[{i}]*a[{i}]'), _j(n, 'a[{i}]'))])


def foreach(n):
    yield B('big_fe_%d' % n, 'a:v%d b:s' % n, '(ad::for_each(ix.begin(), ix.end(), [&](int i) { return q[i] = r[i] * b; }), ad::sum(w * w))', 's',
            [_j(n, 'a[{i}]*a[{i}]*b[0]*b[0]')], ph='w:v%d' % n,
            decl='std::vector<S> r; for (int i = 0; i < {n}; ++i) r.push_back(a[i]); std::vector<S> q; for (int i = 0; i < {n}; ++i) q.push_back(w[i]); '
                 'std::vector<int> ix; for (int i = 0; i < {n}; ++i) ix.push_back(i);'.format(n=n))


def folded(n):
    yield B('big_fold_sum%d' % n, 'a:s', 'a * ad::sum(ad::constant_view(m.c, %d))' % n, 's', ['a[0]*(%s)' % _j(n, 'c[{i}]')], nc=n)
    yield B('big_fold_norm%d' % n, 'a:s', 'a * ad::norm(ad::constant_view(m.c, %d))' % n, 's', ['a[0]*(%s)' % _j(n, 'c[{i}]*c[{i}]')], nc=n)


def views(n):
    yield B('big_head_%d' % n, 'a:v%d' % (n + 1), 'ad::sum(a.head(%d) * a.tail(%d))' % (n, n), 's', ['+'.join('a[%d]*a[%d]' % (i, i + 1) for i in range(n))])


def _density(dist, n):
    # the scale (width) is kept inside the domain by construction, so that no component adds a case
    f = {'normal': '(-0.5*((q[{i}]-{m})/std::exp({s}))*((q[{i}]-{m})/std::exp({s}))-{s})',
         'cauchy': '(-std::log(std::exp({s})+(q[{i}]-{m})*(q[{i}]-{m})/std::exp({s})))',
         }[dist]
    for case in ('vss', 'vsv', 'vvs', 'vvv'):
        sh = ['s' if k == 's' else 'v%d' % n for k in case]
        yield B('big_%s_%s_%d' % (dist, case, n), 'q:%s mu:%s sg:%s' % tuple(sh), 'ad::%s_adj_log_pdf(q, mu, ad::exp(sg))' % dist, 's',
                [_j(n, f.replace('{m}', 'mu[%s]' % ('0' if case[1] == 's' else '{i}')).replace('{s}', 'sg[%s]' % ('0' if case[2] == 's' else '{i}')))])


def normal(n):
    yield from _density('normal', n)


def cauchy(n):
    yield from _density('cauchy', n)


FAMS = dict(unary=unary, binary=binary, binary_const=binary_const, reduce=reduce, pow=pow, dot=dot, glue=glue, opeq=opeq, ifelse=ifelse, foreach=foreach,
            folded=folded, views=views, normal=normal, cauchy=cauchy)


def big(fam):
    if fam not in FAMS:
        return []
    out = []
    for n in bigsizes():
        for b in FAMS[fam](n):
            b.tags.add('big')
            b.opt['only'] = ('grad', 'reeval', 'nested', 'twice', 'prior', 'storage', 'intact')
            if fam == 'cauchy' and n > 40:
                b.opt['only'] = ('grad', 'reeval', 'prior', 'storage', 'intact')      # normal forms of the nested gradients grow large
            out.append(b)
    return out

"""Catalogue, second part: determinants, matrix-parameter densities, placeholders, compound assignment, conditionals,
for_each, forward mode, variables and their views, bound expressions."""
from dsl import Builder as B, sizes
from catalog import INF

CM22 = 'ad::constant(Eigen::MatrixXd(Eigen::Map<const Eigen::MatrixXd>(m.c, 2, 2)))'


def det2(a):
    return '(%s)*(%s)-(%s)*(%s)' % (a(0), a(3), a(2), a(1))


def sym(n):
    """entries of n + n^T"""
    return lambda i: {0: '2*%s[0]', 1: '(%s[1]+%s[2])', 2: '(%s[1]+%s[2])', 3: '2*%s[3]'}[i].replace('%s', n)


def masked3(n, off, m='mk'):
    """3x3 symmetric part of n, on the diagonal and one off-diagonal pair: declarations of the mask, entry, determinant,
    condition of definiteness, and the quadratic form of the inverse"""
    ent = {(0, 0), (1, 1), (2, 2)} | ({off, off[::-1]} if off else set())
    decl = 'Eigen::MatrixXd M_%s(3, 3); M_%s << %s; auto %s = ad::constant(M_%s);' % (
        m, m, ', '.join('1' if (i, j) in ent else '0' for i in range(3) for j in range(3)), m, m)
    S = lambda i, j: '(%s[%d]+%s[%d])' % (n, j * 3 + i, n, i * 3 + j) if (i, j) in ent else '0.'
    if off:
        a, b = off
        c = ({0, 1, 2} - set(off)).pop()
        D2 = '(%s*%s-%s*%s)' % (S(a, a), S(b, b), S(a, b), S(a, b))
        D = '%s*%s' % (D2, S(c, c))
        pd = '%s > 0 && %s > 0 && %s > 0' % (S(a, a), D2, S(c, c))
        inv = {(a, a): '(%s/%s)' % (S(b, b), D2), (b, b): '(%s/%s)' % (S(a, a), D2), (a, b): '(-%s/%s)' % (S(a, b), D2),
               (b, a): '(-%s/%s)' % (S(a, b), D2), (c, c): '(1/%s)' % S(c, c)}
    else:
        D = '*'.join(S(i, i) for i in range(3))
        pd = ' && '.join(S(i, i) + ' > 0' for i in range(3))
        inv = {(i, i): '(1/%s)' % S(i, i) for i in range(3)}
    return dict(decl=decl, expr='%s * (%s + ad::transpose(%s))' % (m, n, n), S=S, det=D, pd=pd, inv=inv, ent=ent)


OFF3 = (('d', ()), ('o', (0, 2)), ('p', (1, 2)), ('q', (0, 1)))


def det(tier='quick'):
    out = []
    raw = lambda i: 'a[%d]' % i
    ex = lambda i: 'std::exp(a[%d])' % i
    for log in (0, 1):
        f, pre = ('log_det', 'LogDet') if log else ('det', 'Det')
        wrap = (lambda s: 'std::log(std::abs(%s))' % s) if log else (lambda s: s)
        D = det2(sym('a'))
        pd = '(2*a[0]) > 0 && (%s) > 0' % D
        out.append(B('%s_lu1' % f, 'a:m1,1', 'ad::%s(a)' % f, 's', [wrap('a[0]')], assume='a[0] != 0', reeval_all=1, tags=['det']))
        out.append(B('%s_lu2e' % f, 'a:m2,2', 'ad::%s(ad::exp(a))' % f, 's', [wrap(det2(ex))], tags=['det', 'slow']))
        out.append(B('%s_lu2x' % f, 'a:m2,2', 'ad::%s<ad::%sFullPivLU>(ad::exp(a))' % (f, pre), 's', [wrap(det2(ex))],
                     tags=['det', 'slow']))
        out.append(B('%s_llt1' % f, 'a:m1,1', 'ad::%s<ad::%sLLT>(a)' % (f, pre), 's', [wrap('a[0]')], assume='a[0] > 0', reeval_all=1, tags=['det']))
        out.append(B('%s_ldlt1' % f, 'a:m1,1', 'ad::%s<ad::%sLDLT>(a)' % (f, pre), 's', [wrap('a[0]')], assume='a[0] != 0', reeval_all=1, tags=['det']))
        out.append(B('%s_llt2' % f, 'a:m2,2', 'ad::%s<ad::%sLLT>(a + ad::transpose(a))' % (f, pre), 's', [wrap(D)], assume=pd, tags=['det']))
        out.append(B('%s_ldlt2' % f, 'a:m2,2', 'ad::%s<ad::%sLDLT>(a + ad::transpose(a))' % (f, pre), 's', [wrap(D)],
                     assume='(%s) > 0' % D, tags=['det'], noreeval=1))
        for kind, hist, sx in (('LLT', '', ''), ('FullPivLU', '', ''), ('LDLT', 'r', 'k.x[0] = 2; k.x[3] = 3; '),
                               ('LDLT', 's', 'k.x[0] = 2; k.x[3] = 0; '), ('LDLT', 'n', 'k.x[0] = -1; k.x[3] = 0; ')):
            # diagonal matrices, singular ones among them, after any (or a regular, a singular) matrix
            out.append(B('%s_%s_diag%s' % (f, kind.lower(), hist), 'a:m2,2', 'ad::%s<ad::%s%s>(a)' % (f, pre, kind), 's',
                         setx='k.x[1] = k.x[2] = k.x2[1] = k.x2[2] = 0; ' + sx, only=('reeval',), reeval_all=1, tags=['det']))
        for nm, off in OFF3:
            q = masked3('a', off)
            for kind in ('LLT', 'LDLT', 'FullPivLU'):
                if kind == 'FullPivLU' and off or kind == 'LDLT' and off and tier == 'quick' and (log or nm != 'q'):
                    continue
                out.append(B('%s_%s3%s' % (f, kind.lower(), nm), 'a:m3,3', 'ad::%s<ad::%s%s>(%s)' % (f, pre, kind, q['expr']), 's',
                             [wrap(q['det'])], assume=q['pd'], decl=q['decl'], tags=['det'], only=('grad',)))
        if tier == 'thorough':
            S = lambda i, j: '(a[%d]+a[%d])' % (3 * i + j, 3 * j + i)
            D3 = '(%s)' % '+'.join('%s*(%s*%s-%s*%s)' % (S(0, i), S(1, (i+1) % 3), S(2, (i+2) % 3), S(1, (i+2) % 3), S(2, (i+1) % 3)) for i in range(3))
            out.append(B('%s_llt3f' % f, 'a:m3,3', 'ad::%s<ad::%sLLT>(a + ad::transpose(a))' % (f, pre), 's', [wrap(D3)], tags=['det'], only=('grad',),
                         assume='%s > 0 && %s*%s-%s*%s > 0 && %s > 0' % (S(0, 0), S(0, 0), S(1, 1), S(0, 1), S(0, 1), D3)))
        out.append(B('%s_c' % f, 'a:s', 'ad::%s(%s) * a' % (f, CM22), 's',
                     ['%s*a[0]' % wrap('(c[0]*c[3]-c[2]*c[1])')], nc=4, assume='c[0]*c[3]-c[2]*c[1] != 0', tags=['det']))
    return out


def _nm(name, case, mask, own=False, tier='quick', comp=False):
    """normal density with a matrix parameter: q vector, mu scalar|vector, sigma symmetric"""
    lv, args, decl, co = [], [], [], 0
    g = {}
    for nm, k, cst in zip(('q', 'mu', 'sg'), case, mask):
        if k in 'vm' and cst:
            n, sh = (2, '2') if k == 'v' else (4, '2, 2')
            decl.append('auto %s = ad::constant_view(m.c+%d, %s);' % (nm, co, sh))
            if own:
                ty = 'VectorXd' if k == 'v' else 'MatrixXd'
                args.append('Eigen::%s(Eigen::Map<const Eigen::%s>(m.c+%d, %s))' % (ty, ty, co, sh))
            else:
                args.append(nm)
            g[nm] = (lambda o: (lambda i: 'c[%d]' % (o + i)))(co)
            co += n
        elif cst:
            args.append('m.c[%d]' % co)
            g[nm] = (lambda o: (lambda i: 'c[%d]' % o))(co)
            co += 1
        elif k == 'm':
            lv.append('sg:m2,2')
            args.append('sg + ad::transpose(sg)')
            g[nm] = sym('sg')
        else:
            lv.append('%s:%s' % (nm, 's' if k == 's' else 'v2'))
            args.append('-' + nm if comp else nm)
            g[nm] = (lambda q, s: (lambda i: ('(-%s[%d])' if comp else '%s[%d]') % (q, i if s != 's' else 0)))(nm, k)
    S = [g['sg'](i) for i in range(4)]
    D = '((%s)*(%s)-(%s)*(%s))' % (S[0], S[3], S[1], S[1])
    d0, d1 = ['(%s-%s)' % (g['q'](i), g['mu'](i)) for i in range(2)]
    quad = '(%s*%s*(%s) - 2*(%s*%s*(%s)) + %s*%s*(%s))/%s' % (d0, d0, S[3], d0, d1, S[1], d1, d1, S[0], D)
    want = 'if ((%s) > 0 && %s > 0) W[0] = -0.5*(%s) - 0.5*std::log(%s); else W[0] = -%s;' % (S[0], D, quad, D, INF)
    kw = dict(only=('grad', 'reeval')) if comp else {}
    if mask[2]:
        o = int(S[1][2:-1])
        kw['assume'] = 'c[%d] == c[%d]' % (o, o + 1)
    return B(name, ' '.join(lv), 'ad::normal_adj_log_pdf(%s)' % ', '.join(args), 's', want, decl=' '.join(decl), nc=max(co, 1),
             tags=['mat'], **kw)


def normal_mat(tier='quick'):
    out = []
    for case in ('vsm', 'vvm'):
        for mask in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1)):
            nm = 'normal_%s_%s' % (case, ''.join('c' if x else 'x' for x in mask))
            out.append(_nm(nm, case, mask))
            if mask == (1, 0, 1) or mask == (1, 0, 0):
                out.append(_nm(nm + 'o', case, mask, True))
            if not (mask[0] and mask[1]):
                out.append(_nm(nm + '_e', case, mask, comp=True))
        for nm, off in OFF3:                # order three
            q = masked3('sg', off)
            d = lambda i: '(q[%d]-mu[%d])' % (i, i if case == 'vvm' else 0)
            quad = '+'.join('%s*%s*%s' % (d(i), d(j), v) for (i, j), v in q['inv'].items())
            out.append(B('normal_%s3%s' % (case, nm), 'q:v3 mu:%s sg:m3,3' % ('v3' if case == 'vvm' else 's'),
                         'ad::normal_adj_log_pdf(q, mu, %s)' % q['expr'], 's',
                         'if (%s) W[0] = -0.5*(%s) - 0.5*std::log(%s); else W[0] = -%s;' % (q['pd'], quad, q['det'], INF),
                         decl=q['decl'], tags=['mat'], only=('grad',)))
    return out


def wishart(tier='quick'):
    out = []

    def one(name, xc, vc, n, ncst=False, own=False):
        lv, args, decl, co = [], [], [], 0
        g = {}
        for nm, cst in (('q', xc), ('w', vc)):
            if cst:
                if own:
                    args.append('Eigen::MatrixXd(Eigen::Map<const Eigen::MatrixXd>(m.c+%d, 2, 2))' % co)
                else:
                    decl.append('auto %s = ad::constant_view(m.c+%d, 2, 2);' % (nm, co))
                    args.append(nm)
                g[nm] = (lambda o: (lambda i: 'c[%d]' % (o + i)))(co)
                co += 4
            else:
                lv.append('%s:m2,2' % nm)
                args.append('%s + ad::transpose(%s)' % (nm, nm))
                g[nm] = sym(nm)
        X = [g['q'](i) for i in range(4)]
        V = [g['w'](i) for i in range(4)]
        if ncst:
            args.append('m.c[%d]' % co)
            nn = 'c[%d]' % co
            co += 1
        else:
            args.append('%d.' % n)
            nn = '%d.' % n
        DX, DV = ['((%s)*(%s)-(%s)*(%s))' % (s[0], s[3], s[1], s[1]) for s in (X, V)]
        tr = '((%s)*(%s) - 2*((%s)*(%s)) + (%s)*(%s))/%s' % (X[0], V[3], X[1], V[1], X[3], V[0], DV)
        want = ('if ((%s) > 0 && %s > 0 && (%s) > 0 && %s > 0 && %s + 1 > 2) W[0] = (%s-3.)*(0.5*std::log(%s)) - 0.5*(%s) - %s*(0.5*std::log(%s)); '
                'else W[0] = -%s;') % (X[0], DX, V[0], DV, nn, nn, DX, tr, nn, DV, INF)
        kw = {}
        ass = []
        for nm, cst in (('q', xc), ('w', vc)):
            if cst:
                o = int(g[nm](0)[2:-1])
                ass.append('c[%d] == c[%d]' % (o + 1, o + 2))
        if ass:
            kw['assume'] = ' && '.join(ass)
        return B(name, ' '.join(lv), 'ad::wishart_adj_log_pdf(%s)' % ', '.join(args), 's', want, decl=' '.join(decl), nc=max(co, 1),
                 tags=['mat'], **kw)
    for n in (1, 2, 3, 5):
        out.append(one('wish_xx_%d' % n, 0, 0, n))
    out.append(one('wish_xx_n', 0, 0, 0, True))
    out.append(one('wish_cx', 1, 0, 4))
    out.append(one('wish_xc', 0, 1, 4))
    out.append(one('wish_cx_n', 1, 0, 0, True))
    out.append(one('wish_cxo', 1, 0, 4, own=True))
    out.append(one('wish_xco', 0, 1, 4, own=True))
    for (nx, ox), (nv, ov) in ((OFF3[0], OFF3[1]), (OFF3[2], OFF3[0]), (OFF3[1], OFF3[1]), (OFF3[0], OFF3[3])):     # order three
        x, v = masked3('q', ox, 'mq'), masked3('w', ov, 'mw')
        tr = '+'.join('%s*%s' % (x['S'](i, j), e) for (i, j), e in v['inv'].items() if (i, j) in x['ent'])
        for n in (4, 2):
            out.append(B('wish3_%s%s_%d' % (nx, nv, n), 'q:m3,3 w:m3,3', 'ad::wishart_adj_log_pdf(%s, %s, %d.)' % (x['expr'], v['expr'], n), 's',
                         'if (%s && %s && %d + 1 > 3) W[0] = (%d-4.)*(0.5*std::log(%s)) - 0.5*(%s) - %d.*(0.5*std::log(%s)); else W[0] = -%s;' % (
                             x['pd'], v['pd'], n, n, x['det'], tr, n, v['det'], INF),
                         decl=x['decl'] + v['decl'], tags=['mat'], only=('grad',)))
    return out


# ---------------------------------------------------------------- placeholders and glue
def glue(tier='quick'):
    out = []
    s = 'std::sin(%s)'
    A = lambda *a, **k: out.append(B(*a, **k))
    A('gl_s', 'a:s b:s', '(w = a * b, w * w + ad::sin(w))', 's', ['(a[0]*b[0])*(a[0]*b[0])+std::sin(a[0]*b[0])'], ph='w:s')
    A('gl_s_un', 'a:s', '(w = ad::exp(a), w * a - w)', 's', ['std::exp(a[0])*a[0]-std::exp(a[0])'], ph='w:s')
    A('gl_v', 'a:v3 b:s', '(w = a * b, ad::sum(w * w) + ad::prod(w))', 's',
      ['(a[0]*a[0]+a[1]*a[1]+a[2]*a[2])*b[0]*b[0]+a[0]*a[1]*a[2]*b[0]*b[0]*b[0]'], ph='w:v3')
    A('gl_m', 'a:m2,2', '(w = ad::sin(a), ad::sum(w * w + w))', 's',
      ['+'.join('std::sin(a[%d])*std::sin(a[%d])+std::sin(a[%d])' % (i, i, i) for i in range(4))], ph='w:m2,2')
    A('gl_vout', 'a:v2 b:v2', '(w = a * b, w * ad::exp(w))', 'v2',
      ['a[%d]*b[%d]*std::exp(a[%d]*b[%d])' % (i, i, i, i) for i in range(2)], ph='w:v2')
    A('gl_mout', 'a:m2,1 b:s', '(w = a + b, w / a)', 'm2,1', ['(a[%d]+b[0])/a[%d]' % (i, i) for i in range(2)], ph='w:m2,1')
    A('gl_self', 'a:s b:s', '(w = a * b)', 's', ['a[0]*b[0]'], ph='w:s')
    A('gl_self_v', 'a:v2', '(w = ad::sin(a))', 'v2', ['std::sin(a[%d])' % i for i in range(2)], ph='w:v2')
    A('gl_last', 'a:s b:s', '(w = a * b, w)', 's', ['a[0]*b[0]'], ph='w:s')
    A('gl_unused', 'a:s b:s', '(w = a * b, a - b)', 's', ['a[0]-b[0]'], ph='w:s')
    A('gl_chain', 'a:s b:s', '(w = a * b, u = ad::sin(w) + w, u * w + a)', 's',
      ['(std::sin(a[0]*b[0])+a[0]*b[0])*(a[0]*b[0])+a[0]'], ph='w:s u:s')
    A('gl_chain3', 'a:s', '(w = ad::exp(a), u = w * w, t = u * w + u, t * u * w)', 's',
      ['std::exp(a[0])*std::exp(a[0])*std::exp(a[0])*(std::exp(a[0])*std::exp(a[0])*std::exp(a[0])+std::exp(a[0])*std::exp(a[0]))'],
      ph='w:s u:s t:s')
    A('gl_paren', 'a:s b:s', '((w = a * b), (u = w * w, u + w))', 's', ['(a[0]*b[0])*(a[0]*b[0])+a[0]*b[0]'], ph='w:s u:s')
    A('gl_two', 'a:s b:s', '(w = a * a, u = b * b, w * u)', 's', ['a[0]*a[0]*b[0]*b[0]'], ph='w:s u:s')
    A('gl_mid', 'a:s b:s', '(w = a * a, a * b, w * b)', 's', ['a[0]*a[0]*b[0]'], ph='w:s')
    A('gl_vs', 'a:v2', '(w = ad::sum(a * a), u = a * w, ad::sum(u) * w)', 's',
      ['(a[0]*a[0]+a[1]*a[1])*(a[0]+a[1])*(a[0]*a[0]+a[1]*a[1])'], ph='w:s u:v2')
    A('gl_elem', 'a:v3', '(w = ad::sin(a), w[0] * w[2] + w[1])', 's', ['std::sin(a[0])*std::sin(a[2])+std::sin(a[1])'], ph='w:v3')
    A('gl_elemeq', 'a:s b:s', '(w[0] = a * b, w[1] = w[0] * a, ad::sum(w) + w[1])', 's', ['a[0]*b[0] + 2*(a[0]*b[0]*a[0])'], ph='w:v2')
    A('gl_tail', 'a:v2 b:v2', '(h = a * b, t = h * a, ad::sum(w * w))', 's',
      ['+'.join('(a[%d]*b[%d])*(a[%d]*b[%d])+(a[%d]*b[%d]*a[%d])*(a[%d]*b[%d]*a[%d])' % ((i,) * 10) for i in range(2))],
      ph='w:v4', decl='auto h = w.head(2); auto t = w.tail(2);')
    # every kind of right-hand side
    rhs = [
        ('bin', 's', 'a[0] - a[1]', '(a[0]-a[1])'), ('un', 's', 'ad::sin(a[0])', 'std::sin(a[0])'),
        ('sum', 's', 'ad::sum(a)', '(a[0]+a[1])'), ('prod', 's', 'ad::prod(a)', '(a[0]*a[1])'),
        ('norm', 's', 'ad::norm(a)', '(a[0]*a[0]+a[1]*a[1])'), ('pow3', 's', 'ad::pow<3>(a[0])', '(a[0]*a[0]*a[0])'),
        ('pow1', 's', 'ad::pow<1>(a[0])', 'a[0]'), ('pow0', 's', 'ad::pow<0>(a[0])', '1.'),
        ('pows', 's', 'ad::pow<2>(a[0] + a[1])', '((a[0]+a[1])*(a[0]+a[1]))'),
        ('sumr', 's', 'ad::sum(r.begin(), r.end(), [](const auto& e) { return ad::exp(e); })', '(std::exp(a[0])+std::exp(a[1]))'),
        ('prodr', 's', 'ad::prod(r.begin(), r.end(), [](const auto& e) { return ad::exp(e); })', '(std::exp(a[0])*std::exp(a[1]))'),
        ('ife', 's', 'ad::if_else(a[0] < a[1], a[0] * a[0], a[1] * a[0])', '(a[0]<a[1] ? a[0]*a[0] : a[1]*a[0])'),
        ('cmp', 's', '(a[0] < a[1])', '(a[0]<a[1] ? 1. : 0.)'),
        ('glue', 's', '(u = a[0] * a[1], ad::sin(u))', 'std::sin(a[0]*a[1])'),
        ('eq', 's', '(u = a[0] * a[1])', '(a[0]*a[1])'),
        ('norml', 's', 'ad::normal_adj_log_pdf(a[0], a[1], 2.)', '(-0.5*((a[0]-a[1])/2.)*((a[0]-a[1])/2.)-std::log(2.))'),
        ('forr', 's', 'ad::for_each(r.begin(), r.end(), [](const auto& e) { return ad::sin(e); })', 'std::sin(a[1])'),
        ('vun', 'v2', 'ad::sin(a)', None), ('vbin', 'v2', 'a * a', None), ('vpow', 'v2', 'ad::pow<2>(a)', None),
        ('vif', 'v2', 'ad::if_else(a[0] < a[1], a * a, a + a)', None),
        ('vcmp', 'v2', 'a < 0.5', None),
    ]
    vref = {'vun': 'std::sin(a[%d])', 'vbin': 'a[%d]*a[%d]', 'vpow': 'a[%d]*a[%d]', 'vif': '(a[0]<a[1] ? a[%d]*a[%d] : a[%d]+a[%d])',
            'vcmp': '(a[%d] < 0.5 ? 1. : 0.)'}
    for nm, sh, e, ref in rhs:
        if sh == 's':
            A('gl_rhs_' + nm, 'a:v2', '(w = %s, w * w + w * a[1])' % e, 's', ['%s*%s+%s*a[1]' % (ref, ref, ref)], ph='w:s u:s',
              decl='std::vector<S> r{a[0], a[1]};')
        else:
            rr = [vref[nm].replace('%d', str(i)) for i in range(2)]
            A('gl_rhs_' + nm, 'a:v2', '(w = %s, w * w + w)' % e, 'v2', ['(%s)*(%s)+(%s)' % (x, x, x) for x in rr], ph='w:v2')
    A('gl_rhs_dot', 'a:m2,2 b:v2', '(w = ad::dot(a, b), ad::sum(w * w))', 's',
      ['(a[0]*b[0]+a[2]*b[1])*(a[0]*b[0]+a[2]*b[1])+(a[1]*b[0]+a[3]*b[1])*(a[1]*b[0]+a[3]*b[1])'], ph='w:v2')
    A('gl_rhs_tr', 'a:m2,1', '(w = ad::transpose(a), ad::sum(w * w * w))', 's', ['a[0]*a[0]*a[0]+a[1]*a[1]*a[1]'], ph='w:m1,2')
    A('gl_rhs_opeq', 'a:s b:s', '(w = (z += a), w * w + z)', 's', ['(b[0]*a[0]+a[0])*(b[0]*a[0]+a[0])+(b[0]*a[0]+a[0])'], ph='w:s z:s',
      pre='', **{'tags': ['opeqrhs']}) if False else None
    # a placeholder used inside nodes of every kind
    A('gl_use_if', 'a:s b:s', '(w = a * b, ad::if_else(w < a, w * w, ad::sin(w)))', 's',
      ['(a[0]*b[0]<a[0] ? a[0]*b[0]*a[0]*b[0] : std::sin(a[0]*b[0]))'], ph='w:s')
    A('gl_use_prod', 'a:v2', '(w = ad::sin(a), ad::prod(w) * ad::norm(w))', 's',
      ['std::sin(a[0])*std::sin(a[1])*(std::sin(a[0])*std::sin(a[0])+std::sin(a[1])*std::sin(a[1]))'], ph='w:v2')
    A('gl_use_stat', 'a:s b:s', '(w = ad::exp(a), ad::normal_adj_log_pdf(b, a, w))', 's',
      ['-0.5*((b[0]-a[0])/std::exp(a[0]))*((b[0]-a[0])/std::exp(a[0]))-std::log(std::exp(a[0]))'], ph='w:s')
    A('gl_val', 'a:s b:s', '(w = a * b, u = w + a, u)', 's', ['a[0]*b[0]+a[0]'], ph='w:s u:s')
    # an assignment inside the operand of a statement whose own value is not used
    nest = [
        ('un', 'ad::sin((w = a * b))', ''), ('neg', '-(w = a * b)', ''), ('sig', 'ad::sigmoid((w = a * b))', ''),
        ('binl', '(w = a * b) * a', ''), ('binr', 'a * (w = a * b)', ''), ('bincl', '2. - (w = a * b)', ''), ('bincr', '(w = a * b) / 3.', ''),
        ('pow2', 'ad::pow<2>((w = a * b))', ''), ('pow1', 'ad::pow<1>((w = a * b))', ''), ('pow0', 'ad::pow<0>((w = a * b))', ''),
        ('powm', 'ad::pow<-1>((w = a * b))', ''), ('eq', '(u = (w = a * b))', ''), ('glue', '(w = a * b, a)', ''),
        ('deep', 'ad::exp(ad::sin((w = a * b)) * b)', ''), ('sumr', 'ad::sum(r.begin(), r.end(), [&](const auto& e) { return (w = a * b) * e; })', 'r'),
        ('prodr', 'ad::prod(r.begin(), r.end(), [&](const auto& e) { return (w = a * b) * e; })', 'r'),
        ('for', 'ad::for_each(r.begin(), r.end(), [&](const auto& e) { return ad::sin((w = a * b)) * e; })', 'r'),
        ('norx', 'ad::normal_adj_log_pdf((w = a * b), a, 2.)', ''), ('norm', 'ad::normal_adj_log_pdf(a, (w = a * b), 2.)', ''),
        ('caux', 'ad::cauchy_adj_log_pdf((w = a * b), a, 2.)', ''), ('caul', 'ad::cauchy_adj_log_pdf(a, (w = a * b), 2.)', ''),
    ]
    for nm, e, d in nest:
        if nm in ('sumr', 'prodr', 'for'):
            dd = 'std::vector<S> r{b};'
        else:
            dd = ''
        A('gl_nest_' + nm, 'a:s b:s', '(%s, w * w + w)' % e, 's', ['(a[0]*b[0])*(a[0]*b[0])+a[0]*b[0]'], ph='w:s u:s', decl=dd,
          **(dict(assume='a[0]*b[0] != 0') if nm == 'powm' else {}))
    vn = [('sum', 'ad::sum((w = a * b))'), ('prod', 'ad::prod((w = a * b))'), ('nrm', 'ad::norm((w = a * b))'), ('vun', 'ad::sin((w = a * b))'),
          ('vbin', '(w = a * b) * a'), ('vpow', 'ad::pow<3>((w = a * b))'), ('vtr', 'ad::transpose((w = a * b))'),
          ('vif', 'ad::if_else(a[0] < b[0], (w = a * b), (w = b * a))'), ('vdot', 'ad::dot(ad::constant_view(m.c, 2, 2), (w = a * b))'),
          ('vnor', 'ad::normal_adj_log_pdf((w = a * b), a, 2.)'), ('vnorm', 'ad::normal_adj_log_pdf(a, (w = a * b), 2.)'),
          ('vcau', 'ad::cauchy_adj_log_pdf((w = a * b), a, 2.)')]
    for nm, e in vn:
        A('gl_nest_' + nm, 'a:v2 b:v2', '(%s, ad::sum(w * w))' % e, 's',
          ['+'.join('(a[%d]*b[%d])*(a[%d]*b[%d])' % (i, i, i, i) for i in range(2))], ph='w:v2', nc=4)
    for nm, e, lv, sh in (
            ('unil', 'ad::uniform_adj_log_pdf(m.c[0], (w = a * b), 1.)', 's', 's'),
            ('bern', 'ad::bernoulli_adj_log_pdf(1, (w = a * b))', 's', 's'), ('nors', 'ad::normal_adj_log_pdf(m.c[0], 0., (w = a * b))', 's', 's'),
            ('caus', 'ad::cauchy_adj_log_pdf(m.c[0], 0., (w = a * b))', 's', 's')):
        # claimed where the density is defined; outside it the assignment is not reached (recorded as a finding)
        dom = {'unil': 'a[0]*b[0] < c[0] && c[0] < 1', 'bern': 'a[0]*b[0] > 0 && a[0]*b[0] < 1',
               'nors': 'a[0]*b[0] > 0', 'caus': 'a[0]*b[0] > 0'}[nm]
        A('gl_nest_' + nm, 'a:s b:s', '(%s, w * w + w)' % e, 's', ['(a[0]*b[0])*(a[0]*b[0])+a[0]*b[0]'], ph='w:s', assume=dom, nc=1)
    A('gl_oor', 'a:s b:s', '(ad::normal_adj_log_pdf(0.5, 0., (w = a * b)), w * w + w)', 's', ['(a[0]*b[0])*(a[0]*b[0])+a[0]*b[0]'], ph='w:s',
      only=('grad',))
    A('gl_unix', 'a:s b:s', '(ad::uniform_adj_log_pdf((w = a * b), 0., 1.), w * w + w)', 's', ['(a[0]*b[0])*(a[0]*b[0])+a[0]*b[0]'], ph='w:s',
      only=('grad',))
    A('gl_cmp', 'a:s b:s', '((w = a * b) < a, w * w + w)', 's', ['(a[0]*b[0])*(a[0]*b[0])+a[0]*b[0]'], ph='w:s', only=('grad',))
    A('gl_ifcond', 'a:s b:s', '(ad::if_else((w = a * b) < 1., a, b), w * w + w)', 's', ['(a[0]*b[0])*(a[0]*b[0])+a[0]*b[0]'], ph='w:s', only=('grad',))
    # README: Black-Scholes shape
    A('gl_bs', 'a:s', '(w = ad::log(a / 3.) + 0.5, u = w - 0.25, a * ad::erf(w) - 2. * ad::erf(u))', 's',
      ['a[0]*std::erf(std::log(a[0]/3.)+0.5)-2.*std::erf(std::log(a[0]/3.)+0.5-0.25)'], ph='w:s u:s')
    return [b for b in out if b]


def opeq(tier='quick'):
    """compound assignment: modified operands are leaves whose adjoints start at zero"""
    out = []

    def A(name, leaves, expr, o, want, mut, **kw):
        b = B(name, leaves, expr, o, want, **kw)
        prep = ''
        zero = []
        for nm, val, off in b.lref:
            if nm in mut:
                n = {'s': 1}.get(dict(x.split(':') for x in leaves.split())[nm], 0)
                sh = dict(x.split(':') for x in leaves.split())[nm]
                n = 1 if sh == 's' else (int(sh[1:]) if sh[0] == 'v' else int(sh[1]) * int(sh[3]))
                zero += list(range(off, off + n))
        b.opt['prep'] = ''.join('k.ax[%d] = 0; ' % i for i in zero)
        b.opt['zeroed'] = zero
        out.append(b)
    ops = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
    for o, op in ops.items():
        A('oe_%s_s' % o, 'z:s a:s', '(z %s= a, z * z + a)' % op, 's', ['(z[0]%sa[0])*(z[0]%sa[0])+a[0]' % (op, op)], 'z')
        A('oe_%s_root' % o, 'z:s a:s', '(z %s= a * a)' % op, 's', ['(z[0]%s(a[0]*a[0]))' % op], 'z')
        A('oe_%s_c' % o, 'z:s a:s', '(z %s= 2., z * a)' % op, 's', ['(z[0]%s2.)*a[0]' % op], 'z')
        A('oe_%s_self' % o, 'z:s a:s', '(z %s= z * a, ad::sin(z))' % op, 's', ['std::sin(z[0]%s(z[0]*a[0]))' % op], 'z')
        A('oe_%s_selfv' % o, 'z:v2 a:s', '(z %s= ad::exp(z) * a, ad::sum(z * z))' % op, 's',
          ['+'.join('(z[%d]%s(std::exp(z[%d])*a[0]))*(z[%d]%s(std::exp(z[%d])*a[0]))' % (i, op, i, i, op, i) for i in range(2))], 'z')
        A('oe_%s_vv' % o, 'z:v2 a:v2', '(z %s= a, z * z)' % op, 'v2', ['(z[%d]%sa[%d])*(z[%d]%sa[%d])' % (i, op, i, i, op, i) for i in range(2)], 'z')
        A('oe_%s_vs' % o, 'z:v3 a:s', '(z %s= a * a, ad::sum(z * z))' % op, 's',
          ['+'.join('(z[%d]%s(a[0]*a[0]))*(z[%d]%s(a[0]*a[0]))' % (i, op, i, op) for i in range(3))], 'z')
        A('oe_%s_mm' % o, 'z:m2,1 a:m2,1', '(z %s= a, ad::sin(z))' % op, 'm2,1', ['std::sin(z[%d]%sa[%d])' % (i, op, i) for i in range(2)], 'z')
        A('oe_%s_ms' % o, 'z:m1,2 a:s', '(z %s= a, ad::sum(ad::sin(z)))' % op, 's', ['+'.join('std::sin(z[%d]%sa[0])' % (i, op) for i in range(2))], 'z')
        A('oe_%s_twice' % o, 'z:s a:s', '(z %s= a, z %s= a * z, z * a)' % (op, op), 's',
          ['((z[0]%sa[0])%s(a[0]*(z[0]%sa[0])))*a[0]' % (op, op, op)], 'z')
        A('oe_%s_unused' % o, 'z:s a:s', '(z %s= a, a * a)' % op, 's', ['a[0]*a[0]'], 'z')
        A('oe_%s_eqrhs' % o, 'z:s a:s', '(w = (z %s= a), w * w + z)' % op, 's', ['(z[0]%sa[0])*(z[0]%sa[0])+(z[0]%sa[0])' % (op, op, op)],
          'z', ph='w:s')
        A('oe_%s_eqv' % o, 'z:v2 a:v2', '(w = (z %s= a), ad::sum(w * w))' % op, 's',
          ['+'.join('(z[%d]%sa[%d])*(z[%d]%sa[%d])' % (i, op, i, i, op, i) for i in range(2))], 'z', ph='w:v2')
    A('oe_mix', 'z:s a:s b:s', '(z += a, z *= b, z -= a * b, z / a)', 's', ['((z[0]+a[0])*b[0]-a[0]*b[0])/a[0]'], 'z')
    A('oe_mixv', 'z:v2 a:v2 b:s', '(z *= a, w = z * b, z += w, ad::sum(z * w))', 's',
      ['+'.join('(z[{0}]*a[{0}]+z[{0}]*a[{0}]*b[0])*(z[{0}]*a[{0}]*b[0])'.format(i) for i in range(2))], 'z', ph='w:v2')
    A('oe_elem', 'z:v2 a:s', '(z0 += a, z1 *= z0, z0 * z1)', 's', ['(z[0]+a[0])*(z[1]*(z[0]+a[0]))'], 'z', decl='auto z0 = z[0]; auto z1 = z[1];')
    A('oe_ph', 'a:s b:s', '(w = a * b, w += b, w *= w, w + a)', 's', ['(a[0]*b[0]+b[0])*(a[0]*b[0]+b[0])+a[0]'], '', ph='w:s')
    return out


# ---------------------------------------------------------------- conditionals
CMP = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}


def cmp_(tier='quick'):
    out = []
    for c, op in CMP.items():
        r = lambda x, y: '((%s %s %s) ? 1. : 0.)' % (x, op, y)
        out.append(B('cmp_%s_ss' % c, 'a:s b:s', 'a %s b' % op, 's', [r('a[0]', 'b[0]')], const_leaves=(0, 1)))
        out.append(B('cmp_%s_vv' % c, 'a:v2 b:v2', 'a %s b' % op, 'v2', [r('a[%d]' % i, 'b[%d]' % i) for i in range(2)]))
        out.append(B('cmp_%s_sv' % c, 'a:s b:v2', 'a %s b' % op, 'v2', [r('a[0]', 'b[%d]' % i) for i in range(2)]))
        out.append(B('cmp_%s_vs' % c, 'a:v2 b:s', 'a %s b' % op, 'v2', [r('a[%d]' % i, 'b[0]') for i in range(2)]))
        out.append(B('cmp_%s_mm' % c, 'a:m2,1 b:m2,1', 'a %s b' % op, 'm2,1', [r('a[%d]' % i, 'b[%d]' % i) for i in range(2)]))
        out.append(B('cmp_%s_ms' % c, 'a:m2,1 b:s', 'a %s b' % op, 'm2,1', [r('a[%d]' % i, 'b[0]') for i in range(2)]))
        out.append(B('cmp_%s_sc' % c, 'a:s', 'a %s m.c[0]' % op, 's', [r('a[0]', 'c[0]')], nc=1))
        out.append(B('cmp_%s_cs' % c, 'a:s', 'm.c[0] %s a' % op, 's', [r('c[0]', 'a[0]')], nc=1))
        out.append(B('cmp_%s_vc' % c, 'a:v2', 'a %s ad::constant_view(m.c, 2)' % op, 'v2', [r('a[%d]' % i, 'c[%d]' % i) for i in range(2)], nc=2))
        out.append(B('cmp_%s_e' % c, 'a:s b:s', '(a * b) %s (a + b)' % op, 's', [r('a[0]*b[0]', 'a[0]+b[0]')]))
        # as a factor: contributes a value but no gradient of its own
        out.append(B('cmp_%s_f' % c, 'a:s b:s', '(a %s b) * a' % op, 's', ['%s*a[0]' % r('a[0]', 'b[0]')]))
    for l, op in (('and', '&&'), ('or', '||')):
        for x, y in (('lt', 'gt'), ('eq', 'le'), ('ne', 'ge')):
            out.append(B('log_%s_%s_%s' % (l, x, y), 'a:s b:s d:s', '(a %s b) %s (b %s d)' % (CMP[x], op, CMP[y]), 's',
                         ['((a[0] %s b[0]) %s (b[0] %s d[0])) ? 1. : 0.' % (CMP[x], op, CMP[y])]))
            out.append(B('log_%s_%s_%s_v' % (l, x, y), 'a:v2 b:v2 d:v2', '(a %s b) %s (b %s d)' % (CMP[x], op, CMP[y]), 'v2',
                         ['((a[%d] %s b[%d]) %s (b[%d] %s d[%d])) ? 1. : 0.' % (i, CMP[x], i, op, i, CMP[y], i) for i in range(2)]))
        out.append(B('log_%s_vs' % l, 'a:v2 b:s', '(a < 0.) %s (b < 1.)' % op, 'v2', ['((a[%d] < 0.) %s (b[0] < 1.)) ? 1. : 0.' % (i, op) for i in range(2)]))
        out.append(B('log_%s_sv' % l, 'a:v2 b:s', '(b < 1.) %s (a < 0.)' % op, 'v2', ['((a[%d] < 0.) %s (b[0] < 1.)) ? 1. : 0.' % (i, op) for i in range(2)]))
        out.append(B('log_%s_ms' % l, 'a:m1,2 b:s', '(a < 0.) %s (b < 1.)' % op, 'm1,2', ['((a[%d] < 0.) %s (b[0] < 1.)) ? 1. : 0.' % (i, op) for i in range(2)]))
        out.append(B('log_%s_sm' % l, 'a:m1,2 b:s', '(b < 1.) %s (a < 0.)' % op, 'm1,2', ['((a[%d] < 0.) %s (b[0] < 1.)) ? 1. : 0.' % (i, op) for i in range(2)]))
        out.append(B('log_%s_3' % l, 'a:s b:s d:s', '(a < b) %s ((b < d) %s (a < d))' % (op, '||' if op == '&&' else '&&'), 's',
                     ['((a[0] < b[0]) %s ((b[0] < d[0]) %s (a[0] < d[0]))) ? 1. : 0.' % (op, '||' if op == '&&' else '&&')]))
    return out


def ifelse(tier='quick'):
    out = []
    A = lambda *a, **k: out.append(B(*a, **k))
    A('if_s', 'a:s b:s', 'ad::if_else(a < b, a, b)', 's', ['a[0]<b[0] ? a[0] : b[0]'])
    A('if_ge', 'a:s b:s', 'ad::if_else(a >= b, a * b, a / b)', 's', ['a[0]>=b[0] ? a[0]*b[0] : a[0]/b[0]'])
    A('if_e', 'a:s b:s', 'ad::if_else(a * b < b, ad::sin(a) * b, ad::exp(b))', 's', ['a[0]*b[0]<b[0] ? std::sin(a[0])*b[0] : std::exp(b[0])'])
    A('if_v', 'a:v2 b:v2 z:s', 'ad::if_else(z > 0., a * b, a + b)', 'v2', ['z[0]>0. ? a[%d]*b[%d] : a[%d]+b[%d]' % (i, i, i, i) for i in range(2)])
    A('if_vl', 'a:v2 b:v2 z:s', 'ad::if_else(z > 0., a, b)', 'v2', ['z[0]>0. ? a[%d] : b[%d]' % (i, i) for i in range(2)])
    A('if_m', 'a:m2,1 b:m2,1 z:s', 'ad::if_else(z == 0., ad::sin(a), b)', 'm2,1', ['z[0]==0. ? std::sin(a[%d]) : b[%d]' % (i, i) for i in range(2)])
    A('if_c1', 'a:s', 'ad::if_else(a < 1., a * a, 2.)', 's', ['a[0]<1. ? a[0]*a[0] : 2.'])
    A('if_c2', 'a:s', 'ad::if_else(a < 1., 2., a * a)', 's', ['a[0]<1. ? 2. : a[0]*a[0]'])
    A('if_cv', 'a:v2 z:s', 'ad::if_else(z < 1., ad::constant_view(m.c, 2), a)', 'v2', ['z[0]<1. ? c[%d] : a[%d]' % (i, i) for i in range(2)], nc=2)
    A('if_cvo', 'a:v2 z:s', 'ad::if_else(z < 1., a, Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(m.c, 2)))', 'v2',
      ['z[0]<1. ? a[%d] : c[%d]' % (i, i) for i in range(2)], nc=2)
    A('if_cc', 'a:s b:s', 'ad::if_else(m.c[0] < m.c[1], a, b)', 's', ['c[0]<c[1] ? a[0] : b[0]'], nc=2) if False else None
    A('if_kc', 'a:s b:s', 'ad::if_else(ad::constant(m.c[0]) < m.c[1], a * b, b)', 's', ['c[0]<c[1] ? a[0]*b[0] : b[0]'], nc=2)
    A('if_in', 'a:s b:s', 'ad::sin(ad::if_else(a < b, a * a, b)) * b', 's', ['std::sin(a[0]<b[0] ? a[0]*a[0] : b[0])*b[0]'])
    A('if_inv', 'a:v2 b:v2 z:s', 'ad::sum(ad::if_else(z > 0., a * b, a) * b)', 's', ['z[0]>0. ? a[0]*b[0]*b[0]+a[1]*b[1]*b[1] : a[0]*b[0]+a[1]*b[1]'])
    A('if_nest', 'a:s b:s', 'ad::if_else(a < b, ad::if_else(a < 0., a * a, a * b), b / a)', 's', ['a[0]<b[0] ? (a[0]<0. ? a[0]*a[0] : a[0]*b[0]) : b[0]/a[0]'])
    A('if_nest2', 'a:s b:s', 'ad::if_else(a < b, a, ad::if_else(b < 0., b * b, a * b))', 's', ['a[0]<b[0] ? a[0] : (b[0]<0. ? b[0]*b[0] : a[0]*b[0])'])
    A('if_log', 'a:s b:s', 'ad::if_else((a < b) && (b < 1.), a, a * b)', 's', ['(a[0]<b[0]&&b[0]<1.) ? a[0] : a[0]*b[0]'])
    A('if_log2', 'a:s b:s', 'ad::if_else((a < b) || (b == 1.), a, a * b)', 's', ['(a[0]<b[0]||b[0]==1.) ? a[0] : a[0]*b[0]'])
    A('if_same', 'a:s', 'ad::if_else(a > 0., a, -a)', 's', ['a[0]>0. ? a[0] : -a[0]'])
    A('if_glue', 'a:s b:s', '(w = ad::if_else(a < b, a * a, b), w * w)', 's', ['(a[0]<b[0]?a[0]*a[0]:b[0])*(a[0]<b[0]?a[0]*a[0]:b[0])'], ph='w:s')
    A('if_last', 'a:s b:s', '(w = a * b, ad::if_else(w < a, w, b * w))', 's', ['a[0]*b[0]<a[0] ? a[0]*b[0] : b[0]*a[0]*b[0]'], ph='w:s')
    A('if_sum', 'a:v3', 'ad::sum(r.begin(), r.end(), [](const auto& e) { return ad::if_else(e > 0., e * e, -e); })', 's',
      ['+'.join('(a[%d]>0.?a[%d]*a[%d]:-a[%d])' % (i, i, i, i) for i in range(3))], decl='std::vector<S> r{a[0], a[1], a[2]};')
    A('if_prod', 'a:v2', 'ad::prod(r.begin(), r.end(), [](const auto& e) { return ad::if_else(e > 1., e, e * 2.); })', 's',
      ['*'.join('(a[%d]>1.?a[%d]:a[%d]*2.)' % (i, i, i) for i in range(2))], decl='std::vector<S> r{a[0], a[1]};')
    A('if_pow', 'a:s', 'ad::pow<2>(ad::if_else(a > 1., a * a, a))', 's', ['a[0]>1. ? a[0]*a[0]*a[0]*a[0] : a[0]*a[0]'])
    A('if_dot', 'a:m2,2 b:v2 z:s', 'ad::dot(a, ad::if_else(z > 1., b, b * z))', 'v2',
      ['(a[0]*b[0]+a[2]*b[1])*(z[0]>1.?1.:z[0])', '(a[1]*b[0]+a[3]*b[1])*(z[0]>1.?1.:z[0])'])
    A('if_asg2', 'a:s b:s', '(ad::if_else(a < b, (w = a * a), (w = b + a)), w * w)', 's',
      ['(a[0]<b[0] ? a[0]*a[0]*a[0]*a[0] : (b[0]+a[0])*(b[0]+a[0]))'], ph='w:s')
    A('if_opeq', 'y:s a:s b:s', '(ad::if_else(a < b, (y += a), (y *= b)), y * y)', 's',
      ['(a[0]<b[0] ? (y[0]+a[0])*(y[0]+a[0]) : y[0]*b[0]*y[0]*b[0])'], prep='k.ax[0] = 0; ', zeroed=[0], mutates=1)
    A('if_opeq1', 'y:s a:s b:s', '(ad::if_else(a < b, a * b, (y -= a)), y * b)', 's',
      ['(a[0]<b[0] ? y[0]*b[0] : (y[0]-a[0])*b[0])'], prep='k.ax[0] = 0; ', zeroed=[0], mutates=1)
    A('if_glub', 'a:s b:s', 'ad::if_else(a < b, (w = a * b, w * w), (u = ad::sin(a), u * b))', 's',
      ['(a[0]<b[0] ? a[0]*b[0]*a[0]*b[0] : std::sin(a[0])*b[0])'], ph='w:s u:s')
    A('if_stat', 'a:s b:s', 'ad::normal_adj_log_pdf(a, ad::if_else(a > b, b, b * b), 1.)', 's',
      ['-0.5*(a[0]-(a[0]>b[0]?b[0]:b[0]*b[0]))*(a[0]-(a[0]>b[0]?b[0]:b[0]*b[0]))'])
    return [b for b in out if b]


def foreach(tier='quick'):
    out = []
    A = lambda *a, **k: out.append(B(*a, **k))
    dv = 'std::vector<S> r; for (int i = 0; i < %d; ++i) r.push_back(a[i]); '
    pv = 'std::vector<S> q; for (int i = 0; i < %d; ++i) q.push_back(w[i]); std::vector<int> ix; for (int i = 0; i < %d; ++i) ix.push_back(i); '
    for n in sizes([1, 2, 3, 5]):
        A('fe_%d' % n, 'a:v%d' % n, 'ad::for_each(r.begin(), r.end(), [](const auto& e) { return ad::sin(e); })', 's', ['std::sin(a[%d])' % (n - 1)], decl=dv % n)
        A('fe_ph%d' % n, 'a:v%d b:s' % n, '(ad::for_each(ix.begin(), ix.end(), [&](int i) { return q[i] = r[i] * b; }), ad::sum(w * w))', 's',
          ['+'.join('a[%d]*a[%d]*b[0]*b[0]' % (i, i) for i in range(n))], ph='w:v%d' % n, decl=dv % n + pv % (n, n))
        A('fe_sq%d' % n, 'a:s b:s', '(q[0] = a * b, ad::for_each(ix.begin(), ix.end(), [&](int i) { return q[i+1] = q[i] * a + b; }), q[%d] * q[%d])' % (n, n - 1), 's',
          'double t = a[0]*b[0], p = t; for (int i = 0; i < %d; ++i) { p = t; t = t*a[0]+b[0]; } W[0] = t*p;' % n, ph='w:v%d' % (n + 1), decl=pv % (n + 1, n))
    A('fe_v', 'a:v2 b:v2', 'ad::for_each(r.begin(), r.end(), [](const auto& e) { return ad::exp(e); })', 'v2', ['std::exp(b[%d])' % i for i in range(2)],
      decl='std::vector<V> r{a, b};')
    A('fe_m', 'a:m1,2 b:m1,2', 'ad::for_each(r.begin(), r.end(), [&](const auto& e) { return e * b; })', 'm1,2', ['b[%d]*b[%d]' % (i, i) for i in range(2)],
      decl='std::vector<M> r{a, b};')
    A('fe_vph', 'a:v2 b:v2', '(ad::for_each(ix.begin(), ix.end(), [&](int i) { return q[i] = r[i] * a; }), ad::sum(u * t))', 's',
      ['+'.join('a[%d]*a[%d]*b[%d]*a[%d]' % (i, i, i, i) for i in range(2))], ph='u:v2 t:v2', decl='std::vector<V> r{a, b}; std::vector<V> q{u, t}; std::vector<int> ix{0, 1};')
    A('fe_last', 'a:v2', 'ad::sin(ad::for_each(r.begin(), r.end(), [](const auto& e) { return ad::exp(e); })) * a[0]', 's', ['std::sin(std::exp(a[1]))*a[0]'], decl=dv % 2)
    A('fe_lst', 'a:s b:s', '(ad::for_each(ix.begin(), ix.end(), [&](int i) { return q[i] = a * (b + double(i)); }))', 's', ['a[0]*(b[0]+1.)'], ph='w:v2', decl=pv % (2, 2))
    A('fe_opeq', 'z:s a:v2', '(ad::for_each(r.begin(), r.end(), [&](const auto& e) { return z += e * z; }), z * z)', 's',
      ['(z[0]*(1+a[0])*(1+a[1]))*(z[0]*(1+a[0])*(1+a[1]))'], decl=dv % 2, prep='k.ax[0] = 0; ', zeroed=[0])
    for n1, n2 in ((1, 3), (3, 1)):
        A('fe_sz%d' % n1, 'a:v%d b:v%d' % (n1, n2), '(ad::for_each(ix.begin(), ix.end(), [&](int i) { return q[i] = ad::sum(ad::sin(r[i])); }), q[0] * q[1])', 's',
          ['(%s)*(%s)' % tuple('+'.join('std::sin(%s[%d])' % (v, i) for i in range(n)) for v, n in (('a', n1), ('b', n2)))],
          ph='w:v2', decl='std::vector<V> r{a, b}; std::vector<S> q{w[0], w[1]}; std::vector<int> ix{0, 1};')
    A('fe_opeqm', 'z:s a:v2', '(ad::for_each(r.begin(), r.end(), [&](const auto& e) { return z *= e; }), z)', 's', ['z[0]*a[0]*a[1]'], decl=dv % 2, prep='k.ax[0] = 0; ', zeroed=[0])
    return out


# ---------------------------------------------------------------- constants
def folded(tier='quick'):
    """constant subexpressions have the value of the same expression over variables"""
    out = []
    cs = 'ad::constant(m.c[0])'
    cv = 'ad::constant(Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(m.c, 2)))'
    vw = 'ad::constant_view(m.c, 2)'
    vm = 'ad::constant_view(m.c, 2, 2)'
    A = lambda *a, **k: out.append(B(*a, nc=4, **k))
    from catalog import UN
    for f, (call, ref) in UN.items():
        A('cf_%s_s' % f, 'a:s', '%s(%s) * a' % (call, cs), 's', [ref.format('c[0]') + '*a[0]'])
        A('cf_%s_v' % f, 'a:s', '%s(%s) * a' % (call, cv), 'v2', [ref.format('c[%d]' % i) + '*a[0]' for i in range(2)])
        A('cf_%s_vw' % f, 'a:s', '%s(%s) * a' % (call, vw), 'v2', [ref.format('c[%d]' % i) + '*a[0]' for i in range(2)])
        A('cf_%s_m' % f, 'a:s', 'ad::sum(%s(%s) * a)' % (call, vm), 's', ['(' + '+'.join(ref.format('c[%d]' % i) for i in range(4)) + ')*a[0]'])
    for o, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/')):
        A('cf_%s_ss' % o, 'a:s', '(%s %s m.c[1]) * a' % (cs, op), 's', ['(c[0]%sc[1])*a[0]' % op])
        A('cf_%s_sv' % o, 'a:s', '(%s %s %s) * a' % (cs, op, vw), 'v2', ['(c[0]%sc[%d])*a[0]' % (op, i) for i in range(2)])
        A('cf_%s_vv' % o, 'a:v2', '(%s %s %s) * a' % (cv, op, 'ad::constant_view(m.c+2, 2)'), 'v2', ['(c[%d]%sc[%d])*a[%d]' % (i, op, i + 2, i) for i in range(2)])
        A('cf_%s_mm' % o, 'a:s', 'ad::sum((%s %s %s) * a)' % (vm, op, vm), 's', ['(' + '+'.join('(c[%d]%sc[%d])' % (i, op, i) for i in range(4)) + ')*a[0]'])
    for c, op in CMP.items():
        A('cf_%s' % c, 'a:s', '(%s %s m.c[1]) * a' % (cs, op), 's', ['((c[0]%sc[1])?1.:0.)*a[0]' % op])
    A('cf_sum', 'a:s', 'ad::sum(%s) * a' % cv, 's', ['(c[0]+c[1])*a[0]'])
    A('cf_sumw', 'a:s', 'ad::sum(%s) * a' % vm, 's', ['(c[0]+c[1]+c[2]+c[3])*a[0]'])
    A('cf_prod', 'a:s', 'ad::prod(%s) * a' % cv, 's', ['c[0]*c[1]*a[0]'])
    A('cf_prodw', 'a:s', 'ad::prod(%s) * a' % vm, 's', ['c[0]*c[1]*c[2]*c[3]*a[0]'])
    A('cf_norm', 'a:s', 'ad::norm(%s) * a' % vw, 's', ['(c[0]*c[0]+c[1]*c[1])*a[0]'])
    A('cf_normm', 'a:s', 'ad::norm(%s) * a' % vm, 's', ['(c[0]*c[0]+c[1]*c[1]+c[2]*c[2]+c[3]*c[3])*a[0]'])
    for n in (0, 1, 2, 3, -1, -2):
        r = lambda x: '1.' if n == 0 else ('*'.join([x] * n) if n > 0 else '(1./(%s))' % '*'.join([x] * -n))
        t = str(n).replace('-', 'm')
        A('cf_pow%s' % t, 'a:s', 'ad::pow<%d>(%s) * a' % (n, cs), 's', [r('c[0]') + '*a[0]'], assume='c[0] != 0')
        A('cf_powv%s' % t, 'a:s', 'ad::pow<%d>(%s) * a' % (n, vw), 'v2', [r('c[%d]' % i) + '*a[0]' for i in range(2)], assume='c[0] != 0 && c[1] != 0')
    A('cf_dot', 'a:s', 'ad::dot(%s, %s) * a' % (vm, vw), 'v2', ['(c[0]*c[0]+c[2]*c[1])*a[0]', '(c[1]*c[0]+c[3]*c[1])*a[0]'])
    D = '(c[0]*c[3]-c[2]*c[1])'
    A('cf_det', 'a:s', 'ad::det(%s) * a' % CM22, 's', [D + '*a[0]'], assume=D + ' != 0')
    A('cf_logdet', 'a:s', 'ad::log_det(%s) * a' % CM22, 's', ['std::log(std::abs(%s))*a[0]' % D], assume=D + ' != 0')
    A('cf_detw', 'a:s', 'ad::det(%s) * a' % vm, 's', [D + '*a[0]'], assume=D + ' != 0')
    A('cf_logdetw', 'a:s', 'ad::log_det(%s) * a' % vm, 's', ['std::log(std::abs(%s))*a[0]' % D], assume=D + ' != 0')
    A('cf_tr', 'a:m2,2', 'ad::transpose(%s) * a' % vm, 'm2,2', ['c[0]*a[0]', 'c[2]*a[1]', 'c[1]*a[2]', 'c[3]*a[3]'])
    A('cf_if', 'a:s', 'ad::if_else(%s < m.c[1], ad::constant(m.c[2]), ad::constant(m.c[3])) * a' % cs, 's', ['(c[0]<c[1]?c[2]:c[3])*a[0]'])
    rr = 'std::vector<double> r{m.c[0], m.c[1], m.c[2]};'
    A('cf_sumr', 'a:s', 'ad::sum(r.begin(), r.end(), [](double e) { return ad::constant(e * e); }) * a', 's', ['(c[0]*c[0]+c[1]*c[1]+c[2]*c[2])*a[0]'], decl=rr)
    A('cf_prodr', 'a:s', 'ad::prod(r.begin(), r.end(), [](double e) { return ad::constant(e + 1.); }) * a', 's', ['(c[0]+1.)*(c[1]+1.)*(c[2]+1.)*a[0]'], decl=rr)
    A('cf_deep', 'a:s', 'ad::sin(%s * 2. + 1.) * a + ad::exp(%s)' % (cs, cs), 's', ['std::sin(c[0]*2.+1.)*a[0]+std::exp(c[0])'])
    return out


# ---------------------------------------------------------------- views
def views(tier='quick'):
    out = []
    A = lambda *a, **k: out.append(B(*a, **k))
    A('vw_call', 'a:v3', 'a(0) * a(2) + a(1)', 's', ['a[0]*a[2]+a[1]'])
    A('vw_idx', 'a:v3', 'a[1] * a[1] - a[2]', 's', ['a[1]*a[1]-a[2]'])
    for n in (1, 2, 3):
        A('vw_head%d' % n, 'a:v3', 'ad::sum(ad::sin(a.head(%d)))' % n, 's', ['+'.join('std::sin(a[%d])' % i for i in range(n))])
        A('vw_tail%d' % n, 'a:v3', 'ad::sum(ad::sin(a.tail(%d)))' % n, 's', ['+'.join('std::sin(a[%d])' % i for i in range(3 - n, 3))])
    A('vw_mix', 'a:v4', 'a.head(2) * a.tail(2) + a[3]', 'v2', ['a[%d]*a[%d]+a[3]' % (i, i + 2) for i in range(2)])
    A('vw_overlap', 'a:v3', 'ad::sum(a.head(2) * a.tail(2)) * ad::sum(a)', 's', ['(a[0]*a[1]+a[1]*a[2])*(a[0]+a[1]+a[2])'])
    A('vw_sub', 'a:v4', 'a.tail(3).head(2)[1] * a.head(2).tail(1)[0]', 's', ['a[2]*a[1]'])
    A('vw_whole', 'a:v2', 'ad::sum(a * a) + a[0]', 's', ['a[0]*a[0]+a[1]*a[1]+a[0]'])
    return out

"""Type-level witnesses: shapes, value types and constness of expressions, decided by the compiler's type checker."""
import concurrent.futures as cf
import os
import re
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'engine'))
import pipeline  # noqa: E402

PRE = r'''
#include <fastad>
#include <vector>
#include <type_traits>
using VS = ad::Var<double, ad::scl>; using VV = ad::Var<double, ad::vec>; using VM = ad::Var<double, ad::mat>;
using S = ad::VarView<double, ad::scl>; using V = ad::VarView<double, ad::vec>; using M = ad::VarView<double, ad::mat>;
VS& s(); VS& t(); VV& v(); VV& u(); VM& m(); VM& n(); std::vector<VS>& sr(); std::vector<VV>& vr();
struct Sq { template <class E> auto operator()(const E& e) const { return e * e; } };
const double& cd(); const Eigen::VectorXd& cv(); const Eigen::MatrixXd& cm(); const double* cp();
template <class E> using sh = typename ad::util::expr_traits<std::decay_t<E>>::shape_t;
template <class E> using vt = typename ad::util::expr_traits<std::decay_t<E>>::value_t;
template <class E> constexpr bool scl_ = std::is_same_v<sh<E>, ad::scl> && ad::util::is_expr_v<std::decay_t<E>>;
template <class E> constexpr bool vec_ = std::is_same_v<sh<E>, ad::vec> && ad::util::is_expr_v<std::decay_t<E>>;
template <class E> constexpr bool mat_ = std::is_same_v<sh<E>, ad::mat> && ad::util::is_expr_v<std::decay_t<E>>;
template <class E> constexpr bool con_ = ad::util::is_constant_v<std::decay_t<E>>;
using FS = ad::Var<float, ad::scl>; using FV = ad::Var<float, ad::vec>; using FM = ad::Var<float, ad::mat>;
FS& fs(); FV& fv(); FM& fm(); std::vector<FS>& fr(); const Eigen::VectorXf& cvf(); const Eigen::MatrixXf& cmf(); const float* fp();
using MapV = Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, 1>>;
using MapM = Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic>>;
'''

UNARY = ['-', 'ad::sin', 'ad::cos', 'ad::tan', 'ad::asin', 'ad::acos', 'ad::atan', 'ad::exp', 'ad::log', 'ad::sqrt', 'ad::erf',
         'ad::sinh', 'ad::cosh', 'ad::tanh', 'ad::sigmoid', 'ad::pow<3>', 'ad::pow<0>', 'ad::pow<-1>']


def ok():
    """(name, expression, kind): kind s|v|m (shape), k prefix = constant, value type double"""
    out = []
    A = lambda nm, e, k: out.append((nm, e, k))
    leaf = {'s': 's()', 'v': 'v()', 'm': 'm()'}
    leaf2 = {'s': 't()', 'v': 'u()', 'm': 'n()'}
    con = {'s': 'ad::constant(cd())', 'v': 'ad::constant(cv())', 'm': 'ad::constant(cm())'}
    raw = {'s': 'cd()', 'v': 'cv()', 'm': 'cm()'}
    view = {'v': 'ad::constant_view(cp(), 2)', 'm': 'ad::constant_view(cp(), 2, 2)'}
    for k in 'svm':
        A('con_' + k, con[k], 'k' + k)
        for f in UNARY:
            g = f.replace('ad::', '').replace('<', '').replace('>', '').replace('-', 'm')
            A('un_%s_%s' % (g, k), '%s(%s)' % (f, leaf[k]), k)
            A('un_%s_%s_e' % (g, k), '%s(%s * %s)' % (f, leaf[k], leaf2[k]), k)
            A('un_%s_%s_c' % (g, k), '%s(%s)' % (f, con[k]), 'k' + k)
            if k in view:
                A('un_%s_%s_w' % (g, k), '%s(%s)' % (f, view[k]), 'k' + k)
    for k in 'vm':
        A('view_' + k, view[k], 'k' + k)
    mx = {'ss': 's', 'sv': 'v', 'vs': 'v', 'vv': 'v', 'sm': 'm', 'ms': 'm', 'mm': 'm'}
    opn = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'ne'}
    for o, nm in opn.items():
        for ab, r in mx.items():
            a, b = ab
            A('bin_%s_%s' % (nm, ab), '%s %s %s' % (leaf[a], o, leaf2[b]), r)
            A('bin_%s_%s_xc' % (nm, ab), '%s %s %s' % (leaf[a], o, con[b]), r)
            A('bin_%s_%s_cx' % (nm, ab), '%s %s %s' % (con[a], o, leaf[b]), r)
            A('bin_%s_%s_cc' % (nm, ab), '%s %s %s' % (con[a], o, con[b]), 'k' + r)
            A('bin_%s_%s_xr' % (nm, ab), 'ad::sin(%s) %s %s' % (leaf[a], o, raw[b]), r)
            A('bin_%s_%s_rx' % (nm, ab), '%s %s ad::sin(%s)' % (raw[a], o, leaf[b]), r)
            A('bin_%s_%s_ee' % (nm, ab), '(%s * %s) %s ad::exp(%s)' % (leaf[a], leaf2[a], o, leaf[b]), r)
    for o, nm in (('&&', 'and'), ('||', 'or')):
        for ab, r in mx.items():
            a, b = ab
            A('log_%s_%s' % (nm, ab), '(%s < 0.) %s (%s < 1.)' % (leaf[a], o, leaf[b]), r)
    for f in ('sum', 'prod', 'norm'):
        for k in 'vm':
            A('%s_%s' % (f, k), 'ad::%s(%s)' % (f, leaf[k]), 's')
            A('%s_%s_e' % (f, k), 'ad::%s(%s * %s)' % (f, leaf[k], leaf2[k]), 's')
            A('%s_%s_c' % (f, k), 'ad::%s(%s)' % (f, con[k]), 'ks')
            A('%s_%s_w' % (f, k), 'ad::%s(%s)' % (f, view[k]), 'ks')
    for f in ('sum', 'prod'):
        A(f + '_r', 'ad::%s(sr().begin(), sr().end(), Sq{})' % f, 's')
    A('sum_rv', 'ad::sum(vr().begin(), vr().end(), Sq{})', 'v')
    A('fe_s', 'ad::for_each(sr().begin(), sr().end(), Sq{})', 's')
    A('fe_v', 'ad::for_each(vr().begin(), vr().end(), Sq{})', 'v')
    for p in ('', '<ad::%sFullPivLU>', '<ad::%sLDLT>', '<ad::%sLLT>'):
        for f, pre in (('det', 'Det'), ('log_det', 'LogDet')):
            q = p.replace('%s', pre)
            nm = f + '_' + (p[6:-1] or 'd')
            A(nm, 'ad::%s%s(m())' % (f, q), 's')
            A(nm + '_e', 'ad::%s%s(m() * m())' % (f, q), 's')
            A(nm + '_c', 'ad::%s%s(%s)' % (f, q, con['m']), 'ks')
    A('dot_mv', 'ad::dot(m(), v())', 'v')
    A('dot_mm', 'ad::dot(m(), n())', 'm')
    A('dot_cmv', 'ad::dot(cm(), v())', 'v')
    A('dot_mcv', 'ad::dot(m(), cv())', 'v')
    A('dot_cmm', 'ad::dot(cm(), m())', 'm')
    A('dot_cc', 'ad::dot(%s, %s)' % (con['m'], con['v']), 'kv')
    A('dot_ccm', 'ad::dot(%s, %s)' % (con['m'], con['m']), 'km')
    A('tr_m', 'ad::transpose(m())', 'm')
    A('tr_v', 'ad::transpose(v())', 'm')
    A('tr_e', 'ad::transpose(m() + n())', 'm')
    A('tr_c', 'ad::transpose(%s)' % con['m'], 'km')
    A('dot_tr', 'ad::dot(ad::transpose(v()), v())', 'v')
    for k in 'svm':
        A('if_' + k, 'ad::if_else(s() < t(), %s, %s)' % (leaf[k], leaf2[k]), k)
        A('if_e_' + k, 'ad::if_else(s() < t(), %s * %s, %s)' % (leaf[k], leaf[k], leaf2[k]), k)
        A('if_c_' + k, 'ad::if_else(s() < 1., %s, %s)' % (leaf[k], con[k]), k)
        A('eq_' + k, '(%s = %s * %s)' % (leaf[k], leaf2[k], leaf2[k]), k)
        for o in ('+=', '-=', '*=', '/='):
            nm = {'+=': 'a', '-=': 's', '*=': 'm', '/=': 'd'}[o]
            A('op_%s_%s' % (nm, k), '(%s %s %s)' % (leaf[k], o, leaf2[k]), k)
            A('op_%s_%s_s' % (nm, k), '(%s %s s() * t())' % (leaf[k], o), k)
            A('op_%s_%s_c' % (nm, k), '(%s %s 2.)' % (leaf[k], o), k)
        for k2 in 'svm':
            A('gl_%s%s' % (k, k2), '(%s = ad::sin(%s), ad::cos(%s))' % (leaf[k], leaf2[k], leaf[k2]), k2)
    for d, ok3 in (('normal', ('sss', 'vss', 'vvs', 'vsv', 'vvv')), ('cauchy', ('sss', 'vss', 'vvs', 'vsv', 'vvv')), ('uniform', ('sss', 'vss', 'vvs', 'vsv', 'vvv'))):
        for c in ok3:
            for mask in range(8):
                if mask == 7:
                    continue
                args = [(raw[x] if mask >> i & 1 else (leaf if i != 1 else leaf2)[x]) for i, x in enumerate(c)]
                A('st_%s_%s_%d' % (d, c, mask), 'ad::%s_adj_log_pdf(%s)' % (d, ', '.join(args)), 's')
    A('st_normal_m', 'ad::normal_adj_log_pdf(v(), u(), m())', 's')
    A('st_normal_ms', 'ad::normal_adj_log_pdf(v(), s(), m())', 's')
    A('st_normal_mc', 'ad::normal_adj_log_pdf(cv(), u(), m())', 's')
    A('st_normal_mk', 'ad::normal_adj_log_pdf(v(), u(), cm())', 's')
    A('st_bern_ss', 'ad::bernoulli_adj_log_pdf(1, s())', 's')
    A('st_bern_ss2', 'ad::bernoulli_adj_log_pdf(ad::constant(1), s())', 's')
    A('st_wish', 'ad::wishart_adj_log_pdf(m(), n(), 5)', 's')
    A('st_wish_c', 'ad::wishart_adj_log_pdf(cm(), n(), 5)', 's')
    A('st_wish_v', 'ad::wishart_adj_log_pdf(m(), cm(), 5)', 's')
    return [x for x in out if x]


# integers never truncate: constants of integer type mix with double expressions as doubles
MIXED = [('mix_%s_%s' % (nm, w), e) for nm, w, e in
         [('ladd', 'i', '(2 + s())'), ('lsub', 'i', '(2 - s())'), ('lmul', 'i', '(2 * s())'), ('ldiv', 'i', '(1 / s())'),
          ('radd', 'i', '(s() + 2)'), ('rsub', 'i', '(s() - 2)'), ('rmul', 'i', '(s() * 2)'), ('rdiv', 'i', '(s() / 2)'),
          ('lmulv', 'i', '(2 * v())'), ('rdivv', 'i', '(v() / 2)'), ('rmulm', 'i', '(m() * 2)'), ('lsubm', 'i', '(1 - m())')]]

def floats():
    """(name, expression, value type, shape): expressions of single-precision variables, alone and mixed"""
    L = {'s': 'fs()', 'v': 'fv()', 'm': 'fm()'}
    out = []
    for k, l in L.items():
        for f in UNARY:
            out.append(('%s(%s)' % (f, l), 'float', k))
        for o in ('+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!='):
            for r, t in (('1.f', 'float'), ('2', 'float'), ('ad::constant(1.f)', 'float'), ('fs()', 'float')) + (
                    (('2.', 'double'), ('s()', 'double'), ('ad::constant(2.)', 'double')) if k == 's' else ()):
                out.append(('%s %s %s' % (l, o, r), t, k))
                out.append(('%s %s %s' % (r, o, l), t, k))
        for k2, r in (('v', 'cvf()'), ('m', 'cmf()'), ('v', 'fv()'), ('m', 'fm()'), ('v', 'ad::constant_view(fp(), 2)')):
            if k2 == k or k == 's':
                for o in '+-*/':
                    out.append(('%s %s %s' % (l, o, r), 'float', k2))
        if k != 's':
            for f in ('sum', 'prod', 'norm'):
                out.append(('ad::%s(%s)' % (f, l), 'float', 's'))
        out.append(('ad::if_else(fs() < 1.f, %s, %s)' % (l, l), 'float', k))
        out.append(('(%s = %s * fs())' % (l, l), 'float', k))
        for o in '+-*/':
            out.append(('(%s %s= fs())' % (l, o), 'float', k))
            out.append(('(%s %s= 2.f)' % (l, o), 'float', k))
    for d in ('normal', 'cauchy', 'uniform'):
        for a in ('sss', 'vss', 'vvs', 'vsv', 'vvv'):
            out.append(('ad::%s_adj_log_pdf(%s)' % (d, ', '.join(L[x] for x in a)), 'float', 's'))
            out.append(('ad::%s_adj_log_pdf(%s)' % (d, ', '.join(L[x] if i != 1 else {'s': '1.f', 'v': 'cvf()'}[x] for i, x in enumerate(a))), 'float', 's'))
    out += [(e, 'float', k) for e, k in (
        ('ad::dot(fm(), fv())', 'v'), ('ad::dot(fm(), fm())', 'm'), ('ad::dot(cmf(), fv())', 'v'), ('ad::transpose(fm())', 'm'),
        ('ad::det(fm())', 's'), ('ad::log_det(fm())', 's'), ('(fv() = fv() * fs(), ad::sum(fv()))', 's'),
        ('ad::sum(fr().begin(), fr().end(), Sq{})', 's'), ('ad::prod(fr().begin(), fr().end(), Sq{})', 's'),
        ('ad::for_each(fr().begin(), fr().end(), Sq{})', 's'), ('ad::wishart_adj_log_pdf(fm(), fm(), 5)', 's'),
        ('ad::bernoulli_adj_log_pdf(1, fs())', 's'), ('ad::normal_adj_log_pdf(fv(), fv(), fm())', 's'))]
    out += [('s() * 2', 'double', 's'), ('s() + 1.f', 'double', 's'), ('2 / s()', 'double', 's'), ('v() * 2', 'double', 'v'), ('m() - 1', 'double', 'm')]
    return [('fl%d' % i, e, t, k) for i, (e, t, k) in enumerate(out)]


def instantiate_typed(n, e, t, k):
    seed = {'s': '', 'v': ', *(Eigen::Array<%s, -1, 1>*)nullptr' % t, 'm': ', *(Eigen::Array<%s, -1, -1>*)nullptr' % t}[k]
    ret = '' if k != 's' else 'static_assert(std::is_same_v<std::decay_t<decltype(r)>, %s>, "result"); ' % t
    return 'static_assert(std::is_same_v<vt<decltype(%s)>, %s>, "%s: value type of %s"); static_assert(%s_<decltype(%s)>, "%s");\n' \
           'void f_%s() { auto e = %s; auto b = ad::bind(e); auto&& r = ad::autodiff(b%s); %s(void)r; }' % (
               e, t, n, e, {'s': 'scl', 'v': 'vec', 'm': 'mat'}[k], e, n, n, e, seed, ret)


ASSERTS = [
    ('con_i', 'std::is_same_v<vt<decltype(ad::constant(1))>, int> && std::is_same_v<vt<decltype(ad::constant(1.f))>, float>'),
    ('con_f', 'std::is_same_v<vt<decltype(ad::constant(cvf()))>, float> && std::is_same_v<vt<decltype(ad::constant_view(fp(), 2))>, float>'),
    ('sub_f', 'std::is_same_v<vt<decltype(fv().head(1))>, float> && std::is_same_v<vt<decltype(fv()(0))>, float>'),
    ('conv_i', 'std::is_same_v<vt<ad::util::convert_to_ad_t<int>>, int> && std::is_same_v<vt<ad::util::convert_to_ad_t<float>>, float>'),
    ('ret_s', 'std::is_same_v<std::decay_t<decltype(ad::autodiff(ad::bind(s() * t())))>, double>'),
    ('ret_s_seed', 'std::is_same_v<std::decay_t<decltype(ad::autodiff(ad::bind(s() * t()), 2.))>, double>'),
    ('ret_ev', 'std::is_same_v<std::decay_t<decltype(ad::evaluate(ad::bind(s() * t())))>, double>'),
    ('ret_v', 'std::is_same_v<std::decay_t<decltype(ad::autodiff(ad::bind(v() * t()), std::declval<Eigen::ArrayXd&>()))>, MapV>'),
    ('ret_m', 'std::is_same_v<std::decay_t<decltype(ad::autodiff(ad::bind(m() * t()), std::declval<Eigen::ArrayXXd&>()))>, MapM>'),
    ('var_view_s', 'std::is_base_of_v<S, VS>'), ('var_view_v', 'std::is_base_of_v<V, VV>'), ('var_view_m', 'std::is_base_of_v<M, VM>'),
    ('conv_s', 'std::is_same_v<ad::util::convert_to_ad_t<VS>, S>'), ('conv_v', 'std::is_same_v<ad::util::convert_to_ad_t<VV>, V>'),
    ('conv_m', 'std::is_same_v<ad::util::convert_to_ad_t<VM>, M>'),
    ('conv_d', 'con_<ad::util::convert_to_ad_t<double>> && scl_<ad::util::convert_to_ad_t<double>>'),
    ('conv_ev', 'con_<ad::util::convert_to_ad_t<Eigen::VectorXd>> && vec_<ad::util::convert_to_ad_t<Eigen::VectorXd>>'),
    ('conv_em', 'con_<ad::util::convert_to_ad_t<Eigen::MatrixXd>> && mat_<ad::util::convert_to_ad_t<Eigen::MatrixXd>>'),
    ('conv_str', '!ad::util::is_convertible_to_ad_v<const char*> && !ad::util::is_convertible_to_ad_v<std::vector<double>>'),
    ('noexpr', '!ad::util::is_expr_v<double> && !ad::util::is_expr_v<Eigen::VectorXd>'),
    ('sub_call', 'std::is_same_v<std::decay_t<decltype(v()(0))>, S>'), ('sub_idx', 'std::is_same_v<std::decay_t<decltype(v()[0])>, S>'),
    ('sub_head', 'std::is_same_v<std::decay_t<decltype(v().head(1))>, V>'), ('sub_tail', 'std::is_same_v<std::decay_t<decltype(v().tail(1))>, V>'),
    ('default_shape', 'std::is_same_v<ad::Var<double>, VS> && std::is_same_v<ad::VarView<double>, S>'),
    ('fwd', 'std::is_same_v<std::decay_t<decltype(std::declval<ad::ForwardVar<double>>() * std::declval<ad::ForwardVar<double>>())>, ad::ForwardVar<double>>'),
    ('fwd_f', 'std::is_same_v<std::decay_t<decltype(ad::sin(std::declval<ad::ForwardVar<float>>()))>, ad::ForwardVar<float>>'),
    ('fwd_ctor', 'std::is_default_constructible_v<ad::ForwardVar<double>> && std::is_constructible_v<ad::ForwardVar<double>, double, double>'),
    ('copy_bind', 'std::is_copy_constructible_v<decltype(ad::bind(s() * t()))> && std::is_copy_assignable_v<decltype(ad::bind(s() * t()))>'),
    ('copy_var', 'std::is_copy_constructible_v<VM> && std::is_copy_assignable_v<VV> && std::is_move_constructible_v<VS>'),
    ('float_var', 'std::is_same_v<typename ad::util::expr_traits<std::decay_t<decltype(ad::sin(std::declval<ad::Var<float>&>()))>>::value_t, float>'),
    ('float_mix', 'std::is_same_v<typename ad::util::expr_traits<std::decay_t<decltype(std::declval<ad::Var<float>&>() * std::declval<VS&>())>>::value_t, double>'),
]

# (name, declarations, accepted statement, rejected statement)
REJECT = [
    ('vec_plus_mat', '', 'auto e = v() + u();', 'auto e = v() + m();'),
    ('mat_times_vec', '', 'auto e = m() * n();', 'auto e = m() * v();'),
    ('cmp_vec_mat', '', 'auto e = v() < u();', 'auto e = v() < m();'),
    ('vec_plus_const_mat', '', 'auto e = v() + cv();', 'auto e = v() + cm();'),
    ('assign_shape', '', 'auto e = (v() = ad::sin(u()));', 'auto e = (v() = ad::sin(m()));'),
    ('assign_shape_s', '', 'auto e = (s() = ad::sum(u()));', 'auto e = (s() = ad::sin(u()));'),
    ('assign_vec_scalar', '', 'auto e = (v() = u() * s());', 'auto e = (v() = s() * t());'),
    ('compound_shape', '', 'auto e = (v() += u());', 'auto e = (v() += m());'),
    ('compound_scalar_from_vec', '', 'auto e = (s() *= t());', 'auto e = (s() *= v());'),
    ('if_cond_scalar', '', 'auto e = ad::if_else(s() < t(), v(), u());', 'auto e = ad::if_else(v() < u(), v(), u());'),
    ('if_branch_shape', '', 'auto e = ad::if_else(s() < t(), v(), u());', 'auto e = ad::if_else(s() < t(), v(), m());'),
    ('if_branch_scl', '', 'auto e = ad::if_else(s() < t(), s(), t());', 'auto e = ad::if_else(s() < t(), s(), v());'),
    ('seed_needed_v', '', 'auto e = ad::bind(v() * u()); Eigen::ArrayXd q(2); ad::autodiff(e, q);', 'auto e = ad::bind(v() * u()); ad::autodiff(e);'),
    ('seed_needed_m', '', 'auto e = ad::bind(m() * n()); Eigen::ArrayXXd q(2, 2); ad::autodiff(e, q);', 'auto e = ad::bind(m() * n()); ad::autodiff(e);'),
    ('seed_needed_adj', '', 'auto e = ad::bind(v() * u()); Eigen::ArrayXd q(2); ad::evaluate_adj(e, q);', 'auto e = ad::bind(v() * u()); ad::evaluate_adj(e);'),
    ('wishart_shape', '', 'auto e = ad::wishart_adj_log_pdf(m(), n(), 5);', 'auto e = ad::wishart_adj_log_pdf(v(), n(), 5);'),
    ('wishart_dof_const', '', 'auto e = ad::wishart_adj_log_pdf(m(), n(), 5.);', 'auto e = ad::wishart_adj_log_pdf(m(), n(), s());'),
    ('transpose_scl', '', 'auto e = ad::transpose(v());', 'auto e = ad::transpose(s());'),
    ('norm_scl', '', 'auto e = ad::norm(v());', 'auto e = ad::norm(s());'),
    ('var_from_other_shape', '', 'VV a(v());', 'VV a(m());'),
    ('unsupported_type', '', 'auto e = s() + 1.;', 'auto e = s() + "1";'),
    ('value_type_placeholder', 'ad::Var<float>& f();', 'auto e = (s() = ad::sin(t()));', 'auto e = (s() = ad::sin(f()));'),
]


def flags():
    return ['-std=c++17', '-fsyntax-only', '-I' + pipeline.REPO + '/include', '-I/usr/include/eigen3', '-w', '-ferror-limit=0',
            '-ftemplate-depth=2000', '-fno-caret-diagnostics']


def compile_src(src, workdir, name, extra=()):
    p = os.path.join(workdir, name + '.cpp')
    with open(p, 'w') as f:
        f.write(src)
    r = pipeline.run([pipeline.CLANG] + flags() + list(extra) + [p])
    return r.returncode, r.stderr


def instantiate(name, e, kind):
    """use the expression: its storage size, binding, evaluation and (for expressions of variables) differentiation"""
    k = kind[-1]
    a = ['%s_<decltype(%s)>' % ({'s': 'scl', 'v': 'vec', 'm': 'mat'}[k], e)]
    a.append(('con_<decltype(%s)>' if kind[0] == 'k' else '!con_<decltype(%s)>') % e)
    out = ['static_assert(%s, "%s");' % (x, name) for x in a]
    if kind[0] != 'k':
        seed = {'s': '', 'v': ', *(Eigen::ArrayXd*)nullptr', 'm': ', *(Eigen::ArrayXXd*)nullptr'}[k]
        out.append('void f_%s() { auto e = %s; auto b = ad::bind(e); ad::autodiff(b%s); }' % (name, e, seed))
    else:
        out.append('void f_%s() { auto e = %s; auto r = e.feval(); (void)r; }' % (name, e))
    return '\n'.join(out)


def run_types(tier='quick', jobs=8):
    """-> list of dict(name, ok, detail, frames)"""
    res = []
    work = tempfile.mkdtemp(prefix='fastad-ty-')
    try:
        items = [(n, instantiate(n, e, k), e) for n, e, k in ok()]
        items += [(n, 'static_assert(std::is_same_v<vt<decltype(%s)>, double>, "%s"); void f_%s() { auto b = ad::bind(%s); (void)b; }' % (e, n, n, e), e)
                  for n, e in MIXED]
        items += [(n, 'static_assert(%s, "%s");' % (e, n), e) for n, e in ASSERTS]
        items += [(n, instantiate_typed(n, e, t, k), e) for n, e, t, k in floats()]
        groups = [items[i::16] for i in range(16)]

        def fails(its, tag):
            src, lines = PRE, {}
            for n, t, e in its:
                a = src.count('\n') + 1
                src += t + '\n'
                for l in range(a, src.count('\n') + 1):
                    lines[l] = n
            rc, err = compile_src(src, work, tag)
            return rc, err, lines

        def group(gi):
            its = groups[gi]
            if not its:
                return []
            rc, err, lines = fails(its, 'g%d' % gi)
            if rc == 0:
                return [(n, True, '', []) for n, _, _ in its]
            # whose lines do the diagnostics come from; the rest of the group must compile without those
            guilty = set()
            for l in err.split('\n'):
                q = re.match(r'(?:In file included from )?\S*/g%d\.cpp:(\d+)' % gi, l)
                if q and int(q.group(1)) in lines:
                    guilty.add(lines[int(q.group(1))])
            rest = [x for x in its if x[0] not in guilty]
            single = [x for x in its if x[0] in guilty]
            out = []
            if not single or (rest and fails(rest, 'g%dr' % gi)[0]):
                single, rest = its, []
            out += [(n, True, '', []) for n, _, _ in rest]
            for j, (n, t, e) in enumerate(single):
                if j >= 8:
                    break
                rc, err, _ = fails([(n, t, e)], 'g%d_%s' % (gi, re.sub(r'\W', '_', n)))
                errs = [l for l in err.split('\n') if 'error:' in l]
                fr = []
                for l in err.split('\n'):
                    q = re.search(r'(include/fastad\S*?):(\d+):\d+: (error|note)', l)
                    if q:
                        fr.append([q.group(1), int(q.group(2)), '?'])
                out.append((n, rc == 0, (e + ' -- ' + '; '.join(re.sub(r'^.*?error: ', '', x) for x in errs[:2]))[:400] if rc else '', fr[:4]))
            done = {x[0] for x in out}
            bad = any(not x[1] for x in out)
            out += [(n, None, 'not looked at singly: others of its group fail' if bad else 'group fails', []) for n, _, _ in its if n not in done]
            return out

        def rej(r):
            n, d, good, bad = r
            out = []
            for tag, code in (('accept', good), ('reject', bad)):
                rc, err = compile_src(PRE + d + '\nvoid use_it() { %s }\n' % code, work, 'r_%s_%s' % (n, tag))
                out.append(rc == 0)
            return n, out, good, bad
        with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
            for l in ex.map(group, range(16)):
                for n, k, d, fr in l:
                    res.append(dict(name=n, ok=k, detail=d, frames=fr, kind='accept'))
            for n, (g, b), good, bad in ex.map(rej, REJECT):
                if not g:
                    res.append(dict(name=n + ':accept', ok=False, detail='does not compile: ' + good, frames=[], kind='accept'))
                else:
                    res.append(dict(name=n + ':accept', ok=True, detail='', frames=[], kind='accept'))
                    res.append(dict(name=n + ':reject', ok=not b, detail='compiles although it should be rejected: ' + bad if b else '', frames=[], kind='reject'))
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    import time
    t = time.time()
    r = run_types()
    for x in r:
        if not x['ok']:
            print(x)
    print(len(r), time.time() - t)

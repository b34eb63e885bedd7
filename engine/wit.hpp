// Harness shared by all witness translation units.  Nothing here is ever executed: witnesses are compiled to
// LLVM IR and the IR is analysed.
#pragma once
#include <fastad>
#include <memory>
#include <vector>
#include <tuple>
#include <cmath>

namespace wit {

// storage handed to an expression builder
struct Mem {
    double* x;    // leaf values
    double* ax;   // leaf adjoints
    double* p;    // placeholder values
    double* ap;   // placeholder adjoints
    const double* c;  // values of constants
};

struct Ctx {
    double *x, *ax, *p, *ap, *c, *v, *a, *s, *y, *got, *want, *sz;
    double *x2, *ax2, *p2, *ap2, *v2, *a2, *s2;
    Mem mem() const { return {x, ax, p, ap, c}; }
    Mem mem2() const { return {x2, ax2, p2, ap2, c}; }
};

using S  = ad::VarView<double, ad::scl>;
using V  = ad::VarView<double, ad::vec>;
using M  = ad::VarView<double, ad::mat>;

template <class T> struct is_arith : std::is_arithmetic<std::decay_t<T>> {};

template <class R>
inline void copy_out(const R& r, double* out)
{
    if constexpr (is_arith<R>::value) {
        out[0] = r;
    } else {
        for (int j = 0; j < r.cols(); ++j)
            for (int i = 0; i < r.rows(); ++i)
                out[j * r.rows() + i] = r(i, j);
    }
}

template <class E>
inline void back(E& e, double* s)
{
    if constexpr (ad::util::is_scl_v<E>) {
        e.beval(s[0]);
    } else if constexpr (ad::util::is_vec_v<E>) {
        e.beval(Eigen::Map<Eigen::Array<double, -1, 1>>(s, e.rows()));
    } else {
        e.beval(Eigen::Map<Eigen::Array<double, -1, -1>>(s, e.rows(), e.cols()));
    }
}

// forward value into out
template <class E>
inline void fwd(E& e, double* out) { 
    const auto& r = e.feval();
    copy_out(r, out);
}

template <class E>
inline void bindsz(E& e, double* v, double* a, double* sz)
{
    auto n = e.bind_cache_size();
    auto r = e.bind_cache({v, a});
    sz[0] = n(0);
    sz[1] = n(1);
    sz[2] = double(r.val - v);
    sz[3] = double(r.adj - a);
}

// gradient: one forward, one backward pass
template <class B>
inline void grad(B&& mk, Ctx& k)
{
    auto e = mk(k.mem());
    bindsz(e, k.v, k.a, k.sz);
    fwd(e, k.y);
    back(e, k.s);
}

// re-evaluation: the second forward/backward pass of one expression against the first pass of a fresh one.
template <class B>
inline void reeval(B&& mk, Ctx& k, int nx, int np)
{
    for (int i = 0; i < nx; ++i) k.ax[i] = 0;
    for (int i = 0; i < np; ++i) k.ap[i] = 0;
    auto e = mk(k.mem());
    bindsz(e, k.v, k.a, k.sz);
    double tmp[32];
    fwd(e, tmp);
    back(e, k.s);
    for (int i = 0; i < nx; ++i) { k.x[i] = k.x2[i]; k.ax[i] = 0; k.ax2[i] = 0; }
    for (int i = 0; i < np; ++i) { k.ap[i] = 0; k.ap2[i] = 0; k.p[i] = k.p2[i]; }
    fwd(e, k.got);
    back(e, k.s2);
    auto f = mk(k.mem2());
    auto n = f.bind_cache_size();
    f.bind_cache({k.v2, k.a2});
    static_cast<void>(n);
    fwd(f, k.want);
    back(f, k.s2);
}

// forward passes without a backward pass between them
template <class B>
inline void refwd(B&& mk, Ctx& k, int nx, int np)
{
    for (int i = 0; i < nx; ++i) k.ax[i] = 0;
    for (int i = 0; i < np; ++i) k.ap[i] = 0;
    auto e = mk(k.mem());
    bindsz(e, k.v, k.a, k.sz);
    double tmp[32];
    fwd(e, tmp);
    for (int i = 0; i < nx; ++i) { k.x[i] = k.x2[i]; k.ax2[i] = 0; }
    for (int i = 0; i < np; ++i) { k.ap2[i] = 0; k.p[i] = k.p2[i]; }
    fwd(e, k.got);
    back(e, k.s2);
    auto f = mk(k.mem2());
    f.bind_cache({k.v2, k.a2});
    fwd(f, k.want);
    back(f, k.s2);
}

// one forward pass, then two backward passes: adjoints accumulate linearly
template <class B>
inline void twice(B&& mk, Ctx& k)
{
    auto e = mk(k.mem());
    bindsz(e, k.v, k.a, k.sz);
    fwd(e, k.y);
    back(e, k.s);
    back(e, k.s);
}

// the expression used as a child of others, in scalar or elementwise context, twice in one expression
template <class B>
inline void nested(B&& mk, Ctx& k)
{
    auto e0 = mk(k.mem());
    using E = std::decay_t<decltype(e0)>;
    S z(k.x2, k.ax2);
    if constexpr (ad::util::is_scl_v<E>) {
        auto e = ad::exp(e0) * z + z * e0;
        bindsz(e, k.v, k.a, k.sz);
        fwd(e, k.y);
        back(e, k.s);
    } else {
        auto e = ad::sum((e0 * e0) * z + ad::exp(e0));
        bindsz(e, k.v, k.a, k.sz);
        fwd(e, k.y);
        back(e, k.s);
    }
}

// the expression used once inside another: for expressions that assign to placeholders or restart accumulations
template <class B>
inline void nested1(B&& mk, Ctx& k)
{
    auto e0 = mk(k.mem());
    using E = std::decay_t<decltype(e0)>;
    S z(k.x2, k.ax2);
    if constexpr (ad::util::is_scl_v<E>) {
        auto e = ad::exp(e0) * z;
        bindsz(e, k.v, k.a, k.sz);
        fwd(e, k.y);
        back(e, k.s);
    } else {
        auto e = ad::sum(ad::exp(e0) * z);
        bindsz(e, k.v, k.a, k.sz);
        fwd(e, k.y);
        back(e, k.s);
    }
}

// the evaluated result can be read again after the backward pass
template <class B>
inline void reread(B&& mk, Ctx& k)
{
    auto e = mk(k.mem());
    bindsz(e, k.v, k.a, k.sz);
    fwd(e, k.want);
    back(e, k.s);
    const auto& r = e.get();
    copy_out(r, k.got);
}

// user-level interface: ad::bind + ad::autodiff (scalar), default or explicit seed
template <class B>
inline void api(B&& mk, Ctx& k)
{
    auto e0 = mk(k.mem());
    using E = std::decay_t<decltype(e0)>;
    auto e = ad::bind(e0);
    if constexpr (ad::util::is_scl_v<E>) {
        k.y[0] = ad::autodiff(e, k.s[0]);
    } else if constexpr (ad::util::is_vec_v<E>) {
        auto r = ad::autodiff(e, Eigen::Map<Eigen::Array<double, -1, 1>>(k.s, e0.rows()));
        copy_out(r, k.y);
    } else {
        auto r = ad::autodiff(e, Eigen::Map<Eigen::Array<double, -1, -1>>(k.s, e0.rows(), e0.cols()));
        copy_out(r, k.y);
    }
}

// an ill-formed use: every step up to the results, so that a missing check shows as a normal return
template <class B>
inline void trap(B&& mk, Ctx& k)
{
    auto e0 = mk(k.mem());
    using E = std::decay_t<decltype(e0)>;
    auto e = ad::bind(e0);
    const auto& r = ad::evaluate(e);
    copy_out(r, k.y);
    if constexpr (ad::util::is_scl_v<E> && !ad::util::is_constant_v<E> &&
                  !std::is_same_v<std::decay_t<decltype(r)>, bool>) {
        ad::evaluate_adj(e);
    }
}

// bound expressions are values: a copy of a node outlives the expression it was copied from
template <class B>
inline void apicopy(B&& mk, Ctx& k)
{
    auto p = std::make_unique<decltype(mk(k.mem()))>(mk(k.mem()));
    auto e0 = *p;
    p.reset();
    auto q = std::make_unique<decltype(ad::bind(e0))>(ad::bind(e0));
    auto e = std::move(*q);
    q.reset();
    using E = std::decay_t<decltype(e0)>;
    if constexpr (ad::util::is_scl_v<E>) {
        k.y[0] = ad::autodiff(e, k.s[0]);
    } else if constexpr (ad::util::is_vec_v<E>) {
        auto r = ad::autodiff(e, Eigen::Map<Eigen::Array<double, -1, 1>>(k.s, e0.rows()));
        copy_out(r, k.y);
    } else {
        auto r = ad::autodiff(e, Eigen::Map<Eigen::Array<double, -1, -1>>(k.s, e0.rows(), e0.cols()));
        copy_out(r, k.y);
    }
}

} // namespace wit

#define WITNESS(name) \
    static inline void name##_body(wit::Ctx& k); \
    extern "C" __attribute__((used)) void name( \
        double* __restrict x, double* __restrict ax, double* __restrict p, double* __restrict ap, \
        double* __restrict c, double* __restrict v, double* __restrict a, double* __restrict s, \
        double* __restrict y, double* __restrict got, double* __restrict want, double* __restrict sz, \
        double* __restrict x2, double* __restrict ax2, double* __restrict p2, double* __restrict ap2, \
        double* __restrict v2, double* __restrict a2, double* __restrict s2) { \
        wit::Ctx k{x, ax, p, ap, c, v, a, s, y, got, want, sz, x2, ax2, p2, ap2, v2, a2, s2}; \
        name##_body(k); \
    } \
    static inline void name##_body(wit::Ctx& k)

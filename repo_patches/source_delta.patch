From bdbdcaa21885f70012454648bcb0f8aecaed21f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:09 +0000
Subject: [PATCH 01/15] fix: forward-mode erf drops the tangent of its argument

---
 include/fastad_bits/forward/core/forward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/forward/core/forward.hpp b/include/fastad_bits/forward/core/forward.hpp
index 1e9aa5a..68de289 100644
--- a/include/fastad_bits/forward/core/forward.hpp
+++ b/include/fastad_bits/forward/core/forward.hpp
@@ -134,7 +134,7 @@ FORWARD_UNARY_FUNC(sqrt, tmp, x.get_adjoint() / (2 * tmp),
         auto tmp = std::sqrt(x.get_value());)
 // ad::erf(core::ADForward)
 FORWARD_UNARY_FUNC(erf, std::erf(x.get_value()), 
-        two_over_sqrt_pi * std::exp(-t_sq), 
+        two_over_sqrt_pi * std::exp(-t_sq) * x.get_adjoint(), 
         static constexpr double two_over_sqrt_pi =
                 1.1283791670955126;
         auto t_sq = x.get_value() * x.get_value();)
-- 
2.43.0


From d533e35066666009a5d8ad34b330afa0518f5297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:09 +0000
Subject: [PATCH 02/15] fix: transpose of a constant does not compile

---
 include/fastad_bits/reverse/core/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/transpose.hpp b/include/fastad_bits/reverse/core/transpose.hpp
index 47d4839..be59583 100644
--- a/include/fastad_bits/reverse/core/transpose.hpp
+++ b/include/fastad_bits/reverse/core/transpose.hpp
@@ -70,7 +70,7 @@ inline auto transpose(const T &x) {
     // optimization for when expression is constant
     if constexpr (util::is_constant_v<expr_t>) {
         static_assert(!util::is_scl_v<expr_t>);
-        using var_t = util::constant_var_t<value_t, ad::scl>;
+        using var_t = util::constant_var_t<value_t, ad::mat>;
         var_t out = expr.feval().transpose();
         return ad::constant(out);
     } else {
-- 
2.43.0


From ac5e4540480e104d3cc6a7b4e0de0c7d75c277eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:09 +0000
Subject: [PATCH 03/15] fix: sigmoid, sinh, cosh and tanh do not compile for
 scalars

---
 include/fastad_bits/reverse/core/unary.hpp | 28 ++++++++++++++--------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/fastad_bits/reverse/core/unary.hpp b/include/fastad_bits/reverse/core/unary.hpp
index 653124c..c671377 100644
--- a/include/fastad_bits/reverse/core/unary.hpp
+++ b/include/fastad_bits/reverse/core/unary.hpp
@@ -273,26 +273,34 @@ UNARY_STRUCT(Erf,
 UNARY_STRUCT(Sigmoid, 
              USING_STD_AD_EIGEN(exp);
              return 1/(1+exp(-x));, 
-             static_cast<void>(x); 
+             static_cast<void>(f); 
+             USING_STD_AD_EIGEN(exp);
              return seed * exp(-x)/((exp(-x)+1)*(exp(-x)+1)););
 
 // sinh
 UNARY_STRUCT(Sinh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::sinh(x);, 
+             using std::sinh;
+             using Eigen::sinh;
+             return sinh(x);, 
              static_cast<void>(f); 
-             return seed *(Eigen::cosh(x)););
+             using std::cosh;
+             using Eigen::cosh;
+             return seed *(cosh(x)););
 // cosh
 UNARY_STRUCT(Cosh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::cosh(x);, 
+             using std::cosh;
+             using Eigen::cosh;
+             return cosh(x);, 
              static_cast<void>(f); 
-             return seed *(Eigen::sinh(x)););			 
+             using std::sinh;
+             using Eigen::sinh;
+             return seed *(sinh(x)););			 
 // tanh
 UNARY_STRUCT(Tanh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::tanh(x);, 
-             static_cast<void>(f); 
+             using std::tanh;
+             using Eigen::tanh;
+             return tanh(x);, 
+             static_cast<void>(x); 
              return seed *(1-f*f););
 			 
 // operator- (IMPORTANT TO DECLARE IN core)
-- 
2.43.0


From b145c2a5d058655b58ddb8090ab010103820d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:09 +0000
Subject: [PATCH 04/15] fix: owned constants lack size(), so densities of them
 do not compile

---
 include/fastad_bits/reverse/core/constant.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/fastad_bits/reverse/core/constant.hpp b/include/fastad_bits/reverse/core/constant.hpp
index 0f2108e..7640b61 100644
--- a/include/fastad_bits/reverse/core/constant.hpp
+++ b/include/fastad_bits/reverse/core/constant.hpp
@@ -130,6 +130,14 @@ public:
         }
     }
 
+    size_t size() const { 
+        if constexpr (util::is_scl_v<this_t>) {
+            return 1;
+        } else {
+            return c_.size(); 
+        }
+    }
+
     size_t rows() const { 
         if constexpr (util::is_scl_v<this_t>) {
             return 1;
-- 
2.43.0


From d6d5044ef02ecce69f5a28cbe77893d6aab7c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:26 +0000
Subject: [PATCH 05/15] fix: binary expression with an integer constant on the
 left does not compile

---
 include/fastad_bits/reverse/core/binary.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/binary.hpp b/include/fastad_bits/reverse/core/binary.hpp
index a738294..f7c5d76 100644
--- a/include/fastad_bits/reverse/core/binary.hpp
+++ b/include/fastad_bits/reverse/core/binary.hpp
@@ -37,7 +37,9 @@ template <class Binary
         , class LeftExprType
         , class RightExprType>
 struct BinaryNode:
-    ValueAdjView<typename util::expr_traits<LeftExprType>::value_t,
+    ValueAdjView<std::common_type_t<
+                     typename util::expr_traits<LeftExprType>::value_t,
+                     typename util::expr_traits<RightExprType>::value_t>,
                  util::max_shape_t<typename util::shape_traits<LeftExprType>::shape_t,
                                    typename util::shape_traits<RightExprType>::shape_t>
                 >,
-- 
2.43.0


From 26d55571319e86394b7122d99ce1572f8e64302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 06/15] fix: cauchy density applies the seed twice for vector
 arguments

---
 include/fastad_bits/reverse/stat/cauchy.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/cauchy.hpp b/include/fastad_bits/reverse/stat/cauchy.hpp
index 2e89726..d5e98f9 100644
--- a/include/fastad_bits/reverse/stat/cauchy.hpp
+++ b/include/fastad_bits/reverse/stat/cauchy.hpp
@@ -227,13 +227,13 @@ public:
         auto gamma_sq = gamma * gamma;
 
         auto diff = (x - x0);
-        auto dx = (-2. * seed) * diff / (gamma_sq + diff.square());
+        auto dx = (-2.) * diff / (gamma_sq + diff.square());
         value_t dx0 = (-seed) * dx.sum();
         value_t dgamma = (-seed/gamma) * ((dx * diff).sum() + x.size());
         
         scale_.beval(dgamma);
         loc_.beval(dx0);
-        x_.beval(dx);
+        x_.beval(seed * dx);
     }
 
 private:
@@ -296,13 +296,13 @@ public:
         auto&& gamma = scale_.get().array();
 
         auto diff = x - x0;
-        auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
+        auto dx = (-2.) * diff / (gamma.square() + diff.square());
         value_t dx0 = (-seed) * dx.sum();
         auto dgamma = (-seed) * (dx * diff + 1) / gamma;
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
-        x_.beval(dx);
+        x_.beval(seed * dx);
     }
 
 private:
@@ -366,13 +366,13 @@ public:
         auto gamma_sq = gamma * gamma;
 
         auto diff = (x - x0);
-        auto dx = (-2. * seed) * diff / (gamma_sq + diff.square());
+        auto dx = (-2.) * diff / (gamma_sq + diff.square());
         auto dx0 = (-seed) * dx;
         value_t dgamma = (-seed/gamma) * ((dx * diff).sum() + x.size());
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
-        x_.beval(dx);
+        x_.beval(seed * dx);
     }
 
 private:
@@ -435,13 +435,13 @@ public:
         auto&& gamma = scale_.get().array();
 
         auto diff = (x - x0);
-        auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
+        auto dx = (-2.) * diff / (gamma.square() + diff.square());
         auto dx0 = (-seed) * dx;
         auto dgamma = (-seed/gamma) * ((dx * diff) + 1);
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
-        x_.beval(dx);
+        x_.beval(seed * dx);
     }
 
 private:
-- 
2.43.0


From 85436e13a86433fc30f35b32ec34e0a9ea2f8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:49 +0000
Subject: [PATCH 07/15] fix: uniform density of constant data never refreshes
 vector bounds

---
 include/fastad_bits/reverse/stat/uniform.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/uniform.hpp b/include/fastad_bits/reverse/stat/uniform.hpp
index fb4ea17..b6dd90b 100644
--- a/include/fastad_bits/reverse/stat/uniform.hpp
+++ b/include/fastad_bits/reverse/stat/uniform.hpp
@@ -306,7 +306,8 @@ public:
                       util::is_constant_v<max_t>) {
             update_log_diff_cache();
         }
-        if constexpr (util::is_constant_v<x_t>) {
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<max_t>) {
             update_x_cache();
         }
     }
@@ -322,7 +323,8 @@ public:
             update_log_diff_cache();
         }
 
-        if constexpr (!util::is_constant_v<x_t>) {
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<max_t>) {
             update_x_cache();
         }
 
@@ -399,7 +401,8 @@ public:
                       util::is_constant_v<max_t>) {
             update_log_diff_cache();
         }
-        if constexpr (util::is_constant_v<x_t>) {
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<min_t>) {
             update_x_cache();
         }
     }
@@ -415,7 +418,8 @@ public:
             update_log_diff_cache();
         }
 
-        if constexpr (!util::is_constant_v<x_t>) {
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<min_t>) {
             update_x_cache();
         }
 
-- 
2.43.0


From 2e6e16aa272774612c14be8a8b05f4cb88bfdba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:49 +0000
Subject: [PATCH 08/15] fix: wishart density of a constant X never refreshes
 when V is not constant

---
 include/fastad_bits/reverse/stat/wishart.hpp | 27 ++++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/wishart.hpp b/include/fastad_bits/reverse/stat/wishart.hpp
index 5d64c5a..48e8265 100644
--- a/include/fastad_bits/reverse/stat/wishart.hpp
+++ b/include/fastad_bits/reverse/stat/wishart.hpp
@@ -155,6 +155,10 @@ public:
         if constexpr (util::is_constant_v<x_t>) {
             update_x_cache();
         }
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<v_t>) {
+            update_xv_cache();
+        }
     }
 
     const var_t& feval()
@@ -169,6 +173,10 @@ public:
         if constexpr (!util::is_constant_v<x_t>) {
             update_x_cache();
         }
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<v_t>) {
+            update_xv_cache();
+        }
 
         if (!valid()) {
             return this->get() = util::neg_inf<value_t>;
@@ -204,14 +212,17 @@ private:
     }
 
     void update_x_cache() {
-        if (is_v_pos_def_) {
-            x_llt_.compute(x_.get());
-            is_x_pos_def_ = (x_llt_.info() == Eigen::Success);
-            if (is_x_pos_def_) {
-                log_x_det_ = std::log(x_llt_.matrixL().determinant());
-                x_inv_ = x_llt_.solve(mat_t::Identity(x_.rows(), x_.cols()));
-                xv_inv_ = x_.get() * v_inv_;
-            }
+        x_llt_.compute(x_.get());
+        is_x_pos_def_ = (x_llt_.info() == Eigen::Success);
+        if (is_x_pos_def_) {
+            log_x_det_ = std::log(x_llt_.matrixL().determinant());
+            x_inv_ = x_llt_.solve(mat_t::Identity(x_.rows(), x_.cols()));
+        }
+    }
+
+    void update_xv_cache() {
+        if (is_x_pos_def_ && is_v_pos_def_) {
+            xv_inv_ = x_.get() * v_inv_;
         }
     }
 
-- 
2.43.0


From 03d55f93d71ea36824f79072e354b2849106ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 09/15] fix: if_else never binds its own value, so using it
 inside another expression reads null

---
 include/fastad_bits/reverse/core/if_else.hpp | 22 ++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/fastad_bits/reverse/core/if_else.hpp b/include/fastad_bits/reverse/core/if_else.hpp
index beade43..bc4291d 100644
--- a/include/fastad_bits/reverse/core/if_else.hpp
+++ b/include/fastad_bits/reverse/core/if_else.hpp
@@ -75,10 +75,14 @@ public:
         assert(if_expr.cols() == else_expr.cols());
     }
 
-    const auto& feval()
+    const var_t& feval()
     {
-        return cond_expr_.feval() ? 
-                if_expr_.feval() : else_expr_.feval();
+        if (cond_expr_.feval()) {
+            this->get() = if_expr_.feval();
+        } else {
+            this->get() = else_expr_.feval();
+        }
+        return this->get();
     }
 
     template <class T>
@@ -95,18 +99,24 @@ public:
     {
         begin = cond_expr_.bind_cache(begin);
         begin = if_expr_.bind_cache(begin);
-        return else_expr_.bind_cache(begin);
+        begin = else_expr_.bind_cache(begin);
+        auto adj = begin.adj;
+        begin.adj = nullptr;
+        begin = value_adj_view_t::bind(begin);
+        begin.adj = adj;
+        return begin;
     }
 
     util::SizePack bind_cache_size() const 
     { 
-        return cond_expr_.bind_cache_size() +
+        return single_bind_cache_size() +
+                cond_expr_.bind_cache_size() +
                 if_expr_.bind_cache_size() + 
                 else_expr_.bind_cache_size();
     }
 
     util::SizePack single_bind_cache_size() const
-    { return {0,0}; }
+    { return {this->size(), 0}; }
 
 private:
     cond_t cond_expr_;
-- 
2.43.0


From 18842d8d0b7eee2e1b02be87d25be138bbb5fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 10/15] fix: placeholder of a product or compound assignment
 overruns the reserved cache

---
 include/fastad_bits/reverse/core/eq.hpp   | 6 ++----
 include/fastad_bits/reverse/core/prod.hpp | 5 +++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eq.hpp b/include/fastad_bits/reverse/core/eq.hpp
index 5503a89..28254ba 100644
--- a/include/fastad_bits/reverse/core/eq.hpp
+++ b/include/fastad_bits/reverse/core/eq.hpp
@@ -287,14 +287,12 @@ public:
 
     util::SizePack bind_cache_size() const 
     {
-        return single_bind_cache_size() + 
+        return util::SizePack{cache_.size(), cache_.size()} + 
                 expr_.bind_cache_size(); 
     }
 
     util::SizePack single_bind_cache_size() const
-    {
-        return {cache_.size(), cache_.size()}; 
-    }
+    { return {0,0}; }
 
 private:
     value_adj_view_t cache_;
diff --git a/include/fastad_bits/reverse/core/prod.hpp b/include/fastad_bits/reverse/core/prod.hpp
index 12621d1..5bedb8d 100644
--- a/include/fastad_bits/reverse/core/prod.hpp
+++ b/include/fastad_bits/reverse/core/prod.hpp
@@ -229,13 +229,14 @@ public:
 
     util::SizePack bind_cache_size() const 
     { 
-        return expr_.bind_cache_size() + 
+        return util::SizePack{0, expr_.size()} +
+                expr_.bind_cache_size() + 
                 single_bind_cache_size();
     }
 
     util::SizePack single_bind_cache_size() const
     { 
-        return {this->size(), expr_.size()}; 
+        return {this->size(), 0}; 
     }
 
 private:
-- 
2.43.0


From 129005ec93e5ab93efec00dfd6ee9126b8038f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 11/15] fix: copy of a bound expression views the cache of the
 original

---
 include/fastad_bits/reverse/core/bind.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/fastad_bits/reverse/core/bind.hpp b/include/fastad_bits/reverse/core/bind.hpp
index 9ea7ca6..3e65e6b 100644
--- a/include/fastad_bits/reverse/core/bind.hpp
+++ b/include/fastad_bits/reverse/core/bind.hpp
@@ -32,6 +32,24 @@ struct ExprBind
         expr_.bind_cache({val_cache_.data(), adj_cache_.data()});
     }
     
+    // a copy must view its own cache, not that of the original
+    ExprBind(const ExprBind& other)
+        : expr_{other.expr_}
+        , val_cache_(other.val_cache_)
+        , adj_cache_(other.adj_cache_)
+    {
+        expr_.bind_cache({val_cache_.data(), adj_cache_.data()});
+    }
+
+    ExprBind& operator=(const ExprBind& other)
+    {
+        if (this != &other) {
+            this->~ExprBind();
+            new (this) ExprBind(other);
+        }
+        return *this;
+    }
+
     expr_t& get() { return expr_; }
 
 private:
-- 
2.43.0


From b9684809b502a40a264f378920c293e2b66dfb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 12/15] fix: evaluate_adj does not compile for some bound
 expressions

---
 include/fastad_bits/reverse/core/eval.hpp | 326 ++++++++++++----------
 1 file changed, 171 insertions(+), 155 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eval.hpp b/include/fastad_bits/reverse/core/eval.hpp
index 799dbac..71f393f 100644
--- a/include/fastad_bits/reverse/core/eval.hpp
+++ b/include/fastad_bits/reverse/core/eval.hpp
@@ -1,155 +1,171 @@
-#pragma once
-#include <cstdlib>
-#include <type_traits>
-#include <tuple>
-#include <fastad_bits/reverse/core/expr_base.hpp>
-#include <fastad_bits/reverse/core/bind.hpp>
-#include <fastad_bits/util/value.hpp>
-
-namespace ad {
-
-/*
- * Evaluates expression in the forward direction of reverse-mode AD.
- * @tparam ExprType expression type
- * @param expr  expression to forward evaluate
- * @return the expression value
- */
-
-template <class ExprType>
-inline auto evaluate(ExprType&& expr)
-{
-    return expr.feval();
-}
-
-template <class ExprType>
-inline auto evaluate(core::ExprBind<ExprType>& expr)
-{
-    return expr.get().feval();
-}
-
-template <class ExprType>
-inline auto evaluate(core::ExprBind<ExprType>&& expr)
-{
-    return expr.get().feval();
-}
-
-/* 
- * Evaluates expression in the backward direction of reverse-mode AD.
- * Default parameter should fail exactly when expression is multi-dimensional.
- *
- * @tparam ExprType expression type
- * @param expr  expression to backward evaluate
- */
-template <class ExprType>
-inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(ExprType&& expr, 
-             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    expr.beval(seed);
-}
-
-template <class ExprType, class T>
-inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(ExprType&& expr, 
-             const Eigen::ArrayBase<T>& seed)
-{
-    expr.beval(seed);
-}
-
-template <class ExprType>
-inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>& expr, 
-             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-template <class ExprType, class T>
-inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>&& expr, 
-             const Eigen::ArrayBase<T>& seed)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-/* 
- * Evaluates expression both in the forward and backward direction of reverse-mode AD.
- * @tparam ExprType expression type
- * @param expr  expression to forward and backward evaluate
- * Returns the forward expression value
- */
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(ExprType&& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    auto t = evaluate(expr);
-    evaluate_adj(expr, seed);
-    return t;
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(ExprType&& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    auto t = evaluate(expr);
-    evaluate_adj(expr, seed);
-    return t;
-}
-
-/** 
- * Evaluates expression both in the forward and backward direction of reverse-mode AD.
- * Overload for ExprBind helper class.
- *
- * @tparam ExprType expression type
- * @param expr  expression to forward and backward evaluate
- * Returns the forward expression value
- */
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>&& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>&& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    return autodiff(expr.get(), seed);
-}
-
-} // namespace ad
+#pragma once
+#include <cstdlib>
+#include <type_traits>
+#include <tuple>
+#include <fastad_bits/reverse/core/expr_base.hpp>
+#include <fastad_bits/reverse/core/bind.hpp>
+#include <fastad_bits/util/value.hpp>
+
+namespace ad {
+
+/*
+ * Evaluates expression in the forward direction of reverse-mode AD.
+ * @tparam ExprType expression type
+ * @param expr  expression to forward evaluate
+ * @return the expression value
+ */
+
+template <class ExprType>
+inline auto evaluate(ExprType&& expr)
+{
+    return expr.feval();
+}
+
+template <class ExprType>
+inline auto evaluate(core::ExprBind<ExprType>& expr)
+{
+    return expr.get().feval();
+}
+
+template <class ExprType>
+inline auto evaluate(core::ExprBind<ExprType>&& expr)
+{
+    return expr.get().feval();
+}
+
+/* 
+ * Evaluates expression in the backward direction of reverse-mode AD.
+ * Default parameter should fail exactly when expression is multi-dimensional.
+ *
+ * @tparam ExprType expression type
+ * @param expr  expression to backward evaluate
+ */
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(ExprType&& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    expr.beval(seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(ExprType&& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    expr.beval(seed);
+}
+
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>&& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>&& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+/* 
+ * Evaluates expression both in the forward and backward direction of reverse-mode AD.
+ * @tparam ExprType expression type
+ * @param expr  expression to forward and backward evaluate
+ * Returns the forward expression value
+ */
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(ExprType&& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    auto t = evaluate(expr);
+    evaluate_adj(expr, seed);
+    return t;
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(ExprType&& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    auto t = evaluate(expr);
+    evaluate_adj(expr, seed);
+    return t;
+}
+
+/** 
+ * Evaluates expression both in the forward and backward direction of reverse-mode AD.
+ * Overload for ExprBind helper class.
+ *
+ * @tparam ExprType expression type
+ * @param expr  expression to forward and backward evaluate
+ * Returns the forward expression value
+ */
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>&& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>&& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    return autodiff(expr.get(), seed);
+}
+
+} // namespace ad
-- 
2.43.0


From 0f165ee18daf7fd94a794df6b1025687103e6aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 13/15] fix: documented det and log_det are not reachable from
 the library header

---
 include/fastad_bits/reverse/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fastad_bits/reverse/core.hpp b/include/fastad_bits/reverse/core.hpp
index 7512a06..4421636 100644
--- a/include/fastad_bits/reverse/core.hpp
+++ b/include/fastad_bits/reverse/core.hpp
@@ -2,6 +2,7 @@
 #include "fastad_bits/reverse/core/binary.hpp"
 #include "fastad_bits/reverse/core/bind.hpp"
 #include "fastad_bits/reverse/core/constant.hpp"
+#include "fastad_bits/reverse/core/det.hpp"
 #include "fastad_bits/reverse/core/dot.hpp"
 #include "fastad_bits/reverse/core/eq.hpp"
 #include "fastad_bits/reverse/core/eval.hpp"
@@ -9,6 +10,7 @@
 #include "fastad_bits/reverse/core/for_each.hpp"
 #include "fastad_bits/reverse/core/glue.hpp"
 #include "fastad_bits/reverse/core/if_else.hpp"
+#include "fastad_bits/reverse/core/log_det.hpp"
 #include "fastad_bits/reverse/core/norm.hpp"
 #include "fastad_bits/reverse/core/pow.hpp"
 #include "fastad_bits/reverse/core/prod.hpp"
-- 
2.43.0


From e19f17cbcc2d28371edf8c9b26a3931ff6eda30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 14/15] fix: line endings of eval.hpp changed by the
 evaluate_adj repair

---
 include/fastad_bits/reverse/core/eval.hpp | 342 +++++++++++-----------
 1 file changed, 171 insertions(+), 171 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eval.hpp b/include/fastad_bits/reverse/core/eval.hpp
index 71f393f..b73f551 100644
--- a/include/fastad_bits/reverse/core/eval.hpp
+++ b/include/fastad_bits/reverse/core/eval.hpp
@@ -1,171 +1,171 @@
-#pragma once
-#include <cstdlib>
-#include <type_traits>
-#include <tuple>
-#include <fastad_bits/reverse/core/expr_base.hpp>
-#include <fastad_bits/reverse/core/bind.hpp>
-#include <fastad_bits/util/value.hpp>
-
-namespace ad {
-
-/*
- * Evaluates expression in the forward direction of reverse-mode AD.
- * @tparam ExprType expression type
- * @param expr  expression to forward evaluate
- * @return the expression value
- */
-
-template <class ExprType>
-inline auto evaluate(ExprType&& expr)
-{
-    return expr.feval();
-}
-
-template <class ExprType>
-inline auto evaluate(core::ExprBind<ExprType>& expr)
-{
-    return expr.get().feval();
-}
-
-template <class ExprType>
-inline auto evaluate(core::ExprBind<ExprType>&& expr)
-{
-    return expr.get().feval();
-}
-
-/* 
- * Evaluates expression in the backward direction of reverse-mode AD.
- * Default parameter should fail exactly when expression is multi-dimensional.
- *
- * @tparam ExprType expression type
- * @param expr  expression to backward evaluate
- */
-template <class ExprType>
-inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(ExprType&& expr, 
-             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    expr.beval(seed);
-}
-
-template <class ExprType, class T>
-inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(ExprType&& expr, 
-             const Eigen::ArrayBase<T>& seed)
-{
-    expr.beval(seed);
-}
-
-template <class ExprType>
-inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>& expr, 
-             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-template <class ExprType>
-inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>&& expr, 
-             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-template <class ExprType, class T>
-inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>& expr, 
-             const Eigen::ArrayBase<T>& seed)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-template <class ExprType, class T>
-inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>&& expr, 
-             const Eigen::ArrayBase<T>& seed)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-/* 
- * Evaluates expression both in the forward and backward direction of reverse-mode AD.
- * @tparam ExprType expression type
- * @param expr  expression to forward and backward evaluate
- * Returns the forward expression value
- */
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(ExprType&& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    auto t = evaluate(expr);
-    evaluate_adj(expr, seed);
-    return t;
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(ExprType&& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    auto t = evaluate(expr);
-    evaluate_adj(expr, seed);
-    return t;
-}
-
-/** 
- * Evaluates expression both in the forward and backward direction of reverse-mode AD.
- * Overload for ExprBind helper class.
- *
- * @tparam ExprType expression type
- * @param expr  expression to forward and backward evaluate
- * Returns the forward expression value
- */
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>&& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>&& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    return autodiff(expr.get(), seed);
-}
-
-} // namespace ad
+#pragma once
+#include <cstdlib>
+#include <type_traits>
+#include <tuple>
+#include <fastad_bits/reverse/core/expr_base.hpp>
+#include <fastad_bits/reverse/core/bind.hpp>
+#include <fastad_bits/util/value.hpp>
+
+namespace ad {
+
+/*
+ * Evaluates expression in the forward direction of reverse-mode AD.
+ * @tparam ExprType expression type
+ * @param expr  expression to forward evaluate
+ * @return the expression value
+ */
+
+template <class ExprType>
+inline auto evaluate(ExprType&& expr)
+{
+    return expr.feval();
+}
+
+template <class ExprType>
+inline auto evaluate(core::ExprBind<ExprType>& expr)
+{
+    return expr.get().feval();
+}
+
+template <class ExprType>
+inline auto evaluate(core::ExprBind<ExprType>&& expr)
+{
+    return expr.get().feval();
+}
+
+/* 
+ * Evaluates expression in the backward direction of reverse-mode AD.
+ * Default parameter should fail exactly when expression is multi-dimensional.
+ *
+ * @tparam ExprType expression type
+ * @param expr  expression to backward evaluate
+ */
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(ExprType&& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    expr.beval(seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(ExprType&& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    expr.beval(seed);
+}
+
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>&& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>&& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+/* 
+ * Evaluates expression both in the forward and backward direction of reverse-mode AD.
+ * @tparam ExprType expression type
+ * @param expr  expression to forward and backward evaluate
+ * Returns the forward expression value
+ */
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(ExprType&& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    auto t = evaluate(expr);
+    evaluate_adj(expr, seed);
+    return t;
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(ExprType&& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    auto t = evaluate(expr);
+    evaluate_adj(expr, seed);
+    return t;
+}
+
+/** 
+ * Evaluates expression both in the forward and backward direction of reverse-mode AD.
+ * Overload for ExprBind helper class.
+ *
+ * @tparam ExprType expression type
+ * @param expr  expression to forward and backward evaluate
+ * Returns the forward expression value
+ */
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>&& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>&& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    return autodiff(expr.get(), seed);
+}
+
+} // namespace ad
-- 
2.43.0


From 699cfc758211b87c490e110f8a19dc4581970747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:19 +0000
Subject: [PATCH 15/15] fix: densities and determinants with a zero seed
 skipped assignments inside their operands

---
 include/fastad_bits/reverse/core/det.hpp       |  2 +-
 include/fastad_bits/reverse/core/log_det.hpp   |  2 +-
 include/fastad_bits/reverse/stat/bernoulli.hpp |  6 +++---
 include/fastad_bits/reverse/stat/cauchy.hpp    | 10 +++++-----
 include/fastad_bits/reverse/stat/normal.hpp    | 14 +++++++-------
 include/fastad_bits/reverse/stat/uniform.hpp   | 10 +++++-----
 include/fastad_bits/reverse/stat/wishart.hpp   |  2 +-
 7 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/fastad_bits/reverse/core/det.hpp b/include/fastad_bits/reverse/core/det.hpp
index ef3a081..5faeb8c 100644
--- a/include/fastad_bits/reverse/core/det.hpp
+++ b/include/fastad_bits/reverse/core/det.hpp
@@ -57,7 +57,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !decomp_.valid()) return;
+        if (!decomp_.valid()) return;
         auto a_inv_t = decomp_.bmap().array();
         expr_.beval((seed * this->get()) * a_inv_t);
     }
diff --git a/include/fastad_bits/reverse/core/log_det.hpp b/include/fastad_bits/reverse/core/log_det.hpp
index ed1e1ec..6638aae 100644
--- a/include/fastad_bits/reverse/core/log_det.hpp
+++ b/include/fastad_bits/reverse/core/log_det.hpp
@@ -57,7 +57,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !decomp_.valid()) return;
+        if (!decomp_.valid()) return;
         auto a_inv_t = decomp_.bmap().array();
         expr_.beval(seed * a_inv_t);
     }
diff --git a/include/fastad_bits/reverse/stat/bernoulli.hpp b/include/fastad_bits/reverse/stat/bernoulli.hpp
index b86cb52..56b3e50 100644
--- a/include/fastad_bits/reverse/stat/bernoulli.hpp
+++ b/include/fastad_bits/reverse/stat/bernoulli.hpp
@@ -152,7 +152,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !within_range() || (x_.get() != 0 && x_.get() != 1)) return;
+        if (!within_range() || (x_.get() != 0 && x_.get() != 1)) return;
 
         auto adj = (x_.get() == 0) ? -seed / (1-p_.get()) : seed / p_.get();
         p_.beval(adj);
@@ -245,7 +245,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !within_range() || !is_x_zero_one_) return;
+        if (!within_range() || !is_x_zero_one_) return;
 
         value_t adj = (x_sum_ - (x_.size() * p_.get())) /
                         (p_.get() * (1-p_.get()));
@@ -348,7 +348,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !is_x_zero_one_) return;
+        if (!is_x_zero_one_) return;
 
         auto&& x = x_.get().array();
         auto&& p = p_.get().array();
diff --git a/include/fastad_bits/reverse/stat/cauchy.hpp b/include/fastad_bits/reverse/stat/cauchy.hpp
index d5e98f9..75e886d 100644
--- a/include/fastad_bits/reverse/stat/cauchy.hpp
+++ b/include/fastad_bits/reverse/stat/cauchy.hpp
@@ -148,7 +148,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !within_range()) return;
+        if (!within_range()) return;
 
         auto&& x = x_.get();
         auto&& x0 = loc_.get();
@@ -219,7 +219,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !within_range()) return;
+        if (!within_range()) return;
 
         auto&& x = x_.get().array();
         auto&& x0 = loc_.get();
@@ -289,7 +289,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !within_range()) return;
+        if (!within_range()) return;
 
         auto&& x = x_.get().array();
         auto&& x0 = loc_.get();
@@ -358,7 +358,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !within_range()) return;
+        if (!within_range()) return;
 
         auto&& x = x_.get().array();
         auto&& x0 = loc_.get().array();
@@ -428,7 +428,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !within_range()) return;
+        if (!within_range()) return;
 
         auto&& x = x_.get().array();
         auto&& x0 = loc_.get().array();
diff --git a/include/fastad_bits/reverse/stat/normal.hpp b/include/fastad_bits/reverse/stat/normal.hpp
index 6ddc49d..e9c10e5 100644
--- a/include/fastad_bits/reverse/stat/normal.hpp
+++ b/include/fastad_bits/reverse/stat/normal.hpp
@@ -157,7 +157,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || sigma_.get() <= 0) return;
+        if (sigma_.get() <= 0) return;
 
         value_t inv_s = 1./sigma_.get();
         value_t z = (x_.get() - mean_.get()) * inv_s;
@@ -249,7 +249,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || sigma_.get() <= 0) return;
+        if (sigma_.get() <= 0) return;
 
         value_t inv_s = 1./sigma_.get();
         value_t inv_s_sq = inv_s * inv_s;
@@ -355,7 +355,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || sigma_.get() <= 0) return;
+        if (sigma_.get() <= 0) return;
 
         value_t inv_s = 1./sigma_.get();
         value_t inv_s_sq = inv_s * inv_s;
@@ -454,7 +454,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !is_pos_def_) return;
+        if (!is_pos_def_) return;
 
         auto&& x = x_.get().array();
         auto&& m = mean_.get();
@@ -550,7 +550,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !is_pos_def_) return;
+        if (!is_pos_def_) return;
 
         auto&& x = x_.get().array();
         auto&& m = mean_.get().array();
@@ -643,7 +643,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !is_pos_def_) return;
+        if (!is_pos_def_) return;
 
         if constexpr (!util::is_constant_v<sigma_t>) {
             auto adj = (-0.5 * seed) * (inv_ - z_ * z_.transpose());
@@ -741,7 +741,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !is_pos_def_) return;
+        if (!is_pos_def_) return;
 
         if constexpr (!util::is_constant_v<sigma_t>) {
             auto adj = (-0.5 * seed) * (inv_ - z_ * z_.transpose());
diff --git a/include/fastad_bits/reverse/stat/uniform.hpp b/include/fastad_bits/reverse/stat/uniform.hpp
index b6dd90b..a28bd3f 100644
--- a/include/fastad_bits/reverse/stat/uniform.hpp
+++ b/include/fastad_bits/reverse/stat/uniform.hpp
@@ -156,7 +156,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !within_range()) return;
+        if (!within_range()) return;
         value_t adj = seed / (max_.get() - min_.get());
         max_.beval(-adj);
         min_.beval(adj);
@@ -242,7 +242,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !within_range()) return;
+        if (!within_range()) return;
         value_t adj = seed * static_cast<value_t>(x_.size()) /
             (max_.get() - min_.get());
         max_.beval(-adj);
@@ -337,7 +337,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !within_range()) return;
+        if (!within_range()) return;
 
         auto&& min = min_.get();
         auto&& max = max_.get().array();
@@ -432,7 +432,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !within_range()) return;
+        if (!within_range()) return;
 
         auto&& min = min_.get().array();
         auto&& max = max_.get();
@@ -521,7 +521,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !within_range()) return;
+        if (!within_range()) return;
         auto&& min = min_.get().array();
         auto&& max = max_.get().array();
         max_.beval((-seed) / (max - min));
diff --git a/include/fastad_bits/reverse/stat/wishart.hpp b/include/fastad_bits/reverse/stat/wishart.hpp
index 48e8265..9bca83d 100644
--- a/include/fastad_bits/reverse/stat/wishart.hpp
+++ b/include/fastad_bits/reverse/stat/wishart.hpp
@@ -190,7 +190,7 @@ public:
 
     void beval(value_t seed)
     {
-        if (seed == 0 || !valid()) return;
+        if (!valid()) return;
 
         value_t n = n_.get();
         value_t p = v_.rows();
-- 
2.43.0


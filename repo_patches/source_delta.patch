From d82a779a242e85f26a88c475b101482b36008a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:33 +0000
Subject: [PATCH 01/20] fix: scalar sigmoid, sinh, cosh and tanh did not
 compile

The derivative of Sigmoid only found Eigen's exp, and Sinh, Cosh and Tanh
called Eigen's array functions directly, so that none of them could be
instantiated for scalar expressions.
---
 include/fastad_bits/reverse/core/unary.hpp | 23 ++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/fastad_bits/reverse/core/unary.hpp b/include/fastad_bits/reverse/core/unary.hpp
index 653124c..7d48028 100644
--- a/include/fastad_bits/reverse/core/unary.hpp
+++ b/include/fastad_bits/reverse/core/unary.hpp
@@ -273,26 +273,29 @@ UNARY_STRUCT(Erf,
 UNARY_STRUCT(Sigmoid, 
              USING_STD_AD_EIGEN(exp);
              return 1/(1+exp(-x));, 
-             static_cast<void>(x); 
+             static_cast<void>(f); 
+             USING_STD_AD_EIGEN(exp);
              return seed * exp(-x)/((exp(-x)+1)*(exp(-x)+1)););
 
 // sinh
 UNARY_STRUCT(Sinh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::sinh(x);, 
+             using std::sinh; using Eigen::sinh;
+             return sinh(x);, 
              static_cast<void>(f); 
-             return seed *(Eigen::cosh(x)););
+             using std::cosh; using Eigen::cosh;
+             return seed *(cosh(x)););
 // cosh
 UNARY_STRUCT(Cosh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::cosh(x);, 
+             using std::cosh; using Eigen::cosh;
+             return cosh(x);, 
              static_cast<void>(f); 
-             return seed *(Eigen::sinh(x)););			 
+             using std::sinh; using Eigen::sinh;
+             return seed *(sinh(x)););			 
 // tanh
 UNARY_STRUCT(Tanh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::tanh(x);, 
-             static_cast<void>(f); 
+             using std::tanh; using Eigen::tanh;
+             return tanh(x);, 
+             static_cast<void>(x); 
              return seed *(1-f*f););
 			 
 // operator- (IMPORTANT TO DECLARE IN core)
-- 
2.43.0


From 5d0e3c157675a98e8639ee89daba539fb8eae36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:12 +0000
Subject: [PATCH 02/20] fix: product of elements assigned to a placeholder
 overran its cache

ProdElemNode counted its adjoint cache among the slots of its root, which
EqNode gives back when it rebinds the root to the placeholder: 'w = prod(v)'
was one value slot short and shared the adjoint cache with later nodes.
---
 include/fastad_bits/reverse/core/prod.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/prod.hpp b/include/fastad_bits/reverse/core/prod.hpp
index 12621d1..9ffb7f3 100644
--- a/include/fastad_bits/reverse/core/prod.hpp
+++ b/include/fastad_bits/reverse/core/prod.hpp
@@ -230,12 +230,15 @@ public:
     util::SizePack bind_cache_size() const 
     { 
         return expr_.bind_cache_size() + 
+                util::SizePack(0, expr_.size()) +
                 single_bind_cache_size();
     }
 
+    // Note: does not include adj_cache_, since it remains bound to the cache
+    // even if the root gets rebound (see EqNode).
     util::SizePack single_bind_cache_size() const
     { 
-        return {this->size(), expr_.size()}; 
+        return {this->size(), 0}; 
     }
 
 private:
-- 
2.43.0


From 0509f91af46d4dca4391cdafc3028282d9cc3a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:22 +0000
Subject: [PATCH 03/20] fix: in-place update assigned to a placeholder lost its
 saved value

OpEqNode counted its saved value and adjoint among the slots of its root,
which EqNode gives back when it rebinds the root: in '(w = (u += x), ...)'
the saved value of u shared its slot with later nodes.
---
 include/fastad_bits/reverse/core/eq.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eq.hpp b/include/fastad_bits/reverse/core/eq.hpp
index 5503a89..01797b3 100644
--- a/include/fastad_bits/reverse/core/eq.hpp
+++ b/include/fastad_bits/reverse/core/eq.hpp
@@ -287,14 +287,14 @@ public:
 
     util::SizePack bind_cache_size() const 
     {
-        return single_bind_cache_size() + 
+        return util::SizePack(cache_.size(), cache_.size()) + 
                 expr_.bind_cache_size(); 
     }
 
+    // Note: the root itself views var_view_ and binds nothing,
+    // and cache_ must stay bound even if the root gets rebound (see EqNode).
     util::SizePack single_bind_cache_size() const
-    {
-        return {cache_.size(), cache_.size()}; 
-    }
+    { return {0,0}; }
 
 private:
     value_adj_view_t cache_;
-- 
2.43.0


From 5a3b57dff65d859e881b1dca79c06de22fd328ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:43 +0000
Subject: [PATCH 04/20] fix: if_else as operand, condition or end of a sequence
 read a null value

IfElseNode never bound its own value view and returned the value of the
selected branch only from feval, so that every parent reading get() during
backward evaluation (or writing it, as GlueNode does) used a null pointer.
---
 include/fastad_bits/reverse/core/if_else.hpp | 22 ++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/fastad_bits/reverse/core/if_else.hpp b/include/fastad_bits/reverse/core/if_else.hpp
index beade43..3965ac3 100644
--- a/include/fastad_bits/reverse/core/if_else.hpp
+++ b/include/fastad_bits/reverse/core/if_else.hpp
@@ -75,10 +75,14 @@ public:
         assert(if_expr.cols() == else_expr.cols());
     }
 
-    const auto& feval()
+    const var_t& feval()
     {
-        return cond_expr_.feval() ? 
-                if_expr_.feval() : else_expr_.feval();
+        if (cond_expr_.feval()) {
+            this->get() = if_expr_.feval();
+        } else {
+            this->get() = else_expr_.feval();
+        }
+        return this->get();
     }
 
     template <class T>
@@ -95,18 +99,24 @@ public:
     {
         begin = cond_expr_.bind_cache(begin);
         begin = if_expr_.bind_cache(begin);
-        return else_expr_.bind_cache(begin);
+        begin = else_expr_.bind_cache(begin);
+        auto adj = begin.adj;
+        begin.adj = nullptr;
+        begin = value_adj_view_t::bind(begin);
+        begin.adj = adj;
+        return begin;
     }
 
     util::SizePack bind_cache_size() const 
     { 
         return cond_expr_.bind_cache_size() +
                 if_expr_.bind_cache_size() + 
-                else_expr_.bind_cache_size();
+                else_expr_.bind_cache_size() +
+                single_bind_cache_size();
     }
 
     util::SizePack single_bind_cache_size() const
-    { return {0,0}; }
+    { return {this->size(), 0}; }
 
 private:
     cond_t cond_expr_;
-- 
2.43.0


From b1fe98da46f8164173cb0d10a23339bfeb08672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:21 +0000
Subject: [PATCH 05/20] fix: Cauchy log-pdf multiplied location and scale
 adjoints by the seed twice

With vector x the adjoint of x already contains the seed, and the adjoints of
location and scale derived from it were multiplied by the seed once more, so
that they were wrong for every seed other than 0 and 1.
---
 include/fastad_bits/reverse/stat/cauchy.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/cauchy.hpp b/include/fastad_bits/reverse/stat/cauchy.hpp
index 2e89726..448b390 100644
--- a/include/fastad_bits/reverse/stat/cauchy.hpp
+++ b/include/fastad_bits/reverse/stat/cauchy.hpp
@@ -228,8 +228,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma_sq + diff.square());
-        value_t dx0 = (-seed) * dx.sum();
-        value_t dgamma = (-seed/gamma) * ((dx * diff).sum() + x.size());
+        value_t dx0 = -dx.sum();
+        value_t dgamma = (-1./gamma) * ((dx * diff).sum() + seed * x.size());
         
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -297,8 +297,8 @@ public:
 
         auto diff = x - x0;
         auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
-        value_t dx0 = (-seed) * dx.sum();
-        auto dgamma = (-seed) * (dx * diff + 1) / gamma;
+        value_t dx0 = -dx.sum();
+        auto dgamma = -(dx * diff + seed) / gamma;
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -367,8 +367,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma_sq + diff.square());
-        auto dx0 = (-seed) * dx;
-        value_t dgamma = (-seed/gamma) * ((dx * diff).sum() + x.size());
+        auto dx0 = -dx;
+        value_t dgamma = (-1./gamma) * ((dx * diff).sum() + seed * x.size());
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -436,7 +436,7 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
-        auto dx0 = (-seed) * dx;
+        auto dx0 = -dx;
         auto dgamma = (-seed/gamma) * ((dx * diff) + 1);
 
         scale_.beval(dgamma);
-- 
2.43.0


From f9a9420d330ff4a16b164dce0e289feded465a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:28 +0000
Subject: [PATCH 06/20] fix: uniform log-pdf with constant x ignored changes of
 a vector bound

The flag telling whether every x lies inside a vector minimum or maximum was
computed only at construction when x is a constant, from the values the bound
had (or from an unbound expression) at that time.
---
 include/fastad_bits/reverse/stat/uniform.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/uniform.hpp b/include/fastad_bits/reverse/stat/uniform.hpp
index fb4ea17..b6dd90b 100644
--- a/include/fastad_bits/reverse/stat/uniform.hpp
+++ b/include/fastad_bits/reverse/stat/uniform.hpp
@@ -306,7 +306,8 @@ public:
                       util::is_constant_v<max_t>) {
             update_log_diff_cache();
         }
-        if constexpr (util::is_constant_v<x_t>) {
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<max_t>) {
             update_x_cache();
         }
     }
@@ -322,7 +323,8 @@ public:
             update_log_diff_cache();
         }
 
-        if constexpr (!util::is_constant_v<x_t>) {
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<max_t>) {
             update_x_cache();
         }
 
@@ -399,7 +401,8 @@ public:
                       util::is_constant_v<max_t>) {
             update_log_diff_cache();
         }
-        if constexpr (util::is_constant_v<x_t>) {
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<min_t>) {
             update_x_cache();
         }
     }
@@ -415,7 +418,8 @@ public:
             update_log_diff_cache();
         }
 
-        if constexpr (!util::is_constant_v<x_t>) {
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<min_t>) {
             update_x_cache();
         }
 
-- 
2.43.0


From d29ccc18df712f0f3b1102f253f54d66df2f6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 07/20] fix: Wishart log-pdf with constant X and variable V was
 always -inf

The quantities derived from X also depend on V, but were computed only at
construction when X is constant, before V had been factorised.
---
 include/fastad_bits/reverse/stat/wishart.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/stat/wishart.hpp b/include/fastad_bits/reverse/stat/wishart.hpp
index 5d64c5a..77529c6 100644
--- a/include/fastad_bits/reverse/stat/wishart.hpp
+++ b/include/fastad_bits/reverse/stat/wishart.hpp
@@ -166,7 +166,9 @@ public:
         if constexpr (!util::is_constant_v<v_t>) {
             update_v_cache();
         }
-        if constexpr (!util::is_constant_v<x_t>) {
+        // depends on the inverse of v as well
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<v_t>) {
             update_x_cache();
         }
 
-- 
2.43.0


From fdd0a2a35e275e0d7dbb497b200740a8ee9f65a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:04 +0000
Subject: [PATCH 08/20] fix: Cauchy log-pdf scale adjoint with vector x,
 location and scale

The remaining case in which the seed entered twice (see b1fe98d).
---
 include/fastad_bits/reverse/stat/cauchy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/stat/cauchy.hpp b/include/fastad_bits/reverse/stat/cauchy.hpp
index 448b390..1027014 100644
--- a/include/fastad_bits/reverse/stat/cauchy.hpp
+++ b/include/fastad_bits/reverse/stat/cauchy.hpp
@@ -437,7 +437,7 @@ public:
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
         auto dx0 = -dx;
-        auto dgamma = (-seed/gamma) * ((dx * diff) + 1);
+        auto dgamma = -(dx * diff + seed) / gamma;
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
-- 
2.43.0


From 075d4b65140826d7be79bec29e73f2a037e52398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:23 +0000
Subject: [PATCH 09/20] fix: forward-mode erf ignored the adjoint of its
 argument

The result carried the plain derivative instead of the directional one.
---
 include/fastad_bits/forward/core/forward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/forward/core/forward.hpp b/include/fastad_bits/forward/core/forward.hpp
index 1e9aa5a..7c7ecf2 100644
--- a/include/fastad_bits/forward/core/forward.hpp
+++ b/include/fastad_bits/forward/core/forward.hpp
@@ -134,7 +134,7 @@ FORWARD_UNARY_FUNC(sqrt, tmp, x.get_adjoint() / (2 * tmp),
         auto tmp = std::sqrt(x.get_value());)
 // ad::erf(core::ADForward)
 FORWARD_UNARY_FUNC(erf, std::erf(x.get_value()), 
-        two_over_sqrt_pi * std::exp(-t_sq), 
+        x.get_adjoint() * two_over_sqrt_pi * std::exp(-t_sq), 
         static constexpr double two_over_sqrt_pi =
                 1.1283791670955126;
         auto t_sq = x.get_value() * x.get_value();)
-- 
2.43.0


From 563d0e1a8f9fbdec13e3d2a4363945efa029b70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:02 +0000
Subject: [PATCH 10/20] fix: copy of a bound expression used the cache of the
 original

The copied expression kept pointing to the original's temporaries, which it
overwrote, and which dangled once the original was destroyed.
---
 include/fastad_bits/reverse/core/bind.hpp | 24 ++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/bind.hpp b/include/fastad_bits/reverse/core/bind.hpp
index 9ea7ca6..0f945fa 100644
--- a/include/fastad_bits/reverse/core/bind.hpp
+++ b/include/fastad_bits/reverse/core/bind.hpp
@@ -29,12 +29,34 @@ struct ExprBind
         auto size_pack = expr_.bind_cache_size();
         val_cache_.resize(size_pack(0));
         adj_cache_.resize(size_pack(1));
-        expr_.bind_cache({val_cache_.data(), adj_cache_.data()});
+        bind();
     }
+
+    // A copy must view its own cache.
+    ExprBind(const ExprBind& other)
+        : expr_{other.expr_}
+        , val_cache_{other.val_cache_}
+        , adj_cache_{other.adj_cache_}
+    { bind(); }
+
+    ExprBind& operator=(const ExprBind& other)
+    {
+        expr_ = other.expr_;
+        val_cache_ = other.val_cache_;
+        adj_cache_ = other.adj_cache_;
+        bind();
+        return *this;
+    }
+
+    // Moving keeps the address of the cache.
+    ExprBind(ExprBind&&) = default;
+    ExprBind& operator=(ExprBind&&) = default;
     
     expr_t& get() { return expr_; }
 
 private:
+    void bind() { expr_.bind_cache({val_cache_.data(), adj_cache_.data()}); }
+
     expr_t expr_; 
     Eigen::Matrix<value_t, Eigen::Dynamic, 1> val_cache_;
     Eigen::Matrix<value_t, Eigen::Dynamic, 1> adj_cache_;
-- 
2.43.0


From 02647756a583106b425cd8a672f46810f18ab2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:45 +0000
Subject: [PATCH 11/20] fix: constant vectors could not be operands that are
 asked for their size

Constant had no size(), unlike every other expression, so that log-pdfs and
reductions over an owned constant vector or matrix did not compile.
---
 include/fastad_bits/reverse/core/constant.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fastad_bits/reverse/core/constant.hpp b/include/fastad_bits/reverse/core/constant.hpp
index 0f2108e..34aa439 100644
--- a/include/fastad_bits/reverse/core/constant.hpp
+++ b/include/fastad_bits/reverse/core/constant.hpp
@@ -130,6 +130,8 @@ public:
         }
     }
 
+    size_t size() const { return this->rows() * this->cols(); }
+
     size_t rows() const { 
         if constexpr (util::is_scl_v<this_t>) {
             return 1;
-- 
2.43.0


From 51e538e6c2c4c0af806f01cf108630e0f30a3084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:07 +0000
Subject: [PATCH 12/20] fix: integer and boolean constants could not be left
 operands

---
 include/fastad_bits/reverse/core/binary.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/binary.hpp b/include/fastad_bits/reverse/core/binary.hpp
index a738294..ef15e3d 100644
--- a/include/fastad_bits/reverse/core/binary.hpp
+++ b/include/fastad_bits/reverse/core/binary.hpp
@@ -37,7 +37,9 @@ template <class Binary
         , class LeftExprType
         , class RightExprType>
 struct BinaryNode:
-    ValueAdjView<typename util::expr_traits<LeftExprType>::value_t,
+    ValueAdjView<std::common_type_t<
+                    typename util::expr_traits<LeftExprType>::value_t,
+                    typename util::expr_traits<RightExprType>::value_t>,
                  util::max_shape_t<typename util::shape_traits<LeftExprType>::shape_t,
                                    typename util::shape_traits<RightExprType>::shape_t>
                 >,
-- 
2.43.0


From d8ad42606c0d5225fc36af4114ffa3b52e829bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 13/20] fix: transpose of a constant did not compile

---
 include/fastad_bits/reverse/core/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/transpose.hpp b/include/fastad_bits/reverse/core/transpose.hpp
index 47d4839..be59583 100644
--- a/include/fastad_bits/reverse/core/transpose.hpp
+++ b/include/fastad_bits/reverse/core/transpose.hpp
@@ -70,7 +70,7 @@ inline auto transpose(const T &x) {
     // optimization for when expression is constant
     if constexpr (util::is_constant_v<expr_t>) {
         static_assert(!util::is_scl_v<expr_t>);
-        using var_t = util::constant_var_t<value_t, ad::scl>;
+        using var_t = util::constant_var_t<value_t, ad::mat>;
         var_t out = expr.feval().transpose();
         return ad::constant(out);
     } else {
-- 
2.43.0


From 203f48b9c75b68944d9a62c492d90a7ae5239739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:15 +0000
Subject: [PATCH 14/20] fix: evaluate_adj of a bound vector or matrix
 expression did not compile

---
 include/fastad_bits/reverse/core/eval.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/fastad_bits/reverse/core/eval.hpp b/include/fastad_bits/reverse/core/eval.hpp
index 799dbac..1aa018d 100644
--- a/include/fastad_bits/reverse/core/eval.hpp
+++ b/include/fastad_bits/reverse/core/eval.hpp
@@ -64,6 +64,14 @@ evaluate_adj(core::ExprBind<ExprType>& expr,
     evaluate_adj(expr.get(), seed);
 }
 
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
 template <class ExprType, class T>
 inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
 evaluate_adj(core::ExprBind<ExprType>&& expr, 
-- 
2.43.0


From 36254d723ed6afc12c551eac27e35d4cbd4060c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:45 +0000
Subject: [PATCH 15/20] fix: product over an empty range of constants was 0

---
 include/fastad_bits/reverse/core/prod.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/prod.hpp b/include/fastad_bits/reverse/core/prod.hpp
index 9ffb7f3..dcac3f4 100644
--- a/include/fastad_bits/reverse/core/prod.hpp
+++ b/include/fastad_bits/reverse/core/prod.hpp
@@ -269,7 +269,10 @@ inline auto prod(Iter begin, Iter end, Lmda f)
 
     // optimized for f that returns a constant node
     if constexpr (util::is_constant_v<expr_t>) {
-        if (std::distance(begin, end) <= 0) return ad::constant(var_t(0));
+        if (std::distance(begin, end) <= 0) {
+            if constexpr (util::is_scl_v<expr_t>) return ad::constant(var_t(1));
+            else return ad::constant(var_t(0));
+        }
         var_t prod = f(*begin).feval();     // value_t or Eigen::Matrix
         std::for_each(std::next(begin), end, 
                 [&](const auto& x) 
-- 
2.43.0


From d43973ec3b259dd70d0b66ce999166639b8b62c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:04 +0000
Subject: [PATCH 16/20] fix: assigning a bound expression of vectors or
 matrices kept the old cache

Viewers of vectors and matrices copy values when assigned, so an assigned
expression kept viewing the variables and temporaries of its target, copied
the other one's values into them, and a move-assigned one was left with
dangling temporaries.
---
 include/fastad_bits/reverse/core/bind.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/fastad_bits/reverse/core/bind.hpp b/include/fastad_bits/reverse/core/bind.hpp
index 0f945fa..96dc3eb 100644
--- a/include/fastad_bits/reverse/core/bind.hpp
+++ b/include/fastad_bits/reverse/core/bind.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <new>
+#include <utility>
 #include <vector>
 #include <fastad_bits/reverse/core/expr_base.hpp>
 #include <fastad_bits/util/type_traits.hpp>
@@ -41,16 +43,24 @@ struct ExprBind
 
     ExprBind& operator=(const ExprBind& other)
     {
-        expr_ = other.expr_;
-        val_cache_ = other.val_cache_;
-        adj_cache_ = other.adj_cache_;
-        bind();
+        if (this != &other) *this = ExprBind(other);
         return *this;
     }
 
     // Moving keeps the address of the cache.
     ExprBind(ExprBind&&) = default;
-    ExprBind& operator=(ExprBind&&) = default;
+
+    // Assigning a viewer of a vector or matrix copies what it views,
+    // so the expression is constructed anew to view what the other one does.
+    ExprBind& operator=(ExprBind&& other)
+    {
+        if (this == &other) return *this;
+        expr_.~expr_t();
+        new (&expr_) expr_t(std::move(other.expr_));
+        val_cache_ = std::move(other.val_cache_);
+        adj_cache_ = std::move(other.adj_cache_);
+        return *this;
+    }
     
     expr_t& get() { return expr_; }
 
-- 
2.43.0


From 1910d6ed886c7db4602a52e9df838fd94ceb7ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:28 +0000
Subject: [PATCH 17/20] fix: normal log-pdf with unsigned constant x and mean
 subtracted modulo 2^64

---
 include/fastad_bits/reverse/stat/normal.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/normal.hpp b/include/fastad_bits/reverse/stat/normal.hpp
index 6ddc49d..88895cc 100644
--- a/include/fastad_bits/reverse/stat/normal.hpp
+++ b/include/fastad_bits/reverse/stat/normal.hpp
@@ -150,7 +150,8 @@ public:
             this->update_cache();
         }
 
-        auto z = (x - m) / s;
+        // difference of value_t: x and mean may both be unsigned
+        auto z = (static_cast<value_t>(x) - static_cast<value_t>(m)) / s;
         
         return this->get() = -0.5 * z * z - log_sigma_; 
     }
@@ -160,7 +161,7 @@ public:
         if (seed == 0 || sigma_.get() <= 0) return;
 
         value_t inv_s = 1./sigma_.get();
-        value_t z = (x_.get() - mean_.get()) * inv_s;
+        value_t z = (static_cast<value_t>(x_.get()) - static_cast<value_t>(mean_.get())) * inv_s;
 
         if constexpr (!util::is_constant_v<sigma_t>) {
             sigma_.beval(seed * (z*z - 1) * inv_s);
-- 
2.43.0


From e203dcf36aa7b3b2497b1b02f0ca6888a1685f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:28 +0000
Subject: [PATCH 18/20] fix: Cauchy log-pdf with unsigned constant x and
 location had a wrong scale adjoint

---
 include/fastad_bits/reverse/stat/cauchy.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/cauchy.hpp b/include/fastad_bits/reverse/stat/cauchy.hpp
index 1027014..484881b 100644
--- a/include/fastad_bits/reverse/stat/cauchy.hpp
+++ b/include/fastad_bits/reverse/stat/cauchy.hpp
@@ -141,7 +141,8 @@ public:
             return this->get() = util::neg_inf<value_t>;
         }
 
-        auto diff = x-x0;
+        // difference of value_t: x and location may both be unsigned
+        auto diff = static_cast<value_t>(x) - static_cast<value_t>(x0);
         inner_term_ = gamma + (diff * diff) / gamma;
         return this->get() = -std::log(inner_term_);
     }
@@ -154,7 +155,7 @@ public:
         auto&& x0 = loc_.get();
         auto&& gamma = scale_.get();
 
-        auto diff = x-x0;
+        auto diff = static_cast<value_t>(x) - static_cast<value_t>(x0);
         auto x0_adj = 2. * diff / (gamma * inner_term_);
         auto x_adj = -x0_adj;
         auto gamma_adj = 1./gamma * (x0_adj * diff - 1);
-- 
2.43.0


From ce1e35d9c35ecdbebce8a4627fd2ce266210fc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:48 +0000
Subject: [PATCH 19/20] fix: operator on an empty vector and a scalar had the
 size of the scalar

---
 include/fastad_bits/reverse/core/binary.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/binary.hpp b/include/fastad_bits/reverse/core/binary.hpp
index ef15e3d..f44d749 100644
--- a/include/fastad_bits/reverse/core/binary.hpp
+++ b/include/fastad_bits/reverse/core/binary.hpp
@@ -79,8 +79,8 @@ public:
     BinaryNode(const left_t& expr_lhs, 
                const right_t& expr_rhs)
         : value_adj_view_t(nullptr, nullptr,
-                       std::max(expr_lhs.rows(), expr_rhs.rows()),
-                       std::max(expr_lhs.cols(), expr_rhs.cols()))
+                       util::is_scl_v<left_t> ? expr_rhs.rows() : expr_lhs.rows(),
+                       util::is_scl_v<left_t> ? expr_rhs.cols() : expr_lhs.cols())
         , expr_lhs_(expr_lhs)
         , expr_rhs_(expr_rhs)
     {
-- 
2.43.0


From 90b37945c836fa7aa41546ff3ffd3c08d972ce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:31 +0000
Subject: [PATCH 20/20] fix: negative power of an integer constant 0 was 0
 instead of infinity

---
 include/fastad_bits/reverse/core/pow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/pow.hpp b/include/fastad_bits/reverse/core/pow.hpp
index aa9ff7e..3a51a81 100644
--- a/include/fastad_bits/reverse/core/pow.hpp
+++ b/include/fastad_bits/reverse/core/pow.hpp
@@ -50,7 +50,7 @@ struct PowFunc<n, false>
     static auto evaluate(const BaseType& base)
     {
         return (base == 0) ? 
-            std::numeric_limits<BaseType>::infinity() : 
+            std::numeric_limits<decltype(1./base)>::infinity() : 
             PowFunc<-n>::evaluate(1./base);
     }
 };
-- 
2.43.0


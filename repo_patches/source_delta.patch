From 2ce2660843af1adec8ca6a35dd8020e305f2886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 01/26] fix: place n-ary child Jacobians in the rows of the
 child they belong to

---
 .../geometry/src/core/functions/JacobianEvaluator.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp b/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
index 1ea656c..952c543 100644
--- a/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
+++ b/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
@@ -288,14 +288,17 @@ struct JacobianEvaluator<Derived, Target, enable_if_nary_t<Derived>> {
             std::get<Is>(evaluator.children), target}...};
     }
 
-    template <size_t... Is>
-    inline Jacobian combineChildJacobians(std::index_sequence<Is...>) const {
+    // Is are positions among the children to call; Rows are their positions among all
+    // the children, and so their rows in the result.
+    template <size_t... Is, size_t... Rows>
+    inline Jacobian combineChildJacobians(std::index_sequence<Is...>,
+                                          std::index_sequence<Rows...>) const {
         // Fill with zero first. @todo profile/optimize
         auto jac = Jacobian{};
         jac.setZero();
         int foreach[] = {
           (std::get<Is>(children).jacobian()
-             ? (jac.template rowsWrt<Is>() = *std::get<Is>(children).jacobian(), 0)
+             ? (jac.template rowsWrt<Rows>() = *std::get<Is>(children).jacobian(), 0)
              : 0)...};
         (void) foreach;
         return jac;
@@ -321,7 +324,7 @@ struct JacobianEvaluator<Derived, Target, enable_if_nary_t<Derived>> {
         constexpr auto N = std::tuple_size<ChildJacEvalTuple>::value;
         if (N > 0) {
             using Indices = std::make_index_sequence<N>;
-            return this->combineChildJacobians(Indices{});
+            return this->combineChildJacobians(Indices{}, IndicesOfChildrenToCall{});
         } else {
             return boost::none;
         }
-- 
2.43.0


From 58d20791dd72a06dd1e221042aef629f470d8f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 02/26] fix: keep rotation log Jacobian finite and accurate for
 small angles

---
 .../wave/geometry/src/geometry/op/LogMap.hpp  | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/wave/geometry/src/geometry/op/LogMap.hpp b/include/wave/geometry/src/geometry/op/LogMap.hpp
index a4540b2..de7233b 100644
--- a/include/wave/geometry/src/geometry/op/LogMap.hpp
+++ b/include/wave/geometry/src/geometry/op/LogMap.hpp
@@ -45,18 +45,21 @@ auto jacobianImpl(expr<LogMap>,
     // From http://ethaneade.org/exp_diff.pdf
     using std::cos;
     using std::sin;
-    const auto theta2 = phi.squaredNorm();
-    const auto theta = sqrt(theta2);
-    const auto A = sin(theta) / theta;
-    const auto B = (Scalar{1} - cos(theta)) / theta2;
+    using std::sqrt;
+    const Scalar theta2 = phi.squaredNorm();
+    Scalar coeff;
+    if (theta2 * theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+        const Scalar theta = sqrt(theta2);
+        const Scalar A = sin(theta) / theta;
+        const Scalar B = (Scalar{1} - cos(theta)) / theta2;
+        coeff = (B - Scalar{0.5} * A) / (Scalar{1} - cos(theta));
+    } else {
+        // small theta2; use Taylor expansion
+        coeff = Scalar{1} / 12 + theta2 / 720;
+    }
 
-    //        if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
     return Jacobian::Identity() - Scalar{0.5} * crossMatrix(phi) +
-           ((B - Scalar{0.5} * A) / (Scalar{1} - cos(theta))) * crossMatrix(phi) *
-             crossMatrix(phi);
-    //        } else {
-    // @todo small input
-    //        }
+           coeff * crossMatrix(phi) * crossMatrix(phi);
 }
 
 }  // namespace internal
-- 
2.43.0


From 073da99189f67c24df4ea91c534500a6c289eccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:08 +0000
Subject: [PATCH 03/26] fix: keep rigid transform exp and log Jacobians finite
 and accurate for small angles

---
 .../src/geometry/base/RigidTransformBase.hpp  | 27 +++++++++++++------
 .../wave/geometry/src/geometry/leaf/Twist.hpp | 27 +++++++++++++------
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
index 395e37b..70f8a92 100644
--- a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
+++ b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
@@ -170,21 +170,32 @@ auto jacobianImpl(expr<LogMap>,
 
     using std::cos;
     using std::sin;
+    using std::sqrt;
     // First get Jacobian of logmap of rotation part only
     const auto &Drot =
       jacobianImpl(expr<LogMap>{}, val.derived().rotation(), rhs.derived().rotation());
 
     const auto &omega = val.derived().rotation().value();
     const auto &u = val.derived().translation().value();
-    const auto theta2 = omega.squaredNorm();
-    const auto theta = sqrt(theta2);
-    const auto a = sin(theta) / theta;
-    const auto b = (1 - cos(theta)) / theta2;
-    const auto c = (1 - a) / theta2;
+    const Scalar theta2 = omega.squaredNorm();
+    Scalar b, c, w1, w2;
+    if (theta2 * theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+        const Scalar theta = sqrt(theta2);
+        const Scalar a = sin(theta) / theta;
+        b = (1 - cos(theta)) / theta2;
+        c = (1 - a) / theta2;
+        w1 = (a - 2 * b) / theta2;
+        w2 = (b - 3 * c) / theta2;
+    } else {
+        // small theta2; use Taylor expansions
+        b = Scalar{1} / 2 - theta2 / 24;
+        c = Scalar{1} / 6 - theta2 / 120;
+        w1 = -Scalar{1} / 12 + theta2 / 180;
+        w2 = -Scalar{1} / 60 + theta2 / 1260;
+    }
     // Calculate Eade's "W" term
-    const Mat3 W = (c - b) * Mat3::Identity() +
-                   (a - 2 * b) / theta2 * crossMatrix(omega) +
-                   (b - 3 * c) / theta2 * omega * omega.transpose();
+    const Mat3 W = (c - b) * Mat3::Identity() + w1 * crossMatrix(omega) +
+                   w2 * omega * omega.transpose();
 
     // Calculate Eade's "B" term
     const Mat3 B = b * crossMatrix(u) +
diff --git a/include/wave/geometry/src/geometry/leaf/Twist.hpp b/include/wave/geometry/src/geometry/leaf/Twist.hpp
index d75999e..893abdb 100644
--- a/include/wave/geometry/src/geometry/leaf/Twist.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Twist.hpp
@@ -141,21 +141,32 @@ auto jacobianImpl(expr<ExpMap>, const TransformBase<Val> &val, const TwistBase<R
     // translation
     using std::cos;
     using std::sin;
+    using std::sqrt;
     // First get Jacobian of expmap of rotation part only
     const auto &Drot = jacobianImpl(
       expr<ExpMap>{}, val.derived().rotationBlock(), rhs.derived().rotation());
 
     const auto &omega = rhs.derived().rotation().value();
     const auto &u = rhs.derived().translation().value();
-    const auto theta2 = omega.squaredNorm();
-    const auto theta = sqrt(theta2);
-    const auto a = sin(theta) / theta;
-    const auto b = (1 - cos(theta)) / theta2;
-    const auto c = (1 - a) / theta2;
+    const Scalar theta2 = omega.squaredNorm();
+    Scalar b, c, w1, w2;
+    if (theta2 * theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+        const Scalar theta = sqrt(theta2);
+        const Scalar a = sin(theta) / theta;
+        b = (1 - cos(theta)) / theta2;
+        c = (1 - a) / theta2;
+        w1 = (a - 2 * b) / theta2;
+        w2 = (b - 3 * c) / theta2;
+    } else {
+        // small theta2; use Taylor expansions
+        b = Scalar{1} / 2 - theta2 / 24;
+        c = Scalar{1} / 6 - theta2 / 120;
+        w1 = -Scalar{1} / 12 + theta2 / 180;
+        w2 = -Scalar{1} / 60 + theta2 / 1260;
+    }
     // Calculate Eade's "W" term
-    const Mat3 W = (c - b) * Mat3::Identity() +
-                   (a - 2 * b) / theta2 * crossMatrix(omega) +
-                   (b - 3 * c) / theta2 * omega * omega.transpose();
+    const Mat3 W = (c - b) * Mat3::Identity() + w1 * crossMatrix(omega) +
+                   w2 * omega * omega.transpose();
 
     // Calculate Eade's "B" term
     const Mat3 B = b * crossMatrix(u) +
-- 
2.43.0


From 43eb58c819758f77509699259f16c58e35200358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 04/26] fix: keep rigid transform log accurate for small
 rotation angles

---
 .../src/geometry/base/RigidTransformBase.hpp  | 35 ++++++++-----------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
index 70f8a92..c82e043 100644
--- a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
+++ b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
@@ -131,29 +131,22 @@ auto evalImpl(expr<LogMap>, const RigidTransformBase<Rhs> &rhs) ->
 
     // Logmap of translation part: not trivial (see http://ethaneade.com/lie.pdf)
     // @todo optimize
-    Vec3 ln_t;
-    const auto theta2 = omega.squaredNorm();
-    const auto theta = std::sqrt(theta2);
-    if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
-        const auto A = std::sin(theta) / theta;
-        const auto B = (1 - std::cos(theta)) / theta2;
-        const Mat3 cross = crossMatrix(omega);
-        const Mat3 cross2 = cross * cross;
-
-        const Mat3 Vinv =
-          Mat3::Identity() - cross / 2 + (1 - A / 2 / B) / theta2 * cross2;
-
-        ln_t = Vinv * rhs.derived().translationBlock().value();
-
+    const Scalar theta2 = omega.squaredNorm();
+    Scalar coeff;
+    if (theta2 * theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+        const Scalar theta = std::sqrt(theta2);
+        const Scalar A = std::sin(theta) / theta;
+        const Scalar B = (1 - std::cos(theta)) / theta2;
+        coeff = (1 - A / 2 / B) / theta2;
     } else {
-        // small theta2; use limit as theta -> 0
-        // @todo: use Taylor series, not just the limit!
-        const Mat3 cross = crossMatrix(omega);
-
-        const Mat3 Vinv = Mat3::Identity() - cross / 2;
-
-        ln_t = Vinv * rhs.derived().translationBlock().value();
+        // small theta2; use Taylor expansion (the above loses all precision)
+        coeff = Scalar{1} / 12 + theta2 / 720;
     }
+    const Mat3 cross = crossMatrix(omega);
+    const Mat3 cross2 = cross * cross;
+    const Mat3 Vinv = Mat3::Identity() - cross / 2 + coeff * cross2;
+    const Vec3 ln_t = Vinv * rhs.derived().translationBlock().value();
+
     return typename traits<Rhs>::TangentType{omega, ln_t};
 }
 
-- 
2.43.0


From d675e0c319cd39dd4db9abac292f63e856da0390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:41 +0000
Subject: [PATCH 05/26] fix: let n-ary expressions with three or more children
 repeat leaf types

---
 include/wave/geometry/src/util/meta/type_list.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/wave/geometry/src/util/meta/type_list.hpp b/include/wave/geometry/src/util/meta/type_list.hpp
index 335717f..3ea4490 100644
--- a/include/wave/geometry/src/util/meta/type_list.hpp
+++ b/include/wave/geometry/src/util/meta/type_list.hpp
@@ -236,15 +236,10 @@ struct concat_if_unique_many<U1, U2>
                          concat_if_unique<typename U1::type, typename U2::type>,
                          std::false_type> {};
 
-// More than two lists: fold over concat_if_unique or short-circuit if false
-// (like std::conjunction)
+// More than two lists: fold over the first two, which gives false if any is not unique
 template <typename U1, typename U2, class... Tail>
 struct concat_if_unique_many<U1, U2, Tail...>
-    : std::conditional_t<
-        bool(concat_if_unique<typename U1::type, typename U2::type>::value),
-        concat_if_unique_many<concat_if_unique<typename U1::type, typename U2::type>,
-                              Tail...>,
-        concat_if_unique<typename U1::type, typename U2::type>> {};
+    : concat_if_unique_many<concat_if_unique_many<U1, U2>, Tail...> {};
 
 
 /** Zip two parameter packs of equal length
-- 
2.43.0


From 28d29839f39fc805210668824d7eb1f079097b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:04 +0000
Subject: [PATCH 06/26] fix: evaluate Jacobians of n-ary expressions with
 unique leaf types

---
 include/wave/geometry/src/core/storage/NaryStorage.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/wave/geometry/src/core/storage/NaryStorage.hpp b/include/wave/geometry/src/core/storage/NaryStorage.hpp
index 8932d8a..842b2e2 100644
--- a/include/wave/geometry/src/core/storage/NaryStorage.hpp
+++ b/include/wave/geometry/src/core/storage/NaryStorage.hpp
@@ -122,8 +122,9 @@ struct compound_traits_base<Tmpl<Ts...>, Primitives...> {
     using Tag = nary_eval<EvalType>;
     using OutputFunctor = IdentityFunctor;
     using PlainType = rebind<plain_output_t<Primitives>...>;
-    using UniqueLeaves =
-      tmp::concat_if_unique_many<typename traits<Primitives>::UniqueLeaves...>;
+    // The typed and static reverse Jacobian evaluators do not handle n-ary expressions, so
+    // these are never considered to have unique leaves
+    using UniqueLeaves = std::false_type;
     using ConvertTo = tmp::type_list<>;
     using Scalar = common_scalar_t<Primitives...>;
 
-- 
2.43.0


From f90a398f6b1d7f8f08becddb28c5dbb3035bee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:03 +0000
Subject: [PATCH 07/26] fix: keep the common type in sums and differences of
 mixed scalars

---
 .../geometry/src/geometry/base/ScalarBase.hpp  | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/wave/geometry/src/geometry/base/ScalarBase.hpp b/include/wave/geometry/src/geometry/base/ScalarBase.hpp
index b57736b..7aae6c2 100644
--- a/include/wave/geometry/src/geometry/base/ScalarBase.hpp
+++ b/include/wave/geometry/src/geometry/base/ScalarBase.hpp
@@ -73,6 +73,24 @@ auto makeScalarResult(Arg &&arg) -> Scalar<Arg> {
     return Scalar<Arg>{std::forward<Arg>(arg)};
 }
 
+/** Implementation of scalar + scalar sum
+ * Defer to the implementation type's arithmetic operators, which give the common type of
+ * mixed operands.
+ */
+template <typename Lhs, typename Rhs>
+auto evalImpl(expr<Sum>, const ScalarBase<Lhs> &lhs, const ScalarBase<Rhs> &rhs) {
+    return makeScalarResult(lhs.derived().value() + rhs.derived().value());
+}
+
+/** Implementation of scalar - scalar difference
+ * Defer to the implementation type's arithmetic operators, which give the common type of
+ * mixed operands.
+ */
+template <typename Lhs, typename Rhs>
+auto evalImpl(expr<Subtract>, const ScalarBase<Lhs> &lhs, const ScalarBase<Rhs> &rhs) {
+    return makeScalarResult(lhs.derived().value() - rhs.derived().value());
+}
+
 /** Trivial implementation of scalar * scalar product
  * Defer to the implementation type's arithmetic operators.
  */
-- 
2.43.0


From 68820ae39e6b29a1c66ca944710a4f8622697da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:35 +0000
Subject: [PATCH 08/26] fix: allow assigning expressions to compact transforms
 and other compound leaves

---
 .../wave/geometry/src/core/storage/CompoundLeafStorage.hpp  | 6 +++---
 .../geometry/src/geometry/leaf/CompactRigidTransform.hpp    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp b/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
index 06c51ee..7545778 100644
--- a/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
+++ b/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
@@ -58,9 +58,9 @@ struct CompoundLeafStorage {
         : CompoundLeafStorage{wave::internal::evaluateTo<Derived>(rhs.derived())} {}
 
     /** Assigns from another expression */
-    template <typename Rhs, typename RhsBase = internal::base_tmpl_t<Derived, Rhs>>
-    Derived &operator=(const RhsBase &rhs) {
-        this->storage =
+    template <typename OtherDerived>
+    Derived &operator=(const ExpressionBase<OtherDerived> &rhs) {
+        this->storage_ =
           wave::internal::evaluateTo<internal::plain_output_t<Derived>>(rhs.derived())
             .value();
         return *static_cast<Derived *>(this);
diff --git a/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp b/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
index 40f15b6..01dbb0e 100644
--- a/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
+++ b/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
@@ -58,7 +58,7 @@ class CompactRigidTransform
     template <typename RDerived, typename TDerived>
     CompactRigidTransform(const Eigen::RotationBase<RDerived, 3> &q,
                           const Eigen::MatrixBase<TDerived> &t)
-        : CompactRigidTransform{q, t} {
+        : Storage{QuatType{q.derived()}, t.derived()} {
         EIGEN_STATIC_ASSERT_VECTOR_SPECIFIC_SIZE(TDerived, 3);
     };
 
-- 
2.43.0


From e26602a50d818974de9ae0c7f46df1b3a6ed7ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:49 +0000
Subject: [PATCH 09/26] fix: rotation() of a temporary transform expression

---
 include/wave/geometry/src/geometry/base/TransformBase.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/base/TransformBase.hpp b/include/wave/geometry/src/geometry/base/TransformBase.hpp
index 7424230..c025fe6 100644
--- a/include/wave/geometry/src/geometry/base/TransformBase.hpp
+++ b/include/wave/geometry/src/geometry/base/TransformBase.hpp
@@ -91,7 +91,8 @@ class TransformBase : public ExpressionBase<Derived> {
     }
 
     auto rotation() && {
-        return internal::memberAccess<RotationGetter>(std::move(*this).derived());
+        return internal::memberAccess<RotationGetter<Derived>>(
+          std::move(*this).derived());
     }
 
     /** Produce a random element */
-- 
2.43.0


From 54e1074cc521daaf031b277033876fee01cf7e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:34 +0000
Subject: [PATCH 10/26] fix: rigid transforms over a mapped 4x4 matrix

---
 .../wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp b/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
index eba4967..a9ef93f 100644
--- a/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
+++ b/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
@@ -71,7 +71,7 @@ class MatrixRigidTransform
     /** Construct from an Eigen 4x4 transformation matrix */
     template <typename MDerived, TICK_REQUIRES(internal::is_eigen_matrix<4, MDerived>{})>
     explicit MatrixRigidTransform(const Eigen::MatrixBase<MDerived> &m)
-        : Storage{typename Storage::init_storage{}, m} {
+        : Storage{typename Storage::init_storage{}, m.derived()} {
         EIGEN_STATIC_ASSERT_MATRIX_SPECIFIC_SIZE(MDerived, 4, 4);
     }
 
-- 
2.43.0


From d5c4b89c41d748e798f26cc552cbc9d9fa88cf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:35 +0000
Subject: [PATCH 11/26] fix: let Dynamic and Proxy wrap expressions with
 unevaluated results

---
 include/wave/geometry/src/dynamic/Dynamic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/dynamic/Dynamic.hpp b/include/wave/geometry/src/dynamic/Dynamic.hpp
index 2990d1c..b6126d1 100644
--- a/include/wave/geometry/src/dynamic/Dynamic.hpp
+++ b/include/wave/geometry/src/dynamic/Dynamic.hpp
@@ -58,7 +58,8 @@ struct Dynamic final : internal::base_tmpl_t<RhsDerived, Dynamic<RhsDerived>>,
 
     auto dynEvaluate() const -> EvalType override {
         const auto &v_eval = this->constructEvaluator();
-        return v_eval();
+        // The result of the evaluator may be an unevaluated type (e.g. of Scale)
+        return internal::evaluateTo<EvalType>(v_eval());
     }
 
     auto dynJacobian(const void *target_ptr) const -> MatrixType override {
-- 
2.43.0


From c1011368d153f79ebab8ca43eebeab9cad57b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:35 +0000
Subject: [PATCH 12/26] fix: do not refer to a temporary when scaling Zero

---
 .../wave/geometry/src/geometry/leaf/Zero.hpp    | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/wave/geometry/src/geometry/leaf/Zero.hpp b/include/wave/geometry/src/geometry/leaf/Zero.hpp
index ab1f46f..65f56e8 100644
--- a/include/wave/geometry/src/geometry/leaf/Zero.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Zero.hpp
@@ -85,6 +85,23 @@ decltype(auto) evalImpl(expr<Minus>, const Zero<Rhs> &rhs) {
     return rhs;
 }
 
+// The generic implementations refer to the rhs's value() after it is evaluated, which is
+// not possible here as Zero has no stored value
+template <typename Lhs, typename Rhs>
+decltype(auto) evalImpl(expr<Scale>, const ScalarBase<Lhs> &, const Zero<Rhs> &rhs) {
+    return rhs;
+}
+
+template <typename Lhs, typename Rhs>
+decltype(auto) evalImpl(expr<ScaleR>, const Zero<Lhs> &lhs, const ScalarBase<Rhs> &) {
+    return lhs;
+}
+
+template <typename Lhs, typename Rhs>
+decltype(auto) evalImpl(expr<ScaleDiv>, const Zero<Lhs> &lhs, const ScalarBase<Rhs> &) {
+    return lhs;
+}
+
 template <typename Rhs>
 auto evalImpl(expr<ExpMap>, const Zero<Rhs> &) {
     return Identity<typename traits<Rhs>::ExpType>{};
-- 
2.43.0


From 8c1759bc319f34077d25f05a0743b1e6ec3700ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:35 +0000
Subject: [PATCH 13/26] fix: provide Jacobians of operations on Identity

---
 .../geometry/src/geometry/leaf/Identity.hpp   | 55 +++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/include/wave/geometry/src/geometry/leaf/Identity.hpp b/include/wave/geometry/src/geometry/leaf/Identity.hpp
index a48bfe8..9320eef 100644
--- a/include/wave/geometry/src/geometry/leaf/Identity.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Identity.hpp
@@ -102,11 +102,66 @@ decltype(auto) evalImpl(expr<Transform>,
     return rhs.derived();
 };
 
+/** Jacobian of the inverse of Identity rotation */
+template <typename Val, typename Rhs>
+auto jacobianImpl(expr<Inverse>, const RotationBase<Val> &, const Identity<Rhs> &)
+  -> jacobian_t<Val, Identity<Rhs>> {
+    return -jacobian_t<Val, Identity<Rhs>>::Identity();
+}
+
+/** Jacobian of the inverse of Identity rigid transform */
+template <typename Val, typename Rhs>
+auto jacobianImpl(expr<Inverse>, const RigidTransformBase<Val> &, const Identity<Rhs> &)
+  -> jacobian_t<Val, Identity<Rhs>> {
+    return -jacobian_t<Val, Identity<Rhs>>::Identity();
+}
+
+/** Jacobian of composing Identity with Identity wrt the rhs is identity */
+template <typename Val, typename Lhs, typename Rhs>
+auto rightJacobianImpl(expr<Compose>,
+                       const TransformBase<Val> &,
+                       const Identity<Lhs> &,
+                       const Identity<Rhs> &) {
+    return identity_t<Val>{};
+}
+
+/** Jacobian of Identity rotation wrt the rhs is identity */
+template <typename Val, typename Lhs, typename Rhs>
+auto rightJacobianImpl(expr<Rotate>,
+                       const TranslationBase<Val> &,
+                       const Identity<Lhs> &,
+                       const TranslationBase<Rhs> &) {
+    return identity_t<Val>{};
+}
+
+/** Jacobian of Identity transform wrt the rhs is identity */
+template <typename Val, typename Lhs, typename Rhs>
+auto rightJacobianImpl(expr<Transform>,
+                       const TranslationBase<Val> &,
+                       const Identity<Lhs> &,
+                       const TranslationBase<Rhs> &) {
+    return identity_t<Val>{};
+}
+
 template <typename Rhs>
 auto evalImpl(expr<LogMap>, const Identity<Rhs> &) {
     return Zero<typename traits<Rhs>::TangentType>{};
 };
 
+/** Jacobian of logmap at Identity rotation is identity */
+template <typename Val, typename Rhs>
+auto jacobianImpl(expr<LogMap>,
+                  const RelativeRotationBase<Val> &,
+                  const Identity<Rhs> &) {
+    return identity_t<Val>{};
+}
+
+/** Jacobian of logmap at Identity rigid transform is identity */
+template <typename Val, typename Rhs>
+auto jacobianImpl(expr<LogMap>, const TwistBase<Val> &, const Identity<Rhs> &) {
+    return identity_t<Val>{};
+}
+
 }  // namespace internal
 }  // namespace wave
 
-- 
2.43.0


From 4a51dff66c001dd23266e1622b6b50e7cb7d6f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:35 +0000
Subject: [PATCH 14/26] fix: differentiate expressions containing proxies in
 forward and reverse mode

---
 include/wave/geometry/src/dynamic/Proxy.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/wave/geometry/src/dynamic/Proxy.hpp b/include/wave/geometry/src/dynamic/Proxy.hpp
index 921fbaf..700b621 100644
--- a/include/wave/geometry/src/dynamic/Proxy.hpp
+++ b/include/wave/geometry/src/dynamic/Proxy.hpp
@@ -82,6 +82,10 @@ struct is_proxy<Proxy<Leaf>> : std::true_type {};
 template <typename Derived, typename T = void>
 using enable_if_proxy_t = typename std::enable_if<is_proxy<Derived>{}, T>::type;
 
+// We don't know the contained leaves at compile time, so any target may be among them
+template <typename Derived, typename Target>
+struct contains_same_type<Derived, Target, enable_if_proxy_t<Derived>> : std::true_type {};
+
 /* Proxy<L> is a special class that gets an instantiation of Evaluator, prepareExpr, etc.
  * despite not being a leaf, unary, or binary expression. We provide those partial
  * specializations here.
@@ -149,8 +153,9 @@ struct JacobianEvaluator<
 
     WAVE_STRONG_INLINE boost::optional<jacobian_t<Derived, Target>> jacobian() const {
         // Check if Jacobian is wrt this Proxy
+        // (written for any target size; only one of the same size can be this Proxy)
         if (isSame(this->v_eval.expr, this->target_ptr)) {
-            return identity_t<Derived>{}.eval();
+            return jacobian_t<Derived, Target>{jacobian_t<Derived, Target>::Identity()};
         }
         // Otherwise, dynamically get the Jacobian of the derived expression and convert
         // to the expected optional-fixed-size return type
@@ -174,8 +179,12 @@ struct DynamicReverseJacobianEvaluator<Derived, Adjoint, enable_if_proxy_t<Deriv
       DynamicReverseResult<scalar_t<Derived>> &jac_map,
       const Evaluator<Derived> &v_eval,
       const Adjoint &adjoint) {
-        // Dynamically get the Jacobians of the derived expression
-        v_eval.expr.dynReverse(jac_map, adjoint.eval());
+        // Dynamically get the Jacobians of the derived expression. The adjoint may be of a
+        // special type (e.g. an identity matrix), so make it a plain matrix first.
+        using PlainAdjoint = Eigen::Matrix<scalar_t<Derived>,
+                                           tmp::remove_cr_t<Adjoint>::RowsAtCompileTime,
+                                           eval_traits<Derived>::TangentSize>;
+        v_eval.expr.dynReverse(jac_map, PlainAdjoint{adjoint});
     }
 };
 
-- 
2.43.0


From e6cf72f7f6b79a00db2208014a816601afb4ab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:27 +0000
Subject: [PATCH 15/26] fix: keep binary minus of cross-product matrices

Declaring unary operator- in CrossMatrix hid the inherited binary minus, so
crossMatrix(a) - m did not compile although crossMatrix(a) + m did.
---
 include/wave/geometry/src/util/math/CrossMatrix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/wave/geometry/src/util/math/CrossMatrix.hpp b/include/wave/geometry/src/util/math/CrossMatrix.hpp
index 563a1a8..7ec4871 100644
--- a/include/wave/geometry/src/util/math/CrossMatrix.hpp
+++ b/include/wave/geometry/src/util/math/CrossMatrix.hpp
@@ -48,6 +48,9 @@ class CrossMatrix : public Eigen::Matrix<typename VecType::Scalar, 3, 3> {
                        .finished()},
           vec{vec} {}
 
+    // Keep binary minus, which the unary operator below would otherwise hide
+    using MatrixType::operator-;
+
     using NegativeReturnType = CrossMatrix<typename VecType::NegativeReturnType>;
 
     EIGEN_DEVICE_FUNC
-- 
2.43.0


From bf6b578a9fd7d4740fee674201ff437a38c3ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:15 +0000
Subject: [PATCH 16/26] fix: rotation log at and close to half turns

At an angle of pi the skew part of a rotation matrix vanishes: log returned
zero for an exact half turn, so isApprox() took it for the identity, and
vectors of length 1e7 within 1e-9 of it. Take the axis from the symmetric part
there.
---
 .../wave/geometry/src/geometry/leaf/MatrixRotation.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp b/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp
index 12b35c1..0e3bdaa 100644
--- a/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp
+++ b/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp
@@ -77,8 +77,16 @@ auto evalImpl(expr<LogMap>, const MatrixRotation<ImplType> &rhs) ->
     // From http://ethaneade.com/lie.pdf
     using std::acos;
     using std::sin;
+    using std::sqrt;
     const auto &m = rhs.value();
-    const auto angle = acos((m.trace() - Scalar{1}) / Scalar{2});
+    const Scalar trace = m.trace();
+    if (trace + Scalar{1} < sqrt(Eigen::NumTraits<Scalar>::dummy_precision())) {
+        // Angle very close to pi: m - m^T vanishes and no longer determines the axis
+        const Eigen::AngleAxis<Scalar> aa{m};
+        return typename traits<MatrixRotation<ImplType>>::TangentType{aa.angle() *
+                                                                      aa.axis()};
+    }
+    const auto angle = acos((trace - Scalar{1}) / Scalar{2});
 
     if (angle * angle > Eigen::NumTraits<Scalar>::epsilon()) {
         return uncrossMatrix(angle / (Scalar{2} * sin(angle)) * (m - m.transpose()));
-- 
2.43.0


From 42bc8643a0cdd15edd9097d7151a6e8fc197c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:41 +0000
Subject: [PATCH 17/26] fix: let noise models give up their matrices as rvalues

---
 include/wave/geometry/src/estimation/Noise.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/estimation/Noise.hpp b/include/wave/geometry/src/estimation/Noise.hpp
index 3c55661..2eeb736 100644
--- a/include/wave/geometry/src/estimation/Noise.hpp
+++ b/include/wave/geometry/src/estimation/Noise.hpp
@@ -68,8 +68,8 @@ class FullNoise {
     }
 
  private:
-    const MatrixType cov_;
-    const MatrixType inv_sqrt_cov_;
+    MatrixType cov_;
+    MatrixType inv_sqrt_cov_;
 };
 
 /**
@@ -132,8 +132,8 @@ class DiagonalNoise {
     }
 
  private:
-    const MatrixType cov_;
-    const MatrixType inv_sqrt_cov_;
+    MatrixType cov_;
+    MatrixType inv_sqrt_cov_;
 };
 
 
-- 
2.43.0


From a4e8543561561405222d522895c9038058793159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:42 +0000
Subject: [PATCH 18/26] fix: box-plus of compounds with rotation or transform
 parts

---
 include/wave/geometry/src/core/storage/NaryStorage.hpp | 5 +++--
 include/wave/geometry/src/geometry/op/BoxPlus.hpp      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/wave/geometry/src/core/storage/NaryStorage.hpp b/include/wave/geometry/src/core/storage/NaryStorage.hpp
index 842b2e2..c25ee1c 100644
--- a/include/wave/geometry/src/core/storage/NaryStorage.hpp
+++ b/include/wave/geometry/src/core/storage/NaryStorage.hpp
@@ -131,8 +131,6 @@ struct compound_traits_base<Tmpl<Ts...>, Primitives...> {
     enum : bool { StoreByRef = true };
     enum : int {
         CompoundSize = sizeof...(Primitives),
-        Size =
-          tmp::sum_sequence<std::index_sequence<eval_traits<Primitives>::Size...>>::value,
         TangentSize = tmp::sum_sequence<
           std::index_sequence<eval_traits<Primitives>::TangentSize...>>::value
     };
@@ -146,6 +144,9 @@ struct compound_vector_traits_base<Tmpl<Ts...>, Ps...>
 
  public:
     using TangentType = typename TraitsBase::PlainType;
+    enum : int {
+        Size = tmp::sum_sequence<std::index_sequence<eval_traits<Ps>::Size...>>::value
+    };
 };
 
 
diff --git a/include/wave/geometry/src/geometry/op/BoxPlus.hpp b/include/wave/geometry/src/geometry/op/BoxPlus.hpp
index bf47e6c..10d1c5a 100644
--- a/include/wave/geometry/src/geometry/op/BoxPlus.hpp
+++ b/include/wave/geometry/src/geometry/op/BoxPlus.hpp
@@ -45,7 +45,7 @@ struct BoxPlus : internal::base_tmpl_t<Lhs, BoxPlus<Lhs, Rhs>>,
  * @f[ S \times R^n \to S @f]
  */
 template <typename Lhs, typename Rhs>
-struct CompoundBoxPlus : internal::base_tmpl_t<Lhs, Rhs, CompoundBoxPlus<Lhs, Rhs>>,
+struct CompoundBoxPlus : internal::base_tmpl_t<Lhs, CompoundBoxPlus<Lhs, Rhs>>,
                          internal::binary_storage_for<CompoundBoxPlus<Lhs, Rhs>> {
  private:
     using Storage = internal::binary_storage_for<CompoundBoxPlus<Lhs, Rhs>>;
-- 
2.43.0


From 2bb5f45c684dac4fde28cd234b645fd3d7b8d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:42 +0000
Subject: [PATCH 19/26] fix: assign expressions to compounds of leaves

---
 .../wave/geometry/src/core/storage/NaryStorage.hpp  | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/wave/geometry/src/core/storage/NaryStorage.hpp b/include/wave/geometry/src/core/storage/NaryStorage.hpp
index c25ee1c..f0f7593 100644
--- a/include/wave/geometry/src/core/storage/NaryStorage.hpp
+++ b/include/wave/geometry/src/core/storage/NaryStorage.hpp
@@ -52,13 +52,12 @@ struct NaryStorage {
     explicit NaryStorage(const ExpressionBase<OtherDerived> &rhs)
         : NaryStorage{wave::internal::evaluateTo<Derived>(rhs.derived())} {}
 
-    /** Assign from another n-ary expression */
-    template <typename Rhs, typename RhsBase = internal::base_tmpl_t<Derived, Rhs>>
-    Derived &operator=(const RhsBase &rhs) {
-        this->storage =
-          wave::internal::evaluateTo<internal::plain_output_t<Derived>>(rhs.derived())
-            .value();
-        return *static_cast<Derived *>(this);
+    /** Assign from another expression - enabled if we are a compound of leaves */
+    template <typename OtherDerived,
+              std::enable_if_t<helper<OtherDerived>::all_leaves(), bool> = true>
+    Derived &operator=(const ExpressionBase<OtherDerived> &rhs) {
+        return *static_cast<Derived *>(this) =
+                 wave::internal::evaluateTo<Derived>(rhs.derived());
     }
 
  public:
-- 
2.43.0


From 0430f738e069bf6b74d3459e6e5168715ed8f458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:42 +0000
Subject: [PATCH 20/26] fix: compounds of lazily evaluated parts

---
 include/wave/geometry/src/core/storage/NaryStorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/core/storage/NaryStorage.hpp b/include/wave/geometry/src/core/storage/NaryStorage.hpp
index f0f7593..47420b4 100644
--- a/include/wave/geometry/src/core/storage/NaryStorage.hpp
+++ b/include/wave/geometry/src/core/storage/NaryStorage.hpp
@@ -117,7 +117,7 @@ struct compound_traits_base<Tmpl<Ts...>, Primitives...> {
 
  public:
     using PreparedType = ConvertedType &&;
-    using EvalType = rebind<typename traits<Primitives>::EvalType...>;
+    using EvalType = rebind<plain_eval_t<Primitives>...>;
     using Tag = nary_eval<EvalType>;
     using OutputFunctor = IdentityFunctor;
     using PlainType = rebind<plain_output_t<Primitives>...>;
-- 
2.43.0


From 6113a44217ac0816ca4b6a0c3cd0f6140c569562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:42 +0000
Subject: [PATCH 21/26] fix: keep evaluators of n-ary operands in place

---
 include/wave/geometry/src/core/functions/Evaluator.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/Evaluator.hpp b/include/wave/geometry/src/core/functions/Evaluator.hpp
index 8fc582b..51fa584 100644
--- a/include/wave/geometry/src/core/functions/Evaluator.hpp
+++ b/include/wave/geometry/src/core/functions/Evaluator.hpp
@@ -116,10 +116,8 @@ struct Evaluator<Derived, enable_if_nary_t<Derived>> {
     template <size_t... Is>
     inline static ChildEvalTuple expandToChildEvalTuple(const Derived &nary,
                                                         std::index_sequence<Is...>) {
-        // Evaluator<...> is needed here to make gcc 5 happy
-        return ChildEvalTuple{
-          Evaluator<typename traits<Derived>::template ElementType<Is>>{
-            nary.template get<Is>()}...};
+        // The evaluators are constructed in place: a result may refer to its evaluator
+        return ChildEvalTuple{nary.template get<Is>()...};
     }
 
     template <size_t... Is>
@@ -129,7 +127,7 @@ struct Evaluator<Derived, enable_if_nary_t<Derived>> {
 
     WAVE_STRONG_INLINE explicit Evaluator(const Derived &expr)
         : expr{expr},
-          children{expandToChildEvalTuple(expr, IndexSeq{})},
+          children(expandToChildEvalTuple(expr, IndexSeq{})),
           result{this->expandToEvalImpl(IndexSeq{})} {}
 
     const EvalType &operator()() const {
-- 
2.43.0


From 4999a99da0ca32e05d0da03f5365d3074e44d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 22/26] fix: segments of diagonal block matrices

---
 include/wave/geometry/src/core/storage/BlockMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/core/storage/BlockMatrix.hpp b/include/wave/geometry/src/core/storage/BlockMatrix.hpp
index 1ba0bd5..f27408a 100644
--- a/include/wave/geometry/src/core/storage/BlockMatrix.hpp
+++ b/include/wave/geometry/src/core/storage/BlockMatrix.hpp
@@ -135,7 +135,7 @@ class DiagonalBlockMatrix
     template <int I>
     auto segmentWrt() noexcept {
         static_assert(I < LIndices::size(), "Index out of range");
-        return this->template segment<LSizeOf<I>{}>(LIndexOf<I>::value);
+        return this->diagonal().template segment<LSizeOf<I>{}>(LIndexOf<I>::value);
     }
 };
 
-- 
2.43.0


From 3159511629c2d29621b17b5c45780e63296adb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 23/26] fix: constant lookup in matrix maps

---
 include/wave/geometry/src/util/math/MatrixMap.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wave/geometry/src/util/math/MatrixMap.hpp b/include/wave/geometry/src/util/math/MatrixMap.hpp
index 2f79ddf..4373290 100644
--- a/include/wave/geometry/src/util/math/MatrixMap.hpp
+++ b/include/wave/geometry/src/util/math/MatrixMap.hpp
@@ -63,9 +63,11 @@ class MatrixMap {
         return this->storage.block(0, v.col_index, storage.rows(), v.col_width);
     }
 
-    /** Returns a const block representing the matrix for the given key */
+    /** Returns a const block representing the matrix for the given key
+     * @throws out_of_range if key is not present
+     */
     auto operator[](const Key &key) const {
-        const auto &v = this->index_map[key];
+        const auto &v = this->index_map.at(key);
         return this->storage.block(0, v.col_index, storage.rows(), v.col_width);
     }
 
-- 
2.43.0


From 7a23dda83ebe494f47746bdbf700fe97296a3f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 24/26] fix: sign of the small-angle term in the rotation
 exponential

---
 include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp b/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp
index 6f271a4..3cb2edf 100644
--- a/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp
+++ b/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp
@@ -119,7 +119,7 @@ auto evalImpl(expr<ExpMap>, const RelativeRotation<ImplType> &rhs) {
         s = sa / angle;
         c = cos(angle / 2);
     } else {
-        s = Scalar{0.5} + angle2 / 48;
+        s = Scalar{0.5} - angle2 / 48;
         c = 1 - angle2 / 8;
     }
 
-- 
2.43.0


From d81c00358af69a921d8f45aeaec13bb0d0cb73d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 25/26] fix: first-order terms of the small-angle twist
 exponential

---
 include/wave/geometry/src/geometry/leaf/Twist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wave/geometry/src/geometry/leaf/Twist.hpp b/include/wave/geometry/src/geometry/leaf/Twist.hpp
index 893abdb..a0f9099 100644
--- a/include/wave/geometry/src/geometry/leaf/Twist.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Twist.hpp
@@ -118,8 +118,8 @@ auto evalImpl(expr<ExpMap>, const Twist<ImplType> &rhs) ->
     } else {
         // small theta2; use Taylor expansions
         const auto A = Scalar{1.0};
-        const auto B = Scalar{0.0};
-        const auto C = Scalar{0.0};
+        const auto B = Scalar{1.0} / 2;
+        const auto C = Scalar{1.0} / 6;
         const Mat3 cross = crossMatrix(omega);
         const Mat3 cross2 = cross * cross;
         const Mat3 V = Mat3::Identity() + B * cross + C * cross2;
-- 
2.43.0


From 1aaa5d47aa28563c407fb06ca280dd40cc9d2895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 26/26] fix: random expressions as operands

---
 include/wave/geometry/src/core/traits/traits_bases.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/core/traits/traits_bases.hpp b/include/wave/geometry/src/core/traits/traits_bases.hpp
index b3a0518..b0b6a9c 100644
--- a/include/wave/geometry/src/core/traits/traits_bases.hpp
+++ b/include/wave/geometry/src/core/traits/traits_bases.hpp
@@ -42,7 +42,7 @@ struct nullary_traits_base<Tmpl<Wrapped>> : traits<Wrapped> {
  public:
     // A tag for calling evalImpl()
     using Tag = internal::expr<Tmpl, eval_t<Wrapped>>;
-    using PreparedType = Derived &;
+    using PreparedType = const Derived &;
     using EvalType = eval_t_unary<Tag, eval_t<Wrapped>>;
     using UniqueLeaves = has_unique_leaves_leaf<Derived>;
 };
-- 
2.43.0


From 8c2c3a9a19372ca100486e1ca27a20be1b70d5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 001/111] fix: DyadicInterval::expand_interval and aligned keep
 the interval type

The ancestor of an Opencl dyadic interval was computed as a Clopen one, so
to_dyadic_intervals never terminated for Opencl intervals.
---
 intervals/src/dyadic_interval.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/intervals/src/dyadic_interval.cpp b/intervals/src/dyadic_interval.cpp
index 741a270..93355eb 100644
--- a/intervals/src/dyadic_interval.cpp
+++ b/intervals/src/dyadic_interval.cpp
@@ -130,7 +130,7 @@ DyadicInterval& DyadicInterval::shrink_interval_left(Dyadic::power_t arg)
 }
 DyadicInterval& DyadicInterval::expand_interval(Dyadic::power_t arg)
 {
-    *this = DyadicInterval{dincluded_end(), m_power - arg};
+    *this = DyadicInterval{dincluded_end(), m_power - arg, m_interval_type};
     return *this;
 }
 bool DyadicInterval::contains_dyadic(const DyadicInterval& other) const
@@ -153,7 +153,8 @@ bool DyadicInterval::aligned() const
     DyadicInterval parent{static_cast<const Dyadic&>(*this), m_power - 1,
                           m_interval_type};
     return operator==(
-            DyadicInterval{static_cast<const Dyadic&>(parent), m_power});
+            DyadicInterval{static_cast<const Dyadic&>(parent), m_power,
+                           m_interval_type});
 }
 DyadicInterval& DyadicInterval::flip_interval()
 {
-- 
2.43.0


From 8d81e572b2ebfa8340b494128a1876f2b1604ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 002/111] fix: compare dyadic rationals at a common power

The ordering operators scaled the multiplier of the wrong operand, so for
example 1/2 < 1/4 was true and 1/4 < 1/2 was false.
---
 intervals/src/dyadic.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/intervals/src/dyadic.cpp b/intervals/src/dyadic.cpp
index fbbd00a..9d78e96 100644
--- a/intervals/src/dyadic.cpp
+++ b/intervals/src/dyadic.cpp
@@ -107,8 +107,8 @@ bool rpy::intervals::operator<(const Dyadic& lhs, const Dyadic& rhs)
     auto rmul = rhs.multiplier();
     auto rpow = rhs.power();
 
-    return (lpow <= rpow) ? (lmul < Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) < rmul;
+    return (lpow <= rpow) ? (Dyadic::shift(lmul, rpow - lpow) < rmul)
+                          : (lmul < Dyadic::shift(rmul, lpow - rpow));
 }
 bool rpy::intervals::operator<=(const Dyadic& lhs, const Dyadic& rhs)
 {
@@ -117,8 +117,8 @@ bool rpy::intervals::operator<=(const Dyadic& lhs, const Dyadic& rhs)
     auto rmul = rhs.multiplier();
     auto rpow = rhs.power();
 
-    return (lpow <= rpow) ? (lmul <= Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) <= rmul;
+    return (lpow <= rpow) ? (Dyadic::shift(lmul, rpow - lpow) <= rmul)
+                          : (lmul <= Dyadic::shift(rmul, lpow - rpow));
 }
 bool rpy::intervals::operator>(const Dyadic& lhs, const Dyadic& rhs)
 {
@@ -127,8 +127,8 @@ bool rpy::intervals::operator>(const Dyadic& lhs, const Dyadic& rhs)
     auto rmul = rhs.multiplier();
     auto rpow = rhs.power();
 
-    return (lpow <= rpow) ? (lmul > Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) > rmul;
+    return (lpow <= rpow) ? (Dyadic::shift(lmul, rpow - lpow) > rmul)
+                          : (lmul > Dyadic::shift(rmul, lpow - rpow));
 }
 bool rpy::intervals::operator>=(const Dyadic& lhs, const Dyadic& rhs)
 {
@@ -137,8 +137,8 @@ bool rpy::intervals::operator>=(const Dyadic& lhs, const Dyadic& rhs)
     auto rmul = rhs.multiplier();
     auto rpow = rhs.power();
 
-    return (lpow <= rpow) ? (lmul >= Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) >= rmul;
+    return (lpow <= rpow) ? (Dyadic::shift(lmul, rpow - lpow) >= rmul)
+                          : (lmul >= Dyadic::shift(rmul, lpow - rpow));
 }
 std::ostream& rpy::intervals::operator<<(std::ostream& os, const Dyadic& arg)
 {
-- 
2.43.0


From 847c660e0bc0bdf31d50da5c67cc17ded5a772cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:31 +0000
Subject: [PATCH 003/111] fix: Partition equality is operator==, not a const
 operator=

The comparison was declared as the copy assignment operator, so assigning a
Partition did nothing and == ignored the intermediate points.
---
 intervals/include/roughpy/intervals/partition.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/intervals/include/roughpy/intervals/partition.h b/intervals/include/roughpy/intervals/partition.h
index d0678ad..8672e02 100644
--- a/intervals/include/roughpy/intervals/partition.h
+++ b/intervals/include/roughpy/intervals/partition.h
@@ -84,8 +84,9 @@ public:
 
 
     RPY_NO_DISCARD
-    bool operator=(const Partition& other) const noexcept {
-        if (static_cast<const RealInterval&>(*this) != other) {
+    bool operator==(const Partition& other) const noexcept {
+        if (static_cast<const RealInterval&>(*this)
+            != static_cast<const RealInterval&>(other)) {
             return false;
         }
         if (m_intermediate_points.size() != other.m_intermediate_points.size()) {
-- 
2.43.0


From da4b053c39ce1a79b407f7a1c5873b334a6b230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:32 +0000
Subject: [PATCH 004/111] fix: merging disjoint partitions keeps their
 intermediate points

---
 intervals/src/partition.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/intervals/src/partition.cpp b/intervals/src/partition.cpp
index 0537640..c4a3090 100644
--- a/intervals/src/partition.cpp
+++ b/intervals/src/partition.cpp
@@ -144,22 +144,24 @@ Partition Partition::merge(const Partition& other) const
     Partition result(
             RealInterval(std::min(linf, rinf), std::max(lsup, rsup), type()));
 
-    if (lsup < rinf) {
-        result.m_intermediate_points.reserve(2);
-        if RPY_LIKELY (lsup != linf) {
-            result.m_intermediate_points.push_back(lsup);
-        }
-        if RPY_LIKELY (rinf != rsup) {
-            result.m_intermediate_points.push_back(rinf);
-        }
-    } else if (rsup < linf) {
-        result.m_intermediate_points.reserve(2);
-        if RPY_LIKELY (rinf != rsup) {
-            result.m_intermediate_points.push_back(rsup);
+    if (lsup < rinf || rsup < linf) {
+        // The two partitions are disjoint, the gap between them is a piece of
+        // the result
+        const auto& first = (lsup < rinf) ? *this : other;
+        const auto& second = (lsup < rinf) ? other : *this;
+        auto& points = result.m_intermediate_points;
+
+        points.reserve(size() + other.size());
+        points.insert(points.end(), first.m_intermediate_points.begin(),
+                      first.m_intermediate_points.end());
+        if RPY_LIKELY (first.inf() != first.sup()) {
+            points.push_back(first.sup());
         }
-        if RPY_LIKELY (lsup != linf) {
-            result.m_intermediate_points.push_back(linf);
+        if RPY_LIKELY (second.inf() != second.sup()) {
+            points.push_back(second.inf());
         }
+        points.insert(points.end(), second.m_intermediate_points.begin(),
+                      second.m_intermediate_points.end());
     } else {
 
         // At worst, the result has size size() + other.size();
-- 
2.43.0


From efd864523ea3bc4c6ca2c8c622ade159dadec709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:32 +0000
Subject: [PATCH 005/111] fix: interval intersection and union keep the
 interval type

RestrictionStream and TensorValuedStream pass the result on as the query
interval; an Opencl query turned into a Clopen one.
---
 intervals/src/intersection_and_union.cpp | 4 ++--
 streams/src/restriction_stream.cpp       | 4 ++--
 streams/src/tensor_valued_stream.cpp     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/intervals/src/intersection_and_union.cpp b/intervals/src/intersection_and_union.cpp
index 6477807..c7abf13 100644
--- a/intervals/src/intersection_and_union.cpp
+++ b/intervals/src/intersection_and_union.cpp
@@ -26,7 +26,7 @@ RealInterval intervals::intersection(const Interval& lhs,
     auto inf = std::max(linf, rinf);
     auto sup = std::min(lsup, rsup);
 
-    return RealInterval(inf, sup);
+    return RealInterval(inf, sup, lhs.type());
 }
 
 
@@ -34,5 +34,5 @@ RealInterval
 intervals::interval_union(const Interval& lhs, const Interval& rhs) noexcept
 {
     return RealInterval(std::min(lhs.inf(), rhs.inf()),
-                        std::max(lhs.sup(), rhs.sup()));
+                        std::max(lhs.sup(), rhs.sup()), lhs.type());
 }
\ No newline at end of file
diff --git a/streams/src/restriction_stream.cpp b/streams/src/restriction_stream.cpp
index 82e5d27..841d49f 100644
--- a/streams/src/restriction_stream.cpp
+++ b/streams/src/restriction_stream.cpp
@@ -16,7 +16,7 @@ bool rpy::streams::RestrictionStream::empty(
     const intervals::Interval& interval) const noexcept
 {
     if (!m_domain.intersects_with(interval)) { return true; }
-    const auto query = intersection(m_domain, interval);
+    const auto query = intersection(interval, m_domain);
     return p_stream->empty(query);
 }
 
@@ -26,6 +26,6 @@ rpy::algebra::Lie rpy::streams::RestrictionStream::log_signature_impl(
 {
     RPY_CHECK(m_domain.intersects_with(interval));
 
-    const auto query = intersection(m_domain, interval);
+    const auto query = intersection(interval, m_domain);
     return p_stream->log_signature(query, ctx);
 }
\ No newline at end of file
diff --git a/streams/src/tensor_valued_stream.cpp b/streams/src/tensor_valued_stream.cpp
index 9290d4f..a4f4f6a 100644
--- a/streams/src/tensor_valued_stream.cpp
+++ b/streams/src/tensor_valued_stream.cpp
@@ -29,7 +29,7 @@ bool TensorValuedStream::empty(
     const intervals::Interval& interval) const noexcept
 {
     if (!m_domain.intersects_with(interval)) { return true; }
-    return p_increment_stream->empty(intersection(m_domain, interval));
+    return p_increment_stream->empty(intersection(interval, m_domain));
 }
 
 algebra::Lie TensorValuedStream::log_signature_impl(
@@ -50,7 +50,7 @@ TensorValuedStream::query(
 {
     RPY_CHECK(m_domain.intersects_with(interval));
 
-    auto query_interval = intersection(m_domain, interval);
+    auto query_interval = intersection(interval, m_domain);
 
     auto inf = query_interval.inf();
     return std::make_shared<TensorValuedStream>(std::move(query_interval),
-- 
2.43.0


From 66b8b1a8f46e0da4242fa41162e6c09f8d18572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 006/111] fix: pack scalar type info clear of the mode bit

---
 scalars/include/roughpy/scalars/packed_scalar_type_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h b/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
index 7f167fb..cfc8375 100644
--- a/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
+++ b/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
@@ -92,7 +92,7 @@ public:
 
     constexpr PackedScalarTypePointer(type_info_t info, enumeration_type ty)
         : m_data((static_cast<integral_type>(bit_cast<uint32_t>(info))
-                  << MaxEnumBits)
+                  << NonPointerBits)
                  | ModeMask | (static_cast<integral_type>(ty) & EnumMask))
     {}
 
@@ -118,7 +118,7 @@ public:
     constexpr type_info_t get_type_info() const noexcept
     {
         return bit_cast<type_info_t>(
-                static_cast<uint32_t>((m_data & TypeInfoMask) >> MaxEnumBits)
+                static_cast<uint32_t>((m_data & TypeInfoMask) >> NonPointerBits)
         );
     }
 
-- 
2.43.0


From 7a3fb8465c9e795d486ea90fb78eafd873227e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:05 +0000
Subject: [PATCH 007/111] fix: allocate scalar storage for types given by type
 info

---
 scalars/src/scalar.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 435a197..06c13f8 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -52,6 +52,8 @@ void Scalar::allocate_data()
         if (!tp_o) {
             RPY_THROW(std::runtime_error, "unable to allocate scalar");
         }
+        p_type_and_content_type
+            = type_pointer(*tp_o, dtl::ScalarContentType::OwnedPointer);
     }
 
     RPY_DBG_ASSERT(p_type_and_content_type.is_pointer());
@@ -80,7 +82,7 @@ Scalar::Scalar(Scalar::type_pointer type) : integer_for_convenience(0)
         }
 
         if (mode == dtl::ScalarContentType::OwnedPointer) {
-            opaque_pointer = type->allocate_single();
+            opaque_pointer = p_type_and_content_type->allocate_single();
         }
     }
 }
-- 
2.43.0


From 97ee8711b3086b5c5edf18d1c2e11745911582c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:33 +0000
Subject: [PATCH 008/111] fix: reading a missing coefficient of a dense vector
 gives zero

---
 vendored/libalgebra_lite/dense_vector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vendored/libalgebra_lite/dense_vector.h b/vendored/libalgebra_lite/dense_vector.h
index 7035518..948862f 100644
--- a/vendored/libalgebra_lite/dense_vector.h
+++ b/vendored/libalgebra_lite/dense_vector.h
@@ -198,7 +198,9 @@ public:
     template <typename Index>
     const_reference operator[](Index idx) const noexcept
     {
-        return m_storage[p_basis->key_to_index(idx)];
+        const auto key = p_basis->key_to_index(idx);
+        if (key >= m_storage.size()) { return coefficient_ring::zero(); }
+        return m_storage[key];
     }
 
     pointer as_mut_ptr() noexcept { return m_storage.data(); }
-- 
2.43.0


From 472085efd3491885b3626aff8ca115bf010d67cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:33 +0000
Subject: [PATCH 009/111] fix: product with an empty dense free tensor is zero

---
 vendored/libalgebra_lite/free_tensor.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index 8153b65..463733a 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -511,6 +511,9 @@ public:
     fma(dense_tensor_vec<Coeff>& out, const dense_tensor_vec<Coeff>& lhs,
         const dense_tensor_vec<Coeff>& rhs, Op op, deg_t max_degree) const
     {
+        // the product with zero contributes nothing
+        if (lhs.empty() || rhs.empty()) { return; }
+
         const auto& basis = out.basis();
         if (max_degree >= basis.depth()) { max_degree = basis.depth(); }
 
-- 
2.43.0


From 187300986fd07f42ffc644e05f4f067aa4723008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:33 +0000
Subject: [PATCH 010/111] fix: sparse vector in-place operations allow the
 vector itself as operand

---
 vendored/libalgebra_lite/sparse_vector.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vendored/libalgebra_lite/sparse_vector.h b/vendored/libalgebra_lite/sparse_vector.h
index 76c5b44..72e45e9 100644
--- a/vendored/libalgebra_lite/sparse_vector.h
+++ b/vendored/libalgebra_lite/sparse_vector.h
@@ -462,20 +462,22 @@ public:
 
         const auto& zero = coefficient_ring::zero();
 
-        for (; rit != rend; ++rit) {
-            auto it = m_data.find(rit->first);
+        while (rit != rend) {
+            // rhs might be *this, so step past the item before it is erased
+            const auto item = rit++;
+            auto it = m_data.find(item->first);
             if (it != lend) {
-                op(it->second, rit->second);
+                op(it->second, item->second);
                 if (it->second == zero) {
                     m_data.erase(it);
                 } else {
                     update_degree_for_key(it->first);
                 }
             } else {
-                assert(rit->second != zero);
+                assert(item->second != zero);
                 scalar_type new_val = zero;
-                op(new_val, rit->second);
-                insert_new_value(rit->first, new_val);
+                op(new_val, item->second);
+                insert_new_value(item->first, new_val);
             }
         }
 
-- 
2.43.0


From 3cb7b1133c57dcda91e0b496ba2f9567e7b23d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:33 +0000
Subject: [PATCH 011/111] fix: per-coefficient mutable scalars of sparse
 algebras can be read and updated

---
 .../sparse_mutable_ref_scalar_trait.h         |  9 ++++---
 scalars/include/roughpy/scalars/scalar.h      | 19 +++++++++++++++
 scalars/src/scalar.cpp                        |  6 ++++-
 scalars/src/scalar/arithmetic.cpp             | 24 ++++++++++++++++---
 4 files changed, 51 insertions(+), 7 deletions(-)

diff --git a/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h b/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
index 7f77ab8..d9b5493 100644
--- a/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
+++ b/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
@@ -77,7 +77,10 @@ private:
 public:
     void set_value(const Scalar& value) override;
 
-    const void* pointer() const noexcept override { return &m_data; }
+    const void* pointer() const noexcept override
+    {
+        return &static_cast<const value_type&>(m_data);
+    }
 
 private:
     template <typename F>
@@ -133,12 +136,12 @@ public:
 
     static const ScalarType* get_type() noexcept
     {
-        return ScalarType::of<value_type>();
+        return *scalar_type_of<value_type>();
     }
 
     static Scalar make(reference arg)
     {
-        return Scalar(std::make_unique<dtl::SparseMutableRefScalarImpl<Vector>>(
+        return Scalar(get_type(), std::make_unique<dtl::SparseMutableRefScalarImpl<Vector>>(
                 std::move(arg)
         ));
     }
diff --git a/scalars/include/roughpy/scalars/scalar.h b/scalars/include/roughpy/scalars/scalar.h
index ec15161..6e79d45 100644
--- a/scalars/include/roughpy/scalars/scalar.h
+++ b/scalars/include/roughpy/scalars/scalar.h
@@ -213,6 +213,14 @@ class ROUGHPY_SCALARS_EXPORT Scalar
 
     void copy_from_opaque_pointer(devices::TypeInfo info, const void* src);
 
+    bool has_interface() const noexcept
+    {
+        const auto mode = p_type_and_content_type.get_enumeration();
+        return interface_ptr != nullptr
+                && (mode == dtl::ScalarContentType::Interface
+                    || mode == dtl::ScalarContentType::OwnedInterface);
+    }
+
 protected:
     type_pointer packed_type() const noexcept
     {
@@ -327,6 +335,17 @@ public:
           interface_ptr(std::move(iface).release())
     {}
 
+    template <
+            typename I,
+            typename = enable_if_t<is_base_of_v<ScalarInterface, I>>>
+    explicit Scalar(const ScalarType* type, std::unique_ptr<I>&& iface)
+        : p_type_and_content_type(
+                  type,
+                  dtl::ScalarContentType::OwnedInterface
+          ),
+          interface_ptr(std::move(iface).release())
+    {}
+
     explicit Scalar(const ScalarType* type, int64_t num, int64_t denom);
 
     Scalar(const Scalar& other);
diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 06c13f8..f0f8148 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -259,7 +259,9 @@ Scalar::~Scalar()
 Scalar& Scalar::operator=(const Scalar& other)
 {
     if (&other != this) {
-        if (this->fast_is_zero()) {
+        if (has_interface()) {
+            interface_ptr->set_value(other);
+        } else if (this->fast_is_zero()) {
             p_type_and_content_type = other.p_type_and_content_type;
 
             const auto info = type_info();
@@ -314,6 +316,8 @@ Scalar& Scalar::operator=(Scalar&& other) noexcept
     if (&other != this) {
         if (p_type_and_content_type.is_null()) {
             construct_inplace(this, std::move(other));
+        } else if (has_interface()) {
+            interface_ptr->set_value(other);
         } else {
             dtl::scalar_convert_copy(mut_pointer(), type_info(), other);
         }
diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index d1f0478..b4a95a7 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -39,6 +39,7 @@
 #include "traits.h"
 #include <roughpy/platform/devices/host_device.h>
 #include <roughpy/scalars/scalar.h>
+#include <roughpy/scalars/scalar_interface.h>
 #include <roughpy/scalars/scalar_type.h>
 #include <roughpy/scalars/scalar_types.h>
 
@@ -204,7 +205,11 @@ Scalar& Scalar::operator+=(const Scalar& other)
 {
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!other.fast_is_zero()) {
-        scalar_inplace_arithmetic(*this, other, AddInplace());
+        if (has_interface()) {
+            interface_ptr->add_inplace(other);
+        } else {
+            scalar_inplace_arithmetic(*this, other, AddInplace());
+        }
     }
     return *this;
 }
@@ -213,7 +218,11 @@ Scalar& Scalar::operator-=(const Scalar& other)
 {
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!other.fast_is_zero()) {
-        scalar_inplace_arithmetic(*this, other, SubInplace());
+        if (has_interface()) {
+            interface_ptr->sub_inplace(other);
+        } else {
+            scalar_inplace_arithmetic(*this, other, SubInplace());
+        }
     }
     return *this;
 }
@@ -222,7 +231,11 @@ Scalar& Scalar::operator*=(const Scalar& other)
 {
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!fast_is_zero() && !other.fast_is_zero()) {
-        scalar_inplace_arithmetic(*this, other, MulInplace());
+        if (has_interface()) {
+            interface_ptr->mul_inplace(other);
+        } else {
+            scalar_inplace_arithmetic(*this, other, MulInplace());
+        }
     } else {
         operator=(0);
     }
@@ -279,6 +292,11 @@ Scalar& Scalar::operator/=(const Scalar& other)
         RPY_THROW(std::domain_error, "division by zero");
     }
 
+    if (has_interface()) {
+        interface_ptr->div_inplace(other);
+        return *this;
+    }
+
     /*
      * We need to check some additional things here.
      * Division need not be defined for all scalar types. For instance, integers
-- 
2.43.0


From d16f3c337826c129e8d3d1f823eeca86e657f56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 012/111] fix: tensor key parents for words longer than two
 letters

---
 vendored/libalgebra_lite/tensor_basis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vendored/libalgebra_lite/tensor_basis.h b/vendored/libalgebra_lite/tensor_basis.h
index ca4d8e6..4491c85 100644
--- a/vendored/libalgebra_lite/tensor_basis.h
+++ b/vendored/libalgebra_lite/tensor_basis.h
@@ -61,7 +61,7 @@ public:
         auto tmp = arg.index();
         auto letter = tmp / m_powers[degree - 1];
         return {key_type(1, letter),
-                key_type(degree - 1, tmp - letter * m_width)};
+                key_type(degree - 1, tmp - letter * m_powers[degree - 1])};
     }
 
     std::string key_to_string(const key_type&) const;
-- 
2.43.0


From 478464366b224c7317134088b2c3eaa9ec1ff9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 013/111] fix: left multiplication adjoint for sparse, mixed
 and empty tensors

---
 vendored/libalgebra_lite/free_tensor.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index 463733a..32914f5 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -731,6 +731,8 @@ void antipode_helper<Coefficients>::handle_antipode(
         const dense_vector_base<tensor_basis, Coefficients, Storage>& arg
 ) const
 {
+    if (arg.empty()) { return; }
+
     result.resize_exact(arg.dimension());
     auto* optr = result.as_mut_ptr();
     const auto* iptr = arg.as_ptr();
@@ -972,9 +974,10 @@ private:
         using s_t = typename coefficient_ring::scalar_type;
         for (auto&& pr : mul) {
             const auto& val = pr.value();
+            if (val == coefficient_ring::zero()) { continue; }
             result.inplace_binary_op(
                     shift_down(arg, pr.key()),
-                    [&val](const s_t& l, const s_t& r) { return l + val * r; }
+                    [&val](s_t& l, const s_t& r) { l += val * r; }
             );
         }
     }
@@ -990,8 +993,9 @@ private:
         const auto& basis = result.basis();
         const auto& powers = basis.powers();
 
+        if (arg.empty()) { return; }
         const auto arg_deg = arg.degree();
-        result.resize_exact(basis.size(arg_deg));
+        result.resize_exact(basis.size(arg_deg), arg_deg);
 
         for (auto&& pr : mul) {
             const auto key = pr.key();
@@ -1003,7 +1007,8 @@ private:
                 auto suffix_degree = degree - prefix_degree;
                 auto* optr = result.as_mut_ptr()
                         + basis.start_of_degree(suffix_degree);
-                const auto* iptr = arg.as_ptr() + index * powers[suffix_degree];
+                const auto* iptr = arg.as_ptr() + basis.start_of_degree(degree)
+                        + index * powers[suffix_degree];
 
                 for (dimn_t i = 0; i < powers[suffix_degree]; ++i) {
                     optr[i] += value * iptr[i];
@@ -1025,10 +1030,12 @@ private:
         const auto* sizes = basis.sizes().data();
         const auto* powers = basis.powers().data();
 
+        if (arg.empty() || mul.empty()) { return; }
+
         const auto arg_deg = arg.degree();
         const auto param_deg = mul.degree();
         const auto target_deg = std::min(arg_deg, param_deg);
-        result.resize_exact(sizes[arg_deg]);
+        result.resize_exact(sizes[arg_deg], arg_deg);
 
         auto* optr = result.as_mut_ptr();
         const auto* aptr = arg.as_ptr();
-- 
2.43.0


From 685e5d0adc690548a9fc0405dc6f7a0638591957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:16 +0000
Subject: [PATCH 014/111] fix: conversion and construction truncate to the
 target basis by key

---
 algebra/src/lite_context.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index 5ca211f..568e0f3 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -452,11 +452,12 @@ OutType LiteContext<Coefficients>::construct_impl(
 
     Slice<const scalar_type> raw_data;
 
-    const auto size = std::min(data.data.size(), basis->size(-1));
+    const auto size = data.data.size();
+    const auto basis_size = static_cast<dimn_t>(basis->size(-1));
     std::vector<scalar_type> tmp;
     const auto* this_type = ctype();
     if (data.data.type() != this_type) {
-        tmp.resize(data.data.size());
+        tmp.resize(size);
         scalars::ScalarArray tmp_sa(this_type, tmp.data(), size);
         this_type->convert_copy(tmp_sa, data.data);
         raw_data = tmp;
@@ -469,13 +470,15 @@ OutType LiteContext<Coefficients>::construct_impl(
         const auto* keys = data.data.keys();
 
         for (dimn_t i = 0; i < size; ++i) {
+            // Terms beyond the truncation level are dropped
+            if (keys[i] >= basis_size) { continue; }
             result[basis->index_to_key(keys[i])] = raw_data[i];
         }
 
     } else {
         // Dense data
 
-        for (dimn_t i = 0; i < size; ++i) {
+        for (dimn_t i = 0; i < std::min(size, basis_size); ++i) {
             // Replace this with a more efficient method once it's implemented
             // at the lower level
             result[basis->index_to_key(i)] = raw_data[i];
-- 
2.43.0


From 071ab3ed761461e93d23c8d1c1747f98e45810a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 015/111] fix: negation of a Scalar negates its value

---
 scalars/src/scalar/arithmetic.cpp | 54 +++++++++----------------------
 1 file changed, 15 insertions(+), 39 deletions(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index b4a95a7..075cbc7 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -53,51 +53,27 @@ using namespace rpy::scalars;
 
 using rpy::scalars::dtl::ScalarContentType;
 
+template <typename T>
+static inline void do_uminus(T* dst, const T* src)
+{
+    *dst = static_cast<T>(-(*src));
+}
+
 static inline void
 uminus_impl(void* dst, const void* ptr, const devices::TypeInfo& info)
-{}
+{
+#define X(T) return do_uminus((T*) dst, (const T*) ptr)
+    DO_FOR_EACH_X(info)
+#undef X
+    RPY_THROW(std::domain_error, "unsupported operation");
+}
 
 Scalar Scalar::operator-() const
 {
-    Scalar result;
-    const auto info = type_info();
-    optional<const ScalarType*> stype;
+    // The copy owns its value, whatever storage mode this uses.
+    Scalar result(*this);
     if (!fast_is_zero()) {
-        switch (p_type_and_content_type.get_enumeration()) {
-            case ScalarContentType::TrivialBytes:
-            case ScalarContentType::ConstTrivialBytes:
-                result.p_type_and_content_type = type_pointer(
-                        info,
-                        dtl::ScalarContentType::TrivialBytes
-                );
-                uminus_impl(result.trivial_bytes, trivial_bytes, info);
-                break;
-            case ScalarContentType::OpaquePointer:
-            case ScalarContentType::ConstOpaquePointer:
-            case ScalarContentType::OwnedPointer:
-                stype = type();
-                RPY_CHECK(stype);
-                result.p_type_and_content_type = type_pointer(
-                        *stype,
-                        dtl::ScalarContentType::OwnedPointer
-                );
-                result.allocate_data();
-                uminus_impl(result.opaque_pointer, opaque_pointer, info);
-                break;
-            case ScalarContentType::Interface:
-            case ScalarContentType::OwnedInterface:
-                result.p_type_and_content_type = type_pointer(
-                        *stype,
-                        dtl::ScalarContentType::OwnedPointer
-                );
-                result.allocate_data();
-                uminus_impl(
-                        result.opaque_pointer,
-                        interface_ptr->pointer(),
-                        info
-                );
-                break;
-        }
+        uminus_impl(result.mut_pointer(), pointer(), type_info());
     }
     return result;
 }
-- 
2.43.0


From 5d0c392cf2f036702648bf9b371a72f5b7243066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:57 +0000
Subject: [PATCH 016/111] fix: in-place arithmetic on a typed scalar reference
 keeps its type

---
 scalars/src/scalar/type_promotion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalars/src/scalar/type_promotion.cpp b/scalars/src/scalar/type_promotion.cpp
index ef8c145..8f2e3c3 100644
--- a/scalars/src/scalar/type_promotion.cpp
+++ b/scalars/src/scalar/type_promotion.cpp
@@ -173,8 +173,8 @@ devices::TypeInfo scalars::dtl::compute_dest_type(
         case ScalarContentType::OpaquePointer:
         case ScalarContentType::ConstOpaquePointer:
         case ScalarContentType::Interface:
-        case ScalarContentType::OwnedInterface: return dst_type;
+        case ScalarContentType::OwnedInterface: return type_info_from(dst_type);
     }
 
-    RPY_UNREACHABLE_RETURN(dst_type);
+    RPY_UNREACHABLE_RETURN(type_info_from(dst_type));
 }
-- 
2.43.0


From 2f889b3057c1d2660e42a2d7b6956823f4cbbc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 017/111] fix: half precision scalars convert to rationals

---
 scalars/src/scalar/casts.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/scalars/src/scalar/casts.cpp b/scalars/src/scalar/casts.cpp
index 1fd731b..b76cade 100644
--- a/scalars/src/scalar/casts.cpp
+++ b/scalars/src/scalar/casts.cpp
@@ -83,8 +83,33 @@ write_result(D* dst, const T* src, dimn_t count) noexcept
     return true;
 }
 
+// The half precision types are not accepted by the multiprecision constructors,
+// but every one of their values is a float.
+template <typename T>
+inline constexpr bool is_half_precision_v
+        = is_same_v<T, half> || is_same_v<T, bfloat16>;
+
 template <typename D, typename T>
-static inline enable_if_t<!is_constructible_v<D, const T&>, bool>
+static inline enable_if_t<
+        !is_constructible_v<D, const T&> && is_half_precision_v<T>
+                && is_constructible_v<D, const float&>,
+        bool>
+write_result(D* dst, const T* src, dimn_t count) noexcept
+{
+    try {
+        for (dimn_t i = 0; i < count; ++i) { assign_result(dst[i], src[i]); }
+    } catch (...) {
+        return false;
+    }
+    return true;
+}
+
+template <typename D, typename T>
+static inline enable_if_t<
+        !is_constructible_v<D, const T&>
+                && !(is_half_precision_v<T>
+                     && is_constructible_v<D, const float&>),
+        bool>
 write_result(D*, const T*, dimn_t) noexcept
 {
     return false;
-- 
2.43.0


From f79b09482051c4ae7b07e5b58cee13b378ebb44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:55 +0000
Subject: [PATCH 018/111] fix: dividing scalars of different types divides in
 the promoted type

---
 scalars/include/roughpy/scalars/traits.h |  2 +-
 scalars/src/scalar/arithmetic.cpp        | 37 +++++++++++++++---------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/scalars/include/roughpy/scalars/traits.h b/scalars/include/roughpy/scalars/traits.h
index bd65a5a..afbd42a 100644
--- a/scalars/include/roughpy/scalars/traits.h
+++ b/scalars/include/roughpy/scalars/traits.h
@@ -110,7 +110,7 @@ constexpr devices::TypeInfo rational_type_of(const devices::TypeInfo& info) noex
         case devices::TypeCode::ArbitraryPrecisionRational:
             return info;
         case devices::TypeCode::APRationalPolynomial:
-            return devices::type_info<devices::rational_poly_scalar>();
+            return devices::type_info<devices::rational_scalar_type>();
     }
 
     return info;
diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index 075cbc7..3907983 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -281,29 +281,40 @@ Scalar& Scalar::operator/=(const Scalar& other)
      * type - as is the case for polynomials.
      * We need to handle both of these cases gracefully.
      */
-    const auto num_info = type_info_from(p_type_and_content_type);
-    const auto true_denom_info = type_info_from(other.p_type_and_content_type);
-    const auto rat_denom_info = traits::rational_type_of(true_denom_info);
-
-    // Set up the actual denominator that we will divide by
-    Scalar rational_denom(true_denom_info, other.pointer());
-    if (rat_denom_info != true_denom_info) {
-        rational_denom.change_type(rat_denom_info);
-    }
+    const auto true_denom_info = other.type_info();
 
     /*
      * The type resolution needs to be done with the true denominator type,
      * rather than whatever the rational type is.
      */
-    if (num_info != true_denom_info) {
-        change_type(dtl::compute_dest_type(
+    if (type_info() != true_denom_info) {
+        const auto out_type = dtl::compute_dest_type(
                 p_type_and_content_type,
                 other.p_type_and_content_type
-        ));
+        );
+        if (out_type != type_info()) { change_type(out_type); }
+    }
+
+    // Set up the actual denominator that we will divide by, which has the
+    // rational type of the type in which the division is computed.
+    const auto num_info = type_info();
+    const auto denom_info = traits::rational_type_of(num_info);
+    Scalar rational_denom(denom_info);
+    if (!dtl::scalar_convert_copy(
+                rational_denom.mut_pointer(),
+                denom_info,
+                other.pointer(),
+                true_denom_info
+        )) {
+        RPY_THROW(std::domain_error, "invalid division");
+    }
+    if (rational_denom.is_zero()) {
+        RPY_THROW(std::domain_error, "division by zero");
     }
 
     // Now we should be ready
-#define X(tp) do_divide((tp*) mut_pointer(), rational_denom.pointer(), rat_denom_info);\
+#define X(tp)                                                                  \
+    do_divide((tp*) mut_pointer(), rational_denom.pointer(), denom_info);      \
     break
     DO_FOR_EACH_X(num_info)
 #undef X
-- 
2.43.0


From a776e9715cd8c1c33e68e9514c8c481b320f7b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:09 +0000
Subject: [PATCH 019/111] fix: assigning a ScalarArray copies its values
 whatever its storage

---
 scalars/src/scalar_array.cpp | 79 +++++++++---------------------------
 1 file changed, 19 insertions(+), 60 deletions(-)

diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index 737225b..5485cc5 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -106,12 +106,13 @@ ScalarArray::ScalarArray(const ScalarType* type, dimn_t size)
 
 ScalarArray::ScalarArray(devices::TypeInfo info, dimn_t size)
     : p_type_and_mode(info, dtl::ScalarArrayStorageModel::Owned),
+      owned_buffer(),
       m_size(size)
 {
     RPY_CHECK(traits::is_fundamental(info));
     if (size != 0) {
         owned_buffer
-                = devices::get_host_device()->raw_alloc(size*info.alignment, info.alignment);
+                = devices::get_host_device()->raw_alloc(size*info.bytes, info.alignment);
     }
 }
 
@@ -164,56 +165,26 @@ ScalarArray::~ScalarArray()
 ScalarArray& ScalarArray::operator=(const ScalarArray& other)
 {
     if (&other != this && !other.p_type_and_mode.is_null()) {
-        this->~ScalarArray();
-
-        if (p_type_and_mode.is_null()) {
-            p_type_and_mode = other.p_type_and_mode;
-        }
-
-        auto info = type_info();
-        if (p_type_and_mode.is_pointer()) {
-            auto device = p_type_and_mode->device();
-            owned_buffer = device->raw_alloc(
-                    other.size() * info.bytes,
-                    info.alignment
-            );
-            m_size = other.size();
-            p_type_and_mode->convert_copy(*this, other);
+        // Build the copy first so that this is only modified once that has
+        // succeeded, and so that other may be a view of this.
+        const auto info = other.type_info();
+        const auto stype = other.type();
+        ScalarArray copy;
+        if (stype) {
+            copy = ScalarArray(*stype, other.size());
+            (*stype)->convert_copy(copy, other);
         } else {
             RPY_CHECK(traits::is_fundamental(info));
-            auto device = devices::get_host_device();
-
-            m_size = other.size();
-            auto nbytes = m_size * info.bytes;
-            owned_buffer = device->raw_alloc(nbytes, info.alignment);
-
-            if (other.p_type_and_mode.is_pointer()) {
-                other.p_type_and_mode->convert_copy(*this, other);
-            } else {
-                auto other_type_info = other.type_info();
-                RPY_CHECK(traits::is_fundamental(other_type_info));
-                if (info == other_type_info) {
-                    std::memcpy(
-                            owned_buffer.ptr(),
-                            other.raw_pointer(0),
-                            nbytes
-                    );
-                } else {
-                    if (!dtl::scalar_convert_copy(
-                                owned_buffer.ptr(),
-                                info,
-                                other.raw_pointer(0),
-                                other_type_info,
-                                m_size
-                        )) {
-                        RPY_THROW(
-                                std::runtime_error,
-                                "unable to convert scalar array values"
-                        );
-                    }
-                }
+            copy = ScalarArray(info, other.size());
+            if (!other.empty()) {
+                std::memcpy(
+                        copy.owned_buffer.ptr(),
+                        other.raw_pointer(0),
+                        other.size() * info.bytes
+                );
             }
         }
+        *this = std::move(copy);
     }
     return *this;
 }
@@ -222,19 +193,7 @@ ScalarArray& ScalarArray::operator=(ScalarArray&& other) noexcept
 {
     if (&other != this) {
         this->~ScalarArray();
-        p_type_and_mode = other.p_type_and_mode;
-        m_size = other.m_size;
-        switch (p_type_and_mode.get_enumeration()) {
-            case dtl::ScalarArrayStorageModel::BorrowMut:
-                mut_borrowed = other.mut_borrowed;
-                break;
-            case dtl::ScalarArrayStorageModel::BorrowConst:
-                const_borrowed = other.const_borrowed;
-                break;
-            case dtl::ScalarArrayStorageModel::Owned:
-                owned_buffer = std::move(other.owned_buffer);
-                break;
-        }
+        construct_inplace(this, std::move(other));
     }
     return *this;
 }
-- 
2.43.0


From 989cebf840c3a932f883908306f9e3cd9b728288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:12 +0000
Subject: [PATCH 020/111] fix: converting copies and keyed scalar arrays keep
 sizes, values and keys

---
 .../roughpy/scalars/key_scalar_array.h        |  2 ++
 scalars/src/key_scalar_array.cpp              | 27 +++++++++++--------
 scalars/src/scalar_array.cpp                  | 10 +++++--
 .../src/scalar_helpers/standard_scalar_type.h | 12 +++------
 scalars/src/scalar_stream.cpp                 |  2 --
 scalars/src/scalar_type.cpp                   |  2 +-
 6 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/scalars/include/roughpy/scalars/key_scalar_array.h b/scalars/include/roughpy/scalars/key_scalar_array.h
index e18cffc..177f315 100644
--- a/scalars/include/roughpy/scalars/key_scalar_array.h
+++ b/scalars/include/roughpy/scalars/key_scalar_array.h
@@ -87,6 +87,8 @@ public:
     RPY_SERIAL_LOAD_FN();
     RPY_SERIAL_SAVE_FN();
 
+private:
+    void clear_keys() noexcept;
 };
 
 RPY_SERIAL_LOAD_FN_IMPL(KeyScalarArray)
diff --git a/scalars/src/key_scalar_array.cpp b/scalars/src/key_scalar_array.cpp
index df4747b..4726da3 100644
--- a/scalars/src/key_scalar_array.cpp
+++ b/scalars/src/key_scalar_array.cpp
@@ -33,7 +33,9 @@
 using namespace rpy;
 using namespace rpy::scalars;
 
-KeyScalarArray::~KeyScalarArray()
+KeyScalarArray::~KeyScalarArray() { clear_keys(); }
+
+void KeyScalarArray::clear_keys() noexcept
 {
     if (p_keys != nullptr && m_owns_keys) { delete[] p_keys; }
     p_keys = nullptr;
@@ -47,6 +49,8 @@ KeyScalarArray::KeyScalarArray(const KeyScalarArray& other)
         m_owns_keys = true;
         allocate_keys();
         std::copy_n(other.p_keys, other.size(), const_cast<key_type*>(p_keys));
+    } else {
+        p_keys = other.p_keys;
     }
 }
 KeyScalarArray::KeyScalarArray(KeyScalarArray&& other) noexcept
@@ -80,15 +84,17 @@ KeyScalarArray KeyScalarArray::copy_or_move() && {
     }
 
     KeyScalarArray result(static_cast<ScalarArray&&>(*this).copy_or_clone());
-    result.allocate_keys();
-    std::copy_n(p_keys, size(), result.keys());
+    if (p_keys != nullptr) {
+        result.allocate_keys();
+        std::copy_n(p_keys, result.size(), result.keys());
+    }
 
     return result;
 }
 KeyScalarArray& KeyScalarArray::operator=(const KeyScalarArray& other)
 {
     if (&other != this) {
-        this->~KeyScalarArray();
+        clear_keys();
         ScalarArray::operator=(other);
         if (other.m_owns_keys) {
             allocate_keys();
@@ -106,7 +112,7 @@ KeyScalarArray& KeyScalarArray::operator=(const KeyScalarArray& other)
 KeyScalarArray& KeyScalarArray::operator=(const ScalarArray& other)
 {
     if (&other != this) {
-        this->~KeyScalarArray();
+        clear_keys();
         ScalarArray::operator=(other);
     }
     return *this;
@@ -114,20 +120,19 @@ KeyScalarArray& KeyScalarArray::operator=(const ScalarArray& other)
 KeyScalarArray& KeyScalarArray::operator=(KeyScalarArray&& other) noexcept
 {
     if (&other != this) {
-        this->~KeyScalarArray();
-
+        clear_keys();
         ScalarArray::operator=(std::move(other));
         p_keys = other.p_keys;
-        other.p_keys = nullptr;
         m_owns_keys = other.m_owns_keys;
-
+        other.p_keys = nullptr;
+        other.m_owns_keys = false;
     }
     return *this;
 }
 KeyScalarArray& KeyScalarArray::operator=(ScalarArray&& other) noexcept
 {
     if (&other != this) {
-        this->~KeyScalarArray();
+        clear_keys();
         ScalarArray::operator=(std::move(other));
     }
     return *this;
@@ -146,7 +151,7 @@ void KeyScalarArray::allocate_scalars(idimn_t count) {
 }
 void KeyScalarArray::allocate_keys(idimn_t count) {
     if (count != 0) {
-        if (p_keys != nullptr) { delete[] p_keys; }
+        clear_keys();
 
         if (count == -1) {
             count = static_cast<idimn_t>(size());
diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index 5485cc5..d977dd4 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -172,7 +172,7 @@ ScalarArray& ScalarArray::operator=(const ScalarArray& other)
         ScalarArray copy;
         if (stype) {
             copy = ScalarArray(*stype, other.size());
-            (*stype)->convert_copy(copy, other);
+            if (!other.empty()) { (*stype)->convert_copy(copy, other); }
         } else {
             RPY_CHECK(traits::is_fundamental(info));
             copy = ScalarArray(info, other.size());
@@ -198,7 +198,13 @@ ScalarArray& ScalarArray::operator=(ScalarArray&& other) noexcept
     return *this;
 }
 
-ScalarArray ScalarArray::copy_or_clone() && { return ScalarArray(); }
+ScalarArray ScalarArray::copy_or_clone() &&
+{
+    if (is_owning()) { return std::move(*this); }
+    ScalarArray result;
+    result = *this;
+    return result;
+}
 
 optional<const ScalarType*> ScalarArray::type() const noexcept
 {
diff --git a/scalars/src/scalar_helpers/standard_scalar_type.h b/scalars/src/scalar_helpers/standard_scalar_type.h
index 47b92b1..9e10c23 100644
--- a/scalars/src/scalar_helpers/standard_scalar_type.h
+++ b/scalars/src/scalar_helpers/standard_scalar_type.h
@@ -149,6 +149,7 @@ void StandardScalarType<ScalarImpl>::convert_copy(
         }
     } else if (src_type && src_type != this) {
         (*src_type)->convert_copy(dst, src);
+        return;
     }
 
     auto dst_info = dst.type_info();
@@ -160,11 +161,12 @@ void StandardScalarType<ScalarImpl>::convert_copy(
      *  3) neither src_type nor dst_type are defined.
      */
     auto src_size = src.size();
-    auto dst_cap = dst.capacity();
     if (dst.is_null()) {
         // If the dst array is empty, allocate enough space for the new data.
         dst = allocate(src_size);
-    } else if (dst_cap < src_size * dst_info.bytes) {
+    } else if (dst.size() < src_size
+               || (dst.is_owning() && dst.size() > src_size)) {
+        // The size of an owned destination becomes that of the source.
         if (dst.is_owning()) {
             if (dst_type) {
                 // If dst_type is defined, then it is this so a simple
@@ -180,12 +182,6 @@ void StandardScalarType<ScalarImpl>::convert_copy(
         } else {
             RPY_THROW(std::runtime_error, "cannot resize a borrowed array");
         }
-    } else if (dst.is_owning() && dst_cap > src_size) {
-        // Just a little care is needed here to make sure the size of the
-        // final array is correct.
-        if (dst_type) {
-            dst = ScalarArray(*dst_type, std::move(dst.mut_buffer()));
-        } else { dst = ScalarArray(dst_info, std::move(dst.mut_buffer())); }
     }
 
     /*
diff --git a/scalars/src/scalar_stream.cpp b/scalars/src/scalar_stream.cpp
index c35b7e9..7b6a981 100644
--- a/scalars/src/scalar_stream.cpp
+++ b/scalars/src/scalar_stream.cpp
@@ -77,7 +77,6 @@ ScalarStream::ScalarStream(ScalarArray base, std::vector<dimn_t> shape)
 ScalarStream& ScalarStream::operator=(const ScalarStream& other)
 {
     if (&other != this) {
-        this->~ScalarStream();
         m_stream = other.m_stream;
         p_type = other.p_type;
     }
@@ -86,7 +85,6 @@ ScalarStream& ScalarStream::operator=(const ScalarStream& other)
 ScalarStream& ScalarStream::operator=(ScalarStream&& other) noexcept
 {
     if (&other != this) {
-        this->~ScalarStream();
         m_stream = std::move(other.m_stream);
         p_type = other.p_type;
     }
diff --git a/scalars/src/scalar_type.cpp b/scalars/src/scalar_type.cpp
index 80c8ab0..46e62f0 100644
--- a/scalars/src/scalar_type.cpp
+++ b/scalars/src/scalar_type.cpp
@@ -138,7 +138,7 @@ void ScalarType::convert_copy(
                 dst.type_info(),
                 src.pointer(),
                 src.type_info(),
-                dst.size()
+                src.size()
         )) {
         RPY_THROW(std::runtime_error, "convert copy failed");
     }
-- 
2.43.0


From e2c45ceb690bbab8f87f9ac9c54ed41d17fb03b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:04 +0000
Subject: [PATCH 021/111] fix: scalars built from a fraction have all their
 bytes initialised

---
 scalars/src/scalar.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index f0f8148..ace9a91 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -127,6 +127,7 @@ Scalar::Scalar(devices::TypeInfo info, const void* ptr)
       opaque_pointer(const_cast<void*>(ptr)) {}
 
 Scalar::Scalar(const ScalarType* type, int64_t num, int64_t denom)
+    : integer_for_convenience(0)
 {
     auto info = type->type_info();
     if (traits::is_arithmetic(info) && info.bytes <= sizeof(void*)) {
-- 
2.43.0


From 61f0abf8d852d79e4069674ed0deda742cbbb246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:43 +0000
Subject: [PATCH 022/111] fix: default resolution of an increment stream
 separates its increments

---
 roughpy/src/streams/lie_increment_stream.cpp | 21 ++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/roughpy/src/streams/lie_increment_stream.cpp b/roughpy/src/streams/lie_increment_stream.cpp
index 09e880d..b19ef65 100644
--- a/roughpy/src/streams/lie_increment_stream.cpp
+++ b/roughpy/src/streams/lie_increment_stream.cpp
@@ -44,6 +44,8 @@
 #include "schema_finalization.h"
 #include "stream.h"
 
+#include <algorithm>
+#include <cmath>
 #include <limits>
 #include <pybind11/pytypes.h>
 
@@ -193,14 +195,21 @@ static py::object lie_increment_stream_from_increments(py::object data, py::kwar
     if (!md.resolution) {
         RPY_DBG_ASSERT(!indices.empty());
 
+        auto sorted_indices = indices;
+        std::sort(sorted_indices.begin(), sorted_indices.end());
+
+        // The resolution must separate the closest pair of distinct indices
         auto min_diff = std::numeric_limits<param_t>::infinity();
-        auto previous = 0.0;
+        auto previous = std::min(0.0, sorted_indices.front());
+        for (const auto& idx : sorted_indices) {
+            const auto diff = idx - previous;
+            if (diff > 0.0 && diff < min_diff) { min_diff = diff; }
+            previous = idx;
+        }
 
-        for (const auto& idx : indices) {
-            auto diff = idx - previous;
-            if (diff < min_diff) {
-                min_diff = diff;
-            }
+        if (std::isinf(min_diff)) {
+            md.resolution = 0;
+        } else {
             md.resolution = python::param_to_resolution(min_diff) + 1;
         }
     }
-- 
2.43.0


From 8fc9fe31f6854de6355370e4b0615d6b31833609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:43 +0000
Subject: [PATCH 023/111] fix: increments at equal times are applied in
 sequence, not dropped

---
 .../roughpy/streams/lie_increment_stream.h    |  2 +
 streams/src/lie_increment_stream.cpp          | 44 ++++++++++---------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/streams/include/roughpy/streams/lie_increment_stream.h b/streams/include/roughpy/streams/lie_increment_stream.h
index 826353b..1388a27 100644
--- a/streams/include/roughpy/streams/lie_increment_stream.h
+++ b/streams/include/roughpy/streams/lie_increment_stream.h
@@ -51,6 +51,8 @@ public:
 private:
     boost::container::flat_map<param_t, Lie> m_data;
 
+    void add_increment(param_t index, Lie&& increment);
+
 public:
     using DyadicCachingLayer::DyadicCachingLayer;
 
diff --git a/streams/src/lie_increment_stream.cpp b/streams/src/lie_increment_stream.cpp
index 4cabe77..406adc5 100644
--- a/streams/src/lie_increment_stream.cpp
+++ b/streams/src/lie_increment_stream.cpp
@@ -96,16 +96,12 @@ LieIncrementStream::LieIncrementStream(
                         scalars::KeyScalarArray(*buffer.type(), dptr, width),
                         md.cached_vector_type};
 
-                auto [it, inserted]
-                        = m_data.try_emplace(index, ctx.construct_lie(cdata));
-
-                if (inserted && param_needs_adding) {
-                    /*
-                     * We've inserted a new element, so we should now add the param
-                     * value if it is needed.
-                     */
-                    it->second[param_slot] = Scalar(index - previous_param);
+                auto increment = ctx.construct_lie(cdata);
+
+                if (param_needs_adding) {
+                    increment[param_slot] = Scalar(index - previous_param);
                 }
+                add_increment(index, std::move(increment));
                 previous_param = index;
                 dptr += stride;
             }
@@ -142,19 +138,13 @@ LieIncrementStream::LieIncrementStream(
                 md.cached_vector_type
         };
 
-        auto [it, inserted]
-                = m_data.try_emplace(index, ctx.construct_lie(cdata));
-
+        auto increment = ctx.construct_lie(cdata);
 
-        if (inserted && param_needs_adding) {
-            /*
-             * We've inserted a new element, so we should now add the param
-             * value if it is needed.
-             */
-            it->second[param_slot] = index - previous_param;
+        if (param_needs_adding) {
+            increment[param_slot] = index - previous_param;
         }
+        add_increment(index, std::move(increment));
         previous_param = index;
-
     }
 }
 
@@ -166,11 +156,25 @@ LieIncrementStream::LieIncrementStream(std::vector<pair<param_t, Lie>>&& data,
 {
     m_data.reserve(data.size());
     for (auto&& [param, lie] : data | views::move) {
-        m_data.emplace(param, std::move(lie));
+        add_increment(param, std::move(lie));
     }
 
 }
 
+void LieIncrementStream::add_increment(param_t index, Lie&& increment)
+{
+    auto [it, inserted] = m_data.try_emplace(index, increment);
+    if (!inserted) {
+        // Several increments at one time are applied one after the other
+        const auto& md = metadata();
+        it->second = md.default_context->cbh(
+                it->second,
+                increment,
+                md.cached_vector_type
+        );
+    }
+}
+
 algebra::Lie LieIncrementStream::log_signature_impl(
         const intervals::Interval& interval, const algebra::Context& ctx
 ) const
-- 
2.43.0


From 30ee14c4a70ba5388f119843aacff07dfddec1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:43 +0000
Subject: [PATCH 024/111] fix: cached log signatures are only used for the
 context they were computed in

---
 streams/src/dyadic_caching_layer.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index a35b02b..7aeed9b 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -88,13 +88,20 @@ DyadicCachingLayer::log_signature(const intervals::DyadicInterval& interval,
                                   resolution_t resolution,
                                   const algebra::Context& ctx) const
 {
-    if (empty(interval)) {
+    const auto stream_resolution = metadata().default_resolution;
+
+    // An interval finer than the stream resolution stands for the coarser
+    // interval that starts at the same point, which need not be empty.
+    if (interval.power() <= stream_resolution && empty(interval)) {
         return ctx.zero_lie(DyadicCachingLayer::metadata().cached_vector_type);
     }
 
-    const auto stream_resolution = metadata().default_resolution;
-
     if (interval.power() == stream_resolution) {
+        // The cache holds elements of the default context only.
+        if (&ctx != metadata().default_context.get()) {
+            return log_signature_impl(interval, ctx);
+        }
+
         std::lock_guard<std::recursive_mutex> access(m_compute_lock);
 
         auto& cached = m_cache[interval];
-- 
2.43.0


From a1f892da2e5cd4cab86dd9a0f1dc04c9f68dde29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:43 +0000
Subject: [PATCH 025/111] fix: signature queries accept a dtype name, and a
 dtype without a depth

---
 roughpy/src/streams/signature_arguments.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/streams/signature_arguments.cpp b/roughpy/src/streams/signature_arguments.cpp
index 1e34f1b..eec5cac 100644
--- a/roughpy/src/streams/signature_arguments.cpp
+++ b/roughpy/src/streams/signature_arguments.cpp
@@ -197,7 +197,7 @@ int python::parse_sig_args(
             } else if (Py_TYPE(dtype) == &PyUnicode_Type) {
                 const auto* dtype_str = PyUnicode_AsUTF8(dtype);
                 const auto ctype_o = scalars::get_type(dtype_str);
-                if (ctype_o) {
+                if (!ctype_o) {
                     PyErr_SetString(
                             PyExc_TypeError,
                             "unrecognised scalar type id"
@@ -229,6 +229,8 @@ int python::parse_sig_args(
             }
         }
 
+        if (depth == 0) { depth = smeta->default_context->depth(); }
+
         sigargs->ctx = smeta->default_context->get_alike(depth, ctype);
     } else {
         // a provided context always takes priority over other configurations.
-- 
2.43.0


From 4cfe5211775afae86b06564dff5d55cd77ca7bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:23 +0000
Subject: [PATCH 026/111] fix: partially covered pieces of a piecewise abelian
 stream contribute their covered part

---
 streams/src/piecewise_abelian_stream.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/streams/src/piecewise_abelian_stream.cpp b/streams/src/piecewise_abelian_stream.cpp
index 39ecf94..b06ab2d 100644
--- a/streams/src/piecewise_abelian_stream.cpp
+++ b/streams/src/piecewise_abelian_stream.cpp
@@ -173,14 +173,16 @@ algebra::Lie PiecewiseAbelianStream::log_signature_impl(
         } else if (pa >= a && pb <= b) {
             // [-----[p-----p)---)
             lies.push_back(piece.second);
-        } else if (pb <= pb) {
-            // [p---[---p)-----)
-            lies.push_back(piece.second.smul(to_multiplier_upper(piece.first, a)
-            ));
-        } else if (pa >= a && pb > b) {
-            // [---[p----)----p)
-            lies.push_back(piece.second.smul(to_multiplier_lower(piece.first, b)
-            ));
+        } else {
+            // Only the part of the piece inside [-----) contributes; this is
+            // the difference of the proportions before either end.
+            const auto upper = (pb > b)
+                    ? to_multiplier_lower(piece.first, b)
+                    : scalars::Scalar(param_t(1));
+            const auto lower = (pa < a)
+                    ? to_multiplier_lower(piece.first, a)
+                    : scalars::Scalar(param_t(0));
+            lies.push_back(piece.second.smul(upper - lower));
         }
     }
 
-- 
2.43.0


From a904fefc781b889e2284386fff2784116d4ff26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:40 +0000
Subject: [PATCH 027/111] fix: Brownian increments have the variance of their
 interval

---
 streams/include/roughpy/streams/brownian_stream.h |  2 +-
 streams/src/brownian_stream.cpp                   | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/streams/include/roughpy/streams/brownian_stream.h b/streams/include/roughpy/streams/brownian_stream.h
index 3e306b4..e200321 100644
--- a/streams/include/roughpy/streams/brownian_stream.h
+++ b/streams/include/roughpy/streams/brownian_stream.h
@@ -47,7 +47,7 @@ class ROUGHPY_STREAMS_EXPORT BrownianStream : public DynamicallyConstructedStrea
 
     RPY_NO_DISCARD
     algebra::Lie gaussian_increment(const algebra::Context& ctx,
-                                    param_t length) const;
+                                    param_t variance) const;
 
 protected:
     RPY_NO_DISCARD
diff --git a/streams/src/brownian_stream.cpp b/streams/src/brownian_stream.cpp
index 7769afd..cfc6f26 100644
--- a/streams/src/brownian_stream.cpp
+++ b/streams/src/brownian_stream.cpp
@@ -35,18 +35,20 @@
 
 #include <cereal/types/vector.hpp>
 
+#include <cmath>
+
 using namespace rpy;
 using namespace rpy::streams;
 
 algebra::Lie BrownianStream::gaussian_increment(
         const algebra::Context& ctx,
-        param_t length
+        param_t variance
 ) const
 {
     const auto& md = metadata();
     scalars::KeyScalarArray incr(p_generator->normal_random(
             scalars::Scalar(0.),
-            scalars::Scalar(length),
+            scalars::Scalar(std::sqrt(variance)),
             md.width
     ));
     return ctx.construct_lie({std::move(incr), md.cached_vector_type});
@@ -69,9 +71,11 @@ pair<algebra::Lie, algebra::Lie> BrownianStream::compute_child_lie_increments(
     const auto mean
             = parent_value.smul(scalars::Scalar(md.data_scalar_type, 1, 2));
 
-    auto length = ldexp(0.5, left_di.power());
+    // Given its increment over an interval, the two halves of the increment have
+    // a quarter of the length of the interval as their conditional variance.
+    auto variance = ldexp(0.5, -left_di.power());
 
-    const auto perturbation = gaussian_increment(*md.default_context, length);
+    const auto perturbation = gaussian_increment(*md.default_context, variance);
     return {mean.add(perturbation), mean.sub(perturbation)};
 }
 DynamicallyConstructedStream::Lie BrownianStream::make_new_root_increment(
-- 
2.43.0


From 37c24ea88b149dc5ca04caba9db6451e23d5fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:40 +0000
Subject: [PATCH 028/111] fix: dynamic streams refine every part of an interval
 to the accuracy asked for

---
 .../streams/dynamically_constructed_stream.h  |   8 +-
 .../src/dynamically_constructed_stream.cpp    | 175 ++++++------------
 2 files changed, 68 insertions(+), 115 deletions(-)

diff --git a/streams/include/roughpy/streams/dynamically_constructed_stream.h b/streams/include/roughpy/streams/dynamically_constructed_stream.h
index c818977..7b85a42 100644
--- a/streams/include/roughpy/streams/dynamically_constructed_stream.h
+++ b/streams/include/roughpy/streams/dynamically_constructed_stream.h
@@ -119,7 +119,13 @@ private:
     data_increment insert_children_and_refine(data_increment leaf,
                                               DyadicInterval interval) const;
 
-    data_increment update_parent_accuracy(data_increment below) const;
+    RPY_NO_DISCARD
+    data_increment insert_children(data_increment leaf) const;
+
+    void refine_below(data_increment increment, resolution_t desired) const;
+
+    void update_from_children(data_increment parent, data_increment left,
+                              data_increment right) const;
 
     void update_parents(data_increment current) const;
 
diff --git a/streams/src/dynamically_constructed_stream.cpp b/streams/src/dynamically_constructed_stream.cpp
index d55e045..9dc1faa 100644
--- a/streams/src/dynamically_constructed_stream.cpp
+++ b/streams/src/dynamically_constructed_stream.cpp
@@ -47,51 +47,39 @@ void streams::DynamicallyConstructedStream::refine_accuracy(
     DynamicallyConstructedStream::data_increment increment,
     resolution_t desired) const
 {
-    RPY_DBG_ASSERT(increment->first.power() < desired);
-    //
-    //    // get all the intervals in the tree "below" increment->first
-    //    auto range = m_data_tree.equal_range(increment->first);
-    //
-    //    // update all the leaves below until we reach the desired accuracy
-    //    while (range.first != range.second) {
-    //        if (range.first->second.accuracy() >= desired) {
-    //            // Do nothing, but advance until after this interval
-    //            DyadicInterval val(range.first->first);
-    //            ++val;
-    //
-    //            for (; range.first->first < val; ++range.first) {}
-    //        } else if (DataIncrement::is_leaf(range.first)) {
-    //            // If we're at depth and have a leaf, then
-    //            // divide and refine down.
-    //            DyadicInterval val(range.first->first);
-    //            val.shrink_interval_left();
-    //            range.first = insert_children_and_refine(range.first, val);
-    //        } else {
-    //            // If we're not a leaf, then continue down the tree until
-    //            // we reach a leaf.
-    //            ++range.first;
-    //        }
-    //    }
-    auto [leaf_above, end] = m_data_tree.equal_range(increment->first);
-
-    for (; leaf_above != end && leaf_above->first.power() < desired; ++leaf_above) {
-        if (!DataIncrement::is_leaf(leaf_above)) { continue; }
-
-        DyadicInterval refined_inc(increment->first);
-        DyadicInterval refined_end(increment->first);
-        refined_inc.shrink_interval_left(desired - increment->first.power());
-        ++refined_end;
-        refined_end.shrink_interval_left(desired - increment->first.power());
-
-        for (; refined_inc < refined_end; ++(++refined_inc)) {
-            while (leaf_above->first.contains_dyadic(refined_inc)
-                && !dyadic_equals(leaf_above->first, refined_inc)) {
-                leaf_above = insert_children_and_refine(leaf_above, refined_inc);
-            }
-
-            update_parents(leaf_above);
-        }
-    }
+    if (increment->second.accuracy() >= desired) { return; }
+
+    refine_below(increment, desired);
+    update_parents(increment);
+}
+
+void streams::DynamicallyConstructedStream::refine_below(
+    DynamicallyConstructedStream::data_increment increment,
+    resolution_t desired) const
+{
+    // A leaf has no children yet, any other node is already divided.
+    const auto left = DataIncrement::is_leaf(increment)
+        ? insert_children(increment)
+        : std::next(increment);
+    const auto right = left->second.sibling();
+
+    if (left->second.accuracy() < desired) { refine_below(left, desired); }
+    if (right->second.accuracy() < desired) { refine_below(right, desired); }
+
+    update_from_children(increment, left, right);
+}
+
+void streams::DynamicallyConstructedStream::update_from_children(
+    DynamicallyConstructedStream::data_increment parent,
+    DynamicallyConstructedStream::data_increment left,
+    DynamicallyConstructedStream::data_increment right) const
+{
+    const auto& md = metadata();
+    parent->second.lie(md.default_context->cbh(left->second.lie(),
+                                               right->second.lie(),
+                                               md.cached_vector_type));
+    parent->second.accuracy(std::min(left->second.accuracy(),
+                                     right->second.accuracy()));
 }
 
 DynamicallyConstructedStream::data_increment
@@ -138,11 +126,8 @@ streams::DynamicallyConstructedStream::expand_root_until_contains(
             make_neighbour_root_increment(neighbour),
             neighbour.power(),
             old_root);
-        root = insert_node(new_root,
-                           make_new_root_increment(new_root),
-                           old_root->first.power(),
-                           old_root);
-        update_parent_accuracy(old_root);
+        // The value of the new root is that of its two halves
+        root = insert_node(new_root, Lie(), new_root.power(), old_root);
 
         RPY_DBG_ASSERT(old_root != it_neighbour);
         RPY_DBG_ASSERT(it_neighbour != root);
@@ -151,6 +136,8 @@ streams::DynamicallyConstructedStream::expand_root_until_contains(
         old_root->second.sibling(it_neighbour);
         it_neighbour->second.parent(root);
         it_neighbour->second.sibling(old_root);
+
+        update_parents(old_root);
     }
     return root;
 }
@@ -176,83 +163,29 @@ streams::DynamicallyConstructedStream::lie_value(
     return increment->second.lie();
 }
 
-DynamicallyConstructedStream::data_increment
-streams::DynamicallyConstructedStream::update_parent_accuracy(
-    DynamicallyConstructedStream::data_increment below) const
-{
-    const auto& md = metadata();
-    auto parent = below->second.parent();
-    const auto dtend = m_data_tree.end();
-
-    if (parent != dtend) {
-        // We're not at the root, so parent has a sibling
-        auto sibling = below->second.sibling();
-        auto accuracy_available = std::min(below->second.accuracy(),
-                                           sibling->second.accuracy());
-
-        if (parent->second.accuracy() < accuracy_available) {
-            if (below->first.aligned()) {
-                parent->second.lie(md.default_context->cbh(
-                    below->second.lie(),
-                    sibling->second.lie(),
-                    md.cached_vector_type));
-            } else {
-                parent->second.lie(md.default_context->cbh(
-                    sibling->second.lie(),
-                    below->second.lie(),
-                    md.cached_vector_type));
-            }
-            parent->second.accuracy(accuracy_available);
-            below = parent;
-        }
-    }
-
-    return below;
-}
-
 void streams::DynamicallyConstructedStream::update_parents(
     DynamicallyConstructedStream::data_increment current) const
 {
-    //    data_increment below(current);
-    //    data_increment top = update_parent_accuracy(below);
-    //    while (top != below) {
-    //        below = top;
-    //        top = update_parent_accuracy(below);
-    //    }
-    const auto& md = metadata();
-    auto root = m_data_tree.begin();
+    const auto dtend = m_data_tree.end();
 
-    while (current != root) {
-        auto parent = current->second.parent();
-        RPY_DBG_ASSERT(parent != m_data_tree.end());
+    // The value of a divided interval is always that of its two halves, also
+    // if only one of them has changed and the accuracy remains the same.
+    for (auto parent = current->second.parent(); parent != dtend;
+         current = parent, parent = current->second.parent()) {
         auto sibling = current->second.sibling();
-
-        auto accuracy_available = std::min(current->second.accuracy(),
-                                           sibling->second.accuracy());
-        if (accuracy_available <= parent->second.accuracy()) { break; }
-
-        if (current->first.aligned()) {
-            parent->second.lie(md.default_context->cbh(current->second.lie(),
-                sibling->second.lie(),
-                md.cached_vector_type));
+        if (current->first < sibling->first) {
+            update_from_children(parent, current, sibling);
         } else {
-            parent->second.lie(md.default_context->cbh(sibling->second.lie(),
-                current->second.lie(),
-                md.cached_vector_type));
+            update_from_children(parent, sibling, current);
         }
-        parent->second.accuracy(accuracy_available);
-        current = parent;
     }
 }
 
 DynamicallyConstructedStream::data_increment
-streams::DynamicallyConstructedStream::insert_children_and_refine(
-    DynamicallyConstructedStream::data_increment leaf,
-    DynamicallyConstructedStream::DyadicInterval interval) const
+streams::DynamicallyConstructedStream::insert_children(
+    DynamicallyConstructedStream::data_increment leaf) const
 {
-
     RPY_DBG_ASSERT(DataIncrement::is_leaf(leaf));
-    RPY_DBG_ASSERT(leaf->first.contains_dyadic(interval));
 
     DyadicInterval left(leaf->first);
     DyadicInterval right(leaf->first);
@@ -279,6 +212,20 @@ streams::DynamicallyConstructedStream::insert_children_and_refine(
     right_incr.sibling(it_left);
     right_incr.parent(leaf);
 
+    return it_left;
+}
+
+DynamicallyConstructedStream::data_increment
+streams::DynamicallyConstructedStream::insert_children_and_refine(
+    DynamicallyConstructedStream::data_increment leaf,
+    DynamicallyConstructedStream::DyadicInterval interval) const
+{
+
+    RPY_DBG_ASSERT(leaf->first.contains_dyadic(interval));
+
+    auto it_left = insert_children(leaf);
+    auto it_right = it_left->second.sibling();
+
     update_parents(it_left);
 
     if (it_left->first.contains_dyadic(interval)) { return it_left; }
-- 
2.43.0


From 25c3c06e24ffa649e0dc6bc52914e1bd7e2be199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:40 +0000
Subject: [PATCH 029/111] fix: dynamic streams answer queries on both sides of
 the origin

---
 .../streams/dynamically_constructed_stream.h  |  3 ++
 .../src/dynamically_constructed_stream.cpp    | 31 +++++++++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/streams/include/roughpy/streams/dynamically_constructed_stream.h b/streams/include/roughpy/streams/dynamically_constructed_stream.h
index 7b85a42..b0b27ba 100644
--- a/streams/include/roughpy/streams/dynamically_constructed_stream.h
+++ b/streams/include/roughpy/streams/dynamically_constructed_stream.h
@@ -106,6 +106,9 @@ private:
 
     void refine_accuracy(data_increment increment, resolution_t desired) const;
 
+    RPY_NO_DISCARD
+    data_increment find_root(DyadicInterval di) const;
+
     RPY_NO_DISCARD
     data_increment expand_root_until_contains(data_increment root,
                                               DyadicInterval di) const;
diff --git a/streams/src/dynamically_constructed_stream.cpp b/streams/src/dynamically_constructed_stream.cpp
index 9dc1faa..b80a7f8 100644
--- a/streams/src/dynamically_constructed_stream.cpp
+++ b/streams/src/dynamically_constructed_stream.cpp
@@ -142,6 +142,33 @@ streams::DynamicallyConstructedStream::expand_root_until_contains(
     return root;
 }
 
+DynamicallyConstructedStream::data_increment
+DynamicallyConstructedStream::find_root(DyadicInterval di) const
+{
+    /*
+     * No dyadic interval has the origin in its interior, so the intervals on
+     * either side can never belong to the same tree. The first interval is the
+     * root of the tree below the origin (if there is one), and the last is a
+     * leaf of the tree above.
+     */
+    const auto dtend = m_data_tree.end();
+    if (m_data_tree.empty()) { return dtend; }
+
+    auto below_origin = [](const DyadicInterval& interval) {
+        return interval.inf() < 0.0;
+    };
+
+    if (below_origin(di)) {
+        auto root = m_data_tree.begin();
+        return below_origin(root->first) ? root : dtend;
+    }
+
+    auto root = std::prev(dtend);
+    if (below_origin(root->first)) { return dtend; }
+    while (root->second.parent() != dtend) { root = root->second.parent(); }
+    return root;
+}
+
 void DynamicallyConstructedStream::update_increment(
     data_increment increment,
     Lie&& new_value,
@@ -251,9 +278,9 @@ algebra::Lie DynamicallyConstructedStream::log_signature(
         return found->second.lie();
     }
 
-    auto root = m_data_tree.begin();
+    auto root = find_root(interval);
     if (root == end) {
-        // The tree currently holds no data.
+        // The tree currently holds no data on this side of the origin.
         root = insert_node(interval,
                            make_new_root_increment(interval),
                            interval.power(),
-- 
2.43.0


From f3be90427afd56a02db1b1feb1fc2b935ed38d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:36 +0000
Subject: [PATCH 030/111] fix: tick streams with ticks before and at the origin
 can be built

---
 streams/src/tick_stream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/streams/src/tick_stream.cpp b/streams/src/tick_stream.cpp
index ebd22ce..83526a5 100644
--- a/streams/src/tick_stream.cpp
+++ b/streams/src/tick_stream.cpp
@@ -79,10 +79,11 @@ streams::TickStream::smallest_dyadic_containing_all_events(
 optional<streams::TickStream::DyadicInterval>
 streams::TickStream::smallest_dyadic_containing_all_negative_events() const
 {
+    // The interval included at 0 is negative only if it is open at its infimum
     auto zeu = (metadata().interval_type == intervals::IntervalType::Clopen)
-            ? std::upper_bound(m_granular_times.begin(), m_granular_times.end(),
+            ? std::lower_bound(m_granular_times.begin(), m_granular_times.end(),
                                param_t(0))
-            : std::lower_bound(m_granular_times.begin(), m_granular_times.end(),
+            : std::upper_bound(m_granular_times.begin(), m_granular_times.end(),
                                param_t(0));
 
     if (zeu != m_granular_times.begin()) {
-- 
2.43.0


From 61dd3d51ae66295fe3babcd9389996872f3a1583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:36 +0000
Subject: [PATCH 031/111] fix: integer timestamps of ticks are numbers of
 seconds

---
 roughpy/src/args/convert_timestamp.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/args/convert_timestamp.cpp b/roughpy/src/args/convert_timestamp.cpp
index 6087156..d139ae4 100644
--- a/roughpy/src/args/convert_timestamp.cpp
+++ b/roughpy/src/args/convert_timestamp.cpp
@@ -109,8 +109,12 @@ rpy::param_t rpy::python::convert_delta_from_datetimes(
 )
 {
 
-    if (py::isinstance<py::float_>(current)
-        && py::isinstance<py::float_>(previous)) {
+    auto is_number = [](py::handle timestamp) {
+        return py::isinstance<py::float_>(timestamp)
+                || py::isinstance<py::int_>(timestamp);
+    };
+
+    if (is_number(current) && is_number(previous)) {
         return current.cast<param_t>() - previous.cast<param_t>();
     }
 
-- 
2.43.0


From 4f2b650d897090283db287899cba3c38facf9e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:36 +0000
Subject: [PATCH 032/111] fix: schema items can be given without options

---
 roughpy/src/args/parse_schema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy/src/args/parse_schema.cpp b/roughpy/src/args/parse_schema.cpp
index 0937099..81a95ee 100644
--- a/roughpy/src/args/parse_schema.cpp
+++ b/roughpy/src/args/parse_schema.cpp
@@ -121,7 +121,7 @@ void handle_seq_item(StreamSchema* schema, string label, py::sequence data)
 
     auto len = py::len(data);
 
-    RPY_CHECK(len > 1);
+    RPY_CHECK(len > 0);
     auto type = py_to_channel_type(data[0]);
 
     if (len == 1) {
-- 
2.43.0


From e23012c6690b9e11bf7ddd5cc8d803e717b97e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:36 +0000
Subject: [PATCH 033/111] fix: a tick stream is supported on its data unless
 told otherwise

---
 roughpy/src/streams/tick_stream.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/streams/tick_stream.cpp b/roughpy/src/streams/tick_stream.cpp
index 827c9e4..7ddd73a 100644
--- a/roughpy/src/streams/tick_stream.cpp
+++ b/roughpy/src/streams/tick_stream.cpp
@@ -132,9 +132,22 @@ static py::object construct(const py::object& data, py::kwargs kwargs)
         pmd.resolution = 0;
     }
 
+    if (!pmd.support) {
+        // By default, the support is the range of the (sorted) tick data
+        const intervals::DyadicInterval first(
+                ticks.front().timestamp, *pmd.resolution, pmd.interval_type
+        );
+        const intervals::DyadicInterval last(
+                ticks.back().timestamp, *pmd.resolution, pmd.interval_type
+        );
+        pmd.support = intervals::RealInterval(
+                first.inf(), last.sup(), pmd.interval_type
+        );
+    }
+
     streams::StreamMetadata meta{
             pmd.width,
-            pmd.support ? *pmd.support : intervals::RealInterval(0, 1),
+            *pmd.support,
             pmd.ctx,
             pmd.scalar_type,
             pmd.vector_type ? *pmd.vector_type : algebra::VectorType::Dense,
-- 
2.43.0


From b920e8eb588eabdbc51ed2655cafd72a9ad31b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:36 +0000
Subject: [PATCH 034/111] fix: categorical ticks are increments of their own
 variant

---
 roughpy/src/streams/tick_stream.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/streams/tick_stream.cpp b/roughpy/src/streams/tick_stream.cpp
index 7ddd73a..47eccd7 100644
--- a/roughpy/src/streams/tick_stream.cpp
+++ b/roughpy/src/streams/tick_stream.cpp
@@ -221,7 +221,10 @@ static py::object construct(const py::object& data, py::kwargs kwargs)
                 }
             }
             case streams::ChannelType::Categorical: {
-                lie_elt[key] += scalars::Scalar(1);
+                const auto variant_key = schema.label_to_lie_key(
+                        tick.label + ":" + tick.data.cast<string>()
+                );
+                lie_elt[variant_key] += scalars::Scalar(1);
                 break;
             }
             case streams::ChannelType::Lie:
-- 
2.43.0


From ce03dcda9ef14a0b2b3ef8201a45250aee0ce12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:41 +0000
Subject: [PATCH 035/111] fix: TensorKey.split_n splits the letters of the word

---
 roughpy/src/algebra/tensor_key.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/roughpy/src/algebra/tensor_key.cpp b/roughpy/src/algebra/tensor_key.cpp
index 26e5af2..448e892 100644
--- a/roughpy/src/algebra/tensor_key.cpp
+++ b/roughpy/src/algebra/tensor_key.cpp
@@ -88,21 +88,21 @@ python::PyTensorKey::split_n(deg_t n) const
     if (n <= 0) {
         return std::make_pair(*this,PyTensorKey(m_basis, 0));
     }
-    if (n >= m_basis.depth()) {
-        return std::make_pair(PyTensorKey(m_basis, 0), *this);
-    }
 
-    auto width = m_basis.width();
-    //TODO: needs better implementation
-    key_type shift = 1;
-    for (deg_t i=0; i<n; ++i) {
-        shift *= width;
+    const auto letters = to_letters();
+    const auto degree = static_cast<deg_t>(letters.size());
+    if (n >= degree) {
+        return std::make_pair(PyTensorKey(m_basis, 0), *this);
     }
-    auto left = (m_key - 1) / shift;
-    auto right = 1 + ((m_key - 1) % shift);
 
-    return std::make_pair(PyTensorKey(m_basis, left), PyTensorKey(m_basis, right));
+    // The last n letters form the right-hand key
+    std::vector<let_t> left(letters.begin(), letters.end() - n);
+    std::vector<let_t> right(letters.end() - n, letters.end());
 
+    return std::make_pair(
+            PyTensorKey(m_basis, left),
+            PyTensorKey(m_basis, right)
+    );
 }
 bool python::PyTensorKey::is_letter() const
 {
-- 
2.43.0


From b890258c49736b59536ca874a51c5d8155e51ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:41 +0000
Subject: [PATCH 036/111] fix: TensorKey from an index divides by zero for
 width 1

---
 roughpy/src/algebra/tensor_key.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/algebra/tensor_key.cpp b/roughpy/src/algebra/tensor_key.cpp
index 448e892..2029909 100644
--- a/roughpy/src/algebra/tensor_key.cpp
+++ b/roughpy/src/algebra/tensor_key.cpp
@@ -152,8 +152,8 @@ construct_key(const py::args& args, const py::kwargs& kwargs)
         auto depth = kwargs["depth"].cast<deg_t>();
         auto index = kwargs["index"].cast<key_type>();
 
-        auto max_idx = (python::maths::power(dimn_t(width), depth + 1) - 1)
-                / (dimn_t(width) - 1);
+        key_type max_idx = 0;
+        for (deg_t d = 0; d <= depth; ++d) { max_idx = max_idx * width + 1; }
         if (index >= max_idx) {
             RPY_THROW(py::value_error, "provided index exceeds maximum");
         }
-- 
2.43.0


From c0112292037b80332910403a4565d89761ef085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:41 +0000
Subject: [PATCH 037/111] fix: equal TensorKeys of different depths hash alike,
 comparison with other types is False

---
 roughpy/src/algebra/tensor_key.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/algebra/tensor_key.cpp b/roughpy/src/algebra/tensor_key.cpp
index 2029909..ebc7669 100644
--- a/roughpy/src/algebra/tensor_key.cpp
+++ b/roughpy/src/algebra/tensor_key.cpp
@@ -223,7 +223,8 @@ python::PyTensorKey python::operator*(
 }
 
 hash_t python::hash_value(const python::PyTensorKey& key) noexcept {
-    auto seed = hash_value(key.m_basis);
+    // Keys are equal if the widths and the key values agree
+    auto seed = static_cast<hash_t>(key.m_basis.width());
     hash_combine(seed, key.m_key);
     return seed;
 }
@@ -249,7 +250,7 @@ void python::init_py_tensor_key(py::module_& m)
 
     klass.def("__str__", &PyTensorKey::to_string);
     klass.def("__repr__", &PyTensorKey::to_string);
-    klass.def("__eq__", &PyTensorKey::equals);
+    klass.def("__eq__", &PyTensorKey::equals, py::is_operator());
 
     klass.def("__hash__", [](const PyTensorKey& key) { return hash_value(key); });
 
-- 
2.43.0


From 684c1b8dd3b670c22b513b817dbb28566d5b9f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:41 +0000
Subject: [PATCH 038/111] fix: LieKey with nested brackets resolves to the
 wrong basis element, letters in brackets are not checked against the width

---
 roughpy/src/algebra/lie_key.cpp | 39 ++++++++++++++-------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/roughpy/src/algebra/lie_key.cpp b/roughpy/src/algebra/lie_key.cpp
index 12a0a8e..2ce93a0 100644
--- a/roughpy/src/algebra/lie_key.cpp
+++ b/roughpy/src/algebra/lie_key.cpp
@@ -302,8 +302,6 @@ class ToLieKeyHelper
     RPY_MAYBE_UNUSED dimn_t current;
     algebra::LieBasis basis;
     deg_t width;
-    let_t max_letter = 0;
-
 public:
     explicit ToLieKeyHelper(algebra::LieBasis b, deg_t w)
         : size(2), current(0),
@@ -330,8 +328,9 @@ public:
         if (py::isinstance<py::list>(obj)) { return parse_list(obj); }
         if (py::isinstance<py::int_>(obj)) {
             auto as_let = obj.cast<let_t>();
-            if (basis)
-                if (as_let > max_letter) { max_letter = as_let; }
+            if (as_let > width) {
+                RPY_THROW(py::value_error, "a letter exceeds the width");
+            }
             return container_type{python::PyLieLetter::from_letter(as_let)};
         }
         RPY_THROW(py::type_error, "items must be either int or lists");
@@ -382,16 +381,6 @@ public:
         return parse_pair(obj[py::int_(0)], obj[py::int_(1)]);
     }
 
-    deg_t get_width()
-    {
-        if (width != 0 && max_letter > width) {
-            RPY_THROW(py::value_error, "a letter exceeds the width");
-        } else {
-            width = max_letter;
-        }
-        return width;
-    }
-
     algebra::LieBasis get_basis() const {
         RPY_CHECK(basis);
 
@@ -476,21 +465,25 @@ python::parse_lie_key(const algebra::LieBasis& basis, const py::args& args, cons
 
 namespace {
 
+optional<key_type> pair_to_internal_key(const algebra::LieBasis& basis, const python::PyLieLetter* pair) noexcept;
+
 optional<key_type> to_internal_key_recurse(const algebra::LieBasis& basis, const python::PyLieLetter* base) noexcept
 {
     if (!base->is_offset()) {
-        return static_cast<key_type>(*base);
+        return static_cast<key_type>(static_cast<let_t>(*base));
     }
 
-    optional<key_type> result;
-
-    auto left = to_internal_key_recurse(basis, base + static_cast<dimn_t>(*base));
-    auto right = to_internal_key_recurse(basis, ++base);
+    // An offset points to the pair that makes up the bracket
+    return pair_to_internal_key(basis, base + static_cast<dimn_t>(*base));
+}
 
-    if (left && right) {
-        result = basis.child(*left, *right);
-    }
+optional<key_type> pair_to_internal_key(const algebra::LieBasis& basis, const python::PyLieLetter* pair) noexcept
+{
+    auto left = to_internal_key_recurse(basis, pair);
+    auto right = to_internal_key_recurse(basis, pair + 1);
 
+    optional<key_type> result;
+    if (left && right) { result = basis.child(*left, *right); }
     return result;
 }
 
@@ -502,7 +495,7 @@ python::PyLieKey::operator key_type() const noexcept {
         return static_cast<key_type>(m_data[0]);
     }
 
-    auto combined = to_internal_key_recurse(m_basis, m_data.data());
+    auto combined = pair_to_internal_key(m_basis, m_data.data());
 
     if (combined) {
         return *combined;
-- 
2.43.0


From df43edc0e5d4584286c08e0d95ef13a833620f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:41 +0000
Subject: [PATCH 039/111] fix: key_to_index and parents of Python bases ignore
 their key, size needs its argument

---
 roughpy/src/algebra/basis.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/roughpy/src/algebra/basis.cpp b/roughpy/src/algebra/basis.cpp
index dc3e301..a28c545 100644
--- a/roughpy/src/algebra/basis.cpp
+++ b/roughpy/src/algebra/basis.cpp
@@ -71,8 +71,8 @@ static py::class_<T> wordlike_basis_setup(py::module_& m, const char* name)
     );
     basis.def(
             "key_to_index",
-            [](const T& self, const python::PyLieKey& key) {
-                return self.key_to_index(0);
+            [](const T& self, const K& key) {
+                return self.key_to_index(static_cast<key_type>(key));
             },
             "key"_a,
             "Takes a :py:attr:`key` and returns an integer corresponding to the index."
@@ -80,11 +80,13 @@ static py::class_<T> wordlike_basis_setup(py::module_& m, const char* name)
 
     basis.def(
             "parents",
-            [](const T& self, const K& key) { return self.parents(0); },
+            [](const T& self, const K& key) {
+                return self.parents(static_cast<key_type>(key));
+            },
             "key"_a,
             "Splits off the first letter and returns the letter and the remainder of the word."
     );
-    basis.def("size", [](const T& basis, deg_t degree = -1) {
+    basis.def("size", [](const T& basis, deg_t degree) {
         if (degree < 0) {
             degree = basis.depth();
         } else if (degree > basis.depth()) {
@@ -95,7 +97,7 @@ static py::class_<T> wordlike_basis_setup(py::module_& m, const char* name)
         }
 
         return basis.size(degree);
-    }, "How big the dimension will be at a particular degree.");
+    }, "degree"_a = -1, "How big the dimension will be at a particular degree.");
 
     basis.def("__iter__", [](const T& self) { return KIter(self); });
 
-- 
2.43.0


From 06c8f2a8b135e532591728a7b2bff6bd0d45e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:42 +0000
Subject: [PATCH 040/111] fix: items of an algebra iterator follow the iterator
 when it advances

---
 algebra/include/roughpy/algebra/algebra_iterator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algebra/include/roughpy/algebra/algebra_iterator.h b/algebra/include/roughpy/algebra/algebra_iterator.h
index 140a8b7..ca7e136 100644
--- a/algebra/include/roughpy/algebra/algebra_iterator.h
+++ b/algebra/include/roughpy/algebra/algebra_iterator.h
@@ -193,7 +193,8 @@ AlgebraIterator<Algebra>::operator*() const
         RPY_THROW(std::runtime_error,"attempting to dereference an invalid iterator"
         );
     }
-    return {p_interface};
+    // The item must not follow this iterator when it is advanced
+    return {p_interface->clone()};
 }
 template <typename Algebra>
 typename AlgebraIterator<Algebra>::pointer
@@ -202,7 +203,8 @@ AlgebraIterator<Algebra>::operator->() const
     if (!p_interface) {
         RPY_THROW(std::runtime_error, "cannot dereference an invalid iterator");
     }
-    return {p_interface};
+    // The item must not follow this iterator when it is advanced
+    return {p_interface->clone()};
 }
 template <typename Algebra>
 bool AlgebraIterator<Algebra>::operator==(const AlgebraIterator& other) const
-- 
2.43.0


From 385132236e74e0c8785f7b685750cf0f9a1ded2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:42 +0000
Subject: [PATCH 041/111] fix: algebra iterators and their items do not keep
 the data they refer to alive

---
 roughpy/src/algebra/algebra_iterator.cpp | 6 +++++-
 roughpy/src/algebra/setup_algebra_type.h | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/algebra/algebra_iterator.cpp b/roughpy/src/algebra/algebra_iterator.cpp
index f553e5f..f6494bb 100644
--- a/roughpy/src/algebra/algebra_iterator.cpp
+++ b/roughpy/src/algebra/algebra_iterator.cpp
@@ -53,7 +53,11 @@ static void init_iterator(py::module_& m, const char* iter_name)
     klass.def("key", [](const AlgebraIteratorItem<Algebra>& item) {
         return KeyType(item.basis(), item.key());
     });
-    klass.def("value", &AlgebraIteratorItem<Algebra>::value);
+    klass.def(
+            "value",
+            &AlgebraIteratorItem<Algebra>::value,
+            py::keep_alive<0, 1>()
+    );
 }
 
 #define MAKE_ITERATOR_TYPE(ALG, KEY)                                           \
diff --git a/roughpy/src/algebra/setup_algebra_type.h b/roughpy/src/algebra/setup_algebra_type.h
index a8e3de5..9bad7db 100644
--- a/roughpy/src/algebra/setup_algebra_type.h
+++ b/roughpy/src/algebra/setup_algebra_type.h
@@ -101,7 +101,12 @@ void setup_algebra_type(py::class_<Alg, Args...>& klass)
     klass.def(
             "__iter__",
             [](const Alg& self) {
-                return py::make_iterator(self.begin(), self.end());
+                // Items refer to self, and so must keep the iterator alive
+                return py::make_iterator(
+                        self.begin(),
+                        self.end(),
+                        py::keep_alive<0, 1>()
+                );
             },
             py::keep_alive<0, 1>()
     );
-- 
2.43.0


From d58488f2cc14a2347c4af8c9cde05b04d4b74085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:42 +0000
Subject: [PATCH 042/111] fix: algebra / Scalar multiplies by the scalar

---
 roughpy/src/algebra/setup_algebra_type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy/src/algebra/setup_algebra_type.h b/roughpy/src/algebra/setup_algebra_type.h
index 9bad7db..8f0ecfb 100644
--- a/roughpy/src/algebra/setup_algebra_type.h
+++ b/roughpy/src/algebra/setup_algebra_type.h
@@ -117,7 +117,7 @@ void setup_algebra_type(py::class_<Alg, Args...>& klass)
     klass.def("__add__", &Alg::add, py::is_operator());
     klass.def("__sub__", &Alg::sub, py::is_operator());
     klass.def("__mul__", &Alg::smul, py::is_operator());
-    klass.def("__truediv__", &Alg::smul, py::is_operator());
+    klass.def("__truediv__", &Alg::sdiv, py::is_operator());
     klass.def("__mul__", &Alg::mul, py::is_operator());
     klass.def(
             "__rmul__",
-- 
2.43.0


From 6abc8092aa5fa4ce47ef950fbf2a405c1e90bad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:42 +0000
Subject: [PATCH 043/111] fix: adjoint_to_free_multiply returns the type of its
 argument

---
 roughpy/src/algebra/free_multiply_funcs.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/algebra/free_multiply_funcs.cpp b/roughpy/src/algebra/free_multiply_funcs.cpp
index f43ae4c..fd54210 100644
--- a/roughpy/src/algebra/free_multiply_funcs.cpp
+++ b/roughpy/src/algebra/free_multiply_funcs.cpp
@@ -186,27 +186,29 @@ adjoint_to_free_multiply(const py::object& multiplier, const py::object& arg)
     algebra::context_pointer ctx;
     if (py::isinstance<algebra::FreeTensor>(multiplier)) {
         const auto& left_real = multiplier.cast<const algebra::FreeTensor&>();
-        result_alg_type = algebra::AlgebraType::FreeTensor;
         ctx = left_real.context();
         mul_raw = (&*left_real);
         if (py::isinstance<algebra::FreeTensor>(arg)) {
             arg_raw = &*arg.cast<const algebra::FreeTensor&>();
+            result_alg_type = algebra::AlgebraType::FreeTensor;
         } else if (py::isinstance<algebra::ShuffleTensor>(arg)) {
             arg_raw = &*arg.cast<const algebra::ShuffleTensor&>();
+            result_alg_type = algebra::AlgebraType::ShuffleTensor;
         } else {
             RPY_THROW(std::runtime_error,"argument 'right' must be of type "
                                      "FreeTensor or ShuffleTensor");
         }
     } else if (py::isinstance<algebra::ShuffleTensor>(multiplier)) {
-        result_alg_type = algebra::AlgebraType::ShuffleTensor;
         const auto& left_real = multiplier.cast<const
                 algebra::ShuffleTensor&>();
         ctx = left_real.context();
         mul_raw = (&*left_real);
         if (py::isinstance<algebra::FreeTensor>(arg)) {
             arg_raw = &*arg.cast<const algebra::FreeTensor&>();
+            result_alg_type = algebra::AlgebraType::FreeTensor;
         } else if (py::isinstance<algebra::ShuffleTensor>(arg)) {
             arg_raw = &*arg.cast<const algebra::ShuffleTensor&>();
+            result_alg_type = algebra::AlgebraType::ShuffleTensor;
         } else {
             RPY_THROW(std::runtime_error,"argument 'right' must be of type "
                                      "FreeTensor or ShuffleTensor");
-- 
2.43.0


From 345ca3b80b509ea2896a54e19a0383a547696a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:42 +0000
Subject: [PATCH 044/111] fix: Context.compute_signature parses its arguments
 into null pointers

---
 roughpy/src/algebra/context.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/roughpy/src/algebra/context.cpp b/roughpy/src/algebra/context.cpp
index 9ba2bcc..f5a0f93 100644
--- a/roughpy/src/algebra/context.cpp
+++ b/roughpy/src/algebra/context.cpp
@@ -164,20 +164,22 @@ RPyContext_compute_signature(PyObject* self, PyObject* args, PyObject* kwargs)
     static const char* kwords[] = {"data", "vtype", nullptr};
     const auto& ctx = ctx_cast(self);
 
-    py::handle py_data;
-    py::handle py_vtype;
+    PyObject* raw_data = nullptr;
+    PyObject* raw_vtype = nullptr;
 
     if (!PyArg_ParseTupleAndKeywords(
                 args,
                 kwargs,
                 "O|O!",
                 const_cast<char**>(kwords),
-                py_data.ptr(),
+                &raw_data,
                 py::type::of<VectorType>().ptr(),
-                py_vtype.ptr()
+                &raw_vtype
         )) {
         return nullptr;
     }
+    const py::handle py_data(raw_data);
+    const py::handle py_vtype(raw_vtype);
 
     python::DataArgOptions options;
     options.allow_scalar = false;
-- 
2.43.0


From cc4dc2e255373001184c16b0ae325765e8a7f5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:42 +0000
Subject: [PATCH 045/111] fix: sparse Lie data are read at the wrong positions

---
 roughpy/src/args/parse_data_argument.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/roughpy/src/args/parse_data_argument.cpp b/roughpy/src/args/parse_data_argument.cpp
index faec40b..dffc3fa 100644
--- a/roughpy/src/args/parse_data_argument.cpp
+++ b/roughpy/src/args/parse_data_argument.cpp
@@ -276,7 +276,11 @@ void ConversionManager::handle_lie_leaf(LeafItem& leaf)
         }
     } else {
         allocate_leaf(new_leaf);
-        for (auto&& item : leaf_lie) { push(item.key(), item.value()); }
+        // Integer keys in the data are positions in the basis order
+        const auto basis = leaf_lie.basis();
+        for (auto&& item : leaf_lie) {
+            push(basis.key_to_index(item.key()), item.value());
+        }
     }
 }
 
@@ -466,11 +470,13 @@ void ConversionManager::check_size_and_type_recurse(
     if (py::isinstance<algebra::Lie>(node)) {
         const auto& lie = node.cast<const algebra::Lie&>();
         auto& leaf = add_leaf(node, LeafType::Lie);
-        leaf.shape.push_back(lie.dimension());
         leaf.value_type = lie.storage_type() == algebra::VectorType::Dense
                 ? ValueType::Value
                 : ValueType::KeyValue;
-        leaf.size = lie.dimension();
+        leaf.size = lie.storage_type() == algebra::VectorType::Dense
+                ? lie.dimension()
+                : lie.size();
+        leaf.shape.push_back(static_cast<idimn_t>(leaf.size));
         leaf.scalar_info = lie.coeff_type()->type_info();
     } else if (py::hasattr(node, "__dlpack__")) {
         // DLPack arguments have their inner-most dimension as leaves
-- 
2.43.0


From de8e93125df6b05ce3cfba7f0b42304326702cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:42 +0000
Subject: [PATCH 046/111] fix: DLPack strides and byte offset are misread

---
 roughpy/src/args/parse_data_argument.cpp | 20 +++++++++++++-------
 roughpy/src/args/strided_copy.h          |  9 +++------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/roughpy/src/args/parse_data_argument.cpp b/roughpy/src/args/parse_data_argument.cpp
index dffc3fa..52709dd 100644
--- a/roughpy/src/args/parse_data_argument.cpp
+++ b/roughpy/src/args/parse_data_argument.cpp
@@ -292,17 +292,23 @@ void ConversionManager::handle_dltensor_leaf(LeafItem& leaf)
     const auto& tensor = managed->dl_tensor;
     const auto size = new_leaf.size;
 
-    auto borrow = is_C_contiguous<int64_t>(
-            {tensor.strides, static_cast<dimn_t>(tensor.ndim)},
-            {tensor.shape, static_cast<dimn_t>(tensor.ndim)},
-            leaf.scalar_info.bytes
-    );
+    const auto* data
+            = static_cast<const byte*>(tensor.data) + tensor.byte_offset;
+
+    // DLPack strides count elements, not bytes, and no strides at all means
+    // that the data are contiguous
+    auto borrow = size == 0 || tensor.strides == nullptr
+            || is_C_contiguous<int64_t>(
+                    {tensor.strides, static_cast<dimn_t>(tensor.ndim)},
+                    {tensor.shape, static_cast<dimn_t>(tensor.ndim)},
+                    1
+            );
     borrow &= m_options.scalar_type->type_info() == leaf.scalar_info;
 
     if (borrow) {
         new_leaf.data = scalars::ScalarArray(
                 m_options.scalar_type,
-                tensor.data,
+                data,
                 size
         );
         return;
@@ -327,7 +333,7 @@ void ConversionManager::handle_dltensor_leaf(LeafItem& leaf)
 
     python::stride_copy(
             new_leaf.data,
-            {leaf.scalar_info, tensor.data, size},
+            {leaf.scalar_info, data, size},
             tensor.ndim,
             modified_shape.data(),
             modified_strides.empty() ? nullptr : modified_strides.data()
diff --git a/roughpy/src/args/strided_copy.h b/roughpy/src/args/strided_copy.h
index 0fb18c7..0a31c6d 100644
--- a/roughpy/src/args/strided_copy.h
+++ b/roughpy/src/args/strided_copy.h
@@ -86,14 +86,11 @@ inline bool is_C_contiguous(
 {
     if (strides.empty()) { return true; }
 
-    const size_t strides_sum = std::accumulate(strides.begin(), strides.end(), 0);
-    if (strides_sum == 0) {
-        return true;
-    }
-
     T compressed_size = (itemsize) ? *itemsize : 1;
     for (auto i = strides.size(); i > 0;) {
-        if (strides[--i] != compressed_size) { return false; }
+        --i;
+        // The stride of a dimension of size 1 is never used
+        if (shape[i] != 1 && strides[i] != compressed_size) { return false; }
         compressed_size *= shape[i];
     }
     return true;
-- 
2.43.0


From 88b37f4dacbfc90ae56f61b81ffbbb994d2fadb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:42 +0000
Subject: [PATCH 047/111] fix: strided copies of two-dimensional buffers write
 to the wrong rows

---
 roughpy/src/args/buffer_info.h    |  4 ++--
 roughpy/src/args/strided_copy.cpp | 17 +++++++++--------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/roughpy/src/args/buffer_info.h b/roughpy/src/args/buffer_info.h
index 297b370..b459f97 100644
--- a/roughpy/src/args/buffer_info.h
+++ b/roughpy/src/args/buffer_info.h
@@ -39,7 +39,7 @@ public:
 
     RPY_NO_DISCARD bool is_contiguous() const noexcept
     {
-        return static_cast<bool>(PyBuffer_IsContiguous(&m_view, 'A'));
+        return static_cast<bool>(PyBuffer_IsContiguous(&m_view, 'C'));
     }
 
     RPY_NO_DISCARD idimn_t itemsize() const noexcept
@@ -50,7 +50,7 @@ public:
 
     RPY_NO_DISCARD idimn_t ndim() const noexcept
     {
-        return static_cast<idimn_t>(m_view.itemsize);
+        return static_cast<idimn_t>(m_view.ndim);
     }
 
     RPY_NO_DISCARD const Py_ssize_t* shape() const noexcept
diff --git a/roughpy/src/args/strided_copy.cpp b/roughpy/src/args/strided_copy.cpp
index 2adc5db..3f698b5 100644
--- a/roughpy/src/args/strided_copy.cpp
+++ b/roughpy/src/args/strided_copy.cpp
@@ -153,14 +153,6 @@ void rpy::python::stride_copy(
             return offset;
         };
 
-        auto dst_offset = [&shape, &uncompressed, &index]() {
-            dimn_t offset = index[uncompressed-1];
-            for (int32_t i = 1; i < uncompressed; ++i) {
-                offset += shape[i] * index[i-1];
-            }
-            return offset;
-        };
-
         auto advance_index = [&shape, &index]() {
             auto dim = index.size() - 1;
             for (auto it = index.rbegin(); it != index.rend(); ++it, --dim) {
@@ -179,6 +171,15 @@ void rpy::python::stride_copy(
                 std::multiplies<>()
         );
 
+        auto dst_offset = [&shape, &uncompressed, &index, compression_size]() {
+            dimn_t offset = 0;
+            for (int32_t i = 0; i < uncompressed; ++i) {
+                offset = offset * shape[i] + index[i];
+            }
+            // Each position of the index holds compression_size elements
+            return offset * compression_size;
+        };
+
         for (; index[0] < shape[0]; advance_index()) {
             auto offset = dst_offset();
             auto tmp_out = out[{offset, offset + compression_size}];
-- 
2.43.0


From ff2e1727c4e6ddba8d7f6b992968d8b7bf0aabdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:42 +0000
Subject: [PATCH 048/111] fix: Scalar * algebra raises TypeError

---
 roughpy/src/scalars/scalars.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/roughpy/src/scalars/scalars.cpp b/roughpy/src/scalars/scalars.cpp
index 5532c19..f886d0c 100644
--- a/roughpy/src/scalars/scalars.cpp
+++ b/roughpy/src/scalars/scalars.cpp
@@ -166,13 +166,13 @@ void python::init_scalars(pybind11::module_& m)
 
     klass.def("__mul__", [](const Scalar& self, const Scalar& other) {
         return self * other;
-    });
+    }, py::is_operator());
     klass.def("__mul__", [](const Scalar& self, scalar_t other) {
         return self * Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__mul__", [](const Scalar& self, long long other) {
         return self * Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__rmul__", [](const Scalar& self, scalar_t other) {
         return Scalar(other) * self;
     });
-- 
2.43.0


From 8ec3bf2cb6fc638ca425d4e340a97f813a758106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 049/111] fix: stream objects never release their stream

---
 roughpy/src/streams/stream.cpp               |  7 ++++---
 roughpy/src/streams/tensor_valued_stream.cpp | 12 ++++++------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/roughpy/src/streams/stream.cpp b/roughpy/src/streams/stream.cpp
index 370bdaf..e801b6d 100644
--- a/roughpy/src/streams/stream.cpp
+++ b/roughpy/src/streams/stream.cpp
@@ -605,9 +605,10 @@ static PyObject* RPyStream_repr(PyObject* self)
 }
 static PyObject* RPyStream_str(PyObject* self) { return RPyStream_repr(self); }
 
-static void RPyStream_finalize(PyObject* self)
+static void RPyStream_dealloc(PyObject* self)
 {
     reinterpret_cast<python::RPyStream*>(self)->m_data.~Stream();
+    Py_TYPE(self)->tp_free(self);
 }
 
 static PyObject*
@@ -661,7 +662,7 @@ PyTypeObject rpy::python::RPyStream_Type = {
         "roughpy.Stream",                         /* tp_name */
         sizeof(python::RPyStream),                /* tp_basicsize */
         0,                                        /* tp_itemsize */
-        nullptr,                                  /* tp_dealloc */
+        (destructor) RPyStream_dealloc,           /* tp_dealloc */
         0,                                        /* tp_vectorcall_offset */
         (getattrfunc) nullptr,                    /* tp_getattr */
         (setattrfunc) nullptr,                    /* tp_setattr */
@@ -704,7 +705,7 @@ PyTypeObject rpy::python::RPyStream_Type = {
         nullptr,                                  /* tp_weaklist */
         nullptr,                                  /* tp_del */
         0,                                        /* tp_version_tag */
-        (destructor) RPyStream_finalize,          /* tp_finalize */
+        nullptr,                                  /* tp_finalize */
         nullptr                                   /* tp_vectorcall */
 };
 }// extern "C"
diff --git a/roughpy/src/streams/tensor_valued_stream.cpp b/roughpy/src/streams/tensor_valued_stream.cpp
index 3e9224a..50720a2 100644
--- a/roughpy/src/streams/tensor_valued_stream.cpp
+++ b/roughpy/src/streams/tensor_valued_stream.cpp
@@ -103,10 +103,10 @@ static PyObject* stvs_new(PyTypeObject* subtype,
     return new_obj.release().ptr();
 }
 
-static void stvs_finalize(PyObject* self)
+static void stvs_dealloc(PyObject* self)
 {
-    auto& data = reinterpret_cast<RPySimpleTensorValuedStream*>(self)->p_data;
-    if (data) { data.reset(); }
+    using data_type = std::shared_ptr<const ValueStream<FreeTensor>>;
+    reinterpret_cast<RPySimpleTensorValuedStream*>(self)->p_data.~data_type();
     Py_TYPE(self)->tp_free(self);
 }
 
@@ -497,7 +497,7 @@ PyTypeObject python::TensorValuedStream_Type = {
         "roughpy.TensorValuedStream",// tp_name
         sizeof(RPySimpleTensorValuedStream),// tp_basicsize
         0,// tp_itemsize
-        nullptr,// tp_dealloc
+        stvs_dealloc,// tp_dealloc
         0,// tp_vectorcall_offset
         0,// tp_getattr
         0,// tp_setattr
@@ -512,7 +512,7 @@ PyTypeObject python::TensorValuedStream_Type = {
         0,// tp_getattro
         0,// tp_setattro
         0,// tp_as_buffer
-        Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_FINALIZE,
+        Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE,
         // tp_flags
         "A Simple Tensor Valued stream",// tp_doc
         0,// tp_traverse
@@ -541,7 +541,7 @@ PyTypeObject python::TensorValuedStream_Type = {
         0,// tp_weaklist
         0,// tp_del
         0,// tp_version_tag
-        stvs_finalize// tp_finalize
+        0// tp_finalize
 };
 
 void python::init_tensor_valued_stream(py::module_& m)
-- 
2.43.0


From 6c6f214b325e620f7d9a3aed392bff00f1bc5e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 050/111] fix: repr of a TensorValuedStream recurses without
 end

---
 roughpy/src/streams/tensor_valued_stream.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/streams/tensor_valued_stream.cpp b/roughpy/src/streams/tensor_valued_stream.cpp
index 50720a2..9033b84 100644
--- a/roughpy/src/streams/tensor_valued_stream.cpp
+++ b/roughpy/src/streams/tensor_valued_stream.cpp
@@ -184,7 +184,15 @@ static PyObject* stvs_domain(PyObject* self)
     return result.release().ptr();
 }
 
-static PyObject* stvs_repr(PyObject* self) { return PyObject_Repr(self); }
+static PyObject* stvs_repr(PyObject* self)
+{
+    const auto& stream
+            = reinterpret_cast<RPySimpleTensorValuedStream*>(self)->p_data;
+    return PyUnicode_FromFormat(
+            "TensorValuedStream(width=%d)",
+            static_cast<int>(stream->metadata().width)
+    );
+}
 
 static PyObject* stvs_signature(PyObject* self,
                                 PyObject* args,
-- 
2.43.0


From 2c5822c1fb6950a08daf9d63a48c59d123a4a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 051/111] fix: TensorValuedStream.from_values crashes unless
 given a context

---
 roughpy/src/streams/tensor_valued_stream.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/roughpy/src/streams/tensor_valued_stream.cpp b/roughpy/src/streams/tensor_valued_stream.cpp
index 9033b84..25982fd 100644
--- a/roughpy/src/streams/tensor_valued_stream.cpp
+++ b/roughpy/src/streams/tensor_valued_stream.cpp
@@ -290,7 +290,10 @@ static PyObject* stvs_from_values(PyObject* cls,
                                   PyObject* kwargs)
 {
     using algebra::Lie;
-    auto py_kwargs = py::reinterpret_borrow<py::kwargs>(kwargs);
+    py::kwargs py_kwargs;
+    if (kwargs != nullptr) {
+        py_kwargs = py::reinterpret_borrow<py::kwargs>(kwargs);
+    }
 
     py::object value_list;
 
@@ -373,6 +376,7 @@ static PyObject* stvs_from_values(PyObject* cls,
                     "expected a group-like free tensor or Lie data");
             }
         }
+        if (path_md.width == 0) { path_md.width = ctx->width(); }
         RPY_CHECK_EQ(path_md.width, ctx->width(), py::value_error);
 
         // There is no reason to expect the values are provided in order.
@@ -442,8 +446,8 @@ static PyObject* stvs_from_values(PyObject* cls,
         StreamMetadata metadata{
                 path_md.width,
                 std::move(path_md.support).value(),
-                path_md.ctx,
-                path_md.scalar_type,
+                ctx,
+                ctx->ctype(),
                 (path_md.vector_type
                     ? *path_md.vector_type
                     : algebra::VectorType::Dense),
-- 
2.43.0


From a269d29d2856430eb2ae2b8326f9504a3713d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:54 +0000
Subject: [PATCH 052/111] fix: lie_to_tensor in a given storage reinterprets
 Lies of the other storage

---
 algebra/src/lite_context.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index 568e0f3..0578175 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -492,10 +492,10 @@ template <VectorType VType>
 typename LiteContext<Coefficients>::template free_tensor_t<VType>
 LiteContext<Coefficients>::lie_to_tensor_impl(const Lie& arg) const
 {
-    // If arg is an object from this context, then we can just use the maps
-    // directly
+    // If arg is an object from this context with the same storage, then we can
+    // just use the maps directly
     const auto& arg_context = arg->context();
-    if (arg_context == this) {
+    if (arg_context == this && arg.storage_type() == VType) {
         return m_maps.lie_to_tensor(algebra_cast<lie_t<VType>>(*arg));
     }
 
-- 
2.43.0


From 45e284d209d52a4f26d019b2c6a4efc76e95afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:43 +0000
Subject: [PATCH 053/111] fix: half shuffle products are cached without holding
 the lock

---
 .../libalgebra_lite/algebra/half_shuffle_multiplier.cpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp b/vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp
index d448c40..45a9af4 100644
--- a/vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp
+++ b/vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp
@@ -5,6 +5,8 @@
 #include "libalgebra_lite/shuffle_tensor.h"
 #include "libalgebra_lite/free_tensor.h"
 
+#include <mutex>
+
 
 
 
@@ -89,6 +91,8 @@ left_half_shuffle_tensor_multiplier::operator()(
         return null;
     }
 
+    std::lock_guard<std::recursive_mutex> access(m_lock);
+
     parent_type parents{lhs, rhs};
     auto found = m_cache.find(parents);
     if (found != m_cache.end()) {
@@ -179,6 +183,8 @@ right_half_shuffle_tensor_multiplier::operator()(
         return null;
     }
 
+    std::lock_guard<std::recursive_mutex> access(m_lock);
+
     parent_type parents{lhs, rhs};
     auto found = m_cache.find(parents);
     if (found != m_cache.end()) {
-- 
2.43.0


From 21620b0ea6855bc3a22d5e66b64ed08bcea52232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:43 +0000
Subject: [PATCH 054/111] fix: random generators draw without holding their
 lock

---
 scalars/src/random/standard_random_generator.h       |  6 ++++++
 .../src/types/bfloat16/bfloat16_random_generator.h   | 12 +++++++++++-
 scalars/src/types/half/half_random_generator.h       | 12 +++++++++++-
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/scalars/src/random/standard_random_generator.h b/scalars/src/random/standard_random_generator.h
index c29a76a..6a2ca38 100644
--- a/scalars/src/random/standard_random_generator.h
+++ b/scalars/src/random/standard_random_generator.h
@@ -110,6 +110,7 @@ template <typename ScalarImpl, typename BitGenerator>
 string StandardRandomGenerator<ScalarImpl, BitGenerator>::get_state() const
 {
     std::stringstream ss;
+    std::lock_guard<std::mutex> access(m_lock);
     ss << m_generator;
     return ss.str();
 }
@@ -156,6 +157,7 @@ void StandardRandomGenerator<ScalarImpl, BitGenerator>::set_seed(
 {
     RPY_CHECK(seed_data.size() >= 1);
 
+    std::lock_guard<std::mutex> access(m_lock);
     m_generator.seed(seed_data[0]);
     m_seed = {seed_data[0]};
 }
@@ -168,6 +170,7 @@ void StandardRandomGenerator<ScalarImpl, BitGenerator>::set_state(
     // add a linebreak char to terminate the string to avoid a bug in the pcg
     // stream read function
     std::stringstream ss(string{state} + '\n');
+    std::lock_guard<std::mutex> access(m_lock);
     ss >> m_generator;
 }
 
@@ -175,6 +178,7 @@ template <typename ScalarImpl, typename BitGenerator>
 std::vector<uint64_t>
 StandardRandomGenerator<ScalarImpl, BitGenerator>::get_seed() const
 {
+    std::lock_guard<std::mutex> access(m_lock);
     return {m_seed[0]};
 }
 
@@ -208,6 +212,7 @@ StandardRandomGenerator<ScalarImpl, BitGenerator>::uniform_random_scalar(
 
     auto out_slice = result.as_mut_slice<scalar_type>();
     auto* out = out_slice.data();
+    std::lock_guard<std::mutex> access(m_lock);
     for (dimn_t i = 0; i < count; ++i) {
         for (auto& dist : dists) {
             construct_inplace(out++, dist(m_generator));
@@ -233,6 +238,7 @@ StandardRandomGenerator<ScalarImpl, BitGenerator>::normal_random(
 
     auto out_slice = result.as_mut_slice<scalar_type>();
     auto* out = out_slice.data();
+    std::lock_guard<std::mutex> access(m_lock);
     for (dimn_t i = 0; i < count; ++i) {
         construct_inplace(out++, dist(m_generator));
     }
diff --git a/scalars/src/types/bfloat16/bfloat16_random_generator.h b/scalars/src/types/bfloat16/bfloat16_random_generator.h
index 5b0df36..839cbbf 100644
--- a/scalars/src/types/bfloat16/bfloat16_random_generator.h
+++ b/scalars/src/types/bfloat16/bfloat16_random_generator.h
@@ -5,6 +5,7 @@
 #ifndef BFLOAT16_RANDOM_GENERATOR_H
 #define BFLOAT16_RANDOM_GENERATOR_H
 
+#include <mutex>
 #include "random/standard_random_generator.h"
 
 #include "roughpy/core/check.h"                    // for throw_exception
@@ -74,6 +75,7 @@ void StandardRandomGenerator<bfloat16, BitGenerator>::set_seed(
 {
     RPY_CHECK(seed_data.size() >= 1);
 
+    std::lock_guard<std::mutex> access(m_lock);
     m_generator.seed(seed_data[0]);
     m_seed = {seed_data[0]};
 }
@@ -85,12 +87,17 @@ set_state(string_view state)
     // add a linebreak char to terminate the string to avoid a bug in the pcg
     // stream read function
     std::stringstream ss(string{state} + '\n');
+    std::lock_guard<std::mutex> access(m_lock);
     ss >> m_generator;
 }
 
 template <typename BitGenerator>
 std::vector<seed_int_t> StandardRandomGenerator<bfloat16, BitGenerator>::
-get_seed() const { return {m_seed[0]}; }
+get_seed() const
+{
+    std::lock_guard<std::mutex> access(m_lock);
+    return {m_seed[0]};
+}
 
 template <typename BitGenerator>
 std::string StandardRandomGenerator<bfloat16, BitGenerator>::get_type() const
@@ -102,6 +109,7 @@ template <typename BitGenerator>
 std::string StandardRandomGenerator<bfloat16, BitGenerator>::get_state() const
 {
     std::stringstream ss;
+    std::lock_guard<std::mutex> access(m_lock);
     ss << m_generator;
     return ss.str();
 }
@@ -133,6 +141,7 @@ ScalarArray StandardRandomGenerator<bfloat16, BitGenerator>::uniform_random_scal
 
     auto out_slice = result.as_mut_slice<scalar_type>();
     auto* out = out_slice.data();
+    std::lock_guard<std::mutex> access(m_lock);
     for (dimn_t i = 0; i < count; ++i) {
         for (auto& dist : dists) {
             construct_inplace(out++, scalar_type(dist(m_generator)));
@@ -156,6 +165,7 @@ ScalarArray StandardRandomGenerator<bfloat16, BitGenerator>::normal_random(
 
     auto out_slice = result.as_mut_slice<scalar_type>();
     auto* out = out_slice.data();
+    std::lock_guard<std::mutex> access(m_lock);
     for (dimn_t i = 0; i < count; ++i) {
         construct_inplace(out++, scalar_type(dist(m_generator)));
     }
diff --git a/scalars/src/types/half/half_random_generator.h b/scalars/src/types/half/half_random_generator.h
index f6065ba..6cfc99f 100644
--- a/scalars/src/types/half/half_random_generator.h
+++ b/scalars/src/types/half/half_random_generator.h
@@ -5,6 +5,7 @@
 #ifndef HALF_RANDOM_GENERATOR_H
 #define HALF_RANDOM_GENERATOR_H
 
+#include <mutex>
 #include "random/standard_random_generator.h"
 
 #include "roughpy/core/check.h" // for throw_exception, RPY_CHECK
@@ -74,6 +75,7 @@ void StandardRandomGenerator<half, BitGenerator>::set_seed(
 {
     RPY_CHECK(seed_data.size() >= 1);
 
+    std::lock_guard<std::mutex> access(m_lock);
     m_generator.seed(seed_data[0]);
     m_seed = {seed_data[0]};
 }
@@ -85,12 +87,17 @@ set_state(string_view state)
     // add a linebreak char to terminate the string to avoid a bug in the pcg
     // stream read function
     std::stringstream ss(string{state} + '\n');
+    std::lock_guard<std::mutex> access(m_lock);
     ss >> m_generator;
 }
 
 template <typename BitGenerator>
 std::vector<seed_int_t> StandardRandomGenerator<half, BitGenerator>::
-get_seed() const { return {m_seed[0]}; }
+get_seed() const
+{
+    std::lock_guard<std::mutex> access(m_lock);
+    return {m_seed[0]};
+}
 
 template <typename BitGenerator>
 std::string StandardRandomGenerator<half, BitGenerator>::get_type() const
@@ -102,6 +109,7 @@ template <typename BitGenerator>
 std::string StandardRandomGenerator<half, BitGenerator>::get_state() const
 {
     std::stringstream ss;
+    std::lock_guard<std::mutex> access(m_lock);
     ss << m_generator;
     return ss.str();
 }
@@ -133,6 +141,7 @@ ScalarArray StandardRandomGenerator<half, BitGenerator>::uniform_random_scalar(
 
     auto out_slice = result.as_mut_slice<scalar_type>();
     auto* out = out_slice.data();
+    std::lock_guard<std::mutex> access(m_lock);
     for (dimn_t i = 0; i < count; ++i) {
         for (auto& dist : dists) {
             construct_inplace(out++, scalar_type(dist(m_generator)));
@@ -156,6 +165,7 @@ ScalarArray StandardRandomGenerator<half, BitGenerator>::normal_random(
 
     auto out_slice = result.as_mut_slice<scalar_type>();
     auto* out = out_slice.data();
+    std::lock_guard<std::mutex> access(m_lock);
     for (dimn_t i = 0; i < count; ++i) {
         construct_inplace(out++, scalar_type(dist(m_generator)));
     }
-- 
2.43.0


From acf2e9a83695893ce4b0a8ddbdc9d5ca7c866e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:11 +0000
Subject: [PATCH 055/111] fix: exact and polynomial values survive their raw
 byte form

---
 scalars/src/scalar/raw_bytes.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/scalars/src/scalar/raw_bytes.cpp b/scalars/src/scalar/raw_bytes.cpp
index 99a082d..819b2a6 100644
--- a/scalars/src/scalar/raw_bytes.cpp
+++ b/scalars/src/scalar/raw_bytes.cpp
@@ -44,11 +44,11 @@ void to_raw_bytes_impl_helper(std::vector<byte>& out,
     auto it = out.begin() + curr_size;
     *it = (helper.is_negative()) ? 1 : 0;
     ++it;
-    uint64_t limbs_size = helper.size();
-    it = std::copy_n(reinterpret_cast<const byte*>(&limbs_size),
-                     sizeof(uint8_t),
+    const uint64_t nbytes = helper.nbytes();
+    it = std::copy_n(reinterpret_cast<const byte*>(&nbytes),
+                     sizeof(nbytes),
                      it);
-    std::copy_n(reinterpret_cast<const byte*>(helper.limbs()), limbs_size, it);
+    std::copy_n(reinterpret_cast<const byte*>(helper.limbs()), nbytes, it);
 }
 
 
@@ -58,7 +58,7 @@ void to_raw_bytes_impl(std::vector<byte>& out,
 {
     out.reserve(out.size() + count * sizeof(rational_scalar_type));
     for (dimn_t i = 0; i < count; ++i) {
-        const auto& backend = data->backend();
+        const auto& backend = data[i].backend();
 #if RPY_USING_GMP
         using helper_t = scalars::dtl::MPIntegerSerializationHelper<
             remove_pointer_t
@@ -162,15 +162,15 @@ dimn_t from_raw_bytes_impl(
 {
     auto advance = 1 + sizeof(uint64_t);
     const auto* src = bytes.data();
-    RPY_CHECK(bytes.size() > advance);
+    RPY_CHECK(bytes.size() >= advance);
 
     auto is_negative = static_cast<bool>(*(src++));
     uint64_t nbytes_large = 0;
     std::memcpy(&nbytes_large, src, sizeof(uint64_t));
     src += sizeof(uint64_t);
     auto nbytes = static_cast<dimn_t>(nbytes_large);
+    RPY_CHECK(bytes.size() - advance >= nbytes);
     advance += nbytes;
-    RPY_CHECK(bytes.size() > advance);
 
     dimn_t n_limbs = 0;
     if (nbytes > 0) {
@@ -211,6 +211,7 @@ void from_raw_bytes_impl(rational_scalar_type* dst,
         auto advance = from_raw_bytes_impl(num_helper, {src, remaining});
         src += advance;
         remaining -= advance;
+        offset += advance;
         advance = from_raw_bytes_impl(den_helper, {src, remaining});
         src += advance;
         remaining -= advance;
@@ -242,14 +243,15 @@ dimn_t from_raw_bytes_impl(monomial& value, Slice<const byte> bytes)
 {
     constexpr auto sizeof_idep = sizeof(typename indeterminate_type::packed_type) + sizeof(typename indeterminate_type::integral_type);
     constexpr auto sizeof_term = sizeof_idep + sizeof(lal::deg_t);
-    RPY_CHECK(bytes.size() > sizeof(uint64_t));
+    RPY_CHECK(bytes.size() >= sizeof(uint64_t));
     uint64_t size_large = 0;
     from_raw_bytes_impl(&size_large, 1, bytes);
     auto size = static_cast<dimn_t>(size_large);
 
-    RPY_CHECK(bytes.size() > size_large*sizeof_term + sizeof(uint64_t));
+    RPY_CHECK(bytes.size() >= size*sizeof_term + sizeof(uint64_t));
     const auto* src = bytes.data() + sizeof(uint64_t);
 
+    value = monomial();
     indeterminate_type tmp_idep(0, 0);
     lal::deg_t power = 0;
     for (dimn_t i=0; i<size; ++i) {
@@ -259,7 +261,7 @@ dimn_t from_raw_bytes_impl(monomial& value, Slice<const byte> bytes)
         src += sizeof_term;
     }
 
-    return size + sizeof(uint64_t);
+    return size * sizeof_term + sizeof(uint64_t);
 }
 
 dimn_t from_raw_bytes_impl_single(rational_poly_scalar& value, Slice<const byte> bytes)
-- 
2.43.0


From 5df8fecb848e08a4538e574ace9519f82b1dab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:11 +0000
Subject: [PATCH 056/111] fix: integer and empty scalar arrays can be read from
 an archive

---
 scalars/src/scalar_array.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index d977dd4..b36f8d6 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -446,13 +446,23 @@ void ScalarArray::from_raw_bytes(
 {
     RPY_CHECK(is_null());
     auto tp_o = scalar_type_of(info);
+    if (count == 0) {
+        // Nothing to allocate, but the type must survive
+        *this = tp_o ? ScalarArray(*tp_o)
+                     : ScalarArray(info, static_cast<const void*>(nullptr), 0);
+        return;
+    }
     if (tp_o) {
         *this = (*tp_o)->allocate(count);
     } else {
         p_type_and_mode
                 = type_pointer(info, dtl::ScalarArrayStorageModel::Owned);
         owned_buffer
-                = devices::get_host_device()->raw_alloc(count, info.alignment);
+                = devices::get_host_device()->raw_alloc(
+                        count * info.bytes,
+                        info.alignment
+                );
+        m_size = count;
     }
 
     dtl::from_raw_bytes(owned_buffer.ptr(), count, bytes, info);
-- 
2.43.0


From 5ede35bc24022aa17eefbfa4c916f53b3aafb90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:12 +0000
Subject: [PATCH 057/111] fix: reading a monomial replaces the terms already
 there

---
 scalars/include/roughpy/scalars/scalar_serialization.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalars/include/roughpy/scalars/scalar_serialization.h b/scalars/include/roughpy/scalars/scalar_serialization.h
index a499374..7816e39 100644
--- a/scalars/include/roughpy/scalars/scalar_serialization.h
+++ b/scalars/include/roughpy/scalars/scalar_serialization.h
@@ -312,6 +312,7 @@ RPY_SERIAL_EXT_LIB_LOAD_FN(::rpy::scalars::monomial)
     cereal::size_type count;
     RPY_SERIAL_SERIALIZE_SIZE(static_cast<cereal::size_type&>(count));
 
+    value = monomial();
     //    pair<indeterminate_type, deg_t> entry(indeterminate_type(0, 0), 0);
     indeterminate_type id(0, 0);
     deg_t degree;
-- 
2.43.0


From 6c07afd86ab7e0fe49428b9048a34897227b1913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:12 +0000
Subject: [PATCH 058/111] fix: sparse and unset algebra elements can be read
 from every archive

---
 .../roughpy/algebra/algebra_base_impl.h       | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/algebra/include/roughpy/algebra/algebra_base_impl.h b/algebra/include/roughpy/algebra/algebra_base_impl.h
index 54f400e..a24b55d 100644
--- a/algebra/include/roughpy/algebra/algebra_base_impl.h
+++ b/algebra/include/roughpy/algebra/algebra_base_impl.h
@@ -752,14 +752,13 @@ void AlgebraBase<Interface, Derived>::save(
             auto data = *this->dense_data();
             RPY_SERIAL_SERIALIZE_NVP("dense_data", data);
         } else {
-            auto sz = this->size();
-            RPY_SERIAL_SERIALIZE_SIZE(sz);
-
+            std::vector<std::pair<typename Interface::key_type, scalars::Scalar>>
+                    data;
+            data.reserve(this->size());
             for (auto&& item : *this) {
-                RPY_SERIAL_SERIALIZE_BARE(
-                        std::make_pair(item.key(), item.value())
-                );
+                data.emplace_back(item.key(), item.value());
             }
+            RPY_SERIAL_SERIALIZE_NVP("sparse_data", data);
         }
     }
 }
@@ -778,8 +777,6 @@ void AlgebraBase<Interface, Derived>::load(
     RPY_SERIAL_SERIALIZE_NVP("scalar_type_id", spec.stype_id);
     RPY_SERIAL_SERIALIZE_NVP("backend", spec.backend);
 
-    auto ctx = from_context_spec(spec);
-
     AlgebraType atype;
     RPY_SERIAL_SERIALIZE_NVP("algebra_type", atype);
 
@@ -789,7 +786,12 @@ void AlgebraBase<Interface, Derived>::load(
     bool has_values;
     RPY_SERIAL_SERIALIZE_VAL(has_values);
 
-    if (!has_values) { return; }
+    if (!has_values) {
+        p_impl.reset();
+        return;
+    }
+
+    auto ctx = from_context_spec(spec);
 
     if (vtype == VectorType::Dense) {
 
@@ -803,13 +805,11 @@ void AlgebraBase<Interface, Derived>::load(
                 dtl::try_create_new_empty(ctx, atype)
         );
 
-        serial::size_type size;
-        RPY_SERIAL_SERIALIZE_SIZE(size);
-
-        for (serial::size_type i = 0; i < size; ++i) {
-            std::pair<typename Interface::key_type, scalars::Scalar> val;
-            RPY_SERIAL_SERIALIZE_BARE(val);
-            p_impl->get_mut(val.first) = val.second;
+        std::vector<std::pair<typename Interface::key_type, scalars::Scalar>>
+                data;
+        RPY_SERIAL_SERIALIZE_NVP("sparse_data", data);
+        for (auto& item : data) {
+            p_impl->get_mut(item.first) = item.second;
         }
     }
 }
-- 
2.43.0


From bc45e0f794d80ca71c26c25c43dba11ebe845aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:12 +0000
Subject: [PATCH 059/111] fix: Brownian streams write their generator before
 the seed, as they are read

---
 streams/include/roughpy/streams/brownian_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/include/roughpy/streams/brownian_stream.h b/streams/include/roughpy/streams/brownian_stream.h
index e200321..f67dce0 100644
--- a/streams/include/roughpy/streams/brownian_stream.h
+++ b/streams/include/roughpy/streams/brownian_stream.h
@@ -92,8 +92,8 @@ RPY_SERIAL_SAVE_FN_IMPL(BrownianStream)
 //    auto md = metadata();
 //    RPY_SERIAL_SERIALIZE_NVP("metadata", md);
     std::string generator = p_generator->get_type();
-    RPY_SERIAL_SERIALIZE_NVP("seed", p_generator->get_seed());
     RPY_SERIAL_SERIALIZE_NVP("generator", generator);
+    RPY_SERIAL_SERIALIZE_NVP("seed", p_generator->get_seed());
     auto state = p_generator->get_state();
     RPY_SERIAL_SERIALIZE_NVP("state", state);
 
-- 
2.43.0


From 6fc010d0f29d09a0ace41a8679428d03983df3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:12 +0000
Subject: [PATCH 060/111] fix: every stream has its own cache file

---
 streams/include/roughpy/streams/dyadic_caching_layer.h | 3 ++-
 streams/src/dyadic_caching_layer.cpp                   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/streams/include/roughpy/streams/dyadic_caching_layer.h b/streams/include/roughpy/streams/dyadic_caching_layer.h
index 7b4ba6a..4213026 100644
--- a/streams/include/roughpy/streams/dyadic_caching_layer.h
+++ b/streams/include/roughpy/streams/dyadic_caching_layer.h
@@ -37,6 +37,7 @@
 
 #include <boost/interprocess/sync/file_lock.hpp>
 #include <boost/uuid/uuid.hpp>
+#include <boost/uuid/uuid_generators.hpp>
 
 #include "stream_base.h"
 
@@ -63,7 +64,7 @@ class ROUGHPY_STREAMS_EXPORT DyadicCachingLayer : public StreamInterface
     mutable std::map<intervals::DyadicInterval, algebra::Lie> m_cache;
     mutable std::recursive_mutex m_compute_lock;
 
-    uuids::uuid m_cache_id;
+    uuids::uuid m_cache_id = uuids::random_generator()();
 
 public:
     using StreamInterface::StreamInterface;
diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index 7aeed9b..b638372 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -71,6 +71,7 @@ DyadicCachingLayer::DyadicCachingLayer(DyadicCachingLayer&& other) noexcept
 {
     std::lock_guard<std::recursive_mutex> access(other.m_compute_lock);
     m_cache = std::move(other.m_cache);
+    m_cache_id = other.m_cache_id;
 }
 DyadicCachingLayer&
 DyadicCachingLayer::operator=(DyadicCachingLayer&& other) noexcept
@@ -79,6 +80,7 @@ DyadicCachingLayer::operator=(DyadicCachingLayer&& other) noexcept
         std::lock_guard<std::recursive_mutex> this_access(m_compute_lock);
         std::lock_guard<std::recursive_mutex> that_access(other.m_compute_lock);
         m_cache = std::move(other.m_cache);
+        m_cache_id = other.m_cache_id;
         StreamInterface::operator=(std::move(other));
     }
     return *this;
-- 
2.43.0


From 8141ca8cf7cf0efeaa7669025ba6c6fde81e61e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:12 +0000
Subject: [PATCH 061/111] fix: an unreadable stream cache file is ignored

---
 streams/src/dyadic_caching_layer.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index b638372..979f507 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -183,11 +183,17 @@ void DyadicCachingLayer::load_cache() const {
     }
 
 //    boost::interprocess::sharable_lock<boost::interprocess::file_lock> fs_access(m_file_lock);
-
-    std::ifstream file_stream(path);
-    archives::BinaryInputArchive iar(file_stream);
-
-    iar(m_cache);
+    // The cache only saves work: a file that cannot be read in full, such as
+    // one that was being written when the writer stopped, is ignored.
+    std::map<intervals::DyadicInterval, algebra::Lie> cache;
+    try {
+        std::ifstream file_stream(path);
+        archives::BinaryInputArchive iar(file_stream);
+        iar(cache);
+    } catch (const std::exception&) {
+        return;
+    }
+    m_cache = std::move(cache);
 }
 
 void DyadicCachingLayer::dump_cache() const {
-- 
2.43.0


From bdc388ac8561ad2d65b60547a6a69acc3c0930ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:12 +0000
Subject: [PATCH 062/111] fix: a stream that cannot be pickled raises instead
 of ending the process

---
 roughpy/src/streams/stream.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/streams/stream.cpp b/roughpy/src/streams/stream.cpp
index e801b6d..0b870d2 100644
--- a/roughpy/src/streams/stream.cpp
+++ b/roughpy/src/streams/stream.cpp
@@ -501,9 +501,12 @@ stream___getnewargs_ex__(PyObject* self, PyObject* RPY_UNUSED_VAR)
     PyObject* data;
 
     std::stringstream ss;
-    {
+    try {
         rpy::archives::BinaryOutputArchive oar(ss);
         oar(reinterpret_cast<python::RPyStream*>(self)->m_data);
+    } catch (const std::exception& exc) {
+        PyErr_SetString(PyExc_RuntimeError, exc.what());
+        return nullptr;
     }
 
     auto s = ss.str();
@@ -637,7 +640,7 @@ RPyStream_new(PyTypeObject* subtype, PyObject* args, PyObject* kwargs)
 
         // Ensure that the stream object is initialised in the data slot.
         construct_inplace<streams::Stream>(&self->m_data);
-        {
+        try {
             std::string raw(
                     PyByteArray_AS_STRING(pybuff),
                     PyByteArray_GET_SIZE(pybuff)
@@ -645,6 +648,10 @@ RPyStream_new(PyTypeObject* subtype, PyObject* args, PyObject* kwargs)
             std::stringstream ss(raw);
             rpy::archives::BinaryInputArchive iar(ss);
             iar(self->m_data);
+        } catch (const std::exception& exc) {
+            Py_DECREF(self);
+            PyErr_SetString(PyExc_RuntimeError, exc.what());
+            return nullptr;
         }
 
         return reinterpret_cast<PyObject*>(self);
-- 
2.43.0


From b9126fb20446f26631dd3559847125073bc940b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:12 +0000
Subject: [PATCH 063/111] fix: polynomial scalars can be pickled

---
 roughpy/src/scalars/r_py_polynomial.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index b9f1be2..372de72 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -346,7 +346,7 @@ polynomial___getstate__(PyObject* self, PyObject* RPY_UNUSED_VAR)
     std::stringstream ss;
     {
         archives::PortableBinaryOutputArchive oa(ss);
-        oa(cast_mon(self));
+        oa(cast_poly(self));
     }
 
     string data(std::move(ss).str());
@@ -367,7 +367,7 @@ static PyObject* polynomial___setstate__(PyObject* self, PyObject* args)
     {
         std::istringstream ss(sdata);
         archives::PortableBinaryInputArchive ia(ss);
-        ia(cast_mon(self));
+        ia(cast_poly(self));
     }
 
     Py_RETURN_NONE;
@@ -431,7 +431,7 @@ static PyNumberMethods RPyPolynomial_number{
 
 PyTypeObject RPyPolynomial_Type = {
         PyVarObject_HEAD_INIT(nullptr, 0)      //
-        "roughpy.Polynomial",                  /* tp_name */
+        "roughpy.PolynomialScalar",            /* tp_name */
         sizeof(RPyPolynomial),                 /* tp_basicsize */
         0,                                     /* tp_itemsize */
         nullptr,                               /* tp_dealloc */
@@ -1226,8 +1226,8 @@ PyObject* polynomial_new(PyTypeObject* type, PyObject* args, PyObject* kwargs)
         Py_DECREF(py_scalar);
 
         if (scal != 0) { result = poly_t(mon, scal); }
-    } else {
-        PyErr_SetString(PyExc_ValueError, "execpted one or 2 arguments");
+    } else if (nargs != 0) {
+        PyErr_SetString(PyExc_ValueError, "expected at most 2 arguments");
         return nullptr;
     }
 
-- 
2.43.0


From d5fbfdadeb7bee1e1572d90f18b3c55f19ecad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:10 +0000
Subject: [PATCH 064/111] fix: offsets of strided iterators count elements, not
 memory positions

---
 roughpy_compute/dense/views.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/roughpy_compute/dense/views.hpp b/roughpy_compute/dense/views.hpp
index 37435c9..abff96e 100644
--- a/roughpy_compute/dense/views.hpp
+++ b/roughpy_compute/dense/views.hpp
@@ -99,7 +99,7 @@ public:
         StridedDenseIterator const& iter,
         difference_type offset) noexcept
     {
-        return {iter.base_, iter.stride_, offset};
+        return {iter.base_, iter.stride_, offset * iter.stride_};
     }
 
     [[nodiscard]]
@@ -107,7 +107,7 @@ public:
         difference_type offset,
         StridedDenseIterator const& iter) noexcept
     {
-        return {iter.base_, iter.stride_, offset};
+        return {iter.base_, iter.stride_, offset * iter.stride_};
     }
 
     [[nodiscard]]
@@ -115,7 +115,7 @@ public:
         StridedDenseIterator const& iter,
         difference_type offset) noexcept
     {
-        return {iter.base_, iter.stride_, -offset};
+        return {iter.base_, iter.stride_, -offset * iter.stride_};
     }
 
     friend constexpr difference_type operator-(StridedDenseIterator const& lhs,
-- 
2.43.0


From c702613199da125ecaa1274e6127b1c37e266795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:10 +0000
Subject: [PATCH 065/111] fix: the antipode of a tensor of depth 0 does not
 touch degree 1

---
 roughpy_compute/dense/basic/free_tensor_antipode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy_compute/dense/basic/free_tensor_antipode.hpp b/roughpy_compute/dense/basic/free_tensor_antipode.hpp
index 4a8187d..12bb456 100644
--- a/roughpy_compute/dense/basic/free_tensor_antipode.hpp
+++ b/roughpy_compute/dense/basic/free_tensor_antipode.hpp
@@ -69,7 +69,7 @@ void ft_antipode(
 
     // The level one elements are mapped to the corresponding level one
     // elements, with signing
-    if (min_degree <= 1) {
+    if (min_degree <= 1 && max_degree >= 1) {
         signer.for_degree(1);
         auto arg_level = arg.at_level(1);
         auto out_level = out.at_level(1);
-- 
2.43.0


From 2768919b3b6e082f99632ebeb447bd1f08d18b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:10 +0000
Subject: [PATCH 066/111] fix: the adjoint of left multiplication covers every
 degree of its operands

---
 roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp b/roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp
index ea523ea..3acf1e7 100644
--- a/roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp
+++ b/roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp
@@ -39,8 +39,8 @@ void ft_adj_lmul(DenseTensorView<OutIter> out,
      * as those operations do.
      */
 
-    const auto arg_max_degree = std::min(arg.max_degree() - op.min_degree(), out.max_degree());
-    auto arg_min_degree = std::max(arg.min_degree() - op.max_degree(), out.min_degree());
+    const auto arg_max_degree = std::min(arg.max_degree(), op.max_degree() + out.max_degree());
+    auto arg_min_degree = std::max(arg.min_degree(), op.min_degree() + out.min_degree());
 
     for (Degree arg_degree = arg_max_degree; arg_degree >= arg_min_degree; --
          arg_degree)
-- 
2.43.0


From 819a3ec067dfc340a3ad65a643374bf7e6821454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:10 +0000
Subject: [PATCH 067/111] fix: shuffle products respect the degrees of each
 operand

---
 .../dense/basic/shuffle_tensor_product.hpp            | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/roughpy_compute/dense/basic/shuffle_tensor_product.hpp b/roughpy_compute/dense/basic/shuffle_tensor_product.hpp
index c67a37d..1f7f87b 100644
--- a/roughpy_compute/dense/basic/shuffle_tensor_product.hpp
+++ b/roughpy_compute/dense/basic/shuffle_tensor_product.hpp
@@ -43,7 +43,11 @@ void st_fma(
     out[0] += op(lhs[0] * rhs[0]);
     Index out_size = width;
 
-    for (Degree out_deg = 1; out_deg <= lhs.max_degree(); ++out_deg) {
+    auto const max_degree = std::min(
+            out.max_degree(),
+            lhs.max_degree() + rhs.max_degree()
+    );
+    for (Degree out_deg = 1; out_deg <= max_degree; ++out_deg) {
         auto out_level = out.at_level(out_deg);
 
         for (Index i = 0; i < out_size; ++i) {
@@ -74,6 +78,11 @@ void st_fma(
                         rhs_idx
                 );
 
+                if (lhs_degree > lhs.max_degree()
+                    || rhs_degree > rhs.max_degree()) {
+                    continue;
+                }
+
                 auto lhs_level = lhs.at_level(lhs_degree);
                 auto rhs_level = rhs.at_level(rhs_degree);
                 acc += lhs_level[lhs_idx] * rhs_level[rhs_idx];
-- 
2.43.0


From f95a4067ecd2ab57d1a4a450dd34f9592e6d7227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:10 +0000
Subject: [PATCH 068/111] fix: the adjoint of shuffle multiplication respects
 the degrees of each operand

---
 roughpy_compute/dense/basic/shuffle_tensor_adjoint_mul.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/roughpy_compute/dense/basic/shuffle_tensor_adjoint_mul.hpp b/roughpy_compute/dense/basic/shuffle_tensor_adjoint_mul.hpp
index 3faea96..e831f13 100644
--- a/roughpy_compute/dense/basic/shuffle_tensor_adjoint_mul.hpp
+++ b/roughpy_compute/dense/basic/shuffle_tensor_adjoint_mul.hpp
@@ -22,7 +22,7 @@ void st_adj_mul(
 
     using Mask = BitMask<Index>;
 
-    CacheArray<int16_t, 32> letters(out.max_degree());
+    CacheArray<int16_t, 32> letters(arg.max_degree());
     const Index width = out.width();
 
     for (Degree func_degree = 0; func_degree <= arg.max_degree(); ++func_degree) {
@@ -56,6 +56,11 @@ void st_adj_mul(
                     out_degree,
                     out_idx);
 
+                if (op_degree > op.max_degree()
+                    || out_degree > out.max_degree()) {
+                    continue;
+                }
+
                 auto op_level = op.at_level(op_degree);
                 auto out_level = out.at_level(out_degree);
 
-- 
2.43.0


From 08c98a02f9a4b8af48e84c6ce2f1f48ee8d15c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:22 +0000
Subject: [PATCH 069/111] fix: roughpy.compute operations use the depth of each
 operand

---
 roughpy/compute/__init__.py                 | 21 +++++++++++++--------
 roughpy/compute/_src/dense_basic.cpp        | 11 ++++++++---
 roughpy/compute/_src/dense_intermediate.cpp | 12 ++++++------
 3 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/roughpy/compute/__init__.py b/roughpy/compute/__init__.py
index 4861b53..d57b83f 100644
--- a/roughpy/compute/__init__.py
+++ b/roughpy/compute/__init__.py
@@ -142,7 +142,8 @@ def ft_fma(a: FreeTensor, b: FreeTensor, c: FreeTensor, **kwargs):
 
     # In the future, we will need to handle alternative prototype tensors here.
 
-    _internals.dense_ft_fma(a.data, b.data, c.data, b.basis, c.basis.depth)
+    _internals.dense_ft_fma(a.data, b.data, c.data, a.basis,
+                            lhs_depth=b.basis.depth, rhs_depth=c.basis.depth)
 
 
 @_api("1.0.0")
@@ -181,7 +182,7 @@ def ft_inplace_mul(a: FreeTensor, b: FreeTensor, **kwargs):
 
     # In the future, we need to handle alternative prototype tensors here.
 
-    _internals.dense_ft_inplace_mul(a.data, b.data, a.basis, b.basis.depth)
+    _internals.dense_ft_inplace_mul(a.data, b.data, a.basis, rhs_depth=b.basis.depth)
 
 
 @_api("1.0.0")
@@ -211,7 +212,8 @@ def st_fma(a: ShuffleTensor, b: ShuffleTensor, c: ShuffleTensor) -> ShuffleTenso
     """
     _check_basis_compat(a.basis, b.basis, c.basis)
 
-    _internals.dense_st_fma(a.data, b.data, c.data, a.basis)
+    _internals.dense_st_fma(a.data, b.data, c.data, a.basis,
+                            lhs_depth=b.basis.depth, rhs_depth=c.basis.depth)
 
     return a
 
@@ -227,7 +229,8 @@ def st_mul(lhs: ShuffleTensor, rhs: ShuffleTensor) -> ShuffleTensor:
     _check_basis_compat(lhs.basis, rhs.basis)
 
     result_data = np.zeros_like(lhs.data)
-    _internals.dense_st_fma(result_data, lhs.data, rhs.data, lhs.basis)
+    _internals.dense_st_fma(result_data, lhs.data, rhs.data, lhs.basis,
+                            rhs_depth=rhs.basis.depth)
 
     return ShuffleTensor(result_data, lhs.basis)
 
@@ -253,7 +256,7 @@ def ft_exp(x: FreeTensor, out_basis: TensorBasis | None = None) -> FreeTensor:
 
     result = np.zeros(shape, dtype=dtype)
 
-    _internals.dense_ft_exp(result, x.data, out_basis)
+    _internals.dense_ft_exp(result, x.data, out_basis, arg_depth=x.basis.depth)
 
     return FreeTensor(result, out_basis)
 
@@ -279,7 +282,7 @@ def ft_log(x: FreeTensor, out_basis: TensorBasis | None = None) -> FreeTensor:
 
     result = np.zeros(shape, dtype=dtype)
 
-    _internals.dense_ft_log(result, x.data, out_basis)
+    _internals.dense_ft_log(result, x.data, out_basis, arg_depth=x.basis.depth)
 
     return FreeTensor(result, out_basis)
 
@@ -307,7 +310,9 @@ def ft_fmexp(multiplier: FreeTensor, exponent: FreeTensor, out_basis: TensorBasi
 
     result = np.zeros(shape, dtype=dtype)
 
-    _internals.dense_ft_fmexp(result, multiplier.data, exponent.data, out_basis)
+    _internals.dense_ft_fmexp(result, multiplier.data, exponent.data, out_basis,
+                              multiplier_depth=multiplier.basis.depth,
+                              exponent_depth=exponent.basis.depth)
 
     return FreeTensor(result, out_basis)
 
@@ -333,7 +338,7 @@ def ft_adjoint_left_mul(op: FreeTensor, arg: ShuffleTensor) -> ShuffleTensor:
     result = np.zeros_like(arg.data)
 
     _internals.dense_ft_adjoint_left_mul(
-        result, op.data, arg.data, op.basis, arg.basis.depth, op.basis.depth, arg.basis.depth)
+        result, op.data, arg.data, arg.basis, arg.basis.depth, op.basis.depth, arg.basis.depth)
 
     return ShuffleTensor(result, arg.basis)
 
diff --git a/roughpy/compute/_src/dense_basic.cpp b/roughpy/compute/_src/dense_basic.cpp
index de8826d..0533e12 100644
--- a/roughpy/compute/_src/dense_basic.cpp
+++ b/roughpy/compute/_src/dense_basic.cpp
@@ -314,6 +314,7 @@ PyObject* py_dense_antipode(
                 &out_obj,
                 &arg_obj,
                 &basis_obj,
+                &degree_bounds[0].max_degree,
                 &degree_bounds[1].max_degree
         )) {
         return nullptr;
@@ -492,7 +493,8 @@ struct DenseSTFma
 PyObject* py_dense_st_fma(PyObject* Py_UNUSED(self), PyObject* args, PyObject* kwargs)
 {
     static constexpr char const* const kwords[] = {
-        "out", "lhs", "rhs", "basis", nullptr
+        "out", "lhs", "rhs", "basis",
+        "out_depth", "lhs_depth", "rhs_depth", nullptr
     };
 
     PyObject* out_obj, *lhs_obj, *rhs_obj;
@@ -502,12 +504,15 @@ PyObject* py_dense_st_fma(PyObject* Py_UNUSED(self), PyObject* args, PyObject* k
 
     if (!PyArg_ParseTupleAndKeywords(
         args, kwargs,
-        "OOOO",
+        "OOOO|iii",
         RPY_PY_KWORD_CAST(kwords),
         &out_obj,
         &lhs_obj,
         &rhs_obj,
-        &basis_obj
+        &basis_obj,
+        &degree_bounds[0].max_degree,
+        &degree_bounds[1].max_degree,
+        &degree_bounds[2].max_degree
         )) {
         return nullptr;
     }
diff --git a/roughpy/compute/_src/dense_intermediate.cpp b/roughpy/compute/_src/dense_intermediate.cpp
index f2743cb..ea4e355 100644
--- a/roughpy/compute/_src/dense_intermediate.cpp
+++ b/roughpy/compute/_src/dense_intermediate.cpp
@@ -49,8 +49,8 @@ struct DenseFTExp {
         DenseTensorView<ArgIter> arg(
                 arg_iter,
                 *basis,
-                config_->degree_bounds[0].min_degree,
-                config_->degree_bounds[0].max_degree
+                config_->degree_bounds[1].min_degree,
+                config_->degree_bounds[1].max_degree
         );
 
         intermediate::ft_exp(out, arg);
@@ -134,14 +134,14 @@ struct FtFMExp {
         DenseTensorView<AIter> a(
                 a_iter,
                 *basis,
-                config_->degree_bounds[0].min_degree,
-                config_->degree_bounds[0].max_degree
+                config_->degree_bounds[1].min_degree,
+                config_->degree_bounds[1].max_degree
         );
         DenseTensorView<XIter> x(
                 x_iter,
                 *basis,
-                config_->degree_bounds[0].min_degree,
-                config_->degree_bounds[0].max_degree
+                config_->degree_bounds[2].min_degree,
+                config_->degree_bounds[2].max_degree
         );
 
         intermediate::ft_fmexp(out, a, x);
-- 
2.43.0


From 150b4125ccf3665d8c214edcff563347d50c173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:22 +0000
Subject: [PATCH 070/111] fix: roughpy.compute operations accept arrays with
 negative strides

---
 roughpy/compute/_src/py_binary_array_fn.hpp  | 4 ++--
 roughpy/compute/_src/py_ternary_array_fn.hpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/roughpy/compute/_src/py_binary_array_fn.hpp b/roughpy/compute/_src/py_binary_array_fn.hpp
index 007b243..acb5c91 100644
--- a/roughpy/compute/_src/py_binary_array_fn.hpp
+++ b/roughpy/compute/_src/py_binary_array_fn.hpp
@@ -38,8 +38,8 @@ PyObject *outer_loop_binary(
         }
     };
 
-    auto const out_stride = PyArray_STRIDE(out, ndims - 1) / sizeof(Scalar);
-    auto const arg_stride = PyArray_STRIDE(arg, ndims - 1) / sizeof(Scalar);
+    auto const out_stride = PyArray_STRIDE(out, ndims - 1) / static_cast<npy_intp>(sizeof(Scalar));
+    auto const arg_stride = PyArray_STRIDE(arg, ndims - 1) / static_cast<npy_intp>(sizeof(Scalar));
 
     for (npy_intp i = 0; i < n_elements; ++i, advance()) {
         auto *out_ptr = static_cast<Scalar *>(PyArray_GetPtr(out, index.data()));
diff --git a/roughpy/compute/_src/py_ternary_array_fn.hpp b/roughpy/compute/_src/py_ternary_array_fn.hpp
index fc395a3..18cd9a5 100644
--- a/roughpy/compute/_src/py_ternary_array_fn.hpp
+++ b/roughpy/compute/_src/py_ternary_array_fn.hpp
@@ -38,9 +38,9 @@ PyObject *outer_loop_ternary(
         }
     };
 
-    auto const out_stride = PyArray_STRIDE(out, ndims - 1) / sizeof(Scalar);
-    auto const lhs_stride = PyArray_STRIDE(lhs, ndims - 1) / sizeof(Scalar);
-    auto const rhs_stride = PyArray_STRIDE(rhs, ndims - 1) / sizeof(Scalar);
+    auto const out_stride = PyArray_STRIDE(out, ndims - 1) / static_cast<npy_intp>(sizeof(Scalar));
+    auto const lhs_stride = PyArray_STRIDE(lhs, ndims - 1) / static_cast<npy_intp>(sizeof(Scalar));
+    auto const rhs_stride = PyArray_STRIDE(rhs, ndims - 1) / static_cast<npy_intp>(sizeof(Scalar));
 
     for (npy_intp i = 0; i < n_elements; ++i, advance()) {
         auto *out_ptr = static_cast<Scalar *>(PyArray_GetPtr(out, index.data()));
-- 
2.43.0


From bd097e2670fb86d66c0d432a506a944e8c647548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:22 +0000
Subject: [PATCH 071/111] fix: roughpy.compute operations refuse arrays that
 are too small or cannot be accessed directly

---
 roughpy/compute/_src/check_dims.hpp          | 33 ++++++++++++++++++++
 roughpy/compute/_src/dense_basic.cpp         |  2 ++
 roughpy/compute/_src/py_binary_array_fn.hpp  |  7 +++++
 roughpy/compute/_src/py_ternary_array_fn.hpp |  9 ++++++
 4 files changed, 51 insertions(+)

diff --git a/roughpy/compute/_src/check_dims.hpp b/roughpy/compute/_src/check_dims.hpp
index 704e2b3..b1ab005 100644
--- a/roughpy/compute/_src/check_dims.hpp
+++ b/roughpy/compute/_src/check_dims.hpp
@@ -3,6 +3,8 @@
 
 #include <roughpy/pycore/py_headers.h>
 
+#include "call_config.hpp"
+
 namespace rpy::compute {
 
 [[gnu::always_inline]] inline
@@ -20,6 +22,37 @@ bool check_dims(npy_intp const* shape1,
     return true;
 }
 
+/// The kernels read and write the memory of arrays directly, so it has to be
+/// aligned, in native byte order, and writeable if it is written.
+inline bool check_memory(PyArrayObject* arr, bool is_output, char const* name)
+{
+    if (!PyArray_ISBEHAVED_RO(arr)) {
+        PyErr_Format(PyExc_ValueError,
+                     "%s must be aligned and in native byte order", name);
+        return false;
+    }
+    return !is_output || PyArray_FailUnlessWriteable(arr, name) == 0;
+}
+
+/// Check that the last dimension holds an element of the basis
+inline bool check_size(PyArrayObject* arr,
+                       CallConfig const& config,
+                       npy_intp arg_no,
+                       npy_intp basis_no,
+                       char const* name)
+{
+    auto const degree = config.degree_bounds[arg_no].max_degree;
+    auto const required = config.basis_data[basis_no]->degree_begin[degree + 1];
+    auto const size = PyArray_DIM(arr, PyArray_NDIM(arr) - 1);
+    if (size < required) {
+        PyErr_Format(PyExc_ValueError,
+                     "last dimension of %s is %zd but the basis has %zd elements",
+                     name, size, required);
+        return false;
+    }
+    return true;
+}
+
 } // namespace rpy::compute
 
 #endif //ROUGHPY_COMPUTE__SRC_CHECK_DIMS_HPP
diff --git a/roughpy/compute/_src/dense_basic.cpp b/roughpy/compute/_src/dense_basic.cpp
index 0533e12..79d64a0 100644
--- a/roughpy/compute/_src/dense_basic.cpp
+++ b/roughpy/compute/_src/dense_basic.cpp
@@ -953,6 +953,7 @@ PyObject* py_dense_lie_to_tensor(
         return nullptr;
     }
     auto* out_arr = reinterpret_cast<PyArrayObject*>(out_obj);
+    if (!check_memory(out_arr, true, "out")) { return nullptr; }
 
     const auto n_dims = PyArray_NDIM(out_arr);
     const auto dtype = PyArray_TYPE(out_arr);
@@ -1207,6 +1208,7 @@ PyObject* py_dense_tensor_to_lie(
         return nullptr;
     }
     auto* out_arr = reinterpret_cast<PyArrayObject*>(out_obj);
+    if (!check_memory(out_arr, true, "out")) { return nullptr; }
 
     const auto n_dims = PyArray_NDIM(out_arr);
     const auto dtype = PyArray_TYPE(out_arr);
diff --git a/roughpy/compute/_src/py_binary_array_fn.hpp b/roughpy/compute/_src/py_binary_array_fn.hpp
index acb5c91..f3057b2 100644
--- a/roughpy/compute/_src/py_binary_array_fn.hpp
+++ b/roughpy/compute/_src/py_binary_array_fn.hpp
@@ -128,6 +128,13 @@ PyObject *binary_function_outer(PyObject *out_obj,
         return nullptr;
     }
 
+    if (!check_memory(out_arr, true, "out")
+        || !check_size(out_arr, config, 0, Fn<float>::arg_basis_mapping[0], "out")
+        || !check_memory(arg_arr, false, "arg")
+        || !check_size(arg_arr, config, 1, Fn<float>::arg_basis_mapping[1], "arg")) {
+        return nullptr;
+    }
+
     switch (dtype) {
         case NPY_FLOAT64: return outer_loop_binary(
                 out_arr,
diff --git a/roughpy/compute/_src/py_ternary_array_fn.hpp b/roughpy/compute/_src/py_ternary_array_fn.hpp
index 18cd9a5..c3b4ea8 100644
--- a/roughpy/compute/_src/py_ternary_array_fn.hpp
+++ b/roughpy/compute/_src/py_ternary_array_fn.hpp
@@ -142,6 +142,15 @@ PyObject *ternary_function_outer(PyObject *out_obj [[maybe_unused]],
         return nullptr;
     }
 
+    if (!check_memory(out_arr, true, "out")
+        || !check_size(out_arr, config, 0, Fn<float>::arg_basis_mapping[0], "out")
+        || !check_memory(lhs_arr, false, "lhs")
+        || !check_size(lhs_arr, config, 1, Fn<float>::arg_basis_mapping[1], "lhs")
+        || !check_memory(rhs_arr, false, "rhs")
+        || !check_size(rhs_arr, config, 2, Fn<float>::arg_basis_mapping[2], "rhs")) {
+        return nullptr;
+    }
+
     switch (dtype) {
         case NPY_FLOAT64: return outer_loop_ternary(
                 out_arr,
-- 
2.43.0


From f95f33dc845d634b7d3277abc8c7a88b5391ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:22 +0000
Subject: [PATCH 072/111] fix: truncated tensor bases hash as their equals,
 degree_begin of tensor bases is checked

---
 roughpy/compute/_src/tensor_basis.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/roughpy/compute/_src/tensor_basis.c b/roughpy/compute/_src/tensor_basis.c
index 84bfb47..852547e 100644
--- a/roughpy/compute/_src/tensor_basis.c
+++ b/roughpy/compute/_src/tensor_basis.c
@@ -98,7 +98,7 @@ tensor_basis_init(PyTensorBasis* self, PyObject* args, PyObject* kwargs)
         }
 
         npy_intp size = PyArray_DIM(arr, 0);
-        if (size >= 2 && size < self->depth + 2) {
+        if (size < 2 || size < self->depth + 2) {
             PyErr_SetString(
                     PyExc_ValueError,
                     "degree begin array must be at least depth+2 elements"
@@ -114,7 +114,7 @@ tensor_basis_init(PyTensorBasis* self, PyObject* args, PyObject* kwargs)
             );
             return -1;
         }
-        if (self->depth >= 1 && data[1] - 1) {
+        if (self->depth >= 1 && data[2] - data[1] != self->width) {
             PyErr_SetString(PyExc_ValueError, "data[2] must match the width");
             return -1;
         }
@@ -195,6 +195,7 @@ tensor_basis_truncate(PyObject* self, PyObject* args, PyObject* kwargs)
             = (PyTensorBasis*) PyType_GenericAlloc(PyTensorBasis_Type, 0);
     if (new_obj == NULL) { return NULL; }
 
+    new_obj->cached_hash = -1;
     new_obj->width = self_->width;
     new_obj->depth = new_depth;
 
-- 
2.43.0


From 85c691c5c8482497d73a97ebfb524bd74905e479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:22 +0000
Subject: [PATCH 073/111] fix: Lie bases of depth 0 are fully initialised

---
 roughpy/compute/_src/lie_basis.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/roughpy/compute/_src/lie_basis.c b/roughpy/compute/_src/lie_basis.c
index f0bff17..018c117 100644
--- a/roughpy/compute/_src/lie_basis.c
+++ b/roughpy/compute/_src/lie_basis.c
@@ -239,6 +239,7 @@ static int construct_lie_basis(PyLieBasis* self)
     Py_BEGIN_ALLOW_THREADS;
     // Only the "god element" has degree 0
     db_ptr[0] = 0;
+    db_ptr[1] = 1;
 
     // The "god element" is the first
     data_ptr[0] = 0;
@@ -248,8 +249,6 @@ static int construct_lie_basis(PyLieBasis* self)
     if (self->depth > 0) {
 
         // letters start at index 1
-        db_ptr[1] = 1;
-
         for (npy_intp letter = 1; letter <= self->width; ++letter) {
             data_ptr[2 * letter] = 0;         // data[letter, 0]
             data_ptr[2 * letter + 1] = letter;// data[letter, 1]
-- 
2.43.0


From 31f503e0df85dc9ea9bf1ed085c842d3dbf85226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:29 +0000
Subject: [PATCH 074/111] fix: Lie bases given as data have products of their
 own

---
 roughpy/compute/_src/lie_basis.c              |  7 +++-
 .../compute/_src/lie_multiplication_cache.cpp | 38 +++++++++++++++++++
 .../compute/_src/lie_multiplication_cache.h   |  9 +++++
 3 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/roughpy/compute/_src/lie_basis.c b/roughpy/compute/_src/lie_basis.c
index 018c117..e11406b 100644
--- a/roughpy/compute/_src/lie_basis.c
+++ b/roughpy/compute/_src/lie_basis.c
@@ -483,7 +483,12 @@ static int lie_basis_init(PyLieBasis* self, PyObject* args, PyObject* kwargs)
         Py_XDECREF(tmp);
     }
 
-    PyObject* lmc = get_lie_multiplication_cache(self);
+    // Products are shared between the standard bases of the same width, where
+    // a key stands for the same element at every depth. The keys of other bases
+    // have meanings of their own.
+    PyObject* lmc = (data == NULL || degree_begin == NULL)
+            ? get_lie_multiplication_cache(self)
+            : new_lie_multiplication_cache(self);
     if (lmc == NULL) {
         PyErr_SetString(
                 PyExc_RuntimeError,
diff --git a/roughpy/compute/_src/lie_multiplication_cache.cpp b/roughpy/compute/_src/lie_multiplication_cache.cpp
index 1df0a99..dc6f159 100644
--- a/roughpy/compute/_src/lie_multiplication_cache.cpp
+++ b/roughpy/compute/_src/lie_multiplication_cache.cpp
@@ -140,6 +140,8 @@ PyObject* PyLieMultiplicationCache_new(const int32_t width)
     return reinterpret_cast<PyObject*>(lmc);
 }
 
+static LieCacheEntryPtr new_entry(npy_intp size);
+
 PyObject* get_lie_multiplication_cache(PyLieBasis* basis)
 {
     // PyObject* rpc_internals
@@ -175,6 +177,42 @@ finish:
     return cache;
 }
 
+PyObject* new_lie_multiplication_cache(PyLieBasis* basis)
+{
+    PyObject* obj = PyLieMultiplicationCache_new(PyLieBasis_width(basis));
+    if (obj == nullptr) { return nullptr; }
+
+    auto* lmc = reinterpret_cast<PyLieMultiplicationCache*>(obj);
+    try {
+        const auto true_size = PyLieBasis_true_size(basis);
+        for (npy_intp key = 1; key < true_size; ++key) {
+            LieWord parents;
+            if (PyLieBasis_get_parents(basis, key, &parents) < 0) {
+                Py_DECREF(obj);
+                return nullptr;
+            }
+            // letters are not products
+            if (parents.letters[0] == 0) { continue; }
+
+            auto entry = new_entry(1);
+            if (!entry) {
+                Py_DECREF(obj);
+                return nullptr;
+            }
+            entry->word = parents;
+            entry->data[0] = key;
+            entry->data[1] = 1;
+            lmc->cache[parents] = std::move(entry);
+        }
+    } catch (...) {
+        Py_DECREF(obj);
+        PyErr_NoMemory();
+        return nullptr;
+    }
+
+    return obj;
+}
+
 static inline int compute_bracket_half(
         PyLieMultiplicationCache* cache,
         PyLieBasis* basis,
diff --git a/roughpy/compute/_src/lie_multiplication_cache.h b/roughpy/compute/_src/lie_multiplication_cache.h
index e4f4535..a627e85 100644
--- a/roughpy/compute/_src/lie_multiplication_cache.h
+++ b/roughpy/compute/_src/lie_multiplication_cache.h
@@ -25,6 +25,15 @@ PyObject* PyLieMultiplicationCache_new(int32_t width);
 RPY_NO_EXPORT
 PyObject* get_lie_multiplication_cache(PyLieBasis* basis);
 
+/**
+ * @brief Create a multiplication cache for a single basis
+ *
+ * The products that belong to the basis are entered into the new cache, so they
+ * are found no matter how the elements of each degree are ordered.
+ */
+RPY_NO_EXPORT
+PyObject* new_lie_multiplication_cache(PyLieBasis* basis);
+
 
 const LieMultiplicationCacheEntry*
 PyLieMultiplicationCache_get(PyLieMultiplicationCache* cache,
-- 
2.43.0


From afc946992680ef919f281ceac76c9497a8c9435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:29 +0000
Subject: [PATCH 075/111] fix: looking up a word of a Lie basis does not read
 past its last element

---
 roughpy/compute/_src/lie_basis.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/roughpy/compute/_src/lie_basis.c b/roughpy/compute/_src/lie_basis.c
index e11406b..fb59451 100644
--- a/roughpy/compute/_src/lie_basis.c
+++ b/roughpy/compute/_src/lie_basis.c
@@ -709,10 +709,9 @@ npy_intp PyLieBasis_find_word(
         }
     }
 
-    get_basis_word(basis, pos, &test_word);
-    if (pos < degree_end
-        && hall_word_equal(test_word.letters, target->letters)) {
-        return pos;
+    if (pos < degree_end) {
+        get_basis_word(basis, pos, &test_word);
+        if (hall_word_equal(test_word.letters, target->letters)) { return pos; }
     }
 
     return -1;
-- 
2.43.0


From c07056a03c99f8c5a94a8ff8b2157f2d5eb0590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:30 +0000
Subject: [PATCH 076/111] fix: Lie map matrices refuse unsupported dtypes

---
 roughpy/compute/_src/lie_basis.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/roughpy/compute/_src/lie_basis.c b/roughpy/compute/_src/lie_basis.c
index fb59451..bad9778 100644
--- a/roughpy/compute/_src/lie_basis.c
+++ b/roughpy/compute/_src/lie_basis.c
@@ -952,6 +952,13 @@ finish:
     return ret;
 }
 
+static int is_supported_dtype(const PyArray_Descr* dtype)
+{
+    return PyDataType_ISNOTSWAPPED(dtype)
+            && (dtype->type_num == NPY_FLOAT || dtype->type_num == NPY_DOUBLE
+                || dtype->type_num == NPY_LONGDOUBLE);
+}
+
 PyObject* get_l2t_matrix(PyObject* basis, PyObject* dtype_obj)
 {
     if (!PyLieBasis_Check(basis)) {
@@ -968,7 +975,7 @@ PyObject* get_l2t_matrix(PyObject* basis, PyObject* dtype_obj)
     // so set l2t NULL here to make that make sense.
     PyObject* l2t = NULL;
 
-    if (!PyDataType_ISFLOAT(dtype)) {
+    if (!is_supported_dtype(dtype)) {
         PyErr_SetString(
                 PyExc_TypeError,
                 "only floating point data types are supported"
@@ -1263,20 +1270,33 @@ PyObject* get_t2l_matrix(PyObject* basis, PyObject* dtype_obj)
     PyArray_Descr* dtype = NULL;
     if (!PyArray_DescrConverter(dtype_obj, &dtype)) { return NULL; }
 
-    PyObject* t2l = PyDict_GetItem(self->t2l, (PyObject*) dtype);
+    // As above, dtype has to be released when we're done
+    PyObject* t2l = NULL;
+
+    if (!is_supported_dtype(dtype)) {
+        PyErr_SetString(
+                PyExc_TypeError,
+                "only floating point data types are supported"
+        );
+        goto finish;
+    }
+
+    t2l = PyDict_GetItem(self->t2l, (PyObject*) dtype);
     if (t2l) {
         // We already have it, return the cached t2l map
         Py_INCREF(t2l);
-        return t2l;
+        goto finish;
     }
 
     // construct a new map and insert it into the t2l dict
-    t2l = construct_new_t2l(self, (PyArray_Descr*) dtype);
-    if (t2l == NULL) { return NULL; }
+    t2l = construct_new_t2l(self, dtype);
+    if (t2l == NULL) { goto finish; }
 
-    Py_INCREF(t2l);
+    // SetItem does not steal a reference to dtype or val.
     PyDict_SetItem(self->t2l, (PyObject*) dtype, t2l);
 
+finish:
+    Py_DECREF(dtype);
     return t2l;
 }
 
-- 
2.43.0


From a685cf10eb8db9aa4242c885862ec4344cd0a30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:30 +0000
Subject: [PATCH 077/111] fix: the check of Lie basis data enforces the Hall
 rules

---
 roughpy/compute/_src/lie_basis.c | 71 ++++++++++++++++++++++++++++----
 1 file changed, 64 insertions(+), 7 deletions(-)

diff --git a/roughpy/compute/_src/lie_basis.c b/roughpy/compute/_src/lie_basis.c
index bad9778..8768ff2 100644
--- a/roughpy/compute/_src/lie_basis.c
+++ b/roughpy/compute/_src/lie_basis.c
@@ -67,7 +67,7 @@ static int PyLIeBasis_Major_converter(PyObject* obj, void* result)
         return 0;
     }
 
-    *(PyLieBasis_Major*) result = check;
+    *(PyLieBasis_Major*) result = (PyLieBasis_Major) arg;
 
     return 1;
 }
@@ -371,14 +371,19 @@ static int check_data_arrays_basics(
         LBC_SET_ERR("degree begin must start at 0");
         return 0;
     }
+    if (db_data[1] != 1) {
+        LBC_SET_ERR("the neutral element must be the only one of degree 0");
+        return 0;
+    }
     if (depth >= 1 && db_data[2] - db_data[1] != width) {
         LBC_SET_ERR("mismatch between width and degree_begin for level 1");
         return 0;
     }
 
-    for (int32_t i = 2; i <= depth; ++i) {
-        if (db_data[i] <= db_data[i - 1]) {
-            LBC_SET_ERR("degree_begin must be strictly increasing");
+    // For width 1 there are no elements of degree 2 or more
+    for (int32_t i = 2; i <= depth + 1; ++i) {
+        if (db_data[i] < db_data[i - 1]) {
+            LBC_SET_ERR("degree_begin must be increasing");
             return 0;
         }
     }
@@ -1353,6 +1358,12 @@ PyObject* PyLieBasis_get(int32_t width, int32_t depth)
     return (PyObject*) self;
 }
 
+static inline int
+is_parent_of(npy_intp left, npy_intp right, npy_intp key)
+{
+    return 0 < left && left < key && 0 < right && right < key;
+}
+
 static int check_lie_data_standard_ordering(
         PyArrayObject* data_arr,
         PyArrayObject* degree_begin_arr,
@@ -1377,13 +1388,14 @@ static int check_lie_data_standard_ordering(
 
     if (db_data[1] > 0 && (data[0] != 0 || data[1] != 0)) {
         LBC_SET_ERR("first element of data must be the neutral element");
+        return 0;
     }
 
     // If the depth is 0 then there is nothing more we need to do
     if (depth < 1) { return 1; }
 
     for (npy_intp l = db_data[1]; l < db_data[2]; ++l) {
-        if (data[2 * l + 0] != 0 && data[2 * l + 1] != l) {
+        if (data[2 * l + 0] != 0 || data[2 * l + 1] != l) {
             LBC_SET_ERR(
                     "data must contain letters represented as pairs (0, l)"
             );
@@ -1401,6 +1413,13 @@ static int check_lie_data_standard_ordering(
                 const npy_intp a = data[2 * elt_idx + 0];
                 const npy_intp bc = data[2 * elt_idx + 1];
 
+                if (!is_parent_of(a, bc, elt_idx)) {
+                    LBC_SET_ERR(
+                            "the parents of an element must come before it"
+                    );
+                    return 0;
+                }
+
                 if (a >= bc) {
                     LBC_SET_ERR(
                             "elements h = [k,l] in the basis must satisfy k < l"
@@ -1419,6 +1438,13 @@ static int check_lie_data_standard_ordering(
                 const npy_intp xy = data[2 * elt_idx + 0];
                 const npy_intp c = data[2 * elt_idx + 1];
 
+                if (!is_parent_of(xy, c, elt_idx)) {
+                    LBC_SET_ERR(
+                            "the parents of an element must come before it"
+                    );
+                    return 0;
+                }
+
                 if (elt_idx >= c) {
                     LBC_SET_ERR("with h=[k,l] we must have h < l");
                     return 0;
@@ -1509,13 +1535,14 @@ static int check_lie_data_custom_ordering(
 
     if (db_data[1] > 0 && (data[0] != 0 || data[1] != 0)) {
         LBC_SET_ERR("first element of data must be the neutral element");
+        return 0;
     }
 
     // If the depth is 0 then there is nothing more we need to do
     if (depth < 1) { return 1; }
 
     for (npy_intp l = db_data[1]; l < db_data[2]; ++l) {
-        if (data[2 * l + 0] != 0 && data[2 * l + 1] != l) {
+        if (data[2 * l + 0] != 0 || data[2 * l + 1] != l) {
             LBC_SET_ERR(
                     "data must contain letters represented as pairs (0, l)"
             );
@@ -1531,6 +1558,13 @@ static int check_lie_data_custom_ordering(
                 const npy_intp a = data[2 * elt_idx + 0];
                 const npy_intp bc = data[2 * elt_idx + 1];
 
+                if (!is_parent_of(a, bc, elt_idx)) {
+                    LBC_SET_ERR(
+                            "the parents of an element must come before it"
+                    );
+                    return 0;
+                }
+
                 const int a_le_bc = evaluate_order(
                         total_order,
                         a,
@@ -1578,6 +1612,13 @@ static int check_lie_data_custom_ordering(
                 const npy_intp xy = data[2 * elt_idx + 0];
                 const npy_intp z = data[2 * elt_idx + 1];
 
+                if (!is_parent_of(xy, z, elt_idx)) {
+                    LBC_SET_ERR(
+                            "the parents of an element must come before it"
+                    );
+                    return 0;
+                }
+
                 const int h_le_z = evaluate_order(
                         total_order,
                         elt_idx,
@@ -1586,6 +1627,11 @@ static int check_lie_data_custom_ordering(
                         degree_begin_arr
                 );
 
+                if (h_le_z < 0) {
+                    // error already set
+                    return -1;
+                }
+
                 if (!h_le_z || elt_idx == z) {
                     LBC_SET_ERR("when h=[k,l] we must have h < l");
                     return 0;
@@ -1603,6 +1649,11 @@ static int check_lie_data_custom_ordering(
                             degree_begin_arr
                     );
 
+                    if (x_le_y < 0) {
+                        // error already set
+                        return -1;
+                    }
+
                     if (!x_le_y || x == y) {
                         LBC_SET_ERR("when h=[[a,b],c] we must have x < y");
                         return 0;
@@ -1616,6 +1667,11 @@ static int check_lie_data_custom_ordering(
                             degree_begin_arr
                     );
 
+                    if (z_le_y < 0) {
+                        // error already set
+                        return -1;
+                    }
+
                     if (!z_le_y) {
                         LBC_SET_ERR("when h=[[a,b],c] we must have b >= c");
                         return 0;
@@ -1678,7 +1734,8 @@ PyObject* PyLieBasis_check_data(
                "depth",
                "total_order",
                "basis_major",
-               "raise_on_fail"};
+               "raise_on_fail",
+               NULL};
 
     PyObject* ret = NULL;
     PyArrayObject *data = NULL, *degree_begin = NULL;
-- 
2.43.0


From 00e41f5d3934bdd64b927d328f5bad09ed78113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:36 +0000
Subject: [PATCH 078/111] fix: unlabelled channels after numerically labelled
 ones get a label of their own

---
 streams/src/schema.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/streams/src/schema.cpp b/streams/src/schema.cpp
index 01fba76..699a291 100644
--- a/streams/src/schema.cpp
+++ b/streams/src/schema.cpp
@@ -241,10 +241,14 @@ StreamChannel& StreamSchema::insert(
 )
 {
     RPY_CHECK(!m_is_final);
-    if (label.empty()) { label = std::to_string(size()); }
-
-    // Some users might have labelled their channels using numbers.
-    // Silly, but handle it gracefully.
+    if (label.empty()) {
+        // Some users might have labelled their channels using numbers.
+        // Silly, but handle it gracefully.
+        auto number = size();
+        do {
+            label = std::to_string(number++);
+        } while (contains(label));
+    }
 
     auto pos = find(label);
     if (pos != end()) { return *pos->second; }
-- 
2.43.0


From 71233246040800151d05a501d5431d6e120d4fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:36 +0000
Subject: [PATCH 079/111] fix: StreamConstructionHelper increments the
 dimensions of the channel it was given

---
 .../streams/stream_construction_helper.h      | 34 ++++++++-----------
 streams/src/stream_construction_helper.cpp    | 15 ++++----
 2 files changed, 24 insertions(+), 25 deletions(-)

diff --git a/streams/include/roughpy/streams/stream_construction_helper.h b/streams/include/roughpy/streams/stream_construction_helper.h
index 0c988fc..1ac1072 100644
--- a/streams/include/roughpy/streams/stream_construction_helper.h
+++ b/streams/include/roughpy/streams/stream_construction_helper.h
@@ -101,37 +101,33 @@ void StreamConstructionHelper::add_value(param_t timestamp, dimn_t channel,
                                          T&& value)
 {
     auto lead_idx = p_schema->channel_variant_to_stream_dim(channel, 0);
-    auto lag_idx = p_schema->channel_variant_to_stream_dim(channel, 1);
 
     scalars::Scalar current(std::forward<T>(value));
 
     next_entry(timestamp)[static_cast<key_type>(lead_idx + 1)]
             += current - m_previous_values[lead_idx];
-    next_entry(timestamp)[static_cast<key_type>(lag_idx + 1)]
-            += current - m_previous_values[lag_idx];
+
+    if (p_schema->nth(channel)->second->is_lead_lag()) {
+        auto lag_idx = p_schema->channel_variant_to_stream_dim(channel, 1);
+        next_entry(timestamp)[static_cast<key_type>(lag_idx + 1)]
+                += current - m_previous_values[lag_idx];
+        m_previous_values[lag_idx] = current;
+    }
 
     m_previous_values[lead_idx] = current;
-    m_previous_values[lag_idx] = current;
 }
 template <typename T>
 void StreamConstructionHelper::add_value(param_t timestamp, string_view label,
                                          T&& value)
 {
-    const auto found = p_schema->find(string(label));
-    RPY_CHECK(found != p_schema->end());
-
-    auto lead_idx = found->second->variant_id_of_label("lead");
-    auto lag_idx = found->second->variant_id_of_label("lag");
-
-    scalars::Scalar current(std::forward<T>(value));
-
-    next_entry(timestamp)[static_cast<key_type>(lead_idx + 1)]
-            += current - m_previous_values[lead_idx];
-    next_entry(timestamp)[static_cast<key_type>(lag_idx + 1)]
-            += current - m_previous_values[lag_idx];
-
-    m_previous_values[lead_idx] = current;
-    m_previous_values[lag_idx] = current;
+    const StreamSchema& schema = *p_schema;
+    const auto found = schema.find(string(label));
+    RPY_CHECK(found != schema.end());
+
+    add_value(
+            timestamp, static_cast<dimn_t>(found - schema.begin()),
+            std::forward<T>(value)
+    );
 }
 
 }// namespace streams
diff --git a/streams/src/stream_construction_helper.cpp b/streams/src/stream_construction_helper.cpp
index 9bb45f6..50ceeb7 100644
--- a/streams/src/stream_construction_helper.cpp
+++ b/streams/src/stream_construction_helper.cpp
@@ -64,11 +64,13 @@ void StreamConstructionHelper::add_categorical(param_t timestamp,
                                                string_view channel,
                                                dimn_t variant)
 {
-    const auto found = p_schema->find(string(channel));
-    RPY_CHECK(found != p_schema->end());
-    RPY_CHECK(variant < found->second->num_variants());
-    auto key = static_cast<key_type>(found - p_schema->begin())
-            + static_cast<key_type>(variant) + 1;
+    const StreamSchema& schema = *p_schema;
+    const auto found = schema.find(string(channel));
+    RPY_CHECK(found != schema.end());
+    const auto channel_no = static_cast<dimn_t>(found - schema.begin());
+    auto key = static_cast<key_type>(schema.channel_variant_to_stream_dim(
+                       channel_no, variant))
+            + 1;
     next_entry(timestamp)[key] += scalars::Scalar(1);
 }
 void StreamConstructionHelper::add_categorical(param_t timestamp,
@@ -83,7 +85,8 @@ void StreamConstructionHelper::add_categorical(param_t timestamp,
     RPY_CHECK(found != variants.end());
 
     auto key = static_cast<key_type>(p_schema->channel_variant_to_stream_dim(
-            channel, static_cast<dimn_t>(found - variants.begin())));
+                       channel, static_cast<dimn_t>(found - variants.begin())))
+            + 1;
     next_entry(timestamp)[key] += scalars::Scalar(1);
 }
 void StreamConstructionHelper::add_categorical(param_t timestamp,
-- 
2.43.0


From ed12f447f0f8ef39ea2037dd396175aaaae1d285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:36 +0000
Subject: [PATCH 080/111] fix: sound file queries that contain no frame of the
 file contribute nothing

---
 .../sound_file_data_source.cpp                   | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/streams/src/external_data_sources/sound_file_data_source.cpp b/streams/src/external_data_sources/sound_file_data_source.cpp
index 74e3ed0..c6b9ae5 100644
--- a/streams/src/external_data_sources/sound_file_data_source.cpp
+++ b/streams/src/external_data_sources/sound_file_data_source.cpp
@@ -39,6 +39,7 @@
 #include <roughpy/scalars/scalar_types.h>
 
 #include <boost/url/parse.hpp>
+#include <algorithm>
 #include <cmath>
 
 using namespace rpy;
@@ -49,7 +50,6 @@ using URIScheme = boost::urls::scheme;
 sf_count_t SoundFileDataSource::param_to_frame(param_t param)
 {
     RPY_DBG_ASSERT(static_cast<bool>(m_handle));
-    RPY_DBG_ASSERT(param >= 0.0);
     auto sample_rate = static_cast<param_t>(m_handle.samplerate());
 
     auto seconds = (param - m_file_start) * m_time_param_scaling;
@@ -84,17 +84,19 @@ dimn_t SoundFileDataSource::query_impl(
     std::vector<T> previous(m_handle.channels());
     std::vector<T> current(m_handle.channels());
 
-    auto frame_begin = param_to_frame(interval.inf());
-    auto frame_end = param_to_frame(interval.sup());
+    // Outside the file there are no readings, and the first one is skipped
+    auto frame_begin
+            = std::max<sf_count_t>(param_to_frame(interval.inf()), 1);
+    auto frame_end = std::min<sf_count_t>(
+            param_to_frame(interval.sup()),
+            m_handle.frames()
+    );
 
-    if (frame_begin == frame_end) {
+    if (frame_begin >= frame_end) {
         // TODO: Check that this is the correct handling
         return 0;
     }
 
-    // If we're at the beginning of time, skip the first reading
-    if (frame_begin == 0) { ++frame_begin; }
-
     auto seek_pos = m_handle.seek(frame_begin - 1, SEEK_SET);
     m_handle.readf(previous.data(), 1);
 
-- 
2.43.0


From f3c306f271ef6385a4a0d83974f3dbb354955977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:36 +0000
Subject: [PATCH 081/111] fix: external data is read with the scalar type of
 the context of the query

---
 streams/src/external_data_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streams/src/external_data_stream.cpp b/streams/src/external_data_stream.cpp
index f4db371..b80231a 100644
--- a/streams/src/external_data_stream.cpp
+++ b/streams/src/external_data_stream.cpp
@@ -63,7 +63,8 @@ algebra::Lie streams::ExternalDataStream::log_signature_impl(
 
     tmp.data_stream.reserve_size(num_increments);
     const auto width = static_cast<dimn_t>(metadata().width);
-    const auto info = metadata().data_scalar_type->type_info();
+    // The buffer holds scalars of the type of the context of the query
+    const auto info = ctx.ctype()->type_info();
 
     const auto* buf_ptr = buffer.as_slice<const byte>().data();
     for (dimn_t i = 0; i < num_increments; ++i) {
-- 
2.43.0


From 612adc9df762cc5b99029da75b3bf8f799317e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:56 +0000
Subject: [PATCH 082/111] fix: an external stream keeps an explicit resolution
 of 0

---
 roughpy/src/streams/externally_sourced_stream.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/roughpy/src/streams/externally_sourced_stream.cpp b/roughpy/src/streams/externally_sourced_stream.cpp
index e85b367..1869080 100644
--- a/roughpy/src/streams/externally_sourced_stream.cpp
+++ b/roughpy/src/streams/externally_sourced_stream.cpp
@@ -108,15 +108,11 @@ external_stream_constructor(string uri_string, py::kwargs kwargs)
     //        pmd.vector_type,
     //        pmd.resolution
     //    });
-    if (!pmd.resolution) {
-        pmd.resolution = 0;
-    }
-
     if (pmd.width != 0) { factory.set_width(pmd.width); }
     if (pmd.depth != 0) { factory.set_depth(pmd.depth); }
     if (pmd.scalar_type != nullptr) { factory.set_ctype(pmd.scalar_type); }
     if (pmd.ctx) { factory.set_context(pmd.ctx); }
-    if (pmd.resolution != 0) { factory.set_resolution(*pmd.resolution); }
+    if (pmd.resolution) { factory.set_resolution(*pmd.resolution); }
     if (pmd.support) { factory.set_support(*pmd.support); }
     if (pmd.vector_type) { factory.set_vtype(*pmd.vector_type); }
 
-- 
2.43.0


From 29bf0c5d82b3dfa8cf53c7a8a1f19a144ca55b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:56 +0000
Subject: [PATCH 083/111] fix: external data sources answer one query at a time

---
 streams/include/roughpy/streams/external_data_stream.h | 3 +++
 streams/src/external_data_stream.cpp                   | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/streams/include/roughpy/streams/external_data_stream.h b/streams/include/roughpy/streams/external_data_stream.h
index d4310be..084384c 100644
--- a/streams/include/roughpy/streams/external_data_stream.h
+++ b/streams/include/roughpy/streams/external_data_stream.h
@@ -39,6 +39,7 @@
 #include <boost/url/url.hpp>
 
 #include <memory>
+#include <mutex>
 
 namespace rpy {
 namespace streams {
@@ -136,6 +137,8 @@ public:
 class ROUGHPY_STREAMS_EXPORT ExternalDataStream : public DyadicCachingLayer
 {
     std::unique_ptr<ExternalDataStreamSource> p_source;
+    // Sources usually keep a reading position, so one query at a time
+    std::unique_ptr<std::mutex> p_source_lock = std::make_unique<std::mutex>();
 
 public:
     using url = boost::urls::url;
diff --git a/streams/src/external_data_stream.cpp b/streams/src/external_data_stream.cpp
index b80231a..d9fdca6 100644
--- a/streams/src/external_data_stream.cpp
+++ b/streams/src/external_data_stream.cpp
@@ -54,7 +54,11 @@ algebra::Lie streams::ExternalDataStream::log_signature_impl(
 ) const
 {
     scalars::KeyScalarArray buffer(ctx.ctype());
-    auto num_increments = p_source->query(buffer, interval, schema());
+    dimn_t num_increments;
+    {
+        std::lock_guard<std::mutex> access(*p_source_lock);
+        num_increments = p_source->query(buffer, interval, schema());
+    }
 
     algebra::SignatureData tmp{
             scalars::KeyScalarStream(ctx.ctype()),
-- 
2.43.0


From 0dcba729a12756e0abd8cc4bedfd91261e36c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:56 +0000
Subject: [PATCH 084/111] fix: the pool of small objects is used by one thread
 at a time

---
 platform/src/alloc.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/platform/src/alloc.cpp b/platform/src/alloc.cpp
index de84b02..ae4306b 100644
--- a/platform/src/alloc.cpp
+++ b/platform/src/alloc.cpp
@@ -4,6 +4,7 @@
 
 #include "roughpy/platform/alloc.h"
 
+#include <mutex>
 #include <new>
 
 #include <boost/pool/singleton_pool.hpp>
@@ -96,6 +97,13 @@ boost::pool<MyAlignedAlloc>* get_pool() noexcept
     return &pool;
 }
 
+// Objects are made and released by all threads, and the pool has no lock
+std::mutex& get_pool_lock() noexcept
+{
+    static std::mutex lock;
+    return lock;
+}
+
 
 }
 
@@ -107,6 +115,7 @@ void* rpy::mem::small_object_alloc(size_t size)
     if (size > small_block_size) {
         return aligned_alloc(max_alignment, size);
     }
+    std::lock_guard<std::mutex> access(get_pool_lock());
     return get_pool()->malloc();
 }
 
@@ -115,6 +124,7 @@ void rpy::mem::small_object_free(void* ptr, size_t size)
     if (size > small_block_size) {
         aligned_free(ptr, size);
     } else {
+        std::lock_guard<std::mutex> access(get_pool_lock());
         get_pool()->free(static_cast<char*>(ptr));
     }
 
-- 
2.43.0


From 6f884c0e7cecdb58d95d6d380a86da93f6fe669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:06 +0000
Subject: [PATCH 085/111] fix: a clopen interval that ends where the support
 starts is empty

---
 streams/src/stream_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/src/stream_base.cpp b/streams/src/stream_base.cpp
index 35f28e2..a2d6115 100644
--- a/streams/src/stream_base.cpp
+++ b/streams/src/stream_base.cpp
@@ -44,7 +44,7 @@ StreamInterface::~StreamInterface() noexcept = default;
 bool StreamInterface::empty(const intervals::Interval& interval) const noexcept
 {
     if (interval.type() == intervals::IntervalType::Clopen) {
-        return interval.sup() < m_metadata.effective_support.inf()
+        return interval.sup() <= m_metadata.effective_support.inf()
                 || interval.inf() >= m_metadata.effective_support.sup();
     }
     return interval.sup() <= m_metadata.effective_support.inf()
-- 
2.43.0


From 88ec4db3742eba2d29efd3b9d2675913a9aa4960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:15 +0000
Subject: [PATCH 086/111] fix: keep dyadic segmentation inside the interval it
 was given

A good region that reaches past an end of the interval was followed across that end.
---
 intervals/src/dyadic_searcher.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/intervals/src/dyadic_searcher.cpp b/intervals/src/dyadic_searcher.cpp
index e37f8b2..089422b 100644
--- a/intervals/src/dyadic_searcher.cpp
+++ b/intervals/src/dyadic_searcher.cpp
@@ -45,6 +45,9 @@ void DyadicSearcher::expand_left(ScaledPredicate& predicate,
     bool is_aligned = di.aligned();
     --di;// moving to the left
 
+    // We are at the left end of the unit interval, there is nothing to find.
+    if (di.multiplier() < 0) { return; }
+
     if (is_aligned) {
         // It's possible that the interval contains two dyadics of starting
         // length if and only if the left hand is not aligned and the right
@@ -52,6 +55,7 @@ void DyadicSearcher::expand_left(ScaledPredicate& predicate,
         if (predicate(di)) {
             current.push_front(di);
             --di;
+            if (di.multiplier() < 0) { return; }
         }
     }
     /*
@@ -90,6 +94,9 @@ void DyadicSearcher::expand_right(ScaledPredicate& predicate,
      */
     ++di;// moving to the right.
 
+    // We are at the right end of the unit interval, there is nothing to find.
+    if (di.multiplier() >= (1 << di.power())) { return; }
+
     while (di.power() < m_max_depth) {
         DyadicInterval right(di);
         right.shrink_interval_right();
-- 
2.43.0


From 6775fa975f3d6e54e3a8c4b94439c77a7a1248f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:19 +0000
Subject: [PATCH 087/111] fix: setting coefficients of polynomials, refuse
 deleting items of monomials and polynomials

The check of the parsed value was inverted, so that no coefficient could be set, and deleting an item crashed.
---
 roughpy/src/scalars/r_py_polynomial.cpp | 29 +++++++++++++++----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 372de72..c3e1f9f 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -683,6 +683,10 @@ int monomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
         PyErr_SetString(PyExc_TypeError, "index should be a string");
         return -1;
     }
+    if (arg == nullptr) {
+        PyErr_SetString(PyExc_TypeError, "powers cannot be deleted");
+        return -1;
+    }
     if (!PyLong_Check(arg)) {
         PyErr_SetString(PyExc_TypeError, "expected an int");
         return -1;
@@ -1281,6 +1285,11 @@ int polynomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
     auto& poly = cast_poly(self);
     scalars::monomial monomial;
 
+    if (arg == nullptr) {
+        PyErr_SetString(PyExc_TypeError, "coefficients cannot be deleted");
+        return -1;
+    }
+
     if (is_monomial(index)) {
         monomial = cast_mon(index);
     } else if (PyUnicode_Check(index)) {
@@ -1295,24 +1304,22 @@ int polynomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
         }
 
         monomial = scalars::monomial(indet);
+    } else {
+        PyErr_SetString(
+                PyExc_TypeError,
+                "polynomial index must be monomial or str"
+        );
+        return -1;
     }
 
     rat_t newarg;
-    if (py_scalar_to_rat(newarg, arg)) {
+    if (!py_scalar_to_rat(newarg, arg)) {
         PyErr_SetString(PyExc_ValueError, "could not parse value");
         return -1;
     }
 
-    if (newarg != rat_t(0)) {
-        poly[monomial] = newarg;
-        return 0;
-    }
-
-    PyErr_SetString(
-            PyExc_TypeError,
-            "polynomial index must be monomial or str"
-    );
-    return -1;
+    poly[monomial] = newarg;
+    return 0;
 }
 PyObject* polynomial_mul(PyObject* self, PyObject* other)
 {
-- 
2.43.0


From 07af775695b5569132df88d5c91b953329113c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:47 +0000
Subject: [PATCH 088/111] fix: in-place operators of monomials and polynomials
 return a new reference

Returning self without taking a reference released the object while it was still in use.
---
 roughpy/src/scalars/r_py_polynomial.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index c3e1f9f..b2c50ee 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -772,6 +772,7 @@ PyObject* monomial_inplace_mul(PyObject* self, PyObject* other)
         auto& lhs = cast_mon(self);
         const auto& rhs = cast_mon(other);
         lhs *= rhs;
+        Py_INCREF(self);
         return self;
     }
 
@@ -1368,6 +1369,7 @@ PyObject* polynomial_inplace_mul(PyObject* self, PyObject* other)
         auto& lhs = cast_poly(self);
         const auto& rhs = cast_poly(other);
         lhs *= rhs;
+        Py_INCREF(self);
         return self;
     }
 
@@ -1376,12 +1378,14 @@ PyObject* polynomial_inplace_mul(PyObject* self, PyObject* other)
         if (is_monomial(other)) {
             const auto& mon = cast_mon(other);
             poly *= poly_t(mon, rat_t(1));
+            Py_INCREF(self);
             return self;
         }
 
         rat_t scalar;
         if (py_scalar_to_rat(scalar, other)) {
             poly *= poly_t(scalar);
+            Py_INCREF(self);
             return self;
         }
 
@@ -1556,6 +1560,7 @@ PyObject* polynomial_inplace_add(PyObject* self, PyObject* other)
         auto& lhs = cast_poly(self);
         const auto& rhs = cast_poly(other);
         lhs += rhs;
+        Py_INCREF(self);
         return self;
     }
 
@@ -1564,12 +1569,14 @@ PyObject* polynomial_inplace_add(PyObject* self, PyObject* other)
         if (is_monomial(other)) {
             const auto& mon = cast_mon(other);
             poly += poly_t(mon, rat_t(1));
+            Py_INCREF(self);
             return self;
         }
 
         rat_t scalar;
         if (py_scalar_to_rat(scalar, other)) {
             poly += poly_t(scalar);
+            Py_INCREF(self);
             return self;
         }
 
@@ -1599,6 +1606,7 @@ PyObject* polynomial_inplace_sub(PyObject* self, PyObject* other)
         auto& lhs = cast_poly(self);
         const auto& rhs = cast_poly(other);
         lhs -= rhs;
+        Py_INCREF(self);
         return self;
     }
 
@@ -1607,12 +1615,14 @@ PyObject* polynomial_inplace_sub(PyObject* self, PyObject* other)
         if (is_monomial(other)) {
             const auto& mon = cast_mon(other);
             poly -= poly_t(mon, rat_t(1));
+            Py_INCREF(self);
             return self;
         }
 
         rat_t scalar;
         if (py_scalar_to_rat(scalar, other)) {
             poly -= poly_t(scalar);
+            Py_INCREF(self);
             return self;
         }
 
@@ -1651,6 +1661,7 @@ PyObject* polynomial_inplace_div(PyObject* self, PyObject* other)
         }
 
         cast_poly(self) /= scalar;
+        Py_INCREF(self);
         return self;
     }
 
-- 
2.43.0


From e8af7b820fd87197979cdb222d04b645c9b24fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:02 +0000
Subject: [PATCH 089/111] fix: multiplication of monomials compared with an end
 iterator invalidated by insertion

---
 vendored/libalgebra_lite/basis/polynomial_basis.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vendored/libalgebra_lite/basis/polynomial_basis.cpp b/vendored/libalgebra_lite/basis/polynomial_basis.cpp
index de81721..1178c54 100644
--- a/vendored/libalgebra_lite/basis/polynomial_basis.cpp
+++ b/vendored/libalgebra_lite/basis/polynomial_basis.cpp
@@ -34,10 +34,9 @@ std::ostream& operator<<(std::ostream& os, const monomial& arg)
 
 monomial& monomial::operator*=(const monomial& rhs)
 {
-    const auto lend = m_data.end();
     for (const auto& item : rhs.m_data) {
         auto it = m_data.find(item.first);
-        if (it == lend) {
+        if (it == m_data.end()) {
             m_data.insert(item);
         } else {
             it->second += item.second;
-- 
2.43.0


From 8132cd10919a2151308806edc45e86f8db5960f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:26 +0000
Subject: [PATCH 090/111] fix: numbers beyond 64 bits in polynomials

Integers and fractions outside the range of a long long left an exception set and were read as -1.
---
 roughpy/src/scalars/r_py_polynomial.cpp | 42 +++++++++++++++----------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index b2c50ee..ad20e37 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -32,6 +32,7 @@
 
 #include "r_py_polynomial.h"
 
+#include <cmath>
 #include <sstream>
 
 #include "roughpy/core/check.h"                    // for throw_exception
@@ -705,28 +706,37 @@ int monomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
     return 0;
 }
 
-static inline bool py_scalar_to_rat(rat_t& result, PyObject* scalar) noexcept
+static inline bool py_int_to_rat(rat_t& result, py::handle integer)
 {
-    if (PyLong_Check(scalar)) {
-        result = rat_t(PyLong_AsLongLong(scalar));
-        return true;
-    }
-    if (PyFloat_Check(scalar)) {
-        result = rat_t(PyFloat_AsDouble(scalar));
-        return true;
+    int overflow = 0;
+    const auto value = PyLong_AsLongLongAndOverflow(integer.ptr(), &overflow);
+    if (value == -1 && PyErr_Occurred()) { throw py::error_already_set(); }
+    if (overflow == 0) {
+        result = rat_t(value);
+    } else {
+        // Too large for a long long, but not for a rational
+        result = rat_t(py::str(integer).cast<string>());
     }
+    return true;
+}
 
+static inline bool py_scalar_to_rat(rat_t& result, PyObject* scalar) noexcept
+{
     try {
+        if (PyLong_Check(scalar)) { return py_int_to_rat(result, scalar); }
+        if (PyFloat_Check(scalar)) {
+            const auto value = PyFloat_AsDouble(scalar);
+            if (!std::isfinite(value)) { return false; }
+            result = rat_t(value);
+            return true;
+        }
+
         auto fraction = get_py_rational();
         if (py::isinstance(scalar, fraction)) {
-            auto numr = PyLong_AsLongLong(
-                    PyObject_GetAttrString(scalar, "numerator")
-            );
-            auto denr = PyLong_AsLongLong(
-                    PyObject_GetAttrString(scalar, "denominator")
-            );
-
-            result = rat_t(numr, denr);
+            rat_t denominator;
+            py_int_to_rat(result, py::getattr(scalar, "numerator"));
+            py_int_to_rat(denominator, py::getattr(scalar, "denominator"));
+            result /= denominator;
             return true;
         }
     } catch (py::error_already_set&) {
-- 
2.43.0


From eaded8f0d44b3697e98120966f7a83c22b310733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:26 +0000
Subject: [PATCH 091/111] fix: in-place division of a monomial multiplied by
 the divisor

---
 roughpy/src/scalars/r_py_polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index ad20e37..4b35f46 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -1031,7 +1031,7 @@ PyObject* monomial_inplace_div(PyObject* self, PyObject* other)
         }
 
         rat_t divisor = rat_t(1) / scalar;
-        return PyPolynomial_FromPolynomial(poly_t(mon, scalar));
+        return PyPolynomial_FromPolynomial(poly_t(mon, divisor));
     }
 
     // We might want to support other types in the future
-- 
2.43.0


From a9bc7796dcd2ae5c247ae563819269aef25003a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:37 +0000
Subject: [PATCH 092/111] fix: powers of monomials

The exponent was added to each power, and the result was thrown away.
---
 roughpy/src/scalars/r_py_polynomial.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 4b35f46..5dfc3f8 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -810,9 +810,13 @@ PyObject* monomial_pow(PyObject* self, PyObject* other, PyObject*)
             return nullptr;
         }
 
+        if (power == 0) { return PyMonomial_FromMonomial(scalars::monomial()); }
+
         auto* result = PyMonomial_FromMonomial(lhs);
+        if (result == nullptr) { return nullptr; }
         auto& result_mon = cast_mon(result);
-        for (auto& comp : result_mon) { comp.second += power; }
+        for (auto& comp : result_mon) { comp.second *= power; }
+        return result;
     }
 
     Py_RETURN_NOTIMPLEMENTED;
@@ -840,7 +844,13 @@ PyObject* monomial_inplace_pow(PyObject* self, PyObject* other, PyObject*)
             return nullptr;
         }
 
-        for (auto& comp : lhs) { comp.second += power; }
+        if (power == 0) {
+            lhs = scalars::monomial();
+        } else {
+            for (auto& comp : lhs) { comp.second *= power; }
+        }
+        Py_INCREF(self);
+        return self;
     }
 
     Py_RETURN_NOTIMPLEMENTED;
-- 
2.43.0


From 05ad1240e7b4ef22796c86ba45cca718c5f61c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:35 +0000
Subject: [PATCH 093/111] fix: Log of tensors beyond depth 2 raised an error
 and reversed words

---
 roughpy/tensor_functions.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/roughpy/tensor_functions.py b/roughpy/tensor_functions.py
index d404fb8..330ca02 100644
--- a/roughpy/tensor_functions.py
+++ b/roughpy/tensor_functions.py
@@ -207,7 +207,12 @@ def _concatenate(a: TensorTensorProduct, otype=rp.FreeTensor):
 
     data = defaultdict(lambda: 0)
     for (l, r), v in a.data.items():
-        data[l * r] += v
+        # The product of keys joins the words in reverse order
+        data[r * l] += v
+
+    if not data:
+        # noinspection PyArgumentList
+        data[rp.TensorKey(width=a.ctx.width, depth=a.ctx.depth)] = 0
 
     # noinspection PyArgumentList
     result = otype(data, ctx=a.ctx)
@@ -234,7 +239,12 @@ def _convolve(f, g):
     func = _tensor_product_functions(f, g)
 
     def convolved(x):
-        return _concatenate(func(_adjoint_of_shuffle(x)), otype=type(x))
+        # The words in the adjoint are reversed, since they are built up from
+        # products of keys.
+        adjoint = _adjoint_of_shuffle(x)
+        adjoint.data = {(l.reverse(), r.reverse()): v
+                        for (l, r), v in adjoint.data.items()}
+        return _concatenate(func(adjoint), otype=type(x))
 
     return convolved
 
-- 
2.43.0


From 000a2d553f30be5a28d030318bbcaff0ce57e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:43 +0000
Subject: [PATCH 094/111] fix: subtracting one Scalar from another raised
 TypeError

---
 roughpy/src/scalars/scalars.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/roughpy/src/scalars/scalars.cpp b/roughpy/src/scalars/scalars.cpp
index f886d0c..700a9b3 100644
--- a/roughpy/src/scalars/scalars.cpp
+++ b/roughpy/src/scalars/scalars.cpp
@@ -145,6 +145,9 @@ void python::init_scalars(pybind11::module_& m)
         return self += Scalar(other);
     });
 
+    klass.def("__sub__", [](const Scalar& self, const Scalar& other) {
+        return self - other;
+    });
     klass.def("__sub__", [](const Scalar& self, scalar_t other) {
         return self - Scalar(other);
     });
@@ -157,6 +160,9 @@ void python::init_scalars(pybind11::module_& m)
     klass.def("__rsub__", [](const Scalar& self, long long other) {
         return Scalar(other) - self;
     });
+    klass.def("__isub__", [](Scalar& self, const Scalar& other) {
+        return self -= other;
+    });
     klass.def("__isub__", [](Scalar& self, scalar_t other) {
         return self -= Scalar(other);
     });
-- 
2.43.0


From 69d513eaf462c52d4bd1005be2a63722e4f6aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:51 +0000
Subject: [PATCH 095/111] fix: dividing Scalars, the operators had their Python
 2 names

---
 roughpy/src/scalars/scalars.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/roughpy/src/scalars/scalars.cpp b/roughpy/src/scalars/scalars.cpp
index 700a9b3..5fcded0 100644
--- a/roughpy/src/scalars/scalars.cpp
+++ b/roughpy/src/scalars/scalars.cpp
@@ -195,25 +195,35 @@ void python::init_scalars(pybind11::module_& m)
         return self *= Scalar(other);
     });
 
-    klass.def("__div__", [](const Scalar& self, scalar_t other) {
+    klass.def("__truediv__", [](const Scalar& self, const Scalar& other) {
+        if (other.is_zero()) { throw py::value_error("division by zero"); }
+        return self / other;
+    });
+    klass.def("__truediv__", [](const Scalar& self, scalar_t other) {
         if (other == 0.0) { throw py::value_error("division by zero"); }
         return self / Scalar(other);
     });
-    klass.def("__div__", [](const Scalar& self, long long other) {
+    klass.def("__truediv__", [](const Scalar& self, long long other) {
         if (other == 0) { throw py::value_error("division by zero"); }
         return self / Scalar(other);
     });
-    klass.def("__rdiv__", [](const Scalar& self, scalar_t other) {
+    klass.def("__rtruediv__", [](const Scalar& self, scalar_t other) {
+        if (self.is_zero()) { throw py::value_error("division by zero"); }
         return Scalar(other) / self;
     });
-    klass.def("__rdiv__", [](const Scalar& self, long long other) {
+    klass.def("__rtruediv__", [](const Scalar& self, long long other) {
+        if (self.is_zero()) { throw py::value_error("division by zero"); }
         return Scalar(other) / self;
     });
-    klass.def("__idiv__", [](Scalar& self, scalar_t other) {
+    klass.def("__itruediv__", [](Scalar& self, const Scalar& other) {
+        if (other.is_zero()) { throw py::value_error("division by zero"); }
+        return self /= other;
+    });
+    klass.def("__itruediv__", [](Scalar& self, scalar_t other) {
         if (other == 0.0) { throw py::value_error("division by zero"); }
         return self /= Scalar(other);
     });
-    klass.def("__idiv__", [](Scalar& self, long long other) {
+    klass.def("__itruediv__", [](Scalar& self, long long other) {
         if (other == 0) { throw py::value_error("division by zero"); }
         return self /= Scalar(other);
     });
-- 
2.43.0


From c0cc61ec948313ae60a3c9a6fb21ac6870a98765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:21 +0000
Subject: [PATCH 096/111] fix: coefficients read from an algebra outlived it
 and referred to freed memory

---
 roughpy/src/algebra/free_tensor.cpp    | 8 ++++++--
 roughpy/src/algebra/lie.cpp            | 8 ++++++--
 roughpy/src/algebra/shuffle_tensor.cpp | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/roughpy/src/algebra/free_tensor.cpp b/roughpy/src/algebra/free_tensor.cpp
index 3de0545..20baaa4 100644
--- a/roughpy/src/algebra/free_tensor.cpp
+++ b/roughpy/src/algebra/free_tensor.cpp
@@ -174,10 +174,14 @@ void python::init_free_tensor(py::module_& m)
     python::setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const FreeTensor& self, key_type key) {
-        return self[key];
+        // Copied, since a reference could outlive the algebra
+        const auto value = self[key];
+        return scalars::Scalar(value);
     });
     klass.def("__getitem__", [](const FreeTensor& self, const PyTensorKey& tkey) {
-             return self[static_cast<key_type>(tkey)];
+             // Copied, since a reference could outlive the algebra
+             const auto value = self[static_cast<key_type>(tkey)];
+             return scalars::Scalar(value);
          });
 
     klass.def("exp", &FreeTensor::exp, "Computes the truncated exponential of a :class:`~FreeTensor` instance.");
diff --git a/roughpy/src/algebra/lie.cpp b/roughpy/src/algebra/lie.cpp
index eedb20e..d3b5722 100644
--- a/roughpy/src/algebra/lie.cpp
+++ b/roughpy/src/algebra/lie.cpp
@@ -166,10 +166,14 @@ void python::init_lie(py::module_& m)
     setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const Lie& self, key_type key) {
-        return self[key];
+        // Copied, since a reference could outlive the algebra
+        const auto value = self[key];
+        return scalars::Scalar(value);
     });
     klass.def("__getitem__", [](const Lie& self, const PyLieKey& lkey) {
-             return self[static_cast<key_type>(lkey)];
+             // Copied, since a reference could outlive the algebra
+             const auto value = self[static_cast<key_type>(lkey)];
+             return scalars::Scalar(value);
          });
 
     klass.def("__repr__", [](const Lie& self) {
diff --git a/roughpy/src/algebra/shuffle_tensor.cpp b/roughpy/src/algebra/shuffle_tensor.cpp
index c53a22b..5fe35ee 100644
--- a/roughpy/src/algebra/shuffle_tensor.cpp
+++ b/roughpy/src/algebra/shuffle_tensor.cpp
@@ -198,10 +198,14 @@ void rpy::python::init_shuffle_tensor(py::module_& m)
     setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const ShuffleTensor& self, key_type key) {
-        return self[key];
+        // Copied, since a reference could outlive the algebra
+        const auto value = self[key];
+        return scalars::Scalar(value);
     });
     klass.def("__getitem__", [](const ShuffleTensor& self, const PyTensorKey& tkey) {
-             return self[static_cast<key_type>(tkey)];
+             // Copied, since a reference could outlive the algebra
+             const auto value = self[static_cast<key_type>(tkey)];
+             return scalars::Scalar(value);
          });
 
 
-- 
2.43.0


From aee2b7e84b8eb517ee1fce845ed65272f4666e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:48 +0000
Subject: [PATCH 097/111] fix: scalar type of integer scalars dereferenced an
 empty optional

---
 roughpy/src/scalars/scalars.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/scalars/scalars.cpp b/roughpy/src/scalars/scalars.cpp
index 5fcded0..88125fc 100644
--- a/roughpy/src/scalars/scalars.cpp
+++ b/roughpy/src/scalars/scalars.cpp
@@ -100,7 +100,12 @@ void python::init_scalars(pybind11::module_& m)
     py::class_<Scalar> klass(m, "Scalar", SCALAR_DOC);
 
     klass.def("scalar_type", [](const Scalar& self) {
-        return scalar_type_to_py_type(*self.type());
+        const auto type = self.type();
+        if (!type) {
+            // Plain integers, for instance, have no scalar type
+            RPY_THROW(py::type_error, "no matching type for scalar");
+        }
+        return scalar_type_to_py_type(*type);
     });
 
     RPY_WARNING_PUSH
-- 
2.43.0


From 08028b9bd598569437da9bdbf9c26c8e5d37b521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:00 +0000
Subject: [PATCH 098/111] fix: negative zero scalars were not zero

---
 scalars/src/scalar.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index ace9a91..b906230 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -334,7 +334,8 @@ bool Scalar::is_zero() const noexcept
     switch (p_type_and_content_type.get_enumeration()) {
         case dtl::ScalarContentType::TrivialBytes:
         case dtl::ScalarContentType::ConstTrivialBytes:
-            return bit_cast<uintptr_t>(trivial_bytes) == 0;
+            // Compare values, since negative zero is not all zero bits
+            return is_pointer_zero(trivial_bytes, p_type_and_content_type);
         case dtl::ScalarContentType::OpaquePointer:
         case dtl::ScalarContentType::ConstOpaquePointer:
         case dtl::ScalarContentType::OwnedPointer:
-- 
2.43.0


From b08664169f0bea82b892313188e928d2295bcb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:16 +0000
Subject: [PATCH 099/111] fix: TensorTensorProduct of a pair of tensors without
 a context

---
 roughpy/tensor_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy/tensor_functions.py b/roughpy/tensor_functions.py
index 330ca02..932dc74 100644
--- a/roughpy/tensor_functions.py
+++ b/roughpy/tensor_functions.py
@@ -63,7 +63,7 @@ class TensorTensorProduct:
                 assert data[1].context == ctx
             else:
                 self.ctx = data[0].context
-                assert self.ctx == data[2].context
+                assert self.ctx == data[1].context
 
             self.data = odata = {}
             for lhs in data[0]:
-- 
2.43.0


From 421b7ab994c1037e47af91d89f6879c2295cf1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:46 +0000
Subject: [PATCH 100/111] fix: moved and converted generic values

---
 platform/include/roughpy/generics/values.h |  2 +-
 platform/src/generics/value.cpp            | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/platform/include/roughpy/generics/values.h b/platform/include/roughpy/generics/values.h
index d73fc88..a450804 100644
--- a/platform/include/roughpy/generics/values.h
+++ b/platform/include/roughpy/generics/values.h
@@ -229,7 +229,7 @@ public:
 
     ValueStorage &operator=(ValueStorage &&other) noexcept {
         if (&other != this) {
-            m_storage.pointer = other.m_storage.pointer;
+            m_storage.pointer = std::exchange(other.m_storage.pointer, nullptr);
         }
         return *this;
     }
diff --git a/platform/src/generics/value.cpp b/platform/src/generics/value.cpp
index 3368469..22d6644 100644
--- a/platform/src/generics/value.cpp
+++ b/platform/src/generics/value.cpp
@@ -132,15 +132,15 @@ Value::Value(TypePtr type, const void* data)
     RPY_CHECK(p_type);
     if (!is_inline_stored()) { allocate_data(); }
     if (data != nullptr) {
-        copy_assign_value(type.get(), data);
+        copy_assign_value(p_type.get(), data);
     }
 }
 
 Value::Value(TypePtr type, string_view str_data)
-    : p_type(std::move(type))
+    : Value(std::move(type))
 {
-    RPY_DBG_ASSERT(p_type != nullptr);
-    ensure_constructed(type.get());
+    // The value is fully constructed by now, so if parsing fails the destructor
+    // releases the data.
     if (!p_type->parse_from_string(data(), str_data))
     {
         RPY_THROW(std::invalid_argument, "cannot parse string");
@@ -209,7 +209,10 @@ Value& Value::operator=(Value&& other) // NOLINT(*-noexcept-move-constructor)
         if (is_inline_stored()) {
             std::memcpy(data(), other.data(), sizeof(void*));
         } else {
-            m_storage = std::move(other.m_storage);
+            // Exchange the data, so this is released with the other value.
+            other.m_storage.reset(
+                m_storage.reset(other.m_storage.reset(nullptr))
+            );
         }
         return *this;
     }
@@ -219,6 +222,7 @@ Value& Value::operator=(Value&& other) // NOLINT(*-noexcept-move-constructor)
     if (!from) {
         RPY_THROW(std::invalid_argument, "cannot convert");
     }
+    from->unsafe_convert(data(), other.data(), false);
     return *this;
 }
 
-- 
2.43.0


From 71829e27f526dcbddc22c1cb1a297cb00520e255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:46 +0000
Subject: [PATCH 101/111] fix: mixed-type division and comparison of generic
 values

---
 platform/src/generics/value_arithmetic.cpp | 2 +-
 platform/src/generics/value_compare.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/src/generics/value_arithmetic.cpp b/platform/src/generics/value_arithmetic.cpp
index c528aca..4a9abee 100644
--- a/platform/src/generics/value_arithmetic.cpp
+++ b/platform/src/generics/value_arithmetic.cpp
@@ -120,7 +120,7 @@ void value_arithmetic_divide(
     Value tmp(trait->rational_type());
     tmp = ConstRef(rtype, rvalue);
 
-    trait->unsafe_div_inplace(tmp.data(), tmp.data());
+    trait->unsafe_div_inplace(lvalue, tmp.data());
 }
 
 
diff --git a/platform/src/generics/value_compare.cpp b/platform/src/generics/value_compare.cpp
index 3a5ed39..a482a5f 100644
--- a/platform/src/generics/value_compare.cpp
+++ b/platform/src/generics/value_compare.cpp
@@ -28,7 +28,7 @@ bool value_compare_converting(
     const auto common_tp = compute_promotion(ltype, rtype);
     RPY_CHECK_NE(common_tp, nullptr);
     const auto* trait = trait_cast<ComparisonTrait>(
-        ltype->get_builtin_trait(BuiltinTraitID::Comparison));
+        common_tp->get_builtin_trait(BuiltinTraitID::Comparison));
 
     Value tmp(common_tp);
     if (ltype == common_tp) {
-- 
2.43.0


From 70a633aae5d197f288a988d1744e744dced223a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:46 +0000
Subject: [PATCH 102/111] fix: generic arrays leaked, shared or corrupted
 elements

---
 platform/src/generics/array.cpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/platform/src/generics/array.cpp b/platform/src/generics/array.cpp
index 00a8405..937f9a0 100644
--- a/platform/src/generics/array.cpp
+++ b/platform/src/generics/array.cpp
@@ -45,21 +45,20 @@ Array::~Array()
 
 Array& Array::operator=(const Array& other)
 {
-    copy_from(other);
+    if (&other != this) {
+        *this = Array(other);
+    }
     return *this;
 }
 
 Array& Array::operator=(Array&& other) noexcept
 {
-    p_type = std::move(other.p_type);
-    m_size = other.m_size;
-    m_capacity = other.m_capacity;
-    m_alignment = other.m_alignment;
-    m_data = other.m_data;
-
-    other.m_data = nullptr;
-    other.m_size = 0;
-    other.m_capacity = 0;
+    // The moved-from array takes the old contents and releases them.
+    std::swap(p_type, other.p_type);
+    std::swap(m_size, other.m_size);
+    std::swap(m_capacity, other.m_capacity);
+    std::swap(m_alignment, other.m_alignment);
+    std::swap(m_data, other.m_data);
 
     return *this;
 }
@@ -98,7 +97,10 @@ void Array::reserve(dimn_t capacity)
     if (capacity > m_capacity) {
         m_capacity = capacity;
         void* new_data = rpy::mem::aligned_alloc(m_alignment, m_capacity * p_type->object_size());
-        p_type->copy_or_fill(new_data, m_data, m_size, false);
+        if (m_size > 0) {
+            p_type->move(new_data, m_data, m_size, true);
+            p_type->destroy_range(m_data, m_size);
+        }
         rpy::mem::aligned_free(m_data);
         m_data = new_data;
     }
@@ -110,8 +112,12 @@ void Array::copy_from(const Array& other)
     m_size = other.m_size;
     m_capacity = other.m_capacity;
     m_alignment = other.m_alignment;
-    m_data = rpy::mem::aligned_alloc(m_alignment, m_capacity * p_type->object_size());
-    p_type->copy_or_fill(m_data, other.m_data, m_size, true);
+    if (m_capacity > 0) {
+        m_data = rpy::mem::aligned_alloc(m_alignment, m_capacity * p_type->object_size());
+    }
+    if (m_size > 0) {
+        p_type->copy_or_fill(m_data, other.m_data, m_size, true);
+    }
 }
 
 void Array::validate_idx(dimn_t idx) const
-- 
2.43.0


From 3a7f31922c0e57f19c84c662371fc1abb49e9375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:46 +0000
Subject: [PATCH 103/111] fix: multi-precision integer equality, fractions and
 powers

---
 .../integer_comparison.cpp                     |  2 +-
 .../multiprecision_types/integer_number.cpp    | 18 +++++++++++++++++-
 .../multiprecision_types/integer_number.h      |  2 ++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/platform/src/generics/multiprecision_types/integer_comparison.cpp b/platform/src/generics/multiprecision_types/integer_comparison.cpp
index a201efd..5fc657b 100644
--- a/platform/src/generics/multiprecision_types/integer_comparison.cpp
+++ b/platform/src/generics/multiprecision_types/integer_comparison.cpp
@@ -26,7 +26,7 @@ bool IntegerComparison::unsafe_compare_equal(
     const auto* lhs_ptr = static_cast<mpz_srcptr>(lhs);
     const auto* rhs_ptr = static_cast<mpz_srcptr>(rhs);
 
-    return mpz_cmp(lhs_ptr, rhs_ptr) != 0;
+    return mpz_cmp(lhs_ptr, rhs_ptr) == 0;
 }
 bool IntegerComparison::unsafe_compare_less(
         const void* lhs,
diff --git a/platform/src/generics/multiprecision_types/integer_number.cpp b/platform/src/generics/multiprecision_types/integer_number.cpp
index 423942d..562db85 100644
--- a/platform/src/generics/multiprecision_types/integer_number.cpp
+++ b/platform/src/generics/multiprecision_types/integer_number.cpp
@@ -59,6 +59,22 @@ void IntegerNumber::unsafe_abs(void* dst, const void* src) const noexcept
     mpz_abs(dst_ptr, src_ptr);
 }
 
+void IntegerNumber::unsafe_pow(
+        void* dst,
+        const void* base,
+        exponent_t exponent
+) const
+{
+    RPY_DBG_ASSERT_NE(dst, nullptr);
+    RPY_DBG_ASSERT_NE(base, nullptr);
+    RPY_CHECK_GE(exponent, 0, std::domain_error);
+
+    auto* base_ptr = static_cast<mpz_srcptr>(base);
+    auto* dst_ptr = static_cast<mpz_ptr>(dst);
+
+    mpz_pow_ui(dst_ptr, base_ptr, static_cast<uint64_t>(exponent));
+}
+
 void IntegerNumber::unsafe_from_rational(
         void* dst,
         int64_t numerator,
@@ -68,7 +84,7 @@ void IntegerNumber::unsafe_from_rational(
     RPY_DBG_ASSERT_NE(dst, nullptr);
     RPY_CHECK_NE(denominator, 0);
 
-    if (numerator < 0) {
+    if (denominator < 0) {
         numerator = -numerator;
         denominator = -denominator;
     }
diff --git a/platform/src/generics/multiprecision_types/integer_number.h b/platform/src/generics/multiprecision_types/integer_number.h
index 145e74c..64656c0 100644
--- a/platform/src/generics/multiprecision_types/integer_number.h
+++ b/platform/src/generics/multiprecision_types/integer_number.h
@@ -20,6 +20,8 @@ public:
     void unsafe_real(void* dst, const void* src) const override;
     void unsafe_imaginary(void* dst, const void* src) const override;
     void unsafe_abs(void* dst, const void* src) const noexcept override;
+    void
+    unsafe_pow(void* dst, const void* base, exponent_t exponent) const override;
     void unsafe_from_rational(
             void* dst,
             int64_t numerator,
-- 
2.43.0


From 362070fd3d0a5ea5b59a45ef2e784cce75f2ba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:46 +0000
Subject: [PATCH 104/111] fix: rational addition, powers and fractions

---
 .../multiprecision_types/rational_arithmetic.cpp       |  2 +-
 .../generics/multiprecision_types/rational_number.cpp  | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/platform/src/generics/multiprecision_types/rational_arithmetic.cpp b/platform/src/generics/multiprecision_types/rational_arithmetic.cpp
index d9931ea..924de04 100644
--- a/platform/src/generics/multiprecision_types/rational_arithmetic.cpp
+++ b/platform/src/generics/multiprecision_types/rational_arithmetic.cpp
@@ -22,7 +22,7 @@ void RationalArithmetic::unsafe_add_inplace(
     RPY_DBG_ASSERT_NE(lhs, nullptr);
     RPY_DBG_ASSERT_NE(rhs, nullptr);
 
-    auto* src_ptr = static_cast<mpq_srcptr>(lhs);
+    auto* src_ptr = static_cast<mpq_srcptr>(rhs);
     auto* dst_ptr = static_cast<mpq_ptr>(lhs);
 
     mpq_add(dst_ptr, dst_ptr, src_ptr);
diff --git a/platform/src/generics/multiprecision_types/rational_number.cpp b/platform/src/generics/multiprecision_types/rational_number.cpp
index 60b33b3..161e2f6 100644
--- a/platform/src/generics/multiprecision_types/rational_number.cpp
+++ b/platform/src/generics/multiprecision_types/rational_number.cpp
@@ -80,9 +80,10 @@ void RationalNumber::unsafe_pow(
         mpz_pow_ui(mpq_numref(dst_ptr), mpq_numref(base_ptr), expo);
         mpz_pow_ui(mpq_denref(dst_ptr), mpq_denref(base_ptr), expo);
     } else {
-        const auto expo = static_cast<uint64_t>(exponent);
-        mpz_pow_ui(mpq_numref(dst_ptr), mpq_denref(base_ptr), expo);
-        mpz_pow_ui(mpq_denref(dst_ptr), mpq_numref(base_ptr), expo);
+        const auto expo = -static_cast<uint64_t>(exponent);
+        mpz_pow_ui(mpq_numref(dst_ptr), mpq_numref(base_ptr), expo);
+        mpz_pow_ui(mpq_denref(dst_ptr), mpq_denref(base_ptr), expo);
+        mpq_inv(dst_ptr, dst_ptr);
     }
 }
 void RationalNumber::unsafe_from_rational(
@@ -94,7 +95,7 @@ void RationalNumber::unsafe_from_rational(
     RPY_DBG_ASSERT_NE(dst, nullptr);
 
     // This should have been checked in the outer scope
-    RPY_DBG_ASSERT_NE(numerator, 0);
+    RPY_DBG_ASSERT_NE(denominator, 0);
 
     auto* dst_ptr = static_cast<mpq_ptr>(dst);
 
@@ -106,4 +107,5 @@ void RationalNumber::unsafe_from_rational(
     const auto denom = static_cast<uint64_t>(denominator);
 
     mpq_set_si(dst_ptr, numerator, denom);
+    mpq_canonicalize(dst_ptr);
 }
-- 
2.43.0


From edc3cbdf3371ee873d243798eca5f06480c354b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:46 +0000
Subject: [PATCH 105/111] fix: number trait sqrt, imaginary and log

---
 platform/src/generics/number_trait.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/src/generics/number_trait.cpp b/platform/src/generics/number_trait.cpp
index 65b82e6..35b580d 100644
--- a/platform/src/generics/number_trait.cpp
+++ b/platform/src/generics/number_trait.cpp
@@ -80,7 +80,7 @@ void NumberTrait::sqrt(Ref dst, ConstRef src) const
     RPY_CHECK_EQ(dst.type(), *real_type());
     RPY_CHECK_EQ(src.type(), *p_type);
 
-    unsafe_abs(dst.data(), src.data());
+    unsafe_sqrt(dst.data(), src.data());
 }
 void NumberTrait::exp(Ref dst, ConstRef src) const
 {
@@ -127,7 +127,7 @@ Value NumberTrait::imaginary(ConstRef value) const
     RPY_CHECK_EQ(value.type(), *p_type);
 
     Value result(p_type);
-    unsafe_real(result.data(), value.data());
+    unsafe_imaginary(result.data(), value.data());
 
     return result;
 }
@@ -181,7 +181,7 @@ Value NumberTrait::log(ConstRef value) const
     RPY_CHECK_EQ(value.type(), *p_type);
 
     Value result(p_type);
-    unsafe_exp(result.data(), value.data());
+    unsafe_log(result.data(), value.data());
 
     return result;
 }
-- 
2.43.0


From 18457d8d5d96de34bf7bf071408ab3988c089b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:46 +0000
Subject: [PATCH 106/111] fix: trait comparison and division check of operands

---
 platform/src/generics/arithmetic_trait.cpp | 4 ++--
 platform/src/generics/comparison_trait.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/src/generics/arithmetic_trait.cpp b/platform/src/generics/arithmetic_trait.cpp
index ede6a18..f1e4ab5 100644
--- a/platform/src/generics/arithmetic_trait.cpp
+++ b/platform/src/generics/arithmetic_trait.cpp
@@ -63,10 +63,10 @@ void ArithmeticTrait::mul_inplace(Ref lhs, ConstRef rhs) const
 void ArithmeticTrait::div_inplace(Ref lhs, ConstRef rhs) const
 {
     RPY_CHECK(has_operation(ArithmeticOperation::Div));
-    RPY_CHECK(rhs.is_valid());
+    RPY_CHECK(rhs.is_valid() && lhs.is_valid());
     RPY_CHECK(!rhs.fast_is_zero(), "division by zero", std::domain_error);
 
-    RPY_CHECK_EQ(*p_type, rhs.type());
+    RPY_CHECK_EQ(*p_type, lhs.type());
 
     if (rhs.type() == *p_rational_type) {
         unsafe_div_inplace(lhs.data(), rhs.data());
diff --git a/platform/src/generics/comparison_trait.cpp b/platform/src/generics/comparison_trait.cpp
index f3f44a9..49016f2 100644
--- a/platform/src/generics/comparison_trait.cpp
+++ b/platform/src/generics/comparison_trait.cpp
@@ -19,7 +19,7 @@ bool ComparisonTrait::compare_equal(ConstRef lhs, ConstRef rhs) const
         return true;
     }
 
-    if (lhs.is_valid() || rhs.is_valid()) {
+    if (!lhs.is_valid() || !rhs.is_valid()) {
         return false;
     }
 
-- 
2.43.0


From 10ea8eff72a592d975f1f9ddf5055356c2bc126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:46 +0000
Subject: [PATCH 107/111] fix: conversions between builtin generic types

---
 .../builtin_types/builtin_type_methods.h        |  4 ++--
 .../generics/builtin_types/conversion_helpers.h | 17 +++++++----------
 platform/src/generics/conversion_impl.h         | 16 ++++++++--------
 3 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/platform/src/generics/builtin_types/builtin_type_methods.h b/platform/src/generics/builtin_types/builtin_type_methods.h
index 970a5e4..1a3435c 100644
--- a/platform/src/generics/builtin_types/builtin_type_methods.h
+++ b/platform/src/generics/builtin_types/builtin_type_methods.h
@@ -162,7 +162,7 @@ BuiltinTypeBase<T>::convert_to(const Type& type) const noexcept
     Hash<string_view> hasher;
     if (const auto it = conversion_table.find(hasher(type.id()));
         it != conversion_table.end()) {
-        return it->second->make(&type, this);
+        return it->second->make(this, &type);
     }
 
     return Type::convert_to(type);
@@ -181,7 +181,7 @@ BuiltinTypeBase<T>::convert_from(const Type& type) const noexcept
     Hash<string_view> hasher;
     if (const auto it = conversion_table.find(hasher(type.id()));
         it != conversion_table.end()) {
-        return it->second->make(this, &type);
+        return it->second->make(&type, this);
     }
 
     return Type::convert_from(type);
diff --git a/platform/src/generics/builtin_types/conversion_helpers.h b/platform/src/generics/builtin_types/conversion_helpers.h
index efbea4a..4cd1a7e 100644
--- a/platform/src/generics/builtin_types/conversion_helpers.h
+++ b/platform/src/generics/builtin_types/conversion_helpers.h
@@ -26,9 +26,9 @@ struct ConversionHelper<From, To, enable_if_t<is_integral_v<From>&&is_integral_v
     using to_ptr = To*;
 
     static constexpr bool is_possible = true;
-    // Exact if both have the same
+    // Exact if both have the same signedness and To has at least as many digits
     static constexpr bool is_always_exact = is_signed_v<From> == is_signed_v<To>
-            && sizeof(From) >= sizeof(To);
+            && sizeof(From) <= sizeof(To);
 
     static bool check_fits_in_to_type(const From& src) noexcept
     {
@@ -118,14 +118,11 @@ struct ConversionHelper<From, To, enable_if_t<is_floating_point_v<From> &&
         From integral_part;
         auto fractional_part = std::modf(*src, &integral_part);
 
-        if constexpr (std::numeric_limits<To>::digits > std::numeric_limits<From>::digits) {
-            const auto to_max = static_cast<To>(std::numeric_limits<From>::max());
-            const auto to_min = static_cast<To>(std::numeric_limits<From>::min());
-
-            if (to_min < integral_part || integral_part > to_max) {
-                return ConversionResult::Failed;
-            }
-
+        // The bounds of To are powers of two, so both are represented exactly
+        const auto to_min = static_cast<From>(std::numeric_limits<To>::min());
+        const auto to_end = std::ldexp(From(1), std::numeric_limits<To>::digits);
+        if (!(integral_part >= to_min && integral_part < to_end)) {
+            return ConversionResult::Failed;
         }
 
         if (ensure_exact && fractional_part != 0.0) {
diff --git a/platform/src/generics/conversion_impl.h b/platform/src/generics/conversion_impl.h
index b2101fb..cb2900e 100644
--- a/platform/src/generics/conversion_impl.h
+++ b/platform/src/generics/conversion_impl.h
@@ -64,39 +64,39 @@ std::unique_ptr<const ConversionTrait> ConversionFactoryImpl<From, To>::make(
 }
 
 
-template <typename From, typename Map, typename To, typename... Ts>
-void build_conversion_from_table(Map& map, meta::TypeList<To, Ts...> list)
+template <typename To, typename Map, typename From, typename... Ts>
+void build_conversion_from_table(Map& map, meta::TypeList<From, Ts...> list)
 {
     using helper = ConversionHelper<From, To>;
     ignore_unused(list);
     if constexpr (!is_same_v<From, To> && helper::is_possible) {
         Hash<string_view> hasher;
         map.emplace(
-            hasher(type_id_of<To>),
+            hasher(type_id_of<From>),
             std::make_unique<ConversionFactoryImpl<From, To>>()
         );
     }
     if constexpr (sizeof...(Ts) > 0) {
-        build_conversion_from_table<From>(map, meta::TypeList<Ts...>{});
+        build_conversion_from_table<To>(map, meta::TypeList<Ts...>{});
     }
 }
 
 
 
-template <typename To, typename Map, typename From, typename... Ts>
-void build_conversion_to_table(Map& map, meta::TypeList<From, Ts...> list)
+template <typename From, typename Map, typename To, typename... Ts>
+void build_conversion_to_table(Map& map, meta::TypeList<To, Ts...> list)
 {
     ignore_unused(list);
     using helper = ConversionHelper<From, To>;
     if constexpr (!is_same_v<From, To> && helper::is_possible) {
         Hash<string_view> hasher;
         map.emplace(
-            hasher(type_id_of<From>),
+            hasher(type_id_of<To>),
             std::make_unique<ConversionFactoryImpl<From, To>>()
         );
     }
     if constexpr (sizeof...(Ts) > 0) {
-        build_conversion_from_table<To>(map, meta::TypeList<Ts...>{});
+        build_conversion_to_table<From>(map, meta::TypeList<Ts...>{});
     }
 }
 
-- 
2.43.0


From fa3a32f4985ef54dec5c1d99dc9ea6455f09abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:46 +0000
Subject: [PATCH 108/111] fix: 8-bit integers displayed as characters

---
 platform/src/generics/builtin_types/builtin_type_methods.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/platform/src/generics/builtin_types/builtin_type_methods.h b/platform/src/generics/builtin_types/builtin_type_methods.h
index 1a3435c..0b87795 100644
--- a/platform/src/generics/builtin_types/builtin_type_methods.h
+++ b/platform/src/generics/builtin_types/builtin_type_methods.h
@@ -216,7 +216,12 @@ BuiltinTypeBase<T>::display(std::ostream& os, const void* value) const
     // Wrapping code should handle the case when value == nullptr,
     // so a null value jere is a bug
     RPY_DBG_ASSERT_NE(value, nullptr);
-    return os << *static_cast<const T*>(value);
+    if constexpr (is_integral_v<T> && sizeof(T) == 1) {
+        // Display the number rather than the character it encodes
+        return os << static_cast<int>(*static_cast<const T*>(value));
+    } else {
+        return os << *static_cast<const T*>(value);
+    }
 }
 
 template <typename T>
-- 
2.43.0


From f0a3f881349ca29d484a9a4e953226c397c0f9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:06 +0000
Subject: [PATCH 109/111] fix: generic polynomials written outside their terms

---
 platform/src/generics/polynomial_type/monomial.cpp   |  4 ++--
 platform/src/generics/polynomial_type/polynomial.cpp | 11 +++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/platform/src/generics/polynomial_type/monomial.cpp b/platform/src/generics/polynomial_type/monomial.cpp
index a324e50..56b8369 100644
--- a/platform/src/generics/polynomial_type/monomial.cpp
+++ b/platform/src/generics/polynomial_type/monomial.cpp
@@ -34,9 +34,9 @@ deg_t Monomial::operator[](Indeterminate indeterminate) const noexcept {
 
 Monomial& Monomial::operator*=(const Monomial& rhs)
 {
-    const auto lend = m_data.end();
     for (const auto& [ind, pow] : rhs) {
-        if (auto it = m_data.find(ind); it != lend) {
+        // Inserting invalidates iterators, so the end cannot be kept
+        if (auto it = m_data.find(ind); it != m_data.end()) {
             it->second += pow;
         } else { m_data.emplace(ind, pow); }
     }
diff --git a/platform/src/generics/polynomial_type/polynomial.cpp b/platform/src/generics/polynomial_type/polynomial.cpp
index 090580e..c52fd9c 100644
--- a/platform/src/generics/polynomial_type/polynomial.cpp
+++ b/platform/src/generics/polynomial_type/polynomial.cpp
@@ -24,11 +24,10 @@ deg_t Polynomial::degree() const noexcept
 
 void generics::poly_add_inplace(Polynomial& lhs, const Polynomial& rhs)
 {
-    const auto lend = lhs.end();
     dtl::RationalCoeff zero;
     for (const auto& [rhs_key, rhs_coeff] : rhs) {
         auto it = lhs.find(rhs_key);
-        if (it != lend) {
+        if (it != lhs.end()) {
             // Update existing term
             mpq_add(it->second.content, it->second.content, rhs_coeff.content);
             // If the resulting coefficient is zero, remove the term
@@ -42,11 +41,15 @@ void generics::poly_add_inplace(Polynomial& lhs, const Polynomial& rhs)
 
 void generics::poly_sub_inplace(Polynomial& lhs, const Polynomial& rhs)
 {
-    const auto lend = lhs.end();
+    if (&lhs == &rhs) {
+        lhs.clear();
+        return;
+    }
+
     dtl::RationalCoeff zero;
     for (const auto& [rhs_key, rhs_coeff] : rhs) {
         auto it = lhs.find(rhs_key);
-        if (it != lend) {
+        if (it != lhs.end()) {
             // Update existing term
             mpq_sub(it->second.content, it->second.content, rhs_coeff.content);
             // If the resulting coefficient is zero, remove the term
-- 
2.43.0


From 059d6832d265a5f544d4212f6139a44cd7e76995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:06 +0000
Subject: [PATCH 110/111] fix: order of generic monomials

---
 .../src/generics/polynomial_type/monomial.cpp     | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/platform/src/generics/polynomial_type/monomial.cpp b/platform/src/generics/polynomial_type/monomial.cpp
index 56b8369..def10f5 100644
--- a/platform/src/generics/polynomial_type/monomial.cpp
+++ b/platform/src/generics/polynomial_type/monomial.cpp
@@ -89,20 +89,7 @@ bool generics::operator<(const Monomial& lhs, const Monomial& rhs) noexcept
 
 bool generics::operator<=(const Monomial& lhs, const Monomial& rhs) noexcept
 {
-    const auto ldegree = lhs.degree();
-    const auto rdegree = rhs.degree();
-
-    if (ldegree < rdegree) { return true; }
-
-    if (ldegree == rdegree) {
-        return std::lexicographical_compare(lhs.begin(),
-                                            lhs.end(),
-                                            rhs.begin(),
-                                            rhs.end(),
-                                            std::less_equal<>());
-    }
-
-    return false;
+    return !(rhs < lhs);
 }
 
 
-- 
2.43.0


From 20e0863e3a0e06e14c15e21acb60dbd8b7819243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:06 +0000
Subject: [PATCH 111/111] fix: generic polynomials from fractions

---
 .../generics/polynomial_type/polynomial_number.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/platform/src/generics/polynomial_type/polynomial_number.cpp b/platform/src/generics/polynomial_type/polynomial_number.cpp
index ed3d91a..ecdf9bd 100644
--- a/platform/src/generics/polynomial_type/polynomial_number.cpp
+++ b/platform/src/generics/polynomial_type/polynomial_number.cpp
@@ -27,5 +27,17 @@ void PolynomialNumber::unsafe_from_rational(void* dst,
     int64_t denominator) const
 {
     auto* dst_ptr = static_cast<Polynomial*>(dst);
-    *dst_ptr = Polynomial(dtl::RationalCoeff{numerator, denominator});
+    if (numerator == 0) {
+        dst_ptr->clear();
+        return;
+    }
+
+    if (denominator < 0) {
+        numerator = -numerator;
+        denominator = -denominator;
+    }
+
+    dtl::RationalCoeff coeff(numerator, denominator);
+    mpq_canonicalize(coeff.content);
+    *dst_ptr = Polynomial(std::move(coeff));
 }
-- 
2.43.0


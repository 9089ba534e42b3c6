From 937c4f572aa76cb2edfc5be70fc7e73a43b9aceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:13 +0000
Subject: [PATCH 01/17] fix: seqN range validation does not overflow

---
 strictpp/slice.hpp | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/strictpp/slice.hpp b/strictpp/slice.hpp
index 9269851..5843b70 100644
--- a/strictpp/slice.hpp
+++ b/strictpp/slice.hpp
@@ -44,32 +44,36 @@ public:
    // Note: stride is already valid, start and size are "partially" valid.
    template <BaseType BaseT>
    STRICT_CONSTEXPR StrictBool valid(const BaseT& A) const {
-      if(size_ != 0_sl) {
-         return detail::valid_index(A, start_)
-             && detail::valid_index(A, start_ + stride_ * (size_ - 1_sl));
-      }
-      return true_sb;
+      return this->fits(A.size());
    }
 
    template <TwoDimBaseType TwoDimBaseT>
    STRICT_CONSTEXPR StrictBool valid_first(const TwoDimBaseT& A) const {
-      if(size_ != 0_sl) {
-         return detail::valid_row(A, start_)
-             && detail::valid_row(A, start_ + stride_ * (size_ - 1_sl));
-      }
-      return true_sb;
+      return this->fits(A.rows());
    }
 
    template <TwoDimBaseType TwoDimBaseT>
    STRICT_CONSTEXPR StrictBool valid_second(const TwoDimBaseT& A) const {
-      if(size_ != 0_sl) {
-         return detail::valid_col(A, start_)
-             && detail::valid_col(A, start_ + stride_ * (size_ - 1_sl));
+      return this->fits(A.cols());
+   }
+
+private:
+   // First and last position must be in the range [0, n). The last position is not computed
+   // directly since start_ + stride_ * (size_ - 1) is not necessarily representable.
+   STRICT_CONSTEXPR StrictBool fits(index_t n) const {
+      if(size_ == 0_sl) {
+         return true_sb;
+      }
+      if(start_ >= n) {
+         return false_sb;
+      }
+      if(const index_t nsteps = size_ - 1_sl; nsteps != 0_sl) {
+         return stride_ >= 0_sl ? stride_ <= (n - 1_sl - start_) / nsteps
+                                : stride_ >= -(start_ / nsteps);
       }
       return true_sb;
    }
 
-private:
    index_t start_;
    index_t size_;
    index_t stride_;
-- 
2.43.0


From 6cd8f042ecfbfc86d2ee6f5ec528d53e47a3b68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:14 +0000
Subject: [PATCH 02/17] fix: size of place::skipN does not overflow for large
 strides

---
 strictpp/slice.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/strictpp/slice.hpp b/strictpp/slice.hpp
index 5843b70..9aa49ee 100644
--- a/strictpp/slice.hpp
+++ b/strictpp/slice.hpp
@@ -380,6 +380,13 @@ public:
 };
 
 
+// Number of elements 0, stride, 2 * stride, ... that are less than n. Equivalent to
+// (n + stride - 1) / stride, where n + stride - 1 is not necessarily representable.
+STRICT_CONSTEXPR_INLINE index_t skip_size(index_t n, index_t stride) {
+   return n / stride + (n % stride != 0_sl ? 1_sl : 0_sl);
+}
+
+
 template <>
 class SliceWrapper<place::skipN> {
 public:
@@ -387,15 +394,15 @@ public:
    }
 
    STRICT_CONSTEXPR_INLINE auto get(OneDimBaseType auto const& A) const {
-      return seqN{0, (A.size() + x_.stride() - 1_sl) / x_.stride(), x_.stride()};
+      return seqN{0, skip_size(A.size(), x_.stride()), x_.stride()};
    }
 
    STRICT_CONSTEXPR_INLINE auto get_row(TwoDimBaseType auto const& A) const {
-      return seqN{0, (A.rows() + x_.stride() - 1_sl) / x_.stride(), x_.stride()};
+      return seqN{0, skip_size(A.rows(), x_.stride()), x_.stride()};
    }
 
    STRICT_CONSTEXPR_INLINE auto get_col(TwoDimBaseType auto const& A) const {
-      return seqN{0, (A.cols() + x_.stride() - 1_sl) / x_.stride(), x_.stride()};
+      return seqN{0, skip_size(A.cols(), x_.stride()), x_.stride()};
    }
 
 private:
-- 
2.43.0


From a400b52a174850fd983ec85d4cb594820821315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:25 +0000
Subject: [PATCH 03/17] fix: shape validation of view2D does not overflow

---
 strictpp/ArrayCommon/valid.hpp | 12 ++++++++++++
 strictpp/attach2D.hpp          |  9 +++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/strictpp/ArrayCommon/valid.hpp b/strictpp/ArrayCommon/valid.hpp
index 10b6e54..d901805 100644
--- a/strictpp/ArrayCommon/valid.hpp
+++ b/strictpp/ArrayCommon/valid.hpp
@@ -46,6 +46,18 @@ STRICT_CONSTEXPR StrictBool semi_valid_row_col_sizes(index_t m, index_t n) {
 }
 
 
+// Equivalent to nrows * ncols == size for nonnegative arguments, but the product cannot overflow.
+STRICT_CONSTEXPR StrictBool valid_reshape(index_t nrows, index_t ncols, index_t size) {
+   if(nrows < 0_sl || ncols < 0_sl) {
+      return false_sb;
+   }
+   if(nrows == 0_sl) {
+      return size == 0_sl;
+   }
+   return size % nrows == 0_sl && size / nrows == ncols;
+}
+
+
 template <Builtin T>
 STRICT_CONSTEXPR StrictBool valid_list2D(use::List2D<Strict<T>> list) {
    if(list.size() != 0) {
diff --git a/strictpp/attach2D.hpp b/strictpp/attach2D.hpp
index 9ffffa6..297ace7 100644
--- a/strictpp/attach2D.hpp
+++ b/strictpp/attach2D.hpp
@@ -5,6 +5,7 @@
 
 
 #include "ArrayCommon/array_traits.hpp"
+#include "ArrayCommon/valid.hpp"
 #include "StrictCommon/strict_common.hpp"
 #include "derived1D.hpp"
 #include "derived2D.hpp"
@@ -238,7 +239,7 @@ STRICT_NODISCARD_CONSTEXPR auto const_convert2D(const Base& A, ImplicitInt m, Im
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) & {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_reshape(nrows.get(), ncols.get(), Base::size()));
    if constexpr(detail::NonConstBaseType<StrictArrayBase1D>) {
       return detail::convert2D(*this, nrows, ncols);
    } else {
@@ -249,7 +250,7 @@ STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, Implici
 
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) const& {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_reshape(nrows.get(), ncols.get(), Base::size()));
    return detail::const_convert2D(*this, nrows, ncols);
 }
 
@@ -265,7 +266,7 @@ STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, Implici
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) & {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_reshape(nrows.get(), ncols.get(), Base::size()));
    if constexpr(detail::NonConstBaseType<StrictArrayBase2D>) {
       return detail::convert2D(*this, nrows, ncols);
    } else {
@@ -276,7 +277,7 @@ STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, Implici
 
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) const& {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_reshape(nrows.get(), ncols.get(), Base::size()));
    return detail::const_convert2D(*this, nrows, ncols);
 }
 
-- 
2.43.0


From 1038650604ad19747b3c34dfd3dbfdbae864508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:33 +0000
Subject: [PATCH 04/17] fix: remove_row(Last) and remove_col(Last) honour the
 offset from the end

---
 strictpp/array_base2D.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 8fa29be..16af20e 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -363,8 +363,8 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Pos row_pos) {
 
 
 template <Builtin T, AlignmentFlag AF>
-STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row([[maybe_unused]] Last lst) {
-   return this->remove_row(this->rows() - 1_sl);
+STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Last lst) {
+   return this->remove_row(this->rows() - 1_sl - lst.get());
 }
 
 
@@ -381,8 +381,8 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Pos col_pos) {
 
 
 template <Builtin T, AlignmentFlag AF>
-STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col([[maybe_unused]] Last lst) {
-   return this->remove_col(this->cols() - 1_sl);
+STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Last lst) {
+   return this->remove_col(this->cols() - 1_sl - lst.get());
 }
 
 
-- 
2.43.0


From ad02ba3e737f388b0f1a0eab0fae5a598d6e717b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:22 +0000
Subject: [PATCH 05/17] fix: move self-assignment of Array2D keeps its
 dimensions

---
 strictpp/array_base2D.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 16af20e..f00ebe7 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -219,9 +219,11 @@ STRICT_CONSTEXPR ArrayBase2D<T, AF>& ArrayBase2D<T, AF>::operator=(const ArrayBa
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR ArrayBase2D<T, AF>& ArrayBase2D<T, AF>::operator=(ArrayBase2D&& A) noexcept {
-   NORMAL_ASSERT_STRICT_DEBUG(same_size(*this, A));
-   A.dims_ = 0_sl;
-   data1D_ = std::move(A.data1D_);
+   if(this != &A) {
+      NORMAL_ASSERT_STRICT_DEBUG(same_size(*this, A));
+      A.dims_ = 0_sl;
+      data1D_ = std::move(A.data1D_);
+   }
    return *this;
 }
 
-- 
2.43.0


From 63c89d60134ef474e1a0ad5e1d9b1b9d467d1475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:10 +0000
Subject: [PATCH 06/17] fix: assigning a temporary slice of another size throws
 instead of terminating

---
 strictpp/derived1D.hpp | 5 ++++-
 strictpp/derived2D.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/strictpp/derived1D.hpp b/strictpp/derived1D.hpp
index 6544494..0b61814 100644
--- a/strictpp/derived1D.hpp
+++ b/strictpp/derived1D.hpp
@@ -14,6 +14,7 @@
 #include "slicearray_base1D.hpp"
 
 #include <iterator>
+#include <type_traits>
 #include <utility>
 
 
@@ -296,7 +297,9 @@ public:
       return static_cast<StrictArrayMutable1D&>(Base::operator=(A));
    }
 
-   STRICT_CONSTEXPR StrictArrayMutable1D& operator=(StrictArrayMutable1D&& A) noexcept {
+   // Assignment of slices throws if sizes do not match and exceptions are enabled.
+   STRICT_CONSTEXPR StrictArrayMutable1D& operator=(StrictArrayMutable1D&& A) noexcept(
+      std::is_nothrow_move_assignable_v<Base>) {
       return static_cast<StrictArrayMutable1D&>(Base::operator=(static_cast<Base&&>(std::move(A))));
    }
 
diff --git a/strictpp/derived2D.hpp b/strictpp/derived2D.hpp
index b813d9b..b9bbde4 100644
--- a/strictpp/derived2D.hpp
+++ b/strictpp/derived2D.hpp
@@ -15,6 +15,7 @@
 #include "slicearray_base2D.hpp"
 
 #include <iterator>
+#include <type_traits>
 #include <utility>
 
 
@@ -668,7 +669,9 @@ public:
       return static_cast<StrictArrayMutable2D&>(Base::operator=(A));
    }
 
-   STRICT_CONSTEXPR StrictArrayMutable2D& operator=(StrictArrayMutable2D&& A) noexcept {
+   // Assignment of slices throws if sizes do not match and exceptions are enabled.
+   STRICT_CONSTEXPR StrictArrayMutable2D& operator=(StrictArrayMutable2D&& A) noexcept(
+      std::is_nothrow_move_assignable_v<Base>) {
       return static_cast<StrictArrayMutable2D&>(Base::operator=(static_cast<Base&&>(std::move(A))));
    }
 
-- 
2.43.0


From 5c762dca54f00596f00db77099988f4d54fd9c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:09 +0000
Subject: [PATCH 07/17] fix: absolute value of positive zero is not negative
 zero

---
 strictpp/StrictCommon/strict_math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strictpp/StrictCommon/strict_math.hpp b/strictpp/StrictCommon/strict_math.hpp
index b70c138..1f8f903 100644
--- a/strictpp/StrictCommon/strict_math.hpp
+++ b/strictpp/StrictCommon/strict_math.hpp
@@ -27,7 +27,8 @@ STRICT_NODISCARD_CONSTEXPR_INLINE Strict<T> abss(Strict<T> x) {
    if constexpr(UnsignedInteger<T>) {
       return x;
    } else {
-      return x > Zero<T> ? x : -x;
+      // Subtraction from zero, so that the absolute value of zero does not have negative sign.
+      return x > Zero<T> ? x : Zero<T> - x;
    }
 }
 
-- 
2.43.0


From 62952248121c447cc80d62f8a8b3d0514bc373f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:05 +0000
Subject: [PATCH 08/17] fix: exclude(A, Last) honours the offset from the end

---
 strictpp/Expr/special.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 68f8919..0acc037 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -76,7 +76,7 @@ STRICT_CONSTEXPR auto exclude(const Base& A, Pos pos, Count count = Count{1});
 
 
 template <OneDimBaseType Base>
-STRICT_CONSTEXPR auto exclude(const Base& A, [[maybe_unused]] Last lst);
+STRICT_CONSTEXPR auto exclude(const Base& A, Last lst);
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -410,8 +410,8 @@ STRICT_CONSTEXPR auto exclude(const Base& A, Pos pos, Count count) {
 
 
 template <OneDimBaseType Base>
-STRICT_CONSTEXPR auto exclude(const Base& A, [[maybe_unused]] Last lst) {
-   return exclude(A, A.size_m1());
+STRICT_CONSTEXPR auto exclude(const Base& A, Last lst) {
+   return exclude(A, A.size_m1() - lst.get());
 }
 
 
-- 
2.43.0


From 57f704aaf654e2783427f2568d9b36d1049633b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:05 +0000
Subject: [PATCH 09/17] fix: exclude does not overflow on a huge count

---
 strictpp/Expr/special.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 0acc037..cd7b734 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -395,7 +395,7 @@ template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto exclude(const Base& A, ImplicitInt pos, ImplicitInt count) {
    ASSERT_STRICT_DEBUG(count.get() > 0_sl);
    ASSERT_STRICT_DEBUG(detail::valid_index(A, pos.get()));
-   ASSERT_STRICT_DEBUG(detail::valid_index(A, pos.get() + count.get() - 1_sl));
+   ASSERT_STRICT_DEBUG(count.get() <= A.size() - pos.get());
    auto AE = generate(A, [](auto x) { return x; });
    return generate(irange(A.size() - count.get()), [pos, count, AE](auto j) {
       return j < pos.get() ? AE.un(j) : AE.un(j + count.get());
-- 
2.43.0


From 2e07cbdeb43fbd8be28dc2f9d9d73f5640dcb195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:05 +0000
Subject: [PATCH 10/17] fix: linspace of size one is its start rather than nan

---
 strictpp/Expr/special.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index cd7b734..25c9e1d 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -433,8 +433,9 @@ template <Floating T>
 STRICT_CONSTEXPR auto linspace(ImplicitInt size, Strict<T> start, Strict<T> end) {
    ASSERT_STRICT_DEBUG(size.get() > 0_sl);
    auto sz = size.get();
-   return StrictArrayBase1D<detail::SequenceExpr1D<T>>{
-      start, sz, (end - start) / strict_cast<T>(sz - 1_sl)};
+   // A single point has no increment and is placed at start.
+   auto incr = sz > 1_sl ? (end - start) / strict_cast<T>(sz - 1_sl) : Zero<T>;
+   return StrictArrayBase1D<detail::SequenceExpr1D<T>>{start, sz, incr};
 }
 
 
-- 
2.43.0


From b5375ba9294c834d6f41494f0ed19e00edf474f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:59 +0000
Subject: [PATCH 11/17] fix: transpose and matvec_prod keep their slice and
 expression operands by copy

---
 strictpp/Expr/binary.hpp  | 4 +++-
 strictpp/Expr/special.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index d435432..cd077cb 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -724,7 +724,9 @@ STRICT_CONSTEXPR auto matvec_prod(const Base1& A, const Base2& x) {
       }
       return s;
    };
-   return row_reduce(A, [&x, &dot](auto row) { return dot(row, x); });
+   // Slices and expressions are stored by copy, arrays by reference.
+   auto xE = generate(x, [](auto z) { return z; });
+   return row_reduce(A, [xE, dot](auto row) { return dot(row, xE); });
 }
 
 
diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 25c9e1d..fda055f 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -513,7 +513,9 @@ STRICT_CONSTEXPR auto identity(ImplicitInt n) {
 
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto transpose(const Base& A) {
-   auto op = [&A](index_t i, index_t j) { return A.un(j, i); };
+   // Slices and expressions are stored by copy, arrays by reference.
+   auto AE = generate(A, [](auto x) { return x; });
+   auto op = [AE](index_t i, index_t j) { return AE.un(j, i); };
    using E = detail::IndexExpr2D<BuiltinTypeOf<Base>, decltype(op)>;
    return StrictArrayBase2D<E>{A.cols(), A.rows(), op};
 }
-- 
2.43.0


From 3337bff68cd21cae4a273f6bd06559672d24b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:22 +0000
Subject: [PATCH 12/17] fix: diag of the most negative index is rejected
 instead of overflowing

---
 strictpp/derived2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/derived2D.hpp b/strictpp/derived2D.hpp
index b9bbde4..e2af97d 100644
--- a/strictpp/derived2D.hpp
+++ b/strictpp/derived2D.hpp
@@ -637,7 +637,7 @@ private:
          ASSERT_STRICT_DEBUG(i.get() < Base::cols());
          return seqN{i, mins(Base::rows(), Base::cols() - i.get()), Base::cols() + 1_sl};
       } else {
-         ASSERT_STRICT_DEBUG(abss(i.get()) < Base::rows());
+         ASSERT_STRICT_DEBUG(i.get() > -Base::rows());
          return seqN{abss(i.get()) * Base::cols(),
                      mins(Base::rows() - abss(i.get()), Base::cols()),
                      Base::cols() + 1_sl};
-- 
2.43.0


From 92447aa0828ad26f3d718417f0044a71d2eae086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:22 +0000
Subject: [PATCH 13/17] fix: fast_pows_int accepts the smallest exponent

---
 strictpp/StrictCommon/strict_val_ops.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/strictpp/StrictCommon/strict_val_ops.hpp b/strictpp/StrictCommon/strict_val_ops.hpp
index 9531dd2..d4452c4 100644
--- a/strictpp/StrictCommon/strict_val_ops.hpp
+++ b/strictpp/StrictCommon/strict_val_ops.hpp
@@ -69,12 +69,13 @@ STRICT_NODISCARD_CONSTEXPR_INLINE_2026 Strict<T> pows_int(Strict<T> x, ImplicitI
 template <Floating T>
 STRICT_NODISCARD_CONSTEXPR_INLINE Strict<T> fast_pows_int(Strict<T> x, const ImplicitInt p) {
    auto res = One<T>;
-   auto power = abss(p.get());
+   // The sign is kept, since the absolute value of the smallest integer is not representable.
+   auto power = p.get();
    for(;;) {
-      if(strict_cast<bool>(power & 1_sl)) {
+      if(strict_cast<bool>(power % 2_sl)) {
          res *= x;
       }
-      power >>= 1_sl;
+      power /= 2_sl;
       if(!strict_cast<bool>(power)) {
          break;
       }
-- 
2.43.0


From c85792583c9b1fd5cd42949cf9d527780b643ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:03 +0000
Subject: [PATCH 14/17] fix: semi_random overloads taking Size, Rows, Cols, Low
 and High compile

---
 strictpp/Util/semi_random.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index be51207..c37bcf9 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -76,7 +76,7 @@ constexpr void semi_random_not0(Base&&... A);
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-template <Real T, typename U>
+template <Real T>
 constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high,
                            Seed seed = Seed{One<unsigned>});
 
@@ -394,7 +394,7 @@ constexpr void semi_random_not0(Base&&... A) {
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-template <Real T, typename U>
+template <Real T>
 constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high, Seed seed) {
    return detail::semi_random<T>(n, low, high, seed.get());
 }
@@ -402,7 +402,7 @@ constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high, Seed se
 
 template <Real T>
 constexpr auto semi_random(Size n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random<T>(n.get(), low.get(), high.get(), seed.get());
+   return semi_random<T>(n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -414,7 +414,7 @@ constexpr auto semi_random(ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Size n, Seed seed) {
-   return semi_random<T>(n.get(), seed.get());
+   return semi_random<T>(n.get(), seed);
 }
 
 
@@ -426,7 +426,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Strict<T> low, Strict<T
 
 template <Real T>
 constexpr auto semi_random(Rows m, Cols n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), low.get(), high.get(), seed.get());
+   return semi_random<T>(m.get(), n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -438,7 +438,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Rows m, Cols n, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), seed.get());
+   return semi_random<T>(m.get(), n.get(), seed);
 }
 
 
@@ -451,7 +451,7 @@ constexpr auto semi_random_not0(ImplicitInt n, Strict<T> low, Strict<T> high, Se
 
 template <Real T>
 constexpr auto semi_random_not0(Size n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random_not0<T>(n.get(), low.get(), high.get(), seed.get());
+   return semi_random_not0<T>(n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -463,7 +463,7 @@ constexpr auto semi_random_not0(ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Size n, Seed seed) {
-   return semi_random_not0<T>(n.get(), seed.get());
+   return semi_random_not0<T>(n.get(), seed);
 }
 
 
@@ -476,7 +476,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Strict<T> low, Str
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), low.get(), high.get(), seed.get());
+   return semi_random_not0<T>(m.get(), n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -488,7 +488,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), seed.get());
+   return semi_random_not0<T>(m.get(), n.get(), seed);
 }
 
 
-- 
2.43.0


From 29db34d0b629c935e103cfe7413d8f4634433d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:25 +0000
Subject: [PATCH 15/17] fix: semi-random generator reaches every residue so
 not-zero requests terminate

---
 strictpp/Util/semi_random.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index c37bcf9..ca376b6 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -178,7 +178,9 @@ public:
 
 private:
    static constexpr Strict<unsigned> modulus_{10'000'000U};
-   static constexpr Strict<unsigned> multiplier_{8U};
+   // multiplier_ - 1 is a multiple of 20 and increment_ is coprime to modulus_, thus all values below
+   // modulus_ occur, even modulo a power of two. Products fit unsigned.
+   static constexpr Strict<unsigned> multiplier_{421U};
    static constexpr Strict<unsigned> increment_{13U};
    mutable Strict<unsigned> previous_;
    Strict<T> low_;
-- 
2.43.0


From 704a5de9f09716dfb574b3387bf5092e28cbe4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:39 +0000
Subject: [PATCH 16/17] fix: values that are not a number are not within
 relative tolerance of values near zero

---
 strictpp/Util/error_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/Util/error_tools.hpp b/strictpp/Util/error_tools.hpp
index cd884de..a73a737 100644
--- a/strictpp/Util/error_tools.hpp
+++ b/strictpp/Util/error_tools.hpp
@@ -47,7 +47,7 @@ STRICT_CONSTEXPR_INLINE StrictBool within_tol_rel(Strict<T> x, Strict<T> y,
 
    auto abs1 = abss(x);
    auto abs2 = abss(y);
-   if(maxs(abs1, abs2) <= near_zero) {
+   if(abs1 <= near_zero && abs2 <= near_zero) {
       return true_sb;
    }
    return abss(x - y) / maxs(abs1, abs2) <= tol;
-- 
2.43.0


From ecb2af742b625e37c2cb657d8a0da32d8195dea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:13 +0000
Subject: [PATCH 17/17] fix: semi_random and semi_random_not0 of long by rows
 and columns are not ambiguous

---
 strictpp/Util/semi_random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index ca376b6..f9b3dfc 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -440,7 +440,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Rows m, Cols n, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), seed);
+   return detail::semi_random<T>(m.get(), n.get(), Zero<T>, One<T>, seed.get());
 }
 
 
@@ -490,7 +490,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), seed);
+   return detail::semi_random_not0<T>(m.get(), n.get(), Zero<T>, One<T>, seed.get());
 }
 
 
-- 
2.43.0


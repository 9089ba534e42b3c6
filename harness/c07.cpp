#include "vp.hpp"
// Resize and resize-and-assign

template <typename T>
static void resize1(bool pres_arg) {
   long n = vp_size("n", 0);
   In<T> d(n, "a");
   Array1D<T> A = mk(d);
   long m = vp_ext("m", VP_MIN);
   bool pres = true;
   bool rej = false;
   if(pres_arg) {
      pres = vp_flag("preserve");
      VP_TRY(r, A.resize(m, pres));
      rej = r;
   } else {
      VP_TRY(r, A.resize(m));
      rej = r;
   }
   vp_check(rej == (m < 0), "1-D resize rejected iff the new size is negative");
   if(rej) {
      check_is(A, d, "size unchanged when rejected", "elements unchanged when rejected");
   } else {
      vp_check(len(A) == m, "1-D resize gives exactly the requested size");
      VP_FORALL(p, 0, m) {
         T got = A.un(p).val();
         if(pres) vp_check(vp_same(got, p < n ? d[p] : T{}), "common prefix kept, rest zero");
      }
   }
}
VP_HARNESS(resize_long) { resize1<long>(false); }
VP_HARNESS(resize_double) { resize1<double>(false); }
VP_HARNESS(resize_bool) { resize1<bool>(false); }
VP_HARNESS(resize_flag) { resize1<double>(true); }

template <typename T>
static void resize2(bool pres_arg) {
   long r = vp_size("r", 0), c = vp_size("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<T> d(r, c, "a");
   Array2D<T> A = mk(d);
   long m = vp_ext("m", -VP_EMAX), n = vp_ext("n", -VP_EMAX);
   bool pres = true, rej = false;
   if(pres_arg) {
      pres = vp_flag("preserve");
      VP_TRY(t, A.resize(m, n, pres));
      rej = t;
   } else {
      VP_TRY(t, A.resize(m, n));
      rej = t;
   }
   bool ok = m >= 0 && n >= 0 && (m == 0) == (n == 0);
   vp_check(rej == !ok, "2-D resize rejected iff an extent is negative or exactly one is zero");
   if(rej) {
      check_is2(A, d, "extents unchanged when rejected", "elements unchanged when rejected");
   } else {
      vp_check(A.rows().val() == m && A.cols().val() == n && len(A) == m * n, "2-D resize gives exactly the requested extents");
      VP_FORALL(i, 0, m) {
         VP_FORALL(j, 0, n) {
            T got = A.un(i, j).val();
            if(pres) vp_check(vp_same(got, i < r && j < c ? d(i, j) : T{}), "common block kept, rest zero");
         }
      }
   }
}
VP_HARNESS(resize2_long) { resize2<long>(false); }
VP_HARNESS(resize2_double) { resize2<double>(false); }
VP_HARNESS(resize2_flag) { resize2<double>(true); }

// resize_and_assign
VP_HARNESS(assign_array) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> d(n, "a"), e(m, "b");
   Array1D<double> A = mk(d), B = mk(e);
   A.resize_and_assign(B);
   check_is(A, e, "size of the source", "values of the source");
   check_is(B, e, "source size unchanged", "source values unchanged");
}
VP_HARNESS(assign_expr) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> d(n, "a"), e(m, "b");
   Array1D<double> A = mk(d), B = mk(e);
   A.resize_and_assign(B + B);
   vp_check(len(A) == m, "size of the source");
   VP_FORALL(p, 0, m) { vp_check(vp_same(A.un(p).val(), e[p] + e[p]), "values of the source"); }
}
VP_HARNESS(assign_self_slice) {
   long n = vp_size("n", 0);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   long s = vp_ext("s", 0), k = vp_ext("k", 0);
   vp_assume(s + k <= n);
   A.resize_and_assign(A(seqN{s, k}));
   vp_check(len(A) == k, "size of the source");
   VP_FORALL(p, 0, k) { vp_check(vp_same(A.un(p).val(), d[s + p]), "values of the source"); }
}
VP_HARNESS(assign_self_reverse) {
   long n = vp_size("n", 0);
   In<long> d(n, "a");
   Array1D<long> A = mk(d);
   A.resize_and_assign(A(place::reverse));
   vp_check(len(A) == n, "size of the source");
   VP_FORALL(p, 0, n) { vp_check(A.un(p).val() == d[n - 1 - p], "values of the source"); }
}
VP_HARNESS(assign_self) {
   long n = vp_size("n", 0);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   A.resize_and_assign(A);
   check_is(A, d, "size of the source", "values of the source");
}
VP_HARNESS(assign_moved) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> d(n, "a"), e(m, "b");
   Array1D<double> A = mk(d), B = mk(e);
   A.resize_and_assign(std::move(B));
   check_is(A, e, "size of the source", "values of the source");
}
VP_HARNESS(assign2_array) {
   long r = vp_size("r", 0), c = vp_size("c", 0), m = vp_size("m", 0), n = vp_size("n", 0);
   vp_assume((r == 0) == (c == 0) && (m == 0) == (n == 0));
   In2<double> d(r, c, "a"), e(m, n, "b");
   Array2D<double> A = mk(d), B = mk(e);
   A.resize_and_assign(B);
   check_is2(A, e, "extents of the source", "values of the source");
   check_is2(B, e, "source extents unchanged", "source values unchanged");
}
VP_HARNESS(assign2_expr) {
   long r = vp_size("r", 0), c = vp_size("c", 0), m = vp_size("m", 0), n = vp_size("n", 0);
   vp_assume((r == 0) == (c == 0) && (m == 0) == (n == 0));
   In2<double> d(r, c, "a"), e(m, n, "b");
   Array2D<double> A = mk(d), B = mk(e);
   A.resize_and_assign(B * B);
   vp_check(A.rows().val() == m && A.cols().val() == n, "extents of the source");
   VP_FORALL(i, 0, m) { VP_FORALL(j, 0, n) { vp_check(vp_same(A.un(i, j).val(), e(i, j) * e(i, j)), "values of the source"); } }
}
VP_HARNESS(assign2_self_block) {
   long r = vp_size("r", 1), c = vp_size("c", 1);
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   long i0 = vp_ext("i0", 0), j0 = vp_ext("j0", 0), m = vp_ext("m", 1),
        n = vp_ext("n", 1);
   vp_assume(i0 + m <= r && j0 + n <= c);
   A.resize_and_assign(A.blockN(i0, j0, m, n));
   vp_check(A.rows().val() == m && A.cols().val() == n, "extents of the source");
   VP_FORALL(i, 0, m) { VP_FORALL(j, 0, n) { vp_check(vp_same(A.un(i, j).val(), d(i0 + i, j0 + j)), "values of the source"); } }
}
VP_HARNESS(assign2_self) {
   long r = vp_size("r", 0), c = vp_size("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   A.resize_and_assign(A);
   check_is2(A, d, "extents of the source", "values of the source");
}
VP_HARNESS(assign2_moved) {
   long r = vp_size("r", 0), c = vp_size("c", 0), m = vp_size("m", 0), n = vp_size("n", 0);
   vp_assume((r == 0) == (c == 0) && (m == 0) == (n == 0));
   In2<double> d(r, c, "a"), e(m, n, "b");
   Array2D<double> A = mk(d), B = mk(e);
   A.resize_and_assign(std::move(B));
   check_is2(A, e, "extents of the source", "values of the source");
   vp_check(B.rows().val() * B.cols().val() == len(B), "moved-from source keeps rows * cols = size");
}

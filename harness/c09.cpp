#include "vp.hpp"
// 2-D removal of rows / columns

// after removing cnt lines at pos
template <bool ROW, typename T>
static void check_removed(Array2D<T>& A, const In2<T>& d, bool rej, bool ok, long pos, long cnt) {
   vp_check(rej == !ok, "rejected iff the lines are not inside the array");
   if(rej) {
      check_is2(A, d, "shape unchanged when rejected", "elements unchanged when rejected");
   } else {
      long L = ROW ? d.r : d.c;
      bool all = cnt == L;
      long er = all ? 0 : ROW ? d.r - cnt : d.r, ec = all ? 0 : ROW ? d.c : d.c - cnt;
      vp_check(A.rows().val() == er && A.cols().val() == ec, "shape shrinks by the removed lines, 0 x 0 when none is left");
      vp_check(len(A) == er * ec, "size is rows times columns");
      if constexpr(ROW) {
         VP_FORALL(i, 0, er) {
            VP_FORALL(j, 0, ec) { vp_check(vp_same(A.un(i, j).val(), i < pos ? d(i, j) : d(i + cnt, j)), "surviving rows keep value and order"); }
         }
      } else {
         VP_FORALL(i, 0, er) {
            VP_FORALL(j, 0, ec) { vp_check(vp_same(A.un(i, j).val(), j < pos ? d(i, j) : d(i, j + cnt)), "surviving columns keep value and order"); }
         }
      }
   }
}
template <bool ROW, typename T, typename F>
static void group(F f) {
   long r = vp_ext("r", 0), c = vp_ext("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<T> d(r, c, "a");
   Array2D<T> A = mk(d);
   long pos = vp_int("pos", VP_MIN / 2, VP_MAX / 2), cnt = vp_int("cnt", VP_MIN / 2, VP_MAX / 2);
   VP_TRY(rej, f(A, pos, cnt));
   long L = ROW ? r : c;
   check_removed<ROW>(A, d, rej, pos >= 0 && cnt > 0 && pos < L && cnt <= L - pos, pos, cnt);
}
VP_HARNESS(rows_long) { group<true, long>([](auto& A, long p, long c) { A.remove_rows(p, c); }); }
VP_HARNESS(rows_double) { group<true, double>([](auto& A, long p, long c) { A.remove_rows(p, c); }); }
VP_HARNESS(rows_named) { group<true, double>([](auto& A, long p, long c) { A.remove_rows(Pos{Strict{p}}, Count{Strict{c}}); }); }
VP_HARNESS(cols_long) { group<false, long>([](auto& A, long p, long c) { A.remove_cols(p, c); }); }
VP_HARNESS(cols_double) { group<false, double>([](auto& A, long p, long c) { A.remove_cols(p, c); }); }
VP_HARNESS(cols_named) { group<false, double>([](auto& A, long p, long c) { A.remove_cols(Pos{Strict{p}}, Count{Strict{c}}); }); }

template <bool ROW, typename F>
static void one(F f) {
   long r = vp_ext("r", 0), c = vp_ext("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   long pos = vp_int("pos", VP_MIN / 2, VP_MAX / 2);
   VP_TRY(rej, f(A, pos));
   check_removed<ROW>(A, d, rej, pos >= 0 && pos < (ROW ? r : c), pos, 1);
}
VP_HARNESS(row) { one<true>([](auto& A, long p) { A.remove_row(p); }); }
VP_HARNESS(row_named) { one<true>([](auto& A, long p) { A.remove_row(Pos{Strict{p}}); }); }
VP_HARNESS(col) { one<false>([](auto& A, long p) { A.remove_col(p); }); }
VP_HARNESS(col_named) { one<false>([](auto& A, long p) { A.remove_col(Pos{Strict{p}}); }); }

template <bool ROW, typename F>
static void from_end(F f) {
   long r = vp_ext("r", 0), c = vp_ext("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   long k = vp_int("k", 0, VP_MAX / 2), L = ROW ? r : c;
   VP_TRY(rej, f(A, k));
   check_removed<ROW>(A, d, rej, k < L, L - 1 - k, 1);
}
VP_HARNESS(row_from_end) { from_end<true>([](auto& A, long k) { A.remove_row(Last{k}); }); }
VP_HARNESS(col_from_end) { from_end<false>([](auto& A, long k) { A.remove_col(Last{k}); }); }

template <bool ROW, typename F>
static void front_back(bool front, F f) {
   long r = vp_ext("r", 0), c = vp_ext("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   long cnt = vp_int("cnt", VP_MIN / 2, VP_MAX / 2), L = ROW ? r : c;
   VP_TRY(rej, f(A, cnt));
   check_removed<ROW>(A, d, rej, cnt > 0 && cnt <= L, front ? 0 : L - cnt, cnt);
}
VP_HARNESS(rows_front) { front_back<true>(true, [](auto& A, long c) { A.remove_rows_front(c); }); }
VP_HARNESS(rows_back) { front_back<true>(false, [](auto& A, long c) { A.remove_rows_back(c); }); }
VP_HARNESS(rows_front_named) { front_back<true>(true, [](auto& A, long c) { A.remove_rows_front(Count{Strict{c}}); }); }
VP_HARNESS(rows_back_named) { front_back<true>(false, [](auto& A, long c) { A.remove_rows_back(Count{Strict{c}}); }); }
VP_HARNESS(cols_front) { front_back<false>(true, [](auto& A, long c) { A.remove_cols_front(c); }); }
VP_HARNESS(cols_back) { front_back<false>(false, [](auto& A, long c) { A.remove_cols_back(c); }); }
VP_HARNESS(cols_front_named) { front_back<false>(true, [](auto& A, long c) { A.remove_cols_front(Count{Strict{c}}); }); }
VP_HARNESS(cols_back_named) { front_back<false>(false, [](auto& A, long c) { A.remove_cols_back(Count{Strict{c}}); }); }

// remove(vector of lines): ok iff strictly increasing and inside; survivors in order
template <bool ROW, typename F>
static void listed(F f) {
   long r = vp_small("r", 0, 7), c = vp_small("c", 0, 7), m = vp_small("m", 0, 5);
   vp_assume((r == 0) == (c == 0));
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   std::vector<ImplicitInt> v;
   std::vector<long> w;
   long L = ROW ? r : c;
   bool ok = true;
   long x0 = -1;
   for(long k = 0; k < m; ++k) {
      long x = vp_flag("any") ? vp_small("ix", -2, 9) : std::min(L - 1, x0 + 1 + vp_small("st", 0, 2));
      ok = ok && x >= 0 && x < L && (k == 0 || w.back() < x);
      x0 = x;
      w.push_back(x);
      v.push_back(ImplicitInt{x});
   }
   VP_TRY(rej, f(A, v));
   vp_check(rej == !ok, "rejected iff list not strictly increasing inside the array");
   if(rej) {
      check_is2(A, d, "shape unchanged when rejected", "elements unchanged when rejected");
   } else {
      bool all = m == L;
      long er = all ? 0 : ROW ? r - m : r, ec = all ? 0 : ROW ? c : c - m;
      vp_check(A.rows().val() == er && A.cols().val() == ec && len(A) == er * ec, "shape shrinks by the number of indexes");
      long q = 0;
      for(long l = 0; l < L; ++l) {
         if(std::find(w.begin(), w.end(), l) != w.end()) continue;
         for(long k = 0; k < (ROW ? ec : er); ++k)
            vp_check(vp_same(ROW ? A.un(q, k).val() : A.un(k, q).val(), ROW ? d(l, k) : d(k, l)), "survivors keep value and order");
         ++q;
      }
   }
}
VP_BOUNDED(rows_list) { listed<true>([](auto& A, auto& v) { A.remove_rows(v); }); }
VP_BOUNDED(cols_list) { listed<false>([](auto& A, auto& v) { A.remove_cols(v); }); }

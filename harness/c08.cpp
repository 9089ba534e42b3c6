#include "vp.hpp"
// 2-D insertion of rows / columns

// after inserting m lines at pos (ROW: lines are rows): A holds d with ins(k, x) spliced in
template <bool ROW, typename T, typename G>
static void check_inserted(Array2D<T>& A, const In2<T>& d, bool rej, bool ok, long pos, long m, long er, long ec, G ins) {
   vp_check(rej == !ok, "rejected iff position outside or source of another width");
   if(rej) {
      check_is2(A, d, "shape unchanged when rejected", "elements unchanged when rejected");
   } else {
      vp_check(A.rows().val() == er && A.cols().val() == ec, "shape grows by the inserted lines");
      vp_check(len(A) == er * ec, "size is rows times columns");
      if constexpr(ROW) {
         VP_FORALL(i, 0, er) {
            VP_FORALL(j, 0, ec) {
               T want = i < pos ? d(i, j) : i < pos + m ? ins(i - pos, j) : d(i - m, j);
               vp_check(vp_same(A.un(i, j).val(), want), "old rows keep order around the inserted ones");
            }
         }
      } else {
         VP_FORALL(i, 0, er) {
            VP_FORALL(j, 0, ec) {
               T want = j < pos ? d(i, j) : j < pos + m ? ins(j - pos, i) : d(i, j - m);
               vp_check(vp_same(A.un(i, j).val(), want), "old columns keep order around the inserted ones");
            }
         }
      }
   }
}
enum class At { Any, Front, Back };

// insertion of a whole 2-D source
template <bool ROW, typename T, typename F>
static void lines(At at, F f) {
   long r = vp_ext("r", 0), c = vp_ext("c", 0), s = vp_ext("s", 0), t = vp_ext("t", 0);
   vp_assume((r == 0) == (c == 0) && (s == 0) == (t == 0));
   In2<T> d(r, c, "a"), e(s, t, "b");
   Array2D<T> A = mk(d), B = mk(e);
   long L = ROW ? r : c;
   long pos = at == At::Any ? vp_int("pos", VP_MIN, VP_MAX) : at == At::Front ? 0 : L;
   bool empty = r == 0;
   bool ok = pos >= 0 && pos <= L && (empty || (ROW ? t == c : s == r));
   VP_TRY(rej, f(A, pos, B));
   check_inserted<ROW>(A, d, rej, ok, pos, ROW ? s : t, empty ? s : ROW ? r + s : r, empty ? t : ROW ? c : c + t,
                       [&](long k, long x) { return ROW ? e(k, x) : e(x, k); });
   if(!rej) {
      check_is2(B, e, "source shape unchanged", "source unchanged");
   }
}
VP_HARNESS(rows_long) { lines<true, long>(At::Any, [](auto& A, long p, auto& B) { A.insert_rows(p, B); }); }
VP_HARNESS(rows_double) { lines<true, double>(At::Any, [](auto& A, long p, auto& B) { A.insert_rows(p, B); }); }
VP_HARNESS(rows_named) { lines<true, double>(At::Any, [](auto& A, long p, auto& B) { A.insert_rows(Pos{Strict{p}}, B); }); }
VP_HARNESS(rows_front) { lines<true, double>(At::Front, [](auto& A, long, auto& B) { A.insert_rows_front(B); }); }
VP_HARNESS(rows_back) { lines<true, double>(At::Back, [](auto& A, long, auto& B) { A.insert_rows_back(B); }); }
VP_HARNESS(cols_long) { lines<false, long>(At::Any, [](auto& A, long p, auto& B) { A.insert_cols(p, B); }); }
VP_HARNESS(cols_double) { lines<false, double>(At::Any, [](auto& A, long p, auto& B) { A.insert_cols(p, B); }); }
VP_HARNESS(cols_named) { lines<false, double>(At::Any, [](auto& A, long p, auto& B) { A.insert_cols(Pos{Strict{p}}, B); }); }
VP_HARNESS(cols_front) { lines<false, double>(At::Front, [](auto& A, long, auto& B) { A.insert_cols_front(B); }); }
VP_HARNESS(cols_back) { lines<false, double>(At::Back, [](auto& A, long, auto& B) { A.insert_cols_back(B); }); }

// insertion of one 1-D source
template <bool ROW, typename T, typename F>
static void line(At at, F f) {
   long r = vp_ext("r", 0), c = vp_ext("c", 0), n = vp_size("n", 0);
   vp_assume((r == 0) == (c == 0));
   In2<T> d(r, c, "a");
   In<T> e(n, "b");
   Array2D<T> A = mk(d);
   Array1D<T> B = mk(e);
   long L = ROW ? r : c;
   long pos = at == At::Any ? vp_int("pos", VP_MIN, VP_MAX) : at == At::Front ? 0 : L;
   bool empty = r == 0;
   vp_assume(!(empty && n == 0));
   bool ok = pos >= 0 && pos <= L && (empty || n == (ROW ? c : r));
   VP_TRY(rej, f(A, pos, B));
   check_inserted<ROW>(A, d, rej, ok, pos, 1, empty ? (ROW ? 1 : n) : ROW ? r + 1 : r, empty ? (ROW ? n : 1) : ROW ? c : c + 1,
                       [&](long, long x) { return e[x]; });
}
VP_HARNESS(row_long) { line<true, long>(At::Any, [](auto& A, long p, auto& B) { A.insert_row(p, B); }); }
VP_HARNESS(row_double) { line<true, double>(At::Any, [](auto& A, long p, auto& B) { A.insert_row(p, B); }); }
VP_HARNESS(row_named) { line<true, double>(At::Any, [](auto& A, long p, auto& B) { A.insert_row(Pos{Strict{p}}, B); }); }
VP_HARNESS(row_front) { line<true, double>(At::Front, [](auto& A, long, auto& B) { A.insert_row_front(B); }); }
VP_HARNESS(row_back) { line<true, double>(At::Back, [](auto& A, long, auto& B) { A.insert_row_back(B); }); }
VP_HARNESS(col_long) { line<false, long>(At::Any, [](auto& A, long p, auto& B) { A.insert_col(p, B); }); }
VP_HARNESS(col_double) { line<false, double>(At::Any, [](auto& A, long p, auto& B) { A.insert_col(p, B); }); }
VP_HARNESS(col_named) { line<false, double>(At::Any, [](auto& A, long p, auto& B) { A.insert_col(Pos{Strict{p}}, B); }); }
VP_HARNESS(col_front) { line<false, double>(At::Front, [](auto& A, long, auto& B) { A.insert_col_front(B); }); }
VP_HARNESS(col_back) { line<false, double>(At::Back, [](auto& A, long, auto& B) { A.insert_col_back(B); }); }

// sources that read the array itself
template <bool ROW, typename F>
static void self_lines(F f) {
   long r = vp_ext("r", 1), c = vp_ext("c", 1);
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   long L = ROW ? r : c;
   long pos = vp_int("pos", VP_MIN, VP_MAX);
   VP_TRY(rej, f(A, pos));
   check_inserted<ROW>(A, d, rej, pos >= 0 && pos <= L, pos, L, ROW ? r + r : r, ROW ? c : c + c, [&](long k, long x) { return ROW ? d(k, x) : d(x, k); });
}
VP_HARNESS(rows_self) { self_lines<true>([](auto& A, long p) { A.insert_rows(p, A); }); }
VP_HARNESS(cols_self) { self_lines<false>([](auto& A, long p) { A.insert_cols(p, A); }); }
template <bool ROW, typename F>
static void self_line(F f) {
   long r = vp_ext("r", 1), c = vp_ext("c", 1), q = vp_int("q", 0, VP_EMAX);
   vp_assume(q < (ROW ? r : c));
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   long pos = vp_int("pos", VP_MIN, VP_MAX);
   VP_TRY(rej, f(A, pos, q));
   check_inserted<ROW>(A, d, rej, pos >= 0 && pos <= (ROW ? r : c), pos, 1, ROW ? r + 1 : r, ROW ? c : c + 1, [&](long, long x) { return ROW ? d(q, x) : d(x, q); });
}
VP_HARNESS(row_self_row) { self_line<true>([](auto& A, long p, long q) { A.insert_row(p, A.row(q)); }); }
VP_HARNESS(col_self_col) { self_line<false>([](auto& A, long p, long q) { A.insert_col(p, A.col(q)); }); }
VP_HARNESS(row_self_expr) {
   long r = vp_ext("r", 1), c = vp_ext("c", 1), q = vp_int("q", 0, VP_EMAX);
   vp_assume(q < r);
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   long pos = vp_int("pos", VP_MIN, VP_MAX);
   VP_TRY(rej, A.insert_row(pos, A.row(q) + A.row(q)));
   check_inserted<true>(A, d, rej, pos >= 0 && pos <= r, pos, 1, r + 1, c, [&](long, long x) { return d(q, x) + d(q, x); });
}
// views and expressions of other arrays
VP_HARNESS(rows_block) {
   long r = vp_ext("r", 1), c = vp_ext("c", 1), s = vp_ext("s", 1), t = vp_ext("t", 1), m = vp_ext("m", 1);
   In2<double> d(r, c, "a"), e(s, t, "b");
   Array2D<double> A = mk(d), B = mk(e);
   long r0 = vp_ext("r0", 0), c0 = vp_ext("c0", 0);
   vp_assume(r0 + m <= s && c0 + c <= t);
   long pos = vp_int("pos", VP_MIN, VP_MAX);
   VP_TRY(rej, A.insert_rows(pos, B.blockN(r0, c0, m, c)));
   check_inserted<true>(A, d, rej, pos >= 0 && pos <= r, pos, m, r + m, c, [&](long k, long x) { return e(r0 + k, c0 + x); });
}
VP_HARNESS(cols_block) {
   long r = vp_ext("r", 1), c = vp_ext("c", 1), s = vp_ext("s", 1), t = vp_ext("t", 1), m = vp_ext("m", 1);
   In2<double> d(r, c, "a"), e(s, t, "b");
   Array2D<double> A = mk(d), B = mk(e);
   long r0 = vp_ext("r0", 0), c0 = vp_ext("c0", 0);
   vp_assume(r0 + r <= s && c0 + m <= t);
   long pos = vp_int("pos", VP_MIN, VP_MAX);
   VP_TRY(rej, A.insert_cols(pos, B.blockN(r0, c0, r, m)));
   check_inserted<false>(A, d, rej, pos >= 0 && pos <= c, pos, m, r, c + m, [&](long k, long x) { return e(r0 + x, c0 + k); });
}

#include "vp.hpp"
// Checked element access: subscript, call, at; from the front and from the end (last - k)

// where(i) : position addressed by argument i;  valid iff 0 <= where < n
struct Front { static long pos(long i, long) { return i; } static constexpr long lo = VP_MIN; static auto ix(long i) { return i; } };
struct Back { static long pos(long i, long n) { return n - 1 - i; } static constexpr long lo = VP_MIN; static auto ix(long i) { return Last{i}; } };

template <typename T, typename W, typename F>
static void read1(F f) {
   long n = vp_size("n", 0);
   In<T> d(n, "a");
   Array1D<T> A = mk(d);
   long i = vp_int("i", W::lo, VP_MAX), p = W::pos(i, n);
   T got{};
   VP_TRY(rej, got = f(A, W::ix(i)));
   vp_check(rej == !(p >= 0 && p < n), "rejected iff index outside the array");
   if(!rej) vp_check(vp_same(got, d[p]), "yields the addressed element");
   check_is(A, d, "size unchanged by access", "elements unchanged by reading");
}
template <typename T, typename W, typename F>
static void write1(F f) {
   long n = vp_size("n", 0);
   In<T> d(n, "a");
   Array1D<T> A = mk(d);
   T x = vp_val<T>("x");
   long i = vp_int("i", W::lo, VP_MAX), p = W::pos(i, n);
   VP_TRY(rej, f(A, W::ix(i), Strict<T>{x}));
   vp_check(rej == !(p >= 0 && p < n), "rejected iff index outside the array");
   vp_check(len(A) == n, "size unchanged by access");
   VP_FORALL(q, 0, n) { vp_check(vp_same(A.un(q).val(), !rej && q == p ? x : d[q]), "writing changes exactly that element"); }
}
VP_HARNESS(read_sub_long) { read1<long, Front>([](auto& A, auto i) { return A[i].val(); }); }
VP_HARNESS(read_sub_double) { read1<double, Front>([](auto& A, auto i) { return A[i].val(); }); }
VP_HARNESS(read_sub_const) { read1<double, Front>([](auto const& A, auto i) { return A[i].val(); }); }
VP_HARNESS(read_at) { read1<int, Front>([](auto& A, auto i) { return A.at(i).val(); }); }
VP_HARNESS(read_at_const) { read1<bool, Front>([](auto const& A, auto i) { return A.at(i).val(); }); }
VP_HARNESS(read_sub_last) { read1<double, Back>([](auto& A, auto i) { return A[i].val(); }); }
VP_HARNESS(read_sub_last_const) { read1<double, Back>([](auto const& A, auto i) { return A[i].val(); }); }
VP_HARNESS(read_at_last) { read1<long, Back>([](auto& A, auto i) { return A.at(i).val(); }); }
VP_HARNESS(read_at_last_const) { read1<long, Back>([](auto const& A, auto i) { return A.at(i).val(); }); }
VP_HARNESS(write_sub_long) { write1<long, Front>([](auto& A, auto i, auto x) { A[i] = x; }); }
VP_HARNESS(write_sub_double) { write1<double, Front>([](auto& A, auto i, auto x) { A[i] = x; }); }
VP_HARNESS(write_at) { write1<double, Front>([](auto& A, auto i, auto x) { A.at(i) = x; }); }
VP_HARNESS(write_sub_last) { write1<double, Back>([](auto& A, auto i, auto x) { A[i] = x; }); }
VP_HARNESS(write_at_last) { write1<long, Back>([](auto& A, auto i, auto x) { A.at(i) = x; }); }
VP_HARNESS(last_minus) {
   long n = vp_size("n", 0);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   long k = vp_int("k", VP_MIN, VP_MAX);
   double got = 0;
   VP_TRY(rej, got = A[place::last - Strict<long>{k}].val());
   vp_check(rej == !(k >= 0 && k < n), "rejected iff index outside the array");
   if(!rej) vp_check(vp_same(got, d[n - 1 - k]), "yields the addressed element");
}
// read-only lazy expressions and views
template <typename W, typename F>
static void expr1(F f) {
   long n = vp_size("n", 0);
   In<double> d(n, "a"), e(n, "b");
   Array1D<double> A = mk(d), B = mk(e);
   long i = vp_int("i", W::lo, VP_MAX), p = W::pos(i, n);
   double got = 0;
   VP_TRY(rej, got = f(A + B, W::ix(i)));
   vp_check(rej == !(p >= 0 && p < n), "rejected iff index outside the expression");
   if(!rej) vp_check(vp_same(got, d[p] + e[p]), "yields the addressed element of the expression");
}
VP_HARNESS(expr_sub) { expr1<Front>([](auto E, auto i) { return E[i].val(); }); }
VP_HARNESS(expr_at) { expr1<Front>([](auto const& E, auto i) { return E.at(i).val(); }); }
VP_HARNESS(expr_sub_last) { expr1<Back>([](auto E, auto i) { return E[i].val(); }); }
VP_HARNESS(expr_at_last) { expr1<Back>([](auto const& E, auto i) { return E.at(i).val(); }); }
template <typename W, typename F>
static void view1(F f) {
   long n = vp_size("n", 0), s = vp_ext("s", 0), m = vp_ext("m", 0);
   vp_assume(s + m <= n);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   double x = vp_f64("x");
   long i = vp_int("i", W::lo, VP_MAX), p = W::pos(i, m);
   double old = 0;
   VP_TRY(rej, old = f(A(seqN{s, m}), W::ix(i), Strict<double>{x}));
   vp_check(rej == !(p >= 0 && p < m), "rejected iff index outside the view");
   if(!rej) vp_check(vp_same(old, d[s + p]), "yields the addressed element of the view");
   VP_FORALL(q, 0, n) { vp_check(vp_same(A.un(q).val(), !rej && q == s + p ? x : d[q]), "writing through the view changes exactly that element"); }
}
VP_HARNESS(view_sub) { view1<Front>([](auto v, auto i, auto x) { double o = v[i].val(); v[i] = x; return o; }); }
VP_HARNESS(view_at) { view1<Front>([](auto v, auto i, auto x) { double o = v.at(i).val(); v.at(i) = x; return o; }); }
VP_HARNESS(view_last) { view1<Back>([](auto v, auto i, auto x) { double o = v[i].val(); v[i] = x; return o; }); }
VP_HARNESS(view_at_last) { view1<Back>([](auto v, auto i, auto x) { double o = v.at(i).val(); v.at(i) = x; return o; }); }
// fixed-size arrays
template <typename W, long N, typename F>
static void fixed1(F f) {
   In<double> d(N, "a");
   FixedArray1D<double, N> A;
   for(long k = 0; k < N; ++k) A.un(k) = Strict{d[k]};
   double x = vp_f64("x");
   long i = vp_int("i", W::lo, VP_MAX), p = W::pos(i, N);
   double old = 0;
   VP_TRY(rej, old = f(A, W::ix(i), Strict<double>{x}));
   vp_check(rej == !(p >= 0 && p < N), "rejected iff index outside the fixed array");
   if(!rej) vp_check(vp_same(old, d[p]), "yields the addressed element of the fixed array");
   VP_FORALL(q, 0, N) { vp_check(vp_same(A.un(q).val(), !rej && q == p ? x : d[q]), "writing changes exactly that element of the fixed array"); }
}
VP_HARNESS(fixed_sub) { fixed1<Front, 5>([](auto& v, auto i, auto x) { double o = v[i].val(); v[i] = x; return o; }); }
VP_HARNESS(fixed_at) { fixed1<Front, 7>([](auto& v, auto i, auto x) { double o = v.at(i).val(); v.at(i) = x; return o; }); }
VP_HARNESS(fixed_last) { fixed1<Back, 4>([](auto& v, auto i, auto x) { double o = v[i].val(); v[i] = x; return o; }); }

// ---- two dimensions
template <typename T, typename W1, typename W2, typename F>
static void acc2(F f) {
   long r = vp_size("r", 0), c = vp_size("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<T> d(r, c, "a");
   Array2D<T> A = mk(d);
   T x = vp_val<T>("x");
   long i = vp_int("i", W1::lo, VP_MAX), j = vp_int("j", W2::lo, VP_MAX);
   long pi = W1::pos(i, r), pj = W2::pos(j, c);
   T old{};
   VP_TRY(rej, old = f(A, W1::ix(i), W2::ix(j), Strict<T>{x}));
   bool ok = pi >= 0 && pi < r && pj >= 0 && pj < c;
   vp_check(rej == !ok, "rejected iff row or column outside the array");
   if(!rej) vp_check(vp_same(old, d(pi, pj)), "yields the element at that row and column");
   vp_check(A.rows().val() == r && A.cols().val() == c, "extents unchanged by access");
   VP_FORALL(u, 0, r) {
      VP_FORALL(v, 0, c) { vp_check(vp_same(A.un(u, v).val(), ok && u == pi && v == pj ? x : d(u, v)), "writing changes exactly that element"); }
   }
}
template <typename T, typename W1, typename W2, typename F>
static void read2(F f) {
   long r = vp_size("r", 0), c = vp_size("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<T> d(r, c, "a");
   Array2D<T> A = mk(d);
   long i = vp_int("i", W1::lo, VP_MAX), j = vp_int("j", W2::lo, VP_MAX);
   long pi = W1::pos(i, r), pj = W2::pos(j, c);
   T old{};
   VP_TRY(rej, old = f(A, W1::ix(i), W2::ix(j)));
   bool ok = pi >= 0 && pi < r && pj >= 0 && pj < c;
   vp_check(rej == !ok, "rejected iff row or column outside the array");
   if(!rej) vp_check(vp_same(old, d(pi, pj)), "yields the element at that row and column");
}
VP_HARNESS(call2_long) { acc2<long, Front, Front>([](auto& A, auto i, auto j, auto x) { long o = A(i, j).val(); A(i, j) = x; return o; }); }
VP_HARNESS(call2_double) { acc2<double, Front, Front>([](auto& A, auto i, auto j, auto x) { double o = A(i, j).val(); A(i, j) = x; return o; }); }
VP_HARNESS(at2) { acc2<double, Front, Front>([](auto& A, auto i, auto j, auto x) { double o = A.at(i, j).val(); A.at(i, j) = x; return o; }); }
VP_HARNESS(call2_last_last) { acc2<double, Back, Back>([](auto& A, auto i, auto j, auto x) { double o = A(i, j).val(); A(i, j) = x; return o; }); }
VP_HARNESS(call2_front_last) { acc2<double, Front, Back>([](auto& A, auto i, auto j, auto x) { double o = A(i, j).val(); A(i, j) = x; return o; }); }
VP_HARNESS(at2_last_front) { acc2<double, Back, Front>([](auto& A, auto i, auto j, auto x) { double o = A.at(i, j).val(); A.at(i, j) = x; return o; }); }
VP_HARNESS(at2_last_last) { acc2<long, Back, Back>([](auto& A, auto i, auto j, auto x) { long o = A.at(i, j).val(); A.at(i, j) = x; return o; }); }
VP_HARNESS(call2_const) { read2<double, Front, Front>([](auto const& A, auto i, auto j) { return A(i, j).val(); }); }
VP_HARNESS(at2_const) { read2<double, Front, Front>([](auto const& A, auto i, auto j) { return A.at(i, j).val(); }); }
VP_HARNESS(call2_const_last) { read2<double, Back, Front>([](auto const& A, auto i, auto j) { return A(i, j).val(); }); }
VP_HARNESS(at2_const_last) { read2<double, Front, Back>([](auto const& A, auto i, auto j) { return A.at(i, j).val(); }); }
VP_HARNESS(expr2) {
   long r = vp_size("r", 0), c = vp_size("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<double> d(r, c, "a"), e(r, c, "b");
   Array2D<double> A = mk(d), B = mk(e);
   long i = vp_int("i", VP_MIN, VP_MAX), j = vp_int("j", VP_MIN, VP_MAX);
   double got = 0;
   VP_TRY(rej, got = (A * B)(i, j).val());
   vp_check(rej == !(i >= 0 && i < r && j >= 0 && j < c), "rejected iff row or column outside the expression");
   if(!rej) vp_check(vp_same(got, d(i, j) * e(i, j)), "yields the element of the expression at that row and column");
}
template <long R, long C, typename F>
static void fixed2(F f) {
   In2<double> d(R, C, "a");
   FixedArray2D<double, R, C> A;
   for(long i = 0; i < R; ++i)
      for(long j = 0; j < C; ++j) A.un(i, j) = Strict{d(i, j)};
   double x = vp_f64("x");
   long i = vp_int("i", VP_MIN, VP_MAX), j = vp_int("j", VP_MIN, VP_MAX);
   double old = 0;
   VP_TRY(rej, old = f(A, i, j, Strict{x}));
   bool ok = i >= 0 && i < R && j >= 0 && j < C;
   vp_check(rej == !ok, "rejected iff row or column outside the fixed array");
   if(ok) vp_check(vp_same(old, d(i, j)), "yields the element of the fixed array at that row and column");
   VP_FORALL(u, 0, R) {
      VP_FORALL(v, 0, C) { vp_check(vp_same(A.un(u, v).val(), ok && u == i && v == j ? x : d(u, v)), "writing changes exactly that element of the fixed array"); }
   }
}
VP_HARNESS(fixed2_call) { fixed2<3, 4>([](auto& A, auto i, auto j, auto x) { double o = A(i, j).val(); A(i, j) = x; return o; }); }
VP_HARNESS(fixed2_at) { fixed2<4, 2>([](auto& A, auto i, auto j, auto x) { double o = A.at(i, j).val(); A.at(i, j) = x; return o; }); }
// sizes, emptiness
VP_HARNESS(extents) {
   long r = vp_size("r", 0), c = vp_size("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   vp_check(len(A) == r * c && A.size_m1().val() == r * c - 1 && A.rows_m1().val() == r - 1 && A.cols_m1().val() == c - 1, "extents are reported");
   vp_check(A.empty().val() == (r == 0), "empty iff no elements");
   auto v = A.view1D();
   vp_check(len(v) == r * c && v.empty().val() == (r == 0), "flat view has all elements");
}

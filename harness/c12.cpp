#include "vp.hpp"
// generated and combined arrays
static long vp_shape(const char* rn, const char* cn, long& c) {
   long r = vp_ext(rn, 0);
   c = vp_ext(cn, 0);
   vp_assume((r == 0) == (c == 0));
   return r;
}
// element k of E is g(k), 0 <= k < n, and nothing else
template <typename EX, typename G>
static void is1(const EX& E, long n, G g) {
   vp_check(len(E) == n, "expression has exactly the defined extent");
   VP_FORALL(k, 0, n) { vp_check(vp_same(E.un(k).val(), g(k)), "element k is exactly the value of the definition"); }
}
template <typename EX, typename G>
static void is2(const EX& E, long r, long c, G g) {
   vp_check(E.rows().val() == r && E.cols().val() == c && len(E) == r * c, "expression has exactly the defined extents");
   VP_FORALL(i, 0, r) {
      VP_FORALL(j, 0, c) {
         auto v = g(i, j);
         vp_check(vp_same(E.un(i, j).val(), v), "element (i, j) is exactly the value of the definition");
         vp_check(vp_same(E.un(i * c + j).val(), v), "linear element i * cols + j is exactly the value of the definition");
      }
   }
}
// ---- merge
VP_HARNESS(merge2) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> a(n, "a"), b(m, "b");
   Array1D<double> A = mk(a), B = mk(b);
   is1(merge(A, B), n + m, [&](long k) { return k < n ? a[k] : b[k - n]; });
}
VP_HARNESS(merge2_i64) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<long> a(n, "a"), b(m, "b");
   Array1D<long> A = mk(a), B = mk(b);
   is1(merge(A, B), n + m, [&](long k) { return k < n ? a[k] : b[k - n]; });
}
VP_HARNESS(merge2_bool) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<bool> a(n, "a"), b(m, "b");
   Array1D<bool> A = mk(a), B = mk(b);
   is1(merge(A, B), n + m, [&](long k) { return k < n ? a[k] : b[k - n]; });
}
VP_HARNESS(merge3) {
   long n = vp_size("n", 0), m = vp_size("m", 0), l = vp_size("l", 0);
   In<double> a(n, "a"), b(m, "b"), d(l, "d");
   Array1D<double> A = mk(a), B = mk(b), D = mk(d);
   is1(merge(A, B, D), n + m + l, [&](long k) { return k < n ? a[k] : k < n + m ? b[k - n] : d[k - n - m]; });
}
VP_HARNESS(merge4) {
   long n = vp_size("n", 0), m = vp_size("m", 0), l = vp_size("l", 0), o = vp_size("o", 0);
   In<double> a(n, "a"), b(m, "b"), d(l, "d"), e(o, "e");
   Array1D<double> A = mk(a), B = mk(b), D = mk(d), F = mk(e);
   is1(merge(A, B, D, F), n + m + l + o, [&](long k) {
      return k < n ? a[k] : k < n + m ? b[k - n] : k < n + m + l ? d[k - n - m] : e[k - n - m - l];
   });
}
VP_HARNESS(merge_self) {
   long n = vp_size("n", 0);
   In<double> a(n, "a");
   Array1D<double> A = mk(a);
   is1(merge(A, A), 2 * n, [&](long k) { return k < n ? a[k] : a[k - n]; });
}
VP_HARNESS(merge_array_value) {
   long n = vp_size("n", 0);
   In<double> a(n, "a");
   double x = vp_f64("x");
   Array1D<double> A = mk(a);
   is1(merge(A, Strict{x}), n + 1, [&](long k) { return k < n ? a[k] : x; });
}
VP_HARNESS(merge_array_values) {
   long n = vp_size("n", 0);
   In<double> a(n, "a");
   double x = vp_f64("x"), y = vp_f64("y"), z = vp_f64("z");
   Array1D<double> A = mk(a);
   is1(merge(A, Strict{x}, Strict{y}, Strict{z}), n + 3, [&](long k) { return k < n ? a[k] : k == n ? x : k == n + 1 ? y : z; });
}
VP_HARNESS(merge_value_array) {
   long n = vp_size("n", 0);
   In<double> a(n, "a");
   double x = vp_f64("x");
   Array1D<double> A = mk(a);
   is1(merge(Strict{x}, A), n + 1, [&](long k) { return k == 0 ? x : a[k - 1]; });
}
VP_HARNESS(merge_values_array) {
   long n = vp_size("n", 0);
   In<double> a(n, "a");
   double x = vp_f64("x"), y = vp_f64("y"), z = vp_f64("z");
   Array1D<double> A = mk(a);
   is1(merge(Strict{x}, Strict{y}, Strict{z}, A), n + 3, [&](long k) { return k == 0 ? x : k == 1 ? y : k == 2 ? z : a[k - 3]; });
}
VP_HARNESS(merge_views) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> a(n, "a"), b(m, "b");
   Array1D<double> A = mk(a), B = mk(b);
   is1(merge(A(place::reverse), B), n + m, [&](long k) { return k < n ? a[n - 1 - k] : b[k - n]; });
   is1(merge(A, B(place::even)), n + (m + 1) / 2, [&](long k) { return k < n ? a[k] : b[2 * (k - n)]; });
}
VP_HARNESS(merge_expr_stored) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> a(n, "a"), b(m, "b");
   Array1D<double> A = mk(a), B = mk(b);
   auto E = merge(-A, B);
   Array1D<double> C = E;
   is1(C, n + m, [&](long k) { return k < n ? -a[k] : b[k - n]; });
}
// ---- 2-D merges
VP_HARNESS(horizontal2) {
   long c, e, r = vp_shape("r", "c", c), s = vp_shape("s", "e", e);
   In2<double> a(r, c, "a"), b(s, e, "b");
   Array2D<double> A = mk(a), B = mk(b);
   VP_TRY(rej, is2(merge_horizontal(A, B), r == 0 ? s : r, c + e, [&](long i, long j) { return j < c ? a(i, j) : b(i, j - c); }));
   vp_check(rej == (r != 0 && s != 0 && r != s), "rejected iff two non-empty operands differ in rows");
}
VP_BOUNDED(horizontal3) {
   long c, e, g, r = vp_shape("r", "c", c), s = vp_shape("s", "e", e), t = vp_shape("t", "g", g);
   In2<double> a(r, c, "a"), b(s, e, "b"), d(t, g, "d");
   Array2D<double> A = mk(a), B = mk(b), D = mk(d);
   long R = r != 0 ? r : s != 0 ? s : t;
   VP_TRY(rej, {
      auto E = merge_horizontal(A, B, D);
      vp_check(E.rows().val() == R && E.cols().val() == c + e + g && len(E) == R * (c + e + g), "expression has exactly the defined extents");
      VP_FORALL(i, 0, R) {
         VP_FORALL(j, 0, c + e + g) {
            vp_check(vp_same(E.un(i, j).val(), j < c ? a(i, j) : j < c + e ? b(i, j - c) : d(i, j - c - e)), "element (i, j) is exactly the value of the definition");
         }
      }
   });
   vp_check(rej == ((r != 0 && r != R) || (s != 0 && s != R) || (t != 0 && t != R)), "rejected iff two non-empty operands differ in rows");
}
VP_HARNESS(vertical2) {
   long c, e, r = vp_shape("r", "c", c), s = vp_shape("s", "e", e);
   In2<double> a(r, c, "a"), b(s, e, "b");
   Array2D<double> A = mk(a), B = mk(b);
   VP_TRY(rej, is2(merge_vertical(A, B), r + s, c == 0 ? e : c, [&](long i, long j) { return i < r ? a(i, j) : b(i - r, j); }));
   vp_check(rej == (c != 0 && e != 0 && c != e), "rejected iff two non-empty operands differ in columns");
}
VP_HARNESS(vertical3) {
   long c, e, g, r = vp_shape("r", "c", c), s = vp_shape("s", "e", e), t = vp_shape("t", "g", g);
   In2<double> a(r, c, "a"), b(s, e, "b"), d(t, g, "d");
   Array2D<double> A = mk(a), B = mk(b), D = mk(d);
   long C = c != 0 ? c : e != 0 ? e : g;
   VP_TRY(rej, {
      auto E = merge_vertical(A, B, D);
      vp_check(E.rows().val() == r + s + t && E.cols().val() == C && len(E) == (r + s + t) * C, "expression has exactly the defined extents");
      VP_FORALL(i, 0, r + s + t) {
         VP_FORALL(j, 0, C) {
            vp_check(vp_same(E.un(i, j).val(), i < r ? a(i, j) : i < r + s ? b(i - r, j) : d(i - r - s, j)), "element (i, j) is exactly the value of the definition");
         }
      }
   });
   vp_check(rej == ((c != 0 && c != C) || (e != 0 && e != C) || (g != 0 && g != C)), "rejected iff two non-empty operands differ in columns");
}
VP_HARNESS(horizontal_view) {
   long c, r = vp_shape("r", "c", c);
   In2<double> a(r, c, "a");
   Array2D<double> A = mk(a);
   is2(merge_horizontal(A(place::reverse, place::all), A), r, 2 * c, [&](long i, long j) { return j < c ? a(r - 1 - i, j) : a(i, j - c); });
}
VP_HARNESS(vertical_view) {
   long c, r = vp_shape("r", "c", c);
   In2<double> a(r, c, "a");
   Array2D<double> A = mk(a);
   is2(merge_vertical(A, A(place::all, place::reverse)), 2 * r, c, [&](long i, long j) { return i < r ? a(i, j) : a(i - r, c - 1 - j); });
}
// ---- exclude
template <typename T, typename F>
static void excl(F f) {
   long n = vp_size("n", 0), pos = vp_int("pos", VP_MIN * 2, VP_MAX + (VP_MAX - 1)), cnt = vp_int("cnt", VP_MIN * 2, VP_MAX + (VP_MAX - 1));
   In<T> a(n, "a");
   Array1D<T> A = mk(a);
   bool ok = cnt > 0 && pos >= 0 && pos < n && cnt <= n - pos;
   VP_TRY(rej, {
      auto E = f(A, pos, cnt);
      is1(E, n - cnt, [&](long k) { return k < pos ? a[k] : a[k + cnt]; });
   });
   vp_check(rej == !ok, "rejected iff the excluded block is empty or not inside the array");
}
VP_HARNESS(exclude_block) { excl<double>([](auto& A, long p, long c) { return exclude(A, p, c); }); }
VP_HARNESS(exclude_block_i64) { excl<long>([](auto& A, long p, long c) { return exclude(A, p, c); }); }
VP_HARNESS(exclude_block_named) { excl<double>([](auto& A, long p, long c) { return exclude(A, Pos{p}, Count{c}); }); }
VP_HARNESS(exclude_view) { excl<double>([](auto& A, long p, long c) { return exclude(A.view1D(), p, c); }); }
VP_HARNESS(exclude_one) {
   long n = vp_size("n", 0), pos = vp_int("pos", VP_MIN, VP_MAX);
   In<double> a(n, "a");
   Array1D<double> A = mk(a);
   VP_TRY(rej, is1(exclude(A, pos), n - 1, [&](long k) { return k < pos ? a[k] : a[k + 1]; }));
   vp_check(rej == !(pos >= 0 && pos < n), "rejected iff the position is out of range");
   VP_TRY(rej2, is1(exclude(A, Pos{pos}), n - 1, [&](long k) { return k < pos ? a[k] : a[k + 1]; }));
   vp_check(rej2 == !(pos >= 0 && pos < n), "rejected iff the position is out of range");
}
VP_HARNESS(exclude_last) {
   long n = vp_size("n", 0), o = vp_int("o", VP_MIN, VP_MAX);
   In<double> a(n, "a");
   Array1D<double> A = mk(a);
   VP_TRY(rej, is1(exclude(A, Last{o}), n - 1, [&](long k) { return k < n - 1 - o ? a[k] : a[k + 1]; }));
   vp_check(rej == !(o >= 0 && o < n), "rejected iff the offset from the end is out of range");
}
VP_HARNESS(exclude_stored) {
   long n = vp_size("n", 0);
   vp_assume(n >= 2);
   In<double> a(n, "a");
   Array1D<double> A = mk(a);
   auto E = exclude(-A, 1);
   Array1D<double> B = E;
   is1(B, n - 1, [&](long k) { return k < 1 ? -a[k] : -a[k + 1]; });
}
// ---- sequences
VP_HARNESS(sequence_i64) {
   long n = vp_ext("n", VP_MIN), s = vp_int("s", -VP_EMAX, VP_EMAX), d = vp_int("d", -VP_EMAX, VP_EMAX);
   VP_TRY(rej, is1(sequence(n, Strict{s}, Strict{d}), n, [&](long k) { return s + d * k; }));
   vp_check(rej == (n < 0), "rejected iff the size is negative");
}
VP_HARNESS(sequence_i64_named) {
   long n = vp_ext("n", VP_MIN), s = vp_int("s", -VP_EMAX, VP_EMAX), d = vp_int("d", -VP_EMAX, VP_EMAX);
   VP_TRY(rej, is1(sequence(Size{n}, Start{Strict{s}}, Incr{Strict{d}}), n, [&](long k) { return s + d * k; }));
   vp_check(rej == (n < 0), "rejected iff the size is negative");
}
VP_HARNESS(sequence_i32) {
   long n = vp_ext("n", VP_MIN);
   int s = int(vp_int("s", -1000000, 1000000)), d = int(vp_int("d", -1, 1));
   VP_TRY(rej, is1(sequence(n, Strict{s}, Strict{d}), n, [&](long k) { return s + d * int(k); }));
   vp_check(rej == (n < 0), "rejected iff the size is negative");
}
VP_HARNESS(sequence_f64) {
   long n = vp_ext("n", VP_MIN);
   double s = vp_f64("s"), d = vp_f64("d");
   VP_TRY(rej, is1(sequence(n, Strict{s}, Strict{d}), n, [&](long k) { return s + d * double(k); }));
   vp_check(rej == (n < 0), "rejected iff the size is negative");
}
VP_HARNESS(sequence_default) {
   long n = vp_ext("n", 0), s = vp_int("s", -VP_EMAX, VP_EMAX);
   is1(sequence<long>(n), n, [&](long k) { return k; });
   is1(sequence<long>(Size{n}), n, [&](long k) { return k; });
   is1(sequence(n, Strict{s}), n, [&](long k) { return s + k; });
   is1(sequence(Size{n}, Start{Strict{s}}), n, [&](long k) { return s + k; });
}
VP_HARNESS(linspace_many) {
   long n = vp_ext("n", VP_MIN);
   double s = vp_f64("s"), e = vp_f64("e");
   vp_assume(n != 1);
   VP_TRY(rej, is1(linspace(n, Strict{s}, Strict{e}), n, [&](long k) { return s + (e - s) / double(n - 1) * double(k); }));
   vp_check(rej == (n <= 0), "rejected iff the size is not positive");
   VP_TRY(rej2, is1(linspace(Size{n}, Start{Strict{s}}, End{Strict{e}}), n, [&](long k) { return s + (e - s) / double(n - 1) * double(k); }));
   vp_check(rej2 == (n <= 0), "rejected iff the size is not positive");
}
VP_BOUNDED(linspace_ends) {
   long n = vp_ext("n", 1);
   vp_assume(n >= 1);
   double s = vp_f64("s"), e = vp_f64("e");
   vp_assume(s > -1e100 && s < 1e100 && e > -1e100 && e < 1e100);
   auto E = linspace(n, Strict{s}, Strict{e});
   vp_check(len(E) == n, "expression has exactly the defined extent");
   vp_check(E.un(0).val() == s, "linspace starts at the given start");
   if(n > 1) {
      double m = std::fabs(s) > std::fabs(e) ? std::fabs(s) : std::fabs(e);
      vp_check(std::fabs(E.un(n - 1).val() - e) <= 1e-13 * m + 1e-300 * double(n), "linspace ends at the given end");
   }
}
VP_HARNESS(irange_size) {
   long n = vp_ext("n", VP_MIN);
   VP_TRY(rej, is1(irange(n), n, [&](long k) { return k; }));
   vp_check(rej == (n < 0), "rejected iff the size is negative");
}
VP_HARNESS(irange_array) {
   long n = vp_size("n", 0);
   In<double> a(n, "a");
   Array1D<double> A = mk(a);
   is1(irange(A), n, [&](long k) { return k; });
   VP_TRY(rej, is1(irange_m1(A), n - 1, [&](long k) { return k; }));
   vp_check(rej == (n == 0), "rejected iff the array is empty");
}
VP_HARNESS(irange_rows_cols) {
   long c, r = vp_shape("r", "c", c);
   In2<double> a(r, c, "a");
   Array2D<double> A = mk(a);
   is1(irange_row(A), r, [&](long k) { return k; });
   is1(irange_col(A), c, [&](long k) { return k; });
   VP_TRY(rej, is1(irange_row_m1(A), r - 1, [&](long k) { return k; }));
   vp_check(rej == (r == 0), "rejected iff the array is empty");
   VP_TRY(rej2, is1(irange_col_m1(A), c - 1, [&](long k) { return k; }));
   vp_check(rej2 == (r == 0), "rejected iff the array is empty");
}
// ---- unit vector, identity, constants
template <typename T, typename F>
static void eunit(F f) {
   long i = vp_int("i", VP_MIN, VP_MAX), n = vp_ext("n", VP_MIN);
   VP_TRY(rej, is1(f(i, n), n, [&](long k) { return k == i ? T(1) : T(0); }));
   vp_check(rej == !(i >= 0 && i < n), "rejected iff the index is not inside the size");
}
VP_HARNESS(e_unit_f64) { eunit<double>([](long i, long n) { return e_unit<double>(i, n); }); }
VP_HARNESS(e_unit_i64) { eunit<long>([](long i, long n) { return e_unit<long>(i, n); }); }
VP_HARNESS(e_unit_named) { eunit<double>([](long i, long n) { return e_unit<double>(Index{i}, Size{n}); }); }
template <typename T>
static void ident() {
   long n = vp_ext("n", VP_MIN);
   VP_TRY(rej, is2(identity<T>(n), n, n, [&](long i, long j) { return i == j ? T(1) : T(0); }));
   vp_check(rej == (n < 0), "rejected iff the size is negative");
}
VP_HARNESS(identity_f64) { ident<double>(); }
VP_HARNESS(identity_i64) { ident<long>(); }
template <typename T, typename F>
static void c1(F f) {
   long n = vp_ext("n", VP_MIN);
   T x = vp_val<T>("x");
   VP_TRY(rej, is1(f(n, Strict<T>{x}), n, [&](long) { return x; }));
   vp_check(rej == (n < 0), "rejected iff the size is negative");
}
VP_HARNESS(const1D_f64) { c1<double>([](long n, auto x) { return const1D(n, x); }); }
VP_HARNESS(const1D_i64) { c1<long>([](long n, auto x) { return const1D(n, x); }); }
VP_HARNESS(const1D_bool) { c1<bool>([](long n, auto x) { return const1D(n, x); }); }
VP_HARNESS(const1D_named) { c1<double>([](long n, auto x) { return const1D(Size{n}, Value{x}); }); }
template <typename T, typename F>
static void c2(F f) {
   long r = vp_ext("r", VP_MIN), c = vp_ext("c", VP_MIN);
   T x = vp_val<T>("x");
   VP_TRY(rej, is2(f(r, c, Strict<T>{x}), r, c, [&](long, long) { return x; }));
   vp_check(rej == !(r >= 0 && c >= 0 && (r == 0) == (c == 0)), "rejected iff negative or exactly one extent is zero");
}
VP_HARNESS(const2D_f64) { c2<double>([](long r, long c, auto x) { return const2D(r, c, x); }); }
VP_HARNESS(const2D_i64) { c2<long>([](long r, long c, auto x) { return const2D(r, c, x); }); }
VP_HARNESS(const2D_named) { c2<double>([](long r, long c, auto x) { return const2D(Rows{r}, Cols{c}, Value{x}); }); }
// ---- transpose, broadcast, reductions, products
VP_HARNESS(transpose_array) {
   long c, r = vp_shape("r", "c", c);
   In2<double> a(r, c, "a");
   Array2D<double> A = mk(a);
   is2(transpose(A), c, r, [&](long i, long j) { return a(j, i); });
}
VP_HARNESS(transpose_bool) {
   long c, r = vp_shape("r", "c", c);
   In2<bool> a(r, c, "a");
   Array2D<bool> A = mk(a);
   is2(transpose(A), c, r, [&](long i, long j) { return a(j, i); });
}
VP_HARNESS(transpose_view) {
   long c, r = vp_shape("r", "c", c);
   In2<double> a(r, c, "a");
   Array2D<double> A = mk(a);
   auto E = transpose(A(place::reverse, place::all));
   is2(E, c, r, [&](long i, long j) { return a(r - 1 - j, i); });
}
VP_HARNESS(transpose_expr) {
   long c, r = vp_shape("r", "c", c);
   In2<double> a(r, c, "a");
   Array2D<double> A = mk(a);
   auto E = transpose(-A);
   is2(E, c, r, [&](long i, long j) { return -a(j, i); });
}
VP_HARNESS(row_broadcast_array) {
   long n = vp_size("n", 0);
   In<double> a(n, "a");
   Array1D<double> A = mk(a);
   is2(row_broadcast(A), n, n, [&](long, long j) { return a[j]; });
}
VP_HARNESS(col_broadcast_array) {
   long n = vp_size("n", 0);
   In<double> a(n, "a");
   Array1D<double> A = mk(a);
   is2(col_broadcast(A), n, n, [&](long i, long) { return a[i]; });
}
VP_HARNESS(broadcast_view) {
   long n = vp_size("n", 0);
   In<double> a(n, "a");
   Array1D<double> A = mk(a);
   auto E = row_broadcast(A(place::reverse));
   is2(E, n, n, [&](long, long j) { return a[n - 1 - j]; });
   auto F = col_broadcast(A(place::reverse));
   is2(F, n, n, [&](long i, long) { return a[n - 1 - i]; });
}
// for every position q, the reduction sees exactly row i (column j)
VP_HARNESS(row_reduce_array) {
   long c, r = vp_shape("r", "c", c);
   In2<double> a(r, c, "a");
   Array2D<double> A = mk(a);
   VP_FORALL(q, 0, c) { is1(row_reduce(A, [q](auto v) { return v.un(q); }), r, [&](long i) { return a(i, q); }); }
   is1(row_reduce(A, [](auto v) { return v.size(); }), r, [&](long) { return c; });
}
VP_HARNESS(col_reduce_array) {
   long c, r = vp_shape("r", "c", c);
   In2<double> a(r, c, "a");
   Array2D<double> A = mk(a);
   VP_FORALL(q, 0, r) { is1(col_reduce(A, [q](auto v) { return v.un(q); }), c, [&](long j) { return a(q, j); }); }
   is1(col_reduce(A, [](auto v) { return v.size(); }), c, [&](long) { return r; });
}
VP_HARNESS(row_reduce_view) {
   long c, r = vp_shape("r", "c", c);
   In2<double> a(r, c, "a");
   Array2D<double> A = mk(a);
   VP_FORALL(q, 0, c) {
      auto E = row_reduce(A(place::reverse, place::all), [q](auto v) { return v.un(q); });
      is1(E, r, [&](long i) { return a(r - 1 - i, q); });
   }
}
VP_HARNESS(col_reduce_view) {
   long c, r = vp_shape("r", "c", c);
   In2<double> a(r, c, "a");
   Array2D<double> A = mk(a);
   VP_FORALL(q, 0, r) {
      auto E = col_reduce(A(place::all, place::reverse), [q](auto v) { return v.un(q); });
      is1(E, c, [&](long j) { return a(q, c - 1 - j); });
   }
}
VP_HARNESS(row_reduce_sum) {
   long c, r = vp_shape("r", "c", c), i = vp_int("i", 0, VP_EMAX);
   vp_assume(i < r);
   In2<double> a(r, c, "a");
   Array2D<double> A = mk(a);
   auto E = row_reduce(A, [](auto v) { return sum(v); });
   vp_check(len(E) == r, "expression has exactly the defined extent");
   double s = a(i, 0);
   for(long j = 1; j < c; ++j) s += a(i, j);
   vp_check(vp_same(E.un(i).val(), s), "element k is exactly the value of the definition");
}
VP_HARNESS(matvec) {
   long c, r = vp_shape("r", "c", c), m = vp_size("m", 0), i = vp_int("i", 0, VP_EMAX);
   vp_assume(i < r);
   In2<double> a(r, c, "a");
   In<double> x(m, "x");
   Array2D<double> A = mk(a);
   Array1D<double> X = mk(x);
   VP_TRY(rej, {
      auto E = matvec_prod(A, X);
      vp_check(len(E) == r, "expression has exactly the defined extent");
      double s = 0;
      for(long j = 0; j < c; ++j) s += a(i, j) * x[j];
      vp_check(vp_same(E.un(i).val(), s), "element k is exactly the value of the definition");
   });
   vp_check(rej == (m != c), "rejected iff the extents do not match");
}
VP_HARNESS(tensor) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> a(n, "a"), b(m, "b");
   Array1D<double> A = mk(a), B = mk(b);
   is2(tensor_prod(A, B), n, m, [&](long i, long j) { return a[i] * b[j]; });
}
VP_HARNESS(tensor_i64) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<long> a(n, "a", -VP_EMAX, VP_EMAX), b(m, "b", -VP_EMAX, VP_EMAX);
   Array1D<long> A = mk(a), B = mk(b);
   is2(tensor_prod(A, B), n, m, [&](long i, long j) { return a[i] * b[j]; });
}
VP_HARNESS(tensor_view) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> a(n, "a"), b(m, "b");
   Array1D<double> A = mk(a), B = mk(b);
   auto E = tensor_prod(A(place::reverse), -B);
   is2(E, n, m, [&](long i, long j) { return a[n - 1 - i] * -b[j]; });
}
VP_HARNESS(generate_pair) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> a(n, "a"), b(m, "b");
   Array1D<double> A = mk(a), B = mk(b);
   VP_TRY(rej, is1(generate(A, B, [](auto x, auto y) { return x - y; }), n, [&](long k) { return a[k] - b[k]; }));
   vp_check(rej == (n != m), "rejected iff the extents do not match");
}
VP_HARNESS(generated_assigned) {
   long n = vp_size("n", 1), p = vp_int("p", 0, VP_EMAX);
   In<double> a(n, "a");
   Array1D<double> A = mk(a);
   Array2D<double> I = identity<double>(n);
   vp_check(I.rows().val() == n && I.cols().val() == n, "expression has exactly the defined extents");
   VP_FORALL(i, 0, n) {
      VP_FORALL(j, 0, n) { vp_check(vp_same(I.un(i, j).val(), i == j ? 1. : 0.), "element (i, j) is exactly the value of the definition"); }
   }
   vp_assume(p < n);
   A = e_unit<double>(p, n);
   VP_FORALL(k, 0, n) { vp_check(vp_same(A.un(k).val(), k == p ? 1. : 0.), "element k is exactly the value of the definition"); }
}

#include "vp.hpp"
#include <cmath>
// quantified predicates and equality
static long vp_shape(const char* rn, const char* cn, long& c) {
   long r = vp_ext(rn, 0);
   c = vp_ext(cn, 0);
   vp_assume((r == 0) == (c == 0));
   return r;
}
#define EMP "empty array gives the documented or given default"
// number of leading positions at which p holds
template <typename P>
static long lead(long n, P p) {
   long k = 0;
   while(k < n && p(k)) ++k;
   return k;
}
// v is "p holds at all 0 <= k < n", the default d when n == 0
template <typename P>
static void all_is(bool v, long n, P p, bool d) {
   if(n == 0) vp_check(v == d, EMP);
   else {
      VP_FORALL(k, 0, n) { vp_check(!v || p(k), "true only if the predicate holds at every index"); }
      vp_check(v == (lead(n, p) == n), "true exactly if the predicate holds at every index");
   }
}
template <typename P>
static void any_is(bool v, long n, P p, bool d) {
   if(n == 0) vp_check(v == d, EMP);
   else {
      VP_FORALL(k, 0, n) { vp_check(v || !p(k), "false only if the predicate holds at no index"); }
      vp_check(v == (lead(n, [&](long k) { return !p(k); }) < n), "true exactly if the predicate holds at some index");
   }
}
template <typename P>
static void none_is(bool v, long n, P p, bool d) {
   if(n == 0) vp_check(v == d, EMP);
   else {
      VP_FORALL(k, 0, n) { vp_check(!v || !p(k), "true only if the predicate holds at no index"); }
      vp_check(v == (lead(n, [&](long k) { return !p(k); }) == n), "true exactly if the predicate holds at no index");
   }
}
enum Q { ALL, ANY, NONE };
template <Q q, typename P>
static void is(bool v, long n, P p, bool d) {
   if constexpr(q == ALL) all_is(v, n, p, d);
   else if constexpr(q == ANY) any_is(v, n, p, d);
   else none_is(v, n, p, d);
}
#define CALL(q, ...) [&] { if constexpr(q == ALL) return all_of(__VA_ARGS__); else if constexpr(q == ANY) return any_of(__VA_ARGS__); else return none_of(__VA_ARGS__); }()
// an arbitrary predicate: the elements are its truth values
template <Q q>
static void arbitrary() {
   long n = vp_size("n", 0);
   bool d = vp_flag("d");
   In<bool> a(n, "a");
   Array1D<bool> A = mk(a);
   is<q>(bool(CALL(q, A, [](auto x) { return x; }, StrictBool{d})), n, [&](long k) { return a[k]; }, d);
}
template <Q q>
static void unary() {
   long n = vp_size("n", 0);
   bool d = vp_flag("d");
   double t = vp_f64("t");
   In<double> a(n, "a");
   Array1D<double> A = mk(a);
   is<q>(bool(CALL(q, A, [t](auto x) { return x > Strict{t}; }, StrictBool{d})), n, [&](long k) { return a[k] > t; }, d);
}
template <Q q>
static void unary2() {
   long c, r = vp_shape("r", "c", c);
   bool d = vp_flag("d");
   long t = vp_int("t", VP_MIN, VP_MAX);
   In2<long> a(r, c, "a");
   Array2D<long> A = mk(a);
   is<q>(bool(CALL(q, A, [t](auto x) { return x > Strict{t}; }, StrictBool{d})), a.n, [&](long k) { return a[k] > t; }, d);
}
template <Q q>
static void unary_view() {
   long n = vp_size("n", 0);
   long t = vp_int("t", VP_MIN, VP_MAX);
   bool d = vp_flag("d");
   In<long> a(n, "a");
   Array1D<long> A = mk(a);
   is<q>(bool(CALL(q, A(place::odd), [t](auto x) { return x > Strict{t}; }, StrictBool{d})), n / 2, [&](long k) { return a[2 * k + 1] > t; }, d);
}
template <Q q, typename T>
static void value() {
   long n = vp_size("n", 0);
   T t = vp_val<T>("t");
   bool d = vp_flag("d");
   In<T> a(n, "a");
   Array1D<T> A = mk(a);
   is<q>(bool(CALL(q, A, Strict<T>{t}, StrictBool{d})), n, [&](long k) { return a[k] == t; }, d);
   if constexpr(!std::is_same_v<T, bool>)
      is<q>(bool(CALL(q, A, Value{Strict<T>{t}}, StrictBool{d})), n, [&](long k) { return a[k] == t; }, d);
}
template <Q q>
static void value2() {
   long c, r = vp_shape("r", "c", c);
   bool d = vp_flag("d");
   long t = vp_int("t", VP_MIN, VP_MAX);
   In2<long> a(r, c, "a");
   Array2D<long> A = mk(a);
   is<q>(bool(CALL(q, A, Strict{t}, StrictBool{d})), a.n, [&](long k) { return a[k] == t; }, d);
}
template <Q q>
static void binary() {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   bool d = vp_flag("d");
   In<double> a(n, "a"), b(m, "b");
   Array1D<double> A = mk(a), B = mk(b);
   VP_TRY(rej, is<q>(bool(CALL(q, A, B, [](auto x, auto y) { return x < y; }, StrictBool{d})), n, [&](long k) { return a[k] < b[k]; }, d));
   vp_check(rej == (n != m), "rejected iff the extents differ");
}
template <Q q>
static void binary2() {
   long c, e, r = vp_shape("r", "c", c), s = vp_shape("s", "e", e);
   bool d = vp_flag("d");
   In2<long> a(r, c, "a"), b(s, e, "b");
   Array2D<long> A = mk(a), B = mk(b);
   VP_TRY(rej, is<q>(bool(CALL(q, A, B, [](auto x, auto y) { return x < y; }, StrictBool{d})), r * c, [&](long k) { return a[k] < b[k]; }, d));
   vp_check(rej == (r != s || c != e), "rejected iff the extents differ");
}
template <Q q>
static void dflt() {
   Array1D<double> A;
   Array2D<long> B;
   auto f = [](auto x) { return x == x; };
   auto g = [](auto x, auto y) { return x == y; };
   vp_check(!bool(CALL(q, A, f)) && !bool(CALL(q, B, f)) && !bool(CALL(q, A, A, g)) && !bool(CALL(q, B, B, g)) && !bool(CALL(q, A, Strict{1.})), EMP);
}
#define QH(q, nm)                              \
   VP_HARNESS(nm##_arbitrary) { arbitrary<q>(); } \
   VP_HARNESS(nm##_unary) { unary<q>(); }      \
   VP_HARNESS(nm##_unary_2d) { unary2<q>(); }  \
   VP_HARNESS(nm##_view) { unary_view<q>(); }  \
   VP_HARNESS(nm##_value_f64) { value<q, double>(); } \
   VP_HARNESS(nm##_value_i32) { value<q, int>(); } \
   VP_HARNESS(nm##_value_bool) { value<q, bool>(); } \
   VP_HARNESS(nm##_value_2d) { value2<q>(); }  \
   VP_HARNESS(nm##_binary) { binary<q>(); }    \
   VP_HARNESS(nm##_binary_2d) { binary2<q>(); } \
   VP_HARNESS(nm##_default) { dflt<q>(); }
QH(ALL, all_of)
QH(ANY, any_of)
QH(NONE, none_of)
// ---- sign, zero, finite, nan, inf queries
#define SQ(nm, q, call, pred)                                                                                        \
   VP_HARNESS(nm##_f64) {                                                                                            \
      long n = vp_size("n", 0);                                                                                      \
      bool d = vp_flag("d");                                                                                         \
      In<double> a(n, "a");                                                                                          \
      Array1D<double> A = mk(a);                                                                                     \
      is<q>(bool(call(A, StrictBool{d})), n, [&](long k) { double x = a[k]; return pred; }, d);                      \
   }                                                                                                                 \
   VP_HARNESS(nm##_i64) {                                                                                            \
      long n = vp_size("n", 0);                                                                                      \
      bool d = vp_flag("d");                                                                                         \
      In<long> a(n, "a");                                                                                            \
      Array1D<long> A = mk(a);                                                                                       \
      is<q>(bool(call(A(place::reverse), StrictBool{d})), n, [&](long k) { long x = a[n - 1 - k]; return pred; }, d); \
   }                                                                                                                 \
   VP_HARNESS(nm##_2d) {                                                                                             \
      long c, r = vp_shape("r", "c", c);                                                                             \
      bool d = vp_flag("d");                                                                                         \
      In2<double> a(r, c, "a");                                                                                      \
      Array2D<double> A = mk(a);                                                                                     \
      is<q>(bool(call(A, StrictBool{d})), a.n, [&](long k) { double x = a[k]; return pred; }, d);                    \
   }
SQ(has_zero, ANY, has_zero, x == 0)
SQ(all_zeros, ALL, all_zeros, x == 0)
SQ(all_pos, ALL, all_pos, x > 0)
SQ(all_neg, ALL, all_neg, x < 0)
SQ(all_non_pos, ALL, all_non_pos, x <= 0)
SQ(all_non_neg, ALL, all_non_neg, x >= 0)
#define FQ(nm, q, T, call, pred)                                                                                     \
   VP_HARNESS(nm) {                                                                                                  \
      long n = vp_size("n", 0);                                                                                      \
      bool d = vp_flag("d");                                                                                         \
      In<T> a(n, "a");                                                                                               \
      Array1D<T> A = mk(a);                                                                                          \
      is<q>(bool(call(A, StrictBool{d})), n, [&](long k) { return pred(a[k]); }, d);                                 \
   }                                                                                                                 \
   VP_HARNESS(nm##_2d) {                                                                                             \
      long c, r = vp_shape("r", "c", c);                                                                             \
      bool d = vp_flag("d");                                                                                         \
      In2<T> a(r, c, "a");                                                                                           \
      Array2D<T> A = mk(a);                                                                                          \
      is<q>(bool(call(A, StrictBool{d})), a.n, [&](long k) { return pred(a[k]); }, d);                               \
   }
FQ(all_finite_f64, ALL, double, all_finite, std::isfinite)
FQ(has_inf_f64, ANY, double, has_inf, std::isinf)
FQ(has_nan_f64, ANY, double, has_nan, std::isnan)
FQ(all_finite_f32, ALL, float, all_finite, std::isfinite)
FQ(has_inf_f32, ANY, float, has_inf, std::isinf)
FQ(has_nan_f32, ANY, float, has_nan, std::isnan)
VP_HARNESS(query_defaults) {
   Array1D<double> A;
   Array2D<double> B;
   vp_check(!bool(has_zero(A)) && !bool(all_zeros(A)) && !bool(all_pos(A)) && !bool(all_neg(A)) && !bool(all_non_pos(A)) && !bool(all_non_neg(A)), EMP);
   vp_check(bool(all_finite(A)) && !bool(has_inf(A)) && !bool(has_nan(A)), EMP);
   vp_check(!bool(has_zero(B)) && !bool(all_zeros(B)) && !bool(all_pos(B)) && !bool(all_neg(B)) && !bool(all_non_pos(B)) && !bool(all_non_neg(B)), EMP);
   vp_check(bool(all_finite(B)) && !bool(has_inf(B)) && !bool(has_nan(B)), EMP);
}
// ---- equality
template <typename X, typename Y, typename G>
static void eq1(const X& A, const Y& B, long n, long m, G same) {
   bool v = bool(A == B), w = bool(A != B);
   vp_check(v != w, "!= is the negation of ==");
   if(n != m) vp_check(!v, "arrays of different extents are not equal");
   else {
      VP_FORALL(k, 0, n) { vp_check(!v || same(k), "== only if all elements are equal"); }
      vp_check(v == (lead(n, same) == n), "== exactly if all elements are equal");
   }
}
template <typename T>
static void equal1() {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<T> a(n, "a"), b(m, "b");
   Array1D<T> A = mk(a), B = mk(b);
   eq1(A, B, n, m, [&](long k) { return a[k] == b[k]; });
}
VP_HARNESS(equal_f64) { equal1<double>(); }
VP_HARNESS(equal_i64) { equal1<long>(); }
VP_HARNESS(equal_bool) { equal1<bool>(); }
VP_HARNESS(equal_f32) { equal1<float>(); }
VP_HARNESS(equal_view) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<long> a(n, "a"), b(m, "b");
   Array1D<long> A = mk(a), B = mk(b);
   eq1(A(place::even), B, (n + 1) / 2, m, [&](long k) { return a[2 * k] == b[k]; });
}
VP_HARNESS(equal_expr) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<long> a(n, "a"), b(m, "b");
   Array1D<long> A = mk(a), B = mk(b);
   eq1(-A, B, n, m, [&](long k) { return -a[k] == b[k]; });
}
VP_HARNESS(equal_2d) {
   long c, e, r = vp_shape("r", "c", c), s = vp_shape("s", "e", e);
   In2<long> a(r, c, "a"), b(s, e, "b");
   Array2D<long> A = mk(a), B = mk(b);
   bool v = bool(A == B), w = bool(A != B);
   vp_check(v != w, "!= is the negation of ==");
   if(r != s || c != e) vp_check(!v, "arrays of different extents are not equal");
   else {
      VP_FORALL(k, 0, r * c) { vp_check(!v || a[k] == b[k], "== only if all elements are equal"); }
      vp_check(v == (lead(r * c, [&](long k) { return a[k] == b[k]; }) == r * c), "== exactly if all elements are equal");
   }
}
VP_HARNESS(equal_2d_view) {
   long c, r = vp_shape("r", "c", c);
   In2<long> a(r, c, "a"), b(r, c, "b");
   Array2D<long> A = mk(a), B = mk(b);
   bool v = bool(A(place::reverse, place::all) == B);
   VP_FORALL(k, 0, r * c) { vp_check(!v || a(r - 1 - k / c, k % c) == b[k], "== only if all elements are equal"); }
   vp_check(v == (lead(r * c, [&](long k) { return a(r - 1 - k / c, k % c) == b[k]; }) == r * c), "== exactly if all elements are equal");
}

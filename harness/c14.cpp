#include "vp.hpp"
// extrema and their first positions
static long vp_shape(const char* rn, const char* cn, long& c) {
   long r = vp_ext(rn, 0);
   c = vp_ext(cn, 0);
   vp_assume((r == 0) == (c == 0));
   return r;
}
#define VALL "value is the extremum of all elements"
#define POSL "position is that of the first occurrence"
#define EMP "empty array gives the default of the caller"
template <bool MIN, typename T>
static bool better(T x, T y) { return MIN ? x < y : x > y; }
// reference scan: strictly better elements replace the current one
template <bool MIN, typename T, typename G>
static T best1(long n, G g, long& at) {
   T v = g(0);
   at = 0;
   for(long k = 1; k < n; ++k)
      if(better<MIN>(g(k), v)) v = g(k), at = k;
   return v;
}
template <bool MIN, typename T, typename G>
static T best2(long r, long c, G g, long& p, long& q) {
   T v = g(0, 0);
   p = 0, q = 0;
   for(long i = 0; i < r; ++i)
      for(long j = 0; j < c; ++j)
         if(better<MIN>(g(i, j), v)) v = g(i, j), p = i, q = j;
   return v;
}
template <bool MIN, typename T, typename G>
static T bestv(long n, G g) {
   T v = g(0);
   for(long k = 1; k < n; ++k)
      if(better<MIN>(g(k), v)) v = g(k);
   return v;
}
// the statement itself, over all elements (executed natively)
template <bool MIN, typename T, typename G>
static void direct(long n, G g, T v, long at) {
   bool nan = false;
   for(long k = 0; k < n; ++k) nan |= g(k) != g(k);
   if(nan) return;
   bool in = false;
   for(long k = 0; k < n; ++k) {
      vp_check(!better<MIN>(g(k), v), VALL);
      in |= g(k) == v;
      if(at >= 0 && k < at) vp_check(g(k) != v, POSL);
   }
   vp_check(in, VALL);
   if(at >= 0) vp_check(at < n && g(at) == v, POSL);
}
template <bool MIN, typename T, typename A, typename G>
static void val1(const A& X, long n, G g) {
   T d = vp_val<T>("d");
   T v = MIN ? min(X, Strict<T>{d}).val() : max(X, Strict<T>{d}).val();
   if(n == 0) vp_check(vp_same(v, d), EMP);
   else {
      VP_NATIVE(direct<MIN, T>(n, g, v, -1);)
      vp_check(v == bestv<MIN, T>(n, g) || v != v, VALL);
   }
}
template <bool MIN, typename T, typename A, typename G>
static void idx1(const A& X, long n, G g) {
   T d = vp_val<T>("d");
   long e = vp_int("e", VP_MIN, VP_MAX);
   std::pair<index_t, Strict<T>> df{Strict{e}, Strict<T>{d}};
   auto m = MIN ? min_index(X, df) : max_index(X, df);
   if(n == 0) vp_check(m.first.val() == e && vp_same(m.second.val(), d), EMP);
   else {
      VP_NATIVE(direct<MIN, T>(n, g, m.second.val(), m.first.val());)
      long at;
      T v = best1<MIN, T>(n, g, at);
      vp_check(m.first.val() == at, POSL);
      vp_check(vp_same(m.second.val(), v), VALL);
   }
}
template <bool MIN, typename T, typename A, typename G>
static void idx2(const A& X, long r, long c, G g) {
   T d = vp_val<T>("d");
   long e = vp_int("e", VP_MIN, VP_MAX), f = vp_int("f", VP_MIN, VP_MAX);
   std::tuple<index_t, index_t, Strict<T>> df{Strict{e}, Strict{f}, Strict<T>{d}};
   auto m = MIN ? min_index(X, df) : max_index(X, df);
   if(r == 0) vp_check(std::get<0>(m).val() == e && std::get<1>(m).val() == f && vp_same(std::get<2>(m).val(), d), EMP);
   else {
      VP_NATIVE(direct<MIN, T>(r * c, [&](long k) { return g(k / c, k % c); }, std::get<2>(m).val(), std::get<0>(m).val() * c + std::get<1>(m).val());)
      long p, q;
      T v = best2<MIN, T>(r, c, g, p, q);
      vp_check(std::get<0>(m).val() == p && std::get<1>(m).val() == q, POSL);
      vp_check(vp_same(std::get<2>(m).val(), v), VALL);
   }
}
#define V1(nm, T, MIN)                                                                     \
   VP_HARNESS(nm##_1d) {                                                                   \
      long n = vp_size("n", 0);                                                            \
      In<T> a(n, "a");                                                                     \
      Array1D<T> A = mk(a);                                                                \
      val1<MIN, T>(A, n, [&](long k) { return a[k]; });                                    \
   }                                                                                       \
   VP_HARNESS(nm##_view) {                                                                 \
      long n = vp_size("n", 0);                                                            \
      In<T> a(n, "a");                                                                     \
      Array1D<T> A = mk(a);                                                                \
      val1<MIN, T>(A(place::reverse), n, [&](long k) { return a[n - 1 - k]; });            \
   }                                                                                       \
   VP_HARNESS(nm##_2d) {                                                                   \
      long c, r = vp_shape("r", "c", c);                                                   \
      In2<T> a(r, c, "a");                                                                 \
      Array2D<T> A = mk(a);                                                                \
      val1<MIN, T>(A, a.n, [&](long k) { return a[k]; });                                  \
   }                                                                                       \
   VP_HARNESS(nm##_index) {                                                                \
      long n = vp_size("n", 0);                                                            \
      In<T> a(n, "a");                                                                     \
      Array1D<T> A = mk(a);                                                                \
      idx1<MIN, T>(A, n, [&](long k) { return a[k]; });                                    \
   }                                                                                       \
   VP_HARNESS(nm##_index_view) {                                                           \
      long n = vp_size("n", 0);                                                            \
      In<T> a(n, "a");                                                                     \
      Array1D<T> A = mk(a);                                                                \
      idx1<MIN, T>(A(place::even), (n + 1) / 2, [&](long k) { return a[2 * k]; });         \
   }                                                                                       \
   VP_HARNESS(nm##_index_2d) {                                                             \
      long c, r = vp_shape("r", "c", c);                                                   \
      In2<T> a(r, c, "a");                                                                 \
      Array2D<T> A = mk(a);                                                                \
      idx2<MIN, T>(A, r, c, [&](long i, long j) { return a(i, j); });                      \
   }                                                                                       \
   VP_HARNESS(nm##_index_2d_view) {                                                        \
      long c, r = vp_shape("r", "c", c);                                                   \
      In2<T> a(r, c, "a");                                                                 \
      Array2D<T> A = mk(a);                                                                \
      idx2<MIN, T>(A(place::reverse, place::all), r, c, [&](long i, long j) { return a(r - 1 - i, j); }); \
   }
V1(min_f64, double, true)
V1(max_f64, double, false)
V1(min_i64, long, true)
V1(max_i64, long, false)
V1(min_i32, int, true)
V1(max_f32, float, false)
VP_HARNESS(min_max_expr) {
   long n = vp_size("n", 0);
   In<long> a(n, "a");
   Array1D<long> A = mk(a);
   val1<true, long>(-A, n, [&](long k) { return -a[k]; });
   idx1<false, long>(-A, n, [&](long k) { return -a[k]; });
}
VP_HARNESS(defaults) {
   Array1D<double> A;
   Array2D<double> B;
   vp_check(min(A).val() == 0. && max(A).val() == 0. && min(B).val() == 0. && max(B).val() == 0., "default over an empty array is zero when the caller gives none");
   auto p = min_index(A);
   auto q = max_index(A);
   vp_check(p.first.val() == -1 && q.first.val() == -1, "default position over an empty array is -1 when the caller gives none");
   auto s = min_index(B);
   auto t = max_index(B);
   vp_check(std::get<0>(s).val() == -1 && std::get<1>(s).val() == -1 && std::get<0>(t).val() == -1 && std::get<1>(t).val() == -1,
            "default position over an empty array is -1 when the caller gives none");
}

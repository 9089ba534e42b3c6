#include "vp.hpp"
// folds: every element exactly once, left to right
static long vp_shape(const char* rn, const char* cn, long& c) {
   long r = vp_ext(rn, 0);
   c = vp_ext(cn, 0);
   vp_assume((r == 0) == (c == 0));
   return r;
}
template <typename T>
static T vabs(T x) { return abss(Strict<T>{x}).val(); }  // |x|, contract of C16
template <typename T>
static T vmax(T x, T y) { return maxs(Strict<T>{x}, Strict<T>{y}).val(); }  // contract of C16
static double vsqrt(double x) { return sqrts(Strict{x}).val(); }
static float vsqrt(float x) { return sqrts(Strict{x}).val(); }

// reference folds over g(0) .. g(n - 1)
template <typename T, typename G>
static T fsum(long n, G g) {
   T s = g(0);
   for(long k = 1; k < n; ++k) s = T(s + g(k));
   return s;
}
template <typename T, typename G>
static T fprod(long n, G g) {
   T s = g(0);
   for(long k = 1; k < n; ++k) s = T(s * g(k));
   return s;
}
template <typename T, typename G>
static T fmax(long n, G g) {
   T s = g(0);
   for(long k = 1; k < n; ++k) s = vmax(g(k), s);
   return s;
}
#define LAB "result is the fold of the definition over all elements in order"
#define EMP "empty array gives the default of the caller"
template <typename T, typename V, typename F>
static void with_default(bool empty, V v, F ref) {
   if(empty) vp_check(vp_same(v.val(), vp_val<T>("dflt")), EMP);
   else vp_check(vp_same(v.val(), ref()), LAB);
}
// OP: name of the reduction, REF: reference over g and n
template <typename T, typename OP, typename REF>
static void red1(OP op, REF ref) {
   long n = vp_size("n", 0);
   In<T> a(n, "a");
   Array1D<T> A = mk(a);
   T d = vp_val<T>("d");
   auto v = op(A, Strict<T>{d});
   if(n == 0) vp_check(vp_same(v.val(), d), EMP);
   else vp_check(vp_same(v.val(), ref(n, [&](long k) { return a[k]; })), LAB);
}
template <typename T, typename OP, typename REF>
static void red1_view(OP op, REF ref) {
   long n = vp_size("n", 0);
   In<T> a(n, "a");
   Array1D<T> A = mk(a);
   T d = vp_val<T>("d");
   auto v = op(A(place::odd), Strict<T>{d});
   if(n <= 1) vp_check(vp_same(v.val(), d), EMP);
   else vp_check(vp_same(v.val(), ref(n / 2, [&](long k) { return a[2 * k + 1]; })), LAB);
}
template <typename T, typename OP, typename REF>
static void red1_expr(OP op, REF ref) {
   long n = vp_size("n", 0);
   In<T> a(n, "a");
   Array1D<T> A = mk(a);
   T d = vp_val<T>("d");
   auto v = op(-A, Strict<T>{d});
   if(n == 0) vp_check(vp_same(v.val(), d), EMP);
   else vp_check(vp_same(v.val(), ref(n, [&](long k) { return T(-a[k]); })), LAB);
}
template <typename T, typename OP, typename REF>
static void red2(OP op, REF ref) {
   long c, r = vp_shape("r", "c", c);
   In2<T> a(r, c, "a");
   Array2D<T> A = mk(a);
   T d = vp_val<T>("d");
   auto v = op(A, Strict<T>{d});
   if(a.n == 0) vp_check(vp_same(v.val(), d), EMP);
   else vp_check(vp_same(v.val(), ref(a.n, [&](long k) { return a[k]; })), LAB);
}
template <typename T, typename OP, typename REF>
static void red2_view(OP op, REF ref) {
   long c, r = vp_shape("r", "c", c);
   In2<T> a(r, c, "a");
   Array2D<T> A = mk(a);
   T d = vp_val<T>("d");
   auto v = op(A(place::all, place::reverse), Strict<T>{d});
   if(a.n == 0) vp_check(vp_same(v.val(), d), EMP);
   else vp_check(vp_same(v.val(), ref(a.n, [&](long k) { return a(k / c, c - 1 - k % c); })), LAB);
}
#define RED(nm, T, call, ...)                                                                             \
   VP_HARNESS(nm) { red1<T>([](auto const& A, auto d) { return call; }, __VA_ARGS__); }                   \
   VP_HARNESS(nm##_view) { red1_view<T>([](auto const& A, auto d) { return call; }, __VA_ARGS__); }       \
   VP_HARNESS(nm##_expr) { red1_expr<T>([](auto const& A, auto d) { return call; }, __VA_ARGS__); }       \
   VP_HARNESS(nm##_2d) { red2<T>([](auto const& A, auto d) { return call; }, __VA_ARGS__); }              \
   VP_HARNESS(nm##_2d_view) { red2_view<T>([](auto const& A, auto d) { return call; }, __VA_ARGS__); }
RED(sum_f64, double, sum(A, d), [](long n, auto g) { return fsum<double>(n, g); })
RED(sum_f32, float, sum(A, d), [](long n, auto g) { return fsum<float>(n, g); })
RED(prod_f64, double, prod(A, d), [](long n, auto g) { return fprod<double>(n, g); })
RED(mean_f64, double, mean(A, d), [](long n, auto g) { return fsum<double>(n, g) / double(n); })
RED(mean_f32, float, mean(A, d), [](long n, auto g) { return fsum<float>(n, g) / float(n); })
RED(norm1_f64, double, norm1(A, d), [](long n, auto g) { return fsum<double>(n, [&](long k) { return vabs(g(k)); }); })
RED(norm1_scaled_f64, double, norm1_scaled(A, d), [](long n, auto g) { return fsum<double>(n, [&](long k) { return vabs(g(k)); }) / double(n); })
RED(norm2_f64, double, norm2(A, d), [](long n, auto g) { return vsqrt(fsum<double>(n, [&](long k) { return g(k) * g(k); })); })
RED(norm2_scaled_f64, double, norm2_scaled(A, d), [](long n, auto g) { return vsqrt(fsum<double>(n, [&](long k) { return g(k) * g(k); })) / vsqrt(double(n)); })
RED(norm_inf_f64, double, norm_inf(A, d), [](long n, auto g) { return fmax<double>(n, [&](long k) { return vabs(g(k)); }); })
#define RED1(nm, T, call, ...) VP_HARNESS(nm) { red1<T>([](auto const& A, auto d) { return call; }, __VA_ARGS__); }
RED1(prod_f32, float, prod(A, d), [](long n, auto g) { return fprod<float>(n, g); })
RED1(norm1_f32, float, norm1(A, d), [](long n, auto g) { return fsum<float>(n, [&](long k) { return vabs(g(k)); }); })
RED1(norm2_f32, float, norm2(A, d), [](long n, auto g) { return vsqrt(fsum<float>(n, [&](long k) { return g(k) * g(k); })); })
RED1(norm_inf_f32, float, norm_inf(A, d), [](long n, auto g) { return fmax<float>(n, [&](long k) { return vabs(g(k)); }); })
// ---- default default
VP_HARNESS(default_zero) {
   Array1D<double> A;
   Array2D<double> B;
   vp_check(vp_same(sum(A).val(), 0.) && vp_same(prod(A).val(), 0.) && vp_same(mean(A).val(), 0.) && vp_same(norm1(A).val(), 0.) && vp_same(norm2(A).val(), 0.) &&
               vp_same(norm_inf(A).val(), 0.) && vp_same(norm1_scaled(A).val(), 0.) && vp_same(norm2_scaled(A).val(), 0.) && vp_same(dot_prod(A, A).val(), 0.),
            "the default over an empty array is zero when the caller gives none");
   vp_check(vp_same(sum(B).val(), 0.) && vp_same(prod(B).val(), 0.) && vp_same(mean(B).val(), 0.) && vp_same(norm1(B).val(), 0.) && vp_same(norm2(B).val(), 0.) &&
               vp_same(norm_inf(B).val(), 0.) && vp_same(dot_prod(B, B).val(), 0.),
            "the default over an empty array is zero when the caller gives none");
}
// ---- dot product
template <typename T>
static void dot1() {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<T> a(n, "a"), b(m, "b");
   Array1D<T> A = mk(a), B = mk(b);
   T d = vp_val<T>("d");
   VP_TRY(rej, {
      auto v = dot_prod(A, B, Strict<T>{d});
      if(n == 0) vp_check(vp_same(v.val(), d), EMP);
      else vp_check(vp_same(v.val(), fsum<T>(n, [&](long k) { return T(a[k] * b[k]); })), LAB);
   });
   vp_check(rej == (n != m), "rejected iff the extents differ");
}
VP_HARNESS(dot_f64) { dot1<double>(); }
VP_HARNESS(dot_f32) { dot1<float>(); }
VP_HARNESS(dot_view) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> a(n, "a"), b(m, "b");
   Array1D<double> A = mk(a), B = mk(b);
   VP_TRY(rej, {
      auto v = dot_prod(A(place::reverse), B(place::even));
      if(n == 0) vp_check(vp_same(v.val(), 0.), EMP);
      else vp_check(vp_same(v.val(), fsum<double>(n, [&](long k) { return a[n - 1 - k] * b[2 * k]; })), LAB);
   });
   vp_check(rej == (n != (m + 1) / 2), "rejected iff the extents differ");
}
VP_HARNESS(dot_2d) {
   long c, e, r = vp_shape("r", "c", c), s = vp_shape("s", "e", e);
   In2<double> a(r, c, "a"), b(s, e, "b");
   Array2D<double> A = mk(a), B = mk(b);
   double d = vp_f64("d");
   VP_TRY(rej, {
      auto v = dot_prod(A, B, Strict{d});
      if(r == 0) vp_check(vp_same(v.val(), d), EMP);
      else vp_check(vp_same(v.val(), fsum<double>(r * c, [&](long k) { return a[k] * b[k]; })), LAB);
   });
   vp_check(rej == (r != s || c != e), "rejected iff the extents differ");
}
VP_HARNESS(dot_expr) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> a(n, "a"), b(m, "b");
   Array1D<double> A = mk(a), B = mk(b);
   double d = vp_f64("d");
   VP_TRY(rej, {
      auto v = dot_prod(-A, inv(B), Strict{d});
      if(n == 0) vp_check(vp_same(v.val(), d), EMP);
      else vp_check(vp_same(v.val(), fsum<double>(n, [&](long k) { return -a[k] * (1. / b[k]); })), LAB);
   });
   vp_check(rej == (n != m), "rejected iff the extents differ");
}
// ---- polynomial: c[0] + x (c[1] + x (c[2] + ...))
template <typename T, typename G>
static T horner(long n, T x, G g) {
   T s = g(n - 1);
   for(long i = n - 2; i >= 0; --i) s = T(g(i) + s * x);
   return s;
}
template <typename T>
static void poly1() {
   long n = vp_size("n", 0);
   In<T> a(n, "a");
   Array1D<T> A = mk(a);
   T x = vp_val<T>("x"), d = vp_val<T>("d");
   auto v = polynomial(A, Strict<T>{x}, Strict<T>{d});
   if(n == 0) vp_check(vp_same(v.val(), d), EMP);
   else vp_check(vp_same(v.val(), horner(n, x, [&](long k) { return a[k]; })), LAB);
}
VP_HARNESS(poly_f64) { poly1<double>(); }
VP_HARNESS(poly_f32) { poly1<float>(); }
VP_HARNESS(poly_view) {
   long n = vp_size("n", 0);
   In<double> a(n, "a");
   Array1D<double> A = mk(a);
   double x = vp_f64("x"), d = vp_f64("d");
   auto v = polynomial(A(place::reverse), Strict{x}, Strict{d});
   if(n == 0) vp_check(vp_same(v.val(), d), EMP);
   else vp_check(vp_same(v.val(), horner(n, x, [&](long k) { return a[n - 1 - k]; })), LAB);
}
// ---- integers (values small enough for the fold to be representable), powers: bounded
VP_BOUNDED(integer_folds) {
   long n = vp_small("n", 0, 12), m = vp_small("m", 0, 12);
   In<long> a(n, "a", -1000, 1000), b(m, "b", -1000, 1000);
   In<int> e(n, "e", -5, 5);
   Array1D<long> A = mk(a), B = mk(b);
   Array1D<int> E = mk(e);
   long d = vp_int("d", -1000, 1000);
   long s = d, q = 0;
   int ps = 1, pe = 0;
   if(n) {
      s = 0;
      for(long k = 0; k < n; ++k) s += a[k], ps *= e[k];
   }
   for(long k = 0; k < n; ++k) pe += e[k];
   vp_check(sum(A, Strict{d}).val() == s, LAB);
   vp_check(prod(E, Strict{7}).val() == (n ? ps : 7), LAB);
   vp_check(sum(E).val() == pe, LAB);
   VP_TRY(rej, {
      auto v = dot_prod(A, B, Strict{d});
      for(long k = 0; k < n; ++k) q += a[k] * b[k];
      vp_check(v.val() == (n ? q : d), LAB);
   });
   vp_check(rej == (n != m), "rejected iff the extents differ");
}
VP_BOUNDED(integer_polynomial) {
   long n = vp_small("n", 0, 6), m = vp_small("m", 0, 6);
   In<long> a(n, "a", -9, 9), p(m, "p", -1, 6);
   In<long> X(n, "X", -5, 5);
   Array1D<long> A = mk(a), P = mk(p), XX = mk(X);
   long x = vp_int("x", -5, 5), d = vp_int("d", -9, 9);
   auto pw = [](long b, long e) { long v = 1; while(e-- > 0) v *= b; return v; };
   long h = 0, g = 0, u = 0;
   bool neg = false;
   for(long k = 0; k < n; ++k) h += a[k] * pw(x, k);
   vp_check(polynomial(A, Strict{x}, Strict{d}).val() == (n ? h : d), LAB);
   for(long k = 0; k < m; ++k) neg |= p[k] < 0;
   VP_TRY(rej, {
      In<double> ad(n, "ad"), xd(n, "xd");
      Array1D<double> AD(n), XD(n);
      for(long k = 0; k < n; ++k) AD.un(k) = Strict{double(a[k])}, XD.un(k) = Strict{double(X[k])};
      auto v = polynomial(AD, Strict{double(x)}, P, Strict{double(d)});
      auto w = gpolynomial(AD, XD, P, Strict{double(d)});
      for(long k = 0; k < n; ++k) g += a[k] * pw(x, p[k]), u += a[k] * pw(X[k], p[k]);
      vp_check(v.val() == double(n ? g : d), LAB);
      vp_check(w.val() == double(n ? u : d), LAB);
   });
   vp_check(rej == (n != m || neg), "rejected iff the extents differ or a power is negative");
}
VP_BOUNDED(norm_lp_def) {
   long n = vp_small("n", 0, 8), p = vp_int("p", -3, 9);
   In<double> a(n, "a");
   Array1D<double> A = mk(a);
   double d = vp_f64("d"), s = 0;
   for(long k = 0; k < n; ++k) vp_assume(std::fabs(a[k]) < 1e6);
   VP_TRY(rej, {
      double v = norm_lp(A, p, Strict{d}).val(), w = norm_lp_scaled(A, p, Strict{d}).val();
      for(long k = 0; k < n; ++k) s += std::pow(std::fabs(a[k]), double(p));
      double r = std::pow(s, 1. / double(p)), rs = r / std::pow(double(n), 1. / double(p));
      if(n == 0) vp_check(vp_same(v, d) && vp_same(w, d), EMP);
      else vp_check(std::fabs(v - r) <= 1e-12 * r + 1e-300 && std::fabs(w - rs) <= 1e-12 * rs + 1e-300, LAB);
   });
   vp_check(rej == (p <= 0), "rejected iff the exponent is not positive");
}

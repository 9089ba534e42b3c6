#include "vp.hpp"
#include <cfloat>
// Error-free transforms and compensated reductions.
// The verifier shows that each routine computes the transform / the compensated fold over every element, operation for
// operation (VP_ENGINE); natively (and when a counterexample is replayed) the result is compared with the exact value.
#define ETS "value is the rounded sum and error the exact rounding error"
#define ETP "value is the rounded product and error the exact rounding error"
#define ACC "result agrees with the exact value to within the condition-scaled bound, using every element"
#define EMP "empty array gives the default of the caller"
#define REJ "rejected iff the extents differ"
static long vp_shape(const char* rn, const char* cn, long& c) {
   long r = vp_ext(rn, 0);
   c = vp_ext(cn, 0);
   vp_assume((r == 0) == (c == 0));
   return r;
}
#ifndef VP_ENGINE
using X = __float128;
static X xabs(X x) { return x < 0 ? -x : x; }
// normal: no intermediate overflow or underflow can have happened
static bool tame(double x) { return x == 0 || (std::fabs(x) < 1e60 && std::fabs(x) > 1e-60); }
static bool tame(float x) { return x == 0 || (std::fabs(x) < 1e8f && std::fabs(x) > 1e-8f); }
template <typename T>
static X eps() { return std::is_same_v<T, float> ? FLT_EPSILON : DBL_EPSILON; }
#define EXACT(...) __VA_ARGS__
template <typename T, typename E>
static void agrees(T got, T ref, E ex, const char* lab) {
   if(vp_same(got, ref)) return;
   X want, scale, first;
   bool t = true;
   ex(want, first, scale, t);   // exact value, first-order bound, condition-scaled magnitude
   if(!t) return;
   vp_check(xabs(X(got) - want) <= 4 * eps<T>() * xabs(want) + first + 64 * eps<T>() * eps<T>() * scale, lab);
}
#else
#define EXACT(...) 0
template <typename T>
static void agrees(T got, T ref, int, const char* lab) { vp_check(vp_same(got, ref), lab); }
#endif
template <typename T>
static T vabs(T x) { return abss(Strict<T>{x}).val(); }
// ---- transforms
template <typename T>
struct P {
   T v, e;
};
template <typename T>
static P<T> ts(T x, T y) {
   T a = T(x + y), b = T(a - x);
   return {a, T(T(x - T(a - b)) + T(y - b))};
}
template <typename T>
static T vfma(T x, T y, T z) { return fmas(Strict<T>{x}, Strict<T>{y}, Strict<T>{z}).val(); }
template <typename T>
static P<T> tp(T x, T y) {
   T a = T(x * y);
   return {a, vfma(x, y, T(-a))};
}
#ifndef VP_ENGINE
template <typename T>
static bool sum_in_range(T x, T y) { return std::isfinite(x) && std::isfinite(y) && std::isfinite(T(x + y)); }
#endif
template <typename T>
static void sum2() {
   T x = vp_val<T>("x"), y = vp_val<T>("y");
#ifndef VP_ENGINE
   if(!sum_in_range(x, y) || std::fabs(x) > std::numeric_limits<T>::max() / 4 || std::fabs(y) > std::numeric_limits<T>::max() / 4) return;
#endif
   auto [r, s] = two_sums(Strict<T>{x}, Strict<T>{y});
   P<T> w = ts(x, y);
   vp_check(vp_same(r.val(), w.v), ETS);
   vp_check(s.val() == w.e || vp_same(s.val(), w.e), ETS);
}
VP_HARNESS(two_sum_f64) { sum2<double>(); }
VP_HARNESS(two_sum_f32) { sum2<float>(); }
template <typename T>
static void prod2() {
   T x = vp_val<T>("x"), y = vp_val<T>("y");
#ifndef VP_ENGINE
   if(!tame(x) || !tame(y)) return;
#endif
   auto [r, s] = two_prods(Strict<T>{x}, Strict<T>{y});
   P<T> w = tp(x, y);
   vp_check(vp_same(r.val(), w.v), ETP);
   vp_check(s.val() == w.e || vp_same(s.val(), w.e), ETP);
}
VP_HARNESS(two_prod_f64) { prod2<double>(); }
VP_HARNESS(two_prod_f32) { prod2<float>(); }
// ---- sum
template <typename T, typename G>
static T csum(long n, G g) {
   T s = 0, c = 0;
   for(long k = 0; k < n; ++k) {
      T x = g(k), t = T(s + x);
      if(vabs(s) >= vabs(x)) c = T(c + T(T(s - t) + x));
      else c = T(c + T(T(x - t) + s));
      s = t;
   }
   return T(s + c);
}
#ifndef VP_ENGINE
template <typename T>
static auto exact_sum(long n, auto g, long div = 1) {
   return [=](X& want, X& first, X& scale, bool& t) {
      want = first = scale = 0;
      for(long k = 0; k < n; ++k) {
         t = t && tame(T(g(k)));
         want += X(g(k)), scale += xabs(X(g(k)));
      }
      want /= div, scale = scale * (n + 1) * (n + 1);
   };
}
#endif
template <typename T, typename A, typename G>
static void sums(const A& V, long n, T dflt, G g) {
   auto v = stable_sum(V, Strict<T>{dflt});
   if(n == 0) vp_check(vp_same(v.val(), dflt), EMP);
   else agrees<T>(v.val(), csum<T>(n, g), EXACT(exact_sum<T>(n, g)), ACC);
}
template <typename T>
static void sum1() {
   In<T> a(vp_size("n", 0), "a");
   Array1D<T> A = mk(a);
   sums<T>(A, a.n, vp_val<T>("d"), [&](long k) { return a[k]; });
}
VP_HARNESS(sum_f64) { sum1<double>(); }
VP_HARNESS(sum_f32) { sum1<float>(); }
VP_HARNESS(sum_view) {
   In<double> a(vp_size("n", 0), "a");
   Array1D<double> A = mk(a);
   sums<double>(A(place::odd), a.n / 2, vp_f64("d"), [&](long k) { return a[2 * k + 1]; });
}
VP_HARNESS(sum_expr) {
   In<double> a(vp_size("n", 0), "a");
   Array1D<double> A = mk(a);
   sums<double>(A * A, a.n, vp_f64("d"), [&](long k) { return a[k] * a[k]; });
}
VP_HARNESS(sum_2d) {
   long c, r = vp_shape("r", "c", c);
   In2<double> a(r, c, "a");
   Array2D<double> A = mk(a);
   sums<double>(A, a.n, vp_f64("d"), [&](long k) { return a[k]; });
}
VP_HARNESS(mean_f64) {
   In<double> a(vp_size("n", 0), "a");
   Array1D<double> A = mk(a);
   double d = vp_f64("d");
   auto v = stable_mean(A, Strict{d});
   auto g = [&](long k) { return a[k]; };
   if(a.n == 0) vp_check(vp_same(v.val(), d), EMP);
   else agrees<double>(v.val(), csum<double>(a.n, g) / double(a.n), EXACT(exact_sum<double>(a.n, g, a.n)), ACC);
}
VP_HARNESS(stable_norm1_f64) {
   In<double> a(vp_size("n", 0), "a");
   Array1D<double> A = mk(a);
   double d = vp_f64("d");
   auto v = stable_norm1(A, Strict{d});
   auto g = [&](long k) { return vabs(a[k]); };
   if(a.n == 0) vp_check(vp_same(v.val(), d), EMP);
   else agrees<double>(v.val(), csum<double>(a.n, g), EXACT(exact_sum<double>(a.n, g)), ACC);
}
VP_HARNESS(norm1_scaled) {
   In<double> a(vp_size("n", 0), "a");
   Array1D<double> A = mk(a);
   double d = vp_f64("d");
   auto v = stable_norm1_scaled(A, Strict{d});
   auto g = [&](long k) { return vabs(a[k]); };
   if(a.n == 0) vp_check(vp_same(v.val(), d), EMP);
   else agrees<double>(v.val(), csum<double>(a.n, g) / double(a.n), EXACT(exact_sum<double>(a.n, g, a.n)), ACC);
}
// ---- dot product
template <typename T, typename G, typename H>
static T cdot(long n, G g, H h) {
   P<T> f = tp<T>(g(0), h(0));
   T p = f.v, s = f.e;
   for(long k = 1; k < n; ++k) {
      P<T> m = tp<T>(g(k), h(k)), q = ts<T>(p, m.v);
      p = q.v;
      s = T(s + T(q.e + m.e));
   }
   return T(p + s);
}
#ifndef VP_ENGINE
template <typename T>
static auto exact_dot(long n, auto g, auto h, bool root = false) {
   return [=](X& want, X& first, X& scale, bool& t) {
      want = first = scale = 0;
      for(long k = 0; k < n; ++k) {
         t = t && tame(T(g(k))) && tame(T(h(k)));
         want += X(g(k)) * X(h(k)), scale += xabs(X(g(k)) * X(h(k)));
      }
      if(root) {   // condition 1: compare with the correctly rounded root
         want = X(std::sqrt((long double)want));
         scale = 0;
      }
      scale = scale * (n + 1) * (n + 1);
   };
}
#endif
template <typename T>
static void dot1() {
   In<T> a(vp_size("n", 0), "a"), b(vp_size("m", 0), "b");
   Array1D<T> A = mk(a), B = mk(b);
   T d = vp_val<T>("d");
   auto g = [&](long k) { return a[k]; };
   auto h = [&](long k) { return b[k]; };
   VP_TRY(rej, {
      auto v = stable_dot_prod(A, B, Strict<T>{d});
      if(a.n == 0) vp_check(vp_same(v.val(), d), EMP);
      else agrees<T>(v.val(), cdot<T>(a.n, g, h), EXACT(exact_dot<T>(a.n, g, h)), ACC);
   });
   vp_check(rej == (a.n != b.n), REJ);
}
VP_HARNESS(dot_f64) { dot1<double>(); }
VP_BOUNDED(dot_f32) {
#ifndef VP_ENGINE
   dot1<float>();
#endif
}
VP_HARNESS(dot_view) {
   In<double> a(vp_size("n", 0), "a");
   Array1D<double> A = mk(a);
   double d = vp_f64("d");
   auto g = [&](long k) { return a[k]; };
   auto h = [&](long k) { return a[a.n - 1 - k]; };
   auto v = stable_dot_prod(A, A(place::reverse), Strict{d});
   if(a.n == 0) vp_check(vp_same(v.val(), d), EMP);
   else agrees<double>(v.val(), cdot<double>(a.n, g, h), EXACT(exact_dot<double>(a.n, g, h)), ACC);
}
VP_HARNESS(dot_2d) {
   long c, e, r = vp_shape("r", "c", c), s = vp_shape("s", "e", e);
   In2<double> a(r, c, "a"), b(s, e, "b");
   Array2D<double> A = mk(a), B = mk(b);
   double d = vp_f64("d");
   auto g = [&](long k) { return a[k]; };
   auto h = [&](long k) { return b[k]; };
   VP_TRY(rej, {
      auto v = stable_dot_prod(A, B, Strict{d});
      if(a.n == 0) vp_check(vp_same(v.val(), d), EMP);
      else agrees<double>(v.val(), cdot<double>(a.n, g, h), EXACT(exact_dot<double>(a.n, g, h)), ACC);
   });
   vp_check(rej == !(r == s && c == e), REJ);
}
VP_HARNESS(stable_norm2_f64) {
   In<double> a(vp_size("n", 0), "a");
   Array1D<double> A = mk(a);
   double d = vp_f64("d");
   auto g = [&](long k) { return a[k]; };
   auto v = stable_norm2(A, Strict{d});
   if(a.n == 0) vp_check(vp_same(v.val(), d), EMP);
   else agrees<double>(v.val(), sqrts(Strict{cdot<double>(a.n, g, g)}).val(), EXACT(exact_dot<double>(a.n, g, g, true)), ACC);
}
VP_HARNESS(norm2_scaled) {
   In<double> a(vp_size("n", 0), "a");
   Array1D<double> A = mk(a);
   double d = vp_f64("d");
   auto g = [&](long k) { return a[k]; };
   auto v = stable_norm2_scaled(A, Strict{d});
   if(a.n == 0) vp_check(vp_same(v.val(), d), EMP);
   else {
      double ref = sqrts(Strict{cdot<double>(a.n, g, g)}).val() / sqrts(Strict{double(a.n)}).val();
      agrees<double>(v.val(), ref, EXACT([&](X& want, X& first, X& scale, bool& t) {
                        exact_dot<double>(a.n, g, g, true)(want, first, scale, t);
                        want /= X(std::sqrt((long double)a.n));
                     }), ACC);
   }
}
// ---- the routines whose defining fold the verifier does not reach: empty arrays and rejection are proved, accuracy is
// compared with the exact value on bounded arrays
template <typename F>
static void only_empty(F f) {
   double d = vp_f64("d");
   Array1D<double> A;
   vp_check(vp_same(f(A, Strict{d}).val(), d), EMP);
}
VP_HARNESS(empty_semi_sum) { only_empty([](auto& A, auto d) { return semi_stable_sum(A, d); }); }
VP_HARNESS(empty_prod) { only_empty([](auto& A, auto d) { return stable_prod(A, d); }); }
VP_HARNESS(empty_semi_dot) { only_empty([](auto& A, auto d) { return semi_stable_dot_prod(A, A, d); }); }
VP_HARNESS(empty_norm_lp) { only_empty([](auto& A, auto d) { return stable_norm_lp(A, 3, d); }); }
VP_HARNESS(empty_norm_lp_scaled) { only_empty([](auto& A, auto d) { return stable_norm_lp_scaled(A, 3, d); }); }
VP_HARNESS(empty_polynomial) { only_empty([](auto& A, auto d) { return stable_polynomial(A, 2._sd, d); }); }
VP_HARNESS(empty_polynomial_powers) { only_empty([](auto& A, auto d) { Array1D<long> W; return stable_polynomial(A, 2._sd, W, d); }); }
VP_HARNESS(empty_gpolynomial) { only_empty([](auto& A, auto d) { Array1D<long> W; return stable_gpolynomial(A, A, W, d); }); }
VP_HARNESS(semi_dot_rejected) {
   In<double> a(vp_size("n", 0), "a"), b(vp_size("m", 0), "b");
   Array1D<double> A = mk(a), B = mk(b);
   vp_assume(a.n != b.n);
   VP_TRY(rej, (void)semi_stable_dot_prod(A, B));
   vp_check(rej, REJ);
}
VP_HARNESS(gpolynomial_rejected) {
   In<double> a(vp_size("n", 0), "a"), b(vp_size("m", 0), "b");
   In<long> w(vp_size("l", 0), "w", 0, 8);
   Array1D<double> A = mk(a), B = mk(b);
   Array1D<long> W = mk(w);
   vp_assume(!(a.n == b.n && b.n == w.n));
   VP_TRY(rej, (void)stable_gpolynomial(A, B, W));
   vp_check(rej, REJ);
}
VP_HARNESS(polynomial_rejected) {
   In<double> a(vp_size("n", 0), "a");
   In<long> w(vp_size("l", 0), "w", 0, 8);
   Array1D<double> A = mk(a);
   Array1D<long> W = mk(w);
   vp_assume(a.n != w.n);
   VP_TRY(rej, (void)stable_polynomial(A, 2._sd, W));
   vp_check(rej, REJ);
}
#ifndef VP_ENGINE
template <typename T>
static bool all_tame(const In<T>& a, double lo, double hi) {
   for(long k = 0; k < a.n; ++k)
      if(!(a[k] == 0 || (std::fabs(a[k]) >= lo && std::fabs(a[k]) <= hi))) return false;
   return true;
}
template <typename T>
static void near(T got, X want, X bound, const char* lab = ACC) { vp_check(xabs(X(got) - want) <= bound, lab); }
static X xpow(X x, long p) {
   X r = 1;
   for(long k = 0; k < p; ++k) r *= x;
   return r;
}
#endif
template <typename T>
static void pow2() {
#ifndef VP_ENGINE
   T x = vp_val<T>("x");
   long p = vp_small("p", -2, 14);
   vp_assume(x == 0 || (std::fabs(x) < 5 && std::fabs(x) > T(0.2)));
   VP_TRY(rej, {
      auto [r, s] = pow_prods(Strict<T>{x}, p);
      X w = xpow(X(x), p), e = eps<T>();
      near<T>(r.val(), w, 20 * e * xabs(w), "value is the power");
      vp_check(xabs(X(r.val()) + X(s.val()) - w) <= 200 * e * e * xabs(w), "value and error together are the power to twice the precision");
   });
   vp_check(rej == (p < 0), "rejected iff the exponent is negative");
#endif
}
VP_BOUNDED(pow_prod_f64) { pow2<double>(); }
VP_BOUNDED(pow_prod_f32) { pow2<float>(); }
VP_BOUNDED(prod_f64) {
#ifndef VP_ENGINE
   In<double> a(vp_small("n", 1, 9), "a");
   vp_assume(all_tame(a, 1e-5, 1e5));
   Array1D<double> A = mk(a);
   X w = 1;
   for(long k = 0; k < a.n; ++k) w *= X(a[k]);
   near<double>(stable_prod(A).val(), w, DBL_EPSILON * xabs(w));
   w = 1;
   for(long k = 0; k < (a.n + 1) / 2; ++k) w *= X(a[2 * k]);
   near<double>(stable_prod(A(place::even)).val(), w, DBL_EPSILON * xabs(w));
#endif
}
VP_BOUNDED(semi_sum_f64) {
#ifndef VP_ENGINE
   long n = vp_small("n", 1, 330);
   double s0 = vp_f64("s"), s1 = vp_f64("t");
   vp_assume(tame(s0) && tame(s1));
   Array1D<double> A(n), B(n);
   X w = 0, sc = 0, wd = 0, sd = 0;
   for(long k = 0; k < n; ++k) {
      double x = (k % 3 == 0 ? s0 : s1) * double((k * 7919 + 13) % 1009 - 400), y = double((k * 31 + 5) % 17 - 8);
      A.un(k) = Strict{x}, B.un(k) = Strict{y};
      w += X(x), sc += xabs(X(x)), wd += X(x) * X(y), sd += xabs(X(x) * X(y));
   }
   near<double>(semi_stable_sum(A).val(), w, 140 * X(DBL_EPSILON) * sc);
   near<double>(semi_stable_dot_prod(A, B).val(), wd, 140 * X(DBL_EPSILON) * sd);
   // one element out of place is far beyond the bound: integers are summed exactly
   Array1D<double> C(n);
   long tot = 0;
   for(long k = 0; k < n; ++k) C.un(k) = Strict{double(k * k + 1)}, tot += k * k + 1;
   vp_check(semi_stable_sum(C).val() == double(tot), "integers are summed exactly");
   vp_check(stable_sum(C).val() == double(tot), "integers are summed exactly");
#endif
}
VP_BOUNDED(polynomial_f64) {
#ifndef VP_ENGINE
   In<double> a(vp_small("n", 1, 9), "a"), x(a.n, "x");
   In<long> p(a.n, "p", 0, 11);
   double y = vp_f64("y");
   vp_assume(all_tame(a, 1e-5, 1e5) && all_tame(x, 0.1, 9) && (y == 0 || (std::fabs(y) > 0.1 && std::fabs(y) < 9)));
   Array1D<double> A = mk(a), B = mk(x);
   Array1D<long> Q = mk(p);
   X w = 0, s = 0, w1 = 0, s1 = 0, w2 = 0, s2 = 0;
   for(long k = 0; k < a.n; ++k) {
      X t = X(a[k]) * xpow(X(x[k]), p[k]), t1 = X(a[k]) * xpow(X(y), p[k]), t2 = X(a[k]) * xpow(X(y), k);
      w += t, s += xabs(t), w1 += t1, s1 += xabs(t1), w2 += t2, s2 += xabs(t2);
   }
   X e = DBL_EPSILON;
   near<double>(stable_gpolynomial(A, B, Q).val(), w, 2 * e * xabs(w) + 2000 * e * e * s);
   near<double>(stable_polynomial(A, Strict{y}, Q).val(), w1, 2 * e * xabs(w1) + 2000 * e * e * s1);
   near<double>(stable_polynomial(A, Strict{y}).val(), w2, 2 * e * xabs(w2) + 2000 * e * e * s2);
#endif
}
VP_BOUNDED(polynomial_negative_power) {
#ifndef VP_ENGINE
   In<double> a(vp_small("n", 1, 6), "a");
   In<long> p(a.n, "p", -2, 4);
   Array1D<double> A = mk(a);
   Array1D<long> Q = mk(p);
   bool ok = true;
   for(long k = 0; k < a.n; ++k) ok = ok && p[k] >= 0;
   VP_TRY(rej, (void)stable_polynomial(A, 2._sd, Q));
   vp_check(rej == !ok, "rejected iff a power is negative");
   VP_TRY(rej2, (void)stable_gpolynomial(A, A, Q));
   vp_check(rej2 == !ok, "rejected iff a power is negative");
#endif
}
VP_BOUNDED(norm_lp_f64) {
#ifndef VP_ENGINE
   long lp = vp_small("lp", -1, 7);
   In<double> a(vp_small("n", 1, 9), "a");
   vp_assume(all_tame(a, 1e-3, 1e3));
   Array1D<double> A = mk(a);
   VP_TRY(rej, {
      long double s = 0;
      for(long k = 0; k < a.n; ++k) s += (long double)xpow(xabs(X(a[k])), lp);
      long double w = std::pow(s, 1.L / lp), ws = std::pow(s / a.n, 1.L / lp);
      near<double>(stable_norm_lp(A, lp).val(), w, 100 * X(DBL_EPSILON) * w);
      near<double>(stable_norm_lp_scaled(A, lp).val(), ws, 100 * X(DBL_EPSILON) * ws);
   });
   vp_check(rej == (lp <= 0), "rejected iff the order is not positive");
#endif
}

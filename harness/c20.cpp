#include "vp.hpp"
#include <strictpp/Util/error_tools.hpp>
// tolerance tests and error measures; |x| is abss, whose contract is C16
#define DEFN "equals the definition"
#define EMP "empty array gives the documented or given default"
#define NEG "rejected iff a tolerance that is used is negative"
#define EXT "rejected iff the extents differ"
static long vp_shape(const char* rn, const char* cn, long& c) {
   long r = vp_ext(rn, 0);
   c = vp_ext(cn, 0);
   vp_assume((r == 0) == (c == 0));
   return r;
}
template <typename T>
static T vabs(T x) { return abss(Strict<T>{x}).val(); }
template <typename T>
static bool absd(T x, T y, T tol) { return vabs(T(x - y)) <= tol; }
template <typename T>
static bool reld(T x, T y, T tol, T nz) {
   T a = vabs(x), b = vabs(y);
   if(a <= nz && b <= nz) return true;
   return T(vabs(T(x - y)) / (a > b ? a : b)) <= tol;
}
template <typename T>
static constexpr T deftol = 100 * std::numeric_limits<T>::epsilon();
// ---- scalars
template <typename T>
static void sabs() {
   T x = vp_val<T>("x"), y = vp_val<T>("y"), tol = vp_val<T>("tol");
   VP_TRY(rej, vp_check(within_tol_abs(Strict<T>{x}, Strict<T>{y}, Strict<T>{tol}).val() == absd(x, y, tol), DEFN));
   vp_check(rej == !(tol >= 0), NEG);
   vp_check(within_tol_abs(Strict<T>{x}, Strict<T>{y}).val() == absd(x, y, deftol<T>), "the default tolerance is 100 epsilon");
}
template <typename T>
static void srel() {
   T x = vp_val<T>("x"), y = vp_val<T>("y"), tol = vp_val<T>("tol"), nz = vp_val<T>("nz");
   VP_TRY(rej, vp_check(within_tol_rel(Strict<T>{x}, Strict<T>{y}, Strict<T>{tol}, Strict<T>{nz}).val() == reld(x, y, tol, nz), DEFN));
   vp_check(rej == !(tol >= 0 && nz >= 0), NEG);
}
template <typename T>
static void srel_default() {
   T x = vp_val<T>("x"), y = vp_val<T>("y"), tol = vp_val<T>("tol");
   vp_assume(tol >= 0);
   vp_check(within_tol_rel(Strict<T>{x}, Strict<T>{y}, Strict<T>{tol}).val() == reld(x, y, tol, deftol<T>), "the default near-zero threshold is 100 epsilon");
   vp_check(within_tol_rel(Strict<T>{x}, Strict<T>{y}).val() == reld(x, y, deftol<T>, deftol<T>), "the default tolerance is 100 epsilon");
}
template <typename T>
static void serr() {
   T x = vp_val<T>("x"), y = vp_val<T>("y");
   vp_check(vp_same(abs_error(Strict<T>{x}, Strict<T>{y}).val(), vabs(T(x - y))), DEFN);
   auto r = rel_error(Strict<T>{x}, Strict<T>{y});
   vp_check(r.has_value() == !(x == 0 || y == 0), "relative error is undefined exactly if a value is zero");
   if(r.has_value()) vp_check(vp_same(r->val(), vabs(T(T(x - y) / y))), DEFN);
}
VP_HARNESS(scalar_abs_f64) { sabs<double>(); }
VP_HARNESS(scalar_abs_f32) { sabs<float>(); }
VP_HARNESS(scalar_rel_f64) { srel<double>(); }
VP_HARNESS(scalar_rel_f32) { srel<float>(); }
VP_HARNESS(scalar_rel_default_f64) { srel_default<double>(); }
VP_HARNESS(scalar_rel_default_f32) { srel_default<float>(); }
VP_HARNESS(scalar_errors_f64) { serr<double>(); }
VP_HARNESS(scalar_errors_f32) { serr<float>(); }
// ---- arrays: v is "p at every index"
template <typename P>
static void all_is(bool v, long n, P p, bool d) {
   if(n == 0) vp_check(v == d, EMP);
   else {
      VP_FORALL(k, 0, n) { vp_check(!v || p(k), "true only if within tolerance at every index"); }
      long l = 0;
      while(l < n && p(l)) ++l;
      vp_check(v == (l == n), "true exactly if within tolerance at every index");
   }
}
template <typename T>
static void aabs() {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<T> a(n, "a"), b(m, "b");
   Array1D<T> A = mk(a), B = mk(b);
   T tol = vp_val<T>("tol");
   bool d = vp_flag("d");
   VP_TRY(rej, all_is(within_tol_abs(A, B, Strict<T>{tol}, StrictBool{d}).val(), n, [&](long k) { return absd(a[k], b[k], tol); }, d));
   vp_check(rej == (n != m || (n > 0 && !(tol >= 0))), "rejected iff the extents differ or a tolerance that is used is negative");
}
template <typename T>
static void arel() {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<T> a(n, "a"), b(m, "b");
   Array1D<T> A = mk(a), B = mk(b);
   T tol = vp_val<T>("tol"), nz = vp_val<T>("nz");
   bool d = vp_flag("d");
   VP_TRY(rej, all_is(within_tol_rel(A, B, Strict<T>{tol}, Strict<T>{nz}, StrictBool{d}).val(), n, [&](long k) { return reld(a[k], b[k], tol, nz); }, d));
   vp_check(rej == (n != m || (n > 0 && !(tol >= 0 && nz >= 0))), "rejected iff the extents differ or a tolerance that is used is negative");
}
VP_HARNESS(array_abs_f64) { aabs<double>(); }
VP_HARNESS(array_abs_f32) { aabs<float>(); }
VP_HARNESS(array_rel_f64) { arel<double>(); }
VP_HARNESS(array_rel_f32) { arel<float>(); }
VP_HARNESS(array_abs_2d) {
   long c, e, r = vp_shape("r", "c", c), s = vp_shape("s", "e", e);
   In2<double> a(r, c, "a"), b(s, e, "b");
   Array2D<double> A = mk(a), B = mk(b);
   double tol = vp_f64("tol");
   vp_assume(tol >= 0);
   bool d = vp_flag("d");
   VP_TRY(rej, all_is(within_tol_abs(A, B, Strict{tol}, StrictBool{d}).val(), r * c, [&](long k) { return absd(a[k], b[k], tol); }, d));
   vp_check(rej == (r != s || c != e), EXT);
}
VP_HARNESS(array_rel_2d) {
   long c, e, r = vp_shape("r", "c", c), s = vp_shape("s", "e", e);
   In2<double> a(r, c, "a"), b(s, e, "b");
   Array2D<double> A = mk(a), B = mk(b);
   double tol = vp_f64("tol"), nz = vp_f64("nz");
   vp_assume(tol >= 0 && nz >= 0);
   bool d = vp_flag("d");
   VP_TRY(rej, all_is(within_tol_rel(A, B, Strict{tol}, Strict{nz}, StrictBool{d}).val(), r * c, [&](long k) { return reld(a[k], b[k], tol, nz); }, d));
   vp_check(rej == (r != s || c != e), EXT);
}
VP_HARNESS(array_defaults) {
   long n = vp_size("n", 0);
   In<double> a(n, "a"), b(n, "b");
   Array1D<double> A = mk(a), B = mk(b);
   double t = deftol<double>;
   all_is(within_tol_abs(A, B).val(), n, [&](long k) { return absd(a[k], b[k], t); }, false);
   all_is(within_tol_rel(A, B).val(), n, [&](long k) { return reld(a[k], b[k], t, t); }, false);
}
VP_HARNESS(array_view_expr) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> a(n, "a"), b(m, "b");
   Array1D<double> A = mk(a), B = mk(b);
   double tol = vp_f64("tol");
   vp_assume(tol >= 0);
   VP_TRY(rej, all_is(within_tol_abs(A(place::reverse), -B, Strict{tol}).val(), n, [&](long k) { return absd(a[n - 1 - k], -b[k], tol); }, false));
   vp_check(rej == (n != m), EXT);
}
// ---- literal lists on either side
#define LIST1(nm, P, Q, ...)                                                  \
   VP_HARNESS(nm) {                                                           \
      long n = vp_size("n", 0);                                               \
      In<double> a(n, "a"), b(2, "b");                                        \
      Array1D<double> A = mk(a);                                              \
      Strict<double> b0{b[0]}, b1{b[1]};                                      \
      double tol = vp_f64("tol"), nz = vp_f64("nz");                          \
      StrictBool d{vp_flag("d")};                                             \
      vp_assume(tol >= 0 && nz >= 0);                                         \
      VP_TRY(rej, vp_check((__VA_ARGS__).val() == (P && Q), DEFN));           \
      vp_check(rej == (n != 2), EXT);                                         \
   }
#define LIST2(nm, R, C, P, Q, ...)                                            \
   VP_HARNESS(nm) {                                                           \
      long c, r = vp_shape("r", "c", c);                                      \
      In2<double> a(r, c, "a");                                               \
      In<double> b(2, "b");                                                   \
      Array2D<double> A = mk(a);                                              \
      Strict<double> b0{b[0]}, b1{b[1]};                                      \
      double tol = vp_f64("tol"), nz = vp_f64("nz");                          \
      StrictBool d{vp_flag("d")};                                             \
      vp_assume(tol >= 0 && nz >= 0);                                         \
      VP_TRY(rej, vp_check((__VA_ARGS__).val() == (P && Q), DEFN));           \
      vp_check(rej == (r != R || c != C), EXT);                               \
   }
#define BY_ABS(x, y, i) absd(x[i], y[i], tol)
#define BY_REL(x, y, i) reld(x[i], y[i], tol, nz)
LIST1(list_abs_right, BY_ABS(a, b, 0), BY_ABS(a, b, 1), within_tol_abs(A, {b0, b1}, Strict{tol}, d))
LIST1(list_abs_left, BY_ABS(b, a, 0), BY_ABS(b, a, 1), within_tol_abs({b0, b1}, A, Strict{tol}, d))
LIST1(list_rel_right, BY_REL(a, b, 0), BY_REL(a, b, 1), within_tol_rel(A, {b0, b1}, Strict{tol}, Strict{nz}, d))
LIST1(list_rel_left, BY_REL(b, a, 0), BY_REL(b, a, 1), within_tol_rel({b0, b1}, A, Strict{tol}, Strict{nz}, d))
LIST2(list_2d_abs_right, 2, 1, BY_ABS(a, b, 0), BY_ABS(a, b, 1), within_tol_abs(A, {{b0}, {b1}}, Strict{tol}, d))
LIST2(list_2d_abs_left, 1, 2, BY_ABS(b, a, 0), BY_ABS(b, a, 1), within_tol_abs({{b0, b1}}, A, Strict{tol}, d))
LIST2(list_2d_rel_right, 2, 1, BY_REL(a, b, 0), BY_REL(a, b, 1), within_tol_rel(A, {{b0}, {b1}}, Strict{tol}, Strict{nz}, d))
LIST2(list_2d_rel_left, 1, 2, BY_REL(b, a, 0), BY_REL(b, a, 1), within_tol_rel({{b0, b1}}, A, Strict{tol}, Strict{nz}, d))
// ---- error measures: v is the maximum over all elements
#define MAXL "error measure is the maximum over all elements"
template <typename T, typename G>
static T fold(long n, G g) {
   T s = g(0);
   for(long k = 1; k < n; ++k) {
      T x = g(k);
      s = s < x ? x : s;
   }
   return s;
}
template <typename T, typename G>
static void max_is(T v, long n, G g) {
   VP_NATIVE(bool nan = false; for(long k = 0; k < n; ++k) nan |= g(k) != g(k); if(nan) return; bool in = false;
             for(long k = 0; k < n; ++k) {
                vp_check(g(k) <= v, MAXL);
                in |= g(k) == v;
             } vp_check(in, MAXL);)
   vp_check(v == fold<T>(n, g) || v != v, MAXL);
}
template <typename T>
static void aerr() {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<T> a(n, "a"), b(m, "b");
   Array1D<T> A = mk(a), B = mk(b);
   T d = vp_val<T>("d");
   VP_TRY(rej, {
      T v = max_abs_error(A, B, Strict<T>{d}).val();
      if(n == 0) vp_check(vp_same(v, d), EMP);
      else max_is(v, n, [&](long k) { return vabs(T(a[k] - b[k])); });
   });
   vp_check(rej == (n != m), EXT);
}
template <typename T, typename D>
static bool has0(long n, const D& d) {
   long l = 0;
   while(l < n && d[l] != 0) ++l;
   return l < n;
}
template <typename T>
static void rerr() {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<T> a(n, "a"), b(m, "b");
   Array1D<T> A = mk(a), B = mk(b);
   T d = vp_val<T>("d");
   VP_TRY(rej, {
      auto v = max_rel_error(A, B, Strict<T>{d});
      if(n == 0) vp_check(v.has_value() && vp_same(v->val(), d), EMP);
      else {
         vp_check(v.has_value() == !(has0<T>(n, a) || has0<T>(n, b)), "relative error is undefined exactly if some element is zero");
         if(v.has_value()) max_is(v->val(), n, [&](long k) { return vabs(T(T(a[k] - b[k]) / b[k])); });
      }
   });
   vp_check(rej == (n != m), EXT);
}
VP_HARNESS(max_abs_f64) { aerr<double>(); }
VP_HARNESS(max_abs_f32) { aerr<float>(); }
VP_HARNESS(max_rel_f64) { rerr<double>(); }
VP_HARNESS(max_rel_f32) { rerr<float>(); }
VP_HARNESS(max_abs_2d) {
   long c, e, r = vp_shape("r", "c", c), s = vp_shape("s", "e", e);
   In2<double> a(r, c, "a"), b(s, e, "b");
   Array2D<double> A = mk(a), B = mk(b);
   double d = vp_f64("d");
   VP_TRY(rej, {
      double v = max_abs_error(A, B, Strict{d}).val();
      if(r == 0) vp_check(vp_same(v, d), EMP);
      else max_is(v, r * c, [&](long k) { return vabs(a[k] - b[k]); });
   });
   vp_check(rej == (r != s || c != e), EXT);
}
VP_HARNESS(max_rel_2d) {
   long c, e, r = vp_shape("r", "c", c), s = vp_shape("s", "e", e);
   In2<double> a(r, c, "a"), b(s, e, "b");
   Array2D<double> A = mk(a), B = mk(b);
   double d = vp_f64("d");
   VP_TRY(rej, {
      auto v = max_rel_error(A, B, Strict{d});
      if(r == 0) vp_check(v.has_value() && vp_same(v->val(), d), EMP);
      else {
         vp_check(v.has_value() == !(has0<double>(r * c, a) || has0<double>(r * c, b)), "relative error is undefined exactly if some element is zero");
         if(v.has_value()) max_is(v->val(), r * c, [&](long k) { return vabs((a[k] - b[k]) / b[k]); });
      }
   });
   vp_check(rej == (r != s || c != e), EXT);
}
VP_HARNESS(max_view) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> a(n, "a"), b(m, "b");
   Array1D<double> A = mk(a), B = mk(b);
   VP_TRY(rej, {
      double v = max_abs_error(A(place::reverse), B(place::even)).val();
      if(n == 0) vp_check(v == 1, EMP);
      else max_is(v, n, [&](long k) { return vabs(a[n - 1 - k] - b[2 * k]); });
   });
   vp_check(rej == (n != (m + 1) / 2), EXT);
}
VP_HARNESS(max_defaults) {
   Array1D<double> A;
   Array2D<float> B;
   vp_check(max_abs_error(A, A).val() == 1 && max_abs_error(B, B).val() == 1 && max_rel_error(A, A)->val() == 1 && max_rel_error(B, B)->val() == 1, EMP);
}

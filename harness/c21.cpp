#include "vp.hpp"
#include <strictpp/Util/semi_random.hpp>
// semi-random values: in the interval, extents kept, not-zero honoured (the seeds are arbitrary; termination of the
// not-zero loops is exercised natively only)
#define INL "every value lies in the requested interval"
#define NZL "not-zero variants never produce zero"
#define EXT "extents are those requested or kept"
#define REJ "rejected iff the interval is empty (or [0, 0] for not-zero)"
#define FRM "elements outside the selection are unchanged"
static long vp_shape(const char* rn, const char* cn, long& c) {
   long r = vp_ext(rn, 0);
   c = vp_ext(cn, 0);
   vp_assume((r == 0) == (c == 0));
   return r;
}
static unsigned seed() { return unsigned(vp_int("seed", 0, 4294967295L)); }
// an interval whose width (number of values) is representable
template <typename T>
static T bound(const char* nm) {
   if constexpr(std::is_same_v<T, long>) return vp_int(nm, VP_MIN / 2, VP_MAX / 2);
   else return vp_val<T>(nm);
}
template <typename T>
static void width(T low, T high) {
   if constexpr(std::is_floating_point_v<T>) vp_assume(!(low <= high) || high - low <= std::numeric_limits<T>::max());
}
template <typename T>
static void in(T v, T low, T high) { vp_check(v >= low && v <= high, INL); }
#define ITV(T)                                     \
   T low = bound<T>("low"), high = bound<T>("high"); \
   width(low, high);                               \
   Seed sd{seed()}
// ---- scalars
template <typename T>
static void scalar() {
   ITV(T);
   VP_TRY(rej, in(semi_rands(Strict<T>{low}, Strict<T>{high}, sd).val(), low, high));
   vp_check(rej == !(low <= high), REJ);
}
template <typename T>
static void scalar_named() {
   ITV(T);
   VP_TRY(rej, in(semi_rands(Low<T>{Strict<T>{low}}, High<T>{Strict<T>{high}}, sd).val(), low, high));
   vp_check(rej == !(low <= high), REJ);
   in(semi_rands<T>(sd).val(), T(0), T(1));
   if(low <= high) in(semi_rands(Strict<T>{low}, Strict<T>{high}).val(), low, high);
}
template <typename T>
static void scalar_not0() {
   ITV(T);
   VP_TRY(rej, {
      T v = semi_rands_not0(Strict<T>{low}, Strict<T>{high}, sd).val();
      in(v, low, high);
      vp_check(v != 0, NZL);
   });
   vp_check(rej == (!(low <= high) || (low == 0 && high == 0)), REJ);
}
template <typename T>
static void scalar_not0_named() {
   ITV(T);
   VP_TRY(rej, {
      T v = semi_rands_not0(Low<T>{Strict<T>{low}}, High<T>{Strict<T>{high}}, sd).val();
      in(v, low, high);
      vp_check(v != 0, NZL);
   });
   vp_check(rej == (!(low <= high) || (low == 0 && high == 0)), REJ);
   T u = semi_rands_not0<T>(sd).val();
   in(u, T(0), T(1));
   vp_check(u != 0, NZL);
}
#define CALL(NZ, ...) [&] { if constexpr(NZ) return semi_random_not0(__VA_ARGS__); else return semi_random(__VA_ARGS__); }()
#define CALLT(NZ, T, ...) [&] { if constexpr(NZ) return semi_random_not0<T>(__VA_ARGS__); else return semi_random<T>(__VA_ARGS__); }()
template <bool NZ, typename T>
static bool empty_itv(T low, T high) { return !(low <= high) || (NZ && low == 0 && high == 0); }
template <bool NZ, typename T>
static void ok(T v, T low, T high) {
   in(v, low, high);
   if(NZ) vp_check(v != 0, NZL);
}
template <typename T, bool NZ>
static void fill() {
   In<T> a(vp_size("n", 0), "a");
   ITV(T);
   Array1D<T> A = mk(a);
   VP_TRY(rej, CALL(NZ, A, Strict<T>{low}, Strict<T>{high}, sd));
   vp_check(rej == empty_itv<NZ>(low, high), REJ);
   vp_check(len(A) == a.n, EXT);
   VP_FORALL(k, 0, a.n) {
      if(rej) vp_check(vp_same(A.un(k).val(), a[k]), FRM);
      else ok<NZ>(A.un(k).val(), low, high);
   }
}
template <typename T, bool NZ>
static void fill2() {
   long c, r = vp_shape("r", "c", c);
   In2<T> a(r, c, "a");
   ITV(T);
   Array2D<T> A = mk(a);
   VP_TRY(rej, CALL(NZ, A, Low<T>{Strict<T>{low}}, High<T>{Strict<T>{high}}, sd));
   vp_check(rej == empty_itv<NZ>(low, high), REJ);
   vp_check(A.rows().val() == r && A.cols().val() == c, EXT);
   VP_FORALL(k, 0, a.n) {
      if(rej) vp_check(vp_same(A.un(k).val(), a[k]), FRM);
      else ok<NZ>(A.un(k).val(), low, high);
   }
}
template <typename T, bool NZ>
static void fillv() {
   In<T> a(vp_size("n", 0), "a");
   ITV(T);
   vp_assume(!empty_itv<NZ>(low, high));
   Array1D<T> A = mk(a);
   CALL(NZ, A(place::odd), Strict<T>{low}, Strict<T>{high}, sd);
   vp_check(len(A) == a.n, EXT);
   VP_FORALL(k, 0, a.n) {
      if(k % 2 == 0) vp_check(vp_same(A.un(k).val(), a[k]), FRM);
      else ok<NZ>(A.un(k).val(), low, high);
   }
}
template <typename T, bool NZ>
static void filld() {
   In<T> a(vp_size("n", 0), "a"), b(vp_size("m", 0), "b");
   Array1D<T> A = mk(a), B = mk(b);
   CALL(NZ, A, B);
   vp_check(len(A) == a.n && len(B) == b.n, EXT);
   VP_FORALL(k, 0, a.n) { ok<NZ>(A.un(k).val(), T(0), T(1)); }
   VP_FORALL(k, 0, b.n) { ok<NZ>(B.un(k).val(), T(0), T(1)); }
}
template <typename T, bool NZ>
static void make() {
   long n = vp_size("n", 0);
   ITV(T);
   VP_TRY(rej, {
      Array1D<T> A = CALLT(NZ, T, n, Strict<T>{low}, Strict<T>{high}, sd);
      vp_check(len(A) == n, EXT);
      VP_FORALL(k, 0, n) { ok<NZ>(A.un(k).val(), low, high); }
   });
   vp_check(rej == empty_itv<NZ>(low, high), REJ);
}
template <typename T, bool NZ>
static void make2() {
   long c, r = vp_shape("r", "c", c);
   ITV(T);
   VP_TRY(rej, {
      Array2D<T> A = CALL(NZ, Rows{r}, Cols{c}, Low<T>{Strict<T>{low}}, High<T>{Strict<T>{high}}, sd);
      vp_check(A.rows().val() == r && A.cols().val() == c, EXT);
      VP_FORALL(k, 0, r * c) { ok<NZ>(A.un(k).val(), low, high); }
   });
   vp_check(rej == empty_itv<NZ>(low, high), REJ);
}
template <typename T, bool NZ>
static void maked() {
   long n = vp_size("n", 0);
   Seed sd{seed()};
   Array1D<T> A = CALLT(NZ, T, n, sd);
   Array1D<T> B = CALLT(NZ, T, Size{n}, sd);
   vp_check(len(A) == n && len(B) == n, EXT);
   VP_FORALL(k, 0, n) {
      ok<NZ>(A.un(k).val(), T(0), T(1));
      ok<NZ>(B.un(k).val(), T(0), T(1));
   }
}
template <typename T, bool NZ>
static void make2d() {
   long c, r = vp_shape("r", "c", c);
   Seed sd{seed()};
   Array2D<T> A = CALLT(NZ, T, r, c, sd);
   Array2D<T> B = CALLT(NZ, T, Rows{r}, Cols{c}, sd);
   vp_check(A.rows().val() == r && A.cols().val() == c && B.rows().val() == r && B.cols().val() == c, EXT);
   VP_FORALL(k, 0, r * c) {
      ok<NZ>(A.un(k).val(), T(0), T(1));
      ok<NZ>(B.un(k).val(), T(0), T(1));
   }
}
VP_HARNESS(scalar_f64) { scalar<double>(); }
VP_HARNESS(scalar_named_f64) { scalar_named<double>(); }
VP_HARNESS(scalar_not0_f64) { scalar_not0<double>(); }
VP_HARNESS(scalar_not0_named_f64) { scalar_not0_named<double>(); }
VP_HARNESS(fill_f64) { fill<double, false>(); }
VP_HARNESS(fill_2d_f64) { fill2<double, false>(); }
VP_HARNESS(fill_view_f64) { fillv<double, false>(); }
VP_HARNESS(fill_default_f64) { filld<double, false>(); }
VP_HARNESS(make_f64) { make<double, false>(); }
VP_HARNESS(make_2d_f64) { make2<double, false>(); }
VP_HARNESS(make_default_f64) { maked<double, false>(); }
VP_HARNESS(make_2d_default_f64) { make2d<double, false>(); }
VP_HARNESS(fill_not0_f64) { fill<double, true>(); }
VP_HARNESS(fill_2d_not0_f64) { fill2<double, true>(); }
VP_BOUNDED(fill_view_not0_f64) { fillv<double, true>(); }
VP_HARNESS(fill_default_not0_f64) { filld<double, true>(); }
VP_HARNESS(make_not0_f64) { make<double, true>(); }
VP_BOUNDED(make_2d_not0_f64) { make2<double, true>(); }
VP_HARNESS(make_default_not0_f64) { maked<double, true>(); }
VP_BOUNDED(make_2d_default_not0_f64) { make2d<double, true>(); }
VP_HARNESS(scalar_f32) { scalar<float>(); }
VP_HARNESS(scalar_named_f32) { scalar_named<float>(); }
VP_HARNESS(scalar_not0_f32) { scalar_not0<float>(); }
VP_HARNESS(scalar_not0_named_f32) { scalar_not0_named<float>(); }
VP_HARNESS(fill_f32) { fill<float, false>(); }
VP_HARNESS(fill_2d_f32) { fill2<float, false>(); }
VP_HARNESS(fill_view_f32) { fillv<float, false>(); }
VP_HARNESS(fill_default_f32) { filld<float, false>(); }
VP_HARNESS(make_f32) { make<float, false>(); }
VP_HARNESS(make_2d_f32) { make2<float, false>(); }
VP_HARNESS(make_default_f32) { maked<float, false>(); }
VP_HARNESS(make_2d_default_f32) { make2d<float, false>(); }
VP_HARNESS(fill_not0_f32) { fill<float, true>(); }
VP_HARNESS(fill_2d_not0_f32) { fill2<float, true>(); }
VP_BOUNDED(fill_view_not0_f32) { fillv<float, true>(); }
VP_HARNESS(fill_default_not0_f32) { filld<float, true>(); }
VP_HARNESS(make_not0_f32) { make<float, true>(); }
VP_BOUNDED(make_2d_not0_f32) { make2<float, true>(); }
VP_HARNESS(make_default_not0_f32) { maked<float, true>(); }
VP_BOUNDED(make_2d_default_not0_f32) { make2d<float, true>(); }
VP_HARNESS(scalar_i64) { scalar<long>(); }
VP_HARNESS(scalar_named_i64) { scalar_named<long>(); }
VP_HARNESS(scalar_not0_i64) { scalar_not0<long>(); }
VP_BOUNDED(scalar_not0_named_i64) { scalar_not0_named<long>(); }
VP_HARNESS(fill_i64) { fill<long, false>(); }
VP_HARNESS(fill_2d_i64) { fill2<long, false>(); }
VP_HARNESS(fill_view_i64) { fillv<long, false>(); }
VP_HARNESS(fill_default_i64) { filld<long, false>(); }
VP_HARNESS(make_i64) { make<long, false>(); }
VP_BOUNDED(make_2d_i64) { make2<long, false>(); }
VP_HARNESS(make_default_i64) { maked<long, false>(); }
VP_HARNESS(make_2d_default_i64) { make2d<long, false>(); }
VP_BOUNDED(fill_not0_i64) { fill<long, true>(); }
VP_BOUNDED(fill_2d_not0_i64) { fill2<long, true>(); }
VP_BOUNDED(fill_view_not0_i64) { fillv<long, true>(); }
VP_BOUNDED(fill_default_not0_i64) { filld<long, true>(); }
VP_BOUNDED(make_not0_i64) { make<long, true>(); }
VP_BOUNDED(make_2d_not0_i64) { make2<long, true>(); }
VP_BOUNDED(make_default_not0_i64) { maked<long, true>(); }
VP_BOUNDED(make_2d_default_not0_i64) { make2d<long, true>(); }
VP_HARNESS(scalar_i32) { scalar<int>(); }
VP_HARNESS(scalar_named_i32) { scalar_named<int>(); }
VP_HARNESS(scalar_not0_i32) { scalar_not0<int>(); }
VP_BOUNDED(scalar_not0_named_i32) { scalar_not0_named<int>(); }
VP_HARNESS(fill_i32) { fill<int, false>(); }
VP_HARNESS(fill_2d_i32) { fill2<int, false>(); }
VP_BOUNDED(fill_view_i32) { fillv<int, false>(); }
VP_HARNESS(fill_default_i32) { filld<int, false>(); }
VP_BOUNDED(make_i32) { make<int, false>(); }
VP_BOUNDED(make_2d_i32) { make2<int, false>(); }
VP_BOUNDED(make_default_i32) { maked<int, false>(); }
VP_BOUNDED(make_2d_default_i32) { make2d<int, false>(); }
VP_BOUNDED(fill_not0_i32) { fill<int, true>(); }
VP_BOUNDED(fill_2d_not0_i32) { fill2<int, true>(); }
VP_BOUNDED(fill_view_not0_i32) { fillv<int, true>(); }
VP_BOUNDED(fill_default_not0_i32) { filld<int, true>(); }
VP_BOUNDED(make_not0_i32) { make<int, true>(); }
VP_BOUNDED(make_2d_not0_i32) { make2<int, true>(); }
VP_BOUNDED(make_default_not0_i32) { maked<int, true>(); }
VP_BOUNDED(make_2d_default_not0_i32) { make2d<int, true>(); }
VP_HARNESS(make_named_1d) {
   using T = double;
   long n = vp_size("n", 0);
   ITV(T);
   VP_TRY(rej, {
      Array1D<T> A = semi_random(Size{n}, Low<T>{Strict{low}}, High<T>{Strict{high}}, sd);
      vp_check(len(A) == n, EXT);
      VP_FORALL(k, 0, n) { ok<false>(A.un(k).val(), low, high); }
   });
   vp_check(rej == empty_itv<false>(low, high), REJ);
}
VP_HARNESS(make_named_2d_plain) {
   using T = double;
   long c, r = vp_shape("r", "c", c);
   ITV(T);
   VP_TRY(rej, {
      Array2D<T> A = semi_random(r, c, Strict{low}, Strict{high}, sd);
      vp_check(A.rows().val() == r && A.cols().val() == c, EXT);
      VP_FORALL(k, 0, r * c) { ok<false>(A.un(k).val(), low, high); }
   });
   vp_check(rej == empty_itv<false>(low, high), REJ);
}
VP_HARNESS(make_not0_named_1d) {
   using T = double;
   long n = vp_size("n", 0);
   ITV(T);
   VP_TRY(rej, {
      Array1D<T> A = semi_random_not0(Size{n}, Low<T>{Strict{low}}, High<T>{Strict{high}}, sd);
      vp_check(len(A) == n, EXT);
      VP_FORALL(k, 0, n) { ok<true>(A.un(k).val(), low, high); }
   });
   vp_check(rej == empty_itv<true>(low, high), REJ);
}
VP_BOUNDED(make_not0_2d_plain) {
   using T = double;
   long c, r = vp_shape("r", "c", c);
   ITV(T);
   VP_TRY(rej, {
      Array2D<T> A = semi_random_not0(r, c, Strict{low}, Strict{high}, sd);
      vp_check(A.rows().val() == r && A.cols().val() == c, EXT);
      VP_FORALL(k, 0, r * c) { ok<true>(A.un(k).val(), low, high); }
   });
   vp_check(rej == empty_itv<true>(low, high), REJ);
}
VP_HARNESS(booleans) {
   In<bool> a(vp_size("n", 0), "a");
   Array1D<bool> A = mk(a);
   semi_random(A);
   vp_check(len(A) == a.n, EXT);
   long n = vp_size("m", 0);
   Array1D<bool> B = semi_random<bool>(n, Seed{seed()});
   vp_check(len(B) == n, EXT);
}

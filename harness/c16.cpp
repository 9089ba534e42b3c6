#include "vp.hpp"
// Strict<T> operators give the result of the built-in operator; undefined integer operations are rejected
#include <cmath>
#include <climits>
#define RES "result is that of the built-in operation"
#define CMP "compound assignment stores the result of the built-in operation"
#define REF "compound assignment returns its own operand"
#define KEEP "a rejected operation leaves the operand unchanged"
#define REJ "rejected exactly when the built-in operation is undefined"
#define DEF "value is the definition"
template <typename T>
static T any(const char* nm) {
   if constexpr(std::is_same_v<T, int>) return int(vp_int(nm, INT_MIN, INT_MAX));
   else if constexpr(std::is_same_v<T, unsigned>) return unsigned(vp_int(nm, 0, 4294967295L));
   else if constexpr(std::is_same_v<T, long>) return vp_int(nm, LONG_MIN, LONG_MAX);
   else if constexpr(std::is_same_v<T, unsigned long>) return (unsigned long)vp_int(nm, LONG_MIN, LONG_MAX);
   else return vp_val<T>(nm);
}
// both operands of an operation that must not overflow
template <typename T>
static constexpr bool is_signed_int = std::is_same_v<T, int> || std::is_same_v<T, long>;
enum { ADD, SUB, MUL };
template <int OP, typename T>
static void operands(T& x, T& y) {
   if constexpr(std::is_same_v<T, int>) {
      x = any<T>("x"), y = any<T>("y");
      long r = OP == ADD ? long(x) + long(y) : OP == SUB ? long(x) - long(y) : long(x) * long(y);
      vp_assume(r >= INT_MIN && r <= INT_MAX);
   } else if constexpr(std::is_same_v<T, long>) {
      if constexpr(OP == MUL) x = vp_int("x", -3000000000L, 3000000000L), y = vp_int("y", -3000000000L, 3000000000L);
      else x = vp_int("x", VP_MIN, VP_MAX - 1), y = vp_int("y", VP_MIN + 2, VP_MAX - 1);
   } else {
      x = any<T>("x"), y = any<T>("y");
   }
}
template <typename T>
static void arith() {
   T x, y;
   {
      operands<ADD, T>(x, y);
      vp_check(vp_same((Strict<T>{x} + Strict<T>{y}).val(), T(x + y)), RES);
      Strict<T> z{x};
      Strict<T>* p = &(z += Strict<T>{y});
      vp_check(vp_same(z.val(), T(x + y)), CMP);
      vp_check(p == &z, REF);
   }
}
template <typename T>
static void arith_sub() {
   T x, y;
   operands<SUB, T>(x, y);
   vp_check(vp_same((Strict<T>{x} - Strict<T>{y}).val(), T(x - y)), RES);
   Strict<T> z{x};
   Strict<T>* p = &(z -= Strict<T>{y});
   vp_check(vp_same(z.val(), T(x - y)), CMP);
   vp_check(p == &z, REF);
}
template <typename T>
static void arith_mul() {
   T x, y;
   operands<MUL, T>(x, y);
   vp_check(vp_same((Strict<T>{x} * Strict<T>{y}).val(), T(x * y)), RES);
   Strict<T> z{x};
   Strict<T>* p = &(z *= Strict<T>{y});
   vp_check(vp_same(z.val(), T(x * y)), CMP);
   vp_check(p == &z, REF);
   if constexpr(!is_signed_int<T>) vp_check(vp_same(squares(Strict<T>{x}).val(), T(x * x)), DEF);
}
template <typename T>
static void arith_div() {
   T x = any<T>("x"), y = any<T>("y");
   if constexpr(std::is_same_v<T, int>) vp_assume(!(x == INT_MIN && y == -1));
   if constexpr(std::is_same_v<T, long>) vp_assume(!(x == LONG_MIN && y == -1));
   T q{};
   VP_TRY(rej, q = (Strict<T>{x} / Strict<T>{y}).val());
   if constexpr(std::is_integral_v<T>) {
      vp_check(rej == (y == 0), REJ);
      if(!rej) vp_check(q == T(x / y), RES);
   } else {
      vp_check(!rej, REJ);
      vp_check(vp_same(q, T(x / y)), RES);
   }
   Strict<T> z{x};
   Strict<T>* p = nullptr;
   VP_TRY(rej2, p = &(z /= Strict<T>{y}));
   vp_check(rej == rej2, REJ);
   if(rej2) vp_check(vp_same(z.val(), x), KEEP);
   else {
      vp_check(vp_same(z.val(), T(x / y)), CMP);
      vp_check(p == &z, REF);
   }
}
template <typename T>
static void arith_mod() {
   T x = any<T>("x"), y = any<T>("y");
   if constexpr(std::is_same_v<T, int>) vp_assume(!(x == INT_MIN && y == -1));
   if constexpr(std::is_same_v<T, long>) vp_assume(!(x == LONG_MIN && y == -1));
   T q{};
   VP_TRY(rej, q = (Strict<T>{x} % Strict<T>{y}).val());
   vp_check(rej == (y == 0), REJ);
   if(!rej) vp_check(q == T(x % y), RES);
   Strict<T> z{x};
   Strict<T>* p = nullptr;
   VP_TRY(rej2, p = &(z %= Strict<T>{y}));
   vp_check(rej2 == (y == 0), REJ);
   if(rej2) vp_check(z.val() == x, KEEP);
   else {
      vp_check(z.val() == T(x % y), CMP);
      vp_check(p == &z, REF);
   }
}
#define ARITH(nm, T)                                                                               \
   VP_HARNESS(add_##nm) { arith<T>(); }                                                            \
   VP_HARNESS(sub_##nm) { arith_sub<T>(); }                                                        \
   VP_HARNESS(mul_##nm) { arith_mul<T>(); }                                                        \
   VP_HARNESS(div_##nm) { arith_div<T>(); }
ARITH(int, int)
ARITH(long, long)
ARITH(unsigned, unsigned)
ARITH(ulong, unsigned long)
ARITH(float, float)
ARITH(double, double)
VP_HARNESS(mod_int) { arith_mod<int>(); }
VP_HARNESS(mod_long) { arith_mod<long>(); }
VP_HARNESS(mod_unsigned) { arith_mod<unsigned>(); }
VP_HARNESS(mod_ulong) { arith_mod<unsigned long>(); }

// bitwise
template <typename T>
static void bits() {
   T x = any<T>("x"), y = any<T>("y");
   Strict<T> X{x}, Y{y};
   vp_check((X & Y).val() == T(x & y), RES);
   vp_check((X | Y).val() == T(x | y), RES);
   vp_check((X ^ Y).val() == T(x ^ y), RES);
   vp_check((~X).val() == T(~x), RES);
   Strict<T> a{x}, b{x}, c{x};
   Strict<T>*pa = &(a &= Y), *pb = &(b |= Y), *pc = &(c ^= Y);
   vp_check(a.val() == T(x & y) && b.val() == T(x | y) && c.val() == T(x ^ y), CMP);
   vp_check(pa == &a && pb == &b && pc == &c, REF);
}
template <typename T>
static void shifts() {
   T x = any<T>("x"), y = any<T>("y");
   bool bad = false;
   if constexpr(std::is_signed_v<T>) {
      bad = x < 0 || y < 0;
      vp_assume(y < T(8 * sizeof(T)));
   } else vp_assume(y < T(8 * sizeof(T)));
   T l{}, r{};
   VP_TRY(r1, l = (Strict<T>{x} << Strict<T>{y}).val());
   VP_TRY(r2, r = (Strict<T>{x} >> Strict<T>{y}).val());
   Strict<T> a{x}, b{x};
   Strict<T>*pa = nullptr, *pb = nullptr;
   VP_TRY(r3, pa = &(a <<= Strict<T>{y}));
   VP_TRY(r4, pb = &(b >>= Strict<T>{y}));
   vp_check(r1 == bad && r2 == bad && r3 == bad && r4 == bad, REJ);
   if(bad) {
      vp_check(a.val() == x, KEEP);
      vp_check(b.val() == x, KEEP);
   } else {
      vp_check(l == T(x << y), RES);
      vp_check(r == T(x >> y), RES);
      vp_check(a.val() == T(x << y), CMP);
      vp_check(b.val() == T(x >> y), CMP);
      vp_check(pa == &a && pb == &b, REF);
   }
}
#define BITS(nm, T)                                                                                \
   VP_HARNESS(bits_##nm) { bits<T>(); }                                                            \
   VP_HARNESS(shift_##nm) { shifts<T>(); }
BITS(int, int)
BITS(long, long)
BITS(unsigned, unsigned)
BITS(ulong, unsigned long)

// comparisons
template <typename T>
static void compare() {
   T x = any<T>("x"), y = any<T>("y");
   Strict<T> X{x}, Y{y};
   vp_check((X == Y).val() == (x == y), RES);
   vp_check((X != Y).val() == (x != y), RES);
   vp_check((X < Y).val() == (x < y), RES);
   vp_check((X <= Y).val() == (x <= y), RES);
   vp_check((X > Y).val() == (x > y), RES);
   vp_check((X >= Y).val() == (x >= y), RES);
   vp_check(equal(X, Y).val() == (x == y), RES);
}
VP_HARNESS(compare_bool) { compare<bool>(); }
VP_HARNESS(compare_int) { compare<int>(); }
VP_HARNESS(compare_long) { compare<long>(); }
VP_HARNESS(compare_unsigned) { compare<unsigned>(); }
VP_HARNESS(compare_ulong) { compare<unsigned long>(); }
VP_HARNESS(compare_float) { compare<float>(); }
VP_HARNESS(compare_double) { compare<double>(); }

// unary and stepping
template <typename T>
static void steps() {
   T x = any<T>("x");
   if constexpr(std::is_same_v<T, int>) vp_assume(x > INT_MIN && x < INT_MAX);
   if constexpr(std::is_same_v<T, long>) vp_assume(x > LONG_MIN && x < LONG_MAX);
   T up = x, dn = x;
   ++up;
   --dn;
   Strict<T> a{x}, b{x}, c{x}, d{x};
   Strict<T>*pa = &++a, *pb = &--b;
   vp_check(vp_same(a.val(), up), CMP);
   vp_check(vp_same(b.val(), dn), CMP);
   vp_check(pa == &a && pb == &b, REF);
   vp_check(vp_same((c++).val(), x), RES);
   vp_check(vp_same(c.val(), up), CMP);
   vp_check(vp_same((d--).val(), x), RES);
   vp_check(vp_same(d.val(), dn), CMP);
   vp_check(vp_same((+Strict<T>{x}).val(), x), RES);
   if constexpr(!std::is_unsigned_v<T>) vp_check(vp_same((-Strict<T>{x}).val(), T(-x)), RES);
   Strict<T> e{x}, z;
   vp_check(z.val() == T(0), "a default value is zero");
   z = e;
   vp_check(vp_same(z.val(), x) && vp_same(T{e}, x), "a copy has the value");
}
VP_HARNESS(steps_int) { steps<int>(); }
VP_HARNESS(steps_long) { steps<long>(); }
VP_HARNESS(steps_unsigned) { steps<unsigned>(); }
VP_HARNESS(steps_ulong) { steps<unsigned long>(); }
VP_HARNESS(steps_float) { steps<float>(); }
VP_HARNESS(steps_double) { steps<double>(); }

// booleans
VP_HARNESS(logic) {
   bool x = vp_flag("x"), y = vp_flag("y");
   StrictBool X{x}, Y{y};
   vp_check((X && Y).val() == (x && y), RES);
   vp_check((X || Y).val() == (x || y), RES);
   vp_check((X ^ Y).val() == (x != y), RES);
   vp_check((!X).val() == !x, RES);
   vp_check(bool(X) == x && X.val() == x, RES);
   StrictBool z;
   vp_check(!z.val(), "a default value is zero");
   z = Y;
   vp_check(z.val() == y, "a copy has the value");
   ImplicitBool ib{X};
   vp_check(bool(ib.get()) == x, RES);
}

// conversions
template <typename T, typename U>
static void conv1(U x) {
   vp_check(vp_same(strict_cast<T>(Strict<U>{x}).val(), static_cast<T>(x)), RES);
   vp_check(vp_same(strict_cast<T>(x).val(), static_cast<T>(x)), RES);
   vp_check(vp_same(builtin_cast<T>(Strict<U>{x}), static_cast<T>(x)), RES);
   vp_check(vp_same(builtin_cast<T>(x), static_cast<T>(x)), RES);
}
template <typename U>
static void conv() {
   U x = any<U>("x");
   if constexpr(std::is_floating_point_v<U>) vp_assume(x > U(-1000) && x < U(1000000));
   Strict<U> X{x};
   conv1<bool>(x);
   conv1<int>(x);
   conv1<long>(x);
   conv1<float>(x);
   conv1<double>(x);
   vp_check(X.sb().val() == static_cast<bool>(x), RES);
   vp_check(X.si().val() == static_cast<int>(x), RES);
   vp_check(X.sl().val() == static_cast<long>(x), RES);
   vp_check(vp_same(X.sf().val(), static_cast<float>(x)), RES);
   vp_check(vp_same(X.sd().val(), static_cast<double>(x)), RES);
   vp_check(to_index_t(X).val() == static_cast<long>(x) && to_index_t(x).val() == static_cast<long>(x), RES);
   if constexpr(!std::is_floating_point_v<U>) {
      conv1<unsigned>(x);
      conv1<unsigned long>(x);
      vp_check(X.sui().val() == static_cast<unsigned>(x), RES);
      vp_check(X.sul().val() == static_cast<unsigned long>(x), RES);
      vp_check(to_size_t(X) == static_cast<std::size_t>(x) && to_size_t(x) == static_cast<std::size_t>(x), RES);
   }
   if constexpr(!std::is_same_v<U, bool> && !std::is_floating_point_v<U>) {
      vp_check(vp_same(whole<double>(X).val(), static_cast<double>(x)), RES);
      vp_check(vp_same(whole<float>(x).val(), static_cast<float>(x)), RES);
   }
   if constexpr(!std::is_same_v<U, bool>) {
      vp_check(vp_same(real_cast<double>(X), static_cast<double>(x)), RES);
      vp_check(vp_same(real_cast<double>(x), static_cast<double>(x)), RES);
   }
}
VP_HARNESS(conv_bool) { conv<bool>(); }
VP_HARNESS(conv_int) { conv<int>(); }
VP_HARNESS(conv_long) { conv<long>(); }
VP_HARNESS(conv_unsigned) { conv<unsigned>(); }
VP_HARNESS(conv_ulong) { conv<unsigned long>(); }
VP_HARNESS(conv_float) { conv<float>(); }
VP_HARNESS(conv_double) { conv<double>(); }
VP_HARNESS(consts) {
   vp_check(Zero<int>.val() == 0 && One<int>.val() == 1 && NegOne<int>.val() == -1 && Thousand<int>.val() == 1000 && Million<int>.val() == 1000000 && Billion<int>.val() == 1000000000, DEF);
   vp_check(Zero<long>.val() == 0 && One<long>.val() == 1 && NegOne<long>.val() == -1 && Billion<long>.val() == 1000000000L, DEF);
   vp_check(One<unsigned>.val() == 1u && One<bool>.val() && !Zero<bool>.val() && true_sb.val() && !false_sb.val(), DEF);
   vp_check(vp_same(Zero<double>.val(), 0.) && vp_same(One<double>.val(), 1.) && vp_same(NegOne<double>.val(), -1.) && vp_same(Thousand<double>.val(), 1e3), DEF);
   vp_check((5_si).val() == 5 && (7_sl).val() == 7L && vp_same((2.5_sd).val(), 2.5) && vp_same((2.5_sf).val(), 2.5f) && (9_sui).val() == 9u && (9_sul).val() == 9ul, DEF);
}

// definitions
template <typename T>
static void minmax() {
   T x = any<T>("x"), y = any<T>("y");
   vp_check(vp_same(mins(Strict<T>{x}, Strict<T>{y}).val(), x < y ? x : y), DEF);
   vp_check(vp_same(maxs(Strict<T>{x}, Strict<T>{y}).val(), x > y ? x : y), DEF);
}
template <typename T>
static void absval() {
   T x = any<T>("x");
   if constexpr(std::is_same_v<T, int>) vp_assume(x > INT_MIN);
   if constexpr(std::is_same_v<T, long>) vp_assume(x > LONG_MIN);
   T r = abss(Strict<T>{x}).val();
   if constexpr(std::is_unsigned_v<T>) vp_check(r == x, DEF);
   else if constexpr(std::is_integral_v<T>) vp_check(r == (x < 0 ? -x : x), DEF);
   else {
      VP_NATIVE(vp_check(vp_same(r, T(std::fabs(x))), DEF);)
      vp_check(vp_same(r, x > 0 ? x : T(0) - x), DEF);
   }
   vp_check(vp_same(signs(Strict<T>{x}).val(), T((x > 0) - (x < 0))), DEF);
}
template <typename T>
static void interval() {
   T x = any<T>("x"), lo = any<T>("lo"), hi = any<T>("hi");
   Strict<T> X{x}, L{lo}, H{hi};
   T c{}, c2{};
   bool o = false, k = false, o2 = false, k2 = false;
   VP_TRY(r1, c = clamps(X, L, H).val());
   VP_TRY(r2, o = in_open(X, L, H).val());
   VP_TRY(r3, k = in_closed(X, L, H).val());
   VP_TRY(r4, c2 = clamps(X, Low<T>{lo}, High<T>{hi}).val());
   VP_TRY(r5, o2 = in_open(Value<T>{x}, Low<T>{lo}, High<T>{hi}).val());
   VP_TRY(r6, k2 = in_closed(Value<T>{x}, Low<T>{lo}, High<T>{hi}).val());
   bool nan = x != x;
   vp_check(r1 == (!(lo <= hi) || nan) && r4 == (!(lo <= hi) || nan), "empty intervals and nan are rejected");
   vp_check(r2 == !(lo <= hi) && r3 == !(lo <= hi) && r5 == !(lo <= hi) && r6 == !(lo <= hi), "empty intervals are rejected");
   if(!r1) vp_check(vp_same(c, x < lo ? lo : hi < x ? hi : x), DEF);
   if(!r4) vp_check(vp_same(c2, x < lo ? lo : hi < x ? hi : x), DEF);
   if(!r2) vp_check(o == (x > lo && x < hi), DEF);
   if(!r3) vp_check(k == (x >= lo && x <= hi), DEF);
   if(!r5) vp_check(o2 == (x > lo && x < hi), DEF);
   if(!r6) vp_check(k2 == (x >= lo && x <= hi), DEF);
}
#define DEFS(nm, T)                                                                                \
   VP_HARNESS(minmax_##nm) { minmax<T>(); }                                                        \
   VP_HARNESS(abs_##nm) { absval<T>(); }                                                           \
   VP_HARNESS(interval_##nm) { interval<T>(); }
DEFS(int, int)
DEFS(long, long)
DEFS(unsigned, unsigned)
DEFS(ulong, unsigned long)
DEFS(float, float)
DEFS(double, double)
VP_HARNESS(inverse) {
   double x = vp_f64("x");
   float f = vp_f32("f");
   vp_check(vp_same(invs(Strict{x}).val(), 1. / x), DEF);
   vp_check(vp_same(invs(Strict{f}).val(), 1.f / f), DEF);
}
VP_HARNESS(square_cube) {
   long x = vp_int("x", -2000000, 2000000);
   int i = int(vp_int("i", -1200, 1200));
   double d = vp_f64("d");
   vp_check(squares(Strict{x}).val() == x * x && cubes(Strict{x}).val() == x * x * x, DEF);
   vp_check(squares(Strict{i}).val() == i * i && cubes(Strict{i}).val() == i * i * i, DEF);
   vp_check(vp_same(squares(Strict{d}).val(), d * d), DEF);
   vp_check(vp_same(cubes(Strict{d}).val(), d * d * d), DEF);
}
// library functions are those of <cmath>
template <typename T>
static void cm() {
   T x = vp_val<T>("x"), y = vp_val<T>("y"), z = vp_val<T>("z");
   Strict<T> X{x}, Y{y}, Z{z};
   vp_check(vp_same(sqrts(X).val(), std::sqrt(x)) && vp_same(cbrts(X).val(), std::cbrt(x)) && vp_same(exps(X).val(), std::exp(x)) && vp_same(logs(X).val(), std::log(x)), RES);
   vp_check(vp_same(log2s(X).val(), std::log2(x)) && vp_same(log10s(X).val(), std::log10(x)) && vp_same(sins(X).val(), std::sin(x)) && vp_same(coss(X).val(), std::cos(x)), RES);
   vp_check(vp_same(tans(X).val(), std::tan(x)) && vp_same(floors(X).val(), std::floor(x)) && vp_same(ceils(X).val(), std::ceil(x)) && vp_same(pows(X, Y).val(), std::pow(x, y)), RES);
   vp_check(vp_same(fmas(X, Y, Z).val(), std::fma(x, y, z)), RES);
   vp_check(isinfs(X).val() == std::isinf(x) && isnans(X).val() == std::isnan(x) && isfinites(X).val() == std::isfinite(x), RES);
}
VP_HARNESS(cmath_double) { cm<double>(); }
VP_HARNESS(cmath_float) { cm<float>(); }
// long double is outside the verifier's floating point types
VP_BOUNDED(long_double) {
   long double x = vp_f64("x"), y = vp_f64("y");
   x += vp_f64("u") * 1e-18L;
   Strict<long double> X{x}, Y{y};
   auto same = [](long double a, long double b) { return a == b || (a != a && b != b); };
   vp_check(same((X + Y).val(), x + y) && same((X - Y).val(), x - y) && same((X * Y).val(), x * y) && same((X / Y).val(), x / y), RES);
   vp_check((X < Y).val() == (x < y) && (X == Y).val() == (x == y) && (X >= Y).val() == (x >= y), RES);
   vp_check(same(abss(X).val(), std::fabs(x)) && same(sqrts(X).val(), std::sqrt(x)) && same(X.sld().val(), x) && same(X.sd().val(), double(x)), RES);
   auto z = X;
   z += Y;
   vp_check(same(z.val(), x + y), CMP);
}

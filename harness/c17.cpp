#include "vp.hpp"
// factorial, binomial coefficient, integer powers
#include <climits>
#define VAL "value is the mathematical one"
#define REJ "arguments outside the domain are rejected"
#define PW "power is the product of repeated squaring"
// factorial: n <= 20 are all the values that fit; every one of them, and every negative n
VP_HARNESS(factorial_all) {
   long f = 1;
   for(long n = 0; n <= 20; ++n) {
      if(n > 0) f *= n;
      vp_check(factorial(n).val() == f, VAL);
   }
}
VP_HARNESS(factorial_int_argument) {
   vp_check(factorial(0).val() == 1 && factorial(5).val() == 120 && factorial(Strict{6}).val() == 720 && factorial(7_sl).val() == 5040, VAL);
}
VP_HARNESS(factorial_negative) {
   long n = vp_int("n", LONG_MIN, -1);
   VP_TRY(rej, (void)factorial(n));
   vp_check(rej, REJ);
}
VP_HARNESS(binom_domain) {
   long n = vp_int("n", LONG_MIN, LONG_MAX), k = vp_int("k", LONG_MIN, LONG_MAX);
   vp_assume(k < 0 || n < k);
   VP_TRY(rej, (void)binom_coeff(n, k));
   vp_check(rej, REJ);
}
// C(n, 0), C(n, 1), C(n, n), C(n, n - 1) for every n the type allows
VP_HARNESS(binom_zero) {
   long n = vp_int("n", 0, LONG_MAX - 1);
   VP_TRY(rej, vp_check(binom_coeff(n, 0).val() == 1, VAL));
   vp_check(!rej, REJ);
}
VP_HARNESS(binom_one) {
   long n = vp_int("n", 1, LONG_MAX - 1);
   VP_TRY(rej, vp_check(binom_coeff(n, 1).val() == n, VAL));
   vp_check(!rej, REJ);
}
VP_HARNESS(binom_two) {
   long n = vp_int("n", 2, 3000000000L);
   VP_TRY(rej, vp_check(binom_coeff(n, 2).val() == (n - 1) * n / 2, VAL));
   vp_check(!rej, REJ);
}
// Pascal's triangle, every entry up to row N
template <long N>
static void pascal() {
   long t[N + 2] = {};
   t[0] = 1;
   for(long n = 0; n <= N; ++n) {
      for(long k = 0; k <= n; ++k) vp_check(binom_coeff(n, k).val() == t[k], VAL);
      for(long k = n + 1; k > 0; --k) t[k] += t[k - 1];
   }
}
VP_HARNESS(binom_pascal_12) { pascal<12>(); }
static long binom_ref(long n, long k, bool& fits) {
   __int128 p = 1;
   for(long i = 1; i <= k; ++i) {
      __int128 q = p * (n - k + i);
      if(q > LONG_MAX) fits = false;
      if(q > ((__int128)1 << 100)) return 0;
      p = q / i;
   }
   return long(p);
}
VP_BOUNDED(binom_all) {
   long n = vp_flag("big") ? vp_int("N", 0, 4000000000L) : vp_int("n", 0, 70);
   long k = vp_int("k", 0, 70);
   vp_assume(k <= n);
   bool fits = true;
   long r = binom_ref(n, k, fits);
   vp_assume(fits);
   VP_TRY(rej, vp_check(binom_coeff(n, k).val() == r, VAL));
   vp_check(!rej, REJ);
}
// floating powers: every value, each exponent of the list
template <typename T>
static T sq(T x, unsigned long p) {
   T r = 1, b = x;
   while(true) {
      if(p & 1) r = r * b;
      p /= 2;
      if(p == 0) return r;
      b = b * b;
   }
}
template <typename T, long LO, long HI>
static void fastpow() {
   T x = vp_val<T>("x");
   for(long p = LO; p <= HI; ++p) {
      T r = fast_pows_int(Strict<T>{x}, p).val();
      if(p == 0) vp_check(vp_same(r, T(1)), PW);
      else if(p == 1) vp_check(vp_same(r, x), PW);
      else if(p > 0) vp_check(vp_same(r, sq(x, (unsigned long)p)), PW);
      else vp_check(vp_same(r, T(1) / sq(x, 0ul - (unsigned long)p)), PW);
   }
}
VP_HARNESS(fast_pow_small) { fastpow<double, 0, 16>(); }
VP_HARNESS(fast_pow_more) { fastpow<double, 17, 40>(); }
VP_HARNESS(fast_pow_neg) { fastpow<double, -20, -1>(); }
VP_HARNESS(fast_pow_f32) { fastpow<float, -8, 16>(); }
VP_HARNESS(fast_pow_large) { fastpow<double, 1000, 1003>(); }
VP_HARNESS(fast_pow_max) { fastpow<double, LONG_MAX - 2, LONG_MAX - 1>(); }
VP_HARNESS(fast_pow_min) { fastpow<double, LONG_MIN, LONG_MIN + 2>(); }
// every exponent: the same squarings, counted from the signed exponent
static double sqs(double x, long p) {
   double r = 1;
   for(;;) {
      if(p % 2) r = r * x;
      p /= 2;
      if(!p) return r;
      x = x * x;
   }
}
VP_HARNESS(fast_pow_all) {
   double x = vp_f64("x");
   long p = vp_int("p", LONG_MIN, LONG_MAX);
   double r = fast_pows_int(Strict{x}, p).val();
   vp_check(vp_same(r, p < 0 ? 1 / sqs(x, p) : sqs(x, p)), PW);
}
VP_BOUNDED(fast_pow_any) {
   double x = vp_f64("x");
   long p = vp_flag("big") ? vp_int("P", LONG_MIN, LONG_MAX) : vp_int("p", -300, 300);
   double r = fast_pows_int(Strict{x}, p).val();
   double s = sq(x, p < 0 ? 0ul - (unsigned long)p : (unsigned long)p);
   vp_check(vp_same(r, p < 0 ? 1 / s : s), PW);
}
// integer powers
template <int P>
static long prod(long x) {
   long r = 1;
   for(int i = 0; i < P; ++i) r *= x;
   return r;
}
template <int P>
static void ipow(long lim) {
   long x = vp_int("x", -lim, lim);
   VP_TRY(rej, vp_check(pows(Strict{x}, Strict{long(P)}).val() == prod<P>(x), VAL));
   vp_check(!rej, REJ);
}
#define IPOW(P, LIM) VP_HARNESS(int_pow_##P) { ipow<P>(LIM); }
IPOW(0, VP_MAX)
IPOW(1, VP_MAX)
IPOW(2, 3000000000L)
IPOW(3, 2000000L)
IPOW(4, 50000L)
IPOW(5, 6000L)
IPOW(6, 1400L)
IPOW(7, 500L)
IPOW(8, 230L)
IPOW(9, 120L)
IPOW(10, 75L)
IPOW(13, 28L)
IPOW(20, 8L)
VP_HARNESS(int_pow_two) {
   for(long p = 0; p <= 33; ++p) vp_check(pows(2_sl, Strict{p}).val() == 1L << p, VAL);
   for(long p = 34; p <= 62; ++p) vp_check(pows(2_sl, Strict{p}).val() == 1L << p, VAL);
}
VP_HARNESS(int_pow_negative) {
   long x = vp_int("x", LONG_MIN, LONG_MAX), p = vp_int("p", LONG_MIN, -1);
   VP_TRY(rej, (void)pows(Strict{x}, Strict{p}));
   vp_check(rej, REJ);
}
VP_HARNESS(pow_library) {
   double x = vp_f64("x");
   long p = vp_int("p", LONG_MIN, LONG_MAX);
   vp_check(vp_same(pows_int(Strict{x}, p).val(), std::pow(x, double(p))), "power is that of the library");
   vp_check(vp_same(exps_int<double>(p).val(), std::exp(double(p))), "exponential is that of the library");
}

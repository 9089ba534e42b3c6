#include "vp.hpp"
#include <climits>
// Linear slices

// reading through the slice: size and elements
template <typename T, typename S>
static void reads(S mks, long n, const In<T>& d, bool ok, long m, auto at, long junk = 0) {
   (void)junk;
   Array1D<T> A = mk(d);
   VP_TRY(rej, {
      auto v = A(mks());
      vp_check(len(v) == m, "slice has the described size");
      VP_FORALL(k, 0, m) { vp_check(vp_same(v.un(k).val(), d[at(k)]), "k-th element is the described element"); }
   });
   vp_check(rej == !ok, "rejected iff malformed or addressing a position outside");
   check_is(A, d, "array size unchanged by slicing", "array unchanged by slicing");
   const Array1D<T>& C = A;
   VP_TRY(rejc, {
      auto v = C(mks());
      vp_check(len(v) == m, "constant slice has the described size");
      VP_FORALL(k, 0, m) { vp_check(vp_same(v.un(k).val(), d[at(k)]), "k-th element of the constant slice is the described element"); }
   });
   vp_check(rejc == !ok, "constant slice rejected iff malformed or addressing a position outside");
}
// writing one element through the slice
template <typename T, typename S>
static void writes(S mks, long n, const In<T>& d, bool ok, long m, auto at) {
   Array1D<T> A = mk(d);
   T x = vp_val<T>("x");
   long w = vp_int("w", 0, VP_MAX);
   vp_assume(w < m);
   vp_assume(ok);
   A(mks())[w] = Strict{x};
   VP_FORALL(q, 0, n) { vp_check(vp_same(A.un(q).val(), q == at(w) ? x : d[q]), "writing through the slice changes exactly the addressed element"); }
}
// assigning a scalar / an array to the whole slice; isin(q) <=> some k addresses q, inv(q) = that k
template <typename T, typename S>
static void fills(S mks, long n, const In<T>& d, bool ok, long m, auto isin) {
   Array1D<T> A = mk(d);
   T x = vp_val<T>("x");
   VP_TRY(rej, A(mks()) = Strict{x});
   vp_check(rej == !ok, "rejected iff malformed or addressing a position outside");
   VP_FORALL(q, 0, n) { vp_check(vp_same(A.un(q).val(), ok && isin(q) ? x : d[q]), "assigning a value changes exactly the addressed elements"); }
}
template <typename T, typename S>
static void assigns(S mks, long n, const In<T>& d, bool ok, long m, auto isin, auto inv) {
   Array1D<T> A = mk(d);
   long k = vp_size("srclen", 0);
   In<T> e(k, "b");
   Array1D<T> B = mk(e);
   VP_TRY(rej, A(mks()) = B);
   vp_check(rej == !(ok && k == m), "rejected iff malformed, outside or of another size");
   VP_FORALL(q, 0, n) { vp_check(vp_same(A.un(q).val(), !rej && isin(q) ? e[inv(q)] : d[q]), "assigning an array changes exactly the addressed elements"); }
}
#define SLICE(kind, nm, T, PRE, SL, OK, M, AT, ISIN, INV)                                                     \
   VP_HARNESS(nm##_##kind) {                                                                                  \
      [[maybe_unused]] long n = vp_size("n", 0);                                                              \
      In<T> d(n, "a");                                                                                        \
      PRE;                                                                                                    \
      SLICE_##kind(T, SL, OK, M, AT, ISIN, INV);                                                              \
   }
#define SLICE_read(T, SL, OK, M, AT, ISIN, INV) reads<T>([&] { return SL; }, n, d, OK, M, [&](long k) { return AT; })
#define SLICE_write(T, SL, OK, M, AT, ISIN, INV) writes<T>([&] { return SL; }, n, d, OK, M, [&](long k) { return AT; })
#define SLICE_fill(T, SL, OK, M, AT, ISIN, INV) fills<T>([&] { return SL; }, n, d, OK, M, [&](long q) { return ISIN; })
#define SLICE_assign(T, SL, OK, M, AT, ISIN, INV) \
   assigns<T>([&] { return SL; }, n, d, OK, M, [&](long q) { return ISIN; }, [&](long q) { return INV; })

#define EACH(X, ...) X(read, __VA_ARGS__) X(write, __VA_ARGS__) X(fill, __VA_ARGS__) X(assign, __VA_ARGS__)
#define PAR(nm) vp_int(#nm, VP_MIN / 2, VP_MAX / 2)

EACH(SLICE, all, double, , place::all, true, n, k, true, q)
EACH(SLICE, reverse, double, , place::reverse, true, n, n - 1 - k, true, n - 1 - q)
EACH(SLICE, even, long, , place::even, true, (n + 1) / 2, 2 * k, q % 2 == 0, q / 2)
EACH(SLICE, odd, long, , place::odd, true, n / 2, 2 * k + 1, q % 2 == 1, q / 2)
EACH(SLICE, first_n, double, long c = PAR(c), place::firstN{c}, c >= 0 && c <= n, c, k, q < c, q)
EACH(SLICE, last_n, double, long c = PAR(c), place::lastN{c}, c >= 0 && c <= n, c, n - c + k, q >= n - c, q - (n - c))
EACH(SLICE, first_named, double, long c = PAR(c), place::firstN{Count{Strict{c}}}, c >= 0 && c <= n, c, k, q < c, q)
EACH(SLICE, last_named, double, long c = PAR(c), place::lastN{Count{Strict{c}}}, c >= 0 && c <= n, c, n - c + k, q >= n - c, q - (n - c))
EACH(SLICE, skip, double, long s = vp_int("s", -LONG_MAX, LONG_MAX), place::skipN{s}, s > 0, n == 0 || s <= 0 ? 0 : (n - 1) / s + 1, s * k, q % s == 0, q / s)
EACH(SLICE, skip3, double, , place::skipN{3}, true, (n + 2) / 3, 3 * k, q % 3 == 0, q / 3)
EACH(SLICE, seqn_unit, double, long s = PAR(s); long c = PAR(c), (seqN{s, c}), s >= 0 && c >= 0 && (c == 0 || (s < n && c <= n - s)), c, s + k, q >= s && q < s + c, q - s)
EACH(SLICE, seqn_back, double, long s = PAR(s); long c = PAR(c), (seqN{s, c, -1}), s >= 0 && c >= 0 && (c == 0 || (s < n && c - 1 <= s)), c, s - k, q <= s && q > s - c, s - q)
// start, size, stride: every position 0 <= s + k * st < n
inline bool fits(long n, long s, long c, long st) {
   if(s < 0 || c < 0) return false;
   if(c == 0) return true;
   if(s >= n) return false;
   if(c == 1 || st == 0) return true;
   return st > 0 ? st <= (n - 1 - s) / (c - 1) : -st <= s / (c - 1);
}
inline bool hits(long q, long s, long c, long st) {
   if(st == 0) return c > 0 && q == s;
   if(st > 0) return q >= s && (q - s) % st == 0 && (q - s) / st < c;
   return q <= s && (s - q) % -st == 0 && (s - q) / -st < c;
}
inline long which(long q, long s, long c, long st) { return st == 0 ? c - 1 : (q - s) / st; }
EACH(SLICE, seqn_pos, double, long s = PAR(s); long c = PAR(c); long st = vp_int("st", 1, LONG_MAX), (seqN{s, c, st}), fits(n, s, c, st), c, s + k * st, hits(q, s, c, st), which(q, s, c, st))
EACH(SLICE, seqn_neg, double, long s = PAR(s); long c = PAR(c); long st = vp_int("st", -LONG_MAX, -1), (seqN{s, c, st}), fits(n, s, c, st), c, s + k * st, hits(q, s, c, st), which(q, s, c, st))
EACH(SLICE, seqn_zero, double, long s = PAR(s); long c = vp_ext("c", VP_MIN), (seqN{s, c, 0}), fits(n, s, c, 0), c, s, c > 0 && q == s, c - 1)
SLICE(read, seqn_named, double, long s = PAR(s); long c = vp_ext("c", VP_MIN); long st = PAR(st), (seqN{First{Strict{s}}, Size{Strict{c}}, Stride{Strict{st}}}), fits(n, s, c, st), c, s + k * st, , )
// first, last, stride
inline bool seqok(long n, long f, long l, long st) {
   return f >= 0 && l >= 0 && f < n && l < n && ((st > 0 && f <= l) || (st < 0 && f >= l) || (st == 0 && f == l));
}
EACH(SLICE, seq_unit, double, long f = PAR(f); long l = PAR(l), (seq{f, l}), seqok(n, f, l, 1), l - f + 1, f + k, q >= f && q <= l, q - f)
EACH(SLICE, seq_back, double, long f = PAR(f); long l = PAR(l), (seq{f, l, -1}), seqok(n, f, l, -1), f - l + 1, f - k, q <= f && q >= l, f - q)
EACH(SLICE, seq_pos, double, long f = PAR(f); long l = PAR(l); long st = vp_int("st", 1, LONG_MAX), (seq{f, l, st}), seqok(n, f, l, st), (l - f) / st + 1, f + k * st, hits(q, f, (l - f) / st + 1, st), which(q, f, 1, st))
EACH(SLICE, seq_neg, double, long f = PAR(f); long l = PAR(l); long st = vp_int("st", -LONG_MAX, -1), (seq{f, l, st}), seqok(n, f, l, st), (l - f) / st + 1, f + k * st, hits(q, f, (l - f) / st + 1, st), which(q, f, 1, st))
EACH(SLICE, seq_zero, double, long f = PAR(f); long l = PAR(l), (seq{f, l, 0}), seqok(n, f, l, 0), 1, f, q == f, 0)
EACH(SLICE, seq_named, double, long f = PAR(f); long l = PAR(l), (seq{First{Strict{f}}, Endmost{Strict{l}}}), seqok(n, f, l, 1), l - f + 1, f + k, q >= f && q <= l, q - f)

// slices of slices compose
VP_HARNESS(slice_of_slice) {
   long n = vp_size("n", 0);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   long s = vp_ext("s", 0), c = vp_ext("c", 0), s2 = PAR(s2), c2 = PAR(c2);
   vp_assume(s + c <= n);
   double x = vp_f64("x");
   VP_TRY(rej, {
      auto v = A(seqN{s, c})(seqN{s2, c2});
      vp_check(len(v) == c2, "slice of a slice has the described size");
      VP_FORALL(k, 0, c2) { vp_check(vp_same(v.un(k).val(), d[s + s2 + k]), "slice of a slice addresses the described elements"); }
      v = Strict{x};
   });
   vp_check(rej == !(s2 >= 0 && c2 >= 0 && (c2 == 0 || (s2 < c && c2 <= c - s2))), "slice of a slice rejected iff outside the inner slice");
   VP_FORALL(q, 0, n) {
      vp_check(vp_same(A.un(q).val(), !rej && q >= s + s2 && q < s + s2 + c2 ? x : d[q]), "assigning to a slice of a slice changes exactly the addressed elements");
   }
}
VP_HARNESS(slice_of_reverse) {
   long n = vp_size("n", 0);
   In<long> d(n, "a");
   Array1D<long> A = mk(d);
   long s2 = PAR(s2), c2 = PAR(c2);
   VP_TRY(rej, {
      auto v = A(place::reverse)(seqN{s2, c2});
      vp_check(len(v) == c2, "slice of a reversed slice has the described size");
      VP_FORALL(k, 0, c2) { vp_check(v.un(k).val() == d[n - 1 - s2 - k], "slice of a reversed slice addresses the described elements"); }
   });
   vp_check(rej == !(s2 >= 0 && c2 >= 0 && (c2 == 0 || (s2 < n && c2 <= n - s2))), "slice of a reversed slice rejected iff outside");
}
VP_HARNESS(even_of_odd) {
   long n = vp_size("n", 0);
   In<long> d(n, "a");
   Array1D<long> A = mk(d);
   auto v = A(place::odd)(place::even);
   vp_check(len(v) == (n / 2 + 1) / 2, "even elements of the odd slice: size");
   VP_FORALL(k, 0, (n / 2 + 1) / 2) { vp_check(v.un(k).val() == d[4 * k + 1], "even elements of the odd slice"); }
}
VP_HARNESS(expr_slice) {
   long n = vp_size("n", 0);
   In<double> d(n, "a"), e(n, "b");
   Array1D<double> A = mk(d), B = mk(e);
   long f = PAR(f), l = PAR(l);
   VP_TRY(rej, {
      auto v = (A + B)(seq{f, l});
      vp_check(len(v) == l - f + 1, "slice of an expression has the described size");
      VP_FORALL(k, 0, l - f + 1) { vp_check(vp_same(v.un(k).val(), d[f + k] + e[f + k]), "slice of an expression yields the described elements"); }
   });
   vp_check(rej == !seqok(n, f, l, 1), "slice of an expression rejected iff outside");
}
// overlapping self-assignment through non-overlapping slices
VP_HARNESS(copy_between_slices) {
   long n = vp_size("n", 0), c = vp_ext("c", 0);
   vp_assume(2 * c <= n);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   A(place::firstN{c}) = A(place::lastN{c});
   VP_FORALL(q, 0, n) { vp_check(vp_same(A.un(q).val(), q < c ? d[n - c + q] : d[q]), "assigning one slice to another copies element by element"); }
}

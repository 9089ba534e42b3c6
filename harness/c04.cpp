#include "vp.hpp"
#include <climits>
// 2-D views and attached memory

#define PAR(nm) vp_int(#nm, VP_MIN / 2, VP_MAX / 2)
struct Pt { long i, j; };

// ---- one-dimensional views of a two-dimensional array: v is rejected unless ok, has m elements, the k-th is element at(k)
template <typename T, typename V>
static void read_1(V view, const In2<T>& d, bool ok, long m, auto at) {
   Array2D<T> A = mk(d);
   VP_TRY(rej, {
      auto v = view(A);
      vp_check(len(v) == m, "view has the described size");
      VP_FORALL(k, 0, m) { vp_check(vp_same(v.un(k).val(), d(at(k).i, at(k).j)), "k-th element of the view is the described element"); }
   });
   vp_check(rej == !ok, "rejected iff the view does not fit the array");
   check_is2(A, d, "extents unchanged by viewing", "array unchanged by viewing");
   const Array2D<T>& C = A;
   VP_TRY(rejc, {
      auto v = view(C);
      vp_check(len(v) == m, "constant view has the described size");
      VP_FORALL(k, 0, m) { vp_check(vp_same(v.un(k).val(), d(at(k).i, at(k).j)), "k-th element of the constant view is the described element"); }
   });
   vp_check(rejc == !ok, "constant view rejected iff it does not fit the array");
}
template <typename T, typename V>
static void write_1(V view, const In2<T>& d, bool ok, long m, auto at) {
   Array2D<T> A = mk(d);
   T x = vp_val<T>("x");
   long w = vp_int("w", 0, VP_MAX);
   vp_assume(w < m);
   vp_assume(ok);
   view(A)[w] = Strict{x};
   check_is2w(A, d, at(w).i, at(w).j, x);
}
template <typename T>
static void check_is2w(const Array2D<T>& A, const In2<T>& d, long wi, long wj, T x) {
   vp_check(A.rows().val() == d.r && A.cols().val() == d.c, "extents unchanged by writing");
   VP_FORALL(i, 0, d.r) {
      VP_FORALL(j, 0, d.c) { vp_check(vp_same(A.un(i, j).val(), i == wi && j == wj ? x : d(i, j)), "writing through the view changes exactly the addressed element"); }
   }
}
template <typename T, typename V>
static void fill_1(V view, const In2<T>& d, bool ok, auto isin) {
   Array2D<T> A = mk(d);
   T x = vp_val<T>("x");
   VP_TRY(rej, view(A) = Strict{x});
   vp_check(rej == !ok, "rejected iff the view does not fit the array");
   VP_FORALL(i, 0, d.r) {
      VP_FORALL(j, 0, d.c) { vp_check(vp_same(A.un(i, j).val(), ok && isin(i, j) ? x : d(i, j)), "assigning a value changes exactly the addressed elements"); }
   }
}
template <typename T, typename V>
static void assign_1(V view, const In2<T>& d, bool ok, long m, auto isin, auto inv) {
   Array2D<T> A = mk(d);
   long k = vp_size("srclen", 0);
   In<T> e(k, "b");
   Array1D<T> B = mk(e);
   VP_TRY(rej, view(A) = B);
   vp_check(rej == !(ok && k == m), "rejected iff the view does not fit or the source has another size");
   VP_FORALL(i, 0, d.r) {
      VP_FORALL(j, 0, d.c) { vp_check(vp_same(A.un(i, j).val(), !rej && isin(i, j) ? e[inv(i, j)] : d(i, j)), "assigning an array changes exactly the addressed elements"); }
   }
}
#define VIEW1(nm, T, PRE, VW, OK, M, AT, ISIN, INV)                                                                        \
   VP_HARNESS(nm##_read) { VIEW_PRE(T, PRE) read_1<T>([&](auto& A) { return VW; }, d, OK, M, [&](long k) { return Pt AT; }); } \
   VP_HARNESS(nm##_write) { VIEW_PRE(T, PRE) write_1<T>([&](auto& A) { return VW; }, d, OK, M, [&](long k) { return Pt AT; }); } \
   VP_HARNESS(nm##_fill) { VIEW_PRE(T, PRE) fill_1<T>([&](auto& A) { return VW; }, d, OK, [&](long i, long j) { return ISIN; }); } \
   VP_HARNESS(nm##_assign) { VIEW_PRE(T, PRE) assign_1<T>([&](auto& A) { return VW; }, d, OK, M, [&](long i, long j) { return ISIN; }, [&](long i, long j) { return INV; }); }
#define VIEW_PRE(T, PRE)                           \
   long r = vp_size("r", 0), c = vp_size("c", 0); \
   vp_assume((r == 0) == (c == 0));               \
   In2<T> d(r, c, "a");                           \
   PRE;

inline bool in(long x, long n) { return x >= 0 && x < n; }
inline long lmin(long a, long b) { return a < b ? a : b; }
VIEW1(row, double, long p = PAR(p), A.row(p), in(p, r), c, ({p, k}), i == p, j)
VIEW1(row_last, long, long p = PAR(p), A.row(Last{p}), in(p, r), c, ({r - 1 - p, k}), i == r - 1 - p, j)
VIEW1(col, double, long p = PAR(p), A.col(p), in(p, c), r, ({k, p}), j == p, i)
VIEW1(col_last, long, long p = PAR(p), A.col(Last{p}), in(p, c), r, ({k, c - 1 - p}), j == c - 1 - p, i)
VIEW1(diag, double, , A.diag(), true, lmin(r, c), ({k, k}), i == j, i)
VIEW1(diag_up, double, long p = vp_int("p", 0, VP_MAX), A.diag(p), p < c, lmin(r, c - p), ({k, k + p}), j == i + p, i)
VIEW1(diag_down, double, long p = vp_int("p", 1, VP_MAX), A.diag(-p), p < r, lmin(r - p, c), ({k + p, k}), i == j + p, j)
VIEW1(flat, double, , A.view1D(), true, r* c, ({k / c, k % c}), true, i* c + j)

// ---- two-dimensional views: shape m x n (0 x 0 if either is 0), element (u, v) is element (ri(u), cj(v))
template <typename T, typename V>
static void read_2(V view, const In2<T>& d, bool ok, long m, long n, auto ri, auto cj) {
   if(m == 0 || n == 0) m = n = 0;
   Array2D<T> A = mk(d);
   VP_TRY(rej, {
      auto v = view(A);
      vp_check(v.rows().val() == m && v.cols().val() == n && len(v) == m * n, "view has the described shape");
      VP_FORALL(i, 0, m) {
         VP_FORALL(j, 0, n) { vp_check(vp_same(v.un(i, j).val(), d(ri(i), cj(j))), "element of the view is the described element"); }
      }
   });
   vp_check(rej == !ok, "rejected iff the view does not fit the array");
   check_is2(A, d, "extents unchanged by viewing", "array unchanged by viewing");
   const Array2D<T>& C = A;
   VP_TRY(rejc, {
      auto v = view(C);
      vp_check(v.rows().val() == m && v.cols().val() == n && len(v) == m * n, "constant view has the described shape");
      VP_FORALL(i, 0, m) {
         VP_FORALL(j, 0, n) { vp_check(vp_same(v.un(i, j).val(), d(ri(i), cj(j))), "element of the constant view is the described element"); }
      }
   });
   vp_check(rejc == !ok, "constant view rejected iff it does not fit the array");
}
// linear access to a two-dimensional view is row-major
template <typename T, typename V>
static void linear_2(V view, const In2<T>& d, bool ok, long m, long n, auto ri, auto cj) {
   vp_assume(ok && m > 0 && n > 0);
   Array2D<T> A = mk(d);
   auto v = view(A);
   const Array2D<T>& C = A;
   auto w = view(C);
   VP_FORALL(k, 0, m * n) {
      vp_check(vp_same(v.un(k).val(), d(ri(k / n), cj(k % n))), "k-th element of the view in row-major order");
      vp_check(vp_same(w.un(k).val(), d(ri(k / n), cj(k % n))), "k-th element of the constant view in row-major order");
   }
}
template <typename T, typename V>
static void write_2(V view, const In2<T>& d, bool ok, long m, long n, auto ri, auto cj) {
   Array2D<T> A = mk(d);
   T x = vp_val<T>("x");
   long u = vp_int("u", 0, VP_MAX), v = vp_int("v", 0, VP_MAX);
   vp_assume(ok && u < m && v < n);
   view(A)(u, v) = Strict{x};
   check_is2w(A, d, ri(u), cj(v), x);
}
template <typename T, typename V>
static void fill_2(V view, const In2<T>& d, bool ok, auto isr, auto isc) {
   Array2D<T> A = mk(d);
   T x = vp_val<T>("x");
   VP_TRY(rej, view(A) = Strict{x});
   vp_check(rej == !ok, "rejected iff the view does not fit the array");
   VP_FORALL(i, 0, d.r) {
      VP_FORALL(j, 0, d.c) { vp_check(vp_same(A.un(i, j).val(), ok && isr(i) && isc(j) ? x : d(i, j)), "assigning a value changes exactly the addressed elements"); }
   }
}
template <typename T, typename V>
static void assign_2(V view, const In2<T>& d, bool ok, long m, long n, auto isr, auto isc, auto ir, auto ic) {
   if(m == 0 || n == 0) m = n = 0;
   Array2D<T> A = mk(d);
   long p = vp_size("srcrows", 0), q = vp_size("srccols", 0);
   vp_assume((p == 0) == (q == 0));
   In2<T> e(p, q, "b");
   Array2D<T> B = mk(e);
   VP_TRY(rej, view(A) = B);
   vp_check(rej == !(ok && p == m && q == n), "rejected iff the view does not fit or the source has another shape");
   VP_FORALL(i, 0, d.r) {
      VP_FORALL(j, 0, d.c) { vp_check(vp_same(A.un(i, j).val(), !rej && isr(i) && isc(j) ? e(ir(i), ic(j)) : d(i, j)), "assigning an array changes exactly the addressed elements"); }
   }
}
#define L1(P, E) [&](long P) { return E; }
#define VIEW2(nm, T, PRE, VW, OK, M, N, RI, CJ, ISR, ISC, IR, IC)                                                             \
   VP_HARNESS(nm##_read) { VIEW_PRE(T, PRE) read_2<T>([&](auto& A) { return VW; }, d, OK, M, N, L1(u, RI), L1(v, CJ)); }      \
   VP_HARNESS(nm##_linear) { VIEW_PRE(T, PRE) linear_2<T>([&](auto& A) { return VW; }, d, OK, M, N, L1(u, RI), L1(v, CJ)); }  \
   VP_HARNESS(nm##_write) { VIEW_PRE(T, PRE) write_2<T>([&](auto& A) { return VW; }, d, OK, M, N, L1(u, RI), L1(v, CJ)); }    \
   VP_HARNESS(nm##_fill) { VIEW_PRE(T, PRE) fill_2<T>([&](auto& A) { return VW; }, d, OK, L1(i, ISR), L1(j, ISC)); }          \
   VP_HARNESS(nm##_assign) { VIEW_PRE(T, PRE) assign_2<T>([&](auto& A) { return VW; }, d, OK, M, N, L1(i, ISR), L1(j, ISC), L1(i, IR), L1(j, IC)); }

// consecutive positions [s, s + m) of n
inline bool runok(long n, long s, long m) { return s >= 0 && m >= 0 && (m == 0 || (s < n && m <= n - s)); }
inline bool spanok(long n, long f, long l) { return f >= 0 && f <= l && l < n; }
VIEW2(block, double, long r0 = PAR(r0); long c0 = PAR(c0); long r1 = PAR(r1); long c1 = PAR(c1), A.block(r0, c0, r1, c1),
      spanok(r, r0, r1) && spanok(c, c0, c1), r1 - r0 + 1, c1 - c0 + 1, r0 + u, c0 + v, i >= r0 && i <= r1, j >= c0 && j <= c1, i - r0, j - c0)
VIEW2(block_last, double, long r0 = PAR(r0); long c0 = PAR(c0); long r1 = PAR(r1); long c1 = PAR(c1), A.block(r0, c0, Last{r1}, Last{c1}),
      spanok(r, r0, r - 1 - r1) && spanok(c, c0, c - 1 - c1), r - r1 - r0, c - c1 - c0, r0 + u, c0 + v, i >= r0 && i <= r - 1 - r1, j >= c0 && j <= c - 1 - c1, i - r0, j - c0)
VIEW2(blockn, double, long r0 = PAR(r0); long c0 = PAR(c0); long m = PAR(m); long n = PAR(n), A.blockN(r0, c0, m, n),
      runok(r, r0, m) && runok(c, c0, n), m, n, r0 + u, c0 + v, n > 0 && i >= r0 && i < r0 + m, m > 0 && j >= c0 && j < c0 + n, i - r0, j - c0)
VIEW2(rows, double, long s = PAR(s); long m = PAR(m), A.rows(seqN{s, m}), runok(r, s, m), m, c, s + u, v, i >= s && i < s + m, true, i - s, j)
VIEW2(cols, double, long s = PAR(s); long m = PAR(m), A.cols(seqN{s, m}), runok(c, s, m), r, m, u, s + v, true, j >= s && j < s + m, i, j - s)
VIEW2(rows_even, long, , A.rows(place::even), true, (r + 1) / 2, c, 2 * u, v, i % 2 == 0, true, i / 2, j)
VIEW2(cols_rev, long, , A.cols(place::reverse), true, r, c, u, c - 1 - v, true, true, i, c - 1 - j)
VIEW2(slices, double, long m = PAR(m); long n = PAR(n), A(place::firstN{m}, place::lastN{n}), m >= 0 && m <= r && n >= 0 && n <= c, m, n, u, c - n + v,
      n > 0 && i < m, m > 0 && j >= c - n, i, j - (c - n))
VIEW2(slices_odd, double, , A(place::odd, place::all), true, r / 2, c, 2 * u + 1, v, i % 2 == 1, true, i / 2, j)
VIEW2(slices_skip, double, , A(place::skipN{3}, place::reverse), true, (r + 2) / 3, c, 3 * u, c - 1 - v, i % 3 == 0, true, i / 3, c - 1 - j)
VIEW2(slices_seq, double, long f = PAR(f); long l = PAR(l), A(seq{f, l}, place::reverse), spanok(r, f, l), l - f + 1, c, f + u, c - 1 - v, i >= f && i <= l, true, i - f, c - 1 - j)

// ---- reshaping: element (i, j) of the m x n reshape is element i * n + j
inline bool fits(long m, long n, long size) { return m >= 0 && n >= 0 && (m == 0 || n == 0 ? size == 0 : size / m == n && size % m == 0); }
template <bool Flat, typename F>
static void reshape(F f) {
   if constexpr(Flat) {
      long sz = vp_size("n", 0);
      In<double> d(sz, "a");
      Array1D<double> A = mk(d);
      f(A, d, sz, [&](auto& a, long k) { return a.un(k).val(); });
   } else {
      long r = vp_size("r", 0), c = vp_size("c", 0);
      vp_assume((r == 0) == (c == 0));
      In2<double> d(r, c, "a");
      Array2D<double> A = mk(d);
      f(A, d, r * c, [&](auto& a, long k) { return a.un(k).val(); });
   }
}
template <bool Flat, bool Const>
static void reshape_read() {
   reshape<Flat>([](auto& A, auto& d, long sz, auto) {
      long m = vp_int("m", LONG_MIN, LONG_MAX), n = vp_int("n2", LONG_MIN, LONG_MAX);
      std::conditional_t<Const, const std::remove_reference_t<decltype(A)>&, decltype(A)> B = A;
      bool z = m == 0 || n == 0;
      VP_TRY(rej, {
         auto v = B.view2D(m, n);
         vp_check(v.rows().val() == (z ? 0 : m) && v.cols().val() == (z ? 0 : n) && len(v) == sz, "reshape has the described shape");
         VP_FORALL(i, 0, z ? 0 : m) {
            VP_FORALL(j, 0, n) { vp_check(vp_same(v.un(i, j).val(), d[i * n + j]), "element of the reshape is the described element"); }
         }
      });
      vp_check(rej == !fits(m, n, sz), "reshape rejected iff it does not fit the array");
   });
}
VP_HARNESS(view2d_flat_read) { reshape_read<true, false>(); }
VP_HARNESS(view2d_flat_const_read) { reshape_read<true, true>(); }
VP_HARNESS(view2d_read) { reshape_read<false, false>(); }
VP_HARNESS(view2d_const_read) { reshape_read<false, true>(); }
template <bool Flat>
static void reshape_write() {
   reshape<Flat>([](auto& A, auto& d, long sz, auto el) {
      long m = vp_ext("m", 0), n = vp_ext("n2", 0), i = vp_int("i", 0, VP_MAX), j = vp_int("j", 0, VP_MAX);
      vp_assume(m * n == sz && i < m && j < n);
      double x = vp_f64("x");
      A.view2D(m, n)(i, j) = Strict{x};
      VP_FORALL(k, 0, sz) { vp_check(vp_same(el(A, k), k == i * n + j ? x : d[k]), "writing through the reshape changes exactly the addressed element"); }
   });
}
VP_HARNESS(view2d_flat_write) { reshape_write<true>(); }
VP_HARNESS(view2d_write) { reshape_write<false>(); }
template <bool Flat>
static void reshape_assign() {
   reshape<Flat>([](auto& A, auto& d, long sz, auto el) {
      long m = vp_ext("m", 0), n = vp_ext("n2", 0);
      vp_assume(m * n == sz && (m == 0) == (n == 0));
      In2<double> e(m, n, "b");
      Array2D<double> B = mk(e);
      A.view2D(m, n) = B;
      VP_FORALL(k, 0, sz) { vp_check(vp_same(el(A, k), e[k]), "assigning to the reshape stores the source in row-major order"); }
   });
}
VP_HARNESS(view2d_flat_assign) { reshape_assign<true>(); }
VP_HARNESS(view2d_assign) { reshape_assign<false>(); }

// ---- attached memory: a plain buffer with the contents of d
struct Mem {
   double* a;
   explicit Mem(In<double>& d) : a{new double[static_cast<size_t>(d.n)]} {
      for(long k = 0; k < d.n; ++k) a[k] = d.a[k];
   }
   ~Mem() { delete[] a; }
   Mem(const Mem&) = delete;
   double operator[](long k) const { return a[k]; }
};
VP_HARNESS(attach1) {
   long n = vp_size("n", 0), m = vp_ext("m", VP_MIN);
   In<double> d(n, "a");
   Mem s(d);
   vp_assume(m <= n);
   double x = vp_f64("x");
   long w = vp_int("w", 0, VP_MAX);
   VP_TRY(rej, {
      double* p = s.a;
      auto v = attach1D(p, m);
      vp_check(len(v) == m, "attached array has the given size");
      VP_FORALL(k, 0, m) { vp_check(vp_same(v.un(k).val(), d[k]), "attached array shows the memory"); }
      if(w < m) v[w] = Strict{x};
      const double* cp = s.a;
      auto cv = attach1D(cp, m);
      vp_check(len(cv) == m, "constant attached array has the given size");
      VP_FORALL(k, 0, m) { vp_check(vp_same(cv.un(k).val(), k == w ? x : d[k]), "constant attached array shows the memory"); }
   });
   vp_check(rej == (m < 0), "rejected iff the size is negative");
   VP_FORALL(k, 0, n) { vp_check(vp_same(s[k], !rej && k == w && w < m ? x : d[k]), "writing through the attached array changes exactly that memory"); }
}
VP_HARNESS(attach2) {
   long r = vp_ext("r", -VP_EMAX), c = vp_ext("c", -VP_EMAX);
   bool ok = r >= 0 && c >= 0;
   long n = ok ? r * c : 0;
   In<double> d(n, "a");
   Mem s(d);
   double x = vp_f64("x");
   long wi = vp_int("wi", 0, VP_MAX), wj = vp_int("wj", 0, VP_MAX);
   bool in = ok && wi < r && wj < c;
   VP_TRY(rej, {
      double* p = s.a;
      auto v = attach2D(p, r, c);
      vp_check(len(v) == n && v.rows().val() == (c == 0 ? 0 : r) && v.cols().val() == (r == 0 ? 0 : c), "attached array has the given shape");
      VP_FORALL(i, 0, r) {
         VP_FORALL(j, 0, c) { vp_check(vp_same(v.un(i, j).val(), d[i * c + j]), "attached array shows the memory in row-major order"); }
      }
      if(in) v(wi, wj) = Strict{x};
      const double* cp = s.a;
      auto cv = attach2D(cp, r, c);
      VP_FORALL(i, 0, r) {
         VP_FORALL(j, 0, c) { vp_check(vp_same(cv.un(i, j).val(), i == wi && j == wj ? x : d[i * c + j]), "constant attached array shows the memory in row-major order"); }
      }
   });
   vp_check(rej == !ok, "rejected iff an extent is negative");
   VP_FORALL(k, 0, n) { vp_check(vp_same(s[k], in && k == wi * c + wj ? x : d[k]), "writing through the attached array changes exactly that memory"); }
}
VP_HARNESS(attach1_assign) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> d(n, "a"), e(m, "b");
   Array1D<double> B = mk(e);
   Mem s(d);
   double* p = s.a;
   VP_TRY(rej, attach1D(p, n) = B);
   vp_check(rej == (n != m), "assignment to attached memory rejected iff sizes differ");
   VP_FORALL(k, 0, n) { vp_check(vp_same(s[k], rej ? d[k] : e[k]), "assignment stores the source in the memory"); }
}
// ---- views of views
VP_HARNESS(row_of_block) {
   long r = vp_size("r", 1), c = vp_size("c", 1);
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   long r0 = vp_ext("r0", 0), c0 = vp_ext("c0", 0), m = vp_ext("m", 1), n = vp_ext("n", 1), p = PAR(p);
   vp_assume(r0 + m <= r && c0 + n <= c);
   double x = vp_f64("x");
   VP_TRY(rej, {
      auto v = A.blockN(r0, c0, m, n).row(p);
      vp_check(len(v) == n, "row of a block has its width");
      VP_FORALL(k, 0, n) { vp_check(vp_same(v.un(k).val(), d(r0 + p, c0 + k)), "row of a block addresses the described elements"); }
   });
   vp_check(rej == !in(p, m), "row of a block rejected iff outside");
}
VP_HARNESS(col_of_block) {
   long r = vp_size("r", 1), c = vp_size("c", 1);
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   long r0 = vp_ext("r0", 0), c0 = vp_ext("c0", 0), m = vp_ext("m", 1), n = vp_ext("n", 1), p = PAR(p);
   vp_assume(r0 + m <= r && c0 + n <= c);
   VP_TRY(rej, {
      auto v = A.blockN(r0, c0, m, n).col(p);
      vp_check(len(v) == m, "column of a block has its height");
      VP_FORALL(k, 0, m) { vp_check(vp_same(v.un(k).val(), d(r0 + k, c0 + p)), "column of a block addresses the described elements"); }
   });
   vp_check(rej == !in(p, n), "column of a block rejected iff outside");
}
VP_HARNESS(slice_of_row) {
   long r = vp_size("r", 1), c = vp_size("c", 1), p = vp_ext("p", 0);
   vp_assume(p < r);
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   double x = vp_f64("x");
   long f = PAR(f), m = PAR(m);
   VP_TRY(rej, A.row(p)(seqN{f, m}) = Strict{x});
   vp_check(rej == !runok(c, f, m), "slice of a row rejected iff outside the row");
   VP_FORALL(i, 0, r) {
      VP_FORALL(j, 0, c) { vp_check(vp_same(A.un(i, j).val(), !rej && i == p && j >= f && j < f + m ? x : d(i, j)), "assigning to a slice of a row changes exactly those elements"); }
   }
}
VP_HARNESS(expr_row_col) {
   long r = vp_size("r", 1), c = vp_size("c", 1), p = PAR(p), q = PAR(q);
   In2<double> d(r, c, "a"), e(r, c, "b");
   Array2D<double> A = mk(d), B = mk(e);
   VP_TRY(rej, {
      auto v = (A + B).row(p);
      vp_check(len(v) == c, "row of an expression has its width");
      VP_FORALL(k, 0, c) { vp_check(vp_same(v.un(k).val(), d(p, k) + e(p, k)), "row of an expression yields its elements"); }
   });
   vp_check(rej == !in(p, r), "row of an expression rejected iff outside");
   VP_TRY(rejc, {
      auto v = (A + B).col(q);
      vp_check(len(v) == r, "column of an expression has its height");
      VP_FORALL(k, 0, r) { vp_check(vp_same(v.un(k).val(), d(k, q) + e(k, q)), "column of an expression yields its elements"); }
   });
   vp_check(rejc == !in(q, c), "column of an expression rejected iff outside");
}
VP_HARNESS(diag_of_expr) {
   long r = vp_size("r", 1), c = vp_size("c", 1);
   In2<double> d(r, c, "a"), e(r, c, "b");
   Array2D<double> A = mk(d), B = mk(e);
   auto v = (A - B).diag();
   vp_check(len(v) == lmin(r, c), "diagonal of an expression has its length");
   VP_FORALL(k, 0, lmin(r, c)) { vp_check(vp_same(v.un(k).val(), d(k, k) - e(k, k)), "diagonal of an expression yields its elements"); }
}

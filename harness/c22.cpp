#include "vp.hpp"
// Every operation takes every valid state to a valid state that equals the operation applied to the mathematical
// sequence / matrix, or is rejected and changes nothing. Memory accesses, uninitialised reads, releases and leaks are
// obligations of every harness.
#define INV "the array is valid: null storage exactly if empty, extents agree with the size"
#define REJ "rejected iff the arguments are not valid"
#define MOD "the array equals the operation applied to the sequence"
#define OTH "the other array is as expected"
#define SAME "a rejected operation changes nothing"
static long vp_shape(const char* rn, const char* cn, long& c) {
   long r = vp_ext(rn, 0);
   c = vp_ext(cn, 0);
   vp_assume((r == 0) == (c == 0));
   return r;
}
template <AlignmentFlag AF, typename T>
static Array1D<T, AF> mka(const In<T>& d) {
   Array1D<T, AF> A(d.n);
   for(long i = 0; i < d.n; ++i) A.un(i) = Strict<T>{d.a[i]};
   return A;
}
template <AlignmentFlag AF, typename T>
static Array2D<T, AF> mka2(const In2<T>& d) {
   Array2D<T, AF> A(d.r, d.c);
   for(long k = 0; k < d.n; ++k) A.un(k) = Strict<T>{d.a[k]};
   return A;
}
template <typename A, typename G>
static void is1(const A& X, long n, G g, const char* what) {
   vp_check(len(X) == n && (X.data() == nullptr) == (n == 0), INV);
   (void)what;
   VP_FORALL(k, 0, n) { vp_check(vp_same(X.un(k).val(), g(k)), MOD); }
}
template <typename A, typename G>
static void is2(const A& X, long r, long c, G g) {
   vp_check(X.rows().val() == r && X.cols().val() == c && len(X) == r * c && (r == 0) == (c == 0) && (X.data() == nullptr) == (r == 0), INV);
   VP_FORALL(i, 0, r) { VP_FORALL(j, 0, c) { vp_check(vp_same(X.un(i, j).val(), g(i, j)), MOD); } }
}
// A: n elements d, B: m elements e; p, q any integers, x any value. OKC: accepted; NN, G(k): result
#define ONE_(nm, T, AF, OKC, NN, G, MM, H, ...)                                                 \
   VP_HARNESS(nm) {                                                                             \
      long n = vp_size("n", 0), m = vp_size("m", 0);                                            \
      In<T> d(n, "a"), e(m, "b");                                                               \
      auto A = mka<AF>(d), B = mka<AF>(e);                                                      \
      [[maybe_unused]] long p = vp_int("p", VP_MIN, VP_MAX), q = vp_int("q", VP_MIN, VP_MAX);   \
      [[maybe_unused]] long w = vp_flag("neg") ? vp_int("negative", VP_MIN, -1) : vp_size("w", 0); \
      [[maybe_unused]] T x = vp_val<T>("x");                                                    \
      bool ok = OKC;                                                                            \
      VP_TRY(rej, __VA_ARGS__);                                                                 \
      vp_check(rej == !ok, REJ);                                                                \
      if(rej) {                                                                                 \
         is1(A, n, [&](long k) { return d[k]; }, SAME);                                         \
         is1(B, m, [&](long k) { return e[k]; }, SAME);                                         \
      } else {                                                                                  \
         is1(A, NN, [&]([[maybe_unused]] long k) { return G; }, MOD);                           \
         is1(B, MM, [&]([[maybe_unused]] long k) { return H; }, OTH);                           \
      }                                                                                         \
   }
#define ONE(nm, OKC, NN, G, ...)                                      \
   ONE_(nm##_f64, double, Unaligned, OKC, NN, G, m, e[k], __VA_ARGS__) \
   ONE_(nm##_aligned, double, Aligned, OKC, NN, G, m, e[k], __VA_ARGS__)
#define BOTH(nm, OKC, NN, G, MM, H, ...)                              \
   ONE_(nm##_f64, double, Unaligned, OKC, NN, G, MM, H, __VA_ARGS__)   \
   ONE_(nm##_aligned, double, Aligned, OKC, NN, G, MM, H, __VA_ARGS__)
using T = double;
ONE(resize, w >= 0, w, k < n ? d[k] : T(0), A.resize(w))
ONE(resize_drop, w >= 0, w, A.un(k).val(), A.resize(w, false))
ONE(remove, p >= 0 && q > 0 && p < n && q <= n - p, n - q, d[k < p ? k : k + q], A.remove(p, q))
ONE(remove_front, p > 0 && p <= n, n - p, d[k + p], A.remove_front(p))
ONE(remove_back, p > 0 && p <= n, n - p, d[k], A.remove_back(p))
ONE(insert, p >= 0 && p <= n, n + 1, k < p ? d[k] : k == p ? x : d[k - 1], A.insert(p, Strict<T>{x}))
ONE(insert_front, true, n + 1, k == 0 ? x : d[k - 1], A.insert_front(Strict<T>{x}))
ONE(insert_back, true, n + 1, k < n ? d[k] : x, A.insert_back(Strict<T>{x}))
ONE(insert_array, p >= 0 && p <= n, n + m, k < p ? d[k] : k < p + m ? e[k - p] : d[k - m], A.insert(p, B))
ONE(insert_self, p >= 0 && p <= n, n + n, k < p ? d[k] : k < p + n ? d[k - p] : d[k - n], A.insert(p, A))
ONE(insert_own_view, p >= 0 && p <= n, n + n, k < p ? d[k] : k < p + n ? d[n - 1 - (k - p)] : d[k - n], A.insert(p, A(place::reverse)))
ONE(insert_own_expr, p >= 0 && p <= n, n + n, k < p ? d[k] : k < p + n ? d[k - p] * d[k - p] : d[k - n], A.insert(p, A * A))
ONE(assign_value, true, n, x, A = Strict<T>{x})
ONE(assign, n == m, n, e[k], A = B)
ONE(assign_self, true, n, d[k], A = *&A)
ONE(assign_view, n == m, n, e[m - 1 - k], A = B(place::reverse))
ONE(assign_expr, n == m, n, e[k] + d[k], A = B + A)
ONE(resize_and_assign, true, m, e[k], A.resize_and_assign(B))
ONE(resize_and_assign_self, true, n, d[k], A.resize_and_assign(A))
ONE(resize_and_assign_own_view, n > 1, n - 1, d[k + 1], A.resize_and_assign(A(seq{1, n - 1})))
ONE(resize_and_assign_own_expr, true, n, d[k] * d[k], A.resize_and_assign(A * A))
BOTH(swap, true, m, e[k], n, d[k], A.swap(B))
ONE(swap_self, true, n, d[k], A.swap(A))
BOTH(swap_temporary, true, m, e[k], 0, e[k], A.swap(std::move(B)); B.resize(0))
BOTH(move_assign, n == m, n, e[k], 0, e[k], vp_assume(n == m); A = std::move(B))
ONE(move_assign_self, true, n, d[k], A = std::move(*&A))
BOTH(resize_and_assign_temporary, true, m, e[k], 0, e[k], A.resize_and_assign(std::move(B)))
ONE(copy_independent, true, n, d[k], auto C = A; C = Strict<T>{x}; C.resize(0))
ONE(write_checked, p >= 0 && p < n, n, k == p ? x : d[k], A[p] = Strict<T>{x})
ONE(write_view, p >= 0 && p < n, n, k == n - 1 - p ? x : d[k], A(place::reverse)[p] = Strict<T>{x})
ONE(view_out_of_range, p >= 0 && q >= 0 && q <= n - p && p <= n, n, d[k], vp_assume(q > 0 && p < n); auto v = A(seqN{p, q}); (void)v)
// an object that was moved from, or whose last operation was rejected, is a valid array for every operation
BOTH(use_after_move, true, 1, x, n, d[k], B.resize_and_assign(std::move(A)); A.insert_back(Strict<T>{x}))
BOTH(assign_after_move, true, n, d[k], n, d[k], B.resize_and_assign(std::move(A)); A.resize_and_assign(B))

// ---- 2-D.  A: r x c elements d, B: s x t elements e;  p, q any integers
#define TWO_(nm, AF, OKC, RR, CC, G, SS, TT, H, ...)                                            \
   VP_HARNESS(nm) {                                                                             \
      long c, t, r = vp_shape("r", "c", c), s = vp_shape("s", "t", t);                          \
      In2<T> d(r, c, "a"), e(s, t, "b");                                                        \
      auto A = mka2<AF>(d), B = mka2<AF>(e);                                                    \
      [[maybe_unused]] long p = vp_int("p", VP_MIN, VP_MAX), q = vp_int("q", VP_MIN, VP_MAX);   \
      [[maybe_unused]] T x = vp_val<T>("x");                                                    \
      bool ok = OKC;                                                                            \
      VP_TRY(rej, __VA_ARGS__);                                                                 \
      vp_check(rej == !ok, REJ);                                                                \
      if(rej) {                                                                                 \
         is2(A, r, c, [&](long i, long j) { return d(i, j); });                                 \
         is2(B, s, t, [&](long i, long j) { return e(i, j); });                                 \
      } else {                                                                                  \
         is2(A, RR, CC, [&]([[maybe_unused]] long i, [[maybe_unused]] long j) { return G; });   \
         is2(B, SS, TT, [&]([[maybe_unused]] long i, [[maybe_unused]] long j) { return H; });   \
      }                                                                                         \
   }
#define TWO(nm, OKC, RR, CC, G, ...)                                      \
   TWO_(nm##_2d_f64, Unaligned, OKC, RR, CC, G, s, t, e(i, j), __VA_ARGS__) \
   TWO_(nm##_2d_aligned, Aligned, OKC, RR, CC, G, s, t, e(i, j), __VA_ARGS__)
#define BOTH2(nm, OKC, RR, CC, G, SS, TT, H, ...)                            \
   TWO_(nm##_2d_f64, Unaligned, OKC, RR, CC, G, SS, TT, H, __VA_ARGS__)      \
   TWO_(nm##_2d_aligned, Aligned, OKC, RR, CC, G, SS, TT, H, __VA_ARGS__)
TWO(resize, true, s, t, i < r && j < c ? d(i, j) : T(0), A.resize(s, t))
TWO(resize_drop, true, s, t, A.un(i, j).val(), A.resize(s, t, false))
TWO(resize_bad, false, r, c, d(i, j), vp_assume(p < 0 || q < 0); vp_assume(p <= 5 && q <= 5 && p >= -5 && q >= -5); A.resize(p, q))
TWO(remove_rows, p >= 0 && q > 0 && p < r && q <= r - p, r - q, q == r ? 0 : c, d(i < p ? i : i + q, j), A.remove_rows(p, q))
TWO(remove_cols, p >= 0 && q > 0 && p < c && q <= c - p, q == c ? 0 : r, c - q, d(i, j < p ? j : j + q), A.remove_cols(p, q))
TWO(remove_row, p >= 0 && p < r, r - 1, r == 1 ? 0 : c, d(i < p ? i : i + 1, j), A.remove_row(p))
TWO(remove_col, p >= 0 && p < c, c == 1 ? 0 : r, c - 1, d(i, j < p ? j : j + 1), A.remove_col(p))
TWO(insert_rows, p >= 0 && p <= r && (r == 0 || t == c), r + s, r == 0 ? t : c, i < p ? d(i, j) : i < p + s ? e(i - p, j) : d(i - s, j), A.insert_rows(p, B))
TWO(insert_cols, p >= 0 && p <= c && (r == 0 || s == r), r == 0 ? s : r, c + t, j < p ? d(i, j) : j < p + t ? e(i, j - p) : d(i, j - t), A.insert_cols(p, B))
TWO(insert_rows_self, p >= 0 && p <= r, r + r, c, i < p ? d(i, j) : i < p + r ? d(i - p, j) : d(i - r, j), A.insert_rows(p, A))
TWO(assign_value, true, r, c, x, A = Strict<T>{x})
TWO(assign, r == s && c == t, r, c, e(i, j), A = B)
TWO(assign_self, true, r, c, d(i, j), A = *&A)
TWO(assign_expr, r == s && c == t, r, c, e(i, j) + d(i, j), A = B + A)
TWO(resize_and_assign, true, s, t, e(i, j), A.resize_and_assign(B))
TWO(resize_and_assign_self, true, r, c, d(i, j), A.resize_and_assign(A))
TWO(resize_and_assign_own_expr, true, r, c, d(i, j) * d(i, j), A.resize_and_assign(A * A))
TWO(resize_and_assign_own_transpose, true, c, r, d(j, i), A.resize_and_assign(transpose(A)))
BOTH2(swap, true, s, t, e(i, j), r, c, d(i, j), A.swap(B))
TWO(swap_self, true, r, c, d(i, j), A.swap(A))
BOTH2(move_assign, true, r, c, e(i, j), 0, 0, x, vp_assume(r == s && c == t); A = std::move(B))
TWO(move_assign_self, true, r, c, d(i, j), A = std::move(*&A))
BOTH2(resize_and_assign_temporary, true, s, t, e(i, j), 0, 0, x, A.resize_and_assign(std::move(B)))
TWO(copy_independent, true, r, c, d(i, j), auto C = A; C = Strict<T>{x}; C.resize(0, 0))
TWO(write_checked, p >= 0 && p < r && q >= 0 && q < c, r, c, i == p && j == q ? x : d(i, j), A(p, q) = Strict<T>{x})
TWO(write_row_view, p >= 0 && p < r && q >= 0 && q < c, r, c, i == p && j == q ? x : d(i, j), A.row(p)[q] = Strict<T>{x})
TWO(write_col_view, p >= 0 && p < c && q >= 0 && q < r, r, c, i == q && j == p ? x : d(i, j), A.col(p)[q] = Strict<T>{x})
BOTH2(use_after_move, true, s, t, e(i, j), s, t, e(i, j), Array2D<T> C = mk(d); Array2D<T> D(std::move(C)); C.resize(2, 3); A.resize_and_assign(B))
// ---- evaluation of the source is rejected part-way: everything allocated so far is released
template <typename F, typename G>
static void throwing(F f, G g) {
   long n = vp_size("n", 0);
   In<long> a(n, "a", 0, 1000), b(n, "b", 0, 3);
   Array1D<long> A = mk(a), B = mk(b), X(2, Strict{7L});
   VP_TRY(rej, f(X, A, B));
   if(!rej) {
      VP_FORALL(k, 0, n) { vp_check(b[k] != 0, "integer division by a zero element is rejected"); }
      g(X, a, b, n);
   } else {
      vp_check(len(X) == 2 && X.un(0).val() == 7 && X.un(1).val() == 7, SAME);
   }
   is1(A, n, [&](long k) { return a[k]; }, OTH);
   is1(B, n, [&](long k) { return b[k]; }, OTH);
}
VP_HARNESS(throwing_construct) {
   throwing([](auto& X, auto& A, auto& B) { Array1D<long> C(A / B); X.swap(C); },
            [](auto& X, auto& a, auto& b, long n) { is1(X, n, [&](long k) { return a[k] / b[k]; }, MOD); });
}
VP_HARNESS(throwing_resize_and_assign) {
   throwing([](auto& X, auto& A, auto& B) { X.resize_and_assign(A / B); },
            [](auto& X, auto& a, auto& b, long n) { is1(X, n, [&](long k) { return a[k] / b[k]; }, MOD); });
}
VP_HARNESS(throwing_insert) {
   throwing([](auto& X, auto& A, auto& B) { X.insert(1, A / B); },
            [](auto& X, auto& a, auto& b, long n) { is1(X, n + 2, [&](long k) { return k < 1 || k > n ? 7 : a[k - 1] / b[k - 1]; }, MOD); });
}
template <typename F>
static void throwing2(F f) {
   long r = vp_ext("r", 1), c = vp_ext("c", 1);
   In2<long> a(r, c, "a", 0, 1000), b(r, c, "b", 0, 3);
   Array2D<long> A = mk(a), B = mk(b), X(1, 1, Strict{7L});
   VP_TRY(rej, f(X, A, B));
   if(!rej) {
      is2(X, r, c, [&](long i, long j) { return b(i, j) != 0 ? a(i, j) / b(i, j) : 8; });
      VP_FORALL(i, 0, r) { VP_FORALL(j, 0, c) { vp_check(b(i, j) != 0, "integer division by a zero element is rejected"); } }
   } else {
      vp_check(len(X) == 1 && X.un(0).val() == 7, SAME);
   }
}
VP_HARNESS(throwing_construct_2d) { throwing2([](auto& X, auto& A, auto& B) { Array2D<long> C(A / B); X.swap(C); }); }
VP_HARNESS(throwing_resize_and_assign_2d) { throwing2([](auto& X, auto& A, auto& B) { X.resize_and_assign(A / B); }); }
// ---- longer histories over several arrays against sequences (bounded; also run under address and undefined-behaviour
// sanitizers)
using V = std::vector<double>;
static void same(const Array1D<double>& A, const V& a) {
   vp_check(len(A) == long(a.size()) && (A.data() == nullptr) == a.empty(), INV);
   for(size_t k = 0; k < a.size(); ++k) vp_check(vp_same(A.un(long(k)).val(), a[k]), MOD);
}
VP_BOUNDED(histories_1d) {
   Array1D<double> X[2];
   V x[2];
   long steps = vp_small("steps", 1, 14);
   for(long s = 0; s < steps; ++s) {
      long u = vp_small("u", 0, 1), o = 1 - u, op = vp_small("op", 0, 15), p = vp_small("p", -1, 6), q = vp_small("q", -1, 4);
      double y = vp_f64("y");
      auto &A = X[u], &B = X[o];
      auto &a = x[u], &b = x[o];
      long n = long(a.size()), m = long(b.size());
      if(n + m > 60) op = 0;
      bool ok = true;
      V w = a, wb = b;
      auto at = [&](long k) { return w.begin() + k; };
      if(op == 0) { ok = p >= 0; if(ok) w.resize(size_t(p), 0.); }
      else if(op == 1) { ok = p >= 0 && p <= n; if(ok) w.insert(at(p), y); }
      else if(op == 2) { ok = p >= 0 && p <= n; if(ok) w.insert(at(p), b.begin(), b.end()); }
      else if(op == 3) { ok = p >= 0 && q > 0 && p + q <= n; if(ok) w.erase(at(p), at(p + q)); }
      else if(op == 4) { ok = p > 0 && p <= n; if(ok) w.erase(at(0), at(p)); }
      else if(op == 5) { ok = p > 0 && p <= n; if(ok) w.erase(at(n - p), w.end()); }
      else if(op == 6) { ok = n == m; if(ok) w = b; }
      else if(op == 7) w = b;
      else if(op == 8) { w = b; wb = a; }
      else if(op == 9) { w = b; wb.clear(); }
      else if(op == 10) { ok = p >= 0 && p <= n; if(ok) w.insert(at(p), a.rbegin(), a.rend()); }
      else if(op == 11) { ok = p >= 0 && p < n; if(ok) w[size_t(p)] = y; }
      else if(op == 12) { ok = n == m; if(ok) for(long k = 0; k < n; ++k) w[size_t(k)] += b[size_t(k)]; }
      else if(op == 13) { ok = p >= 0 && p < n && q > p && q < n; if(ok) w.erase(at(q)), w.erase(at(p)); }
      else if(op == 14) { ok = p >= 0 && p < n; if(ok) w.assign(at(p), at(n)); }
      else std::reverse(w.begin(), w.end());
      VP_TRY(rej, {
         if(op == 0) A.resize(p);
         else if(op == 1) A.insert(p, Strict{y});
         else if(op == 2) A.insert(p, B);
         else if(op == 3) A.remove(p, q);
         else if(op == 4) A.remove_front(p);
         else if(op == 5) A.remove_back(p);
         else if(op == 6) A = B;
         else if(op == 7) A.resize_and_assign(B);
         else if(op == 8) A.swap(B);
         else if(op == 9) A.resize_and_assign(std::move(B));
         else if(op == 10) A.insert(p, A(place::reverse));
         else if(op == 11) A[p] = Strict{y};
         else if(op == 12) A += B;
         else if(op == 13) A.remove({p, q});
         else if(op == 14) { if(p < 0 || p >= n) (void)A[p]; else A.resize_and_assign(A(seqN{p, n - p})); }
         else { Array1D<double> C = A(place::reverse); A = C; }
      });
      vp_check(rej == !ok, REJ);
      if(!rej) a = w, b = wb;
      same(X[0], x[0]);
      same(X[1], x[1]);
   }
}
struct M {
   long r = 0, c = 0;
   V v;
   double& at(long i, long j) { return v[size_t(i * c + j)]; }
};
static M gen(long r, long c, auto f) {
   M m{r, c, V(size_t(r * c), 0.)};
   for(long i = 0; i < r; ++i)
      for(long j = 0; j < c; ++j) m.at(i, j) = f(i, j);
   if(r == 0 || c == 0) m.r = m.c = 0;
   return m;
}
VP_BOUNDED(histories_2d) {
   Array2D<double> X[2];
   M x[2];
   long steps = vp_small("steps", 1, 14);
   for(long s = 0; s < steps; ++s) {
      long u = vp_small("u", 0, 1), o = 1 - u, op = vp_small("op", 0, 15), p = vp_small("p", -1, 4), q = vp_small("q", -1, 4);
      double y = vp_f64("y");
      auto &A = X[u], &B = X[o];
      M &a = x[u], &b = x[o];
      if(a.v.size() + b.v.size() > 120) op = 0;
      bool ok = true;
      M w = a, wb = b;
      if(op == 0) { ok = p >= 0 && q >= 0 && (p == 0) == (q == 0); if(ok) w = gen(p, q, [&](long i, long j) { return i < a.r && j < a.c ? a.at(i, j) : 0.; }); }
      else if(op == 1) { ok = p >= 0 && p <= a.r && (a.r == 0 || b.c == a.c); if(ok) w = gen(a.r + b.r, a.r ? a.c : b.c, [&](long i, long j) { return i < p ? a.at(i, j) : i < p + b.r ? b.at(i - p, j) : a.at(i - b.r, j); }); }
      else if(op == 2) { ok = p >= 0 && p <= a.c && (a.r == 0 || b.r == a.r); if(ok) w = gen(a.r ? a.r : b.r, a.c + b.c, [&](long i, long j) { return j < p ? a.at(i, j) : j < p + b.c ? b.at(i, j - p) : a.at(i, j - b.c); }); }
      else if(op == 3) { ok = p >= 0 && q > 0 && p + q <= a.r; if(ok) w = gen(a.r - q, a.c, [&](long i, long j) { return a.at(i < p ? i : i + q, j); }); }
      else if(op == 4) { ok = p >= 0 && q > 0 && p + q <= a.c; if(ok) w = gen(a.r, a.c - q, [&](long i, long j) { return a.at(i, j < p ? j : j + q); }); }
      else if(op == 5) { ok = a.r == b.r && a.c == b.c; if(ok) w = b; }
      else if(op == 6) w = b;
      else if(op == 7) { w = b; wb = a; }
      else if(op == 8) { w = b; wb = M{}; }
      else if(op == 9) { ok = p >= 0 && p < a.r && q >= 0 && q < a.c; if(ok) w.at(p, q) = y; }
      else if(op == 10) w = gen(a.c, a.r, [&](long i, long j) { return a.at(j, i); });
      else if(op == 11) { ok = p >= 0 && p < a.r; if(ok) for(long j = 0; j < a.c; ++j) w.at(p, j) = y; }
      else if(op == 12) { ok = p >= 0 && p < a.c; if(ok) for(long i = 0; i < a.r; ++i) w.at(i, p) = y; }
      else if(op == 13) { ok = p >= 0 && p < a.r && q > p && q < a.r; if(ok) w = gen(a.r - 2, a.c, [&](long i, long j) { return a.at(i < p ? i : i < q - 1 ? i + 1 : i + 2, j); }); }
      else if(op == 14) { ok = a.r > 0 && p >= 0 && p <= a.r; if(ok) w = gen(a.r + 1, a.c, [&](long i, long j) { return a.at(i < p ? i : i == p ? 0 : i - 1, j); }); }
      else for(double& z : w.v) z = y;
      VP_TRY(rej, {
         if(op == 0) A.resize(p, q);
         else if(op == 1) A.insert_rows(p, B);
         else if(op == 2) A.insert_cols(p, B);
         else if(op == 3) A.remove_rows(p, q);
         else if(op == 4) A.remove_cols(p, q);
         else if(op == 5) A = B;
         else if(op == 6) A.resize_and_assign(B);
         else if(op == 7) A.swap(B);
         else if(op == 8) A.resize_and_assign(std::move(B));
         else if(op == 9) A(p, q) = Strict{y};
         else if(op == 10) A.resize_and_assign(transpose(A));
         else if(op == 11) A.row(p) = Strict{y};
         else if(op == 12) A.col(p) = Strict{y};
         else if(op == 13) A.remove_rows({p, q});
         else if(op == 14) A.insert_row(p, A.row(0));
         else A = Strict{y};
      });
      vp_check(rej == !ok, REJ);
      if(!rej) a = w, b = wb;
      for(int z = 0; z < 2; ++z) {
         vp_check(X[z].rows().val() == x[z].r && X[z].cols().val() == x[z].c && len(X[z]) == x[z].r * x[z].c && (X[z].data() == nullptr) == (x[z].r == 0), INV);
         for(size_t k = 0; k < x[z].v.size(); ++k) vp_check(vp_same(X[z].un(long(k)).val(), x[z].v[k]), MOD);
      }
   }
}

#include "vp.hpp"
// Index-list, complement and conditional selections
using IV = std::vector<ImplicitInt>;
static IV mkv(const In<long>& ix) {
   IV v(std::size_t(ix.n), ImplicitInt{0L});
   for(long k = 0; k < ix.n; ++k) v[std::size_t(k)] = ImplicitInt{ix[k]};
   return v;
}
static bool inside(const In<long>& ix, long n) {
   for(long k = 0; k < ix.n; ++k)
      if(ix[k] < 0 || ix[k] >= n) return false;
   return true;
}
#define SZ "selection has one element for each listed index"
#define EL "k-th element is the one at the k-th listed index"
#define REJ "rejected iff a listed index is outside"
#define WR "writing changes exactly the selected element"
#define UN "array unchanged by selecting"
static long vp_shape(const char* nr, const char* nc, long& c) {
   long r = vp_ext(nr, 0);
   c = vp_ext(nc, 0);
   vp_assume((r == 0) == (c == 0));
   return r;
}
// ---- 1-D, list of any length
template <typename T>
static void read1() {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<T> d(n, "a");
   In<long> ix(m, "ix", VP_MIN, VP_MAX);
   Array1D<T> A = mk(d);
   VP_TRY(rej, {
      auto v = A(mkv(ix));
      vp_check(len(v) == m, SZ);
      VP_FORALL(k, 0, m) { vp_check(vp_same(v.un(k).val(), d[ix[k]]), EL); }
   });
   vp_check(rej == !inside(ix, n), REJ);
   check_is(A, d, UN, UN);
}
VP_HARNESS(read_f64) { read1<double>(); }
VP_HARNESS(read_f32) { read1<float>(); }
VP_HARNESS(read_i64) { read1<long>(); }
VP_HARNESS(read_i32) { read1<int>(); }
VP_HARNESS(read_bool) { read1<bool>(); }
VP_HARNESS(read_const) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> d(n, "a");
   In<long> ix(m, "ix", VP_MIN, VP_MAX);
   const Array1D<double> A = mk(d);
   VP_TRY(rej, {
      auto v = A(mkv(ix));
      vp_check(len(v) == m, SZ);
      VP_FORALL(k, 0, m) { vp_check(vp_same(v.un(k).val(), d[ix[k]]), EL); }
   });
   vp_check(rej == !inside(ix, n), REJ);
}
VP_HARNESS(read_checked) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> d(n, "a");
   In<long> ix(m, "ix", VP_MIN, VP_MAX);
   Array1D<double> A = mk(d);
   long k = vp_int("k", VP_MIN, VP_MAX);
   bool ok = inside(ix, n);
   vp_assume(ok);
   auto v = A(mkv(ix));
   VP_TRY(rej, { double x = v[k].val(); vp_check(k >= 0 && k < m && vp_same(x, d[ix[k]]), EL); });
   vp_check(rej == !(k >= 0 && k < m), "access through the selection is rejected iff outside of it");
}
VP_HARNESS(write_one) {
   long n = vp_size("n", 0), m = vp_size("m", 0), w = vp_size("w", 0);
   In<double> d(n, "a");
   In<long> ix(m, "ix", VP_MIN, VP_MAX);
   Array1D<double> A = mk(d);
   double x = vp_f64("x");
   vp_assume(w < m);
   vp_assume(inside(ix, n));
   A(mkv(ix))[w] = Strict{x};
   VP_FORALL(q, 0, n) { vp_check(vp_same(A.un(q).val(), q == ix[w] ? x : d[q]), WR); }
}
// a list selects from a view
VP_HARNESS(read_reverse) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> d(n, "a");
   In<long> ix(m, "ix", VP_MIN, VP_MAX);
   Array1D<double> A = mk(d);
   VP_TRY(rej, {
      auto v = A(place::reverse)(mkv(ix));
      vp_check(len(v) == m, SZ);
      VP_FORALL(k, 0, m) { vp_check(vp_same(v.un(k).val(), d[n - 1 - ix[k]]), EL); }
   });
   vp_check(rej == !inside(ix, n), REJ);
}
// a linear slice and a list select from a list selection
VP_HARNESS(slice_of_list) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> d(n, "a");
   In<long> ix(m, "ix", VP_MIN, VP_MAX);
   Array1D<double> A = mk(d);
   vp_assume(inside(ix, n));
   auto v = A(mkv(ix))(place::reverse);
   vp_check(len(v) == m, SZ);
   VP_FORALL(k, 0, m) { vp_check(vp_same(v.un(k).val(), d[ix[m - 1 - k]]), EL); }
}
VP_HARNESS(list_of_list) {
   long n = vp_size("n", 0), m = vp_size("m", 0), l = vp_size("l", 0);
   In<double> d(n, "a");
   In<long> ix(m, "ix", VP_MIN, VP_MAX), jx(l, "jx", VP_MIN, VP_MAX);
   Array1D<double> A = mk(d);
   vp_assume(inside(ix, n));
   VP_TRY(rej, {
      auto v = A(mkv(ix))(mkv(jx));
      vp_check(len(v) == l, SZ);
      VP_FORALL(k, 0, l) { vp_check(vp_same(v.un(k).val(), d[ix[jx[k]]]), EL); }
   });
   vp_check(rej == !inside(jx, m), REJ);
}
// copying a selection into an array, and assigning from it
VP_HARNESS(copy_selection) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> d(n, "a");
   In<long> ix(m, "ix", VP_MIN, VP_MAX);
   Array1D<double> A = mk(d);
   vp_assume(inside(ix, n));
   Array1D<double> B = A(mkv(ix));
   vp_check(len(B) == m, SZ);
   VP_FORALL(k, 0, m) { vp_check(vp_same(B.un(k).val(), d[ix[k]]), EL); }
}
VP_HARNESS(from_expression) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> d(n, "a"), e(n, "b");
   In<long> ix(m, "ix", VP_MIN, VP_MAX);
   Array1D<double> A = mk(d), B = mk(e);
   VP_TRY(rej, {
      auto v = (A * B)(mkv(ix));
      vp_check(len(v) == m, SZ);
      VP_FORALL(k, 0, m) { vp_check(vp_same(v.un(k).val(), d[ix[k]] * e[ix[k]]), EL); }
   });
   vp_check(rej == !inside(ix, n), REJ);
}
// ---- initializer lists (any values)
VP_HARNESS(braces) {
   long n = vp_size("n", 0);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   long i = vp_int("i", VP_MIN, VP_MAX), j = vp_int("j", VP_MIN, VP_MAX), k = vp_int("k", VP_MIN, VP_MAX);
   bool ok = i >= 0 && i < n && j >= 0 && j < n && k >= 0 && k < n;
   VP_TRY(rej, {
      auto v = A({i, j, k});
      vp_check(len(v) == 3, SZ);
      vp_check(vp_same(v.un(0).val(), d[i]) && vp_same(v.un(1).val(), d[j]) && vp_same(v.un(2).val(), d[k]), EL);
   });
   vp_check(rej == !ok, REJ);
}
VP_HARNESS(braces_fill) {
   long n = vp_size("n", 0);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   long i = vp_int("i", VP_MIN, VP_MAX), j = vp_int("j", VP_MIN, VP_MAX), k = vp_int("k", VP_MIN, VP_MAX);
   double x = vp_f64("x");
   bool ok = i >= 0 && i < n && j >= 0 && j < n && k >= 0 && k < n;
   VP_TRY(rej, A({i, j, k}) = Strict{x});
   vp_check(rej == !ok, REJ);
   VP_FORALL(q, 0, n) { vp_check(vp_same(A.un(q).val(), ok && (q == i || q == j || q == k) ? x : d[q]), WR); }
}
VP_HARNESS(braces_assign) {
   long n = vp_size("n", 0);
   In<double> d(n, "a"), e(vp_size("m", 0), "b");
   Array1D<double> A = mk(d), B = mk(e);
   long i = vp_int("i", VP_MIN, VP_MAX), j = vp_int("j", VP_MIN, VP_MAX), k = vp_int("k", VP_MIN, VP_MAX);
   bool ok = i >= 0 && i < n && j >= 0 && j < n && k >= 0 && k < n && e.n == 3;
   VP_TRY(rej, A({i, j, k}) = B);
   vp_check(rej == !ok, "rejected iff a listed index is outside or the sizes differ");
   VP_FORALL(q, 0, n) { vp_check(vp_same(A.un(q).val(), !ok ? d[q] : q == k ? e[2] : q == j ? e[1] : q == i ? e[0] : d[q]), WR); }
}
VP_HARNESS(braces_empty) {
   long n = vp_size("n", 0);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   auto v = A(IV{});
   vp_check(len(v) == 0, SZ);
   v = Strict{1.};
   check_is(A, d, UN, UN);
}
// ---- complement: acceptance
static bool increasing(const In<long>& ix) {
   for(long k = 1; k < ix.n; ++k)
      if(!(ix[k - 1] < ix[k])) return false;
   return true;
}
VP_HARNESS(complement_rejected) {
   long n = vp_size("n", 0), m = vp_size("m", 1);
   In<double> d(n, "a");
   In<long> ix(m, "ix", VP_MIN, VP_MAX);
   Array1D<double> A = mk(d);
   bool ok = increasing(ix) && ix[0] >= 0 && ix[m - 1] < n;
   vp_assume(!ok);
   VP_TRY(rej, { auto v = A(place::complement(mkv(ix))); });
   vp_check(rej, "rejected iff not strictly increasing and inside");
   check_is(A, d, UN, UN);
}
VP_HARNESS(complement_rejected_ends) {
   long n = vp_size("n", 0), m = vp_size("m", 1);
   In<double> d(n, "a");
   In<long> ix(m, "ix", VP_MIN, VP_MAX);
   Array1D<double> A = mk(d);
   IV v = mkv(ix);
   vp_assume(ix[0] < 0 || ix[0] >= n || ix[m - 1] < 0 || ix[m - 1] >= n);
   VP_TRY(rej, { auto w = A(place::complement(v)); });
   vp_check(rej, "rejected iff not strictly increasing and inside");
   check_is(A, d, UN, UN);
}
VP_HARNESS(complement_rejected_order) {
   long n = vp_size("n", 0), m = vp_size("m", 2);
   In<double> d(n, "a");
   In<long> ix(m, "ix", VP_MIN, VP_MAX);
   Array1D<double> A = mk(d);
   IV v = mkv(ix);
   long k = vp_size("k", 1);
   vp_assume(k < m);
   vp_assume(ix[k - 1] >= ix[k]);
   VP_TRY(rej, { auto w = A(place::complement(v)); });
   vp_check(rej, "rejected iff not strictly increasing and inside");
   check_is(A, d, UN, UN);
}
// ---- 2-D, lists of any length
#define SH "selection has the described extents"
#define EL2 "each element is the one at the listed row and column"
#define R2(nm, CQ, SEL, RR, CC, IN, AT)                                                                \
   VP_HARNESS(nm) {                                                                                    \
      long c, r = vp_shape("r", "c", c);                                                               \
      long m = vp_size("m", 1);                                                                        \
      In2<double> d(r, c, "a");                                                                        \
      In<long> ix(m, "ix", VP_MIN, VP_MAX);                                                            \
      CQ Array2D<double> A = mk(d);                                                                    \
      VP_TRY(rej, {                                                                                    \
         auto v = SEL;                                                                                 \
         vp_check(long{v.rows()} == (RR) && long{v.cols()} == (CC), SH);                               \
         VP_FORALL(i, 0, RR) { VP_FORALL(j, 0, CC) { vp_check(vp_same(v.un(i, j).val(), AT), EL2); } } \
      });                                                                                              \
      vp_check(rej == !(IN), REJ);                                                                     \
   }
R2(rows_list, , A.rows(mkv(ix)), m, c, inside(ix, r), d(ix[i], j))
R2(cols_list, , A.cols(mkv(ix)), r, m, inside(ix, c), d(i, ix[j]))
R2(rows_list_const, const, A.rows(mkv(ix)), m, c, inside(ix, r), d(ix[i], j))
R2(cols_list_const, const, A.cols(mkv(ix)), r, m, inside(ix, c), d(i, ix[j]))
R2(list_all, , A(mkv(ix), place::all), m, c, inside(ix, r), d(ix[i], j))
R2(all_list, , A(place::all, mkv(ix)), r, m, inside(ix, c), d(i, ix[j]))
R2(reverse_list, , A(place::reverse, mkv(ix)), r, m, inside(ix, c), d(r - 1 - i, ix[j]))
VP_HARNESS(list_list) {
   long c, r = vp_shape("r", "c", c);
   long m = vp_size("m", 1), l = vp_size("l", 1);
   In2<double> d(r, c, "a");
   In<long> ix(m, "ix", VP_MIN, VP_MAX), jx(l, "jx", VP_MIN, VP_MAX);
   Array2D<double> A = mk(d);
   VP_TRY(rej, {
      auto v = A(mkv(ix), mkv(jx));
      vp_check(long{v.rows()} == m && long{v.cols()} == l, SH);
      VP_FORALL(i, 0, m) { VP_FORALL(j, 0, l) { vp_check(vp_same(v.un(i, j).val(), d(ix[i], jx[j])), EL2); } }
   });
   vp_check(rej == !(inside(ix, r) && inside(jx, c)), REJ);
}
VP_HARNESS(write_rows_list) {
   long c, r = vp_shape("r", "c", c);
   long m = vp_size("m", 1), p = vp_size("p", 0), q = vp_size("q", 0);
   In2<double> d(r, c, "a");
   In<long> ix(m, "ix", VP_MIN, VP_MAX);
   Array2D<double> A = mk(d);
   double x = vp_f64("x");
   vp_assume(inside(ix, r));
   vp_assume(p < m);
   vp_assume(q < c);
   A.rows(mkv(ix))(p, q) = Strict{x};
   VP_FORALL(i, 0, r) { VP_FORALL(j, 0, c) { vp_check(vp_same(A.un(i, j).val(), i == ix[p] && j == q ? x : d(i, j)), WR); } }
}
VP_HARNESS(write_cols_list) {
   long c, r = vp_shape("r", "c", c);
   long m = vp_size("m", 1), p = vp_size("p", 0), q = vp_size("q", 0);
   In2<double> d(r, c, "a");
   In<long> ix(m, "ix", VP_MIN, VP_MAX);
   Array2D<double> A = mk(d);
   double x = vp_f64("x");
   vp_assume(inside(ix, c));
   vp_assume(q < r);
   vp_assume(p < m);
   A.cols(mkv(ix))(q, p) = Strict{x};
   VP_FORALL(i, 0, r) { VP_FORALL(j, 0, c) { vp_check(vp_same(A.un(i, j).val(), j == ix[p] && i == q ? x : d(i, j)), WR); } }
}
VP_HARNESS(braces_rows) {
   long c, r = vp_shape("r", "c", c);
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   long i = vp_int("i", VP_MIN, VP_MAX), k = vp_int("k", VP_MIN, VP_MAX);
   VP_TRY(rej, {
      auto v = A.rows({i, k});
      vp_check(long{v.rows()} == 2 && long{v.cols()} == c, SH);
      VP_FORALL(j, 0, c) { vp_check(vp_same(v.un(0, j).val(), d(i, j)) && vp_same(v.un(1, j).val(), d(k, j)), EL2); }
   });
   vp_check(rej == !(i >= 0 && i < r && k >= 0 && k < r), REJ);
}
VP_HARNESS(braces_cols) {
   long c, r = vp_shape("r", "c", c);
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   long i = vp_int("i", VP_MIN, VP_MAX), k = vp_int("k", VP_MIN, VP_MAX);
   VP_TRY(rej, {
      auto v = A.cols({i, k});
      vp_check(long{v.rows()} == r && long{v.cols()} == 2, SH);
      VP_FORALL(j, 0, r) { vp_check(vp_same(v.un(j, 0).val(), d(j, i)) && vp_same(v.un(j, 1).val(), d(j, k)), EL2); }
   });
   vp_check(rej == !(i >= 0 && i < c && k >= 0 && k < c), REJ);
}
VP_HARNESS(braces_both) {
   long c, r = vp_shape("r", "c", c);
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   long i = vp_int("i", VP_MIN, VP_MAX), j = vp_int("j", VP_MIN, VP_MAX), k = vp_int("k", VP_MIN, VP_MAX);
   VP_TRY(rej, {
      auto v = A({i}, {j, k});
      vp_check(long{v.rows()} == 1 && long{v.cols()} == 2, SH);
      vp_check(vp_same(v.un(0, 0).val(), d(i, j)) && vp_same(v.un(0, 1).val(), d(i, k)), EL2);
   });
   vp_check(rej == !(i >= 0 && i < r && k >= 0 && k < c && j >= 0 && j < c), REJ);
}
// ---- complement and conditional selection (the appended vectors are bounded: see DESIGN.md)
struct Ref {
   std::vector<long> w;
   bool ok = true;
};
static Ref list(long n, IV& v, bool sorted) {
   Ref s;
   long m = vp_small("m", 0, 6);
   bool gen = vp_flag("valid");
   for(long k = 0; k < m; ++k) {
      long x = gen && sorted ? (s.w.empty() ? 0 : s.w.back() + 1) + vp_small("gap", 0, 2) : gen ? vp_small("ix", 0, n ? n - 1 : 0) : vp_small("ix", -2, n + 1);
      s.ok = s.ok && x >= 0 && x < n && (!sorted || s.w.empty() || s.w.back() < x);
      s.w.push_back(x);
      v.push_back(ImplicitInt{x});
   }
   return s;
}
static std::vector<long> rest(const std::vector<long>& w, long n) {
   std::vector<long> r;
   for(long i = 0; i < n; ++i) {
      bool in = false;
      for(long x : w) in = in || x == i;
      if(!in) r.push_back(i);
   }
   return r;
}
template <typename F>
static void some(F sel, bool sorted) {
   long n = vp_small("n", 0, 9);
   In<double> d(n, "a");
   Array1D<double> A = mk(d), B = mk(d), C = mk(d), D = mk(d);
   IV v;
   Ref s = list(n, v, sorted);
   std::vector<long> w = sorted ? rest(s.w, n) : s.w;
   double x = vp_f64("x");
   VP_TRY(rej, {
      auto S = sel(A, v);
      vp_check(len(S) == long(w.size()), SZ);
      for(long k = 0; k < long(w.size()); ++k) vp_check(vp_same(S.un(k).val(), d[w[size_t(k)]]), EL);
      sel(B, v) = Strict{x};
      sel(C, v) *= 2._sd;
   });
   vp_check(rej == !s.ok, REJ);
   std::vector<double> b(size_t(n), 0.), c(b);
   for(long i = 0; i < n; ++i) b[size_t(i)] = c[size_t(i)] = d[i];
   if(s.ok)
      for(long i : w) b[size_t(i)] = x, c[size_t(i)] *= 2.;
   for(long i = 0; i < n; ++i) vp_check(vp_same(B.un(i).val(), b[size_t(i)]), WR);
   for(long i = 0; i < n; ++i) vp_check(vp_same(C.un(i).val(), c[size_t(i)]), WR);
   check_is(A, d, UN, UN);
   const Array1D<double>& E = A;
   VP_TRY(rejc, {
      auto S = sel(E, v);
      vp_check(len(S) == long(w.size()), SZ);
      for(long k = 0; k < long(w.size()); ++k) vp_check(vp_same(S.un(k).val(), d[w[size_t(k)]]), EL);
   });
   vp_check(rejc == !s.ok, REJ);
}
VP_BOUNDED(list_1d) { some([](auto& A, auto& v) { if constexpr(std::is_const_v<std::remove_reference_t<decltype(A)>>) return A(v); else return A(v); }, false); }
VP_BOUNDED(complement_1d) { some([](auto& A, auto& v) { return A(place::complement(v)); }, true); }
template <typename F>
static void lines(F f) {
   long r = vp_small("r", 0, 5), c = r ? vp_small("c", 1, 5) : 0;
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d), B = mk(d);
   f(A, B, d);
}
#define LN2(nm, SEL, RL, CL, SR, SC)                                                                         \
   VP_BOUNDED(nm) {                                                                                         \
      lines([](auto& A, auto& B, auto& d) {                                                                  \
         IV v, u;                                                                                           \
         Ref s = list(RL ? d.r : d.c, v, RL ? SR : SC), q;                                                         \
         if(RL && CL) q = list(d.c, u, SC);                                                                  \
         std::vector<long> ri = !RL ? rest({}, d.r) : SR ? rest(s.w, d.r) : s.w;                             \
         std::vector<long> ci = !CL ? rest({}, d.c) : RL ? (SC ? rest(q.w, d.c) : q.w) : SC ? rest(s.w, d.c) : s.w; \
         bool ok = s.ok && q.ok;                                                                            \
         if(ri.empty() || ci.empty()) ri.clear(), ci.clear();                                             \
         double x = vp_f64("x");                                                                            \
         VP_TRY(rej, {                                                                                      \
            auto S = [&](auto& X) { return SEL; }(A);                                                       \
            vp_check(long{S.rows()} == long(ri.size()) && long{S.cols()} == long(ci.size()), SH);            \
            for(long i = 0; i < long(ri.size()); ++i)                                                       \
               for(long j = 0; j < long(ci.size()); ++j) vp_check(vp_same(S.un(i, j).val(), d(ri[size_t(i)], ci[size_t(j)])), EL2); \
            [&](auto& X) { return SEL; }(B) = Strict{x};                                                    \
         });                                                                                                \
         vp_check(rej == !ok, REJ);                                                                         \
         for(long i = 0; i < d.r; ++i)                                                                      \
            for(long j = 0; j < d.c; ++j) {                                                                 \
               bool in = false, jn = false;                                                                 \
               for(long p : ri) in = in || p == i;                                                          \
               for(long p : ci) jn = jn || p == j;                                                          \
               vp_check(vp_same(B.un(i, j).val(), ok && in && jn ? x : d(i, j)), WR);                       \
            }                                                                                               \
      });                                                                                                   \
   }
LN2(fill_rows_list, X.rows(v), true, false, false, false)
LN2(fill_cols_list, X.cols(v), false, true, false, false)
LN2(complement_rows, X.rows(place::complement(v)), true, false, true, false)
LN2(complement_cols, X.cols(place::complement(v)), false, true, false, true)
LN2(complement_list, X(place::complement(v), u), true, true, true, false)
LN2(list_complement, X(v, place::complement(u)), true, true, false, true)
LN2(complement_both, X(place::complement(v), place::complement(u)), true, true, true, true)
template <typename T, typename F, typename P>
static void cond(F sel, P pred, bool chk) {
   long n = vp_small("n", 0, 9);
   In<T> d(n, "a");
   Array1D<T> A = mk(d), B = mk(d);
   T lo = vp_val<T>("lo"), hi = vp_val<T>("hi"), x = vp_val<T>("x");
   std::vector<long> w;
   for(long i = 0; i < n; ++i)
      if(pred(d[i], lo, hi)) w.push_back(i);
   bool ok = !chk || lo <= hi;
   VP_TRY(rej, {
      auto S = sel(A, lo, hi);
      vp_check(len(S) == long(w.size()), "selection has one element for each satisfying one");
      for(long k = 0; k < long(w.size()); ++k) vp_check(vp_same(S.un(k).val(), d[w[size_t(k)]]), "the satisfying elements in their order");
      sel(B, lo, hi) = Strict<T>{x};
   });
   vp_check(rej == !ok, "rejected iff the range is empty");
   check_is(A, d, UN, UN);
   for(long i = 0; i < n; ++i) vp_check(vp_same(B.un(i).val(), ok && pred(d[i], lo, hi) ? x : d[i]), WR);
}
#define CND(nm, SEL, PRED, CHK)                                                                                 \
   VP_BOUNDED(nm##_f64) { cond<double>([](auto& A, [[maybe_unused]] auto lo, [[maybe_unused]] auto hi) { using T [[maybe_unused]] = double; return SEL; }, [](auto x, auto lo, auto hi) { (void)lo, (void)hi; return PRED; }, CHK); } \
   VP_BOUNDED(nm##_i64) { cond<long>([](auto& A, [[maybe_unused]] auto lo, [[maybe_unused]] auto hi) { using T [[maybe_unused]] = long; return SEL; }, [](auto x, auto lo, auto hi) { (void)lo, (void)hi; return PRED; }, CHK); }
CND(open_range, in_open_range(A, Strict<T>{lo}, Strict<T>{hi}), x > lo && x < hi, true)
CND(closed_range, in_closed_range(A, Strict<T>{lo}, Strict<T>{hi}), x >= lo && x <= hi, true)
CND(open_range_named, in_open_range(A, Low{Strict<T>{lo}}, High{Strict<T>{hi}}), x > lo && x < hi, true)
CND(closed_range_named, in_closed_range(A, Low{Strict<T>{lo}}, High{Strict<T>{hi}}), x >= lo && x <= hi, true)
CND(cond_range, in_cond_range(A, [lo](auto x) { return x < Strict<T>{lo}; }), x < lo, false)

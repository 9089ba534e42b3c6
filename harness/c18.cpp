#include "vp.hpp"
// iterators: positions, traversal order, comparisons, rejections
#include <iterator>
#define AT "dereference gives the element at the position"
#define RNG "positions outside the range are rejected and only those"
#define POS "iterator arithmetic agrees with positions"
#define CMP "comparisons agree with positions"
#define OTHER "iterators of different arrays and singular iterators are rejected"
#define ORD "traversal visits the elements in order, each once"
static long vp_shape(const char* rn, const char* cn, long& c) {
   long r = vp_ext(rn, 0);
   c = vp_ext(cn, 0);
   vp_assume((r == 0) == (c == 0));
   return r;
}
// ---- one-dimensional contract of a pair of iterators over n elements with values g(k)
template <typename F, typename G>
static void deref(F first, long n, G g) {
   long p = vp_int("p", VP_MIN, VP_MAX);
   bool in = p >= 0 && p < n;
   auto it = first + p;
   {
      VP_TRY(rej, auto v = Strict(*it).val(); vp_check(vp_same(v, g(p)), AT));
      vp_check(rej == !in, RNG);
   }
   {
      VP_TRY(rej, auto v = Strict(first[p]).val(); vp_check(vp_same(v, g(p)), AT));
      vp_check(rej == !in, RNG);
   }
   long q = vp_int("q", VP_MIN / 2, VP_MAX / 2), s = vp_int("s", VP_MIN / 2, VP_MAX / 2);
   auto jt = first + s;
   {
      VP_TRY(rej, auto v = Strict(jt[q]).val(); vp_check(vp_same(v, g(s + q)), AT));
      vp_check(rej == !(s + q >= 0 && s + q < n), RNG);
   }
}
template <typename F>
static void arithmetic(F first, F last, long n) {
   long p = vp_int("p", VP_MIN / 4, VP_MAX / 4), q = vp_int("q", VP_MIN / 4, VP_MAX / 4), d = vp_int("d", VP_MIN / 4, VP_MAX / 4);
   vp_check(last - first == n && first - last == -n, POS);
   auto a = first + p, b = first + q;
   vp_check(a - b == p - q, POS);
   vp_check((a - q) - first == p - q, POS);
   vp_check((d + a) - first == p + d, POS);
   auto c = a;
   auto* pc = &(c += d);
   vp_check(c - first == p + d && pc == &c && a - first == p, POS);
   auto e = a;
   auto* pe = &(e -= d);
   vp_check(e - first == p - d && pe == &e, POS);
   auto u = a;
   auto* pu = &++u;
   vp_check(u - first == p + 1 && pu == &u, POS);
   auto v = a;
   auto* pv = &--v;
   vp_check(v - first == p - 1 && pv == &v, POS);
   auto w = a;
   auto old = w++;
   vp_check(w - first == p + 1 && old - first == p, POS);
   auto x = a;
   auto old2 = x--;
   vp_check(x - first == p - 1 && old2 - first == p, POS);
   vp_check((a == b) == (p == q) && (a != b) == (p != q), CMP);
   vp_check((a < b) == (p < q) && (a <= b) == (p <= q), CMP);
   vp_check((a > b) == (p > q) && (a >= b) == (p >= q), CMP);
}
template <typename F>
static void strangers(F a, F b) {
   {
      VP_TRY(rej, (void)(a == b));
      vp_check(rej, OTHER);
   }
   {
      VP_TRY(rej, (void)(a != b));
      vp_check(rej, OTHER);
   }
   {
      VP_TRY(rej, (void)(a < b));
      vp_check(rej, OTHER);
   }
   {
      VP_TRY(rej, (void)(a <= b));
      vp_check(rej, OTHER);
   }
   {
      VP_TRY(rej, (void)(a > b));
      vp_check(rej, OTHER);
   }
   {
      VP_TRY(rej, (void)(a >= b));
      vp_check(rej, OTHER);
   }
   {
      VP_TRY(rej, (void)(a - b));
      vp_check(rej, OTHER);
   }
}
template <typename F>
static void singular() {
   F s{};
   vp_check(!s.points_somewhere().val(), OTHER);
   strangers(s, s);
   {
      VP_TRY(rej, (void)(*s));
      vp_check(rej, OTHER);
   }
   {
      VP_TRY(rej, (void)(s[0]));
      vp_check(rej, OTHER);
   }
   {
      VP_TRY(rej, (void)(++s));
      vp_check(rej, OTHER);
   }
   {
      VP_TRY(rej, (void)(--s));
      vp_check(rej, OTHER);
   }
   {
      VP_TRY(rej, (void)(s++));
      vp_check(rej, OTHER);
   }
   {
      VP_TRY(rej, (void)(s--));
      vp_check(rej, OTHER);
   }
   {
      VP_TRY(rej, (void)(s += 1));
      vp_check(rej, OTHER);
   }
   {
      VP_TRY(rej, (void)(s -= 1));
      vp_check(rej, OTHER);
   }
   {
      VP_TRY(rej, (void)(s + 1));
      vp_check(rej, OTHER);
   }
   {
      VP_TRY(rej, (void)(s - 1));
      vp_check(rej, OTHER);
   }
   {
      VP_TRY(rej, (void)(1 + s));
      vp_check(rej, OTHER);
   }
}
// every element in order into out; a traversal that is too long runs out of memory bounds
template <typename I, typename G>
static void walk(I first, I last, long n, G g) {
   long* out = new long[std::size_t(n)];
   long k = 0;
   for(; first != last; ++first) {
      vp_assume(k < n + 1);
      out[k] = Strict(*first).val();
      ++k;
   }
   vp_check(k == n, ORD);
   VP_FORALL(p, 0, n) { vp_check(out[p] == g(p), ORD); }
   delete[] out;
}
VP_HARNESS(deref_array) {
   In<long> d(vp_ext("n", 0), "a");
   auto A = mk(d);
   deref(A.begin(), d.n, [&](long k) { return d[k]; });
}
VP_HARNESS(deref_const) {
   In<double> d(vp_ext("n", 0), "a");
   const auto A = mk(d);
   deref(A.begin(), d.n, [&](long k) { return d[k]; });
}
VP_HARNESS(deref_cbegin) {
   In<double> d(vp_ext("n", 0), "a");
   auto A = mk(d);
   deref(A.cbegin(), d.n, [&](long k) { return d[k]; });
}
VP_HARNESS(deref_view) {
   In<long> d(vp_ext("n", 0), "a");
   auto A = mk(d);
   auto V = A(place::reverse);
   deref(V.begin(), d.n, [&](long k) { return d[d.n - 1 - k]; });
}
VP_HARNESS(deref_view_const) {
   In<long> d(vp_ext("n", 1), "a");
   const auto A = mk(d);
   const auto V = A(place::even);
   deref(V.begin(), (d.n + 1) / 2, [&](long k) { return d[2 * k]; });
}
VP_HARNESS(deref_expr) {
   In<double> d(vp_ext("n", 0), "a"), e(d.n, "b");
   auto A = mk(d), B = mk(e);
   auto E = A + B;
   deref(E.begin(), d.n, [&](long k) { return d[k] + e[k]; });
}
VP_HARNESS(deref_2d) {
   long c, r = vp_shape("r", "c", c);
   In2<long> d(r, c, "a");
   auto A = mk(d);
   deref(A.begin(), d.n, [&](long k) { return d[k]; });
}
VP_HARNESS(deref_2d_view) {
   In2<long> d(vp_ext("r", 1), vp_ext("c", 1), "a");
   auto A = mk(d);
   auto V = A(place::reverse, place::all);
   auto it = V.begin();
   long i = vp_int("i", 0, d.r - 1), j = vp_int("j", 0, d.c - 1);
   VP_TRY(rej, vp_check((*(it + (i * d.c + j))).val() == d(d.r - 1 - i, j), AT));
   vp_check(!rej, RNG);
   long p = vp_int("p", VP_MIN, VP_MAX);
   vp_assume(p < 0 || p >= d.r * d.c);
   {
      VP_TRY(rj, (void)(*(it + p)));
      vp_check(rj, RNG);
   }
}
VP_HARNESS(write_through) {
   In<long> d(vp_ext("n", 1), "a");
   auto A = mk(d);
   long p = vp_int("p", 0, d.n - 1), x = vp_val<long>("x");
   *(A.begin() + p) = Strict{x};
   VP_FORALL(k, 0, d.n) { vp_check(A.un(k).val() == (k == p ? x : d[k]), "writing through an iterator changes that element only"); }
   vp_check(&*(A.begin() + p) == &A.un(p), AT);
   vp_check((A.begin() + p).operator->() == &A.un(p), AT);
   vp_check(A.cbegin().operator->() == &A.un(0), AT);
}
VP_HARNESS(arrow_range) {
   In<long> d(vp_ext("n", 0), "a");
   auto A = mk(d);
   const auto& B = A;
   long p = vp_int("p", VP_MIN, VP_MAX);
   {
      VP_TRY(rej, (void)(A.begin() + p).operator->());
      vp_check(rej == !(p >= 0 && p < d.n), RNG);
   }
   {
      VP_TRY(rej, (void)(B.begin() + p).operator->());
      vp_check(rej == !(p >= 0 && p < d.n), RNG);
   }
}
VP_HARNESS(arith_array) {
   In<long> d(vp_ext("n", 0), "a");
   auto A = mk(d);
   arithmetic(A.begin(), A.end(), d.n);
}
VP_HARNESS(arith_const) {
   In<long> d(vp_ext("n", 0), "a");
   const auto A = mk(d);
   arithmetic(A.begin(), A.end(), d.n);
}
VP_HARNESS(arith_cbegin) {
   In<long> d(vp_ext("n", 0), "a");
   auto A = mk(d);
   arithmetic(A.cbegin(), A.cend(), d.n);
}
VP_HARNESS(arith_2d) {
   long c, r = vp_shape("r", "c", c);
   In2<long> d(r, c, "a");
   auto A = mk(d);
   arithmetic(A.begin(), A.end(), d.n);
}
VP_HARNESS(arith_rows) {
   long c, r = vp_shape("r", "c", c);
   In2<long> d(r, c, "a");
   auto A = mk(d);
   RowIt R{A};
   arithmetic(R.begin(), R.end(), r);
   const RowIt R2{A};
   vp_check(R2.end() - R2.begin() == r && R.cend() - R.cbegin() == r, POS);
}
VP_HARNESS(arith_rows_const) {
   long c, r = vp_shape("r", "c", c);
   In2<long> d(r, c, "a");
   const auto A = mk(d);
   RowIt R{A};
   arithmetic(R.begin(), R.end(), r);
}
VP_HARNESS(arith_cols) {
   long c, r = vp_shape("r", "c", c);
   In2<long> d(r, c, "a");
   auto A = mk(d);
   ColIt R{A};
   arithmetic(R.begin(), R.end(), c);
   const ColIt R2{A};
   vp_check(R2.end() - R2.begin() == c && R.cend() - R.cbegin() == c, POS);
}
VP_HARNESS(arith_cols_const) {
   long c, r = vp_shape("r", "c", c);
   In2<long> d(r, c, "a");
   const auto A = mk(d);
   ColIt R{A};
   arithmetic(R.begin(), R.end(), c);
}
VP_HARNESS(reverse_array) {
   In<long> d(vp_ext("n", 1), "a");
   auto A = mk(d);
   const auto& B = A;
   long p = vp_int("p", 0, d.n - 1);
   vp_check((*(A.rbegin() + p)).val() == d[d.n - 1 - p], AT);
   vp_check((*(B.rbegin() + p)).val() == d[d.n - 1 - p], AT);
   vp_check((*(A.crbegin() + p)).val() == d[d.n - 1 - p], AT);
   vp_check(A.rend() - A.rbegin() == d.n && B.rend() - B.rbegin() == d.n && A.crend() - A.crbegin() == d.n, POS);
}
VP_HARNESS(reverse_2d) {
   In2<long> d(vp_ext("r", 1), vp_ext("c", 1), "a");
   auto A = mk(d);
   const auto& B = A;
   long n = d.r * d.c, p = vp_int("p", 0, n - 1);
   vp_check((*(A.rbegin() + p)).val() == d[n - 1 - p], AT);
   vp_check((*(B.rbegin() + p)).val() == d[n - 1 - p], AT);
   vp_check((*(A.crbegin() + p)).val() == d[n - 1 - p], AT);
   vp_check(A.rend() - A.rbegin() == n && B.rend() - B.rbegin() == n && A.crend() - A.crbegin() == n, POS);
}
VP_HARNESS(strangers_1d) {
   In<long> d(vp_ext("n", 0), "a"), e(vp_ext("m", 0), "b");
   auto A = mk(d), B = mk(e);
   strangers(A.begin(), B.begin());
   strangers(A.cbegin(), B.cbegin());
}
VP_HARNESS(strangers_2d) {
   long c, r = vp_shape("r", "c", c);
   In2<long> d(r, c, "a"), e(r, c, "b");
   auto A = mk(d), B = mk(e);
   strangers(A.begin(), B.begin());
   strangers(RowIt{A}.begin(), RowIt{B}.begin());
   strangers(ColIt{A}.begin(), ColIt{B}.begin());
   strangers(RowIt{A}.cbegin(), RowIt{B}.cbegin());
}
VP_HARNESS(singular_iterators) {
   singular<decltype(std::declval<Array1D<long>&>().begin())>();
   singular<decltype(std::declval<const Array1D<long>&>().begin())>();
}
VP_HARNESS(walk_array) {
   In<long> d(vp_ext("n", 0), "a");
   auto A = mk(d);
   walk(A.begin(), A.end(), d.n, [&](long k) { return d[k]; });
}
VP_HARNESS(walk_const) {
   In<long> d(vp_ext("n", 0), "a");
   const auto A = mk(d);
   walk(A.begin(), A.end(), d.n, [&](long k) { return d[k]; });
}
VP_HARNESS(walk_reverse) {
   In<long> d(vp_ext("n", 0), "a");
   auto A = mk(d);
   walk(A.rbegin(), A.rend(), d.n, [&](long k) { return d[d.n - 1 - k]; });
}
VP_HARNESS(walk_creverse) {
   In<long> d(vp_ext("n", 0), "a");
   auto A = mk(d);
   walk(A.crbegin(), A.crend(), d.n, [&](long k) { return d[d.n - 1 - k]; });
}
VP_HARNESS(walk_view) {
   In<long> d(vp_ext("n", 0), "a");
   auto A = mk(d);
   auto V = A(place::reverse);
   walk(V.begin(), V.end(), d.n, [&](long k) { return d[d.n - 1 - k]; });
}
VP_HARNESS(walk_expr) {
   In<long> d(vp_ext("n", 0), "a", -1000000L, 1000000L);
   auto A = mk(d);
   auto E = A + 1_sl;
   walk(E.begin(), E.end(), d.n, [&](long k) { return d[k] + 1; });
}
VP_HARNESS(walk_2d) {
   long c, r = vp_shape("r", "c", c);
   In2<long> d(r, c, "a");
   auto A = mk(d);
   walk(A.begin(), A.end(), d.n, [&](long k) { return d[k]; });
}
// rows and columns
VP_HARNESS(rows_deref) {
   In2<long> d(vp_ext("r", 1), vp_ext("c", 1), "a");
   auto A = mk(d);
   long p = vp_int("p", VP_MIN, VP_MAX), j = vp_int("j", 0, d.c - 1);
   RowIt R{A};
   {
      VP_TRY(rej, auto v = *(R.begin() + p); vp_check(v.size().val() == d.c && v.un(j).val() == d(p, j), AT));
      vp_check(rej == !(p >= 0 && p < d.r), RNG);
   }
   {
      VP_TRY(rej, auto v = R.begin()[p]; vp_check(v.size().val() == d.c && v.un(j).val() == d(p, j), AT));
      vp_check(rej == !(p >= 0 && p < d.r), RNG);
   }
}
VP_HARNESS(rows_deref_const) {
   In2<long> d(vp_ext("r", 1), vp_ext("c", 1), "a");
   const auto A = mk(d);
   long p = vp_int("p", VP_MIN, VP_MAX), j = vp_int("j", 0, d.c - 1);
   RowIt R{A};
   VP_TRY(rej, auto v = *(R.begin() + p); vp_check(v.size().val() == d.c && v.un(j).val() == d(p, j), AT));
   vp_check(rej == !(p >= 0 && p < d.r), RNG);
   long q = vp_int("q", 0, d.r - 1);
   vp_check((*(R.rbegin() + q)).un(j).val() == d(d.r - 1 - q, j), AT);
   vp_check((*(R.crbegin() + q)).un(j).val() == d(d.r - 1 - q, j), AT);
}
VP_HARNESS(cols_deref) {
   In2<long> d(vp_ext("r", 1), vp_ext("c", 1), "a");
   auto A = mk(d);
   long p = vp_int("p", VP_MIN, VP_MAX), i = vp_int("i", 0, d.r - 1);
   ColIt R{A};
   {
      VP_TRY(rej, auto v = *(R.begin() + p); vp_check(v.size().val() == d.r && v.un(i).val() == d(i, p), AT));
      vp_check(rej == !(p >= 0 && p < d.c), RNG);
   }
   {
      VP_TRY(rej, auto v = R.begin()[p]; vp_check(v.size().val() == d.r && v.un(i).val() == d(i, p), AT));
      vp_check(rej == !(p >= 0 && p < d.c), RNG);
   }
}
VP_HARNESS(cols_deref_const) {
   In2<long> d(vp_ext("r", 1), vp_ext("c", 1), "a");
   const auto A = mk(d);
   long p = vp_int("p", VP_MIN, VP_MAX), i = vp_int("i", 0, d.r - 1);
   ColIt R{A};
   VP_TRY(rej, auto v = *(R.begin() + p); vp_check(v.size().val() == d.r && v.un(i).val() == d(i, p), AT));
   vp_check(rej == !(p >= 0 && p < d.c), RNG);
   long q = vp_int("q", 0, d.c - 1);
   vp_check((*(R.rbegin() + q)).un(i).val() == d(i, d.c - 1 - q), AT);
   vp_check((*(R.crbegin() + q)).un(i).val() == d(i, d.c - 1 - q), AT);
}
VP_HARNESS(rows_write) {
   In2<long> d(vp_ext("r", 1), vp_ext("c", 1), "a");
   auto A = mk(d);
   long p = vp_int("p", 0, d.r - 1), q = vp_int("q", 0, d.c - 1), x = vp_val<long>("x");
   auto v = *(RowIt{A}.begin() + p);
   v.un(q) = Strict{x};
   VP_FORALL(k, 0, d.r * d.c) { vp_check(A.un(k).val() == (k == p * d.c + q ? x : d[k]), "writing through an iterator changes that element only"); }
}
// index pairs
VP_HARNESS(plane_step) {
   long c, r = vp_shape("r", "c", c);
   vp_assume(r > 0);
   long i = vp_int("i", 0, r - 1), j = vp_int("j", 0, c - 1);
   detail::PlaneIterator it{Strict{i}, Strict{j}, Strict{r}, Strict{c}};
   auto [a, b] = *it;
   vp_check(a.val() == i && b.val() == j, AT);
   auto old = it++;
   auto [a2, b2] = *old;
   vp_check(a2.val() == i && b2.val() == j, AT);
   bool last = i == r - 1 && j == c - 1;
   detail::PlaneIterator fin{Strict{r}, Strict{c}, Strict{r}, Strict{c}};
   vp_check((it == fin).val() == last && (it != fin).val() == !last, ORD);
   if(!last) {
      auto [x, y] = *it;
      vp_check(x.val() == (j + 1 < c ? i : i + 1) && y.val() == (j + 1 < c ? j + 1 : 0), ORD);
   } else {
      VP_TRY(rej, (void)(*it));
      vp_check(rej, RNG);
   }
}
VP_HARNESS(plane_range) {
   long r = vp_int("r", VP_MIN, VP_EMAX), c = vp_int("c", VP_MIN, VP_EMAX);
   bool ok = r >= 0 && c >= 0 && (r == 0) == (c == 0);
   VP_TRY(rej, IndexRange2D R(r, c); {
      vp_check((R.begin() == R.end()).val() == (r == 0), ORD);
      if(r > 0) {
         auto [x, y] = *R.begin();
         vp_check(x.val() == 0 && y.val() == 0, AT);
      }
   });
   vp_check(rej == !ok, "negative or half-empty extents are rejected");
}
VP_BOUNDED(plane_walk) {
   long r = vp_int("r", 0, 8), c = vp_int("c", 0, 8);
   vp_assume((r == 0) == (c == 0));
   long k = 0;
   for(auto [i, j] : IndexRange2D(r, c)) {
      vp_check(k < r * c && i.val() == k / c && j.val() == k % c, ORD);
      ++k;
   }
   vp_check(k == r * c, ORD);
   Array2D<long> A(r, c);
   k = 0;
   for(auto [i, j] : IndexRange2D(A)) k += 1 + 0 * (i.val() + j.val());
   vp_check(k == r * c, ORD);
}

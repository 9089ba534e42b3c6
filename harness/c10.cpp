#include "vp.hpp"
// construction, copy, move, swap, assignment

template <typename A, typename T>
static void check_all(const A& a, long n, T x, const char* l) {
   VP_FORALL(k, 0, n) { vp_check(vp_same(a.un(k).val(), x), l); }
}
// ---- size, value
template <typename T, typename AR, typename F>
static void sized1(F f) {
   long n = vp_ext("n", VP_MIN / 2);
   VP_TRY(rej, {
      AR A = f(n);
      vp_check(len(A) == n, "array of n elements has size n");
      check_all(A, n, T(0), "elements are zero when no value is given");
   });
   vp_check(rej == (n < 0), "rejected iff the size is negative");
}
VP_HARNESS(size1_double) { sized1<double, Array1D<double>>([](long n) { return Array1D<double>(n); }); }
VP_HARNESS(size1_long) { sized1<long, Array1D<long>>([](long n) { return Array1D<long>(n); }); }
VP_HARNESS(size1_bool) { sized1<bool, Array1D<bool>>([](long n) { return Array1D<bool>(n); }); }
VP_HARNESS(size1_named) { sized1<double, Array1D<double>>([](long n) { return Array1D<double>(Size{Strict{n}}); }); }
VP_HARNESS(size1_unaligned) { sized1<double, Array1D<double, Unaligned>>([](long n) { return Array1D<double, Unaligned>(n); }); }
VP_HARNESS(size1_constdef) { sized1<double, Array1D<double>>([](long n) { const Array1D<double> B(n); return B; }); }
template <typename T, typename AR, typename F>
static void valued1(F f) {
   long n = vp_ext("n", VP_MIN / 2);
   T x = vp_val<T>("x");
   VP_TRY(rej, {
      AR A = f(n, Strict<T>{x});
      vp_check(len(A) == n, "array of n elements has size n");
      check_all(A, n, x, "elements have the given value");
   });
   vp_check(rej == (n < 0), "rejected iff the size is negative");
}
VP_HARNESS(value1_double) { valued1<double, Array1D<double>>([](long n, auto x) { return Array1D<double>(n, x); }); }
VP_HARNESS(value1_float) { valued1<float, Array1D<float>>([](long n, auto x) { return Array1D<float>(n, x); }); }
VP_HARNESS(value1_named) { valued1<long, Array1D<long>>([](long n, auto x) { return Array1D<long>(Size{Strict{n}}, Value{x}); }); }
VP_HARNESS(value1_unaligned) { valued1<long, Array1D<long, Unaligned>>([](long n, auto x) { return Array1D<long, Unaligned>(n, x); }); }
template <typename T, bool V, typename F>
static void sized2(F f) {
   long r = vp_ext("r", -VP_EMAX), c = vp_ext("c", -VP_EMAX);
   T x = V ? vp_val<T>("x") : T(0);
   vp_assume(r >= 0 || c >= 0);
   VP_TRY(rej, {
      Array2D<T> A = f(r, c, Strict<T>{x});
      vp_check(A.rows().val() == r && A.cols().val() == c && len(A) == r * c, "array has the given extents");
      check_all(A, r * c, x, "elements have the given value, zero when none");
   });
   vp_check(rej == !(r >= 0 && c >= 0 && (r == 0) == (c == 0)), "rejected iff negative or exactly one extent is zero");
}
VP_HARNESS(size2) { sized2<double, false>([](long r, long c, auto) { return Array2D<double>(r, c); }); }
VP_HARNESS(size2_long) { sized2<long, false>([](long r, long c, auto) { return Array2D<long>(r, c); }); }
VP_HARNESS(size2_named) { sized2<double, false>([](long r, long c, auto) { return Array2D<double>(Rows{Strict{r}}, Cols{Strict{c}}); }); }
VP_HARNESS(value2) { sized2<double, true>([](long r, long c, auto x) { return Array2D<double>(r, c, x); }); }
VP_HARNESS(value2_named) { sized2<long, true>([](long r, long c, auto x) { return Array2D<long>(Rows{Strict{r}}, Cols{Strict{c}}, Value{x}); }); }
VP_HARNESS(default_arrays) {
   Array1D<double> A;
   Array2D<double> B;
   vp_check(len(A) == 0 && len(B) == 0 && B.rows().val() == 0 && B.cols().val() == 0, "default-constructed arrays are empty");
   FixedArray1D<double, 4> F;
   FixedArray2D<double, 2, 3> G;
   vp_check(len(F) == 4 && len(G) == 6 && G.rows().val() == 2 && G.cols().val() == 3, "fixed arrays have their static extents");
   check_all(F, 4, 0., "fixed elements are zero by default");
   check_all(G, 6, 0., "fixed elements are zero by default");
}
// ---- lists
VP_HARNESS(list1) {
   double a = vp_f64("a"), b = vp_f64("b"), c = vp_f64("c");
   Array1D<double> A{Strict{a}, Strict{b}, Strict{c}};
   vp_check(len(A) == 3 && vp_same(A.un(0).val(), a) && vp_same(A.un(1).val(), b) && vp_same(A.un(2).val(), c), "list elements in order");
   Array1D<double> E{};
   vp_check(len(E) == 0, "empty list gives an empty array");
   FixedArray1D<double, 3> F{Strict{a}, Strict{b}, Strict{c}};
   vp_check(vp_same(F.un(0).val(), a) && vp_same(F.un(1).val(), b) && vp_same(F.un(2).val(), c), "list elements in order");
}
VP_HARNESS(list1_assign) {
   long n = vp_size("n", 0);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   double a = vp_f64("x"), b = vp_f64("y");
   VP_TRY(rej, (A = {Strict{a}, Strict{b}}));
   vp_check(rej == (n != 2), "list assignment rejected iff the length differs");
   if(rej) check_is(A, d, "size unchanged when rejected", "elements unchanged when rejected");
   else vp_check(len(A) == 2 && vp_same(A.un(0).val(), a) && vp_same(A.un(1).val(), b), "list elements in order");
}
VP_HARNESS(list1_fixed_wrong) {
   double a = vp_f64("a"), b = vp_f64("b");
   VP_TRY(rej, {
      FixedArray1D<double, 3> F{Strict{a}, Strict{b}};
   });
   vp_check(rej, "list of another length rejected");
   FixedArray1D<double, 3> F(Strict{a});
   VP_TRY(rej2, (F = {Strict{a}, Strict{b}}));
   vp_check(rej2, "list of another length rejected");
   check_all(F, 3, a, "elements unchanged when rejected");
}
VP_HARNESS(list2) {
   double a = vp_f64("a"), b = vp_f64("b"), c = vp_f64("c"), d = vp_f64("d"), e = vp_f64("e"), f = vp_f64("f");
   Array2D<double> A{{Strict{a}, Strict{b}, Strict{c}}, {Strict{d}, Strict{e}, Strict{f}}};
   vp_check(A.rows().val() == 2 && A.cols().val() == 3 && len(A) == 6, "list shape");
   double w[6] = {a, b, c, d, e, f};
   for(long i = 0; i < 2; ++i)
      for(long j = 0; j < 3; ++j) vp_check(vp_same(A.un(i, j).val(), w[i * 3 + j]), "list elements in row-major order");
   FixedArray2D<double, 3, 2> F{{Strict{a}, Strict{b}}, {Strict{c}, Strict{d}}, {Strict{e}, Strict{f}}};
   for(long i = 0; i < 3; ++i)
      for(long j = 0; j < 2; ++j) vp_check(vp_same(F.un(i, j).val(), w[i * 2 + j]), "list elements in row-major order");
}
VP_HARNESS(list2_ragged) {
   double a = vp_f64("a"), b = vp_f64("b"), c = vp_f64("c");
   VP_TRY(rej1, { Array2D<double> A({{Strict{a}, Strict{b}}, {Strict{c}}}); });
   VP_TRY(rej2, { Array2D<double> A({{Strict{a}}, {Strict{b}, Strict{c}}}); });
   VP_TRY(rej3, { Array2D<double> A({{Strict{a}, Strict{b}}, {Strict{c}, Strict{a}}, {}}); });
   VP_TRY(rej4, { Array2D<double> A({{}, {Strict{c}}}); });
   vp_check(rej1 && rej2 && rej3 && rej4, "ragged lists are rejected");
   VP_TRY(rej5, { FixedArray2D<double, 2, 2> A({{Strict{a}, Strict{b}}, {Strict{c}}}); });
   VP_TRY(rej6, { FixedArray2D<double, 2, 2> A({{Strict{a}, Strict{b}}}); });
   VP_TRY(rej7, { FixedArray2D<double, 1, 2> A({{Strict{a}, Strict{b}, Strict{c}}}); });
   vp_check(rej5 && rej6 && rej7, "lists of another shape are rejected by fixed arrays");
}
VP_HARNESS(list2_ragged_middle) {
   double a = vp_f64("a"), b = vp_f64("b"), c = vp_f64("c");
   VP_TRY(rej1, { Array2D<double> A({{Strict{a}, Strict{b}}, {Strict{c}}, {Strict{a}, Strict{c}}}); });
   VP_TRY(rej2, { Array2D<double> A({{Strict{a}, Strict{b}}, {Strict{c}, Strict{a}, Strict{b}}, {Strict{a}, Strict{c}}}); });
   VP_TRY(rej3, { Array2D<double> A({{Strict{a}, Strict{b}}, {Strict{a}, Strict{c}}, {Strict{b}}, {Strict{a}, Strict{c}}}); });
   VP_TRY(rej4, { Array2D<double> A({{Strict{a}}, {}, {Strict{c}}}); });
   vp_check(rej1 && rej2 && rej3 && rej4, "ragged lists are rejected");
   VP_TRY(rej5, { FixedArray2D<double, 3, 2> A({{Strict{a}, Strict{b}}, {Strict{c}}, {Strict{a}, Strict{c}}}); });
   vp_check(rej5, "ragged lists are rejected by fixed arrays");
   Array2D<double> B(3, 2, Strict{c});
   VP_TRY(rej6, (B = {{Strict{a}, Strict{b}}, {Strict{a}}, {Strict{b}, Strict{b}}}));
   VP_TRY(rej7, (B = {{Strict{a}, Strict{b}}, {Strict{a}, Strict{a}, Strict{a}}, {Strict{b}, Strict{b}}}));
   vp_check(rej6 && rej7, "ragged list assignment rejected");
   for(long k = 0; k < 6; ++k) vp_check(vp_same(B.un(k).val(), c), "elements unchanged when rejected");
}
VP_HARNESS(list2_assign) {
   long r = vp_ext("r", 0), c = vp_ext("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   double a = vp_f64("x"), b = vp_f64("y");
   VP_TRY(rej, (A = {{Strict{a}}, {Strict{b}}}));
   vp_check(rej == !(r == 2 && c == 1), "list assignment rejected iff the shape differs");
   if(rej) check_is2(A, d, "shape unchanged when rejected", "elements unchanged when rejected");
   else vp_check(A.rows().val() == 2 && A.cols().val() == 1 && vp_same(A.un(0, 0).val(), a) && vp_same(A.un(1, 0).val(), b), "list elements in order");
   VP_TRY(rej2, (A = {{Strict{a}, Strict{b}}, {Strict{b}}}));
   vp_check(rej2, "ragged list assignment rejected");
}
// ---- copies
template <typename T, typename F>
static void copy1(F f) {
   long n = vp_size("n", 0);
   In<T> d(n, "a");
   Array1D<T> A = mk(d);
   T x = vp_val<T>("x");
   auto B = f(A);
   vp_check(len(B) == n, "copy has the same size");
   VP_FORALL(k, 0, n) { vp_check(vp_same(B.un(k).val(), d[k]), "copy has the same elements"); }
   long w = vp_int("w", 0, VP_MAX);
   vp_assume(w < n);
   B.un(w) = Strict<T>{x};
   check_is(A, d, "source size unchanged", "source independent of the copy");
   A = Strict<T>{x};
   VP_FORALL(k, 0, n) { vp_check(vp_same(B.un(k).val(), k == w ? x : d[k]), "copy independent of the source"); }
}
VP_HARNESS(copy1_double) { copy1<double>([](auto& A) { return Array1D<double>(A); }); }
VP_HARNESS(copy1_long) { copy1<long>([](auto& A) { return Array1D<long>(A); }); }
VP_HARNESS(copy1_bool) { copy1<bool>([](auto& A) { return Array1D<bool>(A); }); }
VP_HARNESS(copy1_other_alignment) { copy1<double>([](auto& A) { return Array1D<double, Unaligned>(A); }); }
VP_HARNESS(copy1_from_view) { copy1<double>([](auto& A) { return Array1D<double>(A.view1D()); }); }
VP_HARNESS(copy1_from_expr) { copy1<double>([](auto& A) { return Array1D<double>(+A); }); }
VP_HARNESS(copy1_iterators) { copy1<double>([](auto& A) { return Array1D<double>(A.begin(), A.end()); }); }
VP_HARNESS(copy1_const_iterators) { copy1<long>([](auto& A) { return Array1D<long>(A.cbegin(), A.cend()); }); }
VP_HARNESS(copy1_reversed_twice) { copy1<double>([](auto& A) { Array1D<double> R(A(place::reverse)); return Array1D<double>(R(place::reverse)); }); }
VP_HARNESS(iterators_reversed) {
   long n = vp_size("n", 1), i = vp_int("i", 0, VP_EMAX), j = vp_int("j", 0, VP_EMAX);
   vp_assume(i <= n && j <= n);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   VP_TRY(rej, {
      Array1D<double> B(A.begin() + i, A.begin() + j);
      vp_check(len(B) == j - i, "iterator range gives its length");
      VP_FORALL(k, 0, j - i) { vp_check(vp_same(B.un(k).val(), d[i + k]), "iterator range gives its elements in order"); }
   });
   vp_check(rej == (i > j), "reversed iterator range rejected");
}
template <typename F>
static void copy2(F f) {
   long r = vp_ext("r", 0), c = vp_ext("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   double x = vp_f64("x");
   auto B = f(A);
   vp_check(B.rows().val() == r && B.cols().val() == c && len(B) == r * c, "copy has the same shape");
   VP_FORALL(i, 0, r) {
      VP_FORALL(j, 0, c) { vp_check(vp_same(B.un(i, j).val(), d(i, j)), "copy has the same elements"); }
   }
   B = Strict{x};
   check_is2(A, d, "source shape unchanged", "source independent of the copy");
}
VP_HARNESS(copy2_array) { copy2([](auto& A) { return Array2D<double>(A); }); }
VP_HARNESS(copy2_other_alignment) { copy2([](auto& A) { return Array2D<double, Unaligned>(A); }); }
VP_HARNESS(copy2_from_expr) { copy2([](auto& A) { return Array2D<double>(+A); }); }
// ---- moves
template <typename T>
static void move1() {
   long n = vp_size("n", 0);
   In<T> d(n, "a");
   Array1D<T> A = mk(d);
   Array1D<T> B = std::move(A);
   check_is(B, d, "moved array has the former size", "moved array has the former elements");
   vp_check(len(A) == 0, "moved-from array is empty");
   T x = vp_val<T>("x");
   A.insert_back(Strict<T>{x});
   vp_check(len(A) == 1 && vp_same(A.un(0).val(), x), "moved-from array is usable");
}
VP_HARNESS(move1_double) { move1<double>(); }
VP_HARNESS(move1_long) { move1<long>(); }
VP_HARNESS(move2) {
   long r = vp_ext("r", 0), c = vp_ext("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   Array2D<double> B = std::move(A);
   check_is2(B, d, "moved array has the former shape", "moved array has the former elements");
   vp_check(len(B) == r * c, "size is rows times columns");
   vp_check(len(A) == 0 && A.rows().val() == 0 && A.cols().val() == 0, "moved-from array is empty with zero extents");
}
VP_HARNESS(move_assign1) {
   long n = vp_size("n", 0);
   In<double> d(n, "a"), e(n, "b");
   Array1D<double> A = mk(d), B = mk(e);
   B = std::move(A);
   check_is(B, d, "target has the former size", "target has the former elements");
   vp_check(len(A) == 0, "moved-from array is empty");
}
VP_HARNESS(move_assign2) {
   long r = vp_ext("r", 0), c = vp_ext("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<double> d(r, c, "a"), e(r, c, "b");
   Array2D<double> A = mk(d), B = mk(e);
   B = std::move(A);
   check_is2(B, d, "target has the former shape", "target has the former elements");
   vp_check(len(A) == 0 && A.rows().val() == 0 && A.cols().val() == 0, "moved-from array is empty with zero extents");
}
template <typename A>
static A& same(A& a) { return *&a; }
VP_HARNESS(self_assign1) {
   long n = vp_size("n", 0);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   A = same(A);
   check_is(A, d, "size unchanged by self-assignment", "elements unchanged by self-assignment");
   A = std::move(same(A));
   check_is(A, d, "size unchanged by self-move", "elements unchanged by self-move");
}
VP_HARNESS(self_assign2) {
   long r = vp_ext("r", 0), c = vp_ext("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   A = same(A);
   check_is2(A, d, "shape unchanged by self-assignment", "elements unchanged by self-assignment");
   A = std::move(same(A));
   check_is2(A, d, "shape unchanged by self-move", "elements unchanged by self-move");
   vp_check(len(A) == r * c, "size is rows times columns");
}
VP_HARNESS(fixed_moves) {
   double a = vp_f64("a"), b = vp_f64("b"), c = vp_f64("c");
   FixedArray1D<double, 3> F{Strict{a}, Strict{b}, Strict{c}}, G(F), H;
   H = F;
   H = same(H);
   H = std::move(same(H));
   vp_check(vp_same(G.un(0).val(), a) && vp_same(G.un(1).val(), b) && vp_same(G.un(2).val(), c), "fixed copy has the same elements");
   vp_check(vp_same(H.un(0).val(), a) && vp_same(H.un(1).val(), b) && vp_same(H.un(2).val(), c), "fixed assignment copies; self-assignment changes nothing");
   FixedArray1D<double, 3> M = std::move(F), N;
   N = std::move(G);
   vp_check(vp_same(M.un(0).val(), a) && vp_same(M.un(1).val(), b) && vp_same(M.un(2).val(), c), "fixed move has the former elements");
   vp_check(vp_same(N.un(0).val(), a) && vp_same(N.un(1).val(), b) && vp_same(N.un(2).val(), c), "fixed move assignment has the former elements");
   FixedArray2D<double, 1, 3> P{{Strict{a}, Strict{b}, Strict{c}}}, Q(P), R = std::move(P), S;
   S = Q;
   S = std::move(same(S));
   vp_check(vp_same(S.un(0, 0).val(), a) && vp_same(S.un(0, 1).val(), b) && vp_same(S.un(0, 2).val(), c), "fixed assignment copies; self-assignment changes nothing");
   vp_check(vp_same(R.un(0, 0).val(), a) && vp_same(R.un(0, 1).val(), b) && vp_same(R.un(0, 2).val(), c), "fixed move has the former elements");
}
// ---- swap
VP_HARNESS(swap1) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> d(n, "a"), e(m, "b");
   Array1D<double> A = mk(d), B = mk(e);
   A.swap(B);
   check_is(A, e, "swap exchanges sizes", "swap exchanges elements");
   check_is(B, d, "swap exchanges sizes", "swap exchanges elements");
   A.swap(same(A));
   check_is(A, e, "self-swap keeps the size", "self-swap keeps the elements");
}
VP_HARNESS(swap1_temporary) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> d(n, "a"), e(m, "b");
   Array1D<double> A = mk(d);
   A.swap(mk(e));
   check_is(A, e, "swap with a temporary takes its size", "swap with a temporary takes its elements");
}
VP_HARNESS(swap2) {
   long r = vp_ext("r", 0), c = vp_ext("c", 0), s = vp_ext("s", 0), t = vp_ext("t", 0);
   vp_assume((r == 0) == (c == 0) && (s == 0) == (t == 0));
   In2<double> d(r, c, "a"), e(s, t, "b");
   Array2D<double> A = mk(d), B = mk(e);
   A.swap(B);
   check_is2(A, e, "swap exchanges shapes", "swap exchanges elements");
   check_is2(B, d, "swap exchanges shapes", "swap exchanges elements");
   vp_check(len(A) == s * t && len(B) == r * c, "size is rows times columns");
   A.swap(same(A));
   check_is2(A, e, "self-swap keeps the shape", "self-swap keeps the elements");
}
// ---- assignment
template <typename T, typename F>
static void assign1(F f) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<T> d(n, "a"), e(m, "b");
   Array1D<T> A = mk(d), B = mk(e);
   VP_TRY(rej, f(A, B));
   vp_check(rej == (n != m), "assignment rejected iff the sizes differ");
   if(rej) check_is(A, d, "size unchanged when rejected", "elements unchanged when rejected");
   else check_is(A, e, "size kept", "elements equal the source");
   check_is(B, e, "source size unchanged", "source unchanged");
}
VP_HARNESS(assign1_double) { assign1<double>([](auto& A, auto& B) { A = B; }); }
VP_HARNESS(assign1_long) { assign1<long>([](auto& A, auto& B) { A = B; }); }
VP_HARNESS(assign1_view) { assign1<double>([](auto& A, auto& B) { A = B.view1D(); }); }
VP_HARNESS(assign1_into_view) { assign1<double>([](auto& A, auto& B) { A.view1D() = B; }); }
VP_HARNESS(assign1_view_view) { assign1<double>([](auto& A, auto& B) { A.view1D() = B.view1D(); }); }
VP_HARNESS(assign1_expr) { assign1<double>([](auto& A, auto& B) { A = +B; }); }
VP_HARNESS(assign1_unaligned) { assign1<double>([](auto& A, auto& B) { Array1D<double, Unaligned> C(B); A = C; }); }
template <typename F>
static void assign2(F f) {
   long r = vp_ext("r", 0), c = vp_ext("c", 0), s = vp_ext("s", 0), t = vp_ext("t", 0);
   vp_assume((r == 0) == (c == 0) && (s == 0) == (t == 0));
   In2<double> d(r, c, "a"), e(s, t, "b");
   Array2D<double> A = mk(d), B = mk(e);
   VP_TRY(rej, f(A, B));
   vp_check(rej == !(r == s && c == t), "assignment rejected iff the shapes differ");
   if(rej) check_is2(A, d, "shape unchanged when rejected", "elements unchanged when rejected");
   else check_is2(A, e, "shape kept", "elements equal the source");
   check_is2(B, e, "source shape unchanged", "source unchanged");
}
VP_HARNESS(assign2_array) { assign2([](auto& A, auto& B) { A = B; }); }
VP_HARNESS(assign2_expr) { assign2([](auto& A, auto& B) { A = +B; }); }
VP_HARNESS(assign2_block_block) {     // a temporary view assigned to a temporary view
   long r = vp_ext("r", 1), c = vp_ext("c", 1), s = vp_ext("s", 1), t = vp_ext("t", 1);
   In2<double> d(r, c, "a"), e(s, t, "b");
   Array2D<double> A = mk(d), B = mk(e);
   VP_TRY(rej, A(place::all, place::all) = B(place::all, place::all));
   vp_check(rej == !(r == s && c == t), "assignment rejected iff the shapes differ");
   if(rej) check_is2(A, d, "shape unchanged when rejected", "elements unchanged when rejected");
   else check_is2(A, e, "shape kept", "elements equal the source");
}
VP_HARNESS(assign1_slice_slice) {
   long n = vp_size("n", 0), m = vp_size("m", 0), p = vp_ext("p", 0), q = vp_ext("q", 0), s = vp_ext("s", 0), t = vp_ext("t", 0);
   In<double> d(n, "a"), e(m, "b");
   vp_assume(p + s <= n && q + t <= m && p < n && q < m);
   Array1D<double> A = mk(d), B = mk(e);
   VP_TRY(rej, A(seqN{p, s}) = B(seqN{q, t}));
   vp_check(rej == (s != t), "assignment rejected iff the sizes differ");
   vp_check(len(A) == n, "size kept");
   VP_FORALL(k, 0, n) { vp_check(vp_same(A.un(k).val(), !rej && k >= p && k < p + s ? e[k - p + q] : d[k]), "the addressed elements equal the source, others unchanged"); }
}
VP_HARNESS(assign_scalar1) {
   long n = vp_size("n", 0);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   double x = vp_f64("x");
   A = Strict{x};
   vp_check(len(A) == n, "scalar assignment keeps the size");
   check_all(A, n, x, "scalar assignment sets every element");
}
VP_HARNESS(assign_scalar2) {
   long r = vp_ext("r", 0), c = vp_ext("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   double x = vp_f64("x");
   A = Strict{x};
   vp_check(A.rows().val() == r && A.cols().val() == c, "scalar assignment keeps the shape");
   check_all(A, r * c, x, "scalar assignment sets every element");
}
VP_HARNESS(assign_self_expr) {      // the source reads the target at the same positions
   long n = vp_size("n", 0);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   A = A + A;
   vp_check(len(A) == n, "size kept");
   VP_FORALL(k, 0, n) { vp_check(vp_same(A.un(k).val(), d[k] + d[k]), "expression of the target itself"); }
}
// ---- fixed arrays from dynamic ones
VP_HARNESS(fixed_from_dynamic) {
   long n = vp_size("n", 0);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   VP_TRY(rej, {
      FixedArray1D<double, 5> F(A);
      VP_FORALL(k, 0, n) { vp_check(vp_same(F.un(k).val(), d[k]), "fixed copy has the source's elements"); }
   });
   vp_check(rej == (n != 5), "rejected iff the size differs from the fixed size");
   double x = vp_f64("x");
   FixedArray1D<double, 5> G(Strict{x});
   VP_TRY(rej2, G = A);
   vp_check(rej2 == (n != 5), "assignment rejected iff the size differs from the fixed size");
   if(rej2) check_all(G, 5, x, "elements unchanged when rejected");
   else
      VP_FORALL(k, 0, n) { vp_check(vp_same(G.un(k).val(), d[k]), "fixed array has the source's elements"); }
   Array1D<double> H(G);
   vp_check(len(H) == 5, "dynamic copy of a fixed array has its size");
   VP_FORALL(k, 0, 5) { vp_check(vp_same(H.un(k).val(), G.un(k).val()), "dynamic copy of a fixed array has its elements"); }
}
VP_HARNESS(fixed2_from_dynamic) {
   long r = vp_ext("r", 0), c = vp_ext("c", 0);
   vp_assume((r == 0) == (c == 0));
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   VP_TRY(rej, {
      FixedArray2D<double, 2, 3> F(A);
      for(long i = 0; i < 2; ++i)
         for(long j = 0; j < 3; ++j) vp_check(vp_same(F.un(i, j).val(), d(i, j)), "fixed copy has the source's elements");
   });
   vp_check(rej == !(r == 2 && c == 3), "rejected iff the shape differs from the fixed shape");
   double x = vp_f64("x");
   FixedArray2D<double, 2, 3> G(Strict{x});
   VP_TRY(rej2, G = A);
   vp_check(rej2 == !(r == 2 && c == 3), "assignment rejected iff the shape differs from the fixed shape");
   if(rej2) check_all(G, 6, x, "elements unchanged when rejected");
}
// ---- shape invariant over histories
VP_BOUNDED(histories) {
   long steps = vp_small("steps", 1, 12);
   Array2D<double> A, B;
   std::vector<std::vector<double>> a, b;
   auto inv = [](const Array2D<double>& X, const std::vector<std::vector<double>>& x) {
      long r = long(x.size()), c = r ? long(x[0].size()) : 0;
      vp_check(X.rows().val() == r && X.cols().val() == c && len(X) == r * c, "shape as in the model");
      for(long i = 0; i < r; ++i)
         for(long j = 0; j < c; ++j) vp_check(vp_same(X.un(i, j).val(), x[size_t(i)][size_t(j)]), "elements as in the model");
   };
   for(long s = 0; s < steps; ++s) {
      long op = vp_small("op", 0, 6), r = vp_small("r", 0, 4), c = vp_small("c", 0, 4);
      double x = vp_f64("x");
      if(op == 0) {
         bool ok = (r == 0) == (c == 0);
         VP_TRY(rej, { Array2D<double> T(r, c, Strict{x}); A.swap(T); });
         vp_check(rej == !ok, "construction rejected iff one extent is zero");
         if(ok) a.assign(size_t(r), std::vector<double>(size_t(c), x));
      } else if(op == 1) {
         bool ok = a.size() == b.size() && (a.empty() || a[0].size() == b[0].size());
         VP_TRY(rej, A = B);
         vp_check(rej == !ok, "assignment rejected iff the shapes differ");
         if(ok) a = b;
      } else if(op == 2) {
         A.swap(B);
         a.swap(b);
      } else if(op == 3) {
         Array2D<double> T(std::move(A));
         inv(A, {});
         A.resize_and_assign(std::move(T));
         inv(T, {});
      } else if(op == 4) {
         if(a.size() == b.size() && (a.empty() || a[0].size() == b[0].size())) {
            A = std::move(B);
            a = b;
            b.clear();
         }
      } else if(op == 5) {
         B.resize_and_assign(A);
         b = a;
      } else {
         for(auto& v : a)
            for(auto& y : v) y = x;
         A = Strict{x};
      }
      inv(A, a);
      inv(B, b);
   }
}

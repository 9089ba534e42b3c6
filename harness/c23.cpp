#include "vp.hpp"
// raw storage: data(), blas_data(), blas_array, alignment
#define AT "the k-th entry of the storage is the k-th element in row-major order"
#define NUL "null exactly if the array is empty"
#define ALN "storage honours the alignment of the type"
#define WR "writing through the storage changes exactly the corresponding element"
#define CPY "the copy has exactly the elements in order"
static long vp_shape(const char* rn, const char* cn, long& c) {
   long r = vp_ext(rn, 0);
   c = vp_ext(cn, 0);
   vp_assume((r == 0) == (c == 0));
   return r;
}
template <AlignmentFlag AF, typename T>
static Array1D<T, AF> mka(const In<T>& d) {
   Array1D<T, AF> A(d.n);
   for(long i = 0; i < d.n; ++i) A.un(i) = Strict<T>{d.a[i]};
   return A;
}
template <AlignmentFlag AF, typename T>
static Array2D<T, AF> mka2(const In2<T>& d) {
   Array2D<T, AF> A(d.r, d.c);
   for(long k = 0; k < d.n; ++k) A.un(k) = Strict<T>{d.a[k]};
   return A;
}
template <AlignmentFlag AF>
static constexpr long want = AF == Aligned ? 64 : 8;
// storage of A holds g(0), ..., g(n - 1)
template <AlignmentFlag AF, typename A, typename G>
static void holds(A& X, long n, G g) {
   const A& C = X;
   vp_check((X.data() == nullptr) == (n == 0) && (C.data() == nullptr) == (n == 0), NUL);
   vp_check((X.blas_data() == nullptr) == (n == 0) && (C.blas_data() == nullptr) == (n == 0), NUL);
   if(n > 0) {
      vp_check(C.data() == X.data() && (const void*)C.blas_data() == (const void*)X.data() && (const void*)X.blas_data() == (const void*)X.data(), AT);
      if(sizeof(*X.blas_data()) == 8 || AF == Aligned) vp_check(vp_align(X.data()) >= want<AF>, ALN);
   }
   VP_FORALL(k, 0, n) {
      vp_check(vp_same(X.data()[k].val(), g(k)) && vp_same(C.data()[k].val(), g(k)), AT);
      vp_check(vp_same(X.blas_data()[k], g(k)) && vp_same(C.blas_data()[k], g(k)), AT);
      vp_check(&X.data()[k] == &X.un(k), AT);
   }
}
template <AlignmentFlag AF, typename T>
static void one() {
   In<T> d(vp_size("n", 0), "a");
   auto A = mka<AF>(d);
   holds<AF>(A, d.n, [&](long k) { return d[k]; });
   vp_check(A.alignment() == (AF == Aligned ? 64 : 0), ALN);
}
template <AlignmentFlag AF, typename T>
static void two() {
   long c, r = vp_shape("r", "c", c);
   In2<T> d(r, c, "a");
   auto A = mka2<AF>(d);
   holds<AF>(A, d.n, [&](long k) { return d[k]; });
   VP_FORALL(i, 0, r) {
      VP_FORALL(j, 0, c) { vp_check(vp_same(A.blas_data()[i * c + j], A.un(i, j).val()) && &A.data()[i * c + j] == &A.un(i, j), AT); }
   }
}
template <AlignmentFlag AF, typename T>
static void wr() {
   In<T> d(vp_size("n", 1), "a");
   auto A = mka<AF>(d);
   long p = vp_int("p", 0, d.n - 1), q = vp_int("q", 0, d.n - 1);
   T x = vp_val<T>("x"), y = vp_val<T>("y");
   A.data()[p] = Strict<T>{x};
   A.blas_data()[q] = y;
   vp_check(len(A) == d.n, WR);
   VP_FORALL(k, 0, d.n) { vp_check(vp_same(A.un(k).val(), k == q ? y : k == p ? x : d[k]), WR); }
}
template <AlignmentFlag AF, typename T>
static void wr2() {
   In2<T> d(vp_ext("r", 1), vp_ext("c", 1), "a");
   auto A = mka2<AF>(d);
   long p = vp_int("p", 0, d.r - 1), q = vp_int("q", 0, d.c - 1);
   T x = vp_val<T>("x");
   A.blas_data()[p * d.c + q] = x;
   VP_FORALL(i, 0, d.r) {
      VP_FORALL(j, 0, d.c) { vp_check(vp_same(A.un(i, j).val(), i == p && j == q ? x : d(i, j)), WR); }
   }
}
#define PER(T, s)                                                           \
   VP_HARNESS(storage_##s) { one<Unaligned, T>(); }                         \
   VP_HARNESS(storage_aligned_##s) { one<Aligned, T>(); }                   \
   VP_HARNESS(storage_2d_##s) { two<Unaligned, T>(); }                      \
   VP_HARNESS(storage_2d_aligned_##s) { two<Aligned, T>(); }                \
   VP_HARNESS(write_##s) { wr<Unaligned, T>(); }                            \
   VP_HARNESS(write_aligned_##s) { wr<Aligned, T>(); }                      \
   VP_HARNESS(write_2d_##s) { wr2<Unaligned, T>(); }                        \
   VP_HARNESS(write_2d_aligned_##s) { wr2<Aligned, T>(); }
PER(double, f64)
PER(long, i64)
PER(float, f32)
PER(int, i32)
// ---- fixed arrays
template <AlignmentFlag AF, typename T>
static void fixed() {
   In<T> d(5, "a");
   FixedArray1D<T, 5, AF> A;
   for(long k = 0; k < 5; ++k) A.un(k) = Strict<T>{d[k]};
   holds<AF>(A, 5, [&](long k) { return d[k]; });
   In2<T> e(2, 3, "b");
   FixedArray2D<T, 2, 3, AF> B;
   for(long k = 0; k < 6; ++k) B.un(k) = Strict<T>{e[k]};
   holds<AF>(B, 6, [&](long k) { return e[k]; });
   long p = vp_int("p", 0, 4);
   T x = vp_val<T>("x");
   A.blas_data()[p] = x;
   for(long k = 0; k < 5; ++k) vp_check(vp_same(A.un(k).val(), k == p ? x : d[k]), WR);
}
VP_HARNESS(fixed_f64) { fixed<Unaligned, double>(); }
VP_HARNESS(fixed_aligned_f64) { fixed<Aligned, double>(); }
VP_HARNESS(fixed_i32) { fixed<Unaligned, int>(); }
VP_HARNESS(fixed_aligned_i32) { fixed<Aligned, int>(); }
// ---- storage after operations that reallocate or exchange it
#define AFTER1(nm, n2, G, ...)                                   \
   template <AlignmentFlag AF>                                   \
   static void nm##_t() {                                        \
      In<double> d(vp_size("n", 0), "a"), e(vp_size("m", 0), "b"); \
      auto A = mka<AF>(d), B = mka<AF>(e);                       \
      long p = vp_size("p", 0);                                  \
      double x = vp_f64("x");                                    \
      (void)p, (void)x;                                          \
      __VA_ARGS__;                                               \
      holds<AF>(A, n2, [&](long k) { return G; });               \
   }                                                             \
   VP_HARNESS(nm) { nm##_t<Unaligned>(); }                       \
   VP_HARNESS(nm##_aligned) { nm##_t<Aligned>(); }
AFTER1(after_resize, p, k < d.n ? d[k] : A.un(k).val(), A.resize(p))
AFTER1(after_resize_and_assign, e.n, e[k], A.resize_and_assign(B))
AFTER1(after_resize_and_assign_expr, e.n, e[k] + e[k], A.resize_and_assign(B + B))
AFTER1(after_swap, e.n, e[k], A.swap(B); holds<AF>(B, d.n, [&](long k) { return d[k]; }))
AFTER1(after_move, e.n, e[k], vp_assume(e.n == d.n); A = std::move(B))
AFTER1(after_insert_back, d.n + 1, k < d.n ? d[k] : x, A.insert_back(Strict{x}))
AFTER1(after_insert, d.n + 1, k < p ? d[k] : k == p ? x : d[k - 1], vp_assume(p <= d.n); A.insert(p, Strict{x}))
AFTER1(after_remove, d.n - 1, k < p ? d[k] : d[k + 1], vp_assume(p < d.n); A.remove(p))
AFTER1(after_copy, e.n, e[k], auto C = B; A.swap(C))
AFTER1(after_resize_from_empty, p, A.un(k).val(), A.resize(0); A.resize(p, false))
#define AFTER2(nm, R2, C2, G, ...)                                                          \
   template <AlignmentFlag AF>                                                              \
   static void nm##_t() {                                                                   \
      long c, e, r = vp_shape("r", "c", c), s = vp_shape("s", "e", e);                      \
      In2<double> d(r, c, "a"), f(s, e, "b");                                               \
      auto A = mka2<AF>(d), B = mka2<AF>(f);                                                \
      __VA_ARGS__;                                                                          \
      holds<AF>(A, (R2) * (C2), [&](long k) { return G; });                                 \
   }                                                                                        \
   VP_HARNESS(nm) { nm##_t<Unaligned>(); }                                                  \
   VP_HARNESS(nm##_aligned) { nm##_t<Aligned>(); }
AFTER2(after_resize_2d, s, e, A.un(k).val(), A.resize(s, e, false))
AFTER2(after_resize_and_assign_2d, s, e, f[k], A.resize_and_assign(B))
AFTER2(after_swap_2d, s, e, f[k], A.swap(B); holds<AF>(B, r * c, [&](long k) { return d[k]; }))
AFTER2(after_move_2d, s, e, f[k], vp_assume(r == s && c == e); A = std::move(B))
AFTER2(after_copy_2d, s, e, f[k], auto C = B; A.swap(C))
// ---- copies
template <typename T, typename A, typename G>
static void blas_is(const A& X, long n, G g) {
   auto p = blas_array(X);
   vp_check((p.get() == nullptr) == (n == 0), NUL);
   VP_FORALL(k, 0, n) { vp_check(vp_same(p[std::size_t(k)], T(g(k))), CPY); }
}
template <typename T>
static void copy1() {
   In<T> d(vp_size("n", 0), "a");
   Array1D<T> A = mk(d);
   blas_is<T>(A, d.n, [&](long k) { return d[k]; });
   check_is(A, d, "the argument is unchanged", "the argument is unchanged");
}
VP_HARNESS(blas_array_f64) { copy1<double>(); }
VP_HARNESS(blas_array_f32) { copy1<float>(); }
VP_HARNESS(blas_array_i64) { copy1<long>(); }
VP_HARNESS(blas_array_i32) { copy1<int>(); }
VP_HARNESS(blas_array_2d) {
   long c, r = vp_shape("r", "c", c);
   In2<double> d(r, c, "a");
   Array2D<double> A = mk(d);
   blas_is<double>(A, d.n, [&](long k) { return d[k]; });
}
VP_HARNESS(blas_array_view) {
   In<double> d(vp_size("n", 0), "a");
   Array1D<double> A = mk(d);
   blas_is<double>(A(place::reverse), d.n, [&](long k) { return d[d.n - 1 - k]; });
   blas_is<double>(A(place::odd), d.n / 2, [&](long k) { return d[2 * k + 1]; });
}
VP_HARNESS(blas_array_row) {
   In2<double> d(vp_ext("r", 1), vp_ext("c", 1), "a");
   Array2D<double> A = mk(d);
   long p = vp_int("p", 0, d.r - 1), q = vp_int("q", 0, d.c - 1);
   blas_is<double>(A.row(p), d.c, [&](long k) { return d(p, k); });
   blas_is<double>(A.col(q), d.r, [&](long k) { return d(k, q); });
}
VP_HARNESS(blas_array_expr) {
   In<double> d(vp_size("n", 0), "a");
   Array1D<double> A = mk(d);
   blas_is<double>(A * A, d.n, [&](long k) { return d[k] * d[k]; });
}
VP_HARNESS(blas_array_fixed) {
   In<double> d(4, "a");
   FixedArray1D<double, 4> A;
   for(long k = 0; k < 4; ++k) A.un(k) = Strict{d[k]};
   blas_is<double>(A, 4, [&](long k) { return d[k]; });
}

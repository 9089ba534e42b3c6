#include "vp.hpp"
// element-wise expressions and compound assignments

// f(A, B) element k is g(a[k], b[k]); other extents rejected
template <typename T, typename F, typename G>
static void bin(const In<T>& a, const In<T>& b, F f, G g) {
   Array1D<T> A = mk(a), B = mk(b);
   VP_TRY(rej, {
      auto E = f(A, B);
      vp_check(len(E) == a.n, "expression has the extent of its operands");
      VP_FORALL(k, 0, a.n) {
         vp_check(vp_same(E.un(k).val(), g(a[k], b[k])), "element k is the operation on the elements at k, operands in order");
      }
   });
   vp_check(rej == (a.n != b.n), "rejected iff the extents differ");
}
template <typename T, typename F, typename G>
static void bin2(const In2<T>& a, const In2<T>& b, F f, G g) {
   Array2D<T> A = mk(a), B = mk(b);
   VP_TRY(rej, {
      auto E = f(A, B);
      vp_check(E.rows().val() == a.r && E.cols().val() == a.c && len(E) == a.n, "expression has the extents of its operands");
      VP_FORALL(i, 0, a.r) {
         VP_FORALL(j, 0, a.c) {
            vp_check(vp_same(E.un(i, j).val(), g(a(i, j), b(i, j))), "element (i, j) is the operation on the elements at (i, j)");
         }
      }
      VP_FORALL(k, 0, a.n) {
         vp_check(vp_same(E.un(k).val(), g(a[k], b[k])), "linear element k is the operation on the elements at k");
      }
   });
   vp_check(rej == (a.r != b.r || a.c != b.c), "rejected iff the extents differ");
}
template <typename T, typename F, typename G>
static void scal(const In<T>& a, T x, F f, G g, bool left) {
   Array1D<T> A = mk(a);
   if(left) {
      auto E = f(Strict<T>{x}, A);
      vp_check(len(E) == a.n, "expression has the extent of the array");
      VP_FORALL(k, 0, a.n) { vp_check(vp_same(E.un(k).val(), g(x, a[k])), "element k is the operation on scalar and element k"); }
   } else {
      auto E = f(A, Strict<T>{x});
      vp_check(len(E) == a.n, "expression has the extent of the array");
      VP_FORALL(k, 0, a.n) { vp_check(vp_same(E.un(k).val(), g(a[k], x)), "element k is the operation on element k and scalar"); }
   }
}
template <typename T, typename F, typename G>
static void scal2(const In2<T>& a, T x, F f, G g, bool left) {
   Array2D<T> A = mk(a);
   auto chk = [&](auto const& E, auto ref) {
      vp_check(E.rows().val() == a.r && E.cols().val() == a.c && len(E) == a.n, "expression has the extents of the array");
      VP_FORALL(i, 0, a.r) {
         VP_FORALL(j, 0, a.c) { vp_check(vp_same(E.un(i, j).val(), ref(a(i, j))), "element (i, j) is the operation on scalar and element"); }
      }
      VP_FORALL(k, 0, a.n) { vp_check(vp_same(E.un(k).val(), ref(a[k])), "linear element k is the operation on scalar and element"); }
   };
   if(left) chk(f(Strict<T>{x}, A), [&](T y) { return g(x, y); });
   else chk(f(A, Strict<T>{x}), [&](T y) { return g(y, x); });
}
// the three forms of one operator over values from [alo, ahi] and [blo, bhi]
template <typename T, typename F, typename G>
static void forms(F f, G g, long alo, long ahi, long blo, long bhi, int form) {
   if(form == 0) {
      long n = vp_size("n", 0), m = vp_size("m", 0);
      bin<T>(In<T>(n, "a", alo, ahi), In<T>(m, "b", blo, bhi), f, g);
   } else if(form == 1) {
      long n = vp_size("n", 0);
      In<T> b(n, "b", blo, bhi);
      scal<T>(b, T(vp_int("x", alo, ahi)), f, g, true);
   } else {
      long n = vp_size("n", 0);
      In<T> a(n, "a", alo, ahi);
      scal<T>(a, T(vp_int("x", blo, bhi)), f, g, false);
   }
}
template <typename T, typename F, typename G>
static void fforms(F f, G g, int form) {
   if(form == 0) {
      long n = vp_size("n", 0), m = vp_size("m", 0);
      bin<T>(In<T>(n, "a"), In<T>(m, "b"), f, g);
   } else {
      long n = vp_size("n", 0);
      In<T> a(n, "a");
      scal<T>(a, vp_val<T>("x"), f, g, form == 1);
   }
}
#define FOP(nm, T, op)                                                                                    \
   VP_HARNESS(nm##_aa) { fforms<T>([](auto&& x, auto&& y) { return x op y; }, [](T x, T y) { return T(x op y); }, 0); } \
   VP_HARNESS(nm##_sa) { fforms<T>([](auto&& x, auto&& y) { return x op y; }, [](T x, T y) { return T(x op y); }, 1); } \
   VP_HARNESS(nm##_as) { fforms<T>([](auto&& x, auto&& y) { return x op y; }, [](T x, T y) { return T(x op y); }, 2); }
#define IOP(nm, T, op, alo, ahi, blo, bhi)                                                                                                   \
   VP_HARNESS(nm##_aa) { forms<T>([](auto&& x, auto&& y) { return x op y; }, [](T x, T y) { return T(x op y); }, alo, ahi, blo, bhi, 0); } \
   VP_HARNESS(nm##_sa) { forms<T>([](auto&& x, auto&& y) { return x op y; }, [](T x, T y) { return T(x op y); }, alo, ahi, blo, bhi, 1); } \
   VP_HARNESS(nm##_as) { forms<T>([](auto&& x, auto&& y) { return x op y; }, [](T x, T y) { return T(x op y); }, alo, ahi, blo, bhi, 2); }
FOP(add_f64, double, +)
FOP(sub_f64, double, -)
FOP(mul_f64, double, *)
FOP(div_f64, double, /)
FOP(sub_f32, float, -)
IOP(add_i64, long, +, VP_MIN, VP_MAX - 1, VP_MIN, VP_MAX - 1)
IOP(sub_i64, long, -, VP_MIN, VP_MAX - 1, VP_MIN, VP_MAX - 1)
IOP(mul_i32, int, *, -30000, 30000, -30000, 30000)
IOP(div_i64, long, /, VP_MIN, VP_MAX, 1, VP_MAX)
IOP(divn_i64, long, /, VP_MIN, VP_MAX, VP_MIN, -1)
IOP(mod_i64, long, %, VP_MIN, VP_MAX, 1, VP_MAX)
IOP(modn_i64, long, %, VP_MIN, VP_MAX, VP_MIN, -1)
IOP(shl_i64, long, <<, 0, 1000000, 0, 40)
IOP(shr_i64, long, >>, 0, VP_MAX, 0, 63)
IOP(and_i64, long, &, VP_MIN, VP_MAX, VP_MIN, VP_MAX)
IOP(or_i64, long, |, VP_MIN, VP_MAX, VP_MIN, VP_MAX)
IOP(xor_i64, long, ^, VP_MIN, VP_MAX, VP_MIN, VP_MAX)
FOP(and_bool, bool, &&)
FOP(or_bool, bool, ||)
FOP(xor_bool, bool, ^)
VP_HARNESS(div_by_zero_element) {
   long n = vp_size("n", 0);
   In<long> a(n, "a"), b(n, "b");
   Array1D<long> A = mk(a), B = mk(b);
   auto E = A / B;
   auto F = A % B;
   VP_FORALL(k, 0, n) {
      long q = 0, r = 0;
      VP_TRY(rej, q = E.un(k).val());
      VP_TRY(rej2, r = F.un(k).val());
      vp_check(rej == (b[k] == 0) && rej2 == (b[k] == 0), "integer division or modulo by a zero element is rejected");
      if(b[k] != 0) vp_check(q == a[k] / b[k] && r == a[k] % b[k], "element k is the operation on the elements at k, operands in order");
   }
}
// ---- 2-D
static long vp_shape(const char* rn, const char* cn, long& c) {
   long r = vp_ext(rn, 0);
   c = vp_ext(cn, 0);
   vp_assume((r == 0) == (c == 0));
   return r;
}
template <typename T, typename F, typename G>
static void ff2(F f, G g) {
   long c, e, r = vp_shape("r", "c", c), s = vp_shape("s", "e", e);
   bin2<T>(In2<T>(r, c, "a"), In2<T>(s, e, "b"), f, g);
}
template <typename T, typename F, typename G>
static void fs2(F f, G g, bool left) {
   long c, r = vp_shape("r", "c", c);
   In2<T> a(r, c, "a");
   scal2<T>(a, vp_val<T>("x"), f, g, left);
}
VP_HARNESS(sub2_f64) { ff2<double>([](auto&& x, auto&& y) { return x - y; }, [](double x, double y) { return x - y; }); }
VP_HARNESS(div2_f64) { ff2<double>([](auto&& x, auto&& y) { return x / y; }, [](double x, double y) { return x / y; }); }
VP_HARNESS(add2_f64) { ff2<double>([](auto&& x, auto&& y) { return x + y; }, [](double x, double y) { return x + y; }); }
VP_HARNESS(mul2_f64) { ff2<double>([](auto&& x, auto&& y) { return x * y; }, [](double x, double y) { return x * y; }); }
VP_HARNESS(and2_bool) { ff2<bool>([](auto&& x, auto&& y) { return x && y; }, [](bool x, bool y) { return x && y; }); }
VP_HARNESS(xor2_i64) { ff2<long>([](auto&& x, auto&& y) { return x ^ y; }, [](long x, long y) { return x ^ y; }); }
VP_HARNESS(sub2_left) { fs2<double>([](auto&& x, auto&& y) { return x - y; }, [](double x, double y) { return x - y; }, true); }
VP_HARNESS(div2_right) { fs2<double>([](auto&& x, auto&& y) { return x / y; }, [](double x, double y) { return x / y; }, false); }
// ---- unary
template <typename T, typename F, typename G>
static void un(const In<T>& a, F f, G g) {
   Array1D<T> A = mk(a);
   auto E = f(A);
   vp_check(len(E) == a.n, "expression has the extent of its operand");
   VP_FORALL(k, 0, a.n) { vp_check(vp_same(E.un(k).val(), g(a[k])), "element k is the operation on element k"); }
}
template <typename T, typename F, typename G>
static void un1(F f, G g) {
   long n = vp_size("n", 0);
   un<T>(In<T>(n, "a"), f, g);
}
template <typename F, typename G>
static void un2(F f, G g) {
   long c, r = vp_shape("r", "c", c);
   In2<double> a(r, c, "a");
   Array2D<double> A = mk(a);
   auto E = f(A);
   vp_check(E.rows().val() == r && E.cols().val() == c && len(E) == a.n, "expression has the extents of its operand");
   VP_FORALL(i, 0, r) {
      VP_FORALL(j, 0, c) { vp_check(vp_same(E.un(i, j).val(), g(a(i, j))), "element (i, j) is the operation on element (i, j)"); }
   }
   VP_FORALL(k, 0, a.n) { vp_check(vp_same(E.un(k).val(), g(a[k])), "linear element k is the operation on element k"); }
}
VP_HARNESS(plus_f64) { un1<double>([](auto& A) { return +A; }, [](double x) { return +x; }); }
VP_HARNESS(minus_f64) { un1<double>([](auto& A) { return -A; }, [](double x) { return -x; }); }
VP_HARNESS(minus_i64) { un1<long>([](auto& A) { return -A; }, [](long x) { return -x; }); }
VP_HARNESS(not_i64) { un1<long>([](auto& A) { return ~A; }, [](long x) { return ~x; }); }
VP_HARNESS(not_bool) { un1<bool>([](auto& A) { return !A; }, [](bool x) { return !x; }); }
VP_HARNESS(abs_i64) { un1<long>([](auto& A) { return abs(A); }, [](long x) { return x < 0 ? -x : x; }); }
VP_HARNESS(inv_f64) { un1<double>([](auto& A) { return inv(A); }, [](double x) { return 1. / x; }); }
VP_HARNESS(minus2) { un2([](auto& A) { return -A; }, [](double x) { return -x; }); }
VP_HARNESS(inv2) { un2([](auto& A) { return inv(A); }, [](double x) { return 1. / x; }); }
template <typename T, typename U, typename G>
static void cast(G g) {
   long n = vp_size("n", 0);
   In<T> a(n, "a");
   Array1D<T> A = mk(a);
   auto E = array_cast<U>(A);
   vp_check(len(E) == n, "expression has the extent of its operand");
   VP_FORALL(k, 0, n) { vp_check(vp_same(E.un(k).val(), g(a[k])), "element k is the conversion of element k"); }
}
VP_HARNESS(cast_i64_bool) { cast<long, bool>([](long x) { return x != 0; }); }
VP_HARNESS(cast_i32_i64) { cast<int, long>([](int x) { return long(x); }); }
VP_HARNESS(cast_bool_i64) { cast<bool, long>([](bool x) { return x ? 1L : 0L; }); }
VP_HARNESS(cast_i64_i32) { cast<long, int>([](long x) { return int(x); }); }
VP_HARNESS(cast_i64_f64) { cast<long, double>([](long x) { return double(x); }); }
VP_HARNESS(cast_f32_f64) { cast<float, double>([](float x) { return double(x); }); }
VP_HARNESS(cast_f64_f32) { cast<double, float>([](double x) { return float(x); }); }
VP_BOUNDED(math_functions) {
   long n = vp_small("n", 0, 6);
   In<double> a(n, "a");
   double p = vp_f64("p");
   long q = vp_int("q", -20, 20);
   Array1D<double> A = mk(a);
   auto chk = [&](auto const& E, auto g) {
      vp_check(len(E) == n, "expression has the extent of its operand");
      for(long k = 0; k < n; ++k) vp_check(vp_same(E.un(k).val(), g(a[k])), "element k is the operation on element k");
   };
   for(long k = 0; k < n; ++k) {
      double v = abs(A).un(k).val();  // the sign of a zero result is not part of the statement
      vp_check(v == std::fabs(a[k]) || (std::isnan(v) && std::isnan(a[k])), "element k is the operation on element k");
   }
   chk(exp(A), [](double x) { return std::exp(x); });
   chk(log(A), [](double x) { return std::log(x); });
   chk(log2(A), [](double x) { return std::log2(x); });
   chk(log10(A), [](double x) { return std::log10(x); });
   chk(sqrt(A), [](double x) { return std::sqrt(x); });
   chk(cbrt(A), [](double x) { return std::cbrt(x); });
   chk(sin(A), [](double x) { return std::sin(x); });
   chk(cos(A), [](double x) { return std::cos(x); });
   chk(tan(A), [](double x) { return std::tan(x); });
   chk(pow(A, Strict{p}), [&](double x) { return std::pow(x, p); });
   chk(pow_int(A, q), [&](double x) { return std::pow(x, double(q)); });
   chk(fast_pow_int(A, q), [&](double x) { return fast_pows_int(Strict{x}, q).val(); });
}
VP_BOUNDED(two_prod_pow_prod_arrays) {
   long n = vp_small("n", 0, 6), m = vp_small("m", 0, 6);
   In<double> a(n, "a"), b(m, "b");
   In<long> e(m, "e", 0, 9);
   Array1D<double> A = mk(a), B = mk(b);
   Array1D<long> K = mk(e);
   VP_TRY(rej, {
      auto [p, s] = two_prod(A, B);
      for(long k = 0; k < n; ++k) {
         auto [x, y] = two_prods(Strict{a[k]}, Strict{b[k]});
         vp_check(vp_same(p.un(k), x) && vp_same(s.un(k), y), "element k is the operation on element k");
      }
   });
   VP_TRY(rej2, {
      auto [p, s] = pow_prod(A, K);
      for(long k = 0; k < n; ++k) {
         auto [x, y] = pow_prods(Strict{a[k]}, e[k]);
         vp_check(vp_same(p.un(k), x) && vp_same(s.un(k), y), "element k is the operation on element k");
      }
   });
   vp_check(rej == (n != m) && rej2 == (n != m), "rejected iff the extents differ");
}
// ---- user functions, nesting, views
VP_HARNESS(generate_unary) {
   un1<double>([](auto& A) { return generate(A, [](Strict<double> x) { return x * x + x; }); }, [](double x) { return x * x + x; });
}
VP_HARNESS(generate_binary) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   bin<double>(In<double>(n, "a"), In<double>(m, "b"),
               [](auto& A, auto& B) { return generate(A, B, [](Strict<double> x, Strict<double> y) { return x - y * y; }); },
               [](double x, double y) { return x - y * y; });
}
VP_HARNESS(nested) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> a(n, "a"), b(m, "b");
   Array1D<double> A = mk(a), B = mk(b);
   double x = vp_f64("x");
   VP_TRY(rej, {
      auto E = (A - B) * (Strict{x} / A) - -B;
      vp_check(len(E) == n, "nested expression has the extent of its operands");
      VP_FORALL(k, 0, n) {
         vp_check(vp_same(E.un(k).val(), (a[k] - b[k]) * (x / a[k]) - -b[k]), "element k of a nested expression");
      }
   });
   vp_check(rej == (n != m), "rejected iff the extents differ");
}
VP_HARNESS(views_reverse) {
   long n = vp_size("n", 0);
   In<double> a(n, "a"), b(n, "b");
   Array1D<double> A = mk(a), B = mk(b);
   auto E = A(place::reverse) - B(place::all);
   VP_FORALL(k, 0, n) { vp_check(vp_same(E.un(k).val(), a[n - 1 - k] - b[k]), "element k of an expression over views"); }
}
VP_HARNESS(slice_of_expr) {
   long n = vp_size("n", 0);
   In<double> a(n, "a"), b(n, "b");
   Array1D<double> A = mk(a), B = mk(b);
   auto E = (A * B)(place::reverse);
   vp_check(len(E) == n, "slice of an expression has the described size");
   VP_FORALL(k, 0, n) { vp_check(vp_same(E.un(k).val(), a[n - 1 - k] * b[n - 1 - k]), "element k of a slice of an expression"); }
}
VP_HARNESS(expr_rows) {
   long c, r = vp_shape("r", "c", c);
   In2<double> a(r, c, "a"), b(r, c, "b");
   Array2D<double> A = mk(a), B = mk(b);
   long i = vp_int("i", 0, VP_EMAX);
   vp_assume(i < r);
   auto E = (A - B).row(i);
   vp_check(len(E) == c, "row of an expression has the width");
   VP_FORALL(k, 0, c) { vp_check(vp_same(E.un(k).val(), a(i, k) - b(i, k)), "element k of a row of an expression"); }
}
// lazily: the expression sees later writes to its array operands (stored by reference), extents fixed
VP_HARNESS(lazy_reference) {
   long n = vp_size("n", 1);
   In<double> a(n, "a"), b(n, "b");
   Array1D<double> A = mk(a), B = mk(b);
   auto E = A + B;
   double x = vp_f64("x");
   long w = vp_int("w", 0, VP_MAX);
   vp_assume(w < n);
   A.un(w) = Strict{x};
   VP_FORALL(k, 0, n) { vp_check(vp_same(E.un(k).val(), (k == w ? x : a[k]) + b[k]), "element k is computed from the operands at k"); }
}
// ---- compound assignment
template <typename T, typename F, typename G>
static void cscal(const In<T>& a, T x, F f, G g) {
   Array1D<T> A = mk(a);
   f(A, Strict<T>{x});
   vp_check(len(A) == a.n, "size unchanged by a compound assignment");
   VP_FORALL(k, 0, a.n) { vp_check(vp_same(A.un(k).val(), g(a[k], x)), "every element updated to exactly that value"); }
}
template <typename T, typename F, typename G>
static void carr(const In<T>& a, const In<T>& b, F f, G g) {
   Array1D<T> A = mk(a), B = mk(b);
   VP_TRY(rej, f(A, B));
   vp_check(rej == (a.n != b.n), "rejected iff the extents differ");
   if(rej) check_is(A, a, "size unchanged when rejected", "elements unchanged when rejected");
   else {
      vp_check(len(A) == a.n, "size unchanged by a compound assignment");
      VP_FORALL(k, 0, a.n) { vp_check(vp_same(A.un(k).val(), g(a[k], b[k])), "every element updated to exactly that value"); }
   }
   check_is(B, b, "source unchanged", "source unchanged");
}
#define CF(nm, T, op, opeq)                                                            \
   VP_HARNESS(nm##_s) {                                                                \
      long n = vp_size("n", 0);                                                        \
      cscal<T>(In<T>(n, "a"), vp_val<T>("x"), [](auto& A, auto x) { A opeq x; }, [](T x, T y) { return T(x op y); }); \
   }                                                                                   \
   VP_HARNESS(nm##_a) {                                                                \
      long n = vp_size("n", 0), m = vp_size("m", 0);                                   \
      carr<T>(In<T>(n, "a"), In<T>(m, "b"), [](auto& A, auto& B) { A opeq B; }, [](T x, T y) { return T(x op y); }); \
   }
#define CI(nm, T, op, opeq, alo, ahi, blo, bhi)                                        \
   VP_HARNESS(nm##_s) {                                                                \
      long n = vp_size("n", 0);                                                        \
      cscal<T>(In<T>(n, "a", alo, ahi), T(vp_int("x", blo, bhi)), [](auto& A, auto x) { A opeq x; }, [](T x, T y) { return T(x op y); }); \
   }                                                                                   \
   VP_HARNESS(nm##_a) {                                                                \
      long n = vp_size("n", 0), m = vp_size("m", 0);                                   \
      carr<T>(In<T>(n, "a", alo, ahi), In<T>(m, "b", blo, bhi), [](auto& A, auto& B) { A opeq B; }, [](T x, T y) { return T(x op y); }); \
   }
CF(cadd_f64, double, +, +=)
CF(csub_f64, double, -, -=)
CF(cmul_f64, double, *, *=)
CF(cdiv_f64, double, /, /=)
CI(cadd_i64, long, +, +=, VP_MIN, VP_MAX - 1, VP_MIN, VP_MAX - 1)
CI(csub_i64, long, -, -=, VP_MIN, VP_MAX - 1, VP_MIN, VP_MAX - 1)
CI(cmul_i32, int, *, *=, -30000, 30000, -30000, 30000)
CI(cdiv_i64, long, /, /=, VP_MIN, VP_MAX, 1, VP_MAX)
CI(cmod_i64, long, %, %=, VP_MIN, VP_MAX, 1, VP_MAX)
CI(cshl_i64, long, <<, <<=, 0, 1000000, 0, 40)
CI(cshr_i64, long, >>, >>=, 0, VP_MAX, 0, 63)
CI(cand_i64, long, &, &=, VP_MIN, VP_MAX, VP_MIN, VP_MAX)
CI(cor_i64, long, |, |=, VP_MIN, VP_MAX, VP_MIN, VP_MAX)
CI(cxor_i64, long, ^, ^=, VP_MIN, VP_MAX, VP_MIN, VP_MAX)
VP_HARNESS(compound_slice) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> a(n, "a"), b(m, "b");
   Array1D<double> A = mk(a), B = mk(b);
   VP_TRY(rej, A(place::even) -= B);
   vp_check(rej == (m != (n + 1) / 2), "rejected iff the extents differ");
   if(rej) check_is(A, a, "size unchanged when rejected", "elements unchanged when rejected");
   else
      VP_FORALL(k, 0, n) {
         vp_check(vp_same(A.un(k).val(), k % 2 == 0 ? a[k] - b[k / 2] : a[k]), "exactly the addressed elements updated");
      }
}
VP_HARNESS(compound_self) {
   long n = vp_size("n", 0);
   In<double> a(n, "a");
   Array1D<double> A = mk(a);
   A -= A;
   VP_FORALL(k, 0, n) { vp_check(vp_same(A.un(k).val(), a[k] - a[k]), "every element updated to exactly that value"); }
   Array1D<double> B = mk(a);
   B *= B + B;
   VP_FORALL(k, 0, n) { vp_check(vp_same(B.un(k).val(), a[k] * (a[k] + a[k])), "every element updated to exactly that value"); }
}
VP_HARNESS(compound2_array) {
   long c, e, r = vp_shape("r", "c", c), s = vp_shape("s", "e", e);
   In2<double> a(r, c, "a"), b(s, e, "b");
   Array2D<double> A = mk(a), B = mk(b);
   VP_TRY(rej, A /= B);
   vp_check(rej == (r != s || c != e), "rejected iff the extents differ");
   if(rej) check_is2(A, a, "extents unchanged when rejected", "elements unchanged when rejected");
   else {
      vp_check(A.rows().val() == r && A.cols().val() == c, "extents unchanged by a compound assignment");
      VP_FORALL(k, 0, a.n) { vp_check(vp_same(A.un(k).val(), a[k] / b[k]), "every element updated to exactly that value"); }
   }
}
VP_HARNESS(compound2_scalar) {
   long c, r = vp_shape("r", "c", c);
   In2<double> a(r, c, "a");
   Array2D<double> A = mk(a);
   double x = vp_f64("x");
   A -= Strict{x};
   vp_check(A.rows().val() == r && A.cols().val() == c, "extents unchanged by a compound assignment");
   VP_FORALL(k, 0, a.n) { vp_check(vp_same(A.un(k).val(), a[k] - x), "every element updated to exactly that value"); }
}
VP_HARNESS(compound_row) {
   long c, r = vp_shape("r", "c", c), m = vp_size("m", 0);
   In2<double> a(r, c, "a");
   In<double> b(m, "b");
   Array2D<double> A = mk(a);
   Array1D<double> B = mk(b);
   long i = vp_int("i", 0, VP_EMAX);
   vp_assume(i < r);
   VP_TRY(rej, A.row(i) += B);
   vp_check(rej == (m != c), "rejected iff the extents differ");
   VP_FORALL(p, 0, r) {
      VP_FORALL(q, 0, c) {
         vp_check(vp_same(A.un(p, q).val(), !rej && p == i ? a(p, q) + b[q] : a(p, q)), "exactly the addressed elements updated");
      }
   }
}

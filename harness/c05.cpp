#include "vp.hpp"
// 1-D insertion. ins(k) is the k-th inserted value, m their number.

template <typename T, typename G>
static void check_inserted(Array1D<T>& A, const In<T>& d, bool rej, bool ok, long pos, long m, G ins) {
   vp_check(rej == !ok, "rejected iff position outside 0..size");
   if(rej) {
      check_is(A, d, "size unchanged when rejected", "elements unchanged when rejected");
   } else {
      vp_check(len(A) == d.n + m, "size grows by the number of inserted elements");
      VP_FORALL(p, 0, d.n + m) {
         T want = p < pos ? d[p] : p < pos + m ? ins(p - pos) : d[p - m];
         vp_check(vp_same(A.un(p).val(), want), "old elements keep order around the inserted ones");
      }
   }
}
template <typename T, typename F>
static void value_at(F f) {
   long n = vp_size("n", 0);
   In<T> d(n, "a");
   Array1D<T> A = mk(d);
   long pos = vp_int("pos", VP_MIN, VP_MAX);
   T x = vp_val<T>("x");
   VP_TRY(rej, f(A, pos, Strict<T>{x}));
   check_inserted(A, d, rej, pos >= 0 && pos <= n, pos, 1, [&](long) { return x; });
}
VP_HARNESS(value_long) { value_at<long>([](auto& A, long p, auto x) { A.insert(p, x); }); }
VP_HARNESS(value_double) { value_at<double>([](auto& A, long p, auto x) { A.insert(p, x); }); }
VP_HARNESS(value_named) { value_at<double>([](auto& A, long p, auto x) { A.insert(Pos{Strict{p}}, Value{x}); }); }

template <typename T, typename F>
static void value_end(bool front, F f) {
   long n = vp_size("n", 0);
   In<T> d(n, "a");
   Array1D<T> A = mk(d);
   T x = vp_val<T>("x");
   VP_TRY(rej, f(A, Strict<T>{x}));
   check_inserted(A, d, rej, true, front ? 0 : n, 1, [&](long) { return x; });
}
VP_HARNESS(value_front) { value_end<long>(true, [](auto& A, auto x) { A.insert_front(x); }); }
VP_HARNESS(value_back) { value_end<long>(false, [](auto& A, auto x) { A.insert_back(x); }); }
VP_HARNESS(value_front_named) { value_end<int>(true, [](auto& A, auto x) { A.insert_front(Value{x}); }); }
VP_HARNESS(value_back_named) { value_end<int>(false, [](auto& A, auto x) { A.insert_back(Value{x}); }); }

template <typename T, typename F>
static void array_at(F f) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<T> d(n, "a"), e(m, "b");
   Array1D<T> A = mk(d), B = mk(e);
   long pos = vp_int("pos", VP_MIN, VP_MAX);
   VP_TRY(rej, f(A, pos, B));
   check_inserted(A, d, rej, pos >= 0 && pos <= n, pos, m, [&](long k) { return e[k]; });
}
VP_HARNESS(array_long) { array_at<long>([](auto& A, long p, auto& B) { A.insert(p, B); }); }
VP_HARNESS(array_double) { array_at<double>([](auto& A, long p, auto& B) { A.insert(p, B); }); }
VP_HARNESS(array_named) { array_at<long>([](auto& A, long p, auto& B) { A.insert(Pos{Strict{p}}, B); }); }
VP_HARNESS(view_of_other) { array_at<double>([](auto& A, long p, auto& B) { A.insert(p, B.view1D()); }); }
template <typename T, typename F>
static void array_end(bool front, F f) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<T> d(n, "a"), e(m, "b");
   Array1D<T> A = mk(d), B = mk(e);
   VP_TRY(rej, f(A, B));
   check_inserted(A, d, rej, true, front ? 0 : n, m, [&](long k) { return e[k]; });
}
VP_HARNESS(array_front) { array_end<double>(true, [](auto& A, auto& B) { A.insert_front(B); }); }
VP_HARNESS(array_back) { array_end<double>(false, [](auto& A, auto& B) { A.insert_back(B); }); }

// sources that read the array itself
template <typename F>
static void self_at(F f, bool rev) {
   long n = vp_size("n", 0);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   long pos = vp_int("pos", VP_MIN, VP_MAX);
   VP_TRY(rej, f(A, pos));
   check_inserted(A, d, rej, pos >= 0 && pos <= n, pos, n, [&](long k) { return rev ? d[n - 1 - k] : d[k]; });
}
VP_HARNESS(self_array) { self_at([](auto& A, long p) { A.insert(p, A); }, false); }
VP_HARNESS(self_view) { self_at([](auto& A, long p) { A.insert(p, A.view1D()); }, false); }
VP_HARNESS(self_reversed) { self_at([](auto& A, long p) { A.insert(p, A(place::reverse)); }, true); }
VP_HARNESS(self_front) {
   long n = vp_size("n", 0);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   VP_TRY(rej, A.insert_front(A(place::reverse)));
   check_inserted(A, d, rej, true, 0, n, [&](long k) { return d[n - 1 - k]; });
}
VP_HARNESS(self_back_expr) {
   long n = vp_size("n", 0);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   VP_TRY(rej, A.insert_back(A + A));
   check_inserted(A, d, rej, true, n, n, [&](long k) { return d[k] + d[k]; });
}
VP_HARNESS(expression) {
   long n = vp_size("n", 0), m = vp_size("m", 0);
   In<double> d(n, "a"), e(m, "b");
   Array1D<double> A = mk(d), B = mk(e);
   long pos = vp_int("pos", VP_MIN, VP_MAX);
   VP_TRY(rej, A.insert(pos, B * B));
   check_inserted(A, d, rej, pos >= 0 && pos <= n, pos, m, [&](long k) { return e[k] * e[k]; });
}

#include "vp.hpp"
// 1-D removal

template <typename T>
static void keeps_block(Array1D<T>& A, const In<T>& d, bool rej, bool ok, long pos, long cnt) {
   vp_check(rej == !ok, "rejected iff block not inside the array");
   if(rej) {
      check_is(A, d, "size unchanged when rejected", "elements unchanged when rejected");
   } else {
      vp_check(len(A) == d.n - cnt, "size shrinks by count");
      VP_FORALL(p, 0, d.n - cnt) { vp_check(vp_same(A.un(p).val(), d[p < pos ? p : p + cnt]), "survivors keep value and order"); }
   }
}
template <typename T, typename F>
static void block(F f) {
   long n = vp_size("n", 0);
   In<T> d(n, "a");
   Array1D<T> A = mk(d);
   long pos = vp_int("pos", VP_MIN, VP_MAX), cnt = vp_int("cnt", VP_MIN, VP_MAX);
   VP_TRY(rej, f(A, pos, cnt));
   keeps_block(A, d, rej, pos >= 0 && cnt > 0 && pos < n && cnt <= n - pos, pos, cnt);
}
template <typename T, typename F>
static void one(F f) {
   long n = vp_size("n", 0);
   In<T> d(n, "a");
   Array1D<T> A = mk(d);
   long pos = vp_int("pos", VP_MIN, VP_MAX);
   VP_TRY(rej, f(A, pos));
   keeps_block(A, d, rej, pos >= 0 && pos < n, pos, 1);
}
VP_HARNESS(block_long) { block<long>([](auto& A, long p, long c) { A.remove(p, c); }); }
VP_HARNESS(block_double) { block<double>([](auto& A, long p, long c) { A.remove(p, c); }); }
VP_HARNESS(block_bool) { block<bool>([](auto& A, long p, long c) { A.remove(p, c); }); }
VP_HARNESS(block_named) { block<int>([](auto& A, long p, long c) { A.remove(Pos{Strict{p}}, Count{Strict{c}}); }); }
VP_HARNESS(single) { one<long>([](auto& A, long p) { A.remove(p); }); }
VP_HARNESS(single_named) { one<double>([](auto& A, long p) { A.remove(Pos{Strict{p}}); }); }
template <typename F>
static void front_back(bool front, F f) {
   long n = vp_size("n", 0);
   In<long> d(n, "a");
   Array1D<long> A = mk(d);
   long cnt = vp_int("cnt", VP_MIN, VP_MAX);
   VP_TRY(rej, f(A, cnt));
   keeps_block(A, d, rej, cnt > 0 && cnt <= n, front ? 0 : n - cnt, cnt);
}
VP_HARNESS(front) { front_back(true, [](auto& A, long c) { A.remove_front(c); }); }
VP_HARNESS(back) { front_back(false, [](auto& A, long c) { A.remove_back(c); }); }
VP_HARNESS(front_named) { front_back(true, [](auto& A, long c) { A.remove_front(Count{Strict{c}}); }); }
VP_HARNESS(back_named) { front_back(false, [](auto& A, long c) { A.remove_back(Count{Strict{c}}); }); }
VP_HARNESS(from_end) {
   long n = vp_size("n", 0);
   In<double> d(n, "a");
   Array1D<double> A = mk(d);
   long k = vp_int("k", 0, VP_MAX);
   VP_TRY(rej, A.remove(Last{k}));
   keeps_block(A, d, rej, k < n, n - 1 - k, 1);
}
// remove(vector of indexes): ok iff strictly increasing and inside; survivors in order
VP_BOUNDED(index_list) {
   long n = vp_small("n", 0, 9), m = vp_small("m", 0, 5);
   In<long> d(n, "a");
   Array1D<long> A = mk(d);
   std::vector<ImplicitInt> v;
   std::vector<long> w;
   bool ok = true;
   for(long k = 0; k < m; ++k) {
      long x = vp_small("ix", -2, 11);
      ok = ok && x >= 0 && x < n && (k == 0 || w.back() < x);
      w.push_back(x);
      v.push_back(ImplicitInt{x});
   }
   VP_TRY(rej, A.remove(v));
   vp_check(rej == !ok, "rejected iff list not strictly increasing inside the array");
   if(rej) check_is(A, d, "size unchanged when rejected", "elements unchanged when rejected");
   else {
      vp_check(len(A) == n - m, "size shrinks by the number of indexes");
      long q = 0;
      for(long i = 0; i < n; ++i) {
         bool in = false;
         for(long x : w) in = in || x == i;
         if(!in) { vp_check(q < len(A) && vp_same(A.un(q).val(), d[i]), "survivors keep value and order"); ++q; }
      }
   }
}

// Contract harness primitives. One source, two readings:
//   VP_ENGINE  : external declarations; the deductive engine gives them meaning (symbolic inputs, obligations).
//   otherwise  : executable contracts, run natively (replay of counterexamples, bounded search).
#pragma once
#ifndef STRICT_ERROR_EXCEPTIONS
#define STRICT_ERROR_EXCEPTIONS
#endif
#ifndef STRICT_REMOVE_NODISCARD
#define STRICT_REMOVE_NODISCARD
#endif
#include <strictpp/strict.hpp>
#include <cstdint>
#include <cstring>
#include <utility>
using namespace spp;

#ifdef VP_ENGINE
extern "C" {
long vp_int(const char*, long, long) noexcept;
bool vp_flag(const char*) noexcept;
double vp_f64(const char*) noexcept;
float vp_f32(const char*) noexcept;
void vp_check(bool, const char*) noexcept;
void vp_assume(bool) noexcept;
void vp_end() noexcept;
bool vp_fork() noexcept;
long vp_any(long, long) noexcept;
void vp_fill_i64(void*, long, const char*, long, long) noexcept;
void vp_fill_i32(void*, long, const char*, long, long) noexcept;
void vp_fill_f64(void*, long, const char*) noexcept;
void vp_fill_f32(void*, long, const char*) noexcept;
void vp_fill_bool(void*, long, const char*) noexcept;
bool vp_same_f64(double, double) noexcept;
bool vp_same_f32(float, float) noexcept;
void vp_may_terminate(bool) noexcept;
void vp_cover(const char*) noexcept;
long vp_align(const void*) noexcept;
}
#define VP_SIZE_MAX 1000000000L
inline long vp_size(const char* nm, long lo) noexcept { return vp_int(nm, lo, VP_SIZE_MAX); }
inline long vp_ext(const char* nm, long lo) noexcept { return vp_int(nm, lo, VP_SIZE_MAX); }
inline long vp_small(const char* nm, long lo, long hi) noexcept { return vp_int(nm, lo, hi); }
#define VP_HARNESS(name) extern "C" void name()
#define VP_BOUNDED(name) [[maybe_unused]] static void name()
#define VP_FORALL(v, lo, hi) \
   if(vp_fork())             \
      for(long v = vp_any(lo, hi), v##_once = 1; v##_once; v##_once = 0, vp_end())
#define VP_NATIVE(...)
#else
#include "vp_native.hpp"
#define VP_HARNESS(name)                        \
   static void name();                          \
   static vp::Reg name##_reg(#name, name, 1);   \
   static void name()
#define VP_BOUNDED(name)                        \
   static void name();                          \
   static vp::Reg name##_reg(#name, name, 0);   \
   static void name()
#define VP_FORALL(v, lo, hi) for(long v = (lo), v##_hi = (hi); v < v##_hi; ++v)
#define VP_NATIVE(...) __VA_ARGS__
#endif
#define VP_EMAX 1000000000L

inline constexpr long VP_MIN = -(1L << 62), VP_MAX = (1L << 62);

// run S, rej := StrictException thrown
#define VP_TRY(rej, ...)                   \
   bool rej = false;                       \
   try {                                   \
      __VA_ARGS__;                         \
   } catch(StrictException const&) {       \
      rej = true;                          \
   }

inline bool vp_same(double a, double b) { return vp_same_f64(a, b); }
inline bool vp_same(float a, float b) { return vp_same_f32(a, b); }
inline bool vp_same(unsigned a, unsigned b) noexcept { return a == b; }
inline bool vp_same(unsigned long a, unsigned long b) noexcept { return a == b; }
inline bool vp_same(long a, long b) { return a == b; }
inline bool vp_same(int a, int b) { return a == b; }
inline bool vp_same(bool a, bool b) { return a == b; }
template <typename T>
bool vp_same(Strict<T> a, T b) { return vp_same(a.val(), b); }
template <typename T>
bool vp_same(Strict<T> a, Strict<T> b) { return vp_same(a.val(), b.val()); }

inline void vp_fill(double* p, long n, const char* nm) { vp_fill_f64(p, n, nm); }
inline void vp_fill(float* p, long n, const char* nm) { vp_fill_f32(p, n, nm); }
inline void vp_fill(long* p, long n, const char* nm) { vp_fill_i64(p, n, nm, VP_MIN, VP_MAX); }
inline void vp_fill(int* p, long n, const char* nm) { vp_fill_i32(p, n, nm, -1000000000L, 1000000000L); }
inline void vp_fill(bool* p, long n, const char* nm) { vp_fill_bool(p, n, nm); }

inline void vp_fill_r(long* p, long n, const char* nm, long lo, long hi) { vp_fill_i64(p, n, nm, lo, hi); }
inline void vp_fill_r(int* p, long n, const char* nm, long lo, long hi) { vp_fill_i32(p, n, nm, lo, hi); }

template <typename T>
T vp_val(const char* nm) {
   if constexpr(std::is_same_v<T, double>) return vp_f64(nm);
   else if constexpr(std::is_same_v<T, float>) return vp_f32(nm);
   else if constexpr(std::is_same_v<T, bool>) return vp_flag(nm);
   else if constexpr(std::is_same_v<T, int>) return int(vp_int(nm, -1000000000L, 1000000000L));
   else return vp_int(nm, VP_MIN, VP_MAX);
}

// plain reference data: n arbitrary values of type T
template <typename T>
struct In {
   long n;
   T* a;
   explicit In(long n_, const char* nm) : n(n_), a(new T[std::size_t(n_)]) { vp_fill(a, n, nm); }
   In(long n_, const char* nm, long lo, long hi) : n(n_), a(new T[std::size_t(n_)]) { vp_fill_r(a, n, nm, lo, hi); }
   In(const In&) = delete;
   In& operator=(const In&) = delete;
   ~In() { delete[] a; }
   T operator[](long i) const { return a[i]; }
};
// m x n reference data, row major
template <typename T>
struct In2 : In<T> {
   long r, c;
   In2(long m_, long n_, const char* nm) : In<T>(m_ * n_, nm), r(m_), c(n_) {}
   In2(long m_, long n_, const char* nm, long lo, long hi) : In<T>(m_ * n_, nm, lo, hi), r(m_), c(n_) {}
   T operator()(long i, long j) const { return this->a[i * c + j]; }
};

template <typename T>
Array1D<T> mk(const In<T>& d) {
   Array1D<T> A(d.n);
   for(long i = 0; i < d.n; ++i) A.un(i) = Strict<T>{d.a[i]};
   return A;
}
template <typename T>
Array2D<T> mk(const In2<T>& d) {
   Array2D<T> A(d.r, d.c);
   for(long k = 0; k < d.n; ++k) A.un(k) = Strict<T>{d.a[k]};
   return A;
}
template <typename A>
long len(const A& a) { return a.size().val(); }

// A equals the reference data
template <typename A, typename T>
void check_is(const A& a, const In<T>& d, const char* lsize, const char* lel) {
   vp_check(a.size().val() == d.n, lsize);
   VP_FORALL(p, 0, d.n) { vp_check(vp_same(a.un(p).val(), d[p]), lel); }
}
template <typename A, typename T>
void check_is2(const A& a, const In2<T>& d, const char* lsize, const char* lel) {
   vp_check(a.rows().val() == d.r && a.cols().val() == d.c, lsize);
   VP_FORALL(i, 0, d.r) {
      VP_FORALL(j, 0, d.c) { vp_check(vp_same(a.un(i, j).val(), d(i, j)), lel); }
   }
}

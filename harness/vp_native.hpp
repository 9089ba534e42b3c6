// Native runtime of the contract primitives: seeded bounded search and replay.
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
#include <set>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>
namespace vp {
struct Reject {};
struct Fail {};
struct Reg {
   Reg(const char* n, void (*f)(), int p);
};
struct H {
   const char* name;
   void (*f)();
   int prove;
};
inline std::vector<H>& all() {
   static std::vector<H> v;
   return v;
}
inline Reg::Reg(const char* n, void (*f)(), int p) { all().push_back({n, f, p}); }

struct RT {
   std::mt19937_64 g;
   std::map<std::string, int> occ;
   std::map<std::string, std::string> replay;   // name -> value, name[i] -> value
   bool replaying = false;
   bool partial = false;
   std::vector<long> ints;
   std::vector<std::pair<std::string, std::string>> log;
   std::set<std::string> reached;
   std::string failed;
   bool term_ok = false;
   std::vector<long> mined;
   const char* harness = "";
   int size_cap = 8;
   FILE* out = stdout;
};
inline RT& rt() {
   static RT r;
   return r;
}
inline std::string key(const char* nm) {
   int k = rt().occ[nm]++;
   return std::string(nm) + "#" + std::to_string(k);
}
inline unsigned long rnd(unsigned long n) { return n ? rt().g() % n : 0; }
inline bool has(const std::string& k, std::string& v) {
   if(!rt().replaying) return false;
   auto it = rt().replay.find(k);
   if(it == rt().replay.end()) return false;
   if(rt().partial && rnd(6) == 0) return false;
   v = it->second;
   return true;
}
inline void log(const std::string& k, const std::string& v) {
   if(rt().log.size() < 400) rt().log.push_back({k, v});
}
inline long clampl(long v, long lo, long hi) { return v < lo ? lo : v > hi ? hi : v; }
inline unsigned long span(long lo, long hi) { return (unsigned long)hi - (unsigned long)lo; }
inline long wadd(long a, long b) { return long((unsigned long)a + (unsigned long)b); }
inline long pick(long lo, long hi) {
   auto& R = rt();
   for(int t = 0; t < 40; ++t) {
      long v;
      switch(rnd(14)) {
         case 0: v = lo; break;
         case 1: v = hi; break;
         case 2: case 3: case 4: v = long(rnd(7)) - 2; break;
         case 5: v = long(rnd(24)) - 8; break;
         case 6: case 7: case 8:
            if(R.ints.empty()) continue;
            v = wadd(R.ints[rnd(R.ints.size())], long(rnd(5)) - 2);
            break;
         case 9:
            if(R.ints.size() < 2) continue;
            v = wadd(long((unsigned long)R.ints[rnd(R.ints.size())] - (unsigned long)R.ints[rnd(R.ints.size())]), long(rnd(3)) - 1);
            break;
         case 10:
            if(R.ints.empty()) continue;
            { long u = R.ints[rnd(R.ints.size())]; if(u < 1 || u > 1000000) continue; v = long(rnd((unsigned long)u)); }
            break;
         case 11:
            if(R.mined.empty()) continue;
            v = wadd(R.mined[rnd(R.mined.size())], long(rnd(3)) - 1);
            break;
         case 12:
            if(span(lo, hi) > 4000) { v = long(rnd(200)) - 100; }
            else v = lo + long(rnd((unsigned long)(hi - lo + 1)));
            break;
         default:
            if(rnd(6)) continue;
            v = rnd(2) ? clampl(long(1) << rnd(63), lo, hi) : -(long(1) << rnd(63));
      }
      if(v >= lo && v <= hi) return v;
   }
   if(span(lo, hi) < 1000000) return lo + long(rnd((unsigned long)(hi - lo + 1)));
   return clampl(long(rnd(5)), lo, hi);
}
template <typename F>
F pickf() {
   static const double sp[] = {0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 3.0, 1e300, -1e300, 1e-300, 5e-324, 1.0 / 3, 0.1, 1e16, 9007199254740993.0};
   switch(rnd(9)) {
      case 0: return F(sp[rnd(15)]);
      case 1: case 2: return F(long(rnd(9)) - 4);
      case 3: return F((double(long(rnd(2001))) - 1000) / 7);
      case 4: return F(double(rt().g()) / 1.8446744073709552e19);
      case 5: if(rnd(8) == 0) { switch(rnd(3)) { case 0: return F(__builtin_nan("")); case 1: return F(__builtin_inf()); default: return F(-__builtin_inf()); } } return F(long(rnd(4)));
      case 6: return F(std::ldexp(double(rt().g()) / 1.8446744073709552e19 + 0.5, int(rnd(120)) - 60) * (rnd(2) ? 1 : -1));
      default: return F((double(long(rnd(200001))) - 100000) / 1000.);
   }
}
inline std::string fs(double v) {
   char b[64];
   std::snprintf(b, sizeof b, "%a", v);
   return b;
}
inline void dump(const char* kind, const char* label) {
   auto& R = rt();
   std::fprintf(R.out, "FAIL\t%s\t%s\t%s", R.harness, kind, label);
   for(auto& kv : R.log) std::fprintf(R.out, "\t%s=%s", kv.first.c_str(), kv.second.c_str());
   std::fprintf(R.out, "\n");
   std::fflush(R.out);
}
inline sigjmp_buf jb;
inline volatile int armed = 0;
inline void on_sig(int s) {
   if(s == SIGABRT && armed) {
      armed = 0;
      siglongjmp(jb, 1);
   }
   dump("crash", s == SIGALRM ? "does not terminate within 20 s" : s == SIGILL ? "undefined behaviour (ubsan trap)" : "crashed");
   _exit(77);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
inline void on_death() {
   dump("crash", "sanitizer error");
}
// live allocations made by the harness (and the code under test), not by this runtime
inline volatile int busy = 1;
struct Busy {
   int old = busy;
   Busy() { busy = 1; }
   ~Busy() { busy = old; }
};
inline const volatile void* live[1 << 14];
inline int nlive = 0;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
inline void mhook(const volatile void* p, size_t) {
   if(!busy && nlive < (1 << 14)) live[nlive++] = p;
}
inline void fhook(const volatile void* p) {
   for(int i = nlive - 1; i >= 0; --i)
      if(live[i] == p) {
         live[i] = live[--nlive];
         return;
      }
}
}   // namespace vp

inline long vp_int(const char* nm, long lo, long hi) {
   vp::Busy busy_;
   auto k = vp::key(nm);
   std::string s;
   long v = vp::has(k, s) ? std::strtol(s.c_str(), nullptr, 10) : vp::pick(lo, hi);
   v = vp::clampl(v, lo, hi);
   vp::rt().ints.push_back(v);
   vp::log(k, std::to_string(v));
   return v;
}
inline long vp_small(const char* nm, long lo, long hi) {
   vp::Busy busy_;
   auto k = vp::key(nm);
   std::string s;
   long v = vp::has(k, s) ? std::strtol(s.c_str(), nullptr, 10) : lo + long(vp::rnd((unsigned long)(hi - lo + 1)));
   v = vp::clampl(v, lo, hi);
   vp::rt().ints.push_back(v);
   vp::log(k, std::to_string(v));
   return v;
}
// an extent, also negative: small natively
inline long vp_ext(const char* nm, long lo) {
   vp::Busy busy_;
   auto k = vp::key(nm);
   std::string s;
   long v;
   if(vp::has(k, s)) {
      v = std::strtol(s.c_str(), nullptr, 10);
      if(v > 3000) throw vp::Reject{};
   } else {
      v = vp::pick(lo, vp::rt().size_cap + 2);
      if(v < -3 && vp::rnd(4)) v = long(vp::rnd(vp::rt().size_cap));
   }
   v = vp::clampl(v, lo, 3000);
   vp::rt().ints.push_back(v);
   vp::log(k, std::to_string(v));
   return v;
}
// a size: small natively
inline long vp_size(const char* nm, long lo) {
   vp::Busy busy_;
   auto k = vp::key(nm);
   std::string s;
   long v;
   int cap = vp::rt().size_cap;
   if(vp::has(k, s)) {
      v = std::strtol(s.c_str(), nullptr, 10);
      if(v > 3000) throw vp::Reject{};
   } else if(!vp::rt().ints.empty() && vp::rnd(3) == 0) {
      v = vp::wadd(vp::rt().ints[vp::rnd(vp::rt().ints.size())], vp::rnd(2) ? 0 : long(vp::rnd(3)) - 1);
      if(v > cap + 4) v = cap;
   } else {
      v = vp::rnd(12) == 0 ? long(vp::rnd(6 * cap)) : long(vp::rnd(cap + 1));
   }
   if(v < lo) v = lo;
   vp::rt().ints.push_back(v);
   vp::log(k, std::to_string(v));
   return v;
}
inline bool vp_flag(const char* nm) {
   vp::Busy busy_;
   auto k = vp::key(nm);
   std::string s;
   bool v = vp::has(k, s) ? s != "0" : vp::rnd(2);
   vp::log(k, v ? "1" : "0");
   return v;
}
template <typename F>
F vp_fp_(const char* nm) {
   vp::Busy busy_;
   auto k = vp::key(nm);
   std::string s;
   F v = vp::has(k, s) ? F(std::strtod(s.c_str(), nullptr)) : vp::pickf<F>();
   vp::log(k, vp::fs(double(v)));
   return v;
}
inline double vp_f64(const char* nm) { return vp_fp_<double>(nm); }
inline float vp_f32(const char* nm) { return vp_fp_<float>(nm); }
template <typename T, typename G>
void vp_fill_(T* p, long n, const char* nm, G gen) {
   vp::Busy busy_;
   auto k = vp::key(nm);
   int mode = int(vp::rnd(5));
   for(long i = 0; i < n; ++i) {
      std::string s, ki = k + "[" + std::to_string(i) + "]";
      T v;
      if(vp::has(ki, s)) {
         if constexpr(std::is_floating_point_v<T>) v = T(std::strtod(s.c_str(), nullptr));
         else v = T(std::strtol(s.c_str(), nullptr, 10));
      } else if(mode == 0 && i > 0) {
         v = vp::rnd(3) ? p[i - 1] : gen();
      } else v = gen();
      p[i] = v;
      if constexpr(std::is_floating_point_v<T>) vp::log(ki, vp::fs(double(v)));
      else vp::log(ki, std::to_string(long(v)));
   }
}
inline void vp_fill_i64(long* p, long n, const char* nm, long lo, long hi) {
   vp_fill_(p, n, nm, [=] { return vp::rnd(4) ? vp::clampl(long(vp::rnd(20)) - 6, lo, hi) : vp::pick(lo, hi); });
}
inline void vp_fill_i32(int* p, long n, const char* nm, long lo, long hi) {
   vp_fill_(p, n, nm, [=] { return int(vp::rnd(4) ? vp::clampl(long(vp::rnd(20)) - 6, lo, hi) : vp::pick(lo, hi)); });
}
inline void vp_fill_f64(double* p, long n, const char* nm) { vp_fill_(p, n, nm, [] { return vp::pickf<double>(); }); }
inline void vp_fill_f32(float* p, long n, const char* nm) { vp_fill_(p, n, nm, [] { return vp::pickf<float>(); }); }
inline void vp_fill_bool(bool* p, long n, const char* nm) { vp_fill_(p, n, nm, [] { return vp::rnd(2) != 0; }); }
inline void vp_check(bool c, const char* label) {
   vp::Busy busy_;
   vp::rt().reached.insert(label);
   if(!c) {
      if(vp::rt().failed.empty()) vp::rt().failed = label;
      throw vp::Fail{};
   }
}
inline void vp_cover(const char* label) { vp::rt().reached.insert(std::string("cover:") + label); }
inline void vp_assume(bool c) {
   vp::Busy busy_;
   if(!c) throw vp::Reject{};
}
inline long vp_align(const void* p) { auto a = reinterpret_cast<unsigned long>(p); return long(a & (~a + 1)); }
inline void vp_may_terminate(bool c) { vp::rt().term_ok = c; }
inline bool vp_same_f64(double a, double b) { return (a != a && b != b) || std::memcmp(&a, &b, sizeof a) == 0; }
inline bool vp_same_f32(float a, float b) { return (a != a && b != b) || std::memcmp(&a, &b, sizeof a) == 0; }

namespace vp {
// returns 0 ok, 1 fail, 2 rejected
inline int run_one(const H& h) {
   auto& R = rt();
   R.occ.clear();
   R.ints.clear();
   R.log.clear();
   R.failed.clear();
   R.term_ok = false;
   R.harness = h.name;
   armed = 1;
   busy = 1;
   int res = 0;
   if(sigsetjmp(jb, 1) == 0) {
      try {
         nlive = 0;
         {
            Busy b;
            busy = 0;
            h.f();
         }
         armed = 0;
         if(R.failed.empty() && nlive > 0) R.failed = "no leak";
         if(!R.failed.empty()) res = 1;
      } catch(const Fail&) {
         res = 1;
      } catch(const Reject&) {
         res = 2;
      } catch(const std::exception& e) {
         R.failed = "no uncaught exception";
         res = 1;
      }
      armed = 0;
   } else {
      if(!R.term_ok) {
         R.failed = "no termination";
         res = 1;
      }
      sigset_t ss;
      sigemptyset(&ss);
      sigaddset(&ss, SIGABRT);
      sigprocmask(SIG_UNBLOCK, &ss, nullptr);
   }
   if(res == 1) dump("check", R.failed.c_str());
   return res;
}
}   // namespace vp

// usage: prog list | prog search HARNESS SEED ITER SECONDS CAP [mined...] | prog replay HARNESS FILE [SEED ITER]
int main(int argc, char** argv) {
   using namespace vp;
   std::signal(SIGABRT, on_sig);
   std::signal(SIGALRM, on_sig);
   std::signal(SIGILL, on_sig);
   __sanitizer_set_death_callback(on_death);
   __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
   std::string cmd = argc > 1 ? argv[1] : "";
   if(cmd == "list") {
      for(auto& h : all()) std::printf("%s %d\n", h.name, h.prove);
      return 0;
   }
   const H* h = nullptr;
   for(auto& x : all())
      if(argc > 2 && std::string(x.name) == argv[2]) h = &x;
   if(!h) return 3;
   auto& R = rt();
   if(!std::getenv("VP_STDERR") && !std::freopen("/dev/null", "w", stderr)) return 3;
   if(cmd == "search") {
      unsigned long seed = std::strtoul(argv[3], nullptr, 10);
      long iters = std::atol(argv[4]);
      double secs = std::atof(argv[5]);
      R.size_cap = std::atoi(argv[6]);
      for(int i = 7; i < argc; ++i) R.mined.push_back(std::atol(argv[i]));
      timeval t0, t1;
      gettimeofday(&t0, nullptr);
      long ok = 0, rejn = 0;
      for(long i = 0; i < iters; ++i) {
         R.g.seed(seed * 1000003UL + (unsigned long)i);
         int full = R.size_cap;
         R.size_cap = i % 4 == 0 ? 3 : full;
         alarm(20);
         int r = run_one(*h);
         R.size_cap = full;
         if(r == 1) {
            std::printf("DONE\t%s\t%ld\t%ld\n", h->name, ok, rejn);
            return 1;
         }
         (r == 0 ? ok : rejn)++;
         if((i & 31) == 0) {
            gettimeofday(&t1, nullptr);
            if(double(t1.tv_sec - t0.tv_sec) + 1e-6 * double(t1.tv_usec - t0.tv_usec) > secs) break;
         }
      }
      alarm(0);
      std::printf("DONE\t%s\t%ld\t%ld", h->name, ok, rejn);
      for(auto& l : R.reached) std::printf("\t%s", l.c_str());
      std::printf("\n");
      return 0;
   }
   if(cmd == "replay") {
      FILE* f = std::fopen(argv[3], "r");
      if(!f) return 3;
      char k[512], v[512];
      while(std::fscanf(f, "%511s %511s", k, v) == 2) R.replay[k] = v;
      std::fclose(f);
      R.replaying = true;
      unsigned long seed = argc > 4 ? std::strtoul(argv[4], nullptr, 10) : 1;
      long iters = argc > 5 ? std::atol(argv[5]) : 1;
      for(long i = 0; i < iters; ++i) {
         R.g.seed(seed * 1000003UL + (unsigned long)i);
         R.partial = i >= iters / 2 && i > 0;
         alarm(20);
         if(run_one(*h) == 1) return 1;
      }
      return 0;
   }
   return 3;
}

// Common part of the C++ harnesses: deterministic case generation, violation
// reporting, observation counters.
#pragma once
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace vh {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(x) { next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  long i(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); }  // inclusive
  bool b(double p = 0.5) { return u() < p; }
  double n() { double a = u(), c = u(); if (a < 1e-300) a = 1e-300; return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * c); }
  double logu(double a, double c) { return std::exp(u(std::log(a), std::log(c))); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

inline std::map<std::string, long>& stats() { static std::map<std::string, long> m; return m; }
inline std::set<uint64_t>& sigs() { static std::set<uint64_t> m; return m; }
inline long& evals() { static long e = 0; return e; }
inline int& nviol() { static int e = 0; return e; }
inline std::string& workdir() { static std::string e; return e; }
inline long& curcase() { static long c = -1; return c; }
inline int& nsample() { static int e = 0; return e; }

inline void stat(const std::string& k, long n = 1) { stats()[k] += n; }
inline void eval(long n = 1) { evals() += n; }
inline uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; return a ^ (a >> 33); }
inline uint64_t hs(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline uint64_t hd(double d) { uint64_t x; std::memcpy(&x, &d, 8); return mix(x, 77); }
/// Record an observed, non-trivial situation.
inline void sig(uint64_t h) { sigs().insert(h); }
inline void sig(const std::string& s) { sigs().insert(hs(s)); }

inline std::string fmt(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); for (char* p = b; *p; ++p) if (*p == '\n' || *p == '\t' || *p == '\r') *p = ' '; return b; }
inline void viol(const std::string& key, const std::string& msg) { if (nviol()++ < 200) { printf("V\t%s\t%s\n", key.c_str(), msg.c_str()); fflush(stdout); } }
inline void sample(const std::string& s) { if (nsample()++ < 2) { printf("X\t%s\n", s.c_str()); fflush(stdout); } }
inline bool close(double a, double b, double rel, double abs_) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (a == b) return true; return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b)); }
inline std::string path(const std::string& name) { return workdir() + "/" + name; }

#define VH_CHECK(cond, key, ...) do { vh::eval(); if (!(cond)) vh::viol(key, vh::fmt(__VA_ARGS__)); } while (0)

typedef std::function<void(Rng&, long, const std::string& mode)> CaseFn;
inline int run(int argc, char** argv, CaseFn f) {
  uint64_t seed = 1; long first = 0, end = 1, step = 1; std::string mode;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10);
    else if (a == "--first") first = atol(argv[i + 1]);
    else if (a == "--end") end = atol(argv[i + 1]);
    else if (a == "--step") step = atol(argv[i + 1]);
    else if (a == "--mode") mode = argv[i + 1];
  }
  char wd[4096]; if (!getcwd(wd, sizeof wd)) return 99;
  workdir() = wd;
  for (long c = first; c < end; c += step) {
    printf("C %ld\n", c); fflush(stdout);
    curcase() = c;
    Rng r(mix(mix(seed * 1000003ull + 17, hs(mode)), (uint64_t)c));
    try { f(r, c, mode); }
    catch (std::exception& e) { viol(std::string("unexpected-exception"), fmt("%s", e.what())); }
    catch (...) { viol("unexpected-exception", "unknown exception type"); }
  }
  for (auto& s : stats()) printf("S\t%s\t%ld\n", s.first.c_str(), s.second);
  printf("E\t%ld\n", evals());
  std::string line; long k = 0;
  for (auto h : sigs()) { char b[32]; snprintf(b, sizeof b, "%lx ", (unsigned long)h); line += b; if (line.size() > 30000) { printf("G\t%s\n", line.c_str()); line.clear(); } if (++k > 300000) break; }
  if (!line.empty()) printf("G\t%s\n", line.c_str());
  printf("DONE\n"); fflush(stdout);
  return 0;
}
}  // namespace vh

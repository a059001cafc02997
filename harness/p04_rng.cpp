// P04: raw streams against an independent dSFMT-19937, normals against the normal law.
#include "vh.hpp"
#include "nrlib/exception/exception.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
using namespace NRLib;
using vh::fmt;

// Written from the definition of dSFMT (Saito & Matsumoto), parameters of 2^19937-1.
struct Ref {
  uint64_t s[191][2], l[2]; int idx;
  explicit Ref(uint32_t seed) {
    std::vector<uint32_t> v(192 * 4);
    v[0] = seed;
    for (uint32_t i = 1; i < v.size(); i++) v[i] = 1812433253u * (v[i - 1] ^ (v[i - 1] >> 30)) + i;
    for (int i = 0; i < 192; i++) for (int h = 0; h < 2; h++) {
      uint64_t x = (uint64_t)v[i * 4 + h * 2] | ((uint64_t)v[i * 4 + h * 2 + 1] << 32);
      if (i < 191) s[i][h] = (x & 0x000FFFFFFFFFFFFFull) | 0x3FF0000000000000ull; else l[h] = x;
    }
    uint64_t in = ((l[0] ^ 0x90014964b32f4329ull) & 0x3d84e1ac0dc82880ull) ^ ((l[1] ^ 0x3b8d12ac548a7c7aull) & 1ull);
    if (__builtin_popcountll(in) % 2 == 0) l[1] ^= 1;
    idx = 382;
  }
  void refill() {
    for (int i = 0; i < 191; i++) {
      int j = (i + 117) % 191;
      uint64_t t0 = s[i][0], t1 = s[i][1], L0 = l[0], L1 = l[1];
      l[0] = (t0 << 19) ^ (L1 >> 32) ^ (L1 << 32) ^ s[j][0];
      l[1] = (t1 << 19) ^ (L0 >> 32) ^ (L0 << 32) ^ s[j][1];
      s[i][0] = (l[0] >> 12) ^ (l[0] & 0x000ffafffffffb3full) ^ t0;
      s[i][1] = (l[1] >> 12) ^ (l[1] & 0x000ffdfffc90fffdull) ^ t1;
    }
    idx = 0;
  }
  uint64_t raw() { if (idx >= 382) refill(); uint64_t x = s[idx / 2][idx % 2]; idx++; return x; }
  double d(uint64_t x) { double r; memcpy(&r, &x, 8); return r; }
  double unif() { return d(raw()) - 1.0; }
  double open() { return d(raw() | 1) - 1.0; }
  uint32_t u32() { return (uint32_t)raw(); }
};

static void stream(vh::Rng& r, long c) {
  unsigned long seed = c < 40 ? std::vector<unsigned long>{0, 1, 2, 0xFFFFFFFFul, 0x7FFFFFFFul, 0x80000000ul, 123, 4357}[c % 8] + (c / 8) : (unsigned long)r.i(0, 0xFFFFFFFFL);
  seed &= 0xFFFFFFFFul;
  Random::Initialize(seed);
  RandomGenerator a(seed), other((unsigned long)r.i(0, 1000));
  RandomGenerator b; b.Initialize(seed);
  Ref ref((uint32_t)seed);
  long n = r.b(0.1) ? 20000 : r.i(400, 4000);
  int only = r.b(0.3) ? (int)r.i(0, 2) : -1;
  long bad = -1; int badk = 0;
  for (long i = 0; i < n && bad < 0; i++) {
    int k = only >= 0 ? only : (int)r.i(0, 2);
    double x, y, z, w;
    if (k == 0) { x = Random::Unif01(); y = a.Unif01(); z = b.Unif01(); w = ref.unif(); if (!(x >= 0 && x < 1)) bad = i; }
    else if (k == 1) { x = Random::Unif01Open(); y = a.Unif01Open(); z = b.Unif01Open(); w = ref.open(); if (!(x > 0 && x < 1)) bad = i; }
    else { x = (double)Random::DrawUint32(); y = (double)a.DrawUint32(); z = (double)b.DrawUint32(); w = (double)ref.u32(); }
    if (x != w || y != w || z != w) { bad = i; badk = k; }
    if (r.b(0.05)) { other.Norm01(); other.Unif01(); other.DrawUint32(); }  // must disturb nobody
    if (r.b(0.002)) { RandomGenerator cp(a); cp.Norm01(); }
  }
  VH_CHECK(bad < 0, "stream-not-dsfmt", "seed %lu: position %ld (draw kind %d) differs from dSFMT-19937", seed, bad, badk);
  // normals: the shared and the own generator agree, and consume the same draws
  RandomGenerator g(seed); Random::Initialize(seed);
  bool ok = true;
  for (int i = 0; i < 1500 && ok; i++) ok = g.Norm01() == Random::Norm01();
  ok = ok && g.DrawUint32() == Random::DrawUint32();
  VH_CHECK(ok, "own-and-shared-normals-differ", "seed %lu", seed);
  vh::stat("stream_positions_compared", n);
  vh::sig(vh::mix(seed, n));
  if (c < 3) vh::sample(fmt("seed %lu: %ld positions equal dSFMT-19937", seed, n));
}

static double cdf(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
static void normals(vh::Rng& r, long c, long n) {
  unsigned long seed = (unsigned long)r.i(0, 0xFFFFFFFFL);
  bool own = c % 2;
  RandomGenerator g(seed); Random::Initialize(seed);
  const int B = 400; std::vector<double> cnt(B, 0.0);
  double lim[] = {2.5, 3.0, 3.2, 3.5, 4.0, 4.5}; double tailp[6] = {0}, tailm[6] = {0};
  double m1 = 0, m2 = 0, m3 = 0, m4 = 0, prev = 0, ac = 0; long nan = 0;
  // many short runs under different seeds as well as one long one
  long chunk = c % 4 < 2 ? n : 997;
  std::vector<double> fine(120, 0.0);  // width 0.05 on [-3,3]
  for (long i = 0; i < n; i++) {
    if (i && i % chunk == 0) { seed++; g.Initialize(seed); Random::Initialize(seed); }
    double x = own ? g.Norm01() : Random::Norm01();
    if (!(std::fabs(x) < 40)) { nan++; continue; }
    int b = (int)(cdf(x) * B); if (b >= B) b = B - 1; cnt[b]++;
    for (int k = 0; k < 6; k++) { if (x > lim[k]) tailp[k]++; if (x < -lim[k]) tailm[k]++; }
    if (std::fabs(x) < 3) fine[(int)((x + 3) * 20)]++;
    m1 += x; m2 += x * x; m3 += x * x * x; m4 += x * x * x * x; ac += x * prev; prev = x;
  }
  VH_CHECK(nan == 0, "normal-not-finite", "seed %lu: %ld values", seed, nan);
  double chi = 0, e = (double)n / B; for (double k : cnt) chi += (k - e) * (k - e) / e;
  double z = (chi - (B - 1)) / std::sqrt(2.0 * (B - 1));
  VH_CHECK(z < 9, "normal-distribution", "seed %lu: chi-square %.1f on %d bins (z=%.1f, n=%ld)", seed, chi, B, z, n);
  for (int k = 0; k < 6; k++) {
    double q = n * cdf(-lim[k]);
    if (q < 20) continue;
    VH_CHECK(std::fabs(tailp[k] - q) < 7.5 * std::sqrt(q) && std::fabs(tailm[k] - q) < 7.5 * std::sqrt(q), "normal-tail", "seed %lu: beyond %.1f: %g / %g, expected %g", seed, lim[k], tailp[k], tailm[k], q);
  }
  double wz = 0; int wi = 0;
  for (int k = 0; k < 120; k++) { double q = n * (cdf(-3 + (k + 1) / 20.0) - cdf(-3 + k / 20.0)); double zz = std::fabs(fine[k] - q) / std::sqrt(q); if (zz > wz) { wz = zz; wi = k; } }
  VH_CHECK(wz < 7.5, "normal-density", "seed %lu: density in [%.2f,%.2f) off by %.1f sigma", seed, -3 + wi / 20.0, -3 + (wi + 1) / 20.0, wz);
  double s = std::sqrt((double)n);
  VH_CHECK(std::fabs(m1 / s) < 7.5 && std::fabs(m2 - n) / s < 7.5 * std::sqrt(2.0) && std::fabs(m3 / s) < 7.5 * std::sqrt(15.0) && std::fabs(m4 - 3.0 * n) / s < 7.5 * std::sqrt(96.0) && std::fabs(ac / s) < 7.5,
           "normal-moments", "seed %lu: mean %g var %g m3 %g m4 %g lag-1 %g", seed, m1 / n, m2 / n, m3 / n, m4 / n, ac / n);
  vh::stat("normals_drawn", n);
  vh::sig(vh::mix(seed, 99));
  vh::sample(fmt("%s generator seed %lu chunk %ld: n=%ld chi2 z=%.2f worst density bin %.2f sigma", own ? "own" : "shared", seed, chunk, n, z, wz));
}
int main(int argc, char** argv) {
  return vh::run(argc, argv, [](vh::Rng& r, long c, const std::string& m) {
    if (m == "stream") stream(r, c); else if (m == "normal") normals(r, c, 4000000); else normals(r, c, 40000000); });
}

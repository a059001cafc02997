// P25: wavelets: samples stay at their times.
#include "vh.hpp"
#include "nrlib/wavelet/wavelet.hpp"
#include "nrlib/exception/exception.hpp"
#include <fstream>
#include <sstream>
#include <iomanip>
#include <algorithm>
#include <cstdio>
using namespace NRLib;

struct Mod { std::vector<double> v; double dt; long c() const { return (long)v.size() / 2; } double at(long t) const { long i = t + c(); return i < 0 || i >= (long)v.size() ? 0 : v[i]; } };
static void same(const Mod& m, const Wavelet& w, const std::string& k, double rel = 0) {
  VH_CHECK(w.GetNSamples() == m.v.size() && w.GetCenterIndex() == m.v.size() / 2 && (size_t)(w.end() - w.begin()) == m.v.size(), k + "-size", "%zu samples, expected %zu", w.GetNSamples(), m.v.size()); if (w.GetNSamples() != m.v.size()) return;
  VH_CHECK(vh::close(w.GetSampleInterval(), m.dt, 1e-12, 0), k + "-interval", "%g expected %g", w.GetSampleInterval(), m.dt);
  for (size_t i = 0; i < m.v.size(); i++) { VH_CHECK(vh::close(w[i], m.v[i], rel, 0), k + "-sample", "sample %zu of %zu (time %g) is %.12g, expected %.12g", i, m.v.size(), w.GetTimeForIndex(i), w[i], m.v[i]); VH_CHECK(vh::close(w.GetTimeForIndex(i), ((long)i - m.c()) * m.dt, 1e-12, 0), k + "-time", "time of sample %zu is %g", i, w.GetTimeForIndex(i)); }
}
template <class F> static bool throws(F f) { try { f(); } catch (NRLib::Exception&) { return true; } return false; }
static double DT(vh::Rng& r) { static const double d[] = {.25, .5, 1, 1.5, 2, 4, 8}; return d[r.i(0, 6)]; }

static Wavelet make(vh::Rng& r, Mod& m) {
  m.dt = DT(r); size_t n = r.b(.05) ? 0 : r.i(1, r.b(.2) ? 200 : 20); m.v.assign(n, 0); double f = r.u(5, 80), s = r.b() ? 1 : r.n();
  switch (r.i(0, 2)) {
    case 0: { Wavelet w(n, m.dt); same(m, w, "zero"); for (size_t i = 0; i < n; i++) w[i] = m.v[i] = r.n(); return w; }
    case 1: { Wavelet w = s == 1 && r.b() ? Wavelet(f, n, m.dt) : Wavelet(f, n, m.dt, s); for (size_t i = 0; i < n; i++) { double t = ((long)i - m.c()) * m.dt / 1000, a = std::pow(3.14159265358979323846 * f * t, 2); m.v[i] = s * (1 - 2 * a) * std::exp(-a); VH_CHECK(std::fabs(w[i] - m.v[i]) <= 1e-9 * std::fabs(s) * (1 + a) * std::exp(-a) + 1e-300, "ricker", "sample %zu of %zu, peak %g, dt %g: %.12g expected %.12g", i, n, f, m.dt, w[i], m.v[i]); m.v[i] = w[i]; } same(m, w, "ricker-geometry"); if (n) VH_CHECK(vh::close(w[w.GetCenterIndex()], s, 1e-12, 0), "ricker-peak", "%g", w[w.GetCenterIndex()]); vh::stat("ricker"); return w; }
    default: { Wavelet w; VH_CHECK(w.GetNSamples() == 0, "empty", "empty"); w.SetSampleInterval(m.dt); w.Resize(n); same(m, w, "grown"); for (size_t i = 0; i < n; i++) w[i] = m.v[i] = r.n(); return w; }
  }
}
static void step(vh::Rng& r, Mod& m, Wavelet& w) {
  std::string k;
  switch (r.i(0, 4)) {
    case 0: case 1: { k = "resize"; size_t n = r.b(.1) ? 0 : r.b(.4) ? (size_t)std::max(0L, (long)m.v.size() + r.i(-2, 2)) : r.i(0, 40); Mod e; e.dt = m.dt; e.v.resize(n); for (size_t i = 0; i < n; i++) e.v[i] = m.at((long)i - (long)n / 2); w.Resize(n); k += n < m.v.size() ? "-shorter" : "-longer"; m = e; break; }
    case 2: { k = "resample"; int s = (int)r.i(1, 5); if (m.v.size() > 4000 || m.dt * s > 4096) break; Mod e; e.dt = m.dt * s; long L = m.c() / s, R = m.v.empty() ? 0 : ((long)m.v.size() - 1 - m.c()) / s; if (!m.v.empty()) { for (long t = -L; t <= R; t++) e.v.push_back(m.at(t * s)); VH_CHECK(L - R == 0 || L - R == 1, "model", "L %ld R %ld", L, R); } w.Resample(m.dt * s); m = e; break; }
    case 3: { k = "scale"; double s = r.b(.1) ? 0 : r.n(); w.Scale(s); for (double& x : m.v) x *= s; break; }
    default: { k = "bad-resample"; double q = m.dt * (r.b() ? 1.5 : r.b() ? .5 : 2.25); VH_CHECK(throws([&] { w.Resample(q); }), k, "from %g to %g", m.dt, q); }
  }
  same(m, w, "after-" + k, 1e-15); vh::stat("operations"); vh::sig(vh::mix(vh::hs(k), m.v.size() * 16 + (long)(m.dt * 4)));
}
static void ops(vh::Rng& r) { Mod m; Wavelet w = make(r, m); same(m, w, "built"); for (int q = (int)r.i(1, 12); q > 0; q--) step(r, m, w); Wavelet c(w); w.Scale(3); same(m, c, "copy", 1e-15); }

static void spit(const std::string& f, const std::string& d) { std::ofstream o(f, std::ios::binary); o << d; }
static std::string num(vh::Rng& r, double v) { char b[64]; snprintf(b, sizeof b, r.b() ? "%.12g" : "%.14e", v); return b; }
static void files(vh::Rng& r) {
  Mod m; std::string f = vh::path("w.txt"), g = vh::path("w2.txt"); int F = (int)r.i(0, 4); WaveletFileType T = F <= 1 ? JasonAscii : F == 2 ? SyntoolOW : F == 3 ? Strata : LandmarkAscii; double rel = 1e-11; std::string k;
  std::vector<std::string> lines; size_t head = 0; long n, c; std::vector<double> v; double dt;
  if (F == 0) {  // written by the library
    Wavelet w = make(r, m); if (m.v.empty()) return; for (int q = (int)r.i(0, 3); q > 0; q--) step(r, m, w); if (m.v.empty()) return; std::vector<std::string> h; for (int q = (int)r.i(0, 3); q > 0; q--) h.push_back(r.b() ? "text, \"with\" 1 2 3" : "");
    if (h.empty() && r.b()) w.WriteToFile(f, JasonAscii); else w.WriteToFile(f, JasonAscii, h); VH_CHECK(throws([&] { w.WriteToFile(g, Strata); }), "write-unsupported", "Strata"); std::remove(g.c_str()); same(m, w, "written-unchanged", 1e-15);
    n = (long)m.v.size(); c = m.c(); dt = m.dt; v = m.v; rel = 1e-5; k = "written"; std::ifstream in(f); std::string l; while (std::getline(in, l)) lines.push_back(l); head = lines.size() - n;
  } else {
    n = r.i(1, 30); /* intervals without an exact binary form too */ c = r.b(.3) ? n / 2 : r.b(.2) ? 0 : r.b(.2) ? n - 1 : r.i(0, n - 1); dt = r.b() ? DT(r) : r.b() ? .1 * r.i(1, 40) : r.u(.1, 9); dt = std::stod(vh::fmt("%.6g", dt)); v.resize(n); for (double& x : v) x = r.b(.1) ? 0 : r.n() * std::pow(10, (double)r.i(-3, 4));
    auto add = [&](const std::string& s) { lines.push_back(s); };
    if (F == 1) { k = "jason"; for (int q = (int)r.i(0, 3); q > 0; q--) add(r.b() ? "\"* comment 1,2" : r.b() ? "\" * other" : ""); add(r.b() ? "\"wavelet\", \"none\", \"time\", \"ms\"" : "  \"wavelet\",\"\" ,\"time\" ,\"ms\""); add(num(r, -c * dt)); add(num(r, dt)); add(std::to_string(n)); }
    else if (F == 2) { k = "syntool"; add("Header"); add("something"); add("Wavelet Data:"); std::vector<std::string> h = {"Total Samples: " + std::to_string(n), "Sample Interval: " + num(r, dt), "Time Zero Sample: " + std::to_string(c), "Phase: 0"}; for (size_t i = 3; i > 0; i--) std::swap(h[i], h[r.i(0, (long)i)]); for (auto& s : h) add(s); add("-----------------"); }
    else if (F == 3) { k = "strata"; add("#STRATA_WHIST"); add("text 1 2 3"); add("#STRATA_WPARAMS"); std::vector<std::string> h = {"~SR" + num(r, dt), "~TZ" + std::to_string(c + 1), "~NS" + std::to_string(n), "~PR 0"}; for (size_t i = 3; i > 0; i--) std::swap(h[i], h[r.i(0, (long)i)]); for (auto& s : h) add(s); }
    else { k = "landmark"; add("Landmark ASCII Wavelet"); add(std::to_string(n)); add(std::to_string(c)); add(num(r, dt)); }
    head = lines.size(); for (long i = 0; i < n; i++) add(F == 2 ? num(r, (i - c) * dt) + "  " + num(r, v[i]) : num(r, v[i]));
    std::string all; for (size_t i = 0; i < lines.size(); i++) all += lines[i] + (i + 1 < lines.size() || r.b(.8) ? "\n" : ""); spit(f, all);
  }
  VH_CHECK(FindWaveletFileType(f) == T, k + "-detected", "type %d", (int)FindWaveletFileType(f));
  long h = std::max(c, n - 1 - c); Mod e; e.dt = dt; e.v.assign(2 * h + 1, 0); double sf = r.b() ? 1 : r.n(); bool scaled = false; for (long i = 0; i < n; i++) e.v[i - c + h] = v[i];
  Wavelet w; switch (r.i(0, 2)) { case 0: w = Wavelet(f, r.b() ? T : UnknownWavelet, sf); scaled = true; break; case 1: w.ReadFromFile(f, T); break; default: { Mod o; w = make(r, o); for (size_t i = 0; i < w.GetNSamples(); i++) w[i] = 7; w.ReadFromFile(f, T); vh::stat("read_over_another"); } }
  if (scaled) for (double& x : e.v) x *= sf; same(e, w, k, rel);
  // a sample too few is an error; so is one too many in a Jason file
  std::string cut; size_t keep = head + r.i(0, n - 1); for (size_t i = 0; i < keep; i++) cut += lines[i] + "\n"; spit(g, cut); VH_CHECK(throws([&] { Wavelet x(g, T); }), k + "-truncated", "%zu of %ld samples were read as a wavelet", keep - head, n);
  if (F <= 1) { std::string more; for (auto& s : lines) more += s + "\n"; more += "1.5\n"; spit(g, more); VH_CHECK(throws([&] { Wavelet x(g, T); }), k + "-too-long", "a sample too many was accepted"); }
  std::remove(f.c_str()); std::remove(g.c_str()); vh::stat("files_" + k); vh::sig(vh::mix(vh::hs(k), n * 64 + c));
}
int main(int c, char** v) { return vh::run(c, v, [](vh::Rng& r, long, const std::string& m) { if (m == "ops") ops(r); else files(r); }); }

// P26: trends: interpolation, edits, statistics, files.
#include "vh.hpp"
#include "nrlib/trend/trend.hpp"
#include "nrlib/trend/trendkit.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/iotools/logkit.hpp"
#include "nrlib/volume/volume.hpp"
#include <fstream>
#include <sstream>
#include <iomanip>
#include <memory>
#include <algorithm>
using namespace NRLib;
typedef long double ld;

struct Mod { int dim; size_t n[3]; std::vector<double> v; int ref[2]; double inc[2]; };  // v: first index fastest
static double big(const Mod& m) { double b = 1e-30; for (double x : m.v) b = std::max(b, std::fabs(x)); return b; }
// multilinear interpolation with constant continuation, at the positions in units of the spacing
static double val(const Mod& m, ld a, ld b = 0, ld c = 0) {
  ld p[3] = {a, b, c}; size_t i0[3], i1[3]; ld t[3];
  for (int d = 0; d < 3; d++) { ld x = std::min<ld>(std::max<ld>(p[d], 0), (ld)m.n[d] - 1); i0[d] = (size_t)floorl(x); i1[d] = std::min(i0[d] + 1, m.n[d] - 1); t[d] = x - i0[d]; }
  ld s = 0; for (int k = 0; k < 8; k++) { ld w = 1; size_t at = 0, st = 1; for (int d = 0; d < 3; d++) { bool u = k >> d & 1; w *= u ? t[d] : 1 - t[d]; at += st * (u ? i1[d] : i0[d]); st *= m.n[d]; } s += w * m.v[at]; } return (double)s;
}
static double pos(vh::Rng& r, size_t n, bool in) { double L = n > 1 ? n - 1.0 : 1; return r.b(.3) ? (double)r.i(0, (long)n - 1) : in || r.b(.7) ? r.u(0, L) : r.u(-2 * L - 1, 3 * L + 1); }
static void value(const Mod& m, double got, double want, const char* k, double a, double b, double c) { VH_CHECK(std::fabs(got - want) <= 1e-9 * big(m), k, "(%.10g,%.10g,%.10g) of a %zux%zux%zu trend gave %.12g, expected %.12g", a, b, c, m.n[0], m.n[1], m.n[2], got, want); }

static void check(vh::Rng& r, const Mod& m, const Trend& t) {
  double mn = *std::min_element(m.v.begin(), m.v.end()), mx = *std::max_element(m.v.begin(), m.v.end()); ld s = 0; for (double x : m.v) s += x; double T = 1e-12 * big(m) * m.v.size();
  VH_CHECK(t.GetTrendDimension() == m.dim, "dimension", "%d expected %d", t.GetTrendDimension(), m.dim);
  VH_CHECK(t.GetMinValue() == mn && t.GetMaxValue() == mx, "extremes", "%g..%g expected %g..%g", t.GetMinValue(), t.GetMaxValue(), mn, mx);
  VH_CHECK(std::fabs(t.GetMeanValue() - (double)(s / m.v.size())) <= T, "mean", "%.12g expected %.12Lg (%dD, %zu values)", t.GetMeanValue(), s / m.v.size(), m.dim, m.v.size());
  VH_CHECK(t.CheckForNegative() == (mn >= 0), "negative", "%d with minimum %g (%dD)", (int)t.CheckForNegative(), mn, m.dim);
  std::vector<int> z = t.GetTrendSize(); std::vector<double> q = t.GetIncrement(); int e[3] = {0, 0, 0}; double f[3] = {0, 0, 0};
  if (m.dim == 0) e[0] = 1; else if (m.dim == 3) for (int d = 0; d < 3; d++) e[d] = (int)m.n[d]; else for (int d = 0; d < m.dim; d++) { e[m.ref[d] - 1] = (int)m.n[d]; f[m.ref[d] - 1] = m.inc[d]; }
  VH_CHECK(z.size() == 3 && z[0] == e[0] && z[1] == e[1] && z[2] == e[2], "size", "%d %d %d expected %d %d %d", z[0], z[1], z[2], e[0], e[1], e[2]); VH_CHECK(q.size() == 3 && vh::close(q[0], f[0], 1e-12, 0) && vh::close(q[1], f[1], 1e-12, 0) && vh::close(q[2], f[2], 1e-12, 0), "increment", "%g %g %g expected %g %g %g", q[0], q[1], q[2], f[0], f[1], f[2]);
  VH_CHECK(t.GetReference() == (m.dim == 1 || m.dim == 2 ? m.ref[0] : 0), "reference", "%d", t.GetReference());
  double L[3] = {r.u(.5, 500), r.u(.5, 500), r.u(.5, 500)}; Volume V(r.n() * 100, r.n() * 100, r.n() * 100, L[0], L[1], L[2], r.u(-3, 3));
  for (int w = 0; w < 12; w++) {
    size_t i = r.i(0, (long)m.n[0] - 1), j = r.i(0, (long)m.n[1] - 1), k = r.i(0, (long)m.n[2] - 1);
    double a = pos(r, m.n[0], m.dim == 3), b = pos(r, m.n[1], m.dim == 3), c = pos(r, m.n[2], m.dim == 3); auto U = [](size_t n) { return n > 1 ? n - 1.0 : 1.0; };
    if (m.dim == 0) { value(m, t.GetValue(a, b, c), m.v[0], "value", a, b, c); value(m, t.GetValue(a, b, c, V), m.v[0], "value", a, b, c); value(m, t.GetTrendElement(1, 2, 3), m.v[0], "element", 1, 2, 3); }
    if (m.dim == 1) {
      double s[3] = {r.n(), r.n(), r.n()}; s[m.ref[0] - 1] = a * m.inc[0]; value(m, t.GetValue(s[0], s[1], s[2]), val(m, (ld)s[m.ref[0] - 1] / m.inc[0]), "value-1d", s[0], s[1], s[2]); int q3[3] = {77, 78, 79}; q3[m.ref[0] - 1] = (int)i; VH_CHECK(t.GetTrendElement(q3[0], q3[1], q3[2]) == m.v[i], "element-1d", "element %zu reference %d", i, m.ref[0]);
      double rel = a / U(m.n[0]); double x[3] = {r.n(), r.n(), r.n()}; x[m.ref[0] - 1] = rel * L[m.ref[0] - 1]; value(m, t.GetValue(x[0], x[1], x[2], V), val(m, (ld)rel / m.inc[0]), "volume-1d", x[0], x[1], x[2]);
    }
    if (m.dim == 2) {
      value(m, t.GetValue(a * m.inc[0], b * m.inc[1], r.n()), val(m, (ld)(a * m.inc[0]) / m.inc[0], (ld)(b * m.inc[1]) / m.inc[1]), "value-2d", a, b, 0); int q3[3] = {0, 0, 0}; q3[m.ref[0] - 1] = (int)i; q3[m.ref[1] - 1] = (int)j; VH_CHECK(t.GetTrendElement(q3[0], q3[1], q3[2]) == m.v[i + j * m.n[0]], "element-2d", "element %zu %zu references %d %d", i, j, m.ref[0], m.ref[1]);
      double x[3] = {r.n(), r.n(), r.n()}; x[m.ref[0] - 1] = a / U(m.n[0]) * L[m.ref[0] - 1]; x[m.ref[1] - 1] = b / U(m.n[1]) * L[m.ref[1] - 1]; value(m, t.GetValue(x[0], x[1], x[2], V), val(m, a, b), "volume-2d", a, b, 0);
    }
    if (m.dim == 3) {
      double x = std::min(1., a / U(m.n[0])), y = std::min(1., b / U(m.n[1])), z3 = std::min(1., c / U(m.n[2])); value(m, t.GetValue(x, y, z3), val(m, (ld)x * (m.n[0] - 1), (ld)y * (m.n[1] - 1), (ld)z3 * (m.n[2] - 1)), "value-3d", a, b, c); VH_CHECK(t.GetTrendElement((int)i, (int)j, (int)k) == m.v[i + m.n[0] * (j + m.n[1] * k)], "element-3d", "element %zu %zu %zu", i, j, k);
      a = pos(r, m.n[0], false); b = pos(r, m.n[1], false); c = pos(r, m.n[2], false); value(m, t.GetValue(a / U(m.n[0]) * L[0], b / U(m.n[1]) * L[1], c / U(m.n[2]) * L[2], V), val(m, m.n[0] > 1 ? a : 0, m.n[1] > 1 ? b : 0, m.n[2] > 1 ? c : 0), "volume-3d", a, b, c);
    }
    vh::stat("lookups");
  }
  vh::sig(vh::mix(m.dim * 1000 + m.n[0] * 100 + m.n[1] * 10 + m.n[2], vh::hd(m.v[0])));
}
static void edit(vh::Rng& r, Mod& m, Trend& t) {
  std::unique_ptr<Trend> c(t.Clone()); Mod o = m;
  for (int q = (int)r.i(0, 4); q > 0; q--) {
    switch (r.i(0, 2)) {
      case 0: { double a = r.n() * 2; t.AddConstant(a); for (double& x : m.v) x += a; break; }
      case 1: { double a = r.n() * 3, b = a + r.u(0, 4); t.Truncate(a, b); for (double& x : m.v) x = std::min(std::max(x, a), b); break; }
      default: { ld s = 0; for (double x : m.v) s += x; double mean = (double)(s / m.v.size()); if (std::fabs(mean) < 1e-3 * big(m) || mean == 0) break; double g = r.u(.5, 3) * (r.b() ? 1 : -1); t.ScaleToAverage(g); if (m.dim == 0) m.v[0] = g; else for (double& x : m.v) x *= g / mean; VH_CHECK(vh::close(t.GetMeanValue(), g, 1e-9 * big(o) + 1e-8, 0), "scaled-mean", "mean %.12g after scaling to %.12g (%dD)", t.GetMeanValue(), g, m.dim); }
    }
    // take over rounding, after checking it
    for (size_t k = 0; k < m.n[2]; k++) for (size_t j = 0; j < m.n[1]; j++) for (size_t i = 0; i < m.n[0]; i++) { int z[3] = {(int)i, (int)j, (int)k}; if (m.dim == 1 || m.dim == 2) { z[0] = z[1] = z[2] = 0; z[m.ref[0] - 1] = (int)i; if (m.dim == 2) z[m.ref[1] - 1] = (int)j; } double g = t.GetTrendElement(z[0], z[1], z[2]), &w = m.v[i + m.n[0] * (j + m.n[1] * k)]; VH_CHECK(std::fabs(g - w) <= 1e-9 * (std::fabs(w) + big(m)), "edited-value", "(%zu,%zu,%zu) is %.12g, expected %.12g", i, j, k, g, w); w = g; }
    vh::stat("edits");
  }
  check(r, m, t); check(r, o, *c);
}
static Mod model(vh::Rng& r, int dim) {
  Mod m; m.dim = dim; for (int d = 0; d < 3; d++) m.n[d] = d < dim ? r.i(dim == 1 ? 2 : r.b(.1) ? 1 : 2, 7) : 1; m.v.resize(m.n[0] * m.n[1] * m.n[2]); bool p = r.b(.3); for (double& x : m.v) x = p ? r.u(0, 5) : r.n() * 3; if (p && r.b()) m.v[r.b() ? 0 : r.i(0, (long)m.v.size() - 1)] = -1; 
  if (dim == 1) { m.ref[0] = (int)r.i(1, 3); m.ref[1] = 0; } else { int k = (int)r.i(0, 2); m.ref[0] = k == 0 ? 2 : 1; m.ref[1] = k == 2 ? 2 : 3; }
  for (int d = 0; d < 2; d++) m.inc[d] = 1 / (m.n[d] - 1.0);
  return m;
}
static void trends(vh::Rng& r) {
  int dim = (int)r.i(0, 3); Mod m = model(r, dim);
  if (dim == 0) { TrendConstant t(m.v[0]); VH_CHECK(t.GetValue() == m.v[0], "constant", "%g", t.GetValue()); check(r, m, t); edit(r, m, t);
    double L[3] = {r.u(1, 9), r.u(1, 9), r.u(1, 9)}, A = r.u(-3, 3), X = r.n() * 50, Y = r.n() * 50; Volume V(X, Y, r.n(), L[0], L[1], L[2], A); for (int q = 0; q < 20; q++) { Point p = t.DrawPoint(V); double a = p.x - X, b = p.y - Y, u = std::cos(A) * a + std::sin(A) * b, w = -std::sin(A) * a + std::cos(A) * b; VH_CHECK(u >= -1e-9 && u <= L[0] + 1e-9 && w >= -1e-9 && w <= L[1] + 1e-9 && p.z >= 0 && p.z <= L[2], "draw", "(%g,%g,%g) in %g %g %g", u, w, p.z, L[0], L[1], L[2]); } }
  if (dim == 1) { std::unique_ptr<Trend1D> t; if (r.b()) t.reset(m.ref[0] == 1 && r.b() ? new Trend1D(m.v) : new Trend1D(m.v, m.ref[0])); else { m.inc[0] = r.logu(.01, 50); t.reset(new Trend1D(m.v, m.ref[0], m.inc[0])); } if (m.ref[0] == 1) { double s = r.u(-1, 2) * m.inc[0]; VH_CHECK(t->GetValue(s) == t->GetValue(s, 0, 0) && t->GetValue(s, 5) == t->GetValue(s, 0, 0), "short-forms", "%g", s); } check(r, m, *t); edit(r, m, *t); bool th = false; try { Trend1D b(m.v, r.b() ? 0 : 4); } catch (NRLib::Exception&) { th = true; } VH_CHECK(th, "bad-reference", "accepted"); }
  if (dim == 2) { Grid2D<double> g(m.n[0], m.n[1]); for (size_t i = 0; i < m.v.size(); i++) g(i) = m.v[i]; std::unique_ptr<Trend2D> t; if (m.n[0] < 2 || m.n[1] < 2 || r.b()) { m.inc[0] = r.logu(.01, 50); m.inc[1] = r.logu(.01, 50); t.reset(new Trend2D(g, m.ref[0], m.ref[1], m.inc[0], m.inc[1])); } else t.reset(new Trend2D(g, m.ref[0], m.ref[1])); check(r, m, *t); edit(r, m, *t); double a = r.u(-1, 2), b = r.u(-1, 2); VH_CHECK(t->GetValue(a, b) == t->GetValue(a, b, 0), "short-forms", "2d"); }
  if (dim == 3) { Grid<double> g(m.n[0], m.n[1], m.n[2]); for (size_t i = 0; i < m.v.size(); i++) g(i) = m.v[i]; Trend3D t(g); g(0) += 1; check(r, m, t); edit(r, m, t); }
}
static void spit(const std::string& f, const std::string& d) { std::ofstream o(f, std::ios::binary); o << d; }
static void files(vh::Rng& r) {
  int dim = (int)r.i(1, 3); Mod m = model(r, dim); for (int d = 0; d < dim; d++) if (m.n[d] < 2) m = model(r, dim); for (int d = 0; d < dim; d++) if (m.n[d] < 2) return;
  std::string f = vh::path("trend"), cut; std::ostringstream o; o << std::setprecision(17); bool th = false;
  auto sep = [&] { return r.b(.2) ? "\n" : " "; };
  if (dim == 1) {
    bool jason = r.b(); if (jason) { for (int q = (int)r.i(1, 3); q > 0; q--) o << (r.b() ? "\"* comment text 1 2\n" : "* other\n"); o << "\"trend\", \"none\", \"depth\", \"m\"\n" << r.i(-5, 5) << "\n" << r.u(.1, 3) << "\n" << m.n[0] << "\n"; for (double x : m.v) o << x << "\n"; } else for (double x : m.v) o << x << (r.b() ? "\n" : " ");
    spit(f, o.str()); std::string err; VH_CHECK(GetTrend1DFileFormat(f, err) == (jason ? 0 : 1) && err == "", "format-1d", "%d '%s'", GetTrend1DFileFormat(f, err), err.c_str()); Trend1D t(f, m.ref[0]); check(r, m, t);
    if (jason) { std::string a = o.str(); a.erase(a.size() - 1); a.erase(a.find_last_of('\n') + 1); spit(f, a); try { Trend1D b(f); } catch (NRLib::Exception&) { th = true; } VH_CHECK(th, "truncated-1d", "a value too few"); }
  } else if (dim == 2) {
    if (r.b(.6)) { o << m.n[0] << " " << m.n[1] << "\n"; for (size_t i = 0; i < m.n[0]; i++) for (size_t j = 0; j < m.n[1]; j++) o << m.v[i + j * m.n[0]] << sep(); spit(f, o.str()); Trend2D t(f, m.ref[0], m.ref[1]); check(r, m, t);
      std::string a = o.str(); a.erase(a.find_last_not_of(" \n")); a.erase(a.find_last_of(" \n") + 1); spit(f, a); try { Trend2D b(f); } catch (NRLib::Exception&) { th = true; } VH_CHECK(th, "truncated-2d", "a value too few"); }
    else { RegularSurface<double> s(r.n(), r.n(), r.u(1, 9), r.u(1, 9), m.n[0], m.n[1]); for (size_t i = 0; i < m.v.size(); i++) s(i) = m.v[i]; s.WriteToFile(f, SURF_STORM_BINARY); Trend2D t(f, m.ref[0], m.ref[1]); check(r, m, t); vh::stat("from_surface"); }
  } else {
    bool bin = r.b(); Endianess e = r.b() ? END_LITTLE_ENDIAN : END_BIG_ENDIAN; if (bin) for (double& x : m.v) x = (double)(float)x;
    if (!bin) { o << m.n[0] << " " << m.n[1] << " " << m.n[2] << "\n"; for (double x : m.v) o << x << sep(); spit(f, o.str()); }
    else { std::string d; auto put = [&](const void* p) { char b[4]; std::memcpy(b, p, 4); if (e == END_BIG_ENDIAN) std::reverse(b, b + 4); d.append(b, 4); }; for (int k = 0; k < 3; k++) { int n = (int)m.n[k]; put(&n); } for (double x : m.v) { float y = (float)x; put(&y); } spit(f, d); cut = d.substr(0, d.size() - r.i(1, 8)); }
    Trend3D t(f, bin, e); check(r, m, t); if (bin) { spit(f, cut); try { Trend3D b(f, true, e); } catch (NRLib::Exception&) { th = true; } VH_CHECK(th, "truncated-3d", "a value too few"); }
  }
  std::remove(f.c_str()); vh::stat("files");
}
static void kit(vh::Rng& r) {
  // the constant trend is the mean of the defined values of all wells
  std::vector<std::vector<double>> w(r.i(0, 4)); ld s = 0; int n = 0; std::vector<double> all; for (auto& a : w) { a.resize(r.b(.2) ? 0 : r.i(0, 9)); for (double& x : a) { x = r.b(.3) ? RMISSING : r.n(); if (x != RMISSING) { s += x; n++; all.push_back(x); } } }
  double t = -7; EstimateConstantTrend(w, t); if (n) VH_CHECK(std::fabs(t - (double)(s / n)) < 1e-12 * (1 + n), "constant-trend", "%.12g expected %.12Lg from %zu wells", t, s / n, w.size()); std::vector<double> y(3, 1); PreprocessData0D(w, y); VH_CHECK(y == all, "defined-values", "%zu expected %zu", y.size(), all.size());
  size_t nx = r.i(2, 8), ny = r.i(1, 12); std::vector<double> x(nx), fx(nx), q(ny), fy(ny, -5); x[0] = r.n(); for (size_t i = 1; i < nx; i++) x[i] = x[i - 1] + r.u(.1, 2); for (double& a : fx) a = r.n(); for (double& a : q) a = r.b(.2) ? x[r.i(0, (long)nx - 2)] : r.u(x[0], x.back()); std::sort(q.begin(), q.end()); if (q.back() >= x.back()) return;
  ResampleTrend1D(x, fx, q, fy); for (size_t j = 0; j < ny; j++) { size_t i = 0; while (i + 2 < nx && q[j] >= x[i + 1]) i++; double e = fx[i] + (fx[i + 1] - fx[i]) * (q[j] - x[i]) / (x[i + 1] - x[i]); VH_CHECK(std::fabs(fy[j] - e) < 1e-9, "resample", "at %g: %.12g expected %.12g", q[j], fy[j], e); }
  vh::stat("kit"); vh::sig(vh::mix(nx * 100 + ny, vh::hd(x[0])));
}
int main(int c, char** v) { Random::Initialize(7); return vh::run(c, v, [](vh::Rng& r, long, const std::string& m) { if (m == "trend") trends(r); else if (m == "file") files(r); else kit(r); }); }

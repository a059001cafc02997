// P30: trends and variances estimated from wells, and trends made from their definitions.
#include "vh.hpp"
#include <fstream>
#include <memory>
#include "nrlib/trend/trend.hpp"
#include "nrlib/trend/trendkit.hpp"
#include "nrlib/trend/trendstorage.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/surface/surfaceio.hpp"
using namespace NRLib;
typedef std::vector<double> V;
typedef std::vector<V> W;
typedef std::unique_ptr<Trend> T;
static const double MISS = -99999.0;
struct In { W cube, logs, s1, s2; std::vector<std::string> par; };
static V axis(vh::Rng& r, long n) { double a = r.b(.3) ? 0 : r.u(-2, 2), len = r.logu(1, 100); V v(n); for (long i = 0; i < n; i++) v[i] = (a + (double)i / (n - 1)) * len; return v; }
static double len(const V& v) { return v.back() - v[0]; }
// samples over the whole of the cube (in: strictly inside it), positions relative to its start
static In input(vh::Rng& r, long n1, long n2, long per, double miss, double out) {
  In d; d.cube = {axis(r, n1), axis(r, n2)}; d.par = {"depth", "age"}; long w = r.i(1, 6); d.logs.resize(w); d.s1.resize(w); d.s2.resize(w);
  for (long k = 0; k < w; k++) { long n = r.b(.05) ? 0 : per / w + 1; for (long j = 0; j < n; j++) { double a = r.u(.001, .999), b = r.u(.001, .999); if (r.b(out)) a = r.u(-.1, 1.1); if (r.b(out)) b = r.u(-.1, 1.1); d.s1[k].push_back(a * len(d.cube[0])); d.s2[k].push_back(b * len(d.cube[1])); d.logs[k].push_back(r.n()); if (r.b(miss)) { int q = (int)r.i(0, 2); (q == 0 ? d.s1 : q == 1 ? d.s2 : d.logs)[k].back() = MISS; } } }
  return d;
}
static bool ok(const In& d, size_t k, size_t j) { return d.logs[k][j] != MISS && d.s1[k][j] != MISS && d.s2[k][j] != MISS; }
template <class F> static void each(In& d, F f) { for (size_t k = 0; k < d.logs.size(); k++) for (size_t j = 0; j < d.logs[k].size(); j++) f(k, j); }
static long count(In& d) { long n = 0; each(d, [&](size_t k, size_t j) { n += ok(d, k, j); }); return n; }
static T gen(const TrendStorage& s, const In& d, int type, const Trend* mean, std::string& err, const std::string& path = "") { std::unique_ptr<TrendStorage> c(s.Clone()); return T(c->GenerateTrend(path, d.par, d.cube, d.logs, d.s1, d.s2, type, mean, err)); }
static V values(const In& d, const Trend& t) { V v; for (size_t i = 0; i < d.cube[0].size(); i++) for (size_t j = 0; j < d.cube[1].size(); j++) v.push_back(t.GetTrendElement((int)i, (int)j, 0)); return v; }
static double range(const V& v) { double a = 1e300, b = -1e300; for (double x : v) { a = std::min(a, x); b = std::max(b, x); } return b - a; }
static void shuffle(vh::Rng& r, In& d) {  // the same samples in other wells and another order, other missing ones
  struct S { double a, b, c; }; std::vector<S> s; each(d, [&](size_t k, size_t j) { if (ok(d, k, j)) s.push_back({d.s1[k][j], d.s2[k][j], d.logs[k][j]}); }); for (size_t i = s.size(); i > 1; i--) std::swap(s[i - 1], s[r.i(0, (long)i - 1)]);
  size_t w = (size_t)r.i(1, 7); d.logs.assign(w, V()); d.s1 = d.s2 = d.logs; for (auto& x : s) { size_t k = (size_t)r.i(0, (long)w - 1); d.s1[k].push_back(x.a); d.s2[k].push_back(x.b); d.logs[k].push_back(x.c); if (r.b(.1)) { d.s1[k].push_back(x.a); d.s2[k].push_back(x.b); d.logs[k].push_back(MISS); } }
}
static std::unique_ptr<TrendStorage> store(const std::string& kind) { if (kind == "0") return std::unique_ptr<TrendStorage>(new TrendConstantStorage(3, true)); if (kind == "2") return std::unique_ptr<TrendStorage>(new Trend2DStorage("none", "depth", "age", true)); return std::unique_ptr<TrendStorage>(new Trend1DStorage("none", kind == "1a" ? "depth" : "age", true)); }
// least squares with Gaussian weights at one position, the width growing until enough samples count
static double local(const V& x, const V& y, double x0) {
  double n = (double)x.size(), m = 0, v = 0, lo = 1e300, hi = -1e300; for (double a : x) { m += a / n; lo = std::min(lo, a); hi = std::max(hi, a); } for (double a : x) v += (a - m) * (a - m) / (n - 1);
  double bw = std::sqrt(v) * std::pow(n, -.2), ess = std::sqrt(2 * M_PI) * bw * n / (hi - lo); for (int q = 0; q < 10000; q++, bw *= 1.005) { long double w = 0, a = 0, b = 0, c = 0, d = 0; for (size_t i = 0; i < x.size(); i++) { double t = (x[i] - x0) / bw; if (t * t > std::log(1e5)) continue; double g = std::exp(-.5 * t * t); w += g; a += g * x[i]; b += g * x[i] * x[i]; c += g * y[i]; d += g * x[i] * y[i]; } if (w <= ess) continue; b *= 1 + 1e-4; long double det = w * b - a * a; return (double)(((b * c - a * d) + x0 * (w * d - a * c)) / det); }
  return MISS;
}
static void mean(vh::Rng& r) {
  static const char* K[] = {"0", "1a", "1b", "2"}; std::string k = K[r.i(0, 3)], err, e2, e3; bool big = false, two = k == "2"; In d = input(r, r.i(2, two ? 25 : 60), r.i(2, two ? 25 : 60), (big = k[0] == '1' && r.b(.006)) ? 17500 : r.i(two ? 60 : 25, two ? 200 : 300), r.b(.5) ? .2 : 0, .1); if (big) vh::stat("large means"); if (!two && k != "0" && r.b(.1)) d.cube[k == "1b"] = axis(r, r.i(129, 400)), d.s1 = d.s1; auto s = store(k);
  double a = r.n() * 5, b = r.n() * 5, c = r.n() * 20, sc = r.logu(.01, 100), noise = r.b(.3) ? 0 : .3; if (count(d) < (two ? 50 : 20)) return; if (len(d.cube[0]) <= 0) return;
  // positions were drawn for the old length if the axis changed
  each(d, [&](size_t w, size_t j) { if (d.logs[w][j] != MISS) d.logs[w][j] = sc * (c + a * d.s1[w][j] / len(d.cube[0]) + b * d.s2[w][j] / len(d.cube[1]) + noise * r.n()); });
  T t = gen(*s, d, TrendStorage::MEAN, 0, err); VH_CHECK(t && err == "", "mean-error", "%s: %s", k.c_str(), err.c_str()); if (!t) return; V v = values(d, *t); vh::stat(k == "0" ? "constant" : two ? "surfaces" : "lines"); V all; each(d, [&](size_t w, size_t j) { if (d.logs[w][j] != MISS) all.push_back(d.logs[w][j]); }); double R = range(all) + 1e-9; for (double x : v) VH_CHECK(std::isfinite(x) && x != MISS, "mean-finite", "%s: %g", k.c_str(), x);
  if (k == "0") { double m = 0; for (double x : all) m += x / (double)all.size(); VH_CHECK(std::fabs(v[0] - m) <= 1e-9 * (R + std::fabs(m)), "mean-constant", "%g, expected %g", v[0], m); }
  // the same samples arranged otherwise
  if (k != "0") { In p = d; if (two) shuffle(r, p); else { In q = d; each(q, [&](size_t w, size_t j) { (k == "1a" ? q.s2 : q.s1)[w][j] = 0; }); p = q; shuffle(r, p); } T u = gen(*s, p, TrendStorage::MEAN, 0, e2); if (u) { V z = values(d, *u); double D = 0; for (size_t i = 0; i < v.size(); i++) D = std::max(D, std::fabs(v[i] - z[i])); VH_CHECK(D <= 2e-2 * R, "mean-order", "%s: the order of the samples changed it by %g of %g", k.c_str(), D, R); } else VH_CHECK(false, "mean-order", "%s", e2.c_str()); }
  // values times a factor plus a constant
  { In p = d; double f = r.n() * 3, g = r.n() * 10 * R; each(p, [&](size_t w, size_t j) { if (p.logs[w][j] != MISS) p.logs[w][j] = f * p.logs[w][j] + g; }); T u = gen(*s, p, TrendStorage::MEAN, 0, e3); if (u) { V z = values(d, *u); for (size_t i = 0; i < v.size(); i++) VH_CHECK(std::fabs(z[i] - (f * v[i] + g)) <= 1e-5 * (std::fabs(f) * (R + std::fabs(v[i])) + std::fabs(g)), "mean-linear", "%s: %g, expected %g", k.c_str(), z[i], f * v[i] + g); } else VH_CHECK(false, "mean-linear", "%s", e3.c_str()); }
  if (k[0] == '1') { int ax = k == "1b"; V x, y; double lo = 1e300, hi = -1e300; each(d, [&](size_t w, size_t j) { double q = (ax ? d.s2 : d.s1)[w][j]; if (q != MISS && d.logs[w][j] != MISS) { x.push_back(q + d.cube[ax][0]); y.push_back(d.logs[w][j]); lo = std::min(lo, x.back()); hi = std::max(hi, x.back()); } }); size_t n = d.cube[ax].size(); bool one = true; for (size_t i = 0; i < n; i++) { double g = t->GetTrendElement(ax ? 0 : (int)i, ax ? (int)i : 0, 0), p = d.cube[ax][i]; if (p < lo || p > hi || n > 128 || (big && n < 25)) continue; double e = local(x, y, p); VH_CHECK(std::fabs(g - e) <= (big ? .08 : .02) * R, "mean-local", "at %g (%zu samples in %g..%g): %g, expected about %g", p, x.size(), lo, hi, g, e); } for (size_t i = 0; i < d.cube[0].size(); i++) for (size_t j = 0; j < d.cube[1].size(); j++) one = one && t->GetTrendElement((int)i, (int)j, 0) == t->GetTrendElement(ax ? 0 : (int)i, ax ? (int)j : 0, 0); VH_CHECK(one && t->GetReference() == ax + 1, "mean-axis", "reference %d", t->GetReference()); }
  if (two) {  // close to the plane behind the values, away from the edges
    double worst = 0; size_t n1 = d.cube[0].size(), n2 = d.cube[1].size(); for (size_t i = 0; i < n1; i++) for (size_t j = 0; j < n2; j++) { double p = (double)i / (n1 - 1), q = (double)j / (n2 - 1); if (p < .1 || p > .9 || q < .1 || q > .9) continue; worst = std::max(worst, std::fabs(t->GetTrendElement((int)i, (int)j, 0) - sc * (c + a * p + b * q))); } double tol = sc * (.2 * (std::fabs(a) + std::fabs(b)) + noise * 5); VH_CHECK(worst <= tol, "mean-plane", "off by %g, plane slopes %g %g", worst, sc * a, sc * b);
    In p = d; std::swap(p.cube[0], p.cube[1]); std::swap(p.s1, p.s2); std::string e4; T u = gen(*s, p, TrendStorage::MEAN, 0, e4); double D = 0; if (u) for (size_t i = 0; i < n1; i++) for (size_t j = 0; j < n2; j++) D = std::max(D, std::fabs(u->GetTrendElement((int)j, (int)i, 0) - t->GetTrendElement((int)i, (int)j, 0))); VH_CHECK(u && D <= 2e-2 * R, "mean-transposed", "%g of %g", D, R); }
  vh::sig(vh::hs(vh::fmt("%s %.12g %.12g %zu", k.c_str(), v[0], v.back(), v.size())));
}
static void var(vh::Rng& r) {
  static const char* K[] = {"0", "1a", "1b", "2"}; std::string k = K[r.i(0, 3)], err, e2; int mk = (int)r.i(0, 3); if (k == "1a" && mk == 2) mk = 1; if (k == "1b" && mk == 1) mk = 2; long n1 = r.i(2, 25), n2 = r.i(2, 25); if (k[0] == '1' && r.b(.05)) (k == "1a" ? n1 : n2) = r.i(129, 300); bool big = (r.b(.004) && k[0] == '1' && mk != 3) || (r.b(.003) && k == "2"); In d = input(r, n1, n2, big ? 17500 : r.i(60, 200), r.b(.5) ? .2 : 0, big ? .1 : 0); if (count(d) < 30) return;
  double a = r.n() * 3, b = r.n() * 3, c = r.n() * 10, sd = r.logu(.01, 100); if (mk == 0) a = b = 0; if (mk == 1) b = 0; if (mk == 2) a = 0; V l1, l2; Grid2D<double> g(n1, n2); double i1 = d.cube[0][1] - d.cube[0][0], i2 = d.cube[1][1] - d.cube[1][0]; for (long i = 0; i < n1; i++) for (long j = 0; j < n2; j++) g(i, j) = c + a * i / (n1 - 1) + b * j / (n2 - 1); for (long i = 0; i < n1; i++) l1.push_back(g(i, 0)); for (long j = 0; j < n2; j++) l2.push_back(g(0, j)); T m(mk == 0 ? (Trend*)new TrendConstant(c) : mk == 1 ? (Trend*)new Trend1D(l1, 1, i1) : mk == 2 ? (Trend*)new Trend1D(l2, 2, i2) : (Trend*)new Trend2D(g, 1, 2, i1, i2));
  bool pm = r.b(); each(d, [&](size_t w, size_t j) { if (d.logs[w][j] == MISS || d.s1[w][j] == MISS || d.s2[w][j] == MISS) return; double z = pm ? (r.b() ? 1 : -1) : r.n(); d.logs[w][j] = c + a * d.s1[w][j] / len(d.cube[0]) + b * d.s2[w][j] / len(d.cube[1]) + sd * z; }); each(d, [&](size_t w, size_t j) { if (!ok(d, w, j)) d.logs[w][j] = MISS; });
  auto s = store(k); T t = gen(*s, d, TrendStorage::VAR, m.get(), err); VH_CHECK(t && err == "", "var-error", "%s about %d: %s", k.c_str(), mk, err.c_str()); if (!t || err != "") return; V v = values(d, *t); double n = (double)count(d), lo = 1e300, hi = -1e300; for (double x : v) { lo = std::min(lo, x); hi = std::max(hi, x); VH_CHECK(std::isfinite(x), "var-finite", "%g", x); } vh::stat("variances"); if (big) vh::stat("large samples");
  VH_CHECK(lo >= 0, "var-negative", "%s: %g", k.c_str(), lo); double tol = 1e-4 * (sd * sd + std::fabs(c) + std::fabs(a) + std::fabs(b)) * std::max(1.0, 1 / sd) * 1e-2 + 1e-6 * sd * sd;
  if (pm) VH_CHECK(lo >= sd * sd - 2 * tol && hi <= sd * sd * n / (n - (big ? 4000 : 1)) + 2 * tol, "var-even", "%s about %d: all deviations are %g, variance %g to %g", k.c_str(), mk, sd, lo, hi); else VH_CHECK(lo >= .1 * sd * sd && hi <= 5 * sd * sd, "var-size", "%s about %d: standard deviation %g, variance %g to %g", k.c_str(), mk, sd, lo, hi);
  if (k == "0" && !big) { long double q = 0; each(d, [&](size_t w, size_t j) { if (!ok(d, w, j)) return; double e = d.logs[w][j] - (c + a * d.s1[w][j] / len(d.cube[0]) + b * d.s2[w][j] / len(d.cube[1])); q += (long double)e * e; }); VH_CHECK(std::fabs(v[0] - (double)q / (n - 1)) <= 1e-6 * v[0] + tol, "var-constant", "%g, expected %g", v[0], (double)q / (n - 1)); }
  if (!big && k != "0") {  // larger deviations on one side give a larger variance there
    In p = d; int ax = k == "1b" || (k == "2" && r.b()); each(p, [&](size_t w, size_t j) { if (!ok(p, w, j)) return; double e = c + a * p.s1[w][j] / len(p.cube[0]) + b * p.s2[w][j] / len(p.cube[1]), f = (ax ? p.s2 : p.s1)[w][j] / len(p.cube[ax]) < .5 ? 1 : 6; p.logs[w][j] = e + (p.logs[w][j] - e) * f; }); T u = gen(*s, p, TrendStorage::VAR, m.get(), e2); bool two = k == "2"; double x = 0, y = 0; if (u) for (int q = 0; q < (two ? (int)(ax ? n1 : n2) : 1); q++) { int e = (int)(ax ? n2 : n1) - 1, o = two ? q : 0; x += u->GetTrendElement(ax ? o : 0, ax ? 0 : o, 0); y += u->GetTrendElement(ax ? o : e, ax ? e : o, 0); } VH_CHECK(u && (two ? x < 1.5 * y : x < y), "var-local", "%s: %g where deviations are small, %g where large", k.c_str(), x, y); }
  vh::sig(vh::hs(vh::fmt("%s %d %.12g %.12g", k.c_str(), mk, lo, hi)));
}
static void bad(vh::Rng& r) {  // too little data: a result or a message
  static const char* K[] = {"0", "1a", "1b", "2"}; std::string k = K[r.i(0, 3)], err; In d = input(r, r.i(2, 20), r.i(2, 20), r.i(0, 15), r.b(.3) ? 1 : .3, .3); if (r.b(.2)) { each(d, [&](size_t w, size_t j) { if (d.s1[w][j] != MISS) d.s1[w][j] = 0; }); } if (r.b(.3)) { double f = r.b() ? r.logu(5, 500) : r.logu(1e-3, .2); for (auto& x : d.cube[r.i(0, 1)]) x *= f; } bool v = r.b(); TrendConstant m(1); T t = gen(*store(k), d, v ? TrendStorage::VAR : TrendStorage::MEAN, &m, err); long n = 0, nl = 0; each(d, [&](size_t w, size_t j) { nl += d.logs[w][j] != MISS; n += ok(d, w, j); });
  if (nl == 0) VH_CHECK(err != "" || (k == "0" && !v), "nothing", "%s: no message without any data", k.c_str()); VH_CHECK(t || err != "", "silent", "%s: neither trend nor message", k.c_str()); if (t && err == "" && (k == "0")) VH_CHECK(std::isfinite(t->GetTrendElement(0, 0, 0)), "bad-finite", "%s var %d: %g from %ld samples", k.c_str(), (int)v, t->GetTrendElement(0, 0, 0), nl); vh::stat(err == "" ? "small accepted" : "small refused"); vh::eval(); vh::sig(vh::hs(vh::fmt("%s %d %ld %s", k.c_str(), (int)v, n, err.c_str())));
}
static void file(vh::Rng& r) {
  In d = input(r, r.i(2, 30), r.i(2, 30), 5, 0, 0); std::string dir = vh::path(""), f = vh::path("t.txt"), err; std::ofstream o(f); o.precision(17); int k = (int)r.i(0, 2);
  if (k == 0) { double x = r.n(); T t = gen(TrendConstantStorage(x, false), d, r.i(0, 1), 0, err); VH_CHECK(t && t->GetTrendElement(3, 4, 5) == x && err == "", "given-constant", "%g", x); }
  else if (k == 1) { int ax = (int)r.i(0, 1); V& q = d.cube[ax]; long n = r.i(2, 40); double s0 = q[0] - (r.b(.3) ? 0 : r.u(0, 1)), s1 = q.back() + (r.b(.4) ? 0 : r.u(0, 1)), dz = (s1 - s0) / (n - 1); if (r.b(.3)) { n = (long)q.size(); s0 = q[0]; dz = q[1] - q[0]; } V y(n); o << "* a trend\n" << s0 << "\n" << dz << "\n" << n << "\n"; for (double& x : y) { x = r.n() * 10; o << x << "\n"; } o.close(); bool cover = q.back() <= s0 + dz * (n - 1) + 1e-9 * len(q); T t = gen(Trend1DStorage("t.txt", d.par[ax], false), d, TrendStorage::MEAN, 0, err, dir); VH_CHECK(t && err == "", "file-1d-error", "%s", err.c_str()); if (t && cover) for (size_t i = 0; i < q.size(); i++) { double p = (q[i] - s0) / dz; long j = std::max(0L, std::min(n - 2, (long)std::floor(p))); double w = std::min(1.0, std::max(0.0, p - j)), e = y[j] * (1 - w) + y[j + 1] * w, g = t->GetTrendElement(ax ? 0 : (int)i, ax ? (int)i : 0, 0); VH_CHECK(std::fabs(g - e) <= 1e-6 * (1 + std::fabs(e)), "file-1d", "sample %zu of %zu (file of %ld): %g, expected %g", i, q.size(), n, g, e); }
    std::string e2; T u = gen(Trend1DStorage("t.txt", "other", false), d, TrendStorage::MEAN, 0, e2, dir); VH_CHECK(!u && e2 != "", "unknown-reference", "accepted"); In p = d; for (double& x : p.cube[ax]) x -= 3 + len(q); std::string e3; T w = gen(Trend1DStorage("t.txt", d.par[ax], false), p, TrendStorage::MEAN, 0, e3, dir); VH_CHECK(!w && e3 != "", "outside", "a trend that does not cover the cube was accepted"); }
  else { bool tr = r.b(); V &x = d.cube[tr], &y = d.cube[!tr]; long n = r.i(2, 12), m = r.i(2, 12); Grid2D<double> g(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) g(i, j) = (float)(r.n() * 10); double x0 = x[0] - r.u(.1, 1), y0 = y[0] - r.u(.1, 1), lx = len(x) + r.u(1.1, 2), ly = len(y) + r.u(1.1, 2); RegularSurface<double> s(x0, y0, lx, ly, n, m, 0.0); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) s(i, j) = g(i, j); o.close(); s.WriteToFile(f, SURF_STORM_BINARY); RegularSurface<double> rd(f); T t = gen(Trend2DStorage("t.txt", tr ? "age" : "depth", tr ? "depth" : "age", false), d, TrendStorage::MEAN, 0, err, dir); VH_CHECK(t && err == "", "file-2d-error", "%s", err.c_str()); if (t) for (size_t i = 0; i < d.cube[0].size(); i++) for (size_t j = 0; j < d.cube[1].size(); j++) { double a = d.cube[0][i], b = d.cube[1][j], e = tr ? rd.GetZ(b, a) : rd.GetZ(a, b), q = t->GetTrendElement((int)i, (int)j, 0); VH_CHECK(std::fabs(q - e) <= 1e-6 * (1 + std::fabs(e)), "file-2d", "%zu %zu transposed %d: %g, expected %g", i, j, (int)tr, q, e); }
    std::string e2; T u = gen(Trend2DStorage("t.txt", "depth", "other", false), d, TrendStorage::MEAN, 0, e2, dir); VH_CHECK(e2 != "", "unknown-reference", "accepted"); }
  remove(f.c_str()); vh::stat("definitions"); vh::sig(vh::hs(vh::fmt("%d %.12g %.12g %zu", k, d.cube[0][0], d.cube[1].back(), d.cube[0].size())));
}
int main(int argc, char** argv) { return vh::run(argc, argv, [](vh::Rng& r, long, const std::string& m) { if (m == "mean") mean(r); else if (m == "var") var(r); else if (m == "bad") bad(r); else file(r); }); }

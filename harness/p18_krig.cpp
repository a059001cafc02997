// P18: kriging against a dense long-double solution of the covariance equations.
#include "vh.hpp"
#include "nrlib/statistics/kriging.hpp"
#include "nrlib/variogram/variogram.hpp"
#include <algorithm>
#include <memory>
using namespace NRLib;
typedef long double ld;

// solves K x = r; returns an estimate of the condition number (infinity norm), or inf
static ld solve(std::vector<std::vector<ld> > K, std::vector<ld> r, std::vector<ld>& x) {
  size_t n = r.size(); ld nk = 0; std::vector<std::vector<ld> > I(n, std::vector<ld>(n, 0));
  for (size_t i = 0; i < n; i++) { I[i][i] = 1; ld s = 0; for (size_t j = 0; j < n; j++) s += fabsl(K[i][j]); nk = std::max(nk, s); }
  for (size_t c = 0; c < n; c++) {
    size_t p = c; for (size_t i = c + 1; i < n; i++) if (fabsl(K[i][c]) > fabsl(K[p][c])) p = i;
    if (fabsl(K[p][c]) < 1e-17L) return INFINITY;
    std::swap(K[p], K[c]); std::swap(I[p], I[c]);
    for (size_t i = 0; i < n; i++) if (i != c) { ld f = K[i][c] / K[c][c]; if (f == 0) continue; for (size_t j = c; j < n; j++) K[i][j] -= f * K[c][j]; for (size_t j = 0; j < n; j++) I[i][j] -= f * I[c][j]; }
  }
  ld ni = 0; x.assign(n, 0);
  for (size_t i = 0; i < n; i++) { ld s = 0; for (size_t j = 0; j < n; j++) { I[i][j] /= K[i][i]; s += fabsl(I[i][j]); x[i] += I[i][j] * r[j]; } ni = std::max(ni, s); }
  return nk * ni;
}
static Variogram* vario(vh::Rng& r, double scale, bool compact) {
  static const Variogram::Type T[] = {Variogram::EXPONENTIAL, Variogram::SPHERICAL, Variogram::GENERAL_EXPONENTIAL, Variogram::MATERN32, Variogram::GAUSSIAN, Variogram::MATERN52};
  double rx = scale * r.logu(.3, 3), ry = r.b(.4) ? rx : scale * r.logu(.3, 3);
  return Variogram::Create(compact ? Variogram::SPHERICAL : T[r.i(0, 5)], r.u(1, 1.7), rx, ry, 1, r.b() ? 0 : r.u(-3, 3), 0, r.b() ? 1 : r.logu(.1, 10));
}
struct D { double x, y, z; };

// ---- one dimension
static void one(vh::Rng& r) {
  size_t n = r.i(1, 40); double dx = r.logu(.1, 50); std::unique_ptr<Variogram> v(vario(r, dx * r.logu(1, 20), false));
  std::vector<double> f(n), obs, all(n); std::vector<bool> k(n, false); double p = r.u(0, 1), sc = r.logu(.1, 100);
  for (size_t i = 0; i < n; i++) { f[i] = r.n() * sc; if (r.b(p) && obs.size() < 12) { k[i] = true; all[i] = r.b(.1) ? f[i] : r.n() * sc; obs.push_back(all[i]); } }
  std::vector<size_t> at; for (size_t i = 0; i < n; i++) if (k[i]) at.push_back(i);
  size_t m = at.size(); if (m == 0) return;
  std::vector<std::vector<ld> > K(m, std::vector<ld>(m)); std::vector<ld> res(m), x;
  for (size_t a = 0; a < m; a++) { res[a] = (ld)obs[a] - f[at[a]]; for (size_t b = 0; b < m; b++) K[a][b] = v->GetCorr((double)at[a] * dx - (double)at[b] * dx); }
  ld cond = solve(K, res, x); if (!(cond < 1e8L)) { vh::stat("skipped_ill_conditioned"); return; }
  std::vector<double> g = f; Kriging::Krig1D(g, k, obs, dx, *v);
  double big = sc * 5; for (ld q : x) big = std::max(big, (double)fabsl(q)); double tol = 1e-13 * (double)cond * big;
  for (size_t i = 0, j = 0; i < n; i++) {
    if (k[i]) { VH_CHECK(g[i] == obs[j], "1d-data", "datum %zu is %.12g instead of %.12g", j, g[i], obs[j]); j++; continue; }
    ld e = f[i]; for (size_t a = 0; a < m; a++) e += x[a] * (ld)v->GetCorr((double)at[a] * dx - (double)i * dx);
    VH_CHECK(std::fabs(g[i] - (double)e) <= tol, "1d-prediction", "node %zu of %zu with %zu data (%s): %.12g expected %.12Lg", i, n, m, v->GetName().c_str(), g[i], e);
  }
  vh::stat("kriged_1d"); vh::sig(vh::mix(vh::hd(dx), m));
}

static void ucheck(const Grid2D<double>& g, const std::vector<std::vector<double> >& e, double tol, const std::string& k, const std::string& what) {
  for (size_t j = 0; j < g.GetNJ(); j++) for (size_t i = 0; i < g.GetNI(); i++) VH_CHECK(std::fabs(g(i, j) - e[i][j]) <= tol, k, "node %zu,%zu is %.10g expected %.10g (%s)", i, j, g(i, j), e[i][j], what.c_str());
}

// ---- two dimensions
static void two(vh::Rng& r, const std::string& mode) {
  bool block = mode == "block", many = mode == "many", nodal = r.b(), viaSurface = nodal && r.b();
  size_t nx = many ? r.i(12, 40) : block ? r.i(1, 60) : r.i(1, 16), ny = many ? r.i(12, 40) : block ? r.i(1, 60) : r.i(1, 16);
    bool wide = block && r.b(.3); if (wide) { nx = r.i(2, 12); ny = r.i(2, 12); }
  double dx = r.b() ? 1 : r.logu(.5, 50), dy = r.b() ? dx : r.logu(.5, 50), x0 = r.b() ? 0 : r.u(-1000, 1000), y0 = r.b() ? 0 : r.u(-1000, 1000);
  if (viaSurface || !nodal) { nx = std::max<size_t>(nx, 2); ny = std::max<size_t>(ny, 2); }
  // neighbourhood mode: isolated data and a compact covariance, so that the full solution is known to be local
  bool all = mode == "all" || (many && r.b()), local = block && !wide && r.b();
  double dm = std::sqrt(dx * dy); std::unique_ptr<Variogram> v;
  if (local) { double rg = 3.2 * std::max(dx, dy) * r.u(1, 2); double k2 = r.u(1, 1.5); v.reset(Variogram::Create(Variogram::SPHERICAL, 1, rg, rg * k2, 1, r.b() ? 0 : r.u(-3, 3), 0, r.b() ? 1 : 2)); }
  else v.reset(vario(r, wide ? std::max(dx, dy) * r.logu(15, 60) : dm * r.logu(.7, 10), false));
  double P = local ? 6 : r.b(.6) ? 2 : r.u(.5, 5);
  // trend
  double sc = r.b(.3) ? 1 : r.logu(.1, 100), a = r.n() * sc, bx = r.n() * sc / nx, by = r.n() * sc / ny; bool flat = r.b(.3), noise = r.b(.5);
  RegularSurface<double> trend(x0, y0, dx * (nx > 1 ? nx - 1 : 1), dy * (ny > 1 ? ny - 1 : 1), nx, ny, a);
  if (!flat) for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++) trend(i, j) = a + bx * i + by * j + (noise ? r.n() * sc : 0);
  // data
  size_t want = many ? r.i(201, 260) : block ? r.i(0, 14) : r.b(.1) ? 0 : r.i(1, 14); std::vector<D> d; std::vector<std::pair<long, long> > cells;
  for (size_t q = 0; q < want * 3 && d.size() < want; q++) {
    D o; long ci, cj;
    if (nodal) { ci = r.b(.2) ? (long)nx - 1 : r.b(.1) ? 0 : r.i(0, (long)nx - 1); cj = r.b(.2) ? (long)ny - 1 : r.b(.1) ? 0 : r.i(0, (long)ny - 1);
      if (viaSurface) { ci = std::min<long>(ci, (long)nx - 2); cj = std::min<long>(cj, (long)ny - 2); o.x = x0 + dx * (ci + r.u(.01, .99)); o.y = y0 + dy * (cj + r.u(.01, .99)); } else { o.x = x0 + dx * ci; o.y = y0 + dy * cj; } }
    else { ci = r.i(0, (long)nx - 1), cj = r.i(0, (long)ny - 1); bool node = r.b(.5); double u = node ? ci : r.u(0, nx - 1.001), w = node ? cj : r.u(0, ny - 1.001); o.x = node ? trend.GetX(ci) : x0 + dx * u; o.y = node ? trend.GetY(cj) : y0 + dy * w; o.x = std::min(o.x, trend.GetXMax()); o.y = std::min(o.y, trend.GetYMax()); if (!node) { ci = -1; cj = -1; } }
    o.z = (float)(a + r.n() * sc);
    bool bad = false;
    for (size_t w = 0; w < d.size(); w++) {
      bool dup = nodal ? cells[w] == std::make_pair(ci, cj) : std::hypot(d[w].x - o.x, d[w].y - o.y) < .05 * dm;
      double ux = nodal ? dx * (ci - cells[w].first) : o.x - d[w].x, uy = nodal ? dy * (cj - cells[w].second) : o.y - d[w].y;
      if (dup && !(nodal && r.b(.5))) bad = true;
      if (!dup && local && v->GetCorr(ux, uy) != 0) bad = true;
    }
    if (bad) continue;
    d.push_back(o); cells.push_back(std::make_pair(ci, cj));
  }
  if (many && d.size() < 201) return;
  // the equations: one per datum, or one per cell with the mean of its data
  std::vector<D> u; std::vector<std::pair<long, long> > uc; std::vector<int> cnt;
  for (size_t q = 0; q < d.size(); q++) {
    size_t w = 0; if (nodal) { while (w < uc.size() && uc[w] != cells[q]) w++; } else w = u.size();
    if (w == u.size()) { u.push_back(d[q]); uc.push_back(cells[q]); cnt.push_back(1); } else { u[w].z += d[q].z; cnt[w]++; }
  }
  for (size_t w = 0; w < u.size(); w++) u[w].z /= cnt[w];
  size_t m = u.size(); bool resid = r.b(.3);
  std::vector<std::vector<ld> > K(m, std::vector<ld>(m)); std::vector<ld> res(m), x;
  auto cov = [&](double h, double k, long i, long j) -> ld { return nodal ? (ld)(float)v->GetCorr(dx * (double)i, dy * (double)j) : (ld)v->GetCorr(h, k); };
  for (size_t p = 0; p < m; p++) {
    double t; if (nodal) t = trend(uc[p].first, uc[p].second); else t = trend.GetZ(u[p].x, u[p].y);
    res[p] = (ld)u[p].z - t;
    for (size_t q = 0; q < m; q++) K[p][q] = cov(u[p].x - u[q].x, u[p].y - u[q].y, uc[p].first - uc[q].first, uc[p].second - uc[q].second);
  }
  ld cond = m ? solve(K, res, x) : 1; if (!(cond < (nodal ? 1e4L : 1e6L))) { vh::stat("skipped_ill_conditioned"); return; }
  double big = 1e-3; for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++) big = std::max(big, std::fabs(trend(i, j))); for (auto& o : u) big = std::max(big, std::fabs(o.z));
  double tol = 4e-7 * big * (double)cond + 1e-9 * big;  // data and trend are rounded to float inside
  tol = std::min(tol, 1e-2 * sc); if (4e-7 * big * (double)cond > 1e-2 * sc) { vh::stat("skipped_ill_conditioned"); return; }
  std::vector<std::vector<double> > e(nx, std::vector<double>(ny));
  for (size_t i = 0; i < nx; i++) for (size_t j = 0; j < ny; j++) { ld s = resid ? 0 : (ld)trend(i, j); for (size_t p = 0; p < m; p++) s += x[p] * cov(u[p].x - (x0 + dx * i), u[p].y - (y0 + dy * j), uc[p].first - (long)i, uc[p].second - (long)j); e[i][j] = (double)s; }
  // the neighbourhood covers everything when half of P times the range in cells reaches the other side
  auto solveWith = [&](const std::vector<size_t>& ord, RegularSurface<double>& t) {
    if (nodal && !viaSurface) { NodalKrigingData2D kd; for (size_t q : ord) kd.AddData((int)cells[q].first, (int)cells[q].second, (float)d[q].z); if (r.b(.2)) kd.AddData(0, 0, 99999.f); kd.FindMeanValues(); CovGrid2D c(*v, (int)nx, (int)ny, dx, dy); Kriging::Krig2D(t, kd, c, resid, all, P); }
    else { std::vector<Point> pts; for (size_t q : ord) pts.push_back(Point(d[q].x, d[q].y, d[q].z)); std::vector<Point*> pp; for (auto& o : pts) pp.push_back(&o); Kriging::Krig2D(t, pp, *v, resid, viaSurface, all, P); }
  };
  double Rx, Ry; if (nodal) { CovGrid2D c(*v, (int)nx, (int)ny, dx, dy); Rx = c.GetRangeX(); Ry = c.GetRangeY();
      double ex = 0, ey = 0; for (long i = 0; i < (long)nx; i++) for (long j = -(long)ny; j < (long)ny; j++) { float c1 = (float)v->GetCorr(dx * i, dy * j); if (c1 >= 0.05) { ex = std::max(ex, i * dx); ey = std::max(ey, j * dy); } if (j > -(long)ny) VH_CHECK(c.GetCov((int)i, (int)j) == c1 && c.GetCov(-(int)i, -(int)j) == c1, "covariance-grid", "lag %ld,%ld is %g expected %g", i, j, c.GetCov((int)i, (int)j), c1); }
      VH_CHECK(Rx == ex && Ry == ey, "covariance-grid-range", "%g %g expected %g %g", Rx, Ry, ex, ey); }
  else { Rx = v->GetRangeX(); Ry = v->GetRangeY(); }
  bool covers = std::floor(P / 2 * (int)(Rx / dx)) >= nx && std::floor(P / 2 * (int)(Ry / dy)) >= ny;
  bool exact = all || covers || m == 0 || (nx == 1 && ny == 1);
  if (local) exact = true;
  std::vector<size_t> ord(d.size()); for (size_t q = 0; q < ord.size(); q++) ord[q] = q;
  RegularSurface<double> t = trend; solveWith(ord, t);
  std::string how = vh::fmt("%s %s%s%s, %zux%zu, %zu data, %s, P %g", nodal ? "nodal" : "continuous", all ? "all data" : "neighbourhoods", viaSurface ? " from points" : "", resid ? " residuals" : "", nx, ny, d.size(), v->GetName().c_str(), P);
  std::string kk = nodal ? "nodal" : "continuous";
  if (exact) { ucheck(t, e, tol, kk + (all ? "-prediction" : local ? "-local-prediction" : "-covering-prediction"), how); vh::stat(all ? "exact_all" : local ? "exact_local" : "exact_covering"); }
  else vh::stat("neighbourhood_only");
  for (size_t p = 0; p < m; p++) if (uc[p].first >= 0) {
    long i = uc[p].first, j = uc[p].second; double want_ = resid ? u[p].z - trend(i, j) : u[p].z;
    VH_CHECK(std::fabs(t(i, j) - want_) <= (nodal ? 1e-6 * big : tol), kk + "-data", "datum at node %ld,%ld is %.10g expected %.10g (%s)", i, j, t(i, j), want_, how.c_str()); vh::stat("data_reproduced");
  }
  VH_CHECK(t.GetXMin() == trend.GetXMin() && t.GetNI() == nx && t.GetNJ() == ny && t.GetDX() == trend.GetDX(), "geometry", "%s", how.c_str());
  // far from all data (covariance exactly zero, or negligible): the trend
  for (size_t i = 0; i < nx; i++) for (size_t j = 0; j < ny; j++) { bool far = true; for (size_t p = 0; p < m && far; p++) if (fabsl(cov(u[p].x - (x0 + dx * i), u[p].y - (y0 + dy * j), uc[p].first - (long)i, uc[p].second - (long)j)) > 1e-12L) far = false;
    if (far) { VH_CHECK(std::fabs(t(i, j) - (resid ? 0 : trend(i, j))) <= 1e-9 * big * (double)cond + 1e-12, kk + "-far", "node %zu,%zu far from all data is %.10g, trend %.10g (%s)", i, j, t(i, j), trend(i, j), how.c_str()); vh::stat("far_nodes"); } }
  // order of the data
  for (size_t q = ord.size(); q > 1; q--) std::swap(ord[q - 1], ord[r.i(0, (long)q - 1)]);
  RegularSurface<double> t2 = trend; solveWith(ord, t2);
  for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++) VH_CHECK(std::fabs(t(i, j) - t2(i, j)) <= tol, kk + "-order", "node %zu,%zu: %.10g and %.10g for two orders of the data (%s)", i, j, t(i, j), t2(i, j), how.c_str());
  vh::sig(vh::mix(vh::mix(nx * 100 + ny, vh::hd(dx)), m)); vh::stat("kriged_" + kk); vh::sample(how);
}

int main(int c, char** v) {
  return vh::run(c, v, [](vh::Rng& r, long, const std::string& m) { if (m == "one") one(r); else two(r, m); });
}

// P27: corner-point (Eclipse) grids: cells and pillars, point lookup, activity, parameters, faults, files.
#include "vh.hpp"
#include "nrlib/eclipsegrid/eclipsegrid.hpp"
#include "nrlib/eclipsegrid/eclipsefaceindexer.hpp"
#include "nrlib/exception/exception.hpp"
#include <algorithm>
#include <fstream>
#include <iomanip>
#include <tuple>
using namespace NRLib;
extern "C" const char* __asan_default_options() { return "hard_rss_limit_mb=3000"; }

struct P3 { double x, y, z; };
struct Mod {  // the grid, kept as plain lists
  size_t ni, nj, nk; std::vector<P3> a, b; std::vector<double> zc; std::vector<char> act; double scale = 1, off = 0;
  std::map<std::string, std::vector<double>> par;
  size_t pil(size_t i, size_t j) const { return i + j * (ni + 1); }
  size_t cell(size_t i, size_t j, size_t k) const { return i + ni * (j + nj * k); }
  double& z(size_t i, size_t j, size_t k, int p, int q, int c) { return zc[cell(i, j, k) * 8 + p + 2 * q + 4 * c]; }
  double z(size_t i, size_t j, size_t k, int p, int q, int c) const { return zc[cell(i, j, k) * 8 + p + 2 * q + 4 * c]; }
  P3 at(size_t i, size_t j, double z) const { const P3 &p = a[pil(i, j)], &q = b[pil(i, j)]; if (p.z == q.z) return {p.x, p.y, z}; double t = (z - p.z) / (q.z - p.z); return {p.x + t * (q.x - p.x), p.y + t * (q.y - p.y), z}; }
  P3 corner(size_t i, size_t j, size_t k, int p, int q, int c) const { return at(i + p, j + q, z(i, j, k, p, q, c)); }
  bool col(size_t i, size_t j) const { for (size_t k = 0; k < nk; k++) if (act[cell(i, j, k)]) return true; return false; }
  bool pact(size_t i, size_t j) const { for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) if (i >= (size_t)p && j >= (size_t)q && i - p < ni && j - q < nj && col(i - p, j - q)) return true; return false; }
  double zs(size_t i, size_t j, size_t k, int c, double u, double v) const { return (1 - u) * ((1 - v) * z(i, j, k, 0, 0, c) + v * z(i, j, k, 0, 1, c)) + u * ((1 - v) * z(i, j, k, 1, 0, c) + v * z(i, j, k, 1, 1, c)); }
  P3 horiz(size_t i, size_t j, double z, double u, double v) const { P3 A = at(i, j, z), B = at(i + 1, j, z), C = at(i, j + 1, z), D = at(i + 1, j + 1, z); return {(1 - u) * ((1 - v) * A.x + v * C.x) + u * ((1 - v) * B.x + v * D.x), (1 - u) * ((1 - v) * A.y + v * C.y) + u * ((1 - v) * B.y + v * D.y), z}; }
};
static double rnd(double v, double q) { return q > 0 ? std::round(v / q) * q : v; }

static Mod gen(vh::Rng& r, double quant, int plane = 0) {
  Mod m; m.ni = r.i(1, 5); m.nj = r.i(1, 5); m.nk = r.b(.2) ? 1 : r.i(1, 7); if (plane) { m.ni += 1; m.nj += 1; }
  double dx = r.u(20, 150), dy = r.u(20, 150), rot = r.b(.3) ? r.i(0, 3) * 1.5707963267948966 : r.u(-3.1, 3.1), jit = r.b(.5) || plane == 2 ? 0 : r.u(0, .18);
  double ox = r.b(.4) ? 0 : r.b() ? 4.5e5 : -3000, oy = r.b(.4) ? 0 : r.b() ? 6.7e6 : 700; m.off = std::fabs(ox) + std::fabs(oy); m.scale = std::min(dx, dy);
  double z0 = r.b(.2) ? -400 : r.u(500, 3000), H = r.u(50, 600), shx = r.b(.5) ? 0 : r.n() * H * .7, shy = r.b(.5) ? 0 : r.n() * H * .7; if (plane) shx = shy = 0;
  bool hand = r.b(.15);
  double c = std::cos(rot), s = std::sin(rot);
  for (size_t j = 0; j <= m.nj; j++) for (size_t i = 0; i <= m.ni; i++) {
    double x = dx * (i + jit * r.u(-1, 1)), y = dy * (j + jit * r.u(-1, 1)); if (hand) y = -y; double ex = plane ? 0 : jit * dx * r.u(-.5, .5), ey = plane ? 0 : jit * dy * r.u(-.5, .5);
    P3 p{ox + c * x - s * y, oy + s * x + c * y, z0}, q{p.x + shx + c * ex - s * ey, p.y + shy + s * ex + c * ey, z0 + H}; if (r.b(.05) && shx == 0 && shy == 0 && !plane) q = p;
    for (P3* e : {&p, &q}) { e->x = rnd(e->x, quant); e->y = rnd(e->y, quant); e->z = rnd(e->z, quant); } m.a.push_back(p); m.b.push_back(q);
  }
  m.zc.assign(8 * m.ni * m.nj * m.nk, 0); m.act.assign(m.ni * m.nj * m.nk, 1);
  std::vector<double> top(m.a.size()); double sx = r.n() * .02, sy = r.n() * .02; for (size_t t = 0; t < top.size(); t++) top[t] = z0 + H * .15 + (plane ? sx * (m.a[t].x - ox) + sy * (m.a[t].y - oy) : H * .1 * r.u());
  std::vector<double> th(m.nk * m.a.size()); for (size_t k = 0; k < m.nk; k++) { bool flat = r.b(.1); for (size_t t = 0; t < m.a.size(); t++) th[k * m.a.size() + t] = plane ? 1.5 : flat || r.b(.05) ? 0 : H * .5 / m.nk * r.u(.1, 1); }
  bool faulted = !plane && r.b(.4); double gap = !plane && r.b(.2) ? H * .02 : 0;
  for (size_t j = 0; j < m.nj; j++) for (size_t i = 0; i < m.ni; i++) {
    double thr = faulted ? H * .1 * r.u() : 0;
    for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) { size_t t = m.pil(i + p, j + q); double z = top[t] + thr; for (size_t k = 0; k < m.nk; k++) { m.z(i, j, k, p, q, 0) = rnd(z, quant); z += th[k * m.a.size() + t]; m.z(i, j, k, p, q, 1) = rnd(z, quant); if (r.b(.3)) z += 0; z += gap; } } }
  int A = plane ? 0 : (int)r.i(0, 3); if (A) for (size_t j = 0; j < m.nj; j++) for (size_t i = 0; i < m.ni; i++) { bool off = A == 2 && r.b(.35); for (size_t k = 0; k < m.nk; k++) m.act[m.cell(i, j, k)] = off ? 0 : A == 1 ? r.b(.7) : A == 3 ? r.b(.25) : 1; }
  return m;
}
template <class G> static void pillars(const Mod& m, G& g) { for (size_t j = 0; j <= m.nj; j++) for (size_t i = 0; i <= m.ni; i++) { const P3 &p = m.a[m.pil(i, j)], &q = m.b[m.pil(i, j)]; g.SetPillar(i, j, Line::Segment(Point(p.x, p.y, p.z), Point(q.x, q.y, q.z))); } }
static void fill(vh::Rng& r, const Mod& m, EclipseGrid& g) {
  pillars(m, g);
  for (size_t k = 0; k < m.nk; k++) for (size_t j = 0; j < m.nj; j++) for (size_t i = 0; i < m.ni; i++) { for (int e = 0; e < 8; e++) g.SetZCorner(i, j, k, e & 1, e >> 1 & 1, e >> 2, m.zc[m.cell(i, j, k) * 8 + e]); if (r.b()) g.SetActive(i, j, k, m.act[m.cell(i, j, k)] != 0); else g.SetActive(m.cell(i, j, k), m.act[m.cell(i, j, k)] != 0); }
  g.InitializeActivePillars(); EclipseGeometry q(g.GetGeometry()); q.FindMinAndMaxZValueAndSetPolygons(); g.SetGeometry(q);
}
static bool near(const Point& p, const P3& q, double t) { return std::fabs(p.x - q.x) <= t && std::fabs(p.y - q.y) <= t && std::fabs(p.z - q.z) <= t; }
static double tol(const Mod& m) { return 1e-9 + 1e-12 * (m.off + 1e4); }
#define NEAR(P, Q, key) do { Point p_ = (P); P3 q_ = (Q); VH_CHECK(near(p_, q_, T), key, "cell/pillar %zu %zu %zu: (%.10g,%.10g,%.10g), expected (%.10g,%.10g,%.10g)", i, j, k, p_.x, p_.y, p_.z, q_.x, q_.y, q_.z); } while (0)

static void same(const Mod& m, const EclipseGrid& g, const std::string& key, double tz, double tp) {
  VH_CHECK(g.GetNI() == m.ni && g.GetNJ() == m.nj && g.GetNK() == m.nk && g.GetN() == m.ni * m.nj * m.nk, key + "-size", "%zu %zu %zu (%zu)", g.GetNI(), g.GetNJ(), g.GetNK(), g.GetN()); if (g.GetN() != m.ni * m.nj * m.nk || g.GetNI() != m.ni || g.GetNJ() != m.nj) return;
  for (size_t j = 0; j <= m.nj; j++) for (size_t i = 0; i <= m.ni; i++) { Line l = g.GetPillar(i, j); double t = tz > 0 ? tz + 1e-15 * m.off : 0; VH_CHECK(near(l.GetPt1(), m.a[m.pil(i, j)], t) && near(l.GetPt2(), m.b[m.pil(i, j)], t), key + "-pillar", "pillar %zu %zu", i, j); VH_CHECK(g.IsPillarActive(i, j) == m.pact(i, j), key + "-active-pillar", "pillar %zu %zu", i, j); }
  for (size_t k = 0; k < m.nk; k++) for (size_t j = 0; j < m.nj; j++) for (size_t i = 0; i < m.ni; i++) { VH_CHECK(g.IsActive(i, j, k) == (m.act[m.cell(i, j, k)] != 0), key + "-active", "cell %zu %zu %zu", i, j, k); for (int e = 0; e < 8; e++) { double z = g.GetZCorner(i, j, k, e & 1, e >> 1 & 1, e >> 2); VH_CHECK(std::fabs(z - m.zc[m.cell(i, j, k) * 8 + e]) <= tz, key + "-corner", "cell %zu %zu %zu corner %d: %.10g, expected %.10g", i, j, k, e, z, m.zc[m.cell(i, j, k) * 8 + e]); } }
  std::vector<std::string> names; for (auto& e : m.par) names.push_back(e.first); VH_CHECK(g.GetParameterNames() == names, key + "-parameter-names", "%zu parameters, expected %zu", g.GetParameterNames().size(), names.size());
  for (auto& e : m.par) { VH_CHECK(g.HasParameter(e.first), key + "-has", "%s", e.first.c_str()); if (!g.HasParameter(e.first)) continue; const Grid<double>& q = g.GetParameter(e.first); VH_CHECK(q.GetNI() == m.ni && q.GetNJ() == m.nj && q.GetNK() == m.nk, key + "-parameter-size", "%zu %zu %zu", q.GetNI(), q.GetNJ(), q.GetNK()); if (q.GetN() != m.ni * m.nj * m.nk) continue; for (size_t k = 0; k < m.nk; k++) for (size_t j = 0; j < m.nj; j++) for (size_t i = 0; i < m.ni; i++) VH_CHECK(std::fabs(q(i, j, k) - e.second[m.cell(i, j, k)]) <= (tp > 0 ? tp + 1e-15 * std::fabs(e.second[m.cell(i, j, k)]) : 0), key + "-parameter", "%s at %zu %zu %zu: %.10g, expected %.10g", e.first.c_str(), i, j, k, q(i, j, k), e.second[m.cell(i, j, k)]); }
}
static void params(vh::Rng& r, Mod& m, EclipseGrid& g, double q) {
  static const char* N[] = {"PORO", "PERMX", "NTG", "FACIES", "A1"};
  for (int t = 0; t < 5; t++) if (r.b(.4)) { std::vector<double> v(g.GetN()); double c = rnd(r.n() * 100, q); bool cst = r.b(.3); for (double& x : v) x = cst ? c : r.b(.2) ? r.i(0, 5) : rnd(r.b() ? r.n() * 5000 : r.u(), q); if (cst) g.AddParameter(N[t], c); else if (r.b()) { Grid<double> h(m.ni, m.nj, m.nk); for (size_t e = 0; e < v.size(); e++) h(e) = v[e]; g.AddParameter(N[t], h); } else { g.AddParameter(N[t]); Grid<double>& h = g.GetParameter(N[t]); for (size_t k = 0; k < m.nk; k++) for (size_t j = 0; j < m.nj; j++) for (size_t i = 0; i < m.ni; i++) h(i, j, k) = v[m.cell(i, j, k)]; } m.par[N[t]] = v; }
}

static void cells(vh::Rng& r) {
  Mod m = gen(r, 0); EclipseGrid g(m.ni, m.nj, m.nk); if (r.b(.3)) { g.Resize(m.ni + 1, m.nj, m.nk + 2); for (size_t e = 0; e < g.GetN(); e++) g.SetActive(e); g.SetZCorner(0, 0, 0, 1, 1, 1, 7); g.Resize(m.ni, m.nj, m.nk); bool z = true; for (size_t e = 0; e < g.GetN(); e++) { size_t i, j, k; g.GetIJK(e, i, j, k); for (int q = 0; q < 8; q++) z = z && g.GetZCorner(i, j, k, q & 1, q >> 1 & 1, q >> 2) == 0 && !g.IsActive(i, j, k); } VH_CHECK(z, "resize-nulls", "something is left of the grid before Resize"); }
  fill(r, m, g); params(r, m, g, 0); same(m, g, "set", 0, 0); const EclipseGeometry& e = g.GetGeometry(); const double T = tol(m); EclipseGeometry w(e);
  size_t tl = m.nk, bl = m.nk;
  for (size_t k = 0; k < m.nk; k++) for (size_t j = 0; j < m.nj; j++) for (size_t i = 0; i < m.ni; i++) {
    size_t n = m.cell(i, j, k), a, b, c; VH_CHECK(g.GetIndex(i, j, k) == n, "index", "%zu %zu %zu", i, j, k); g.GetIJK(n, a, b, c); VH_CHECK(a == i && b == j && c == k, "ijk", "index %zu is %zu %zu %zu", n, a, b, c); VH_CHECK(e.IsActive(n) == (m.act[n] != 0), "active-index", "cell %zu", n);
    P3 cen{0, 0, 0}, tb[2] = {{0, 0, 0}, {0, 0, 0}}; std::vector<std::tuple<double, double, double>> all; for (int q = 0; q < 8; q++) { P3 x = m.corner(i, j, k, q & 1, q >> 1 & 1, q >> 2); NEAR(e.FindCornerPoint(i, j, k, q & 1, q >> 1 & 1, q >> 2), x, "corner-point"); for (P3* s : {&cen, &tb[q >> 2]}) { double f = s == &cen ? 8. : 4.; s->x += x.x / f; s->y += x.y / f; s->z += x.z / f; } NEAR(w.FindPointInCell(i, j, k, q & 1, q >> 1 & 1, q >> 2), x, "point-in-cell-corner"); }
    NEAR(e.FindCellCenterPoint(i, j, k), cen, "centre"); NEAR(e.FindCellCenterPointTopBot(i, j, k, true), tb[0], "centre-top"); NEAR(e.FindCellCenterPointTopBot(i, j, k, false), tb[1], "centre-bottom");
    std::vector<Point> al = g.GetAllCornerPoints(i, j, k); static const int O[8] = {0, 1, 3, 2, 4, 5, 7, 6}; VH_CHECK(al.size() == 8, "all-corners", "%zu", al.size()); for (int q = 0; q < 8 && al.size() == 8; q++) NEAR(al[q], m.corner(i, j, k, O[q] & 1, O[q] >> 1 & 1, O[q] >> 2), "all-corners");
    for (Face f : {PosX, NegX, PosY, NegY, PosZ, NegZ}) { std::vector<Point> fc = g.GetFaceCornerPoints(i, j, k, f); int ax = GetDirection(f), sd = f == PosX || f == PosY || f == PosZ; VH_CHECK(GetOppositeFace(GetOppositeFace(f)) == f && GetDirection(GetOppositeFace(f)) == GetDirection(f) && GetOppositeFace(f) != f, "opposite-face", "%d", f); int hit = 0; int ord[4]; for (int q = 0; q < 4 && fc.size() == 4; q++) { ord[q] = -1; for (int x = 0; x < 8; x++) if (((x >> ax) & 1) == sd && near(fc[q], m.corner(i, j, k, x & 1, x >> 1 & 1, x >> 2), T)) { ord[q] = x; break; } hit += ord[q] >= 0; } VH_CHECK(fc.size() == 4 && hit == 4, "face-corners", "face %d of cell %zu %zu %zu: %d of 4 corners are on it", f, i, j, k, hit);
      if (fc.size() == 4) { P3 s{0, 0, 0}; Point t(0, 0, 0); for (int x = 0; x < 8; x++) if (((x >> ax) & 1) == sd) { P3 y = m.corner(i, j, k, x & 1, x >> 1 & 1, x >> 2); s.x += y.x; s.y += y.y; s.z += y.z; } for (auto& y : fc) { t.x += y.x; t.y += y.y; t.z += y.z; } VH_CHECK(near(t, s, 8 * T), "face-corners", "face %d of cell %zu %zu %zu: some corner is named twice", f, i, j, k); } }
    for (Face f : {PosZ, NegZ}) { long st = f == PosZ ? 1 : -1, q = (long)k + st; while (q >= 0 && q < (long)m.nk && !m.act[m.cell(i, j, q)]) q += st; bool ok = q >= 0 && q < (long)m.nk, clear = true; if (ok) for (int x = 0; x < 4; x++) { double d = std::fabs(m.z(i, j, k, x & 1, x >> 1, st > 0) - m.z(i, j, q, x & 1, x >> 1, st < 0)); if (std::fabs(d - 1e-4) < 1e-8) clear = false; ok = ok && d < 1e-4; } if (clear) { int got = g.GetNeighbourK((int)i, (int)j, (int)k, f); VH_CHECK(got == (ok ? q : (long)k), "neighbour-k", "cell %zu %zu %zu face %d: %d, expected %ld", i, j, k, f, got, ok ? q : (long)k); vh::stat(ok ? "vertical_neighbours" : "no_vertical_neighbour"); } }
    if (m.act[n]) { if (tl == m.nk || k < tl) tl = k; if (bl == m.nk || k > bl) bl = k; }
    bool fd; double zt = 1e300, zb = -1e300; for (int x = 0; x < 4; x++) { zt = std::min(zt, m.z(i, j, k, x & 1, x >> 1, 0)); zb = std::max(zb, m.z(i, j, k, x & 1, x >> 1, 1)); } double got = e.FindZTopInCellActiveColumn(i, j, k, fd); VH_CHECK(fd == m.col(i, j) && (!fd || got == zt), "top-in-cell", "%zu %zu %zu: %.10g, expected %.10g", i, j, k, got, zt); got = e.FindZBotInCellActiveColumn(i, j, k, fd); VH_CHECK(fd == m.col(i, j) && (!fd || got == zb), "bottom-in-cell", "%zu %zu %zu: %.10g, expected %.10g", i, j, k, got, zb);
    if (k == 0) { size_t t = m.nk, o = m.nk; for (size_t q = 0; q < m.nk; q++) if (m.act[m.cell(i, j, q)]) { if (t == m.nk) t = q; o = q; } VH_CHECK(g.FindTopCell(i, j) == t && g.FindBottomCell(i, j) == o && e.IsColumnActive(i, j) == (t < m.nk), "top-bottom-cell", "column %zu %zu: %zu %zu, expected %zu %zu", i, j, g.FindTopCell(i, j), g.FindBottomCell(i, j), t, o);
      for (Face f : {PosX, NegX, PosY, NegY}) { int ei = (int)i + (f == PosX) - (f == NegX), ej = (int)j + (f == PosY) - (f == NegY); if (ei < 0 || ej < 0 || ei >= (int)m.ni || ej >= (int)m.nj) continue; int a2, b2; g.GetNeighbourColumn((int)i, (int)j, f, a2, b2); VH_CHECK(a2 == ei && b2 == ej, "neighbour-column", "%zu %zu face %d: %d %d", i, j, f, a2, b2); } }
    // points in the cell: between its corners, on the pillars' quadrilateral at their depth
    for (int q = 0; q < 2; q++) { double u = r.u(), v = r.u(), ww = r.u(); if (r.b(.3)) u = v = .5; P3 t0 = m.horiz(i, j, m.zs(i, j, k, 0, u, v), u, v), t1 = m.horiz(i, j, m.zs(i, j, k, 1, u, v), u, v); P3 x{(1 - ww) * t0.x + ww * t1.x, (1 - ww) * t0.y + ww * t1.y, (1 - ww) * t0.z + ww * t1.z}; NEAR(w.FindPointInCell(i, j, k, u, v, ww), x, "point-in-cell"); }
  }
  VH_CHECK(e.FindTopLayer() == tl && e.FindBottomLayer() == bl, "layers", "%zu %zu, expected %zu %zu", e.FindTopLayer(), e.FindBottomLayer(), tl, bl);
  std::vector<P3> tp, bp; size_t k = 0; double zq = r.u(m.a[0].z - 100, m.a[0].z + 800), sd = 0, nd = 0;
  for (size_t i = 0; i <= m.ni; i++) for (size_t j = 0; j <= m.nj; j++) {
    NEAR(g.FindPointAtPillar(i, j, zq), m.at(i, j, zq), "point-at-pillar");
    double zt = 1e300, zb = -1e300, at = 1e300, ab = -1e300; for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) if (i >= (size_t)p && j >= (size_t)q && i - p < m.ni && j - q < m.nj) { size_t t = m.nk, o = m.nk; for (size_t x = 0; x < m.nk; x++) if (m.act[m.cell(i - p, j - q, x)]) { if (t == m.nk) t = x; o = x; for (int c = 0; c < 2; c++) { double z = m.z(i - p, j - q, x, p, q, c); at = std::min(at, z); ab = std::max(ab, z); } } if (t < m.nk) { zt = std::min(zt, m.z(i - p, j - q, t, p, q, 0)); zb = std::max(zb, m.z(i - p, j - q, o, p, q, 1)); } }
    bool fd = false; Point x = g.FindPointAtPillarInsideGrid(i, j, zq, fd); VH_CHECK(fd == m.pact(i, j), "inside-grid-found", "pillar %zu %zu", i, j); if (fd) { P3 y = m.at(i, j, std::max(zt, std::min(zb, zq))); VH_CHECK(near(x, y, T), "inside-grid", "pillar %zu %zu at %.10g: z %.10g, expected %.10g", i, j, zq, x.z, y.z); tp.push_back(m.at(i, j, at)); bp.push_back(m.at(i, j, ab)); }
    for (int q = 0; q < 2; q++) if ((q ? j : i) > 0) { size_t i2 = i - !q, j2 = j - q; if (m.pact(i, j) && m.pact(i2, j2)) { P3 y = m.at(i, j, zq), y2 = m.at(i2, j2, zq); sd += std::hypot(y.x - y2.x, y.y - y2.y); nd++; } }
  }
  if (nd > 0) { double d = e.FindMeanPillarDistance(zq); VH_CHECK(std::fabs(d - sd / nd) <= 1e-9 * (1 + d) + T, "pillar-distance", "%.10g, expected %.10g", d, sd / nd); }
  std::vector<Point> gt, gb; e.FindTopAndBotValuesOfGrid(gt, gb); VH_CHECK(gt.size() == tp.size() && gb.size() == bp.size(), "top-bottom-values", "%zu and %zu points, expected %zu", gt.size(), gb.size(), tp.size()); if (gt.size() == tp.size() && gb.size() == bp.size()) for (size_t q = 0; q < tp.size(); q++) VH_CHECK(near(gt[q], tp[q], T) && near(gb[q], bp[q], T), "top-bottom-values", "point %zu: %.10g %.10g, expected %.10g %.10g", q, gt[q].z, gb[q].z, tp[q].z, bp[q].z);
  if (tl < m.nk) { double x0, y0, lx, ly, an; e.FindEnclosingVolume(x0, y0, lx, ly, an); bool in = true; double worst = 0; for (size_t kk = 0; kk < m.nk; kk++) for (size_t j = 0; j < m.nj; j++) for (size_t i = 0; i < m.ni; i++) if (m.act[m.cell(i, j, kk)]) for (int q = 0; q < 8; q++) { P3 x = m.corner(i, j, kk, q & 1, q >> 1 & 1, q >> 2); double a = std::cos(an) * (x.x - x0) + std::sin(an) * (x.y - y0), b = std::cos(an) * (x.y - y0) - std::sin(an) * (x.x - x0); double o = std::max(std::max(-a, a - lx), std::max(-b, b - ly)); worst = std::max(worst, o); } in = worst <= 1e-6 + 1e-11 * m.off + 2e-4 * (lx + ly); VH_CHECK(in, "enclosing", "a corner of an active cell lies %.6g outside the enclosing volume", worst); vh::stat("enclosing"); }
  if (m.ni > 1 && m.nj > 1 && m.nk > 1 && !m.par.empty()) { auto rg = [&](size_t n, size_t& f, size_t& t) { f = r.i(0, (long)n - 2); t = r.i((long)f + 1, (long)n - 1); }; size_t a, b, c, d, f, h; rg(m.ni, a, b); rg(m.nj, c, d); rg(m.nk, f, h); EclipseGrid s = g.ExtractSubGrid(a, b, c, d, f, h); VH_CHECK(s.GetNI() == b - a + 1 && s.GetNJ() == d - c + 1 && s.GetNK() == h - f + 1, "subgrid-size", "%zu %zu %zu", s.GetNI(), s.GetNJ(), s.GetNK()); VH_CHECK(s.GetParameterNames() == g.GetParameterNames(), "subgrid-parameters", "names"); for (auto& q : m.par) for (size_t kk = f; kk <= h; kk++) for (size_t j = c; j <= d; j++) for (size_t i = a; i <= b; i++) VH_CHECK(s.HasParameter(q.first) && s.GetParameter(q.first)(i - a, j - c, kk - f) == q.second[m.cell(i, j, kk)], "subgrid-value", "%zu %zu %zu", i, j, kk); vh::stat("subgrids"); }
  same(m, g, "after-queries", 0, 0); vh::sig(vh::mix(m.ni * 100 + m.nj * 10 + m.nk, vh::hd(m.zc[0])));
}

static void lookup(vh::Rng& r) {
  Mod m = gen(r, 0); EclipseGrid g(m.ni, m.nj, m.nk); fill(r, m, g); bool deg = false; for (size_t t = 0; t < m.a.size(); t++) if (m.a[t].z == m.b[t].z) deg = true;
  if (deg) for (size_t t = 0; t < m.a.size(); t++) if (m.a[t].z == m.b[t].z) m.b[t].z = m.a[t].z + 100;  // a vertical pillar, written with two depths
  if (deg) { pillars(m, g); EclipseGeometry q(g.GetGeometry()); q.FindMinAndMaxZValueAndSetPolygons(); g.SetGeometry(q); }
  for (int q = 0; q < 12; q++) {
    size_t i = r.i(0, (long)m.ni - 1), j = r.i(0, (long)m.nj - 1), k = r.i(0, (long)m.nk - 1); if (!m.act[m.cell(i, j, k)]) continue;
    double u = r.b(.2) ? .5 : r.u(.02, .98), v = r.b(.2) ? .5 : r.u(.02, .98), w = r.b(.2) ? .5 : r.u(.02, .98), a = m.zs(i, j, k, 0, u, v), b = m.zs(i, j, k, 1, u, v); if (b - a < .05) { vh::stat("thin_cells"); continue; }
    double z = a + w * (b - a); P3 p = m.horiz(i, j, z, u, v); size_t oi = 99, oj = 99, ok = 99; bool f = g.FindIndex(p.x, p.y, p.z, oi, oj, ok); VH_CHECK(f && oi == i && oj == j && ok == k, "find-index", "(%.10g,%.10g,%.10g) is in cell %zu %zu %zu of %zu x %zu x %zu at %.4g %.4g %.4g: found %d %zu %zu %zu", p.x, p.y, p.z, i, j, k, m.ni, m.nj, m.nk, u, v, w, f, oi, oj, ok); vh::stat("found");
    // above the column, below it, and beside the grid there is no cell
    double zt = m.zs(i, j, 0, 0, u, v) - r.u(.05, 40), zb = m.zs(i, j, m.nk - 1, 1, u, v) + r.u(.05, 40); P3 o = m.horiz(i, j, zt, u, v); if (zt > m.a[0].z) { f = g.FindIndex(o.x, o.y, o.z, oi, oj, ok); VH_CHECK(!f, "found-above", "(%.10g,%.10g,%.10g) is above the grid", o.x, o.y, o.z); } o = m.horiz(i, j, zb, u, v); if (zb < m.a[0].z + 45) { f = g.FindIndex(o.x, o.y, o.z, oi, oj, ok); VH_CHECK(!f, "found-below", "(%.10g,%.10g,%.10g) is below the grid", o.x, o.y, o.z); }
    size_t eb = r.i(0, 1); P3 s = eb ? m.horiz(i, m.nj - 1, z, u, 1 + r.u(.3, 4)) : m.horiz(0, j, z, -r.u(.3, 4), v); f = g.FindIndex(s.x, s.y, s.z, oi, oj, ok); VH_CHECK(!f, "found-beside", "(%.10g,%.10g,%.10g) is beside the grid, found in %zu %zu %zu", s.x, s.y, s.z, oi, oj, ok); vh::stat("outside", 3);
    vh::sig(vh::mix(vh::hd(p.x), vh::hd(p.z)));
  }
}

static void layer(vh::Rng& r) {  // a plane stays a plane
  bool bil = r.b(); Mod m = gen(r, 0, bil ? 2 : 1); EclipseGrid g(m.ni, m.nj, m.nk); fill(r, m, g); const EclipseGeometry& e = g.GetGeometry(); size_t k = r.i(0, (long)m.nk - 1); int lu = (int)r.i(0, 1); double an = r.u(-1.5, 1.5);
  double cx = 0, cy = 0, R = 0; std::vector<P3> cc; for (size_t j = 0; j < m.nj; j++) for (size_t i = 0; i < m.ni; i++) { P3 s{0, 0, 0}; for (int q = 0; q < 4; q++) { P3 x = m.corner(i, j, k, q & 1, q >> 1, lu); s.x += x.x / 4; s.y += x.y / 4; s.z += x.z / 4; } cc.push_back(s); cx += s.x / (m.ni * m.nj); cy += s.y / (m.ni * m.nj); } for (auto& s : cc) R = std::max(R, std::hypot(s.x - cx, s.y - cy));
  // the plane through three corners
  P3 A = m.corner(0, 0, k, 0, 0, lu), B = m.corner(m.ni - 1, 0, k, 1, 0, lu), C = m.corner(0, m.nj - 1, k, 0, 1, lu); double d = (B.x - A.x) * (C.y - A.y) - (C.x - A.x) * (B.y - A.y), px = ((B.z - A.z) * (C.y - A.y) - (C.z - A.z) * (B.y - A.y)) / d, py = ((B.x - A.x) * (C.z - A.z) - (C.x - A.x) * (B.z - A.z)) / d;
  size_t n = r.i(3, 12), mm = r.i(3, 12); double L = 2 * R, dx = L / n, dy = L / mm, rx = std::cos(an) * cx + std::sin(an) * cy - R, ry = std::cos(an) * cy - std::sin(an) * cx - R, x0 = std::cos(an) * rx - std::sin(an) * ry, y0 = std::sin(an) * rx + std::cos(an) * ry;
  Grid2D<double> z(n, mm, 0); e.FindLayerSurface(z, k, lu, dx, dy, x0, y0, an, bil);
  auto inside = [&](double x, double y) { for (size_t j = 0; j + 1 < m.nj; j++) for (size_t i = 0; i + 1 < m.ni; i++) { const P3* q[4] = {&cc[i + j * m.ni], &cc[i + 1 + j * m.ni], &cc[i + 1 + (j + 1) * m.ni], &cc[i + (j + 1) * m.ni]}; int s = 0; double mn = 1e300; for (int t = 0; t < 4; t++) { const P3 &a = *q[t], &b = *q[(t + 1) % 4]; double c = ((b.x - a.x) * (y - a.y) - (b.y - a.y) * (x - a.x)) / std::hypot(b.x - a.x, b.y - a.y); s += c > 0 ? 1 : -1; mn = std::min(mn, std::fabs(c)); } for (int t = 0; t < 2; t++) { const P3 &a = *q[t], &b = *q[t + 2]; mn = std::min(mn, 1e4 * std::fabs((b.x - a.x) * (y - a.y) - (b.y - a.y) * (x - a.x)) / std::hypot(b.x - a.x, b.y - a.y)); }  // on the diagonal itself rounding decides which triangle, if any
    if ((s == 4 || s == -4) && mn > .01 * m.scale) return true; } return false; };
  for (size_t b = 0; b < mm; b++) for (size_t a = 0; a < n; a++) { double u = rx + dx * (a + .5), v = ry + dy * (b + .5), x = std::cos(an) * u - std::sin(an) * v, y = std::sin(an) * u + std::cos(an) * v; if (!inside(x, y)) continue; double want = A.z + px * (x - A.x) + py * (y - A.y); VH_CHECK(std::fabs(z(a, b) - want) < 1e-5 + 1e-10 * m.off, "layer-surface", "%zu %zu of %zu x %zu, %s: %.10g, expected %.10g", a, b, n, mm, bil ? "bilinear" : "triangles", z(a, b), want); vh::stat("layer_nodes"); }
  vh::sig(vh::mix(vh::hd(x0), k));
}

typedef EclipseFault::Segment Seg;
static bool eq(const Seg& a, const Seg& b) { return a.i_from == b.i_from && a.i_to == b.i_to && a.j_from == b.j_from && a.j_to == b.j_to && a.k_from == b.k_from && a.k_to == b.k_to && a.face == b.face; }
static Seg seg(vh::Rng& r, const Mod& m, bool flat) { auto rg = [&](size_t n, int& f, int& t) { f = (int)r.i(0, (long)n - 1); t = (int)r.i(f, (long)n - 1); }; Seg s; rg(m.ni, s.i_from, s.i_to); rg(m.nj, s.j_from, s.j_to); rg(m.nk, s.k_from, s.k_to); s.face = (Face)r.i(0, flat ? 5 : 3); if (s.face == PosX || s.face == NegX) s.i_to = s.i_from; if (s.face == PosY || s.face == NegY) s.j_to = s.j_from; if (s.face == PosZ || s.face == NegZ) s.k_to = s.k_from; return s; }
static void fault(vh::Rng& r) {
  Mod m; m.ni = r.i(1, 9); m.nj = r.i(1, 9); m.nk = r.i(1, 5); EclipseFault f("F1"); std::vector<Seg> s(r.i(0, 6)); bool stair = false; for (auto& q : s) { q = seg(r, m, true); f.AddSegment(q); stair = stair || q.face == PosZ || q.face == NegZ; }
  VH_CHECK(f.GetName() == "F1" && f.GetSegments().size() == s.size() && f.IsStairStepped() == stair, "fault", "%zu segments", f.GetSegments().size());
  std::multiset<std::vector<int>> want, got; for (auto& q : s) for (int k = q.k_from; k <= q.k_to; k++) for (int j = q.j_from; j <= q.j_to; j++) for (int i = q.i_from; i <= q.i_to; i++) want.insert({i, j, k, q.face});
  FaceIndexer x(f); for (size_t n = 0; !x.IsFinished() && n <= want.size(); n++) { CellFace c = x.GetFace(); got.insert({c.i_, c.j_, c.k_, c.face_}); ++x; } VH_CHECK(got == want, "face-indexer", "%zu faces visited, expected %zu", got.size(), want.size()); vh::stat("faces", (long)want.size());
  Seg a = seg(r, m, false), b = seg(r, m, false); int ia, ja, ib, jb; EclipseFault::GetSegmentLowerCoord(a, ia, ja); EclipseFault::GetSegmentUpperCoord(a, ib, jb); bool ax = GetDirection(a.face) == DirectionX, bx = GetDirection(b.face) == DirectionX;
  VH_CHECK(ia == a.i_from + (a.face == PosX) && ja == a.j_from + (a.face == PosY) && ib == (ax ? ia : a.i_to + 1) && jb == (ax ? a.j_to + 1 : ja), "segment-ends", "face %d: %d %d to %d %d", a.face, ia, ja, ib, jb);
  const Seg &v = ax ? a : b, &h = ax ? b : a; bool cross = false; int ci = 0, cj = 0; if (ax != bx) { ci = v.i_from + (v.face == PosX); cj = h.j_from + (h.face == PosY); cross = ci >= h.i_from && ci <= h.i_to + 1 && cj >= v.j_from && cj <= v.j_to + 1; } int gi = -1, gj = -1; bool gc = EclipseFault::SegmentsCross(a, b, gi, gj); VH_CHECK(gc == cross && (!cross || (gi == ci && gj == cj)), "cross", "%d at %d %d, expected %d at %d %d", gc, gi, gj, cross, ci, cj); vh::stat(cross ? "crossing" : "apart");
  int inc = (int)r.i(0, 4); Seg c = a; EclipseFault::IncreaseSegmentLength(c, inc); if (ax) { c.j_from += inc; c.j_to -= inc; } else { c.i_from += inc; c.i_to -= inc; } VH_CHECK(eq(a, c), "increase", "by %d", inc); vh::sig(vh::mix(want.size(), a.i_from * 1000 + b.j_to * 100 + a.face * 10 + b.face));
}

static void spit(const std::string& f, const std::string& d) { std::ofstream o(f, std::ios::binary); o << d; }
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void file(vh::Rng& r) {
  Mod m = gen(r, 1e-3); EclipseGrid g(m.ni, m.nj, m.nk); fill(r, m, g); params(r, m, g, 1e-5); std::string f = vh::path("g.grdecl"), f2 = vh::path("h.grdecl");
  std::map<std::string, std::vector<Seg>> fl; static const char* FN[] = {"F1", "East", "b", "FAULT_12", "averyverylongnameforafault"}; for (int q = (int)r.i(0, 4); q > 0; q--) { std::string n = FN[r.i(0, 4)]; std::vector<Seg> s(r.i(1, 4)); EclipseFault e(n); for (auto& x : s) { x = seg(r, m, true); e.AddSegment(x); } g.AddFault(e); fl[n] = s; }
  auto check = [&](const EclipseGrid& h, const std::string& k) { same(m, h, k, 5.1e-4, 5.1e-6); VH_CHECK(h.GetFaults().size() == fl.size(), k + "-faults", "%zu faults, expected %zu", h.GetFaults().size(), fl.size()); bool st = false; for (auto& e : fl) { auto it = h.GetFaults().find(e.first); bool ok = it != h.GetFaults().end() && it->second.GetName() == e.first && it->second.GetSegments().size() == e.second.size(); for (size_t q = 0; ok && q < e.second.size(); q++) ok = eq(it->second.GetSegments()[q], e.second[q]); VH_CHECK(ok, k + "-fault", "fault %s", e.first.c_str()); for (auto& q : e.second) st = st || q.face == PosZ || q.face == NegZ; } VH_CHECK(h.HasStairSteppedFaults() == st, k + "-stairs", "%d", st); };
  if (r.b(.5)) { g.WriteToFile(f); check(EclipseGrid(f), "file"); }
  else { std::vector<std::string> fs{f, f2}; std::vector<std::list<std::string>> ks(2); ks[0] = {"SPECGRID", "COORD"}; if (r.b()) ks[0].push_back("ZCORN"); if (r.b()) ks[0].push_back("ACTNUM"); for (auto& e : m.par) if (r.b(.4)) ks[0].push_back(e.first); if (r.b(.3)) ks[0].push_back("FAULTS"); g.WriteToFiles(fs, ks); EclipseGrid h(fs); check(h, "files"); vh::stat("two_files"); bool t = false; try { std::vector<std::list<std::string>> bad(1); bad[0] = {"NOSUCH"}; g.WriteToFiles({f2}, bad); } catch (Exception&) { t = true; } VH_CHECK(t, "unknown-keyword", "written"); g.WriteToFile(f, false); EclipseGrid q(f); auto keep = m.par; m.par.clear(); check(q, "no-parameters"); m.par = keep; }
  std::string d = slurp(f);
  // grids in local coordinates are turned into map coordinates by MAPAXES
  if (r.b(.4)) { double th = r.b(.3) ? r.i(-2, 2) * 1.5707963267948966 : r.u(-3.14, 3.14), ox = rnd(r.n() * 1000, 1), oy = rnd(r.n() * 1000, 1), L1 = r.u(1, 200), L2 = r.u(1, 200); bool left = r.b(.4); double c = std::cos(th), s = std::sin(th), yx = left ? s : -s, yy = left ? -c : c; std::ostringstream h; h << std::setprecision(17) << "MAPUNITS\n'METRES' /\nMAPAXES\n " << ox + L1 * yx << " " << oy + L1 * yy << " " << ox << " " << oy << " " << ox + L2 * c << " " << oy + L2 * s << " /\nGRIDUNIT\n'METRES' ''  /\n\n"; Mod n = m; n.par.clear(); for (auto* v : {&n.a, &n.b}) for (P3& p : *v) p = {ox + p.x * c + p.y * yx, oy + p.x * s + p.y * yy, p.z}; n.off += 1e4; std::string hs = h.str(); if (r.b(.25)) { hs.replace(hs.find("''"), 2, "'MAP'"); n.a = m.a; n.b = m.b; vh::stat("already_map"); }
    if (r.b(.1)) { spit(f2, "GRIDUNIT\n'METRES' '' /\n" + d); bool t = false; try { EclipseGrid q(f2); } catch (Exception&) { t = true; } VH_CHECK(t, "no-map-axes", "local coordinates without map axes were accepted"); }
    if (r.b(.3)) spit(f2, d + hs); else spit(f2, hs + d); EclipseGrid q(f2); double T = 1e-3 + 2e-9 * m.off; for (size_t j = 0; j <= m.nj; j++) for (size_t i = 0; i <= m.ni; i++) VH_CHECK(near(q.GetPillar(i, j).GetPt1(), n.a[m.pil(i, j)], T) && near(q.GetPillar(i, j).GetPt2(), n.b[m.pil(i, j)], T), left ? "map-axes-left-handed" : "map-axes", "pillar %zu %zu at (%.10g,%.10g), expected (%.10g,%.10g); angle %.6g", i, j, q.GetPillar(i, j).GetPt1().x, q.GetPillar(i, j).GetPt1().y, n.a[m.pil(i, j)].x, n.a[m.pil(i, j)].y, th); vh::stat("map_axes"); }
  // comments and free layout
  if (r.b(.3)) { std::string e = d; size_t p = e.find("COORD"); e.insert(p, "-- a comment line\n"); EclipseGrid q; static const char* SK[] = {"", "GDORIENT\n INC INC INC DOWN RIGHT /\n", "GDORIENT\n INC INC\n INC DOWN RIGHT /\n\n", "MULTIPLY\n PORO 2 1 1 1 1 /\n\n/\n"}; spit(f2, "-- first / line\nNOECHO\n" + std::string(SK[r.i(0, 3)]) + e + SK[r.i(0, 3)] + "ECHO\n"); q.ReadFromFile(f2); for (auto& x : EclipseGrid(f).GetParameterNames()) VH_CHECK(q.HasParameter(x), "comments-parameters", "%s lost", x.c_str()); VH_CHECK(q.GetParameterNames().size() == EclipseGrid(f).GetParameterNames().size(), "comments-parameters", "%zu", q.GetParameterNames().size()); VH_CHECK(q.GetN() == m.ni * m.nj * m.nk && q.GetZCorner(0, 0, 0, 0, 0, 0) == EclipseGrid(f).GetZCorner(0, 0, 0, 0, 0, 0), "comments", "%zu", q.GetN()); vh::stat("comments"); }
  // damaged files
  { int D = (int)r.i(0, 2); std::string e = d; bool must = true; if (D == 0) { size_t p = e.find(r.b() ? "ZCORN" : "COORD"); size_t q = e.find('/', p); size_t a = q; while (isspace((unsigned char)e[a - 1])) a--; size_t b = a; while (!isspace((unsigned char)e[b - 1])) b--; e.erase(b, a - b); } else if (D == 1) { size_t p = e.find("ZCORN"); size_t last = e.find('/', p); e.resize(r.i((long)p + 6, (long)last - 1)); } else { size_t p = e.find("SPECGRID"); e.erase(p, e.find('/', p) + 1 - p); }
    spit(f2, e); bool t = false; try { EclipseGrid q(f2); } catch (Exception&) { t = true; } if (must) VH_CHECK(t, "damaged", "kind %d was read without an error", D); vh::stat("damaged"); }
  remove(f.c_str()); remove(f2.c_str()); vh::sig(vh::hs(d));
}

int main(int argc, char** argv) {
  return vh::run(argc, argv, [](vh::Rng& r, long, const std::string& m) { if (m == "cells") cells(r); else if (m == "lookup") lookup(r); else if (m == "layer") layer(r); else if (m == "fault") fault(r); else file(r); });
}

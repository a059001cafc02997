// P24: point sets: histories of operations, files, convex hulls.
#include "vh.hpp"
#include "nrlib/pointset/pointset.hpp"
#include "nrlib/geometry/polygon.hpp"
#include "nrlib/exception/exception.hpp"
#include <fstream>
#include <iomanip>
#include <algorithm>
using namespace NRLib;
typedef long double ld;

struct Mod { std::vector<Point> p; std::map<std::string, std::vector<int>> d; std::map<std::string, std::vector<double>> f; std::map<std::string, std::vector<std::string>> s; };
static const char* NAMES[] = {"Id", "Active", "a tag", "Depth", "2nd", "x", "Horizon name", "UNDEF"};
static const char* WORDS[] = {"", "Top", "Base A", "UNDEF", " lead", "trail ", "12.5", "-", "two  spaces", "a,b", "averyveryverylongwordindeed", "x=1"};
static double coord(vh::Rng& r) { double v = r.b(.1) ? 0 : r.b(.1) ? -999 : r.b(.1) ? 999 : r.b(.3) ? r.u(4e5, 7e6) : r.b(.3) ? r.n() * .01 : r.n() * 1000; return r.b(.3) ? std::round(v) : v; }
static Point pt(vh::Rng& r) { Point p(coord(r), coord(r), coord(r)); if (p.x == 999 && p.y == 999 && p.z == 999) p.z = 1; return p; }
static int dv(vh::Rng& r) { return r.b(.2) ? -999 : r.b(.4) ? (int)r.i(0, 1) : r.b(.1) ? (r.b() ? 2147483647 : -2147483647 - 1) : (int)r.i(-50, 50); }
static double fv(vh::Rng& r) { return r.b(.2) ? -999 : r.b(.3) ? r.n() : r.n() * 1e4; }
static std::string sv(vh::Rng& r) { return WORDS[r.i(0, 11)]; }

static void same(const Mod& m, const PointSet& s, const std::string& k, double tx = 0, double tf = 0) {
  VH_CHECK(s.GetSize() == m.p.size() && s.GetPoints().size() == m.p.size(), k + "-count", "%zu points, expected %zu", s.GetSize(), m.p.size()); if (s.GetSize() != m.p.size()) return;
  for (size_t i = 0; i < m.p.size(); i++) { const Point& q = s[i]; double e = tx > 0 ? tx + 1e-15 * (std::fabs(m.p[i].x) + std::fabs(m.p[i].y) + std::fabs(m.p[i].z)) : 0; VH_CHECK(std::fabs(q.x - m.p[i].x) <= e && std::fabs(q.y - m.p[i].y) <= e && std::fabs(q.z - m.p[i].z) <= e, k + "-point", "point %zu is (%.12g,%.12g,%.12g), expected (%.12g,%.12g,%.12g)", i, q.x, q.y, q.z, m.p[i].x, m.p[i].y, m.p[i].z); }
  VH_CHECK(s.GetDiscreteParameters().size() == m.d.size() && s.GetContParameters().size() == m.f.size() && s.GetStringParameters().size() == m.s.size(), k + "-parameters", "%zu %zu %zu parameters, expected %zu %zu %zu", s.GetDiscreteParameters().size(), s.GetContParameters().size(), s.GetStringParameters().size(), m.d.size(), m.f.size(), m.s.size());
  for (auto& e : m.d) { VH_CHECK(s.HasDiscreteParameter(e.first), k + "-has", "no '%s'", e.first.c_str()); if (!s.HasDiscreteParameter(e.first)) continue; const std::vector<int>& v = s.GetDiscreteParameter(e.first); bool ok = v == e.second; size_t i = 0; while (!ok && i < v.size() && i < e.second.size() && v[i] == e.second[i]) ++i; VH_CHECK(ok, k + "-discrete", "'%s' has %zu values for %zu points, differs at %zu", e.first.c_str(), v.size(), m.p.size(), i); }
  for (auto& e : m.f) { VH_CHECK(s.HasContParameter(e.first), k + "-has", "no '%s'", e.first.c_str()); if (!s.HasContParameter(e.first)) continue; const std::vector<double>& v = s.GetContParameter(e.first); VH_CHECK(v.size() == e.second.size(), k + "-float-count", "'%s' has %zu values for %zu points", e.first.c_str(), v.size(), m.p.size()); for (size_t i = 0; i < v.size() && i < e.second.size(); i++) VH_CHECK(std::fabs(v[i] - e.second[i]) <= (tf > 0 ? tf + 1e-15 * std::fabs(e.second[i]) : 0), k + "-float", "'%s' of point %zu is %.12g, expected %.12g", e.first.c_str(), i, v[i], e.second[i]); }
  for (auto& e : m.s) { VH_CHECK(s.HasStringParameter(e.first), k + "-has", "no '%s'", e.first.c_str()); if (!s.HasStringParameter(e.first)) continue; const std::vector<std::string>& v = s.GetStringParameter(e.first); bool ok = v == e.second; size_t i = 0; while (!ok && i < v.size() && i < e.second.size() && v[i] == e.second[i]) ++i; VH_CHECK(ok, k + "-string", "'%s' has %zu values for %zu points, differs at %zu ('%s', expected '%s')", e.first.c_str(), v.size(), m.p.size(), i, i < v.size() ? v[i].c_str() : "", i < e.second.size() ? e.second[i].c_str() : ""); }
}
template <class F> static bool throws(F f) { try { f(); } catch (NRLib::Exception&) { return true; } return false; }

static void step(vh::Rng& r, Mod& m, PointSet& s) {
  std::string n = NAMES[r.i(0, 7)], k;
  switch (r.i(0, 9)) {
    case 0: case 1: { k = "add"; Point p = pt(r); s.AddPoint(p); m.p.push_back(p); for (auto& e : m.d) e.second.push_back(0); for (auto& e : m.f) e.second.push_back(0); for (auto& e : m.s) e.second.push_back(""); break; }
    case 2: { k = "erase"; if (m.p.empty()) break; size_t i = r.b(.2) ? 0 : r.b(.2) ? m.p.size() - 1 : r.i(0, (long)m.p.size() - 1); s.Erase(i); m.p.erase(m.p.begin() + i); for (auto& e : m.d) e.second.erase(e.second.begin() + i); for (auto& e : m.f) e.second.erase(e.second.begin() + i); for (auto& e : m.s) e.second.erase(e.second.begin() + i); break; }
    case 3: { k = "resize"; size_t q = r.b(.1) ? 0 : r.i(0, (long)m.p.size() + 4); s.Resize(q); m.p.resize(q, Point(0, 0, 0)); for (size_t i = 0; i < q; i++) if (s.GetSize() == q && i < s.GetSize()) (void)s[i]; for (auto& e : m.d) e.second.resize(q); for (auto& e : m.f) e.second.resize(q); for (auto& e : m.s) e.second.resize(q); break; }
    case 4: { k = "discrete"; std::vector<int> v(m.p.size()); for (int& x : v) x = dv(r); s.AddDiscreteParameter(n, v); m.d[n] = v; break; }
    case 5: { k = "float"; std::vector<double> v(m.p.size()); for (double& x : v) x = fv(r); s.AddContParameter(n, v); m.f[n] = v; break; }
    case 6: { k = "string"; std::vector<std::string> v(m.p.size()); for (auto& x : v) x = sv(r); s.AddStringParameter(n, v); m.s[n] = v; break; }
    case 7: { k = "set"; bool has = m.d.count(n) > 0; VH_CHECK(s.HasDiscreteParameter(n) == has && s.HasContParameter(n) == (m.f.count(n) > 0) && s.HasStringParameter(n) == (m.s.count(n) > 0), "has", "'%s'", n.c_str());
      if (!has) { VH_CHECK(throws([&] { s.SetDiscreteParameter(n, 0, 1); }) && throws([&] { s.GetDiscreteParameter(n); }), "unknown-discrete", "'%s'", n.c_str()); } else if (!m.p.empty()) { size_t i = r.i(0, (long)m.p.size() - 1); int v = dv(r); s.SetDiscreteParameter(n, i, v); m.d[n][i] = v; }
      if (!m.f.count(n)) VH_CHECK(throws([&] { s.GetContParameter(n); }), "unknown-float", "'%s'", n.c_str()); if (!m.s.count(n)) VH_CHECK(throws([&] { s.GetStringParameter(n); }), "unknown-string", "'%s'", n.c_str()); break; }
    case 8: { k = "move"; if (m.p.empty()) break; size_t i = r.i(0, (long)m.p.size() - 1); Point p = pt(r); s[i] = p; m.p[i] = p; break; }
    default: { k = "copy"; PointSet t(s); t.AddPoint(Point(1, 2, 3)); if (t.GetSize() > 1) t.Erase(0); same(m, s, "copied-from"); PointSet u; u = s; s.Resize(0); s = u; }
  }
  same(m, s, "after-" + k); vh::stat("operations"); vh::sig(vh::mix(vh::hs(k), vh::mix(m.p.size(), m.d.size() * 100 + m.f.size() * 10 + m.s.size())));
}
static PointSet make(vh::Rng& r, Mod& m, bool tags) {
  PointSet s; int c = (int)r.i(0, 2);
  if (c == 0) { size_t n = r.i(0, 9); m.p.resize(n); for (Point& p : m.p) p = pt(r); s = PointSet(m.p); }
  else if (c == 1) { size_t n = r.i(0, 9); Point p = pt(r); m.p.assign(n, p); s = PointSet(n, p); }
  for (int q = (int)r.i(0, 25); q > 0; q--) step(r, m, s);
  if (!tags) { m.d.clear(); m.f.clear(); m.s.clear(); s = PointSet(m.p); }
  return s;
}
static void ops(vh::Rng& r) {
  Mod m; PointSet s = make(r, m, true); same(m, s, "history");
  if (r.b(.3)) {  // the points of a surface are its defined nodes
    size_t nx = r.i(1, 5), ny = r.i(1, 5); double x0 = r.n() * 10, y0 = r.n() * 10, lx = r.u(1, 9), ly = r.u(1, 9); RegularSurface<double> g(x0, y0, lx, ly, nx, ny); Mod e;
    for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++) { g(i, j) = r.n(); if (r.b(.3)) g.SetMissing(i, j); else e.p.push_back(Point(x0 + (nx > 1 ? lx * i / (nx - 1) : 0), y0 + (ny > 1 ? ly * j / (ny - 1) : 0), g(i, j))); }
    same(e, PointSet(g), "surface", 1e-12); vh::stat("surfaces"); }
}

static void spit(const std::string& f, const std::string& d) { std::ofstream o(f, std::ios::binary); o << d; }
static void file(vh::Rng& r) {
  int F = (int)r.i(0, 3); Mod m; std::string f = vh::path("points.dat");
  auto drop = [&] { for (Point& p : m.p) if (std::fabs(p.x - 999) < 1e-3 && std::fabs(p.y - 999) < 1e-3 && std::fabs(p.z - 999) < 1e-3) p.z = 1; };
  if (F == 0) {
    PointSet s = make(r, m, r.b(.9)); bool tagged = m.d.size() + m.f.size() + m.s.size() > 0; s.WriteToFile(f, PointSet::RmsInternalPoints); same(m, s, "rms-unchanged");
    if (!tagged && m.p.empty()) { VH_CHECK(throws([&] { PointSet t(f); }), "empty-file", "an empty file was read"); remove(f.c_str()); return; }
    if (!tagged && std::any_of(m.p.begin(), m.p.end(), [](const Point& p) { return std::fabs(p.x - 999) < 1e-3 && std::fabs(p.y - 999) < 1e-3 && std::fabs(p.z - 999) < 1e-3; })) { remove(f.c_str()); return; }
    if (tagged) VH_CHECK(PointSet::FindFileType(f) == PointSet::RmsInternalPoints, "rms-detected", "type");
    PointSet t(f); same(m, t, "rms", 5.1e-4, 5.1e-4);
    if (m.f.count("Active") || m.s.count("Active")) { remove(f.c_str()); return; }
    PointSet u(f, true); Mod a = m; if (m.d.count("Active")) { auto keep = [&](size_t i) { return m.d["Active"][i] == 1; }; a = Mod(); for (auto& e : m.d) a.d[e.first]; for (auto& e : m.f) a.f[e.first]; for (auto& e : m.s) a.s[e.first]; for (size_t i = 0; i < m.p.size(); i++) if (keep(i)) { a.p.push_back(m.p[i]); for (auto& e : m.d) a.d[e.first].push_back(e.second[i]); for (auto& e : m.f) a.f[e.first].push_back(e.second[i]); for (auto& e : m.s) a.s[e.first].push_back(e.second[i]); } if (!m.f.count("Active") && !m.s.count("Active")) same(a, u, "rms-active", 5.1e-4, 5.1e-4); vh::stat("filtered"); } else if (!m.f.count("Active") && !m.s.count("Active")) same(m, u, "rms-no-filter", 5.1e-4, 5.1e-4);
    if (m.p.size() == 1) vh::stat("single_point_files");
  } else if (F == 1 || F == 2) {
    PointSet s = make(r, m, false); drop(); s = PointSet(m.p); std::string k = F == 1 ? "roxar" : "xyz"; s.WriteToFile(f, F == 1 ? PointSet::RoxarText : PointSet::GeneralXYZ);
    if (F == 2 && m.p.empty()) { VH_CHECK(throws([&] { PointSet t(f); }), "empty-file", "an empty file was read"); remove(f.c_str()); return; }
    if (F == 1 && r.b(.4)) { for (int q = (int)r.i(1, 3); q > 0; q--) { Mod o; PointSet t = make(r, o, false); for (Point& p : o.p) if (p.x == 999 && p.y == 999) p.z = 1; t = PointSet(o.p); std::string g = vh::path("part"); t.WriteToFile(g, PointSet::RoxarText); { std::ifstream in(g); std::ofstream out(f, std::ios::app); std::string l; while (std::getline(in, l)) out << l << "\n"; } remove(g.c_str()); m.p.insert(m.p.end(), o.p.begin(), o.p.end()); } drop(); vh::stat("several_parts"); }
    VH_CHECK(PointSet::FindFileType(f) == (F == 1 ? PointSet::RoxarText : PointSet::GeneralXYZ), k + "-detected", "type");
    PointSet t(f); same(m, t, k, 5.1e-7);
  } else {
    size_t n = r.i(0, 12); std::ostringstream o; for (int q = (int)r.i(0, 3); q > 0; q--) o << "* comment " << q << "\n"; o << "JGWFILE horizon " << (r.b() ? "time ms " : "") << n << "\n" << "IL XL X Y Z\n"; o << std::setprecision(12); m.d["IL"].resize(n); m.d["XL"].resize(n); bool survey = r.b(.3);
    for (size_t i = 0; i < n; i++) { Point p = pt(r); m.p.push_back(p); m.d["IL"][i] = (int)r.i(1, 5000); m.d["XL"][i] = (int)r.i(1, 5000); o << m.d["IL"][i] << " " << m.d["XL"][i] << " " << p.x << " " << p.y << " " << p.z << (survey ? " ST99" : "") << "\n"; }
    spit(f, o.str()); VH_CHECK(PointSet::FindFileType(f) == PointSet::JasonXYZ, "jason-detected", "type"); PointSet t(f); same(m, t, "jason", 1e-4);
    if (n) { std::string d = o.str(); d.erase(d.find_last_of('\n')); d.erase(d.find_last_of('\n') + 1); spit(f, d); VH_CHECK(throws([&] { PointSet c(f); }), "jason-truncated", "a file with a line too few was read"); }
  }
  remove(f.c_str()); vh::stat("files"); vh::sig(vh::mix(F, m.p.empty() ? 0 : vh::hd(m.p[0].x)));
}

static void hull(vh::Rng& r) {
  size_t n = r.b(.3) ? r.i(0, 5) : r.i(3, r.b(.1) ? 200 : 25); int sh = (int)r.i(0, 4); bool exact = sh <= 1; std::vector<Point> p; double a = r.u(-4, 4), ox = r.b() ? 0 : r.u(4e5, 5e5), oy = r.b() ? 0 : r.u(6e6, 7e6), sc = r.logu(.1, 1000); long w = r.i(1, 12);
  for (size_t i = 0; i < n; i++) { double x, y; switch (sh) { case 0: x = r.i(-w, w); y = r.i(-w, w); break; case 1: { long t = r.i(-20, 20); x = 3 + t * (w % 3); y = -2 + t * (w % 4); break; } case 2: x = r.n() * sc; y = r.n() * sc; break; case 3: { double t = r.u(0, 6.3); x = sc * std::cos(t); y = sc * std::sin(t); break; } default: { double t = r.u(-1, 1), q = r.b(.8) ? 0 : r.u(-1, 1); x = sc * (t * std::cos(a) - q * std::sin(a)); y = sc * (t * std::sin(a) + q * std::cos(a)); } } if (exact) p.push_back(Point(x, y, r.n())); else p.push_back(Point(x + ox, y + oy, r.n())); if (r.b(.1) && !p.empty()) p.push_back(p[r.i(0, (long)p.size() - 1)]); }
  PointSet s(p); Polygon h = s.GetConvexHull(); Mod m; m.p = p; same(m, s, "hull-unchanged");
  size_t k = h.GetSize(); VH_CHECK((k == 0) == p.empty() && k <= std::max<size_t>(p.size(), 1), "hull-size", "%zu corners for %zu points", k, p.size()); if (p.empty() || k == 0) return;
  double mnx = 1e300, mxx = -1e300, mny = 1e300, mxy = -1e300, hnx = 1e300, hxx = -1e300, hny = 1e300, hxy = -1e300; for (auto& q : p) { mnx = std::min(mnx, q.x); mxx = std::max(mxx, q.x); mny = std::min(mny, q.y); mxy = std::max(mxy, q.y); }
  std::vector<Point> v; for (size_t i = 0; i < k; i++) { Point q = h(i); v.push_back(q); hnx = std::min(hnx, q.x); hxx = std::max(hxx, q.x); hny = std::min(hny, q.y); hxy = std::max(hxy, q.y); bool in = false; for (auto& z : p) in = in || (z.x == q.x && z.y == q.y && z.z == q.z); VH_CHECK(in, "hull-corner", "corner (%g,%g) is not a point of the set", q.x, q.y); }
  double D = std::max(mxx - mnx, mxy - mny), e = exact ? 1e-9 : 1e-4 * D + 1e-9; VH_CHECK(std::fabs(hnx - mnx) <= e && std::fabs(hxx - mxx) <= e && std::fabs(hny - mny) <= e && std::fabs(hxy - mxy) <= e, "hull-extent", "extent %g..%g %g..%g, expected %g..%g %g..%g", hnx, hxx, hny, hxy, mnx, mxx, mny, mxy);
  for (size_t i = 0; i < k; i++) { const Point &A = v[i], &B = v[(i + 1) % k]; ld ex = (ld)B.x - A.x, ey = (ld)B.y - A.y, L = sqrtl(ex * ex + ey * ey); if (L == 0) continue; for (auto& q : p) { ld c = (ex * ((ld)q.y - A.y) - ey * ((ld)q.x - A.x)) / L; VH_CHECK(c >= -e, "hull-contains", "point (%.12g,%.12g) lies %Lg outside the edge (%g,%g)-(%g,%g) of the hull with %zu corners of %zu points", q.x, q.y, -c, A.x, A.y, B.x, B.y, k, p.size()); } }
  // smallest: no corner inside, and as few as needed away from the lowest point
  vh::stat("hulls"); vh::stat(vh::fmt("hull_shape_%d", sh)); vh::sig(vh::mix(k, vh::hd(p[0].x)));
}
int main(int c, char** v) {
  return vh::run(c, v, [](vh::Rng& r, long, const std::string& m) { if (m == "set") ops(r); else if (m == "file") file(r); else hull(r); });
}

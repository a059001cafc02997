// P16: SEG-Y files and their geometry against an independent byte-level codec
// and an affine model of the survey.
#include "vh.hpp"
#include "nrlib/segy/segy.hpp"
#include "nrlib/segy/segygeometry.hpp"
#include "nrlib/segy/segytrace.hpp"
#include "nrlib/segy/traceheader.hpp"
#include "nrlib/segy/commonheaders.hpp"
#include "nrlib/stormgrid/stormcontgrid.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/surface/regularsurfacerotated.hpp"
#include "nrlib/exception/exception.hpp"
#include <algorithm>
#include <fstream>
#include <memory>
using namespace NRLib;
typedef unsigned char uc;

// ---- independent codec
static void p16(std::string& b, size_t o, int v) { b[o] = (char)((v >> 8) & 255); b[o + 1] = (char)(v & 255); }
static void p32(std::string& b, size_t o, long v) { for (int k = 0; k < 4; k++) b[o + k] = (char)((v >> (24 - 8 * k)) & 255); }
static int g16(const std::string& b, size_t o) { return (int16_t)(((uc)b[o] << 8) | (uc)b[o + 1]); }
static int g32(const std::string& b, size_t o) { return (int32_t)(((uint32_t)(uc)b[o] << 24) | ((uint32_t)(uc)b[o + 1] << 16) | ((uint32_t)(uc)b[o + 2] << 8) | (uc)b[o + 3]); }
static float gf(const std::string& b, size_t o) { uint32_t u = (uint32_t)g32(b, o); float f; memcpy(&f, &u, 4); return f; }
static void pf(std::string& b, size_t o, float f) { uint32_t u; memcpy(&u, &f, 4); p32(b, o, u); }
// a value that IBM single precision holds exactly
static float ibm(vh::Rng& r, uint32_t& w) {
  uint32_t fr = r.b(.1) ? 0 : (uint32_t)r.i(1 << 20, (1 << 24) - 1); int e = (int)r.i(-8, 8); bool neg = r.b() && fr;
  if (!fr) { w = 0; return 0; }
  w = ((uint32_t)neg << 31) | ((uint32_t)(64 + e) << 24) | fr;
  return (float)((neg ? -1.0 : 1.0) * std::ldexp((double)fr, 4 * e - 24));
}

struct Fmt { int id; int sc, x, y, il, xl, st, off; };
static const Fmt FM[] = {
  {TraceHeaderFormat::SEISWORKS, 71, 73, 77, 9, 21, 109, 0}, {TraceHeaderFormat::IESX, 71, 73, 77, 221, 21, 109, 0},
  {TraceHeaderFormat::SIP, 71, 181, 185, 189, 193, 109, 37}, {TraceHeaderFormat::CHARISMA, 71, 73, 77, 5, 21, 109, 0},
  {TraceHeaderFormat::SIPX, 71, 73, 77, 181, 185, 109, 0}, {TraceHeaderFormat::HESS, 71, 73, 77, 185, 189, 109, 0}};

// ---- the survey: an orthogonal grid of traces; axis u along "first", v perpendicular
struct Tr { int il, xl; double x, y; std::vector<float> d; };
struct Survey {
  int nil, nxl, il0, xl0, dil, dxl;       // line numbers il0 + k*dil
  double x0, y0, ux, uy, vx, vy;           // position of (il0,xl0); displacement per IL number and per XL number
  size_t nz; int dt; int start;            // dt in microseconds, start in ms
  std::vector<Tr> t;                       // in file order
  std::map<std::pair<int,int>, size_t> at; // (il,xl) -> index in t
  double ext = 1;                          // extrapolation of rounded positions
  double sp;                               // smallest trace distance
  void pos(int il, int xl, double& x, double& y) const { x = x0 + (il - il0) * ux + (xl - xl0) * vx; y = y0 + (il - il0) * uy + (xl - xl0) * vy; }
};
static Survey survey(vh::Rng& r, double unit, bool line, bool autodet, float (*gen)(vh::Rng&) = 0) {
  Survey s;
  s.nil = (int)r.i(2, r.b(.2) ? 14 : 6); s.nxl = (int)r.i(2, r.b(.2) ? 14 : 6);
  if (line) { if (r.b()) s.nil = 1; else s.nxl = 1; if (r.b(.1)) s.nil = s.nxl = 1; }
  s.dil = r.b(.5) ? 1 : (int)r.i(1, 7); s.dxl = r.b(.5) ? 1 : (int)r.i(1, 7); if (autodet) s.dil = s.dxl = 1;
  s.il0 = (int)r.i(1, 3000); s.xl0 = (int)r.i(1, 9000);
  s.x0 = std::floor(r.u(400000, 500000)); s.y0 = std::floor(r.u(1e6, 7e6)); if (r.b(.2)) { s.x0 = 1000; s.y0 = 2000; }
  double a = autodet ? (r.b(.3) ? 0 : r.u(0, 6.283)) : r.b(.3) ? (double)r.i(0, 3) * 1.5707963267948966 : r.b(.2) ? .78539816339744831 * r.i(0, 7) : r.u(0, 6.283185307);
  unit = autodet ? 1 : std::max(1.0, unit * 2 * std::max(s.dil, s.dxl)); // the library compares with the distance per line number
  double step1 = (autodet ? 6.25 * r.i(2, 6) : r.b(.3) ? 25. : r.b() ? r.u(12, 60) : r.u(6, 100)) * unit;
  double step2 = autodet ? (r.b() ? step1 : 6.25 * r.i(2, 6)) : r.b() ? step1 : r.u(6, 100) * unit;
  double hand = r.b() ? 1 : -1;
  s.ux = step1 * std::cos(a) / s.dil; s.uy = step1 * std::sin(a) / s.dil;
  s.vx = -hand * step2 * std::sin(a) / s.dxl; s.vy = hand * step2 * std::cos(a) / s.dxl;
  s.sp = std::min(step1, step2);
  // all coordinates positive
  double mx = 0, my = 0; for (int k = 0; k < 4; k++) { double x, y; s.pos(s.il0 + (k & 1) * (s.nil - 1) * s.dil, s.xl0 + (k >> 1) * (s.nxl - 1) * s.dxl, x, y); mx = std::min(mx, x); my = std::min(my, y); }
  s.x0 += std::ceil(-mx); s.y0 += std::ceil(-my);
  s.nz = r.b(.1) ? r.i(100, 400) : r.i(1, 30); s.dt = r.b(.5) ? 4000 : r.b(.5) ? (int)r.pick(std::vector<int>{1000, 2000, 500, 250}) : (int)r.i(1, 16) * 250; s.start = r.b(.3) ? 0 : (int)r.i(0, 4000);
  int ord = (int)r.i(0, 3); bool rv1 = r.b(.3), rv2 = r.b(.3);
  if (autodet) ord = 0, rv1 = rv2 = false;
  bool drop = !line && !autodet && s.nil > 2 && s.nxl > 2 && r.b(.4);
  int cut = !line && !autodet && s.nil > 3 && s.nxl > 3 && r.b(.25) ? (int)r.i(4, 7) : 0; double cw = r.u(.1, .7); if (cut) s.ext = 6;
  std::vector<std::pair<int,int>> o;
  int n1 = ord & 1 ? s.nxl : s.nil, n2 = ord & 1 ? s.nil : s.nxl;
  for (int p = 0; p < n1; p++) for (int q = 0; q < n2; q++) {
    int pp = rv1 ? n1 - 1 - p : p, qq = rv2 ? n2 - 1 - q : q;
    int i = ord & 1 ? qq : pp, j = ord & 1 ? pp : qq;
    // traces on the border stay, so that the extent and the line steps of the file are those of the survey
    if (cut && (double)(cut & 1 ? s.nil - 1 - i : i) / s.nil + (double)(cut & 2 ? s.nxl - 1 - j : j) / s.nxl < cw) continue; // a corner of the survey is not covered
    if (drop && i > 0 && j > 0 && i < s.nil - 1 && j < s.nxl - 1 && r.b(.4)) continue;
    o.push_back({i, j});
  }
  for (auto& e : o) {
    Tr t; t.il = s.il0 + e.first * s.dil; t.xl = s.xl0 + e.second * s.dxl; s.pos(t.il, t.xl, t.x, t.y);
    t.d.resize(s.nz); for (size_t k = 0; k < s.nz; k++) t.d[k] = gen ? gen(r) : (float)(r.n() * 100);
    s.at[{t.il, t.xl}] = s.t.size(); s.t.push_back(t);
  }
  return s;
}
static double scal(short sc) { return sc < 0 ? 1.0 / -sc : sc == 0 ? 1 : sc; }
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream b; b << i.rdbuf(); return b.str(); }

// write with our own encoder in sample format `fmt`
static void encode(vh::Rng& r, Survey& s, const std::string& f, const Fmt& fm, short sc, int fmt, bool wide) {
  size_t ds = fmt == 3 ? 2 : 4; std::string h(3600, '\0'); for (int k = 0; k < 3200; k++) h[k] = '\x40';
  h[0] = '\xc3';
  p16(h, 3216, s.dt); p16(h, 3220, (int)s.nz); p16(h, 3224, fmt);
  for (auto& t : s.t) {
    std::string b(240 + ds * s.nz, '\0');
    if (wide) for (int k = 0; k < 240; k++) b[k] = (char)r.i(0, 20); // unrelated header content
    p16(b, 114, (int)s.nz); p16(b, 116, s.dt); p16(b, fm.sc - 1, sc); p16(b, fm.st - 1, s.start);
    double u = scal(sc); p32(b, fm.x - 1, (long)std::llround(t.x / u)); p32(b, fm.y - 1, (long)std::llround(t.y / u)); p32(b, fm.il - 1, t.il); p32(b, fm.xl - 1, t.xl);
    for (size_t k = 0; k < s.nz; k++) {
      size_t o = 240 + ds * k;
      if (fmt == 1) { uint32_t w; t.d[k] = ibm(r, w); p32(b, o, w); }
      else if (fmt == 2) { long v = r.b(.5) ? r.i(-100000, 100000) : r.i(-2147483647L - 1, 2147483647L); t.d[k] = (float)(int)v; p32(b, o, v); }
      else if (fmt == 3) { int v = (int)r.i(-32768, 32767); t.d[k] = (float)v; p16(b, o, v); }
      else pf(b, o, t.d[k]);
    }
    h += b;
  }
  std::ofstream(f, std::ios::binary) << h;
}
// check the bytes the library wrote
static void decode(const Survey& s, const std::string& f, const Fmt& fm, short sc, const std::vector<size_t>& order, const std::string& K, bool bypass) {
  std::string b = slurp(f);
  VH_CHECK(b.size() == 3600 + s.t.size() * (240 + 4 * s.nz), K + "-file-size", "file of %zu bytes, expected %zu traces of %zu samples", b.size(), s.t.size(), s.nz);
  if (b.size() != 3600 + s.t.size() * (240 + 4 * s.nz)) return;
  VH_CHECK(g16(b, 3216) == s.dt && g16(b, 3220) == (int)s.nz && g16(b, 3224) == 5, K + "-binary-header", "dt %d nz %d format %d, expected %d %zu 5", g16(b, 3216), g16(b, 3220), g16(b, 3224), s.dt, s.nz);
  double u = bypass ? 1 : scal(sc);
  for (size_t q = 0; q < order.size(); q++) {
    const Tr& t = s.t[order[q]]; size_t o = 3600 + q * (240 + 4 * s.nz);
    VH_CHECK(g16(b, o + 114) == (int)s.nz && g16(b, o + 116) == s.dt, K + "-trace-header", "trace %zu: ns %d dt %d, expected %zu %d", q, g16(b, o + 114), g16(b, o + 116), s.nz, s.dt);
    VH_CHECK(g32(b, o + fm.il - 1) == t.il && g32(b, o + fm.xl - 1) == t.xl, K + "-ilxl", "trace %zu: IL %d XL %d, expected %d %d", q, g32(b, o + fm.il - 1), g32(b, o + fm.xl - 1), t.il, t.xl);
    VH_CHECK(g16(b, o + fm.st - 1) == s.start, K + "-start-time", "trace %zu: start %d, expected %d", q, g16(b, o + fm.st - 1), s.start);
    if (!bypass) VH_CHECK(g16(b, o + fm.sc - 1) == sc, K + "-scalco", "scaling %d, expected %d", g16(b, o + fm.sc - 1), sc);
    double x = g32(b, o + fm.x - 1) * u, y = g32(b, o + fm.y - 1) * u;
    VH_CHECK(std::fabs(x - t.x) <= u * 1.000001 + 1e-9 * std::fabs(t.x) && std::fabs(y - t.y) <= u * 1.000001 + 1e-9 * std::fabs(t.y), K + "-xy", "trace %zu: position %.4f %.4f in the file, expected %.4f %.4f (unit %g)", q, x, y, t.x, t.y, u);
    for (size_t k = 0; k < s.nz; k++) { float v = gf(b, o + 240 + 4 * k); if (memcmp(&v, &t.d[k], 4)) { VH_CHECK(false, K + "-samples", "trace %zu sample %zu is %g, expected %g", q, k, v, t.d[k]); break; } }
    vh::eval();
  }
}
static bool same(const float* a, const std::vector<float>& b, size_t n) { for (size_t k = 0; k < n; k++) if (!(a[k] == b[k])) return false; return true; }

// the geometry found must map every trace to its own place
static void geometry(const Survey& s, const SegyGeometry& g, double u, const std::string& K) {
  long n = (long)s.nil * s.nxl;
  VH_CHECK((long)(g.GetNx() * g.GetNy()) == n, K + "-size", "grid %zu x %zu, expected %d inlines x %d crosslines", g.GetNx(), g.GetNy(), s.nil, s.nxl);
  if ((long)(g.GetNx() * g.GetNy()) != n) return;
  VH_CHECK(g.GetMinIL() == s.il0 && g.GetMaxIL() == s.il0 + (s.nil - 1) * s.dil && g.GetMinXL() == s.xl0 && g.GetMaxXL() == s.xl0 + (s.nxl - 1) * s.dxl, K + "-range", "IL %d..%d XL %d..%d, expected %d..%d %d..%d", g.GetMinIL(), g.GetMaxIL(), g.GetMinXL(), g.GetMaxXL(), s.il0, s.il0 + (s.nil - 1) * s.dil, s.xl0, s.xl0 + (s.nxl - 1) * s.dxl);
  VH_CHECK((s.nil < 2 || g.GetILStep() == s.dil) && (s.nxl < 2 || g.GetXLStep() == s.dxl), K + "-step", "steps %d %d, expected %d %d", g.GetILStep(), g.GetXLStep(), s.dil, s.dxl);
  if (s.nil > 1 && s.nxl > 1) {
    double a = std::hypot(s.ux, s.uy) * s.dil, b = std::hypot(s.vx, s.vy) * s.dxl; double t = 3 * u + 1e-6 * (a + b);
    bool f = g.GetFirstAxisIL(); VH_CHECK((long)g.GetNx() == (f ? s.nil : s.nxl) && std::fabs(g.GetDx() - (f ? a : b)) < t && std::fabs(g.GetDy() - (f ? b : a)) < t, K + "-cell", "nx %zu dx %g dy %g first axis IL %d; IL %d apart %g, XL %d apart %g", g.GetNx(), g.GetDx(), g.GetDy(), (int)f, s.nil, a, s.nxl, b);
  }
  if (n == 1) return; // the cell of a single trace is smaller than the unit of the positions
  std::set<size_t> seen;
  u *= s.ext;
  // the grid is rotated by one side of the survey; rounding of its ends turns the other side
  double la = std::max(1, s.nil - 1) * std::hypot(s.ux, s.uy) * s.dil, lb = std::max(1, s.nxl - 1) * std::hypot(s.vx, s.vy) * s.dxl;
  double tol = 3 * u + 1e-5 * s.sp, tolg = 3 * u * (1 + std::max(la / lb, lb / la)) + 1e-5 * s.sp;
  for (int p = 0; p < s.nil; p++) for (int q = 0; q < s.nxl; q++) {
    int il = s.il0 + p * s.dil, xl = s.xl0 + q * s.dxl; double x, y; s.pos(il, xl, x, y);
    size_t i = 99, j = 99, i2 = 99, j2 = 99; int a, b; double cx, cy;
    g.FindIndex(il, xl, i, j);
    VH_CHECK(i < g.GetNx() && j < g.GetNy(), K + "-index-range", "IL %d XL %d has index %zu %zu of %zu %zu", il, xl, i, j, g.GetNx(), g.GetNy());
    VH_CHECK(seen.insert(j * g.GetNx() + i).second, K + "-index-unique", "IL %d XL %d shares index %zu %zu", il, xl, i, j);
    VH_CHECK(g.IsInside(x, y), K + "-inside", "the position of IL %d XL %d is outside", il, xl);
    try { g.FindIndex(x, y, i2, j2); } catch (NRLib::Exception&) {}
    VH_CHECK(i == i2 && j == j2, K + "-index-xy", "IL %d XL %d has index %zu %zu, its position has %zu %zu", il, xl, i, j, i2, j2);
    if (i2 == i && j2 == j) VH_CHECK(g.FindIndex(x, y) == j * g.GetNx() + i, K + "-index-lin", "linear index");
    g.FindILXL(x, y, a, b); VH_CHECK(a == il && b == xl, K + "-ilxl-xy", "position of IL %d XL %d gives %d %d", il, xl, a, b);
    g.FindILXL(i, j, a, b); VH_CHECK(a == il && b == xl, K + "-ilxl-ij", "index of IL %d XL %d gives %d %d", il, xl, a, b);
    g.FindXYFromILXL(il, xl, cx, cy); VH_CHECK(std::hypot(cx - x, cy - y) < tol, K + "-xy", "IL %d XL %d placed at %.3f %.3f, is at %.3f %.3f", il, xl, cx, cy, x, y);
    g.FindXYFromIJ(i, j, cx, cy); VH_CHECK(std::hypot(cx - x, cy - y) < tol, K + "-xy-ij", "IL %d XL %d placed at %.3f %.3f, is at %.3f %.3f", il, xl, cx, cy, x, y);
    double ci, cj; bool in = g.FindContIndex(x, y, ci, cj); VH_CHECK(in && std::fabs(ci - i - .5) < .2 && std::fabs(cj - j - .5) < .2, K + "-cont", "IL %d XL %d: index %g %g, expected %zu.5 %zu.5", il, xl, ci, cj, i, j);
    // the grid itself: origin + rotation + increments
    double gx = g.GetX0() + (i + .5) * g.GetDx() * g.GetCosRot() - (j + .5) * g.GetDy() * g.GetSinRot(), gy = g.GetY0() + (i + .5) * g.GetDx() * g.GetSinRot() + (j + .5) * g.GetDy() * g.GetCosRot();
    VH_CHECK(std::hypot(gx - x, gy - y) < tolg, K + "-grid", "IL %d XL %d is cell %zu %zu, whose centre is %.3f %.3f; it is at %.3f %.3f", il, xl, i, j, gx, gy, x, y);
  }
  for (int k = 0; k < 4; k++) { // one step outside
    int il = k < 2 ? (k ? s.il0 - s.dil : s.il0 + s.nil * s.dil) : s.il0, xl = k >= 2 ? (k == 2 ? s.xl0 - s.dxl : s.xl0 + s.nxl * s.dxl) : s.xl0;
    if ((k < 2 && s.nil < 2) || (k >= 2 && s.nxl < 2)) continue;
    size_t i, j; bool thr = false; try { g.FindIndex(il, xl, i, j); } catch (NRLib::Exception&) { thr = true; }
    VH_CHECK(thr, K + "-index-outside", "IL %d XL %d is outside, but has an index", il, xl);
    double x, y; s.pos(il, xl, x, y); VH_CHECK(!g.IsInside(x, y), K + "-outside", "the position of IL %d XL %d is not in the survey", il, xl);
  }
  vh::sig(vh::mix(vh::mix(s.nil * 64 + s.nxl, s.dil * 8 + s.dxl), vh::hd(s.ux)));
}
static TraceHeaderFormat mk(const Fmt& f, bool bypass) { return bypass ? TraceHeaderFormat(f.id, 1, -99999, -99999, -99999, -99999, -99999, -99999, -99999) : TraceHeaderFormat(f.id); }

static Survey gather(vh::Rng& r, const std::string& f, Fmt& fm, short& sc, double& u, bool& byp, int& fmt, bool line) {
  fm = FM[r.i(0, 5)]; byp = r.b(.15); sc = byp ? 1 : r.pick(std::vector<short>{1, 1, 10, -10, -100});
  u = scal(sc); Survey s = survey(r, u, line, false);
  fmt = r.pick(std::vector<int>{1, 2, 3, 5});
  if (byp) { encode(r, s, f, fm, 1, fmt, false); } else encode(r, s, f, fm, sc, fmt, r.b(.3));
  return s;
}
static void c_read(vh::Rng& r) {
  std::string f = vh::path("a.segy"); Fmt fm; short sc; double u; bool byp; int fmt; bool line = r.b(.15);
  Survey s = gather(r, f, fm, sc, u, byp, fmt, line); double dz = s.dt / 1000.0; std::string K = vh::fmt("read");
  TraceHeaderFormat th = mk(fm, byp);
  double z0 = s.start;
  { // one and one trace
    SegY g(f, r.b(.2) ? -99999.0 : z0, th);
    VH_CHECK(g.GetNz() == s.nz && g.GetNTraces() == s.t.size() && g.GetDz() == dz, K + "-main", "nz %zu dz %g traces %zu, expected %zu %g %zu", g.GetNz(), g.GetDz(), g.GetNTraces(), s.nz, dz, s.t.size());
    size_t n = 0; SegYTrace* t;
    while ((t = g.GetNextTrace()) != 0) {
      std::unique_ptr<SegYTrace> own(t); if (n >= s.t.size()) { n++; break; } const Tr& e = s.t[n++];
      VH_CHECK(t->GetInline() == e.il && t->GetCrossline() == e.xl, K + "-ilxl", "trace %zu is IL %d XL %d, expected %d %d", n, t->GetInline(), t->GetCrossline(), e.il, e.xl);
      VH_CHECK(std::fabs(t->GetX() - e.x) <= u * .51 + 1e-9 * e.x && std::fabs(t->GetY() - e.y) <= u * .51 + 1e-9 * e.y, K + "-xy", "trace %zu at %.4f %.4f, expected %.4f %.4f", n, t->GetX(), t->GetY(), e.x, e.y);
      VH_CHECK(t->GetStart() == 0 && t->GetEnd() == s.nz - 1 && t->GetTrace().size() == s.nz && same(t->GetTrace().data(), e.d, s.nz), K + "-samples", "trace %zu, format %d: samples differ from those in the file (%zu of them)", n, fmt, t->GetTrace().size());
      VH_CHECK(t->GetTraceHeader().GetStartTime() == s.start && t->GetTraceHeader().GetInline() == e.il, K + "-header", "start time %g, expected %d", t->GetTraceHeader().GetStartTime(), s.start);
      VH_CHECK(t->GetValue(s.nz) == -99999.f && t->GetValue(s.nz - 1) == e.d[s.nz - 1], K + "-value-range", "GetValue at the end");
    }
    VH_CHECK(n == s.t.size(), K + "-count", "%zu traces read, the file has %zu", n, s.t.size());
    VH_CHECK(g.GetTop() == z0, K + "-top", "top %g, expected %g", g.GetTop(), z0);
  }
  if (r.b(.3)) VH_CHECK(SegY::FindNumberOfTraces(f, &th) == s.t.size(), K + "-number-of-traces", "%zu traces, the file has %zu", SegY::FindNumberOfTraces(f, &th), s.t.size());
  vh::stat("traces read", s.t.size());
  { // random access
    SegY g(f, z0, th); bool keep = r.b(); g.FindAndSetGridGeometry(false, keep, r.b(.3) && s.t.size() == (size_t)s.nil * s.nxl);
    geometry(s, *g.GetGeometry(), u, line ? "geometry-line" : "geometry");
    for (int k = 0; k < 12; k++) {
      int p = (int)r.i(0, s.nil - 1), q = (int)r.i(0, s.nxl - 1); int il = s.il0 + p * s.dil, xl = s.xl0 + q * s.dxl; bool has = s.at.count({il, xl});
      VH_CHECK(g.IsTraceDefined(il, xl) == has, "trace-defined", "IL %d XL %d defined %d, expected %d", il, xl, (int)g.IsTraceDefined(il, xl), (int)has);
      if (!has) { VH_CHECK((long)g.GetFilePos(il, xl) == 0, "trace-file-pos", "a trace that is not there has a position"); continue; }
      size_t ix = s.at[{il, xl}]; const Tr& e = s.t[ix]; size_t ds = fmt == 3 ? 2 : 4;
      VH_CHECK((size_t)g.GetFilePos(il, xl) == 3600 + ix * (240 + ds * s.nz) + 240 && (s.t.size() == 1 || g.GetFilePos(e.x, e.y) == g.GetFilePos(il, xl)), "trace-file-pos", "IL %d XL %d at %ld", il, xl, (long)g.GetFilePos(il, xl));
      std::vector<float> v; if (r.b() || s.t.size() == 1) g.GetTraceData(il, xl, v); else g.GetTraceData(e.x, e.y, v);
      VH_CHECK(v.size() == s.nz && same(v.data(), e.d, s.nz), "trace-data", "IL %d XL %d, format %d: other samples than in the file", il, xl, fmt);
      if (keep) VH_CHECK(g.GetTraceHeader(il, xl).GetInline() == il && (s.t.size() == 1 || g.GetTraceHeader(e.x, e.y).GetCrossline() == xl), "trace-header-lookup", "header of IL %d XL %d", il, xl);
      if (s.nz > 3 && s.start > 0) { size_t a = r.i(0, s.nz - 2), b = r.i(a, s.nz - 2); std::vector<float> w; g.GetTraceData(g.GetFilePos(il, xl), w, z0 + (a + .5) * dz, z0 + (b + .5) * dz);
        VH_CHECK(w.size() == s.nz && same(w.data() + a, std::vector<float>(e.d.begin() + a, e.d.begin() + b + 1), b - a + 1), "trace-window", "samples %zu to %zu", a, b); }
    }
    bool thr = false; std::vector<float> v; if (s.nil > 1) { try { g.GetTraceData(s.il0 + s.nil * s.dil, s.xl0, v); } catch (NRLib::Exception&) { thr = true; } VH_CHECK(thr, "trace-outside", "data of an inline after the last one"); VH_CHECK(!g.IsTraceDefined(s.il0 + s.nil * s.dil, s.xl0), "trace-defined", "an inline after the last one is defined"); }
  }
  if (!line && s.t.size() > 1) { // all in memory
    SegY g(f, z0, th); g.ReadAllTraces(0, 0.0); VH_CHECK(g.GetNTraces() == s.t.size(), "all-count", "%zu traces", g.GetNTraces());
    { std::vector<float> all = g.GetAllValues(); VH_CHECK(all.size() == s.t.size() * s.nz, "all-values", "%zu values, expected %zu", all.size(), s.t.size() * s.nz);
      bool ok = all.size() == s.t.size() * s.nz; for (size_t q = 0; ok && q < s.t.size(); q++) ok = same(&all[q * s.nz], s.t[q].d, s.nz); VH_CHECK(ok, "all-values", "other values than in the file"); VH_CHECK(g.FindNumberOfSamplesInLongestTrace() == s.nz, "all-longest", "longest"); }
    g.CreateRegularGrid(false); geometry(s, *g.GetGeometry(), u, "geometry-all");
    for (int k = 0; k < 15; k++) {
      int p = (int)r.i(0, s.nil - 1), q = (int)r.i(0, s.nxl - 1); int il = s.il0 + p * s.dil, xl = s.xl0 + q * s.dxl; bool has = s.at.count({il, xl}); double x, y; s.pos(il, xl, x, y);
      std::vector<float> v; bool miss; double zd = -1; g.GetNearestTrace(v, miss, zd, x, y);
      VH_CHECK(miss == !has, "nearest-missing", "trace IL %d XL %d missing %d", il, xl, (int)miss);
      size_t kz = r.i(0, s.nz - 1);
      double cx, cy; g.GetGeometry()->FindXYFromILXL(il, xl, cx, cy);
      float val = g.GetValue(cx, cy, z0 + (kz + .5) * dz, r.pick(std::vector<int>{(int)SegY::MISSING, (int)SegY::ZERO, (int)SegY::CLOSEST}));
      if (!has) { VH_CHECK(val == -99999.f || val == 0, "value-missing", "value %g where there is no trace", val); continue; }
      const Tr& e = s.t[s.at[{il, xl}]];
      VH_CHECK(v.size() == s.nz && same(v.data(), e.d, s.nz) && std::fabs(zd - z0 - .5 * dz) < 1e-6 * (1 + z0), "nearest-trace", "other samples than in the file; first depth %g", zd);
      double mag = 1e-30; for (auto& t : s.t) for (long kk = (long)kz - 1; kk <= (long)kz + 1; kk++) if (kk >= 0 && kk < (long)s.nz) mag = std::max(mag, (double)std::fabs(t.d[kk]));
      double la = std::max(1, s.nil - 1) * std::hypot(s.ux, s.uy) * s.dil, lb = std::max(1, s.nxl - 1) * std::hypot(s.vx, s.vy) * s.dxl;
      double loose = 12 * u * s.ext * (1 + std::max(la / lb, lb / la)) / s.sp + 2e-3 + 2e-7 * (s.x0 + s.y0) / s.sp; // position of the centre is a float computation
      VH_CHECK(std::fabs(val - e.d[kz]) <= loose * mag, "value-at-sample", "value %.7g in the middle of sample %zu of IL %d XL %d, which is %.7g", val, kz, il, xl, e.d[kz]);
      // anywhere inside the cell: bounded by the parabola through neighbours
      double fx = r.u(-.45, .45), fy = r.u(-.45, .45), fz = r.u(-.45, .45); double px = cx + fx * s.ux * s.dil + fy * s.vx * s.dxl, py = cy + fx * s.uy * s.dil + fy * s.vy * s.dxl;
      float w = g.GetValue(px, py, z0 + (kz + .5 + fz) * dz); VH_CHECK(std::isfinite(w) && std::fabs(w - e.d[kz]) <= 3 * (1.01 * mag) * 1.2 + loose * mag, "value-in-cell", "value %g in a cell of value %g with values up to %g around", w, e.d[kz], mag);
      VH_CHECK(g.GetValue(cx, cy, z0 - dz) == -99999.f && g.GetValue(cx, cy, z0 + (s.nz + 1) * dz, SegY::ZERO) == 0, "value-outside-z", "value outside in z");
      VH_CHECK(g.GetTraceHeader(il, xl).GetInline() == il, "all-header", "header");
    }
    double x, y; s.pos(s.il0 - 3 * s.dil, s.xl0, x, y); VH_CHECK(g.GetValue(x, y, z0 + .5 * dz) == -99999.f && g.GetValue(x, y, z0 + .5 * dz, SegY::ZERO) == 0, "value-outside", "value outside the survey");
  }
  vh::stat("files decoded");
  if (vh::nsample() < 2) vh::sample(vh::fmt("%d x %d traces of %zu samples, sample format %d, header format %d, scaling %d, dt %d us", s.nil, s.nxl, s.nz, fmt, fm.id, sc, s.dt));
}
static void c_volume(vh::Rng& r) { // reading only the part inside a volume
  std::string f = vh::path("v.segy"); Fmt fm; short sc; double u; bool byp; int fmt; Survey s = gather(r, f, fm, sc, u, byp, fmt, false); if (s.nz < 6 || s.t.size() < 4) return;
  double dz = s.dt / 1000.0, z0 = s.start; TraceHeaderFormat th = mk(fm, byp);
  size_t a = r.i(0, s.nz - 3), b = r.i(a + 1, s.nz - 2); double zt = z0 + (a + .5) * dz, zb = z0 + (b + .5) * dz;
  double cx = 0, cy = 0; for (auto& t : s.t) cx += t.x / s.t.size(), cy += t.y / s.t.size();
  double L = 4 * s.sp + std::hypot(s.ux, s.uy) * s.dil + std::hypot(s.vx, s.vy) * s.dxl;
  bool part = r.b(.4), late = r.b(.2); double w = part ? L * .7 : 1e7;
  Volume v(cx - w, cy - w, 2 * w, 2 * w, ConstantSurface<double>(zt), ConstantSurface<double>(zb), 0.0);
  size_t in = 0; for (size_t q = 0; q < s.t.size(); q++) in += v.IsInside(s.t[q].x, s.t[q].y);
  (void)late;
  SegY g(f, z0, th); double pad = r.b() ? 0 : r.u(0, .5);
  try { g.ReadAllTraces(&v, pad, part); }
  catch (NRLib::Exception& e) { VH_CHECK(part && in <= 2, "volume-none", "reading inside a volume with %zu traces failed: %s", in, e.what()); return; }
  long j0 = (long)((zt - .5 * pad * (zb - zt) - z0) / dz), j1 = (long)((zb + .5 * pad * (zb - zt) - z0) / dz); if (j0 < 0) j0 = 0; if (j1 > (long)s.nz - 1) j1 = s.nz - 1;
  for (size_t q = 0; q < s.t.size(); q++) {
    SegYTrace* t = g.getTrace((int)q); const Tr& e = s.t[q];
    double ex = std::fabs(std::fabs(e.x - cx) - w), ey = std::fabs(std::fabs(e.y - cy) - w);
    if (part && std::min(ex, ey) < 2 * u) continue; // the position in the file is rounded
    bool want = !part || v.IsInside(e.x, e.y);
    VH_CHECK((t != 0) == want, "volume-trace", "trace %zu %s, it is %s the volume", q, t ? "read" : "not read", want ? "inside" : "outside");
    if (!t) continue;
    VH_CHECK((long)t->GetStart() <= (long)a && t->GetEnd() >= b && t->GetEnd() < s.nz, "volume-window", "samples %zu to %zu read, the volume needs %zu to %zu of %zu", t->GetStart(), t->GetEnd(), a, b, s.nz);
    VH_CHECK(std::labs((long)t->GetStart() - j0) <= 1 && std::labs((long)t->GetEnd() - j1) <= 1, "volume-pad", "samples %zu to %zu read, expected %ld to %ld", t->GetStart(), t->GetEnd(), j0, j1);
    bool ok = true; for (size_t k = 0; k < s.nz; k++) { float x = t->GetValue(k); ok = ok && x == (k < t->GetStart() || k > t->GetEnd() ? -99999.f : e.d[k]); }
    VH_CHECK(ok, "volume-samples", "trace %zu: other samples than in the file", q);
    VH_CHECK(t->GetLegalIndex(0) == t->GetStart() && t->GetLegalIndex(s.nz + 5) == t->GetEnd() && t->GetLegalIndex(b) == b, "legal-index", "legal index");
  }
  vh::stat("volumes read");
}
static void c_write(vh::Rng& r) {
  std::string f = vh::path("w.segy"); const Fmt& fm = FM[r.i(0, 5)]; bool byp = r.b(.15); short sc = byp ? 1 : r.pick(std::vector<short>{1, 1, 10, -10, -100, -1000});
  double u = scal(sc); bool line = r.b(.1); Survey s = survey(r, std::max(u, .1), line, false); if (sc == -1000) { s.x0 = s.x0 - 3e5 > 0 ? s.x0 - 3e5 : s.x0; double m = 0; for (auto& t : s.t) { s.pos(t.il, t.xl, t.x, t.y); m = std::max(m, std::max(t.x, t.y)); } if (m > 2e6) sc = -100, u = .01; }
  double dz = s.dt / 1000.0; TraceHeaderFormat th = mk(fm, byp);
  std::vector<size_t> order; for (size_t q = 0; q < s.t.size(); q++) order.push_back(q);
  for (auto& t : s.t) for (auto& v : t.d) if (r.b(.02)) v = r.pick(std::vector<float>{0.f, -0.f, 1e-40f, 3.4e38f, -1e-30f});
  TextualHeader hd = r.b() ? TextualHeader::standardHeader() : TextualHeader(); std::string line5 = "LINE AZ az09 (x=1.5, y+2)"; int rc = hd.SetLine(5, line5); std::string odd; for (int k = 0; k < 60; k++) odd += (char)r.i(1, 255); hd.SetLine((int)r.i(10, 39), odd);
  VH_CHECK(rc == 0 && hd.SetLine(40, "x") == -1 && hd.SetLine(-1, "x") == -1 && hd.SetLine(7, std::string(80, 'A')) == 1, "textual-header", "return codes of SetLine");
  int how = (int)r.i(0, 2);
  double ax = s.ux, ay = s.uy, bx = s.vx, by = s.vy; double det = ax * by - ay * bx;
  std::unique_ptr<SegyGeometry> geo;
  if (how > 0) { // geometry with line numbers given
    geo.reset(new SegyGeometry()); geo->SetupGeometry(s.t[0].x, s.t[0].y, s.t[0].il, s.t[0].xl, s.il0, s.il0 + (s.nil - 1) * s.dil, s.xl0, s.xl0 + (s.nxl - 1) * s.dxl, ax, ay, bx, by, s.dil, s.dxl);
    geo->FindILXLGeometry(s.il0, s.il0 + (s.nil - 1) * s.dil, s.dil, s.xl0, s.xl0 + (s.nxl - 1) * s.dxl, s.dxl);
    if (line) return;
    (void)det;
  }
  {
    SegY* g; if (r.b()) g = new SegY(f, s.start, s.nz, dz, hd, th); else { g = new SegY(); g->Initialize(f, s.start, s.nz, dz, hd, th); }
    std::unique_ptr<SegY> own(g);
    if (how == 0) for (auto& t : s.t) g->WriteTrace(t.x, t.y, t.il, t.xl, t.d, sc);
    else {
      g->SetGeometry(geo.get());
      // data that begin below the top of the file and end before its end
      size_t a = s.nz > 2 && r.b() ? r.i(0, s.nz - 2) : 0, n = a ? r.i(1, s.nz - a) : s.nz; float tv = 7, bv = -8;
      Volume v(0, 0, 1e8, 1e8, ConstantSurface<double>(s.start + (a + .5) * dz), ConstantSurface<double>(s.start + s.nz * dz + 100), 0.0);
      std::vector<size_t> ins; for (size_t q = 0; q < s.t.size(); q++) ins.push_back(q);
      if (how == 2) for (size_t q = ins.size(); q > 1; q--) std::swap(ins[q - 1], ins[r.i(0, q - 1)]);
      for (size_t q : ins) {
        auto& t = s.t[q]; std::vector<float> d = t.d;
        if (a) { d.assign(t.d.begin() + a, t.d.begin() + a + n); for (size_t k = 0; k < s.nz; k++) if (k < a) t.d[k] = tv; else if (k >= a + n) t.d[k] = bv; }
        if (how == 1) g->WriteTrace(t.x, t.y, d, a ? &v : 0, tv, bv, sc); else g->StoreTrace(t.x, t.y, d, a ? &v : 0, tv, bv);
      }
      bool thr = false; double ox, oy; s.pos(s.il0 - 2 * s.dil, s.xl0, ox, oy); try { if (how == 2) g->StoreTrace(ox, oy, s.t[0].d, 0); else thr = true; } catch (NRLib::Exception&) { thr = true; } VH_CHECK(thr, "store-outside", "a trace outside the geometry was stored");
      if (how == 2) {
        g->WriteAllTracesToFile(sc);
        std::sort(order.begin(), order.end(), [&](size_t p, size_t q) { return std::make_pair(s.t[p].il, s.t[p].xl) < std::make_pair(s.t[q].il, s.t[q].xl); });
        for (auto& t : s.t) { size_t i, j; geo->FindIndex(t.il, t.xl, i, j); SegYTrace* k = g->getTrace((int)(i + j * geo->GetNx())); VH_CHECK(k && k->GetInline() == t.il && k->GetCrossline() == t.xl, "write-all-order", "after writing, the trace of IL %d XL %d is no longer at its place", t.il, t.xl); }
      }
    }
  }
  decode(s, f, fm, sc, order, vh::fmt("write%d", how), byp);
  { std::string b = slurp(f); static const char* eb = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"; static const uc ev[] = {0xc1,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9};
    bool ok = b.size() >= 3200; for (size_t k = 0; ok && k < line5.size(); k++) { uc c = (uc)b[5 * 80 + 5 + k]; const char* p = strchr(eb, line5[k]); if (line5[k] && p) ok = c == ev[p - eb]; else if (isdigit(line5[k])) ok = c == 0xf0 + (line5[k] - '0'); else if (line5[k] == ' ') ok = c == 0x40; }
    VH_CHECK(ok && (uc)b[7 * 80 + 5] == 0xc1 && (uc)b[7 * 80 + 79] == 0xc1 && (uc)b[8 * 80] == 0xc3 && (uc)b[8 * 80 + 2] == 0xf9 && (uc)b[0] == 0xc3 && (uc)b[2] == 0xf1 && (uc)b[3199] != 0, "textual-header-text", "the text of line 5 or 7 is not as set"); }
  // and the library reads its own file
  SegY g(f, s.start, th); size_t n = 0; SegYTrace* t;
  while ((t = g.GetNextTrace()) != 0) { std::unique_ptr<SegYTrace> own(t); if (n >= order.size()) { n++; break; } const Tr& e = s.t[order[n++]]; VH_CHECK(t->GetInline() == e.il && t->GetCrossline() == e.xl && t->GetTrace().size() == s.nz && memcmp(t->GetTrace().data(), e.d.data(), 4 * s.nz) == 0, "write-read", "trace %zu read back differs", n); }
  VH_CHECK(n == order.size() && g.GetDz() == dz && g.GetNz() == s.nz, "write-read-main", "%zu traces, dz %g nz %zu", n, g.GetDz(), g.GetNz());
  vh::sig(vh::mix(vh::mix(s.nil * 64 + s.nxl, how), vh::hd(s.x0 + s.ux))); vh::stat("files written"); vh::stat("traces written", n);
}
static void c_detect(vh::Rng& r) { // trace header format detection
  std::string f = vh::path("d.segy"); const Fmt& fm = FM[r.b(.7) ? 0 : 2]; short sc = r.b() ? -100 : -10; Survey s = survey(r, scal(sc), false, true); encode(r, s, f, fm, sc, 5, false);
  SegY g(f, s.start); TraceHeaderFormat t = g.GetTraceHeaderFormat();
  VH_CHECK(t.GetInlineLoc() == fm.il && t.GetCrosslineLoc() == fm.xl && t.GetUtmxLoc() == fm.x && t.GetUtmyLoc() == fm.y, "detect-format", "detected IL at %d XL at %d x at %d, the file has %d %d %d", t.GetInlineLoc(), t.GetCrosslineLoc(), t.GetUtmxLoc(), fm.il, fm.xl, fm.x);
  size_t n = 0; SegYTrace* k; while ((k = g.GetNextTrace()) != 0) { std::unique_ptr<SegYTrace> own(k); if (n < s.t.size()) VH_CHECK(k->GetInline() == s.t[n].il && k->GetCrossline() == s.t[n].xl && same(k->GetTrace().data(), s.t[n].d, s.nz), "detect-read", "trace %zu", n); n++; }
  VH_CHECK(n == s.t.size(), "detect-count", "%zu of %zu traces", n, s.t.size());
  SegyGeometry* geo = SegY::FindGridGeometry(f); geometry(s, *geo, scal(sc), "geometry-detect"); delete geo;
  vh::stat("formats detected");
}
static void c_sub(vh::Rng& r) { // sub-geometries
  std::string f = vh::path("s.segy"); Survey s = survey(r, .01, false, false); encode(r, s, f, FM[0], -100, 5, false);
  TraceHeaderFormat th(TraceHeaderFormat::SEISWORKS); SegyGeometry* geo = SegY::FindGridGeometry(f, &th); std::unique_ptr<SegyGeometry> own(geo);
  int pa = (int)r.i(0, s.nil - 1), pb = (int)r.i(pa, s.nil - 1), qa = (int)r.i(0, s.nxl - 1), qb = (int)r.i(qa, s.nxl - 1); int mi = (int)r.i(1, 2), mx = (int)r.i(1, 2);
  std::vector<int> w = {s.il0 + pa * s.dil, s.il0 + pb * s.dil, s.xl0 + qa * s.dxl, s.xl0 + qb * s.dxl, r.b() ? -1 : mi * s.dil, r.b() ? -1 : mx * s.dxl};
  bool ip = true, al = true; SegyGeometry* sub = geo->GetILXLSubGeometry(w, ip, al); std::unique_ptr<SegyGeometry> own2(sub);
  int l0 = w[0] < 0 ? s.il0 : w[0], l1 = w[1], m0 = w[2], m1 = w[3] < 0 ? s.xl0 + (s.nxl - 1) * s.dxl : w[3]; int si = w[4] < 0 ? s.dil : w[4], sx = w[5] < 0 ? s.dxl : w[5];
  VH_CHECK(!ip, "sub-interpolation", "interpolation is not needed for lines in the survey");
  int e1 = l1, e2 = m1; if ((e1 - l0) % si) { e1 += si - (e1 - l0) % si; if (e1 > s.il0 + (s.nil - 1) * s.dil) e1 -= si; } if ((e2 - m0) % sx) { e2 += sx - (e2 - m0) % sx; if (e2 > s.xl0 + (s.nxl - 1) * s.dxl) e2 -= sx; }
  Survey q = s; q.il0 = l0; q.xl0 = m0; q.dil = si; q.dxl = sx; q.nil = (e1 - l0) / si + 1; q.nxl = (e2 - m0) / sx + 1; q.t.clear(); q.at.clear(); s.pos(l0, m0, q.x0, q.y0);
  geometry(q, *sub, .01, "geometry-sub");
  bool thr = false; std::vector<int> bad = w; bad[0] = bad[0] < 0 ? s.il0 : bad[0]; bad[r.b() ? 0 : 1] = r.b() ? s.il0 + s.nil * s.dil : std::max(0, s.il0 - 1 - (int)r.i(0, 3)); try { delete geo->GetILXLSubGeometry(bad, ip, al); } catch (NRLib::Exception&) { thr = true; } VH_CHECK(thr, "sub-outside", "a sub-geometry outside the survey was accepted (%d..%d of %d..%d)", bad[0], bad[1], s.il0, s.il0 + (s.nil - 1) * s.dil);
  // the lines that cover an area
  SegyGeometry copy(sub); std::vector<int> area = geo->findAreaILXL(&copy);
  VH_CHECK(area.size() == 6 && area[0] <= l0 && area[1] >= e1 && area[2] <= m0 && area[3] >= e2 && area[0] >= s.il0 && area[2] >= s.xl0 && area[1] <= s.il0 + (s.nil - 1) * s.dil && area[3] <= s.xl0 + (s.nxl - 1) * s.dxl && area[4] == s.dil && area[5] == s.dxl, "area", "lines %d-%d, %d-%d do not cover %d-%d, %d-%d within the survey", area[0], area[1], area[2], area[3], l0, e1, m0, e2);
  VH_CHECK((area[0] - s.il0) % s.dil == 0 && (area[2] - s.xl0) % s.dxl == 0 && (area[1] - s.il0) % s.dil == 0 && (area[3] - s.xl0) % s.dxl == 0, "area-lines", "lines %d-%d, %d-%d are not lines of the survey", area[0], area[1], area[2], area[3]);
  vh::stat("sub-geometries");
}
static void c_storm(vh::Rng& r) { // a storm cube written as SEG-Y
  size_t nx = r.i(2, 8), ny = r.i(2, 8), nk = r.i(2, 12); double dx = r.u(10, 50), dy = r.u(10, 50), ang = r.b(.4) ? 0 : r.u(-1.5, 1.5); double dz = r.pick(std::vector<double>{1, 2, 4});
  double zt = 4 * r.i(1, 500), x0 = std::floor(r.u(1e5, 5e5)), y0 = std::floor(r.u(1e6, 6e6));
  StormContGrid g(Volume(x0, y0, nx * dx, ny * dy, ConstantSurface<double>(zt), ConstantSurface<double>(zt + nk * dz), ang), nx, ny, nk);
  for (size_t k = 0; k < nk; k++) for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++) g(i, j, k) = (float)r.n() * 10;
  std::string f = vh::path("g.segy"); int pre = (int)r.i(0, 3), post = (int)r.i(0, 3); int nz = (int)nk + pre + post; double z0 = zt - pre * dz;
  { SegY sg(&g, 0, z0, dz, nz, f, true); }
  TraceHeaderFormat th(TraceHeaderFormat::SEISWORKS); SegY sg(f, z0, th); size_t n = 0; SegYTrace* t; std::set<std::pair<int,int>> seen;
  while ((t = sg.GetNextTrace()) != 0) {
    std::unique_ptr<SegYTrace> own(t); n++;
    size_t i, j, k; g.FindIndex(t->GetX() + .5, t->GetY() + .5, zt + .1 * dz, i, j, k);
    VH_CHECK(seen.insert({(int)i, (int)j}).second, "storm-cell", "two traces in cell %zu %zu", i, j);
    double cx, cy, cz; g.FindCenterOfCell(i, j, 0, cx, cy, cz); VH_CHECK(std::fabs(t->GetX() - cx) <= 1.01 && std::fabs(t->GetY() - cy) <= 1.01, "storm-xy", "trace at %.2f %.2f, the cell is at %.2f %.2f", t->GetX(), t->GetY(), cx, cy);
    for (int q = 0; q < nz; q++) { float v = t->GetValue(q); long kk = q - pre; float e = kk < 0 || kk >= (long)nk ? 0 : g(i, j, kk); if (kk == (long)nk - 1) continue; VH_CHECK(std::fabs(v - e) < 1e-3, "storm-value", "sample %d of cell %zu %zu is %g, expected %g (nk %zu)", q, i, j, v, e, nk); }
  }
  VH_CHECK(n == nx * ny, "storm-count", "%zu traces for %zu x %zu cells", n, nx, ny);
  vh::stat("storm cubes written"); vh::sig(vh::mix(nx * 100 + ny, vh::hd(ang)));
}
// geometries without line numbers in the input
static void c_plain(vh::Rng& r) {
  size_t nx = r.i(1, 12), ny = r.i(1, 12); double dx = r.u(1, 60), dy = r.u(1, 60), x0 = r.b() ? 0 : r.u(1e5, 5e5), y0 = r.b() ? 0 : r.u(1e6, 6e6), rot = 0; std::unique_ptr<SegyGeometry> g;
  switch (r.i(0, 2)) {
    case 0: rot = r.b(.3) ? 0 : r.u(-3.14, 3.14); g.reset(new SegyGeometry(x0, y0, dx, dy, nx, ny, rot)); break;
    case 1: { RegularSurface<double> s(x0, y0, nx * dx, ny * dy, nx + 1, ny + 1); g.reset(new SegyGeometry(s)); break; }
    default: { rot = r.b(.3) ? 0 : r.u(-1.5, 1.5); RegularSurfaceRotated<double> s(x0, y0, nx * dx, ny * dy, nx + 1, ny + 1, rot); g.reset(new SegyGeometry(s)); }
  }
  if (r.b(.3)) g.reset(new SegyGeometry(std::unique_ptr<SegyGeometry>(std::move(g)).get()));
  VH_CHECK(g->GetNx() == nx && g->GetNy() == ny, "plain-size", "size");
  std::set<std::pair<int,int>> seen;
  for (int q = 0; q < 20; q++) {
    size_t i = r.i(0, nx - 1), j = r.i(0, ny - 1); double a = (i + .5 + r.u(-.4, .4)) * dx, b = (j + .5 + r.u(-.4, .4)) * dy; double x = x0 + a * std::cos(rot) - b * std::sin(rot), y = y0 + a * std::sin(rot) + b * std::cos(rot);
    VH_CHECK(g->IsInside(x, y), "plain-inside", "a point of cell %zu %zu of %zu x %zu is outside", i, j, nx, ny);
    size_t p = 99, o = 99; try { g->FindIndex(x, y, p, o); } catch (NRLib::Exception&) {}
    VH_CHECK(p == i && o == j, "plain-index", "a point of cell %zu %zu is in %zu %zu (%zu x %zu)", i, j, p, o, nx, ny);
    if (p != i || o != j) continue;
    int il, xl; g->FindILXL(x, y, il, xl); size_t p2 = 99, o2 = 99; try { g->FindIndex(il, xl, p2, o2); } catch (NRLib::Exception&) {} VH_CHECK(p2 == i && o2 == j, "plain-ilxl", "IL %d XL %d of cell %zu %zu is index %zu %zu", il, xl, i, j, p2, o2);
    int il2, xl2; g->FindILXL(i, j, il2, xl2); VH_CHECK(il2 == il && xl2 == xl, "plain-ilxl-ij", "lines %d %d, %d %d", il, xl, il2, xl2);
    double cx, cy; g->FindXYFromIJ(i, j, cx, cy); double ex = x0 + (i + .5) * dx * std::cos(rot) - (j + .5) * dy * std::sin(rot), ey = y0 + (i + .5) * dx * std::sin(rot) + (j + .5) * dy * std::cos(rot);
    VH_CHECK(std::hypot(cx - ex, cy - ey) < 1e-5 * (dx + dy), "plain-xy", "cell %zu %zu at %.4f %.4f, expected %.4f %.4f", i, j, cx, cy, ex, ey);
    VH_CHECK(il >= g->GetMinIL() && il <= g->GetMaxIL() && xl >= g->GetMinXL() && xl <= g->GetMaxXL(), "plain-range", "IL %d XL %d outside %d..%d %d..%d", il, xl, g->GetMinIL(), g->GetMaxIL(), g->GetMinXL(), g->GetMaxXL());
  }
  double a = -.1 * dx, b = -.1 * dy; VH_CHECK(!g->IsInside(x0 + a * std::cos(rot) - b * std::sin(rot), y0 + a * std::sin(rot) + b * std::cos(rot)), "plain-outside", "a point before the origin is inside");
  a = (nx + .1) * dx; b = .5 * dy; VH_CHECK(!g->IsInside(x0 + a * std::cos(rot) - b * std::sin(rot), y0 + a * std::sin(rot) + b * std::cos(rot)), "plain-outside", "a point after the last cell is inside");
  vh::stat("plain geometries"); vh::sig(vh::mix(nx * 100 + ny, vh::hd(rot + dx)));
}
int main(int argc, char** argv) {
  return vh::run(argc, argv, [](vh::Rng& r, long, const std::string& m) {
    if (m == "read") c_read(r); else if (m == "write") c_write(r); else if (m == "volume") c_volume(r); else if (m == "detect") c_detect(r); else if (m == "sub") c_sub(r); else if (m == "storm") c_storm(r); else c_plain(r);
  });
}

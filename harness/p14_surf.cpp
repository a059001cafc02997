// P14: regular and rotated surfaces against a plain-array model.
#include "vh.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/surface/regularsurfacerotated.hpp"
#include "nrlib/surface/surface.hpp"
#include <algorithm>
#include <fstream>
#include <memory>
using namespace NRLib;
typedef long double ld;

template <class A> struct M {  // the model
  size_t nx, ny; double x0, y0, lx, ly; std::vector<A> v; A miss; double ang;
  double dx() const { return nx > 1 ? lx / (nx - 1) : 1.0; }
  double dy() const { return ny > 1 ? ly / (ny - 1) : 1.0; }
  bool has(long i, long j) const { return i >= 0 && j >= 0 && i < (long)nx && j < (long)ny && v[i + j * nx] != miss; }
  A at(long i, long j) const { return v[i + j * nx]; }
  double big() const { double b = 1; for (A a : v) if (a != miss) b = std::max(b, (double)std::fabs(a)); return b; }
};
// rounding of the lookup: of the values, and of the coordinates relative to the cell size
template <class A> static double tol(const M<A>& m, double w = 1) { return (sizeof(A) == 4 ? 2e-6 : 1e-9) * m.big() + 4e-15 * (std::fabs(m.x0) + std::fabs(m.y0) + m.lx + m.ly) / std::min(m.dx(), m.dy()) * m.big() / std::max(w, 1e-12); }
template <class A> static const char* tn() { return sizeof(A) == 4 ? "float" : "double"; }

template <class A> static M<A> model(vh::Rng& r, bool file) {
  M<A> m; m.nx = r.b(.1) ? 1 : r.i(1, r.b(.1) ? 40 : 9); m.ny = r.b(.1) ? 1 : r.i(1, r.b(.1) ? 40 : 9);
  m.x0 = r.b(.3) ? 0 : r.b() ? r.n() * 100 : r.u(400000, 500000); m.y0 = r.b(.3) ? 0 : r.b() ? r.n() * 100 : r.u(6e6, 7e6);
  double d = r.b(.3) ? 1 : r.logu(.1, 100); m.lx = d * (m.nx > 1 ? m.nx - 1 : 1); m.ly = (r.b() ? d : r.logu(.1, 100)) * (m.ny > 1 ? m.ny - 1 : 1);
  if (file) { m.x0 = std::floor(m.x0 * 100) / 100; m.y0 = std::floor(m.y0 * 100) / 100; }
  m.miss = (A)(r.b(.5) ? -999.0 : r.b(.4) ? IRAP_MISSING : r.b() ? 1e30 : 0.5);
  double pm = r.b(.4) ? 0 : r.b(.8) ? r.u(0, .5) : 1; double sc = r.b(.3) ? 1 : r.logu(.01, 5000);
  int sh = (int)r.i(0, 2); double a = r.n() * sc, b = r.n() * sc, c = r.n() * sc, e = r.n() * sc;
  m.v.resize(m.nx * m.ny);
  for (size_t j = 0; j < m.ny; j++) for (size_t i = 0; i < m.nx; i++) { double x = (double)i / m.nx, y = (double)j / m.ny; A z = (A)(sh == 0 ? r.n() * sc : sh == 1 ? a + b * x + c * y + e * x * y : a + r.u(0, sc)); if (z == m.miss || z == (A)-999.0 || z == (A)IRAP_MISSING) z += 1; m.v[i + j * m.nx] = r.b(pm) ? m.miss : z; }
  m.ang = 0;
  return m;
}
template <class A> static RegularSurface<A> build(vh::Rng& r, const M<A>& m) {
  RegularSurface<A> s;
  switch (r.i(0, 3)) {
    case 0: s = RegularSurface<A>(m.x0, m.y0, m.lx, m.ly, m.nx, m.ny); break;
    case 1: { Grid2D<A> g(m.nx, m.ny, 0); s = RegularSurface<A>(m.x0, m.y0, m.lx, m.ly, g); break; }
    case 2: s.Resize(m.nx, m.ny); s.SetDimensions(m.x0, m.y0, m.lx, m.ly); break;
    default: s = RegularSurface<A>(m.x0, m.y0, m.lx, m.ly, 3, 4, 7); s.Resize(m.nx, m.ny, 2);
  }
  s.SetMissingValue(m.miss);
  for (size_t j = 0; j < m.ny; j++) for (size_t i = 0; i < m.nx; i++) { if (m.v[i + j * m.nx] == m.miss && r.b()) s.SetMissing(i, j); else s(i, j) = m.v[i + j * m.nx]; }
  return s;
}
template <class A> static void same(const M<A>& m, const RegularSurface<A>& s, const std::string& k, double tv = 0, double tg = 0) {
  VH_CHECK(s.GetNI() == m.nx && s.GetNJ() == m.ny && s.GetN() == m.nx * m.ny, k + "-size", "%zu x %zu, expected %zu x %zu", s.GetNI(), s.GetNJ(), m.nx, m.ny);
  if (s.GetNI() != m.nx || s.GetNJ() != m.ny) return;
  double g = 1e-12 * (std::fabs(m.x0) + std::fabs(m.y0) + m.lx + m.ly) + tg;
  VH_CHECK(std::fabs(s.GetXMin() - m.x0) <= g && std::fabs(s.GetYMin() - m.y0) <= g, k + "-origin", "origin %.12g %.12g, expected %.12g %.12g", s.GetXMin(), s.GetYMin(), m.x0, m.y0);
  if (m.nx > 1) VH_CHECK(std::fabs(s.GetLengthX() - m.lx) <= g * (tg > 0 ? m.nx : 1) && std::fabs(s.GetXMax() - m.x0 - m.lx) <= 2 * g * (tg > 0 ? m.nx : 1) && std::fabs(s.GetDX() - m.dx()) <= g, k + "-length", "x length %.12g dx %.12g, expected %.12g %.12g", s.GetLengthX(), s.GetDX(), m.lx, m.dx());
  if (m.ny > 1) VH_CHECK(std::fabs(s.GetLengthY() - m.ly) <= g * (tg > 0 ? m.ny : 1) && std::fabs(s.GetYMax() - m.y0 - m.ly) <= 2 * g * (tg > 0 ? m.ny : 1) && std::fabs(s.GetDY() - m.dy()) <= g, k + "-length", "y length %.12g dy %.12g, expected %.12g %.12g", s.GetLengthY(), s.GetDY(), m.ly, m.dy());
  for (size_t j = 0; j < m.ny; j++) for (size_t i = 0; i < m.nx; i++) {
    A a = s(i, j); bool h = m.has(i, j);
    VH_CHECK(s.IsMissing(a) == !h && s.IsMissingAt(i, j) == !h, k + "-missing", "node %zu,%zu missing %d, expected %d (value %g)", i, j, (int)s.IsMissing(a), (int)!h, (double)a);
    if (h) VH_CHECK(std::fabs((double)a - (double)m.at(i, j)) <= tv, k + "-value", "node %zu,%zu is %.15g, expected %.15g", i, j, (double)a, (double)m.at(i, j));
    VH_CHECK(s(i + j * m.nx) == a, k + "-layout", "linear index");
  }
}

// expected result at local cell coordinates (t,u): -1 missing, 0 value, 1 ambiguous (only bounds)
template <class A> struct Ref { int kind; double z, lo, hi; bool any; double w = 1; };
template <class A> static Ref<A> ref(const M<A>& m, ld t, ld u, bool inside, ld amb) {
  Ref<A> R; R.lo = 1e300; R.hi = -1e300; R.any = false; R.z = 0;
  ld ft = floorl(t), fu = floorl(u); bool nearI = fabsl(t - roundl(t)) < amb, nearJ = fabsl(u - roundl(u)) < amb;
  if (fabsl(t) > 1e9L || fabsl(u) > 1e9L) { R.kind = -1; return R; }
  long i = (long)ft, j = (long)fu;
  long rt = (long)roundl(t), ru = (long)roundl(u);
  if (nearI || nearJ) {
    for (long b = (nearJ ? ru - 1 : j); b <= (nearJ ? ru + 1 : j + 1); b++) for (long a = (nearI ? rt - 1 : i); a <= (nearI ? rt + 1 : i + 1); a++) if (m.has(a, b)) { R.any = true; R.lo = std::min(R.lo, (double)m.at(a, b)); R.hi = std::max(R.hi, (double)m.at(a, b)); }
    R.kind = R.any ? 1 : -1; return R;
  }
  ld x = t - ft, y = u - fu; ld w[4] = {(1 - x) * (1 - y), x * (1 - y), (1 - x) * y, x * y}; ld s = 0, sw = 0; int n = 0;
  for (int k = 0; k < 4; k++) { long a = i + (k & 1), b = j + (k >> 1); if (m.has(a, b)) { n++; s += w[k] * m.at(a, b); sw += w[k]; R.lo = std::min(R.lo, (double)m.at(a, b)); R.hi = std::max(R.hi, (double)m.at(a, b)); } }
  if (n == 0 || (inside && n < 4)) { R.kind = -1; return R; }
  R.kind = 0; R.z = (double)(s / sw); R.w = (double)sw; return R;
}
template <class A> static void judge(const M<A>& m, const Ref<A>& R, A z, bool miss, const std::string& k, double x, double y) {
  double T = tol(m, R.w);
  if (R.kind == -1) VH_CHECK(miss && z == m.miss, k + "-missing", "(%.12g,%.12g) of %zux%zu surface gave %.12g instead of missing", x, y, m.nx, m.ny, (double)z);
  else if (R.kind == 0) VH_CHECK(!miss && std::fabs(z - R.z) <= T, k, "(%.12g,%.12g) of %zux%zu surface [%g %g %g %g] gave %.15g, expected %.15g", x, y, m.nx, m.ny, m.x0, m.y0, m.lx, m.ly, (double)z, R.z);
  else VH_CHECK(miss || (z >= R.lo - T && z <= R.hi + T), k + "-bounds", "(%.12g,%.12g) gave %.15g outside [%.15g,%.15g]", x, y, (double)z, R.lo, R.hi);
  if (R.kind == 0) VH_CHECK(z >= R.lo - T && z <= R.hi + T, k + "-bounds", "(%.12g,%.12g) gave %.15g outside [%.15g,%.15g]", x, y, (double)z, R.lo, R.hi);
  vh::stat(R.kind == 0 ? "interpolated" : R.kind == 1 ? "on_grid_lines" : "missing_results");
}

template <class A> static void query(vh::Rng& r, const M<A>& m, const RegularSurface<A>& s, const RegularSurfaceRotated<A>* rot) {
  double c = std::cos(m.ang), sn = std::sin(m.ang);
  std::string pre = rot ? "rotated-" : "";
  for (int q = 0; q < 25; q++) {
    // local cell coordinates
    double t, u; int node = 0;
    switch (r.i(0, 5)) {
      case 0: t = r.i(0, (long)m.nx - 1); u = r.i(0, (long)m.ny - 1); node = 1; break;
      case 1: t = r.u(-1.5, m.nx + .5); u = r.u(-1.5, m.ny + .5); break;
      case 2: t = r.i(0, (long)m.nx - 1); u = r.u(0, m.ny - 1); break;
      case 3: t = r.b(.5) ? r.n() * 1e4 : r.n() * 1e13; u = r.u(0, m.ny - 1); if (r.b()) std::swap(t, u); break;
      default: t = r.u(0, std::max<double>(m.nx - 1, 0)); u = r.u(0, std::max<double>(m.ny - 1, 0));
    }
    double lx_ = t * m.dx(), ly_ = u * m.dy();
    double x = m.x0 + lx_, y = m.y0 + ly_;
    if (rot) { x = m.x0 + (c * lx_ - sn * ly_); y = m.y0 + (sn * lx_ + c * ly_); }
    // what the point is after rounding
    ld px = (ld)x - m.x0, py = (ld)y - m.y0; ld qx = rot ? cosl(m.ang) * px + sinl(m.ang) * py : px, qy = rot ? -sinl(m.ang) * px + cosl(m.ang) * py : py;
    ld T = qx / m.dx(), U = qy / m.dy();
    ld amb = 1e-9L + 1e-14L * (std::fabs(m.x0) + std::fabs(m.y0) + fabsl(px) + fabsl(py)) / std::min(m.dx(), m.dy());
    A z = rot ? rot->GetZ(x, y) : s.GetZ(x, y), zi = rot ? rot->GetZInside(x, y) : s.GetZInside(x, y);
    judge(m, ref(m, T, U, false, amb), z, s.IsMissing(z), pre + "getz", x, y);
    judge(m, ref(m, T, U, true, amb), zi, s.IsMissing(zi), pre + "getz-inside", x, y);
    vh::sig(vh::mix(vh::hd(x), vh::hd(y)));
    if (node && !rot) {
      size_t i = (size_t)t, j = (size_t)u; double X, Y, X2, Y2, Z; s.GetXY(i, j, X, Y); s.GetXY(i + j * m.nx, X2, Y2);
      VH_CHECK(X == s.GetX(i) && Y == s.GetY(j) && X == X2 && Y == Y2 && std::fabs(X - x) < 1e-9 * (1 + std::fabs(x)) && std::fabs(Y - y) < 1e-9 * (1 + std::fabs(y)), "node-coordinates", "node %zu,%zu at %.12g,%.12g expected %.12g,%.12g", i, j, X, Y, x, y);
      s.GetNode(i, j, X2, Y2, Z); VH_CHECK(X2 == X && Y2 == Y && Z == (double)s(i, j), "get-node", "node %zu,%zu", i, j);
      s.GetNode(i + j * m.nx, X2, Y2, Z); VH_CHECK(X2 == X && Y2 == Y && Z == (double)s(i, j), "get-node", "index of node %zu,%zu", i, j);
      bool full = true; for (long a = -1; a <= 1; a++) for (long b = -1; b <= 1; b++) { long I = (long)i + a, J = (long)j + b; if (I >= 0 && J >= 0 && I < (long)m.nx && J < (long)m.ny && !m.has(I, J)) full = false; }
      if (full) { A v = s.GetZ(X, Y); VH_CHECK(!s.IsMissing(v) && std::fabs(v - m.at(i, j)) <= tol(m), "node-value", "node %zu,%zu at %.12g,%.12g gave %.15g expected %.15g", i, j, X, Y, (double)v, (double)m.at(i, j)); }
      size_t a, b; s.FindNearestNodeIndex(X, Y, a, b); VH_CHECK(a == i && b == j, "nearest-node", "nearest of node %zu,%zu is %zu,%zu", i, j, a, b);
    }
    if (node && rot) { size_t i = (size_t)t, j = (size_t)u; double X, Y, X2, Y2; rot->GetXY(i, j, X, Y); rot->GetXY(i + j * m.nx, X2, Y2); double e = 1e-9 * (1 + std::fabs(x) + std::fabs(y)); VH_CHECK(std::fabs(X - x) < e && std::fabs(Y - y) < e && std::fabs(X2 - X) < e && std::fabs(Y2 - Y) < e, "rotated-node-coordinates", "node %zu,%zu at %.12g,%.12g expected %.12g,%.12g", i, j, X, Y, x, y); }
    if (!rot) {
      bool in = x >= s.GetXMin() && x <= s.GetXMax() && y >= s.GetYMin() && y <= s.GetYMax();
      VH_CHECK(s.IsInsideSurface(x, y) == in, "inside", "(%.17g,%.17g)", x, y);
      if (fabsl(T - roundl(T)) > amb && fabsl(U - roundl(U)) > amb) {
        if (fabsl(T) < 1e9L && fabsl(U) < 1e9L) { int gi, gj; s.FindGeneralIndex(x, y, gi, gj); VH_CHECK(gi == (int)floorl(T) && gj == (int)floorl(U), "general-index", "(%.12g,%.12g): %d,%d expected %d,%d", x, y, gi, gj, (int)floorl(T), (int)floorl(U)); }
        if (in) { size_t a, b; s.FindIndex(x, y, a, b); double ci, cj; s.FindContIndex(x, y, ci, cj); VH_CHECK((ld)a == floorl(T) && (ld)b == floorl(U) && s.FindI(x) == a && s.FindJ(y) == b && std::fabs(ci - (double)T) < 1e-6 && std::fabs(cj - (double)U) < 1e-6, "index", "(%.12g,%.12g): %zu,%zu", x, y, a, b); }
        A cr[4]; s.GetCorners(x, y, cr); for (int k = 0; k < 4; k++) { if (fabsl(T) > 1e9L || fabsl(U) > 1e9L) continue; long a = (long)floorl(T) + (k & 1), b = (long)floorl(U) + (k >> 1); VH_CHECK(m.has(a, b) ? cr[k] == m.at(a, b) : cr[k] == m.miss, "corners", "(%.12g,%.12g) corner %d is %g", x, y, k, (double)cr[k]); }
      }
      if (fabsl(T - floorl(T) - .5L) > amb && fabsl(U - floorl(U) - .5L) > amb) { size_t a, b; s.FindNearestNodeIndex(x, y, a, b); ld ei = std::min<ld>(std::max<ld>(floorl(T + .5L), 0), m.nx - 1), ej = std::min<ld>(std::max<ld>(floorl(U + .5L), 0), m.ny - 1); VH_CHECK((ld)a == ei && (ld)b == ej, "nearest-node", "(%.12g,%.12g): %zu,%zu expected %.0Lf,%.0Lf", x, y, a, b, ei, ej); }
    } else { ld e = amb * 10; bool in = T >= 0 && T <= (m.nx > 1 ? m.nx - 1.0L : m.lx / m.dx()) && U >= 0 && U <= (m.ny > 1 ? m.ny - 1.0L : m.ly / m.dy()); ld hx = m.lx / m.dx(), hy = m.ly / m.dy(); if (fabsl(T) > e && fabsl(U) > e && fabsl(T - hx) > e && fabsl(U - hy) > e) VH_CHECK(rot->IsInsideSurface(x, y) == in, "rotated-inside", "(%.12g,%.12g)", x, y); }
  }
}

template <class A> static void stats(const M<A>& m, const RegularSurface<A>& s) {
  int n = 0; ld sum = 0; A mn = m.miss, mx = m.miss; for (A a : m.v) if (a != m.miss) { if (!n || a < mn) mn = a; if (!n || a > mx) mx = a; n++; sum += a; }
  VH_CHECK(s.Min() == mn && s.Max() == mx, "min-max", "%g %g expected %g %g", (double)s.Min(), (double)s.Max(), (double)mn, (double)mx);
  int k = -1; A av = s.Avg(k); VH_CHECK(k == n && s.Avg() == av, "avg-count", "%d nodes, expected %d", k, n);
  if (n) VH_CHECK(std::fabs(av - (double)(sum / n)) <= tol(m) * (sizeof(A) == 4 ? 10 : 1), "avg", "%.15g expected %.15Lg", (double)av, sum / n); else VH_CHECK(av == m.miss, "avg", "average of nothing is %g", (double)av);
  size_t i, j; A a = s.MinNode(i, j); VH_CHECK(a == mn && s(i, j) == mn, "min-node", "node %zu,%zu", i, j);
  a = s.MaxNode(i, j); VH_CHECK(a == mx && s(i, j) == mx, "max-node", "node %zu,%zu", i, j);
}

template <class A> static void ops(vh::Rng& r, M<A>& m, RegularSurface<A>& s) {
  for (int q = 0, n = (int)r.i(1, 6); q < n; q++) {
    A c = (A)(r.b(.2) ? 0 : r.n() * 3);
    auto app = [&](std::function<A(A)> f) { bool ok = true; for (A a : m.v) if (a != m.miss && f(a) == m.miss) ok = false; if (ok) for (A& a : m.v) if (a != m.miss) a = f(a); return ok; };
    int op = (int)r.i(0, 9); std::string nm;
    switch (op) {
      case 0: nm = "add"; if (app([&](A a) { return a + c; })) s.Add(c); break;
      case 1: nm = "subtract"; if (app([&](A a) { return a - c; })) s.Subtract(c); break;
      case 2: nm = "multiply"; if (app([&](A a) { return a * c; })) s.Multiply(c); break;
      case 3: { nm = "clone"; std::unique_ptr<Surface<A>> p(s.Clone()); same(m, *dynamic_cast<RegularSurface<A>*>(p.get()), "clone"); s.Add(1); same(m, *dynamic_cast<RegularSurface<A>*>(p.get()), "clone-independent"); s = *dynamic_cast<RegularSurface<A>*>(p.get()); break; }
      case 4: { nm = "swap"; RegularSurface<A> o(1, 2, 3, 4, 2, 2, 5); o.SetName("other"); s.SetName("mine"); s.Swap(o); same(m, o, "swap"); VH_CHECK(o.GetName() == "mine" && s.GetName() == "other" && s.GetNI() == 2 && s.GetXMin() == 1 && s.GetDY() == 4 && s(1, 1) == 5, "swap-other", "swap"); s.Swap(o); break; }
      case 5: { nm = "neighbour"; long i = r.i(0, (long)m.nx - 1), j = r.i(0, (long)m.ny - 1); ld sum = 0; int k = 0; for (long a = -1; a <= 1; a++) for (long b = -1; b <= 1; b++) if ((a || b) && m.has(i + a, j + b)) { sum += m.at(i + a, j + b); k++; }
        bool ok = s.CreateNeighbourAvg(i, j); VH_CHECK(ok == (k > 0), "neighbour-return", "%d with %d neighbours", (int)ok, k); if (k) { VH_CHECK(std::fabs(s(i, j) - (double)(sum / k)) <= tol(m), "neighbour", "node %ld,%ld is %.12g expected %.12Lg", i, j, (double)s(i, j), sum / k); m.v[i + j * m.nx] = s(i, j); } else m.v[i + j * m.nx] = m.miss; break; }
      case 6: nm = "setdimensions"; m.x0 = r.n() * 10; m.y0 = r.n() * 10; m.lx = r.u(1, 50); m.ly = r.u(1, 50); s.SetDimensions(m.x0, m.y0, m.lx, m.ly); break;
      case 7: { nm = "assign"; if (r.b(.8)) break; A a = c == m.miss ? c + 1 : c; s.Assign(a); for (A& x : m.v) x = a; break; }
      default: {  // with another surface
        nm = "nonconform"; M<A> o = model<A>(r, false); double w = std::max(m.lx, m.ly); o.x0 = m.x0 + r.u(-.3, .3) * w; o.y0 = m.y0 + r.u(-.3, .3) * w; o.lx = m.lx * r.u(.5, 1.5); o.ly = m.ly * r.u(.5, 1.5); if (r.b(.3)) { o.x0 = m.x0; o.y0 = m.y0; o.lx = m.lx; o.ly = m.ly; }
        if (o.dx() <= 0 || o.dy() <= 0) break;
        RegularSurface<A> t = build(r, o); std::unique_ptr<Surface<A>> other; double ang = r.b(.5) ? 0 : r.u(-3, 3); bool cst = r.b(.15); A cv = (A)(r.n() + 5); if (cst) other.reset(new ConstantSurface<A>(cv)); else if (ang != 0) other.reset(new RegularSurfaceRotated<A>(t, ang)); else other.reset(new RegularSurface<A>(t));
        int k = (int)r.i(0, 3); bool amb = false; std::vector<A> nv = m.v;
        for (size_t j = 0; j < m.ny && !amb; j++) for (size_t i = 0; i < m.nx && !amb; i++) if (m.has(i, j)) {
          double x, y; s.GetXY(i, j, x, y); A z = other->GetZ(x, y); bool mi = other->IsMissing(z); A a = m.at(i, j);
          nv[i + j * m.nx] = mi ? m.miss : (A)(k == 0 ? a + (double)z : k == 1 ? a - (double)z : k == 2 ? a * (double)z : a / (double)z);
          if (!mi && (nv[i + j * m.nx] == m.miss || !std::isfinite((double)nv[i + j * m.nx]))) amb = true; }
        if (amb) break;
        bool ok = k == 0 ? s.AddNonConform(other.get()) : k == 1 ? s.SubtractNonConform(other.get()) : k == 2 ? s.MultiplyNonConform(other.get()) : s.DivideNonConform(other.get());
        VH_CHECK(ok, "nonconform-return", "false"); m.v = nv; nm += "0"; nm.back() += k;
        same(m, s, nm, 0); break; }
    }
    vh::stat("operations"); same(m, s, "after-" + nm, 1e-12 * m.big()); if (sizeof(A) == 4) m.v.assign(s.begin(), s.end());
  }
}

template <class A> static void surf(vh::Rng& r) {
  M<A> m = model<A>(r, false); RegularSurface<A> s = build(r, m);
  same(m, s, "built"); query<A>(r, m, s, 0); stats(m, s); ops(r, m, s); query<A>(r, m, s, 0); stats(m, s);
  double a = s.GetXMin(), b = s.GetXMax(), c = s.GetYMin(), d = s.GetYMax();
  VH_CHECK(s.EnclosesRectangle(a, b, c, d), "encloses", "own rectangle");
  VH_CHECK(s.IsInsideSurface(a, c) && s.IsInsideSurface(b, d) && s.IsInsideSurface(a, d) && s.IsInsideSurface(b, c), "inside-corners", "a corner of the surface is not inside it"); double e = 1e-6 * (1 + std::fabs(a) + std::fabs(b) + std::fabs(c) + std::fabs(d));
  VH_CHECK(!s.EnclosesRectangle(a - e, b, c, d) && !s.EnclosesRectangle(a, b + e, c, d) && !s.EnclosesRectangle(a, b, c - e, d) && !s.EnclosesRectangle(a, b, c, d + e), "encloses", "larger rectangle");
  vh::sample(vh::fmt("%s surface %zux%zu origin %g %g", tn<A>(), m.nx, m.ny, m.x0, m.y0));
}
template <class A> static RegularSurfaceRotated<A> buildrot(vh::Rng& r, const M<A>& m) {
  RegularSurface<A> s = build(r, m); RegularSurfaceRotated<A> q;
  switch (r.i(0, 3)) {
    case 0: q = RegularSurfaceRotated<A>(s, m.ang); break;
    case 1: q = RegularSurfaceRotated<A>(m.x0, m.y0, m.lx, m.ly, m.nx, m.ny, m.ang); q.SetMissingValue(m.miss); for (size_t i = 0; i < m.v.size(); i++) q(i) = m.v[i]; break;
    case 2: q = RegularSurfaceRotated<A>(m.x0, m.y0, m.lx, m.ly, s, m.ang); q.SetMissingValue(m.miss); break;
    default: q = RegularSurfaceRotated<A>(s, .3); q.SetAngle(m.ang);
  }
  return q;
}
template <class A> static void extent(const M<A>& m, const RegularSurfaceRotated<A>& q) {
  ld mx = -1e300L, nx = 1e300L, my = -1e300L, ny = 1e300L; for (int k = 0; k < 4; k++) { ld a = (k & 1) * (ld)m.lx, b = (k >> 1) * (ld)m.ly, x = m.x0 + cosl(m.ang) * a - sinl(m.ang) * b, y = m.y0 + sinl(m.ang) * a + cosl(m.ang) * b; mx = std::max(mx, x); nx = std::min(nx, x); my = std::max(my, y); ny = std::min(ny, y); }
  double e = 1e-9 * (1 + std::fabs(m.x0) + std::fabs(m.y0) + m.lx + m.ly);
  VH_CHECK(fabsl(q.GetXMin() - nx) < e && fabsl(q.GetXMax() - mx) < e && fabsl(q.GetYMin() - ny) < e && fabsl(q.GetYMax() - my) < e, "rotated-extent", "x %.9g..%.9g y %.9g..%.9g expected x %.9Lg..%.9Lg y %.9Lg..%.9Lg (angle %g)", q.GetXMin(), q.GetXMax(), q.GetYMin(), q.GetYMax(), nx, mx, ny, my, m.ang);
  VH_CHECK(q.GetXRef() == m.x0 && q.GetYRef() == m.y0 && q.GetAngle() == m.ang, "rotated-reference", "%g %g %g", q.GetXRef(), q.GetYRef(), q.GetAngle());
}
// the operations of a rotated surface: they change the values in place and keep the geometry
template <class A> static void rotsame(const M<A>& m, const RegularSurfaceRotated<A>& q, const std::string& k, double tv) {
  VH_CHECK(q.GetNI() == m.nx && q.GetNJ() == m.ny && q.GetN() == m.v.size(), k + "-size", "%zu x %zu", q.GetNI(), q.GetNJ()); if (q.GetN() != m.v.size()) return;
  VH_CHECK(q.GetMissingValue() == m.miss && (size_t)(q.end() - q.begin()) == m.v.size(), k + "-whole", "missing value %g", (double)q.GetMissingValue());
  for (size_t i = 0; i < m.v.size(); i++) VH_CHECK(q.IsMissing(q(i)) == (m.v[i] == m.miss) && (m.v[i] == m.miss || std::fabs((double)q(i) - (double)m.v[i]) <= tv), k, "index %zu is %.12g, expected %.12g", i, (double)q(i), (double)m.v[i]);
  extent(m, q);
}
template <class A> static void rotops(vh::Rng& r, M<A>& m, RegularSurfaceRotated<A>& q) {
  for (int n = (int)r.i(1, 5); n > 0; n--) {
    A c = (A)(r.b(.2) ? 0 : r.n() * 3); std::string nm;
    auto app = [&](std::function<A(A)> f) { for (A a : m.v) if (a != m.miss && f(a) == m.miss) return false; for (A& a : m.v) if (a != m.miss) a = f(a); return true; };
    switch (r.i(0, 8)) {
      case 0: nm = "add"; if (app([&](A a) { return a + c; })) q.Add(c); break;
      case 1: nm = "subtract"; if (app([&](A a) { return a - c; })) q.Subtract(c); break;
      case 2: nm = "multiply"; if (app([&](A a) { return a * c; })) q.Multiply(c); break;
      case 3: { nm = "clone"; std::unique_ptr<Surface<A>> p(q.Clone()); RegularSurfaceRotated<A>* o = dynamic_cast<RegularSurfaceRotated<A>*>(p.get()); q.Assign(77); rotsame(m, *o, "rotated-clone", 0); q = *o; break; }
      case 4: { nm = "assign"; if (r.b(.7)) break; A a = c == m.miss ? c + 1 : c; q.Assign(a); for (A& x : m.v) x = a; break; }
      case 5: { nm = "resize"; if (r.b(.7)) break; size_t a = r.i(1, 7), b = r.i(1, 7); A f = c == m.miss ? c + 1 : c; q.Resize(a, b, f); m.nx = a; m.ny = b; m.v.assign(a * b, f); break; }
      case 6: { nm = "setmissing"; size_t i = r.i(0, (long)m.nx - 1), j = r.i(0, (long)m.ny - 1); q.SetMissing(i, j); m.v[i + j * m.nx] = m.miss; break; }
      default: {
        nm = "nonconform"; M<A> o = model<A>(r, false); double w = std::max(m.lx, m.ly); o.x0 = m.x0 + r.u(-.6, .3) * w; o.y0 = m.y0 + r.u(-.6, .3) * w; o.lx = w * r.u(.5, 2); o.ly = w * r.u(.5, 2); o.ang = 0;
        RegularSurface<A> t = build(r, o); std::unique_ptr<Surface<A>> other; double ang = r.b(.4) ? 0 : r.u(-3, 3); A cv = (A)(r.n() + 5); if (r.b(.15)) other.reset(new ConstantSurface<A>(cv)); else if (ang != 0) other.reset(new RegularSurfaceRotated<A>(t, ang)); else other.reset(new RegularSurface<A>(t));
        int k = (int)r.i(0, 3); bool amb = false; std::vector<A> nv = m.v;
        for (size_t j = 0; j < m.ny && !amb; j++) for (size_t i = 0; i < m.nx && !amb; i++) if (m.has(i, j)) {
          double x, y; q.GetXY(i, j, x, y); A z = other->GetZ(x, y); bool mi = other->IsMissing(z); A a = m.at(i, j); A& e = nv[i + j * m.nx];
          e = mi ? m.miss : (A)(k == 0 ? a + (double)z : k == 1 ? a - (double)z : k == 2 ? a * (double)z : a / (double)z); if (!mi && (e == m.miss || !std::isfinite((double)e))) amb = true; }
        if (amb) break;
        bool ok = k == 0 ? q.AddNonConform(other.get()) : k == 1 ? q.SubtractNonConform(other.get()) : k == 2 ? q.MultiplyNonConform(other.get()) : q.DivideNonConform(other.get());
        VH_CHECK(ok, "rotated-nonconform-return", "false"); m.v = nv; nm += "0"; nm.back() += k; vh::stat("rotated_nonconform"); }
    }
    rotsame(m, q, "rotated-after-" + nm, 1e-9 * m.big()); vh::stat("rotated_operations"); m.v.assign(q.begin(), q.end());
  }
  double a = q.GetXMin(), b = q.GetXMax(), y = q.GetYMin(), d = q.GetYMax(), e = 1e-6 * (1 + std::fabs(a) + std::fabs(b) + std::fabs(y) + std::fabs(d));
  VH_CHECK(q.EnclosesRectangle(a, b, y, d) && !q.EnclosesRectangle(a - e, b, y, d) && !q.EnclosesRectangle(a, b + e, y, d) && !q.EnclosesRectangle(a, b, y - e, d) && !q.EnclosesRectangle(a, b, y, d + e), "rotated-encloses", "own rectangle");
}
template <class A> static void rotated(vh::Rng& r) {
  M<A> m = model<A>(r, false); m.ang = r.b(.1) ? 0 : r.b(.2) ? r.i(-3, 3) * 1.5707963267948966 : r.u(-3.2, 3.2);
  RegularSurfaceRotated<A> q = buildrot(r, m); RegularSurface<A> s = build(r, m);
  VH_CHECK(q.GetNI() == m.nx && q.GetNJ() == m.ny && q.GetN() == m.v.size() && vh::close(q.GetDX(), m.dx(), 1e-12, 0) && vh::close(q.GetDY(), m.dy(), 1e-12, 0), "rotated-size", "%zu x %zu", q.GetNI(), q.GetNJ());
  for (size_t j = 0; j < m.ny; j++) for (size_t i = 0; i < m.nx; i++) VH_CHECK(q(i, j) == m.at(i, j) && q(i + j * m.nx) == m.at(i, j) && q.IsMissingAt(i, j) == !m.has(i, j), "rotated-values", "node %zu,%zu", i, j);
  extent(m, q);
  query<A>(r, m, s, &q);
  int n; A mn = s.Min(), mx = s.Max(), av = s.Avg(n); int n2; VH_CHECK(q.Min() == mn && q.Max() == mx && q.Avg(n2) == av && n2 == n, "rotated-statistics", "%g %g", (double)q.Min(), (double)q.Max());
  // resampling takes the values of this surface at the nodes of the new one
  if (m.nx > 1 && m.ny > 1 && r.b(.5)) {
    RegularSurface<A> t = q.ResampleSurface();
    for (size_t j = 0; j < t.GetNJ(); j++) for (size_t i = 0; i < t.GetNI(); i++) {
      double x, y; t.GetXY(i, j, x, y); ld px = (ld)x - m.x0, py = (ld)y - m.y0; ld T = (cosl(m.ang) * px + sinl(m.ang) * py) / m.dx(), U = (-sinl(m.ang) * px + cosl(m.ang) * py) / m.dy();
      ld amb = 1e-9L + 1e-14L * (std::fabs(m.x0) + std::fabs(m.y0) + fabsl(px) + fabsl(py)) / std::min(m.dx(), m.dy());
      judge(m, ref(m, T, U, false, amb), t(i, j), t.IsMissing(t(i, j)), "resample", x, y);
    }
    double e = 1e-9 * (1 + std::fabs(m.x0) + std::fabs(m.y0) + m.lx + m.ly); VH_CHECK(std::fabs(t.GetXMin() - q.GetXMin()) < e && std::fabs(t.GetYMin() - q.GetYMin()) < e, "resample-extent", "origin");
    vh::stat("resampled");
  }
  if (r.b()) { M<A> o = m; o.x0 = r.n() * 10; o.y0 = r.n() * 5; o.lx = r.u(1, 30); o.ly = r.u(1, 30); q.SetDimensions(o.x0, o.y0, o.lx, o.ly); s.SetDimensions(o.x0, o.y0, o.lx, o.ly); extent(o, q); query<A>(r, o, s, &q); m = o; }
  rotops(r, m, q);
}

template <class A> static void files(vh::Rng& r) {
  M<A> m = model<A>(r, true); bool irap = r.b(); if (r.b(.4)) m.ang = r.u(-1.5, 1.5); bool rot = m.ang != 0 || r.b(.2);
  if (irap) { double dx = std::max(1e-6, std::round(m.dx() * 1e6) / 1e6), dy = std::max(1e-6, std::round(m.dy() * 1e6) / 1e6); m.lx = dx * (m.nx > 1 ? m.nx - 1 : 1); m.ly = dy * (m.ny > 1 ? m.ny - 1 : 1); }
  std::string stem = "surf_" + std::to_string(r.i(0, 999)), f = vh::path(stem + (r.b() ? ".irap" : ".storm")); SurfaceFileFormat F = irap ? SURF_IRAP_CLASSIC_ASCII : SURF_STORM_BINARY, G = r.b() ? F : SURF_UNKNOWN;
  double tv = irap ? 5.1e-7 + (sizeof(A) == 4 ? 1e-7 * m.big() : 1e-15 * m.big()) : 0; M<A> e = m; e.miss = (A)(irap ? IRAP_MISSING : STORM_MISSING); for (A& a : e.v) if (a == m.miss) a = e.miss;
  std::string k = irap ? "irap" : "storm";
  if (!rot) {
    RegularSurface<A> s = build(r, m); s.SetName("x"); if (F == SURF_STORM_BINARY && r.b()) s.WriteToFile(f); else s.WriteToFile(f, F); same(m, s, k + "-unchanged");
    VH_CHECK(FindSurfaceFileType(f) == F, k + "-detected", "type of %s", f.c_str());
    RegularSurface<A> t; if (r.b()) t = RegularSurface<A>(f, G); else { t = RegularSurface<A>(1, 2, 3, 4, 5, 6, 7); t.SetMissingValue(3); t.ReadFromFile(f, G); }
    same(e, t, k, tv, irap ? 1e-6 : 1e-10 * (std::fabs(m.x0) + m.lx + std::fabs(m.y0) + m.ly)); VH_CHECK(t.GetName() == stem, k + "-name", "name %s of %s", t.GetName().c_str(), f.c_str());
    // cut anywhere: an error (Irap: unless only white space is lost), never a surface
    std::ifstream in(f.c_str(), std::ios::binary); std::stringstream ss; ss << in.rdbuf(); std::string all = ss.str();
    for (int q = 0; q < 4; q++) { size_t cut = (size_t)r.i(0, (long)all.size() - 1); std::string rest = all.substr(cut); bool ws = rest.find_first_not_of(" \n\r\t") == std::string::npos; if (irap) { size_t e1 = all.find_last_not_of(" \n"); if (cut > all.find_last_of(" \n", e1)) continue; }
      std::string cf = vh::path("cut"); { std::ofstream o(cf.c_str(), std::ios::binary); o << all.substr(0, cut); } bool thrown = false; try { RegularSurface<A> c(cf, F); } catch (NRLib::Exception&) { thrown = true; } VH_CHECK(thrown || ws, k + "-truncated", "the first %zu of %zu bytes were read as a surface", cut, all.size()); vh::stat("truncations"); }
    { std::string cf = vh::path("long"); { std::ofstream o(cf.c_str(), std::ios::binary); o << all << (irap ? " 12.5 " : "abcdefgh"); } bool thrown = false; try { RegularSurface<A> c(cf, F); } catch (NRLib::Exception&) { thrown = true; } VH_CHECK(thrown, k + "-too-long", "a file with a value too much was accepted"); remove(cf.c_str()); }
  } else {
    RegularSurfaceRotated<A> s = buildrot(r, m); s.WriteToFile(f, F);
    if (irap) {
      RegularSurfaceRotated<A> t(f, G); VH_CHECK(std::fabs(t.GetAngle() - m.ang) < 1e-7, "irap-angle", "angle %.9g expected %.9g", t.GetAngle(), m.ang);
      VH_CHECK(t.GetNI() == m.nx && t.GetNJ() == m.ny, "irap-rotated-size", "size"); VH_CHECK(std::fabs(t.GetXRef() - m.x0) < 1e-6 && std::fabs(t.GetYRef() - m.y0) < 1e-6 && (m.nx < 2 || std::fabs(t.GetDX() - m.dx()) < 1e-6) && (m.ny < 2 || std::fabs(t.GetDY() - m.dy()) < 1e-6), "irap-rotated-geometry", "origin %g %g dx %g", t.GetXRef(), t.GetYRef(), t.GetDX());
      if (t.GetN() == e.v.size()) for (size_t i = 0; i < e.v.size(); i++) VH_CHECK(e.v[i] == e.miss ? t.IsMissing(t(i)) : std::fabs(t(i) - e.v[i]) <= tv, "irap-rotated-value", "index %zu: %g expected %g", i, (double)t(i), (double)e.v[i]);
      if (std::fabs(m.ang) > 1e-3) { bool thrown = false; try { RegularSurface<A> c(f, F); } catch (NRLib::Exception&) { thrown = true; } VH_CHECK(thrown, "irap-rotated-as-plain", "a rotated file was read as a non-rotated surface"); }
    } else if (m.ang == 0) { RegularSurfaceRotated<A> t(f, G); VH_CHECK(t.GetAngle() == 0 && t.GetN() == e.v.size() && t.GetNI() == m.nx, "storm-rotated", "size"); if (t.GetN() == e.v.size()) for (size_t i = 0; i < e.v.size(); i++) VH_CHECK(t(i) == e.v[i], "storm-rotated-value", "index %zu", i); }
    else { RegularSurface<A> a = s.ResampleSurface(), t(f, G); VH_CHECK(t.GetNI() == a.GetNI() && t.GetNJ() == a.GetNJ(), "storm-resampled", "size"); if (t.GetN() == a.GetN()) for (size_t i = 0; i < a.GetN(); i++) VH_CHECK(a.IsMissing(a(i)) ? t.IsMissing(t(i)) : t(i) == a(i), "storm-resampled-value", "index %zu", i); }
  }
  remove(f.c_str()); vh::stat("files_" + k); vh::sig(vh::mix(vh::hs(k), vh::mix(m.nx * 100 + m.ny, vh::hd(m.lx))));
}

int main(int c, char** v) {
  return vh::run(c, v, [](vh::Rng& r, long, const std::string& m) {
    bool d = r.b(.7);
    if (m == "surf") d ? surf<double>(r) : surf<float>(r);
    else if (m == "rot") d ? rotated<double>(r) : rotated<float>(r);
    else d ? files<double>(r) : files<float>(r);
  });
}

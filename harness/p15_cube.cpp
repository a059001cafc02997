// P15: grid cubes: coordinates, cells, values and files.
#include "vh.hpp"
#include <fstream>
#include <nrlib/exception/exception.hpp>
#include <nrlib/grid/grid.hpp>
#include <nrlib/grid/grid2d.hpp>
#include <nrlib/grid/grid2dgeneral.hpp>
#include <nrlib/grid/grid4d.hpp>
#include <nrlib/grid/grid5d.hpp>
#include <nrlib/stormgrid/stormcontgrid.hpp>
#include <nrlib/stormgrid/stormfaciesgrid.hpp>
#include <nrlib/surface/regularsurface.hpp>
#include <nrlib/surface/regularsurfacerotated.hpp>
#include <nrlib/volume/volume.hpp>
using namespace NRLib;
typedef long double LD;

template <class B> struct Open : B {
  using B::B;
  Open(const B& b) : B(b) {}
  void g2l(double x, double y, double& a, double& b) const { this->GlobalToLocalCoord(x, y, a, b); }
  void l2g(double x, double y, double& a, double& b) const { this->LocalToGlobalCoord(x, y, a, b); }
};
typedef Open<StormContGrid> Cont;
typedef Open<StormFaciesGrid> Fac;

// a surface the harness knows in closed form: constant, or a plane sampled at nodes
// (bilinear interpolation of a plane is the plane)
struct Srf {
  int kind = 0;  // 0 constant, 1 regular plane, 2 rotated plane, 3 regular rough
  double c = 0, a = 0, b = 0, x0 = 0, y0 = 0;
  Surface<double>* s = 0;
  ~Srf() { delete s; }
  double z(double x, double y) const { return kind == 3 ? s->GetZ(x, y) : (double)((LD)c + (LD)a * (x - x0) + (LD)b * (y - y0)); }
};

struct Box { double x0, y0, lx, ly, ang; };

static void bounds(const Box& b, double& xa, double& xb, double& ya, double& yb) {
  double c = cos(b.ang), s = sin(b.ang);
  double X[4] = {0, c * b.lx, -s * b.ly, c * b.lx - s * b.ly}, Y[4] = {0, s * b.lx, c * b.ly, s * b.lx + c * b.ly};
  xa = xb = X[0]; ya = yb = Y[0];
  for (int i = 1; i < 4; ++i) { xa = std::min(xa, X[i]); xb = std::max(xb, X[i]); ya = std::min(ya, Y[i]); yb = std::max(yb, Y[i]); }
  xa += b.x0; xb += b.x0; ya += b.y0; yb += b.y0;
}

static double nice(vh::Rng& r, double a, double b) {  // values of the kind found in projects
  double v = r.u(a, b);
  switch (r.i(0, 2)) { case 0: return std::floor(v); case 1: return std::floor(v * 8) / 8; default: return v; }
}

static Box box(vh::Rng& r) {
  Box b;
  bool utm = r.b(0.4);
  b.x0 = utm ? nice(r, 4e5, 6e5) : nice(r, -500, 500);
  b.y0 = utm ? nice(r, 6e6, 7e6) : nice(r, -500, 500);
  b.lx = r.b(0.2) ? r.logu(0.5, 20) : 1 + nice(r, 10, 4000);
  b.ly = r.b(0.2) ? r.logu(0.5, 20) : 1 + nice(r, 10, 4000);
  b.ang = r.b(0.25) ? 0 : r.u(-3.1, 3.1);
  return b;
}

// top at level c (plus slope), covering the box with a margin
static void make(vh::Rng& r, const Box& b, double c, double slope, int kind, Srf& f) {
  f.kind = kind; f.c = c; f.x0 = b.x0; f.y0 = b.y0;
  double L = b.lx + b.ly;
  if (kind == 0) { f.s = new ConstantSurface<double>(c); return; }
  f.a = slope * r.u(-1, 1) / L; f.b = slope * r.u(-1, 1) / L;
  double xa, xb, ya, yb; bounds(b, xa, xb, ya, yb);
  double m = 0.02 * L + 1; xa -= m; xb += m; ya -= m; yb += m;
  size_t nx = r.i(2, 12), ny = r.i(2, 12);
  if (kind == 1 || kind == 3) {
    RegularSurface<double>* s = new RegularSurface<double>(xa, ya, xb - xa, yb - ya, nx, ny, 0.0);
    for (size_t j = 0; j < ny; ++j) for (size_t i = 0; i < nx; ++i) {
      double x, y; s->GetXY(i, j, x, y);
      (*s)(i, j) = kind == 1 ? f.z(x, y) : c + 0.3 * slope * r.u(-1, 1);
    }
    f.s = s;
  } else {
    double ang = r.u(-0.6, 0.6), lx = 3 * (xb - xa) + 3 * (yb - ya), xc = 0.5 * (xa + xb), yc = 0.5 * (ya + yb);
    double xo = xc - 0.5 * lx * (cos(ang) - sin(ang)), yo = yc - 0.5 * lx * (sin(ang) + cos(ang));
    RegularSurfaceRotated<double>* s = new RegularSurfaceRotated<double>(xo, yo, lx, lx, nx, ny, ang, 0.0);
    for (size_t j = 0; j < ny; ++j) for (size_t i = 0; i < nx; ++i) { double x, y; s->GetXY(i, j, x, y); (*s)(i, j) = f.z(x, y); }
    f.s = s;
  }
}

struct Cube {
  Box b; Srf top, bot; size_t nx, ny, nz; Volume* v = 0;
  ~Cube() { delete v; }
};

static void cube(vh::Rng& r, Cube& q, bool files) {
  q.b = box(r);
  q.nx = r.b(0.1) ? 1 : r.i(1, 14); q.ny = r.b(0.1) ? 1 : r.i(1, 14); q.nz = r.b(0.1) ? 1 : r.i(1, 14);
  double z0 = nice(r, -200, 4000), th = r.logu(0.5, 500);
  double slope = r.b(0.4) ? 0 : 0.15 * th;
  int kt = r.i(0, files ? 3 : 3), kb = r.i(0, 3);
  if (files && kt == 2) kt = 1;
  if (files && kb == 2) kb = 1;
  make(r, q.b, z0, slope, kt, q.top);
  make(r, q.b, z0 + th, slope, kb, q.bot);
  if (q.top.kind == 0 && q.bot.kind == 0 && r.b()) q.v = new Volume(q.b.x0, q.b.y0, q.top.c, q.b.lx, q.b.ly, q.bot.c - q.top.c, q.b.ang);
  else if (r.b()) q.v = new Volume(q.b.x0, q.b.y0, q.b.lx, q.b.ly, *q.top.s, *q.bot.s, q.b.ang);
  else {
    q.v = new Volume();
    if (r.b()) { q.v->SetDimensions(q.b.x0, q.b.y0, q.b.lx, q.b.ly); q.v->SetAngle(q.b.ang); q.v->SetSurfaces(*q.top.s, *q.bot.s, r.b()); }
    else { q.v->SetSurfaces(*q.top.s, *q.bot.s); *q.v = Volume(q.b.x0, q.b.y0, q.b.lx, q.b.ly, *q.top.s, *q.bot.s, q.b.ang); }
  }
  vh::stat(vh::fmt("cube tops %d bottoms %d", kt, kb));
}

static LD frac_edge(LD t) { return std::fabs(t - std::round(t)); }

// ---- coordinates and lookups ----------------------------------------------
static void t_volume(vh::Rng& r, Cube& q) {
  Volume& v = *q.v;
  double c = cos(q.b.ang), s = sin(q.b.ang);
  VH_CHECK(v.GetXMin() == q.b.x0 && v.GetYMin() == q.b.y0 && v.GetLX() == q.b.lx && v.GetLY() == q.b.ly && v.GetAngle() == q.b.ang, "volume-geometry", "geometry not kept");
  double mag = std::fabs(q.b.x0) + std::fabs(q.b.y0) + q.b.lx + q.b.ly, eps = 1e-13 * mag + 1e-12;
  double zs = 1e-9 * (1 + std::fabs(q.top.c) + std::fabs(q.bot.c)) * (1 + mag / (q.b.lx + q.b.ly) * 1e-4);
  for (int t = 0; t < 8; ++t) {
    double rx = r.u(-0.3, 1.3), ry = r.u(-0.3, 1.3);
    double x, y; v.GetXYFromRelative(rx, ry, x, y);
    double ex = q.b.x0 + c * rx * q.b.lx - s * ry * q.b.ly, ey = q.b.y0 + s * rx * q.b.lx + c * ry * q.b.ly;
    VH_CHECK(vh::close(x, ex, 0, eps) && vh::close(y, ey, 0, eps), "volume-relative", "(%g,%g) -> %.12g %.12g expected %.12g %.12g", rx, ry, x, y, ex, ey);
    double tol = v.GetTolerance();
    double dx = std::min(rx, 1 - rx) * q.b.lx, dy = std::min(ry, 1 - ry) * q.b.ly, d = std::min(dx, dy);
    if (std::fabs(d) > eps * 10) {
      VH_CHECK((v.IsInside(ex, ey) != 0) == (d > 0), "volume-inside-xy", "rel %g %g", rx, ry);
    }
    if (std::fabs(d + tol) > eps * 10) VH_CHECK((v.IsInsideTolerance(ex, ey) != 0) == (d > -tol), "volume-inside-tol", "rel %g %g d %g tol %g", rx, ry, d, tol);
    if (d > eps * 10) {
      double zt = q.top.z(ex, ey), zb = q.bot.z(ex, ey), w = r.u(-0.5, 1.5), z = zt + w * (zb - zt), e = std::min(z - zt, zb - z);
      if (std::fabs(e) > zs) VH_CHECK(v.IsInside(ex, ey, z) == (e > 0), "volume-inside-z", "z %.10g in [%.10g,%.10g]", z, zt, zb);
      double zt2 = r.logu(1e-3, 1) * (zb - zt);
      if (std::fabs(e + zt2) > zs) VH_CHECK(v.IsInsideZTolerance(ex, ey, z, zt2) == (e > -zt2), "volume-inside-ztol", "z %.10g in [%.10g,%.10g] tol %g", z, zt, zb, zt2);
    } else if (d < -eps * 10) VH_CHECK(!v.IsInside(ex, ey, 0.5 * (q.top.c + q.bot.c)), "volume-inside-z-out", "outside xy but inside");
    vh::sig(vh::mix(vh::hd(ex), vh::hd(ey)));
  }
  if (r.b(0.3)) {
    double t = r.logu(1e-4, 1e-1) * q.b.lx; v.SetTolerance(t);
    Volume w(v); VH_CHECK(w.GetTolerance() == t, "volume-copy-tolerance", "copy has tolerance %g instead of %g", w.GetTolerance(), t);
    Volume w2; w2 = v; VH_CHECK(w2.GetTolerance() == t && w2.GetAngle() == v.GetAngle() && w2.GetLZ() == v.GetLZ(), "volume-assign", "assignment");
  }
  double x, y, z; v.FindCenter(x, y, z);
  double ex = q.b.x0 + c * q.b.lx / 2 - s * q.b.ly / 2, ey = q.b.y0 + s * q.b.lx / 2 + c * q.b.ly / 2, ez = 0.5 * (q.top.z(ex, ey) + q.bot.z(ex, ey));
  VH_CHECK(vh::close(x, ex, 0, eps) && vh::close(y, ey, 0, eps) && vh::close(z, ez, 0, zs), "volume-centre", "centre %.12g %.12g %.10g expected %.12g %.12g %.10g", x, y, z, ex, ey, ez);
  // extremes over an nx by ny raster of cell centres
  size_t nx = r.i(1, 9), ny = r.i(1, 9);
  double e[4] = {1e300, -1e300, 1e300, -1e300};
  for (size_t i = 0; i < nx; ++i) for (size_t j = 0; j < ny; ++j) {
    double lx = (i + 0.5) * q.b.lx / nx, ly = (j + 0.5) * q.b.ly / ny, X = q.b.x0 + c * lx - s * ly, Y = q.b.y0 + s * lx + c * ly;
    double a = q.top.z(X, Y), b = q.bot.z(X, Y);
    e[0] = std::min(e[0], a); e[1] = std::max(e[1], a); e[2] = std::min(e[2], b); e[3] = std::max(e[3], b);
  }
  double g[4] = {v.GetTopZMin(nx, ny), v.GetTopZMax(nx, ny), v.GetBotZMin(nx, ny), v.GetBotZMax(nx, ny)};
  for (int i = 0; i < 4; ++i) VH_CHECK(vh::close(g[i], e[i], 0, zs), "volume-extreme", "extreme %d: %.12g expected %.12g", i, g[i], e[i]);
  VH_CHECK(v.GetZMin(nx, ny) == g[0] && v.GetZMax(nx, ny) == g[3], "volume-zrange", "zmin/zmax");
  // maximum thickness over the raster the class documents (lower left corners of 100 x 100 cells)
  double lz = 0;
  for (int i = 0; i < 100; ++i) for (int j = 0; j < 100; ++j) {
    double lx = i * q.b.lx / 100, ly = j * q.b.ly / 100, X = q.b.x0 + c * lx - s * ly, Y = q.b.y0 + s * lx + c * ly;
    lz = std::max(lz, q.bot.z(X, Y) - q.top.z(X, Y));
  }
  VH_CHECK(vh::close(v.GetLZ(), lz, 0, 2 * zs + 0.02 * lz), "volume-lz", "lz %.12g expected about %.12g", v.GetLZ(), lz);
  // coverage
  if (q.top.kind == 1 || q.top.kind == 3) {
    VH_CHECK(v.CheckSurface(*q.top.s), "volume-covered", "covering surface refused");
    double xa, xb, ya, yb; bounds(q.b, xa, xb, ya, yb);
    double cut = r.u(0.01, 0.5); int side = r.i(0, 3); double m = 1 + 0.05 * (q.b.lx + q.b.ly);
    double A = xa - m, B = xb + m, C = ya - m, D = yb + m;
    if (side == 0) A = xa + cut * (xb - xa); else if (side == 1) B = xb - cut * (xb - xa); else if (side == 2) C = ya + cut * (yb - ya); else D = yb - cut * (yb - ya);
    RegularSurface<double> part(A, C, B - A, D - C, 3, 3, 0.0);
    VH_CHECK(!v.CheckSurface(part), "volume-not-covered", "surface cut at side %d accepted", side);
    Volume w(v); bool threw = false; try { w.SetSurfaces(*q.top.s, part, false); } catch (Exception&) { threw = true; }
    VH_CHECK(threw, "volume-not-covered-set", "surface cut at side %d accepted", side);
  }
}

template <class G> static bool find(const G& g, double x, double y, double z, size_t& i, size_t& j, size_t& k) {
  try { g.FindIndex(x, y, z, i, j, k); return true; } catch (Exception&) { return false; }
}

template <class G> static void t_cells(vh::Rng& r, Cube& q, const G& g, bool cont) {
  double dx = q.b.lx / q.nx, dy = q.b.ly / q.ny;
  double mag = std::fabs(q.b.x0) + std::fabs(q.b.y0) + q.b.lx + q.b.ly, eps = 4e-15 * mag * 8 + 1e-12;
  double zs = 1e-9 * (1 + std::fabs(q.top.c) + std::fabs(q.bot.c)) * (1 + mag / (q.b.lx + q.b.ly) * 1e-4);
  double c = cos(q.b.ang), s = sin(q.b.ang);
  VH_CHECK(g.GetNI() == q.nx && g.GetNJ() == q.ny && g.GetNK() == q.nz && g.GetN() == q.nx * q.ny * q.nz, "cube-size", "size");
  VH_CHECK(vh::close(g.GetDX(), dx, 1e-14, 0) && vh::close(g.GetDY(), dy, 1e-14, 0), "cube-step", "steps");
  for (int t = 0; t < 6; ++t) {  // coordinate round trips
    double x = q.b.x0 + r.u(-2, 2) * q.b.lx, y = q.b.y0 + r.u(-2, 2) * q.b.ly, a, b, x2, y2;
    g.g2l(x, y, a, b); g.l2g(a, b, x2, y2);
    VH_CHECK(vh::close(x, x2, 0, eps) && vh::close(y, y2, 0, eps), "cube-roundtrip", "%.15g %.15g -> %.15g %.15g", x, y, x2, y2);
    LD X = (LD)x - q.b.x0, Y = (LD)y - q.b.y0;
    VH_CHECK(vh::close(a, (double)(cosl((LD)q.b.ang) * X + sinl((LD)q.b.ang) * Y), 0, eps) && vh::close(b, (double)(-sinl((LD)q.b.ang) * X + cosl((LD)q.b.ang) * Y), 0, eps), "cube-local", "local %g %g", a, b);
  }
  // every cell centre maps back
  for (size_t k = 0; k < q.nz; ++k) for (size_t j = 0; j < q.ny; ++j) for (size_t i = 0; i < q.nx; ++i) {
    if (q.nx * q.ny * q.nz > 300 && !r.b(0.1)) continue;
    double x, y, z; g.FindCenterOfCell(i, j, k, x, y, z);
    double lx = (i + 0.5) * dx, ly = (j + 0.5) * dy, ex = q.b.x0 + c * lx - s * ly, ey = q.b.y0 + s * lx + c * ly;
    double zt = q.top.z(ex, ey), zb = q.bot.z(ex, ey), ez = zt + (k + 0.5) * (zb - zt) / q.nz;
    VH_CHECK(vh::close(x, ex, 0, eps * 4) && vh::close(y, ey, 0, eps * 4) && vh::close(z, ez, 0, zs), "cell-centre", "centre of (%zu,%zu,%zu): %.12g %.12g %.10g expected %.12g %.12g %.10g", i, j, k, x, y, z, ex, ey, ez);
    size_t a = 999, b = 999, d = 999; bool ok = find(g, x, y, z, a, b, d);
    VH_CHECK(ok && a == i && b == j && d == k, "cell-of-centre", "centre of (%zu,%zu,%zu) is in %s (%zu,%zu,%zu)", i, j, k, ok ? "" : "no cell", a, b, d);
    VH_CHECK(g.FindIndex(x, y, z) == i + j * q.nx + k * q.nx * q.ny, "cell-index", "index of the centre of (%zu,%zu,%zu)", i, j, k);
  }
  // random points, points on the faces, points outside
  for (int t = 0; t < 30; ++t) {
    LD u = r.u(-0.25, 1.25) * q.nx, w = r.u(-0.25, 1.25) * q.ny, h = r.u(-0.25, 1.25) * q.nz;
    int face = 0;
    if (r.b(0.7)) u = r.u() * q.nx;
    if (r.b(0.7)) w = r.u() * q.ny;
    if (r.b(0.6)) h = r.u() * q.nz;
    double lx = (double)(u * dx), ly = (double)(w * dy), x, y; g.l2g(lx, ly, x, y);
    double zt = q.top.s->GetZ(x, y), zb = q.bot.s->GetZ(x, y), z = (double)(zt + h * (zb - zt) / q.nz);
    if (r.b(0.15)) { face = 1; z = r.b(0.5) ? zb : (r.b() ? zt : std::nextafter(zb, -1e9)); h = z == zt ? 0 : q.nz; }
    bool in = u > 0 && u < q.nx && w > 0 && w < q.ny;
    double ed = std::min((double)frac_edge(u) * dx, (double)frac_edge(w) * dy), ez = (double)frac_edge(h) * (zb - zt) / q.nz;
    size_t a = 0, b = 0, d = 0; bool ok = find(g, x, y, z, a, b, d);
    if (ok) VH_CHECK(a < q.nx && b < q.ny && d < q.nz, "cell-range", "cell (%zu,%zu,%zu) is outside the grid; point at (%.6Lf,%.6Lf,%.6Lf) cells", a, b, d, u, w, h);
    if (ed < 8 * eps) continue;
    vh::sig(vh::mix(vh::hd(x), vh::hd(z)));
    if (!in) { VH_CHECK(!ok, "cell-outside-xy", "point at (%.6Lf,%.6Lf,%.6Lf) cells of (%zu,%zu,%zu) was found in (%zu,%zu,%zu)", u, w, h, q.nx, q.ny, q.nz, a, b, d); continue; }
    if (face) {
      VH_CHECK(ok && a == (size_t)u && b == (size_t)w && (d == (h == 0 ? 0 : q.nz - 1)), "cell-face", "point on the %s: %s (%zu,%zu,%zu)", h == 0 ? "top" : "bottom", ok ? "found in" : "not found", a, b, d);
    } else if (ez > zs) {
      bool inz = h > 0 && h < q.nz;
      VH_CHECK(ok == inz, "cell-outside-z", "point at (%.6Lf,%.6Lf,%.6Lf) cells of (%zu,%zu,%zu)", u, w, h, q.nx, q.ny, q.nz);
      if (ok && inz) VH_CHECK(a == (size_t)u && b == (size_t)w && d == (size_t)h, "cell-lookup", "point at (%.6Lf,%.6Lf,%.6Lf) cells found in (%zu,%zu,%zu)", u, w, h, a, b, d);
    }
  }
}

static void fill(vh::Rng& r, Cube& q, StormContGrid& g, double pm) {
  for (size_t i = 0; i < g.GetN(); ++i) g(i) = r.b(pm) ? g.GetMissingCode() : (float)r.u(-50, 50);
}

static void t_values(vh::Rng& r, Cube& q, Cont& g) {
  double pm = r.b() ? 0 : 0.25; fill(r, q, g, pm);
  float miss = g.GetMissingCode();
  size_t nz = q.nz;
  for (int t = 0; t < 20; ++t) {
    size_t i = r.i(0, q.nx - 1), j = r.i(0, q.ny - 1);
    double u = i + r.u(0.02, 0.98), w = j + r.u(0.02, 0.98), h = r.b(0.3) ? r.u(-1, nz + 1.0) : r.u(0, nz), x, y;
    if (r.b(0.1)) h = r.i(0, 2 * nz) * 0.5;
    g.l2g(u * g.GetDX(), w * g.GetDY(), x, y);
    double zt = q.top.s->GetZ(x, y), zb = q.bot.s->GetZ(x, y), z = zt + h * (zb - zt) / nz;
    double p = (double)(((LD)z - zt) / (((LD)zb - zt) / nz)) - 0.5;
    size_t k1, k2; double f;
    if (p <= 0) { k1 = k2 = 0; f = 0; } else if (p >= nz - 1) { k1 = k2 = nz - 1; f = 0; } else { k1 = (size_t)p; k2 = k1 + 1; f = p - k1; }
    float v1 = g(i, j, k1), v2 = g(i, j, k2);
    double want = v1 == miss ? v2 : v2 == miss ? v1 : (1 - f) * v1 + f * v2;
    bool knife = k1 != k2 && (f < 1e-6 || f > 1 - 1e-6);
    if (pm > 0 && (knife || std::fabs(p) < 1e-6 || std::fabs(p - (nz - 1.0)) < 1e-6)) { g.GetValueZInterpolated(x, y, z); g.GetValueClosestInZ(x, y, z); continue; }
    double tol = 1e-4;
    float got = g.GetValueZInterpolated(x, y, z);
    VH_CHECK(vh::close(got, want, 1e-5, tol), "value-zinterp", "z at %g cells of %zu: %g expected %g (values %g %g)", h, nz, got, want, v1, v2);
    size_t a, b; double tt; g.FindZInterpolatedIndex(x, y, z, a, b, tt);
    VH_CHECK(g.GetValueZInterpolatedFromIndex(a, b, tt) == got, "value-zinterp-index", "index form differs");
    VH_CHECK(a < g.GetN() && b < g.GetN(), "value-zinterp-range", "index %zu %zu of %zu", a, b, g.GetN());
    if (v1 != miss && v2 != miss) {
      VH_CHECK(vh::close(g.GetValueZInterpolatedFromIndexNoMissing(a, b, tt), want, 1e-5, tol), "value-zinterp-nomissing", "no-missing form differs");
      float cl = g.GetValueClosestInZ(x, y, z);
      VH_CHECK(vh::close(cl, want, 1e-5, tol), "value-closest", "z at %g cells of %zu: %g expected %g", h, nz, cl, want);
    }
    double ko = r.b(0.2) ? r.u(-5, -0.1) : q.nx + r.u(0.1, 5);
    g.l2g(ko * g.GetDX(), w * g.GetDY(), x, y);
    VH_CHECK(g.GetValueClosestInZ(x, y, z) == miss, "value-closest-outside", "value outside the grid");
    bool th = false; try { g.GetValueZInterpolated(x, y, z); } catch (Exception&) { th = true; }
    VH_CHECK(th, "value-zinterp-outside", "no error outside the grid");
    float kv = (float)r.u(0, nz - 1); if (r.b(0.1)) kv = (float)(nz - 1);
    size_t q1 = (size_t)kv, q2 = std::min(q1 + 1, nz - 1); float w1 = g(i, j, q1), w2 = g(i, j, q2);
    double e = w1 == miss ? miss : w2 == miss ? w1 : w1 + (kv - q1) * (w2 - w1);
    VH_CHECK(vh::close(g.GetValueInterpolated(i, j, kv), e, 1e-5, 1e-3), "value-kinterp", "at layer %g of %zu", kv, nz);
    vh::sig(vh::mix(vh::hd(x), vh::hd(z)));
  }
  // mean relative thickness
  double sum = 0, c = cos(q.b.ang), s = sin(q.b.ang);
  for (size_t i = 0; i < q.nx; ++i) for (size_t j = 0; j < q.ny; ++j) {
    double lx = (i + 0.5) * g.GetDX(), ly = (j + 0.5) * g.GetDY(), X = q.b.x0 + c * lx - s * ly, Y = q.b.y0 + s * lx + c * ly;
    sum += q.bot.z(X, Y) - q.top.z(X, Y);
  }
  VH_CHECK(vh::close(g.GetAvgRelThick(), sum / (q.nx * q.ny) / g.GetLZ(), 1e-7, 0), "value-thickness", "mean relative thickness %.10g expected %.10g", g.GetAvgRelThick(), sum / (q.nx * q.ny) / g.GetLZ());
  double zmn = 1e300, zmx = -1e300;
  for (size_t i = 0; i < q.nx; ++i) for (size_t j = 0; j < q.ny; ++j) {
    double lx = (i + 0.5) * g.GetDX(), ly = (j + 0.5) * g.GetDY(), X = q.b.x0 + c * lx - s * ly, Y = q.b.y0 + s * lx + c * ly;
    zmn = std::min(zmn, q.top.z(X, Y)); zmx = std::max(zmx, q.bot.z(X, Y));
  }
  VH_CHECK(vh::close(g.GetZMin(), zmn, 1e-7, 1e-7) && vh::close(g.GetZMax(), zmx, 1e-7, 1e-7), "value-zrange", "z range");
}

// ---- plain containers -------------------------------------------------------
template <class A> static void t_grid(vh::Rng& r) {
  size_t n[5]; for (int d = 0; d < 5; ++d) n[d] = r.i(1, 5);
  A init = (A)r.i(-9, 9);
  Grid<A> g(n[0], n[1], n[2], init);
  std::vector<A> m(n[0] * n[1] * n[2], init);
  size_t at = 0;
  for (size_t k = 0; k < n[2]; ++k) for (size_t j = 0; j < n[1]; ++j) for (size_t i = 0; i < n[0]; ++i, ++at) {
    A v = (A)r.i(-90, 90); m[at] = v;
    VH_CHECK(g(i, j, k) == init, "grid-init", "initial value");
    switch (r.i(0, 2)) { case 0: g(i, j, k) = v; break; case 1: g.SetValue(i, j, k, v); break; default: g.GetValue(i, j, k) = v; }
    VH_CHECK(g.GetIndex(i, j, k) == at, "grid-index", "(%zu,%zu,%zu) of (%zu,%zu,%zu)", i, j, k, n[0], n[1], n[2]);
    size_t a, b, c; g.GetIJK(at, a, b, c); VH_CHECK(a == i && b == j && c == k, "grid-ijk", "index %zu -> (%zu,%zu,%zu) of (%zu,%zu,%zu)", at, a, b, c, n[0], n[1], n[2]);
  }
  const Grid<A>& cg = g; bool same = std::equal(m.begin(), m.end(), cg.begin()) && cg.end() - cg.begin() == (long)m.size() && cg.GetStorage() == m;
  for (size_t i = 0; i < m.size(); ++i) same = same && cg(i) == m[i];
  VH_CHECK(same, "grid-order", "storage order");
  if (r.b()) for (A& x : g) x = std::abs(x) + 1; else if (r.b()) for (A& x : g) x = -std::abs(x) - 1;
  m = g.GetStorage();
  A miss = r.b() ? m[r.i(0, m.size() - 1)] : (A)-999, av, mi, ma; long cnt = 0; double sum = 0, mn = 1e300, mx = -1e300, all = 0;
  for (A x : m) { all += x; if (x != miss) { sum += x; mn = std::min<double>(mn, x); mx = std::max<double>(mx, x); ++cnt; } }
  if (cnt) {
    g.GetAvgMinMaxWithMissing(av, mi, ma, miss);
    VH_CHECK(vh::close(av, std::is_integral<A>::value ? std::trunc(sum / cnt) : sum / cnt, 1e-5, 1e-4) && mi == (A)mn && ma == (A)mx, "grid-stats-missing", "%g %g %g expected %g %g %g", (double)av, (double)mi, (double)ma, sum / cnt, mn, mx);
  }
  g.GetAvgMinMax(av, mi, ma);
  double amn = *std::min_element(m.begin(), m.end()), amx = *std::max_element(m.begin(), m.end());
  // for integers the mean is the truncated one
  double ea = all / (double)m.size(); if (std::is_integral<A>::value) ea = std::trunc(ea);
  VH_CHECK(vh::close(av, ea, 1e-5, 1e-4) && mi == (A)amn && ma == (A)amx, "grid-stats", "%g %g %g expected %g %g %g", (double)av, (double)mi, (double)ma, ea, amn, amx);
  size_t nk = r.i(1, 7); Grid<A> h(g); h.ResizeK(nk); bool kept = h.GetNK() == nk && h.GetN() == n[0] * n[1] * nk;
  for (size_t i = 0; kept && i < std::min(h.GetN(), m.size()); ++i) kept = h(i) == m[i];
  VH_CHECK(kept, "grid-resizek", "values not kept");
  Grid<A> o(2, 1, 3, (A)7); o.Swap(g); VH_CHECK(o.GetStorage() == m && o.GetNI() == n[0] && o.GetNJ() == n[1] && o.GetNK() == n[2] && g.GetNI() == 2 && g.GetNJ() == 1 && g.GetNK() == 3 && g(5) == (A)7, "grid-swap", "swap");
  g.Resize(n[1], n[2], n[0], (A)3); bool rs = g.GetNI() == n[1] && g.GetNJ() == n[2] && g.GetNK() == n[0] && g.GetN() == n[0] * n[1] * n[2];
  for (size_t i = 0; i < g.GetN(); ++i) rs = rs && g(i) == (A)3;
  VH_CHECK(rs, "grid-resize", "resize"); g(0) = (A)5; g.Assign(n[0], n[1], 2, (A)4); rs = g.GetN() == n[0] * n[1] * 2; for (size_t i = 0; i < g.GetN(); ++i) rs = rs && g(i) == (A)4; VH_CHECK(rs, "grid-assign", "assign");
  Grid2D<A> p(n[0], n[1], init); at = 0;
  for (size_t j = 0; j < n[1]; ++j) for (size_t i = 0; i < n[0]; ++i, ++at) { VH_CHECK(p.GetIndex(i, j) == at, "grid2d-index", "index"); size_t a, b; p.GetIJ(at, a, b); VH_CHECK(a == i && b == j, "grid2d-ij", "ij"); p(i, j) = (A)at; VH_CHECK(p(at) == (A)at, "grid2d-value", "value"); }
  for (size_t t = 0; t < p.GetN(); ++t) p(t) = (A)r.i(-20, 20);
  { std::vector<A> d(p.begin(), p.end()); A ms = r.b(.4) ? d[r.i(0, (long)d.size() - 1)] : (A)-999; double lo = 1e300, hi = -1e300; for (A x : d) if (x != ms) { lo = std::min<double>(lo, x); hi = std::max<double>(hi, x); } if (hi >= lo) VH_CHECK(p.FindMin(ms) == (A)lo && p.FindMax(ms) == (A)hi, "grid2d-minmax", "%g..%g expected %g..%g", (double)p.FindMin(ms), (double)p.FindMax(ms), lo, hi);
    Grid2D<A> q(3, 2, (A)1); q.Swap(p); VH_CHECK(q.GetStorage() == d && q.GetNI() == n[0] && q.GetNJ() == n[1] && p.GetNI() == 3 && p.GetNJ() == 2 && p.GetN() == 6, "grid2d-swap", "swap"); p.Swap(q); q.Resize(n[1], n[0], (A)2); bool ok = q.GetNI() == n[1] && q.GetNJ() == n[0] && q.GetN() == n[0] * n[1]; for (A x : q) ok = ok && x == (A)2; q.Assign(n[0], 1, (A)3); ok = ok && q.GetNI() == n[0] && q.GetNJ() == 1 && q.GetN() == n[0]; for (A x : q) ok = ok && x == (A)3; VH_CHECK(ok, "grid2d-resize", "resize"); }
  for (int t = 0; t < 6; ++t) { int a = r.i(-2, n[0] + 1), b = r.i(-2, n[1] + 1); VH_CHECK(p.IsValidIndex(a, b) == (a >= 0 && b >= 0 && a < (int)n[0] && b < (int)n[1]), "grid2d-valid", "IsValidIndex(%d,%d) of %zu %zu", a, b, n[0], n[1]); }
  {  // part of a larger grid
    size_t i0 = r.i(0, 50), j0 = r.i(0, 50); Grid2DGeneral<A> q(i0, i0 + n[0] - 1, j0, j0 + n[1] - 1, init), s(7, 8, 9, 11, (A)1); const Grid2DGeneral<A>& c = q; bool ok = q.GetNI() == n[0] && q.GetNJ() == n[1] && q.GetN() == n[0] * n[1]; at = 0; for (size_t j = j0; j < j0 + n[1]; ++j) for (size_t i = i0; i < i0 + n[0]; ++i, ++at) { size_t a, b; q.GetIJ(at, a, b); ok = ok && q(i, j) == init && q.GetIndex(i, j) == at && a == i && b == j; q(i, j) = p(at); ok = ok && q(at) == p(at) && c(i, j) == p(at) && c(at) == p(at); } VH_CHECK(ok, "part-index", "cells of a part of a grid"); for (int t = 0; t < 6; ++t) { size_t a = i0 + n[0] + 1 - r.i(0, (long)std::min(i0, (size_t)3) + (long)n[0] + 1), b = j0 + n[1] + 1 - r.i(0, (long)std::min(j0, (size_t)3) + (long)n[1] + 1); VH_CHECK(q.IsValidIndex(a, b) == (a >= i0 && b >= j0 && a < i0 + n[0] && b < j0 + n[1]), "part-valid", "%zu %zu", a, b); }
    A ms = r.b(.4) ? p(r.i(0, (long)p.GetN() - 1)) : (A)-999; bool some = false; for (A x : p) some = some || x != ms; if (some) VH_CHECK(q.FindMin(ms) == p.FindMin(ms) && q.FindMax(ms) == p.FindMax(ms), "part-minmax", "minimum, maximum"); s.Swap(q); ok = q.GetIMin() == 7 && q.GetIMax() == 8 && q.GetJMin() == 9 && q.GetJMax() == 11 && q.GetNI() == 2 && q.GetNJ() == 3 && q(8, 11) == (A)1 && s.GetIMin() == i0 && s.GetIMax() == i0 + n[0] - 1 && s.GetJMin() == j0 && s.GetJMax() == j0 + n[1] - 1; at = 0; if (ok) for (size_t j = j0; j < j0 + n[1]; ++j) for (size_t i = i0; i < i0 + n[0]; ++i, ++at) ok = ok && s.IsValidIndex(i, j) && s(i, j) == p(at); VH_CHECK(ok && at == p.GetN(), "part-swap", "swapped parts of a grid"); q.Resize(3, 3 + n[1] - 1, 4, 4 + n[0] - 1, (A)2); ok = q.GetIMin() == 3 && q.GetIMax() == n[1] + 2 && q.GetJMin() == 4 && q.GetJMax() == n[0] + 3 && q.GetN() == n[0] * n[1] && q.GetNI() == n[1] && q.GetNJ() == n[0]; for (A x : q) ok = ok && x == (A)2; VH_CHECK(ok, "part-resize", "resize"); }
  // distinct cells of four- and five-dimensional grids do not alias
  Grid4D<A> f4(n[0], n[1], n[2], n[3], (A)0); Grid5D<A> f5(n[0], n[1], n[2], n[3], n[4], (A)0); long v = 0;
  for (size_t i = 0; i < n[0]; ++i) for (size_t j = 0; j < n[1]; ++j) for (size_t k = 0; k < n[2]; ++k) for (size_t l = 0; l < n[3]; ++l) { f4(i, j, k, l) = (A)(v++); for (size_t q = 0; q < n[4]; ++q) f5(i, j, k, l, q) = (A)(v * 7 + q); }
  v = 0; bool al = true;
  for (size_t i = 0; i < n[0]; ++i) for (size_t j = 0; j < n[1]; ++j) for (size_t k = 0; k < n[2]; ++k) for (size_t l = 0; l < n[3]; ++l) { al = al && f4(i, j, k, l) == (A)(v++); for (size_t q = 0; q < n[4]; ++q) al = al && f5(i, j, k, l, q) == (A)(v * 7 + q); }
  for (size_t t = 0; t < f5.GetN(); ++t) { size_t i, j, k, l, q; f5.GetIJKLM(t, i, j, k, l, q); al = al && i < n[0] && j < n[1] && k < n[2] && l < n[3] && q < n[4] && f5.GetIndex(i, j, k, l, q) == t; }
  for (size_t t = 0; t < f4.GetN(); ++t) { size_t i, j, k, l; f4.GetIJKL(t, i, j, k, l); al = al && i < n[0] && j < n[1] && k < n[2] && l < n[3] && f4.GetIndex(i, j, k, l) == t; }
  VH_CHECK(al, "grid45-alias", "cells of a 4D/5D grid alias");
}

// ---- files --------------------------------------------------------------------
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& f, const std::string& d) { std::ofstream o(f, std::ios::binary); o << d; }
static void clean() { for (const char* n : {"c.storm", "c.storm_top", "c.storm_bot", "c.storm_erosion_top", "c.storm_erosion_bot", "c.sgrh", "c.Sgri", "c.crava"}) std::remove(vh::path(n).c_str()); }

template <class G> static void same_geometry(Cube& q, const G& a, const G& b, const char* what) {
  double rel = 1e-12;
  VH_CHECK(vh::close(a.GetXMin(), b.GetXMin(), rel, 0) && vh::close(a.GetYMin(), b.GetYMin(), rel, 0) && vh::close(a.GetLX(), b.GetLX(), rel, 0) && vh::close(a.GetLY(), b.GetLY(), rel, 0), "file-geometry", "%s: origin %.14g %.14g size %.14g %.14g read as %.14g %.14g, %.14g %.14g", what, a.GetXMin(), a.GetYMin(), a.GetLX(), a.GetLY(), b.GetXMin(), b.GetYMin(), b.GetLX(), b.GetLY());
  VH_CHECK(vh::close(a.GetAngle(), b.GetAngle(), 1e-11, 1e-13), "file-angle", "%s: angle %.14g read as %.14g", what, a.GetAngle(), b.GetAngle());
  VH_CHECK(vh::close(a.GetLZ(), b.GetLZ(), rel, 0), "file-lz", "%s: lz %.14g read as %.14g", what, a.GetLZ(), b.GetLZ());
  VH_CHECK(a.GetNI() == b.GetNI() && a.GetNJ() == b.GetNJ() && a.GetNK() == b.GetNK(), "file-size", "%s: size", what);
  for (size_t i = 0; i < a.GetNI(); i += 1 + a.GetNI() / 3) for (size_t j = 0; j < a.GetNJ(); j += 1 + a.GetNJ() / 3) {
    double x, y, z, X, Y, Z; a.FindCenterOfCell(i, j, a.GetNK() / 2, x, y, z); b.FindCenterOfCell(i, j, a.GetNK() / 2, X, Y, Z);
    double zt = 1e-6 * (std::fabs(q.top.c) + std::fabs(q.bot.c) + 1);  // surfaces are stored as floats or doubles in their own format
    VH_CHECK(vh::close(x, X, 1e-11, 1e-9) && vh::close(y, Y, 1e-11, 1e-9) && vh::close(z, Z, 0, zt), "file-centre", "%s: centre of cell (%zu,%zu) %.12g %.12g %.10g read as %.12g %.12g %.10g", what, i, j, x, y, z, X, Y, Z);
  }
}

template <class G> static int try_read(const std::string& f, std::string* err = 0) {
  try { G g(f); return 1; } catch (Exception& e) { if (err) *err = e.what(); return 0; } catch (std::bad_alloc&) { return -1; } catch (std::length_error&) { return -1; }
}

template <class G> static void faults(vh::Rng& r, Cube& q, const std::string& f, bool binary) {
  std::string d = slurp(f);
  // a file cut anywhere raises an error (in text, the last number may only lose digits; the trailing barrier count is optional)
  size_t need = binary ? d.size() - 1 : d.size();
  for (int t = 0; t < 4; ++t) {
    size_t cut = binary ? (size_t)r.i(0, need - 1) : (size_t)(r.u() * 0.7 * d.size());
    if (binary && r.b(0.5)) cut = need - 1 - r.i(0, std::min<size_t>(12, need - 1));
    spit(f, d.substr(0, cut));
    int res = try_read<G>(f);
    VH_CHECK(res == 0, "file-truncated", "a file cut to %zu of %zu bytes %s", cut, d.size(), res == 1 ? "was accepted" : "raised an allocation error");
  }
  spit(f, d);
  // missing or damaged surface files
  for (const char* n : {"_top", "_bot"}) {
    std::string s = f + n, sd = slurp(s);
    if (sd.empty()) continue;
    std::remove(s.c_str()); VH_CHECK(try_read<G>(f) == 0, "file-no-surface", "missing surface file %s accepted", n);
    spit(s, sd.substr(0, r.i(0, sd.size() - 1))); VH_CHECK(try_read<G>(f) == 0, "file-cut-surface", "truncated surface file %s accepted", n);
    spit(s, sd);
  }
  VH_CHECK(try_read<G>(f) == 1, "file-again", "the restored file is refused");
  std::string e = d; e[e.size() - 1] = '3'; spit(f, e); VH_CHECK(try_read<G>(f) == 0, "file-barriers", "a file with barriers was accepted");
  std::string w = d; w[0] = 'x'; spit(f, w); VH_CHECK(try_read<G>(f) == 0, "file-magic", "unknown format accepted");
}

static void t_contfile(vh::Rng& r, Cube& q) {
  clean();
  Cont g(*q.v, q.nx, q.ny, q.nz);
  float miss = r.b(0.4) ? -999.0f : r.pick(std::vector<float>{-999.25f, 1e30f, -9999.0f, 0.0f, 123456.7f});
  g.SetMissingCode(miss);
  fill(r, q, g, 0.2);
  if (r.b(0.3)) for (float& x : g) if (x != miss) x = (float)(x * std::pow(10.0, r.i(-12, 12)));
  bool binary = r.b(); g.SetFormat(binary ? StormContGrid::STORM_BINARY : StormContGrid::STORM_ASCII);
  g.SetZoneNumber(r.i(0, 99)); g.SetModelFileName("model" + std::to_string(r.i(0, 9))); g.SetVariableName("PORO" + std::to_string(r.i(0, 9)));
  Endianess en = r.b(0.7) ? END_BIG_ENDIAN : END_LITTLE_ENDIAN;
  std::string f = vh::path("c.storm");
  g.WriteToFile(f, "", false, en);
  Cont h(f, en);
  VH_CHECK(h.GetZoneNumber() == g.GetZoneNumber() && h.GetModelFileName() == g.GetModelFileName() && h.GetVariableName() == g.GetVariableName() && h.GetFormat() == g.GetFormat(), "file-names", "names or zone");
  VH_CHECK(h.GetMissingCode() == miss, "file-missing-code", "missing code %.9g read as %.9g", miss, h.GetMissingCode());
  same_geometry(q, g, h, "continuous cube");
  for (size_t i = 0; i < g.GetN() && h.GetN() == g.GetN(); ++i) {
    VH_CHECK(g.IsMissing(g(i)) == h.IsMissing(h(i)), "file-missing", "missing value became %.9g (code %.9g), or the reverse", h(i), miss);
    VH_CHECK(vh::close(g(i), h(i), binary ? 0 : 1e-7, 0), "file-value", "%s value %.9g read as %.9g", binary ? "binary" : "ascii", g(i), h(i));
  }
  vh::sig(vh::mix(vh::hd(q.b.x0), q.nx * 31 + q.ny * 7 + q.nz)); vh::stat(binary ? "binary cube files" : "ascii cube files");
  if (binary) {  // the data block is the values, first index fastest
    std::string d = slurp(f); size_t n = 4 * g.GetN();
    if (d.size() > n + 1) { std::string blk = d.substr(d.size() - 1 - n, n); bool ok = true; for (size_t i = 0; i < g.GetN(); ++i) { unsigned char b[4]; memcpy(b, blk.data() + 4 * i, 4); uint32_t x = en == END_BIG_ENDIAN ? b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3] : b[3] << 24 | b[2] << 16 | b[1] << 8 | b[0]; float v; memcpy(&v, &x, 4); float e = g(i % q.nx, (i / q.nx) % q.ny, i / q.nx / q.ny); ok = ok && v == e; } VH_CHECK(ok, "file-bytes", "data block"); }
  }
  if (en == END_BIG_ENDIAN) faults<StormContGrid>(r, q, f, binary);
  clean();
  if (r.b(0.3)) {  // headerless and predefined headers
    g.WriteToFile(f, "", true, en); std::string d = slurp(f);
    if (binary) VH_CHECK(d.size() == 4 * g.GetN(), "file-plain", "plain file has %zu bytes for %zu values", d.size(), g.GetN());
    else { std::istringstream s(d); std::string t; size_t k = 0; bool ok = true; while (s >> t) { ok = ok && k < g.GetN() && vh::close(strtof(t.c_str(), 0), g(k), 1e-7, 0); ++k; } VH_CHECK(ok && k == g.GetN(), "file-plain", "plain ascii values"); }
    g.WriteToFile(f, "HEADER\n", false, en); d = slurp(f); VH_CHECK(d.substr(0, 7) == "HEADER\n" && d.back() == '0', "file-header", "predefined header"); 
    clean();
  }
  // crava file: byte for byte
  if (r.b(0.3)) {
    double p[6]; for (double& x : p) x = r.u(-1000, 1000);
    f = vh::path("c.crava"); g.WriteCravaFile(f, p[0], p[1], p[2], p[3], p[4], p[5]);
    std::string d = slurp(f), e = "crava_fftgrid_binary\n";
    auto D = [&](double v) { uint64_t x; memcpy(&x, &v, 8); for (int i = 7; i >= 0; --i) e += (char)(x >> (8 * i)); };
    auto I = [&](uint32_t x) { for (int i = 3; i >= 0; --i) e += (char)(x >> (8 * i)); };
    D(q.b.x0); D(q.b.y0); D(g.GetDX()); D(g.GetDY()); I(q.nx); I(q.ny); for (double x : p) D(x); D(q.b.ang); I(q.nx); I(q.ny); I(q.nz);
    for (size_t i = 0; i < q.nx; ++i) for (size_t j = 0; j < q.ny; ++j) for (size_t k = 0; k < q.nz; ++k) { float v = g(i, j, k); uint32_t x; memcpy(&x, &v, 4); I(x); }
    VH_CHECK(d == e, "file-crava", "crava file differs (%zu and %zu bytes)", d.size(), e.size());
    clean();
  }
}

static void t_facfile(vh::Rng& r, Cube& q) {
  clean();
  Fac g(*q.v, q.nx, q.ny, q.nz);
  int nf = r.i(1, 5), nb = r.i(1, 6);
  std::vector<std::string> names; std::vector<int> body;
  for (int i = 0; i < nf; ++i) names.push_back("facies" + std::to_string(i * 3));
  for (int i = 0; i < nb; ++i) body.push_back(r.i(0, nf - 1));
  g.SetFaciesNames(names); g.SetBodyFacies(body);
  int miss = r.b() ? -999 : -1; g.SetMissingCode(miss);
  for (int& x : g) x = r.b(0.2) ? miss : r.i(0, nb - 1);
  for (size_t i = 0; i < g.GetN(); ++i) {
    size_t a, b, c; g.GetIJK(i, a, b, c);
    if (g.IsMissing(g(i))) { bool t = false; try { g.GetFaciesFromCell(i); } catch (Exception&) { t = true; } VH_CHECK(t, "facies-missing", "a missing cell has a facies"); }
    else { int fc = g.GetFaciesFromCell(a, b, c); VH_CHECK(fc == body[g(i)] && g.GetFaciesFromCell(i) == fc && g.GetFaciesCode(g(i)) == fc && g.GetFaciesName(fc) == names[fc], "facies-lookup", "facies of cell %zu", i); }
  }
  for (int x : {-1, nb, nb + 3}) { bool t = false; try { g.GetFaciesCode(x); } catch (Exception&) { t = true; } VH_CHECK(t, "facies-range", "body %d of %d accepted", x, nb); }
  for (int x : {-1, nf, nf + 3}) { bool t = false; try { g.GetFaciesName(x); } catch (Exception&) { t = true; } VH_CHECK(t, "facies-name-range", "facies %d of %d accepted", x, nf); }
  bool binary = r.b(); g.SetFormat(binary ? StormFaciesGrid::STORM_BINARY : StormFaciesGrid::STORM_ASCII);
  g.SetZoneNumber(r.i(0, 99)); g.SetModelFileName("m" + std::to_string(r.i(0, 9)));
  Endianess en = r.b(0.7) ? END_BIG_ENDIAN : END_LITTLE_ENDIAN;
  std::string f = vh::path("c.storm");
  g.WriteToFile(f, en);
  Fac h(f, en);
  VH_CHECK(h.GetZoneNumber() == g.GetZoneNumber() && h.GetModelFileName() == g.GetModelFileName() && h.GetMissingCode() == miss && h.GetFormat() == g.GetFormat(), "facies-header", "header");
  same_geometry(q, g, h, "facies cube");
  VH_CHECK(h.GetStorage() == g.GetStorage(), "facies-values", "%s values", binary ? "binary" : "ascii");
  bool ok = true; for (int i = 0; i < nb; ++i) ok = ok && h.GetFaciesCode(i) == body[i]; for (int i = 0; i < nf; ++i) ok = ok && h.GetFaciesName(i) == names[i];
  VH_CHECK(ok, "facies-tables", "bodies or names");
  vh::sig(vh::mix(vh::hd(q.b.y0), q.nx * 31 + q.ny * 7 + q.nz)); vh::stat("facies files");
  if (en == END_BIG_ENDIAN) faults<StormFaciesGrid>(r, q, f, binary);
  clean();
  // inconsistent cubes are refused, on the way out and on the way in
  Fac bad(g); size_t at = r.i(0, g.GetN() - 1); int v = r.pick(std::vector<int>{nb, nb + 1, -2, 1000000}); bad(at) = v;
  bool t = false; try { bad.CheckConsistency(); } catch (Exception&) { t = true; } VH_CHECK(t, "facies-consistency", "body %d of %d accepted", v, nb);
  t = false; try { bad.WriteToFile(f); } catch (Exception&) { t = true; } VH_CHECK(t, "facies-consistency-write", "body %d of %d written", v, nb);
  std::vector<int> bb = body; bb[r.i(0, nb - 1)] = r.b() ? nf : -1; Fac bad2(g); bad2.SetBodyFacies(bb);
  t = false; try { bad2.CheckConsistency(); } catch (Exception&) { t = true; } VH_CHECK(t, "facies-consistency-body", "facies out of range accepted");
  clean();
}

static void t_sgri(vh::Rng& r) {
  clean();
  // written by the library: header tokens and data
  size_t nx = r.i(1, 9), ny = r.i(1, 9), nz = r.i(1, 9);
  double dz = r.pick(std::vector<double>{1, 2, 4, 0.5, 8}), x0 = nice(r, -1000, 6e5), y0 = nice(r, -1000, 6e6), lx = nx * (1 + nice(r, 5, 50)), ly = ny * (1 + nice(r, 5, 50)), z0 = std::floor(r.u(0, 3000)), ang = r.b() ? 0 : r.u(-3, 3);
  Cont g(Volume(x0, y0, z0, lx, ly, nz * dz, ang), nx, ny, nz); for (float& v : g) v = (float)r.u(-9, 9);
  std::string hf = vh::path("c.sgrh"), df = vh::path("c.Sgri");
  g.WriteToSgriFile(df, hf, "label one", dz, END_BIG_ENDIAN);
  { std::ifstream s(hf); std::string l; std::vector<std::string> L; while (std::getline(s, l)) L.push_back(l);
    bool ok = L.size() >= 16 && L[0].substr(0, 6) == "NORSAR" && L[1] == "3" && L[6] == "1" && L[7] == "label one";
    VH_CHECK(ok, "sgri-header", "%zu lines", L.size());
    if (ok) {
      int a, b, c; std::istringstream(L[9]) >> a >> b >> c; VH_CHECK(a == (int)nx && b == (int)ny && c == (int)nz, "sgri-size", "%d %d %d", a, b, c);
      double p, q, t; std::istringstream(L[10]) >> p >> q >> t; VH_CHECK(vh::close(p, lx / nx / 1000, 1e-8, 0) && vh::close(q, ly / ny / 1000, 1e-8, 0) && vh::close(t, dz / 1000, 1e-6, 0), "sgri-step", "%s", L[10].c_str());
      std::istringstream(L[11]) >> p >> q >> t; VH_CHECK(vh::close(p, (x0 + lx / nx / 2) / 1000, 1e-8, 1e-8) && vh::close(q, (y0 + ly / ny / 2) / 1000, 1e-8, 1e-8) && vh::close(t, (z0 + dz / 2) / 1000, 1e-8, 0), "sgri-origin", "%s", L[11].c_str());
      std::istringstream(L[12]) >> p; VH_CHECK(vh::close(p, ang, 1e-8, 1e-12), "sgri-angle", "%s", L[12].c_str());
    }
    std::string d = slurp(df); bool dok = d.size() >= 4 * g.GetN(); for (size_t i = 0; dok && i < g.GetN(); ++i) { unsigned char b[4]; memcpy(b, d.data() + 4 * i, 4); uint32_t x = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; float v; memcpy(&v, &x, 4); dok = v == g(i); }
    VH_CHECK(dok, "sgri-data", "data of the Sgri file"); }
  // written by somebody else, read by the library
  clean();
  double ox = std::floor(r.u(0, 1e5)), oy = std::floor(r.u(0, 1e5)), oz = std::floor(r.u(0, 3000)), sx = r.pick(std::vector<double>{12.5, 25, 50, 1}), sy = r.pick(std::vector<double>{12.5, 25, 50, 1});
  { std::ofstream s(hf); s.precision(12); int ng = r.i(1, 3);
    s << "NORSAR General Grid Format v1.0\n3\nX (m)\nY (m)\nT (ms)\nFFT-grid\n" << ng << "\n"; for (int i = 0; i < ng; ++i) s << "label " << i << "\n";
    s << "1 1 1\n" << nx << " " << ny << " " << nz << "\n" << sx << " " << sy << " " << dz << "\n" << ox << " " << oy << " " << oz << "\n" << ang << " 0\n-999.25\n";
    int nm = r.i(0, 2); if (nm == 0) s << "\n"; else s << "c.Sgri" << (nm == 1 ? "" : "  comment") << "\n";
    s << "0\n"; vh::stat("sgri files read");
    std::ofstream d(df, std::ios::binary); for (float v : g) { uint32_t x; memcpy(&x, &v, 4); for (int i = 3; i >= 0; --i) d.put((char)(x >> (8 * i))); } }
  Cont h(hf);
  VH_CHECK(h.GetNI() == nx && h.GetNJ() == ny && h.GetNK() == nz, "sgri-read-size", "size");
  VH_CHECK(vh::close(h.GetXMin(), ox - sx / 2, 1e-6, 1e-3) && vh::close(h.GetYMin(), oy - sy / 2, 1e-6, 1e-3) && vh::close(h.GetLX(), nx * sx, 1e-6, 0) && vh::close(h.GetLY(), ny * sy, 1e-6, 0) && vh::close(h.GetAngle(), ang, 1e-5, 1e-6), "sgri-read-geometry", "origin %.10g %.10g size %g %g angle %g", h.GetXMin(), h.GetYMin(), h.GetLX(), h.GetLY(), h.GetAngle());
  VH_CHECK(vh::close(h.GetTopSurface().GetZ(0, 0), oz - dz / 2, 1e-6, 1e-3) && vh::close(h.GetBotSurface().GetZ(0, 0), oz + (nz - 0.5) * dz, 1e-6, 1e-3) && vh::close(h.GetLZ(), nz * dz, 1e-5, 0), "sgri-read-z", "z %g %g lz %g", h.GetTopSurface().GetZ(0, 0), h.GetBotSurface().GetZ(0, 0), h.GetLZ());
  VH_CHECK(h.GetStorage() == g.GetStorage() && h.GetMissingCode() == -999.25f, "sgri-read-values", "values");
  std::string d = slurp(df); spit(df, d.substr(0, r.i(0, d.size() - 1))); VH_CHECK(try_read<StormContGrid>(hf) == 0, "sgri-truncated", "truncated data accepted");
  std::remove(df.c_str()); VH_CHECK(try_read<StormContGrid>(hf) == 0, "sgri-nodata", "missing data file accepted");
  clean();
}

int main(int argc, char** argv) {
  return vh::run(argc, argv, [](vh::Rng& r, long, const std::string& m) {
    if (m == "cells") { Cube q; cube(r, q, false); t_volume(r, q); Cont g(*q.v, q.nx, q.ny, q.nz); t_cells(r, q, g, true); t_values(r, q, g); Fac f(*q.v, q.nx, q.ny, q.nz); t_cells(r, q, f, false); }
    else if (m == "grid") { t_grid<float>(r); t_grid<double>(r); t_grid<int>(r); }
    else if (m == "file") { Cube q; cube(r, q, true); if (r.b(0.6)) t_contfile(r, q); else t_facfile(r, q); }
    else t_sgri(r);
  });
}

// P07: correlation functions against a long double oracle; setter histories; PSD.
#include "vh.hpp"
#include "nrlib/exception/exception.hpp"
#include "nrlib/variogram/variogram.hpp"
#include "nrlib/variogram/variogramtypes.hpp"
#include <lapacke.h>
#include <memory>
using namespace NRLib;
typedef long double L;
static const char* TN[] = {"constant", "exponential", "spherical", "gaussian", "general_exponential", "matern32", "matern52", "matern72"};
struct M { int t; double p, r[3], az, dip, sd; };
static Variogram* mk(const M& m) { return Variogram::Create((Variogram::Type)m.t, m.p, m.r[0], m.r[1], m.r[2], m.az, m.dip, m.sd); }
static L c1(const M& m, L d) {
  switch (m.t) {
    case 0: return 1;
    case 1: return expl(-3 * d);
    case 2: return d < 1 ? 1 - 1.5L * d + 0.5L * d * d * d : 0;
    case 3: return expl(-3 * d * d);
    case 4: return expl(-3 * powl(d, m.p));
    case 5: { L s = 4.744L * d; return expl(-s) * (1 + s); }
    case 6: { L s = 5.918L * d; return expl(-s) * (1 + s + s * s / 3); }
    default: { L s = 6.877L * d; return expl(-s) * (1 + s + 0.4L * s * s + s * s * s / 15); }
  }
}
// squared normalised distance, by rotating the lag
static L d2(const M& m, L x, L y, L z) {
  L a = m.az, d = m.dip;
  L u = cosl(a) * cosl(d) * x + sinl(a) * cosl(d) * y + sinl(d) * z;
  L v = -sinl(a) * x + cosl(a) * y;
  L w = -cosl(a) * sinl(d) * x - sinl(a) * sinl(d) * y + cosl(d) * z;
  u /= m.r[0]; v /= m.r[1]; w /= m.r[2];
  return u * u + v * v + w * w;
}
static void bounds(const M& m, double x, double y, double z, double& lo, double& hi) {
  L q = d2(m, x, y, z);
  L rm = std::min(m.r[0], std::min(m.r[1], m.r[2]));
  L e = 1e-13L * ((L)x * x + (L)y * y + (L)z * z) / (rm * rm) + q * 1e-13L;
  L a = sqrtl(std::max((L)0, q - e)), b = sqrtl(q + e);
  hi = (double)(c1(m, a) + 1e-12L); lo = (double)(c1(m, b) - 1e-12L);
}
static double ang(vh::Rng& r) {
  const double pi = 3.14159265358979323846;
  switch (r.i(0, 8)) { case 0: case 1: return 0; case 2: return pi / 2; case 3: return -pi / 2; case 4: return pi; case 5: return 2 * pi; case 6: return pi / 4; default: return r.u(-7, 7); }
}
static M gen(vh::Rng& r) {
  M m; m.t = (int)r.i(0, 7);
  m.p = r.b(.5) ? r.u(0.2, 2.0) : (r.b() ? 1.5 : (r.b() ? 2.0 : 1.0));
  double base = r.logu(1e-4, 1e6), spread = r.b(.15) ? 1e10 : (r.b(.4) ? 1e3 : 8.0);
  for (int i = 0; i < 3; i++) m.r[i] = r.b(.2) ? base : base * r.logu(1 / std::sqrt(spread), std::sqrt(spread));
  m.az = ang(r); m.dip = ang(r); m.sd = r.b() ? 1.0 : r.logu(1e-3, 1e3);
  return m;
}
static std::string ds(const M& m) { return vh::fmt("%s(p=%.6g r=%.9g,%.9g,%.9g az=%.9g dip=%.9g sd=%.6g)", TN[m.t], m.p, m.r[0], m.r[1], m.r[2], m.az, m.dip, m.sd); }

static void lag(vh::Rng& r, const M& m, double* h) {
  int k = (int)r.i(0, 6);
  double s = k == 0 ? r.logu(1e-6, 1e6) : r.logu(0.01, 30);
  h[0] = h[1] = h[2] = 0;
  L R[3][3] = {{cosl(m.az) * cosl(m.dip), sinl(m.az) * cosl(m.dip), sinl(m.dip)}, {-sinl(m.az), cosl(m.az), 0}, {-cosl(m.az) * sinl(m.dip), -sinl(m.az) * sinl(m.dip), cosl(m.dip)}};
  if (k <= 3) {  // along a principal direction, a few ranges
    int q = (int)r.i(0, 2); double t = (r.b() ? 1 : -1) * m.r[q] * (k == 1 ? 1.0 : r.u(0, 3));
    for (int i = 0; i < 3; i++) h[i] = (double)(R[q][i] * t);
  } else if (k == 4) h[r.i(0, 2)] = s * m.r[r.i(0, 2)] * (r.b() ? 1 : -1);
  else for (int i = 0; i < 3; i++) h[i] = s * m.r[i] * r.n();
}

static void agree(const Variogram& v, const M& m, vh::Rng& r, const char* key, int n) {
  double var = m.sd * m.sd;
  for (int q = 0; q < n; q++) {
    double h[3]; lag(r, m, h);
    for (int nd = 1; nd <= 3; nd++) {
      double x = h[0], y = nd > 1 ? h[1] : 0, z = nd > 2 ? h[2] : 0;
      auto C = [&](double s) { return nd == 1 ? v.GetCorr(s * x) : nd == 2 ? v.GetCorr(s * x, s * y) : v.GetCorr(s * x, s * y, s * z); };
      double c = C(1), lo, hi; bounds(m, x, y, z, lo, hi);
      VH_CHECK(c >= lo && c <= hi && c >= 0 && c <= 1 + 1e-12, key, "%s: corr%dD(%.9g,%.9g,%.9g) = %.12g, expected in [%.12g,%.12g]", ds(m).c_str(), nd, x, y, z, c, lo, hi);
      double c2 = C(-1), c3 = v.GetCorr(x, y, z);
      VH_CHECK(std::fabs(c2 - c) <= 1e-12, "not-symmetric", "%s: corr(h)=%.12g corr(-h)=%.12g at (%g,%g,%g)", ds(m).c_str(), c, c2, x, y, z);
      VH_CHECK(std::fabs(c3 - c) <= (hi - lo) + 1e-12, "dimension-mismatch", "%s: corr%dD %.12g, with zeros in 3D %.12g at (%g,%g,%g)", ds(m).c_str(), nd, c, c3, x, y, z);
      double cv = nd == 1 ? v.GetCov(x) : nd == 2 ? v.GetCov(x, y) : v.GetCov(x, y, z), gv = nd == 1 ? v.GetVariogram(x) : nd == 2 ? v.GetVariogram(x, y) : v.GetVariogram(x, y, z);
      VH_CHECK(vh::close(cv, var * c, 1e-12, 0) && vh::close(gv, var * (1 - c), 1e-12, 1e-14 * var), "covariance-or-variogram", "%s: corr %.12g cov %.12g variogram %.12g", ds(m).c_str(), c, cv, gv);
      double px = r.n() * m.r[0], py = r.n() * m.r[1], pz = r.n() * m.r[2];
      double ex = (px + x) - px, ey = (py + y) - py, ez = (pz + z) - pz;
      double k = nd == 1 ? v.GetCorrpoint(px, px + x) : nd == 2 ? v.GetCorrpoint(px, py, px + x, py + y) : v.GetCorrpoint(px, py, pz, px + x, py + y, pz + z);
      double kc = nd == 1 ? v.GetCovpoint(px, px + x) : nd == 2 ? v.GetCovpoint(px, py, px + x, py + y) : v.GetCovpoint(px, py, pz, px + x, py + y, pz + z);
      double ek = nd == 1 ? v.GetCorr(ex) : nd == 2 ? v.GetCorr(ex, ey) : v.GetCorr(ex, ey, ez);
      VH_CHECK(std::fabs(k - ek) <= 1e-12 && vh::close(kc, var * k, 1e-12, 0), "point-version", "%s: %.12g, expected %.12g; covariance %.12g", ds(m).c_str(), k, ek, kc);
      // along the ray: from 1 down
      double last = 1 + 1e-12, tl = 0;
      for (int i = 0; i <= 8; i++) {
        double t = i == 0 ? 0 : std::pow(2.0, i - 5), b = C(t), blo, bhi; bounds(m, t * x, t * y, t * z, blo, bhi);
        VH_CHECK(b <= last + (bhi - blo) + 2e-12 && b >= 0 && b <= 1 + 1e-12, "not-monotone", "%s: corr %.12g at %g lags, %.12g at %g lags of (%g,%g,%g)", ds(m).c_str(), last, tl, b, t, x, y, z);
        if (i == 0) VH_CHECK(std::fabs(b - 1.0) < 1e-12, "zero-lag", "%s: corr(0) = %.17g", ds(m).c_str(), b);
        last = b; tl = t;
      }
      vh::stat("lags_evaluated", 10);
    }
  }
  // about 0.05 at one range along each principal direction
  if (std::max(m.r[0], std::max(m.r[1], m.r[2])) / std::min(m.r[0], std::min(m.r[1], m.r[2])) < 1e4 && m.t != 0)
    for (int q = 0; q < 3; q++) {
      double a = m.az, d = m.dip, t = m.r[q];
      double e[3][3] = {{cos(a) * cos(d), sin(a) * cos(d), sin(d)}, {-sin(a), cos(a), 0}, {-cos(a) * sin(d), -sin(a) * sin(d), cos(d)}};
      double c = v.GetCorr(t * e[q][0], t * e[q][1], t * e[q][2]);
      VH_CHECK(m.t == 2 ? c < 1e-6 : std::fabs(c - 0.05) < 0.0025, "value-at-range", "%s: correlation %.6g at one range in direction %d", ds(m).c_str(), c, q);
    }
}

static void psd(const M& m, const Variogram& v, vh::Rng& r) {
  int n = (int)r.i(5, 26), nd = (int)r.i(1, 3); std::vector<double> p(3 * n);
  double sc = r.logu(0.3, 8);
  bool grid = r.b(.4);
  for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) p[3 * i + k] = k < nd ? (grid ? (double)r.i(0, 6) * 0.25 : r.u(-1, 1)) * m.r[k] * sc : 0;
  std::vector<double> A(n * n), w(n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A[i * n + j] = nd == 1 ? v.GetCorrpoint(p[3 * i], p[3 * j]) : nd == 2 ? v.GetCorrpoint(p[3 * i], p[3 * i + 1], p[3 * j], p[3 * j + 1]) : v.GetCorrpoint(p[3 * i], p[3 * i + 1], p[3 * i + 2], p[3 * j], p[3 * j + 1], p[3 * j + 2]);
  LAPACKE_dsyev(LAPACK_ROW_MAJOR, 'N', 'U', n, A.data(), n, w.data());
  VH_CHECK(w[0] > -1e-7 * n, "not-positive-semidefinite", "%s: smallest eigenvalue %.3g of a %d-point %dD correlation matrix", ds(m).c_str(), w[0], n, nd);
  vh::stat("correlation_matrices");
}

static void hist(vh::Rng& r, long c) {
  M m = gen(r);
  std::unique_ptr<Variogram> v(mk(m));
  std::string h = ds(m);
  int n = (int)r.i(1, 14);
  for (int q = 0; q < n; q++) {
    int op = (int)r.i(0, 11);
    double a = r.logu(1e-3, 1e4), b = r.logu(1e-3, 1e4), d = r.logu(1e-3, 1e4), x = ang(r), y = ang(r);
    bool threw = false, expect = false;
    int bad = r.b(.2) ? (int)r.i(0, 2) : -1; double bv = r.b() ? 0.0 : -r.logu(1e-3, 10);
    try {
      switch (op) {
        case 0: { double z[3] = {a, b, d}; if (bad >= 0) { z[bad] = bv; expect = true; } else for (int i = 0; i < 3; i++) m.r[i] = z[i]; v->SetRanges(z[0], z[1], z[2]); break; }
        case 1: if (bad >= 0) { expect = true; a = bv; } else m.r[0] = a; v->SetRangeX(a); break;
        case 2: if (bad >= 0) { expect = true; a = bv; } else m.r[1] = a; v->SetRangeY(a); break;
        case 3: if (bad >= 0) { expect = true; a = bv; } else m.r[2] = a; v->SetRangeZ(a); break;
        case 4: m.r[0] = std::min(m.r[0], a); v->LimitRangeX(a); break;
        case 5: m.r[1] = std::min(m.r[1], a); v->LimitRangeY(a); break;
        case 6: m.r[2] = std::min(m.r[2], a); v->LimitRangeZ(a); break;
        case 7: m.az = x; m.dip = y; v->SetAngles(x, y); break;
        case 8: m.az = x; m.dip = 0; v->SetAngles(x); break;
        case 9: m.az += x; m.dip += y; v->RotateAngles(x, y); break;
        case 10: m.sd = a; v->SetStdDev(r.b(.3) ? -a : a); break;
        default: {
          // go on with a copy; the original is changed and destroyed
          std::unique_ptr<Variogram> w(v->Clone());
          VH_CHECK(w->GetName() == v->GetName(), "copy-name", "%s / %s", w->GetName().c_str(), v->GetName().c_str());
          v->SetRanges(a, b, d); v->SetAngles(x, y); v->SetStdDev(3 * a);
          if (r.b()) v.swap(w), v->SetRanges(m.r[0], m.r[1], m.r[2]), v->SetAngles(m.az, m.dip), v->SetStdDev(m.sd);
          else v = std::move(w);
        }
      }
    } catch (Exception&) { threw = true; }
    h += vh::fmt(" op%d%s", op, expect ? "(invalid)" : "");
    VH_CHECK(threw == expect, "range-validation", "%s: %s", h.c_str(), threw ? "rejected" : "an invalid range was accepted");
    VH_CHECK(v->GetRangeX() == m.r[0] && v->GetRangeY() == m.r[1] && v->GetRangeZ() == m.r[2] && v->GetAzimuthAngle() == m.az && v->GetDipAngle() == m.dip && vh::close(v->GetStdDev(), m.sd, 1e-12, 0),
             "getters", "%s: ranges %g,%g,%g angles %g,%g sd %g; expected %s", h.c_str(), v->GetRangeX(), v->GetRangeY(), v->GetRangeZ(), v->GetAzimuthAngle(), v->GetDipAngle(), v->GetStdDev(), ds(m).c_str());
    std::unique_ptr<Variogram> f(mk(m));
    for (int i = 0; i < 3; i++) {
      double g[3]; lag(r, m, g);
      double lo, hi; bounds(m, g[0], g[1], g[2], lo, hi);
      double u = v->GetCorr(g[0], g[1], g[2]), w = f->GetCorr(g[0], g[1], g[2]);
      VH_CHECK(std::fabs(u - w) <= 1e-12 + (hi - lo) && u >= lo && u <= hi, "differs-from-fresh", "%s: corr %.12g, constructed anew %.12g, oracle [%.12g,%.12g]", h.c_str(), u, w, lo, hi);
      double p[3] = {g[0], g[1], 0}; bounds(m, g[0], g[1], 0, lo, hi);
      u = v->GetCorr(p[0], p[1]);
      VH_CHECK(u >= lo && u <= hi, "differs-from-fresh", "%s: corr2D %.12g, oracle [%.12g,%.12g]", h.c_str(), u, lo, hi);
      bounds(m, g[0], 0, 0, lo, hi); u = v->GetCorr(g[0]);
      VH_CHECK(u >= lo && u <= hi, "differs-from-fresh", "%s: corr1D %.12g, oracle [%.12g,%.12g]", h.c_str(), u, lo, hi);
    }
    VH_CHECK(vh::close(v->GetCov(0.0), m.sd * m.sd, 1e-12, 0), "variance", "%s: covariance at zero lag %g, sd %g", h.c_str(), v->GetCov(0.0), m.sd);
    vh::stat("setter_operations");
  }
  agree(*v, m, r, "correlation-after-history", 2);
  vh::sig(h);
  if (c < 2) vh::sample(h);
}

int main(int argc, char** argv) {
  return vh::run(argc, argv, [](vh::Rng& r, long c, const std::string& mode) {
    if (mode == "hist") { hist(r, c); return; }
    M m = gen(r);
    std::unique_ptr<Variogram> v(mk(m));
    if (mode == "psd") {
      for (int i = 1; i < 3; i++) m.r[i] = m.r[0] * r.logu(0.1, 10);
      if (m.t == 4 && m.p > 2) m.p = 2;
      v.reset(mk(m));
      for (int i = 0; i < 10; i++) psd(m, *v, r);
    } else {
      agree(*v, m, r, "correlation", 20);
      std::unique_ptr<Variogram> w(v->Clone());
      agree(*w, m, r, "correlation-of-copy", 3);
      // default constructed types
      if (c == 0) {
        GauVario g; ExpVario e; SphVario s; Matern32Vario a; Matern52Vario b; Matern72Vario d; GenExpVario q; ConstVario k;
        const Variogram* z[] = {&k, &e, &s, &g, &q, &a, &b, &d};
        for (int t = 0; t < 8; t++) { M u = {t, 1.0, {1, 1, 1}, 0, 0, 1}; agree(*z[t], u, r, "default-constructed", 10); }
        bool threw = false; try { Variogram::Create(Variogram::N_TYPES); } catch (Exception&) { threw = true; }
        VH_CHECK(threw, "unknown-type-accepted", "Create(N_TYPES)");
      }
    }
    vh::sig(ds(m) + mode);
    if (c < 2) vh::sample(ds(m) + vh::fmt(" corr at half a range: %.6g", v->GetCorr(0.5 * m.r[0])));
  });
}

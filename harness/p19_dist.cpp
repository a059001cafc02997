// P19: probability distributions against boost::math / long double references; draws by
// Kolmogorov-Smirnov monitors and by replay of the generator.
#include "vh.hpp"
#include "nrlib/random/beta.hpp"
#include "nrlib/random/betawithendmass.hpp"
#include "nrlib/random/binomial.hpp"
#include "nrlib/random/chisquared.hpp"
#include "nrlib/random/delta.hpp"
#include "nrlib/random/fractal.hpp"
#include "nrlib/random/functions.hpp"
#include "nrlib/random/gamma.hpp"
#include "nrlib/random/generaldiscrete.hpp"
#include "nrlib/random/lognormal.hpp"
#include "nrlib/random/normal.hpp"
#include "nrlib/random/poisson.hpp"
#include "nrlib/random/splituniform.hpp"
#include "nrlib/random/triangular.hpp"
#include "nrlib/random/uniform.hpp"
#include <algorithm>
#include <boost/math/special_functions/beta.hpp>
#include <boost/math/special_functions/erf.hpp>
#include <boost/math/special_functions/gamma.hpp>
#include <memory>
using namespace NRLib;
typedef long double ld;
typedef std::function<ld(ld)> F;
static const ld PI = 3.14159265358979323846264338327950288L;
static ld Phi(ld z) { return erfcl(-z / sqrtl(2)) / 2; }

struct D {
  std::string name, par;
  std::shared_ptr<Distribution<double>> d;
  F pdf, cdf;
  double lo, hi;            // support
  std::vector<double> kinks;
  double tp = 1e-12, tc = 1e-12, tq = 1e-9;  // relative pdf, absolute cdf, |Cdf(Quantile(p)) - p|
  bool dpdf = true;         // has a density
  double qa = 1e-13, qb = 1 - 1e-13;  // quantiles are defined in [qa, qb]
  bool atoms = false;
  double qtab = 0;          // tabulated: quantile exact only in multiples of this
};

static double sc(vh::Rng& r) { return r.logu(1e-3, 1e4); }
template <class T> static std::shared_ptr<Distribution<double>> via(vh::Rng& r, T a, std::function<void(T&)> set) {
  std::shared_ptr<T> p;
  int how = (int)r.i(0, 2);
  if (how == 0) p.reset(new T(a));
  else if (how == 1) { T b(a); p.reset(static_cast<T*>(b.Clone())); }
  else { p.reset(new T()); if (r.b()) { p->Pdf(.3); p->Cdf(.3); } set(*p); if (r.b()) { std::shared_ptr<T> c(static_cast<T*>(p->Clone())); p = c; } }
  vh::stat(how == 0 ? "constructed" : how == 1 ? "cloned" : "set");
  return p;
}

static D make(vh::Rng& r) {
  D d;
  switch (r.i(0, 10)) {
    case 0: { double m = r.b(.2) ? 0 : r.n() * sc(r), s = r.b(.2) ? 1 : sc(r); bool def = r.b(.1); if (def) { m = 0; s = 1; }
      d.name = "normal"; d.par = vh::fmt("%g %g", m, s);
      d.d = def ? std::shared_ptr<Distribution<double>>(new Normal()) : via<Normal>(r, Normal(m, s), [=](Normal& x) { x.SetParameters(m, s); });
      d.pdf = [=](ld x) { ld z = (x - m) / s; return expl(-z * z / 2) / sqrtl(2 * PI) / s; };
      d.cdf = [=](ld x) { return Phi((x - m) / s); };
      d.lo = -INFINITY; d.hi = INFINITY; d.tp = 1e-9; d.tc = 1e-12; break; }
    case 1: { double m = r.b(.2) ? 0 : r.n() * 2, s = r.b(.2) ? 1 : r.logu(.05, 3); bool def = r.b(.15); if (def) { m = 0; s = 1; }
      d.name = "lognormal"; d.par = vh::fmt("%g %g%s", m, s, def ? " default" : "");
      d.d = def ? std::shared_ptr<Distribution<double>>(new LogNormal()) : via<LogNormal>(r, LogNormal(m, s), [=](LogNormal& x) { x.SetParameters(m, s); });
      d.pdf = [=](ld x) -> ld { if (x <= 0) return 0; ld z = (logl(x) - m) / s; return expl(-z * z / 2) / sqrtl(2 * PI) / s / x; };
      d.cdf = [=](ld x) -> ld { if (x <= 0) return 0; return Phi((logl(x) - m) / s); };
      d.lo = 0; d.hi = INFINITY; d.tp = 1e-9; break; }
    case 2: { double a = r.n() * sc(r), b = a + sc(r); bool def = r.b(.1); if (def) { a = 0; b = 1; }
      d.name = "uniform"; d.par = vh::fmt("%g %g", a, b);
      d.d = def ? std::shared_ptr<Distribution<double>>(new Uniform()) : via<Uniform>(r, Uniform(a, b), [=](Uniform& x) { x.SetParameters(a, b); });
      d.pdf = [=](ld x) -> ld { return x < a || x > b ? 0 : 1 / ((ld)b - a); };
      d.cdf = [=](ld x) -> ld { return x <= a ? 0 : x >= b ? 1 : (x - a) / ((ld)b - a); };
      d.lo = a; d.hi = b; d.tc = 1e-9; d.tp = 1e-8; break; }
    case 3: { double a = r.n() * 100, m = a + r.logu(.01, 100), b = m + r.logu(.01, 100); bool def = r.b(.1); if (def) { a = 0; m = .5; b = 1; }
      d.name = "splituniform"; d.par = vh::fmt("%g %g %g", a, m, b);
      d.d = def ? std::shared_ptr<Distribution<double>>(new SplitUniform()) : via<SplitUniform>(r, SplitUniform(a, m, b), [=](SplitUniform& x) { x.SetParameters(a, m, b); });
      d.pdf = [=](ld x) -> ld { return x < a || x > b ? 0 : x < m ? .5L / ((ld)m - a) : .5L / ((ld)b - m); };
      d.cdf = [=](ld x) -> ld { return x <= a ? 0 : x >= b ? 1 : x <= m ? .5L * (x - a) / ((ld)m - a) : .5L + .5L * (x - m) / ((ld)b - m); };
      d.lo = a; d.hi = b; d.kinks = {m}; d.tc = 1e-9; d.tp = 1e-8; break; }
    case 4: { double a = r.n() * 100, w = r.logu(.01, 100), b = a + w, m = r.b(.15) ? a : r.b(.15) ? b : r.u(a, b); bool def = r.b(.1); if (def) { a = -1; m = 0; b = 1; }
      if (!(m >= a && m <= b)) m = a;
      d.name = "triangular"; d.par = vh::fmt("%g %g %g", a, m, b);
      d.d = def ? std::shared_ptr<Distribution<double>>(new Triangular()) : via<Triangular>(r, Triangular(a, m, b), [=](Triangular& x) { x.SetParameters(a, m, b); });
      ld A = a, M = m, B = b;
      d.pdf = [=](ld x) -> ld { return x < A || x > B ? 0 : x < M ? 2 * (x - A) / (B - A) / (M - A) : x > M ? 2 * (B - x) / (B - A) / (B - M) : 2 / (B - A); };
      d.cdf = [=](ld x) -> ld { return x <= A ? 0 : x >= B ? 1 : x <= M ? (x - A) * (x - A) / (B - A) / (M - A) : 1 - (B - x) * (B - x) / (B - A) / (B - M); };
      d.lo = a; d.hi = b; d.kinks = {m}; d.tc = 1e-9; d.tp = 1e-7; d.tq = 1e-8; break; }
    case 5: { double df = r.b(.3) ? (double)r.i(1, 30) : r.b(.2) ? (double)r.i(150, 900) : r.logu(.3, 150);
      d.name = "chisquared"; d.par = vh::fmt("%g", df);
      if (r.b()) d.d.reset(new ChiSquared(df)); else { ChiSquared c(df); d.d.reset(c.Clone()); }
      d.pdf = [=](ld x) -> ld { if (x < 0) return 0; if (x == 0) return df > 2 ? 0 : df == 2 ? .5L : INFINITY; return expl((df / 2.0L - 1) * logl(x) - x / 2 - df / 2.0L * logl(2) - lgammal(df / 2.0L)); };
      d.cdf = [=](ld x) -> ld { if (x <= 0) return 0; return boost::math::gamma_p((ld)df / 2, x / 2); };
      d.lo = 0; d.hi = INFINITY; d.tp = 1e-10; d.tc = 1e-9; d.tq = 1e-6; d.qa = 1e-6; d.qb = 1 - 1e-6; break; }
    case 6: { double a = r.logu(1e-2, 1e2), b = a * (1 + r.logu(.1, 1e3)), k = r.logu(.2, 4) * (r.b(.2) ? -1 : 1); 
      d.name = "fractal"; d.par = vh::fmt("%g %g %g", a, b, k);
      if (r.b()) d.d.reset(new Fractal(a, b, k)); else { Fractal c(a, b, k); d.d.reset(c.Clone()); }
      ld A = a, B = b, K = k, da = powl(A, -K), db = powl(B, -K);
      d.pdf = [=](ld x) -> ld { return x < A || x > B ? 0 : K / (da - db) * powl(x, -K - 1); };
      d.cdf = [=](ld x) -> ld { return x <= A ? 0 : x >= B ? 1 : (da - powl(x, -K)) / (da - db); };
      d.lo = a; d.hi = b; d.tc = 1e-9; d.tp = 1e-9; d.tq = 1e-8; break; }
    case 7: { double v = r.n() * sc(r); d.name = "delta"; d.par = vh::fmt("%g", v);
      d.d = via<Delta>(r, Delta(v), [=](Delta& x) { x.SetParameters(v); });
      d.pdf = [=](ld x) -> ld { return x == v ? INFINITY : 0; };
      d.cdf = [=](ld x) -> ld { return x >= v ? 1 : 0; };
      d.lo = d.hi = v; d.atoms = true; break; }
    default: {  // tabulated beta, with or without end masses
      double lo = r.n() * 100, hi = lo + r.logu(.01, 100), a = r.b(.2) ? 1 : r.logu(.3, 30), b = r.b(.2) ? 1 : r.logu(.3, 30);
      int nx = r.b(.5) ? 200 : (int)r.i(1, 500); bool em = r.b(.4); double p0 = em ? r.u(0, .5) : 0, p1 = em ? r.u(0, .5) : 0; if (em && r.b(.2)) p0 = 0; if (em && r.b(.2)) p1 = 0;
      d.name = em ? "betaendmass" : "beta"; d.par = vh::fmt("[%.17g,%.17g] a=%g b=%g nx=%d p=%g,%g", lo, hi, a, b, nx, p0, p1);
      if (em) { BetaWithEndMass x = nx == 200 ? BetaWithEndMass(lo, hi, p0, p1, a, b) : BetaWithEndMass(lo, hi, p0, p1, a, b, nx); d.d.reset(r.b() ? x.Clone() : new BetaWithEndMass(x));
        VH_CHECK(x.GetMinVal() == lo && x.GetMaxVal() == hi && vh::close(x.GetInterval(), hi - lo, 1e-12, 0), "beta-limits", "limits %g %g", x.GetMinVal(), x.GetMaxVal()); }
      else { Beta x = nx == 200 ? Beta(lo, hi, a, b) : Beta(lo, hi, a, b, nx); d.d.reset(r.b() ? x.Clone() : new Beta(x));
        VH_CHECK(x.GetMinVal() == lo && x.GetMaxVal() == hi && vh::close(x.GetInterval(), hi - lo, 1e-12, 0), "beta-limits", "limits %g %g", x.GetMinVal(), x.GetMaxVal()); }
      auto W = std::make_shared<std::vector<ld>>(nx + 1, 0.0L); ld s = 0; auto wp = std::make_shared<std::vector<ld>>(nx); std::vector<ld>& w = *wp;
      for (int i = 0; i < nx; i++) { ld t = (i + .5L) / nx; w[i] = expl((a - 1.0L) * logl(t) + (b - 1.0L) * log1pl(-t)); s += w[i]; }
      for (int i = 0; i < nx; i++) (*W)[i + 1] = (*W)[i] + (w[i] /= s);
      ld L = lo, H = hi, c = 1 - (ld)p0 - p1;
      if (a >= 2 && b >= 2 && nx >= 100)   // and the table is that of the beta distribution
        for (int i = 0; i <= nx; i++) { ld t = boost::math::ibeta((ld)a, (ld)b, (ld)i / nx); VH_CHECK(fabsl(t - (*W)[i]) < .02L, "beta-table", "%s", d.par.c_str()); }
      d.pdf = [=](ld x) -> ld { if (em && (x == L || x == H)) return INFINITY; if (x < L || x > H) return 0; int i = std::min((int)((x - L) / (H - L) * nx), nx - 1); return c * (*wp)[i] * nx / (H - L); };
      d.cdf = [=](ld x) -> ld { if (x < L) return 0; if (x >= H) return 1; ld t = (x - L) / (H - L) * nx; int i = std::min((int)t, nx - 1); return p0 + c * ((*W)[i] + (t - i) * ((*W)[i + 1] - (*W)[i])); };
      for (int i = 0; i <= nx; i++) d.kinks.push_back((double)(L + (H - L) * i / nx));
      d.lo = lo; d.hi = hi; d.tc = 1e-8; d.tp = 1e-7; d.atoms = em; d.qtab = 1.0 / nx; break; }
  }
  return d;
}

static void cont(vh::Rng& r) {
  D d = make(r);
  const char* nm = d.name.c_str(); const char* pr = d.par.c_str();
  auto key = [&](const char* k) { return d.name + "-" + k; };
  // arguments: quantiles, limits and their neighbours, kinks, far outside
  std::vector<double> xs;
  auto in = [&](double q) { return d.d->Quantile(q); };
  for (int i = 0; i < 12; i++) xs.push_back(in(r.b(.2) ? std::max(d.qa, r.logu(1e-6, .1)) : r.u(.001, .999)));
  if (std::isfinite(d.lo)) for (double w : {0.0, 1.0, -1.0, 1e-9, -1e-9}) xs.push_back(d.lo + w * (std::fabs(d.lo) + 1));
  if (std::isfinite(d.hi)) for (double w : {0.0, 1.0, -1e-9, 1e-9}) xs.push_back(d.hi + w * (std::fabs(d.hi) + 1));
  if (std::isfinite(d.hi) && std::isfinite(d.lo)) { xs.push_back(std::nextafter(d.hi, d.lo)); xs.push_back(std::nextafter(d.lo, d.hi)); xs.push_back(d.lo - 1e12); xs.push_back(d.hi + 1e12); for (int i = 0; i < 6; i++) xs.push_back(r.u(d.lo, d.hi)); }
  if (d.lo == 0) { xs.push_back(0); xs.push_back(-0.0); xs.push_back(-5); }
  for (size_t i = 0; i < d.kinks.size() && i < 6; i++) xs.push_back(d.kinks[r.i(0, (long)d.kinks.size() - 1)]);
  std::sort(xs.begin(), xs.end());
  double last = -1;
  for (double x : xs) {
    double c = d.d->Cdf(x), p = d.d->Pdf(x); ld C = d.cdf(x);
    bool atk = false; for (double k : d.kinks) if (std::fabs(x - k) <= 1e-9 * (1 + std::fabs(k))) atk = true;
    if (std::isfinite(d.lo) && std::fabs(x - d.lo) <= 1e-9 * (1 + std::fabs(d.lo))) atk = true;
    if (std::isfinite(d.hi) && std::fabs(x - d.hi) <= 1e-9 * (1 + std::fabs(d.hi))) atk = true;
    // the slope of the cdf times the rounding of x
    ld slope = 0; if (d.dpdf) { ld q = d.pdf(x); if (std::isfinite((double)q)) slope = q * fabsl((ld)x) * 1e-14L; }
    if (!(d.atoms && atk && x != d.lo && x != d.hi)) VH_CHECK(fabsl(c - C) <= d.tc + slope + (d.name == "triangular" || d.name == "uniform" || d.name == "splituniform" || d.qtab > 0 ? 1e-13L * fabsl(x) / (d.hi - d.lo) * 50 : 0), key("cdf"), "%s(%s).Cdf(%.17g) = %.15g, is %.15Lg", nm, pr, x, c, C);
    VH_CHECK(c >= 0 && c <= 1 + 1e-12, key("cdf-range"), "%s(%s).Cdf(%.17g) = %.17g", nm, pr, x, c);
    VH_CHECK(c >= last - 1e-12, key("cdf-monotone"), "%s(%s).Cdf(%.17g) = %.17g after %.17g", nm, pr, x, c, last);
    last = std::max(last, c);
    if (x < d.lo) VH_CHECK(c == 0 && p == 0, key("below-support"), "%s(%s) at %.17g: Cdf %g Pdf %g", nm, pr, x, c, p);
    if (x > d.hi) VH_CHECK(c == 1 && p == 0, key("above-support"), "%s(%s) at %.17g: Cdf %g Pdf %g", nm, pr, x, c, p);
    VH_CHECK(!(p < 0) && !std::isnan(p), key("pdf-sign"), "%s(%s).Pdf(%.17g) = %g", nm, pr, x, p);
    ld P = d.pdf(x);
    if (!atk) VH_CHECK((std::isinf(p) && std::isinf((double)P)) || fabsl(p - P) <= d.tp * P + 1e-280L, key("pdf"), "%s(%s).Pdf(%.17g) = %.15g, is %.15Lg", nm, pr, x, p, P);
    vh::sig(vh::mix(vh::hs(d.name + d.par), vh::hd(x)));
  }
  if (d.name == "triangular") for (double x : {d.lo, d.kinks[0], d.hi}) { double p = d.d->Pdf(x); ld P = d.pdf(x); VH_CHECK(fabsl(p - P) <= 1e-7L * P, "triangular-pdf-ends", "triangular(%s).Pdf(%.17g) = %.15g, is %.15Lg", pr, x, p, P); }
  if (d.name == "chisquared") { double p = d.d->Pdf(0); ld P = d.pdf(0); VH_CHECK(vh::close(p, (double)P, 1e-10, 0), "chisquared-pdf0", "chisquared(%s).Pdf(0) = %g is %Lg", pr, p, P); }
  // quantiles
  double lastx = -INFINITY, lastp = 0;
  std::vector<double> ps; for (int i = 0; i < 14; i++) ps.push_back(r.b(.3) ? r.logu(d.qa, .1) : r.b(.3) ? 1 - r.logu(1 - d.qb, .1) : r.u());
  ps.push_back(.5); if (d.qtab > 0) for (int i = 0; i < 10; i++) ps.push_back(r.i(0, (long)std::lround(1 / d.qtab)) * d.qtab);
  if (std::isfinite(d.lo) && d.name != "lognormal" && std::isfinite(d.hi)) { ps.push_back(0); ps.push_back(1); }
  if (d.name == "chisquared") ps.push_back(0);
  for (double& p : ps) p = std::min(1.0, std::max(0.0, p));
  std::sort(ps.begin(), ps.end());
  for (double p : ps) {
    double x = d.d->Quantile(p);
    double eps = 1e-12 * (1 + std::fabs(x));
    VH_CHECK(x >= d.lo - eps && x <= d.hi + eps, key("quantile-support"), "%s(%s).Quantile(%.17g) = %.17g", nm, pr, p, x);
    VH_CHECK(x >= lastx - eps - (d.name == "chisquared" ? 1e-6 * x : 0) , key("quantile-monotone"), "%s(%s).Quantile(%.17g) = %.17g after %.17g at %.17g", nm, pr, p, x, lastx, lastp);
    lastx = x; lastp = p;
    if (p == 0 && d.name != "delta") VH_CHECK(vh::close(x, d.lo, 1e-10, 1e-10), key("quantile-0"), "%s(%s).Quantile(0) = %.17g", nm, pr, x);
    if (p == 1 && d.name != "delta") VH_CHECK(vh::close(x, d.hi, 1e-9, 1e-9), key("quantile-1"), "%s(%s).Quantile(1) = %.17g", nm, pr, x);
    if (p <= 0 || p >= 1) continue;
    ld slope = std::isfinite((double)d.pdf(x)) ? d.pdf(x) * fabsl((ld)x) * 1e-13L : 0;
    if (d.atoms) { double e = 1e-9 * (1 + std::fabs(x)); double tol = 1e-7 + d.qtab; VH_CHECK(d.cdf(x + e) >= p - tol && d.cdf(x - e) <= p + tol, key("quantile"), "%s(%s).Quantile(%.17g) = %.17g, Cdf there %.15g", nm, pr, p, x, d.d->Cdf(x)); 
      if (d.name == "betaendmass") VH_CHECK((x == d.lo) == (d.cdf(d.lo) >= p) || std::fabs((double)d.cdf(d.lo) - p) < 1e-9 || d.qtab > 0, key("quantile-atom"), "%s(%s).Quantile(%.17g) = %.17g", nm, pr, p, x); }
    else {
      // a table is exact in its knots and monotone in between
      bool knot = d.qtab > 0 && std::fabs(p / d.qtab - std::round(p / d.qtab)) < 1e-9;
      double tol = d.qtab > 0 ? (knot ? 1e-7 : d.qtab) : d.tq * std::min(p, 1 - p) + 1e-12;
      double c = d.d->Cdf(x);
      VH_CHECK(fabsl(c - p) <= tol + slope, key("quantile"), "%s(%s).Quantile(%.17g) = %.17g where Cdf = %.17g", nm, pr, p, x, c);
    }
  }
  // draws: from a generator and from the global stream, same seed
  int n = 1500; unsigned seed = (unsigned)r.i(1, 2000000000);
  RandomGenerator g; g.Initialize(seed); Random::Initialize(seed);
  std::vector<double> a; bool same = true; 
  for (int i = 0; i < n; i++) { double x = d.d->Draw(g), y = d.d->Draw(); if (!(x == y)) same = false; a.push_back(x); }
  VH_CHECK(same, key("draw-global"), "%s(%s): the global stream with the same seed gave other draws", nm, pr);
  std::sort(a.begin(), a.end());
  double e = 1e-12 * (1 + std::fabs(a[0]) + std::fabs(a[n - 1]));
  VH_CHECK(a[0] >= d.lo - e && a[n - 1] <= d.hi + e, key("draw-support"), "%s(%s): draws in [%.17g,%.17g]", nm, pr, a[0], a[n - 1]);
  double ks = 0; for (int i = 0; i < n; i++) { double x = a[i], ee = d.atoms ? 1e-9 * (1 + std::fabs(x)) : 0; double c1 = (double)d.cdf(x + ee), c0 = (double)d.cdf(x - ee); ks = std::max(ks, std::max((double)i / n - c1, c0 - (double)(i + 1) / n)); }
  if (d.qtab > 0) ks = std::max(0.0, ks - d.qtab);
  VH_CHECK(ks * std::sqrt((double)n) < 3.3, key("draw-cdf"), "%s(%s): KS distance %.4f of %d draws", nm, pr, ks, n);
  vh::stat("distribution_" + d.name); vh::stat("draws", 2 * n);
  if (d.name == "fractal") {
    Fractal* f = static_cast<Fractal*>(d.d.get()); double ql = r.u(0, .8), qu = ql + r.u(.05, 1 - ql);
    VH_CHECK(f->GetMin() == d.lo, "fractal-min", "%g", f->GetMin());
    for (int w = 0; w < 3; w++) { ld p0 = w == 0 ? qu : w == 1 ? 0 : ql, p1 = w == 0 ? 1 : w == 1 ? ql : qu; if (w == 1 && ql < 1e-3) continue; if (p1 - p0 < 1e-3) continue; std::vector<double> v; for (int i = 0; i < 800; i++) v.push_back(w == 0 ? f->DrawFromUpperQuantile(qu) : w == 1 ? f->DrawFromLowerQuantile(ql) : f->DrawFromMiddleQuantile(ql, qu));
      std::sort(v.begin(), v.end()); double k = 0; for (int i = 0; i < 800; i++) { double c = (double)((d.cdf(v[i]) - p0) / (p1 - p0)); VH_CHECK(c > -1e-6 && c < 1 + 1e-6, "fractal-part-range", "%s part %d: %g at cdf %g", pr, w, v[i], c); k = std::max(k, std::fabs(c - (i + .5) / 800)); }
      VH_CHECK(k * std::sqrt(800.) < 3.4, "fractal-part", "%s part %d [%g,%g]: KS %g", pr, w, ql, qu, k); }
  }
  if (d.name == "normal") { Normal* q = static_cast<Normal*>(d.d.get()); for (int i = 0; i < 8; i++) { double x = in(r.u(.0001, .9999)); ld P = -logl(d.pdf(x)); VH_CHECK(fabsl(q->Potential(x) - P) < 1e-9L * (1 + fabsl(P)), "normal-potential", "Normal(%s).Potential(%g) = %.15g is %.15Lg", pr, x, q->Potential(x), P); } }
  vh::sample(vh::fmt("%s(%s): Cdf(%g)=%.12g, KS of %d draws %.4f", nm, pr, xs[0], d.d->Cdf(xs[0]), n, ks));
}

static void disc(vh::Rng& r) {
  std::shared_ptr<Distribution<int>> d; std::string nm, pr; std::vector<ld> pmf; int top;
  switch (r.i(0, 2)) {
    case 0: { int n = (int)(r.b(.5) ? r.i(0, 20) : r.b(.5) ? r.i(20, 300) : r.i(300, 4000)); double p = r.b(.08) ? 0 : r.b(.08) ? 1 : r.b(.2) ? r.logu(1e-6, .1) : r.b(.2) ? 1 - r.logu(1e-6, .1) : r.u();
      nm = "binomial"; pr = vh::fmt("%d,%.17g", n, p); if (r.b()) d.reset(new Binomial(n, p)); else { Binomial b(n, p); d.reset(b.Clone()); }
      for (int i = 0; i <= n; i++) pmf.push_back(p == 0 ? i == 0 : p == 1 ? i == n : expl(lgammal(n + 1) - lgammal(i + 1) - lgammal(n - i + 1) + i * logl(p) + (n - i) * log1pl(-(ld)p)));
      top = n; break; }
    case 1: { double l = r.b(.3) ? r.logu(.01, 1) : r.b(.5) ? r.u(1, 12) : r.b() ? r.u(12, 90) : r.u(90, 400); nm = "poisson"; pr = vh::fmt("%.17g", l);
      if (r.b()) d.reset(new Poisson(l)); else { Poisson b(l); d.reset(b.Clone()); }
      top = (int)(l + 12 * std::sqrt(l) + 30); for (int i = 0; i <= top; i++) pmf.push_back(expl(i * logl(l) - l - lgammal(i + 1))); break; }
    default: { int n = (int)r.i(1, r.b() ? 5 : 60); std::vector<double> h(n); ld s = 0; for (double& x : h) { x = r.b(.25) ? 0 : r.b() ? r.u(0, 5) : r.logu(1e-6, 1e6); s += x; } if (s == 0) { h[r.i(0, n - 1)] = 2; s = 2; }
      nm = "generaldiscrete"; pr = vh::fmt("%d classes", n); GeneralDiscrete g(h); VH_CHECK(g.GetN() == (size_t)n, "generaldiscrete-size", "%zu", g.GetN()); d.reset(r.b() ? g.Clone() : new GeneralDiscrete(g));
      for (double x : h) pmf.push_back(x / s); top = n - 1; }
  }
  auto key = [&](const char* k) { return nm + "-" + k; };
  const char* n_ = nm.c_str(); const char* p_ = pr.c_str();
  std::vector<ld> cum(pmf.size()); ld s = 0; for (size_t i = 0; i < pmf.size(); i++) cum[i] = s += pmf[i];
  for (int i : {-1, -2, -1000}) { VH_CHECK(d->Pdf(i) == 0, key("pdf-below"), "%s(%s).Pdf(%d) = %g", n_, p_, i, d->Pdf(i)); VH_CHECK(d->Cdf(i) == 0, key("cdf-below"), "%s(%s).Cdf(%d) = %g", n_, p_, i, d->Cdf(i)); }
  for (int i : {top + 1, top + 2, top + 1000}) { if (nm != "poisson") VH_CHECK(d->Pdf(i) == 0, key("pdf-above"), "%s(%s).Pdf(%d) = %g", n_, p_, i, d->Pdf(i)); VH_CHECK(vh::close(d->Cdf(i), 1, 0, 1e-9), key("cdf-above"), "%s(%s).Cdf(%d) = %g", n_, p_, i, d->Cdf(i)); }
  std::vector<int> ks; if (top < 60) for (int i = 0; i <= top; i++) ks.push_back(i); else { for (int i = 0; i < 40; i++) { ld u = r.u(); ks.push_back((int)std::min<size_t>(top, std::lower_bound(cum.begin(), cum.end(), u) - cum.begin())); } for (int i = 0; i < 20; i++) ks.push_back((int)r.i(0, top)); ks.push_back(0); ks.push_back(top); }
  std::sort(ks.begin(), ks.end()); double last = -1;
  for (int k : ks) {
    double p = d->Pdf(k), c = d->Cdf(k);
    VH_CHECK(fabsl(p - pmf[k]) <= 1e-10L * pmf[k] * (1 + top) + 1e-290L, key("pdf"), "%s(%s).Pdf(%d) = %.15g is %.15Lg", n_, p_, k, p, pmf[k]);
    VH_CHECK(fabsl(c - cum[k]) <= 1e-8L, key("cdf"), "%s(%s).Cdf(%d) = %.15g is %.15Lg", n_, p_, k, c, cum[k]);
    VH_CHECK(c >= last - 1e-12, key("cdf-monotone"), "%s(%s).Cdf(%d) = %.17g after %.17g", n_, p_, k, c, last); last = c;
    vh::sig(vh::mix(vh::hs(nm + pr), k));
    if (nm != "generaldiscrete" ? (p > 1e-12 && c < 1 - 1e-12) : p > 1e-12) { int q = d->Quantile(std::min(1.0, c)); VH_CHECK(q == k, key("quantile-of-cdf"), "%s(%s): Quantile(Cdf(%d) = %.17g) = %d", n_, p_, k, c, q); }
  }
  for (int j = 0; j < 20; j++) {
    double u = r.b(.1) ? 0 : r.b(.1) ? 1 : r.b(.3) ? r.logu(1e-8, .5) : r.b(.3) ? 1 - r.logu(1e-8, .5) : r.u();
    if (nm == "poisson" && u > 1 - 1e-7) u = .9999;
    int q = d->Quantile(u);
    VH_CHECK(q >= 0 && q <= top, key("quantile-range"), "%s(%s).Quantile(%.17g) = %d", n_, p_, u, q);
    if (q < 0 || q > top) continue;
    VH_CHECK(cum[q] >= u - 1e-8L, key("quantile-low"), "%s(%s).Quantile(%.17g) = %d, Cdf %.12Lg", n_, p_, u, q, cum[q]);
    if (q > 0) VH_CHECK(cum[q - 1] < u + 1e-8L, key("quantile-high"), "%s(%s).Quantile(%.17g) = %d, Cdf below %.12Lg", n_, p_, u, q, cum[q - 1]);
  }
  if (nm == "binomial") { int q1 = d->Quantile(1.0); VH_CHECK(pmf[q1] > 0 || top > 500, key("quantile-1"), "binomial(%s).Quantile(1) = %d has no probability", p_, q1); }
  int n = 1500; unsigned seed = (unsigned)r.i(1, 2000000000); RandomGenerator g; g.Initialize(seed); Random::Initialize(seed); bool same = true;
  std::vector<long> cnt(top + 1, 0); long out = 0;
  for (int i = 0; i < n; i++) { int x = d->Draw(g), y = d->Draw(); if (x != y) same = false; if (x < 0 || x > top) out++; else cnt[x]++; }
  VH_CHECK(same, key("draw-global"), "%s(%s): the global stream with the same seed gave other draws", n_, p_);
  VH_CHECK(out == 0, key("draw-support"), "%s(%s): %ld draws outside", n_, p_, out);
  double k = 0; long c = 0; for (int i = 0; i <= top; i++) { if (cnt[i]) VH_CHECK(pmf[i] > 1e-12L, key("draw-impossible"), "%s(%s): drew %d of probability %Lg", n_, p_, i, pmf[i]); c += cnt[i]; k = std::max(k, std::fabs((double)c / n - (double)cum[i])); }
  VH_CHECK(k * std::sqrt((double)n) < 3.3, key("draw-cdf"), "%s(%s): KS %g of %d draws", n_, p_, k, n);
  // frequency of each value
  for (int i = 0; i <= top; i++) { double e = n * (double)pmf[i], sd = std::sqrt(e * (1 - (double)pmf[i])); if (e > 30) VH_CHECK(std::fabs(cnt[i] - e) < 6.5 * sd + 1, key("draw-frequency"), "%s(%s): %d drawn %ld times, expected %.1f", n_, p_, i, cnt[i], e); }
  vh::stat("distribution_" + nm); vh::stat("draws", 2 * n);
}

static void trunc(vh::Rng& r) {
  double m = r.b(.3) ? 0 : r.n() * r.logu(1, 1000), s = r.b(.3) ? 1 : r.logu(.01, 100);
  Normal d(m, s); int kind = (int)r.i(0, 2); ld zl = -INFINITY, zu = INFINITY; double lo = -INFINITY, hi = INFINITY;
  if (kind != 1) { lo = m + s * r.u(-5, 4.2); zl = ((ld)lo - m) / s; }
  if (kind != 0) { hi = kind == 2 ? lo + s * (r.b(.3) ? r.logu(1e-4, 1) : r.u(.1, 6)) : m + s * r.u(-4.2, 5); zu = ((ld)hi - m) / s; }
  ld P = zl > 0 ? Phi(-zl) - (std::isinf((double)zu) ? 0 : Phi(-zu)) : Phi(zu) - (std::isinf((double)zl) ? 0 : Phi(zl));
  unsigned seed = (unsigned)r.i(1, 2000000000); RandomGenerator g; g.Initialize(seed); Random::Initialize(seed);
  int n = 400; std::vector<double> a; bool same = true;
  for (int i = 0; i < n; i++) {
    double x = kind == 0 ? d.DrawLowerTruncated(lo, g) : kind == 1 ? d.DrawUpperTruncated(hi, g) : d.DrawTwoSidedTruncated(lo, hi, g);
    double y = kind == 0 ? d.DrawLowerTruncated(lo) : kind == 1 ? d.DrawUpperTruncated(hi) : d.DrawTwoSidedTruncated(lo, hi);
    if (!(x == y)) same = false; a.push_back(x);
  }
  const char* kn[] = {"lower", "upper", "twosided"};
  std::string k = kn[kind];
  VH_CHECK(same, "truncated-global-" + k, "the global stream with the same seed gave other draws");
  std::sort(a.begin(), a.end());
  double e = kind == 1 ? 1e-12 * (std::fabs(m) + std::fabs(hi)) : 0;
  VH_CHECK(a[0] >= lo && a[n - 1] <= hi + e && std::isfinite(a[0]) && std::isfinite(a[n - 1]), "truncated-limits-" + k, "N(%g,%g) truncated to [%.17g,%.17g]: draws in [%.17g,%.17g]", m, s, lo, hi, a[0], a[n - 1]);
  vh::stat("truncated_" + k); vh::stat("draws", 2 * n);
  if (P > 3e-6L) {
    double ks = 0; for (int i = 0; i < n; i++) { ld z = ((ld)a[i] - m) / s; ld c = zl > 0 ? (Phi(-zl) - Phi(-z)) / P : (Phi(z) - (std::isinf((double)zl) ? 0 : Phi(zl))) / P; ks = std::max(ks, std::max((double)i / n - (double)c, (double)c - (double)(i + 1) / n)); }
    VH_CHECK(ks * std::sqrt((double)n) < 3.4, "truncated-cdf-" + k, "N(%g,%g) truncated to [%.17g,%.17g]: KS distance %.4f of %d draws", m, s, lo, hi, ks, n);
    vh::sig(vh::mix(vh::hd(lo), vh::hd(hi)));
  }
  if (P > 1e-5L && kind == 2) { double x = r.u(lo, hi); ld z = ((ld)x - m) / s; ld V = z * z / 2 + logl(2 * PI) / 2 + logl(s) + logl(P); VH_CHECK(fabsl(d.PotentialTwoSidedTruncated(x, lo, hi) - V) < 1e-8L * (1 + fabsl(V)), "truncated-potential", "PotentialTwoSidedTruncated(%g,%g,%g) of N(%g,%g) = %.12g is %.12Lg", x, lo, hi, m, s, d.PotentialTwoSidedTruncated(x, lo, hi), V); }
  if (P > 1e-5L && kind == 0) { double x = std::max(lo, 0.0) + s * r.u(.01, 2); ld z = ((ld)x - m) / s; ld V = z * z / 2 + logl(2 * PI) / 2 + logl(s) + logl(P); VH_CHECK(fabsl(d.PotentialLowerTruncated(x, lo) - V) < 1e-8L * (1 + fabsl(V)), "truncated-potential", "PotentialLowerTruncated(%g,%g) of N(%g,%g) = %.12g is %.12Lg", x, lo, m, s, d.PotentialLowerTruncated(x, lo), V); 
    Normal q(std::fabs(m), s); V = powl(((ld)x - std::fabs(m)) / s, 2) / 2 + logl(2 * PI) / 2 + logl(s) + logl(Phi(std::fabs((ld)m) / s)); VH_CHECK(fabsl(q.PotentialZeroTruncated(x) - V) < 1e-8L * (1 + fabsl(V)), "truncated-potential", "PotentialZeroTruncated(%g) of N(%g,%g)", x, std::fabs(m), s); }
  for (int i = 0; i < 10; i++) { double p = r.b(.3) ? r.logu(1e-15, .5) : r.b(.3) ? 1 - r.logu(1e-15, .5) : r.u(); if (p <= 0 || p >= 1) continue; double x = d.PhiInverse(p); ld z = ((ld)x - m) / s; ld c = p < .5 ? Phi(z) : Phi(-z); ld q = p < .5 ? (ld)p : 1 - (ld)p; 
    VH_CHECK(fabsl(c - q) <= 1e-7L * q * (1 + fabsl(z)) * (1 + 1e-3L / s * (1 + std::fabs(m) * 1e-9)) + 3e-16L, "phi-inverse", "N(%g,%g).PhiInverse(%.17g) = %.17g with probability %.12Lg", m, s, p, x, c); }
  bool thrown = false; try { d.DrawTwoSidedTruncated(1.0, 0.5, g); } catch (NRLib::Exception&) { thrown = true; } VH_CHECK(thrown, "truncated-order", "limits in the wrong order were accepted");
}

static void special(vh::Rng& r) {
  for (int i = 0; i < 40; i++) {
    double z = r.b(.3) ? r.u(-1, 1) : r.b(.5) ? r.u(-6, 6) : r.b() ? r.logu(1e-12, 1) * (r.b() ? 1 : -1) : r.u(-26, 26);
    ld e = erfl(z), c = erfcl(z);
    VH_CHECK(fabsl(NRLib::erf(z) - e) <= 1e-13L * fabsl(e), "erf", "erf(%.17g) = %.17g is %.17Lg", z, NRLib::erf(z), e);
    VH_CHECK(fabsl(NRLib::erfc(z) - c) <= 1e-12L * (1 + z * z) * fabsl(c) + 1e-305L, "erfc", "erfc(%.17g) = %.17g is %.17Lg", z, NRLib::erfc(z), c);
    double p = r.b(.3) ? r.logu(1e-250, 1) : r.b(.3) ? 1 - r.logu(1e-12, 1) : r.u(); double q = r.b() ? p : 2 - p;
    if (q > 0 && q < 2) { double x = NRLib::erfc_inv(q); ld b = boost::math::erfc_inv((ld)q); VH_CHECK(fabsl(x - b) <= 1e-11L * fabsl(b) + 1e-15L, "erfc-inv", "erfc_inv(%.17g) = %.17g is %.17Lg", q, x, b); }
    double t = p * (r.b() ? 1 : -1); if (t > -1 && t < 1) { double x = NRLib::erf_inv(t); ld b = boost::math::erf_inv((ld)t); VH_CHECK(fabsl(x - b) <= 1e-11L * fabsl(b), "erf-inv", "erf_inv(%.17g) = %.17g is %.17Lg", t, x, b); }
    if (p > 0 && p < 1) { double x = Normal::Quantile01(p); ld b = -sqrtl(2) * boost::math::erfc_inv(2 * (ld)p); VH_CHECK(fabsl(x - b) <= 1e-11L * fabsl(b) + 1e-15L, "quantile01", "Quantile01(%.17g) = %.17g is %.17Lg", p, x, b); }
    double a = r.b(.4) ? r.logu(.1, 10) : r.b(.5) ? r.u(1, 99) : r.u(99, 2000);
    ld lg = lgammal(a); VH_CHECK(fabsl(NRLib::gammln(a) - lg) <= 1e-12L * (1 + fabsl(lg)), "gammln", "gammln(%.17g) = %.17g is %.17Lg", a, NRLib::gammln(a), lg);
    double x = a * std::exp(r.n() * (a > 10 ? 3 / std::sqrt(a) : 1)); ld gp = boost::math::gamma_p((ld)a, (ld)x);
    VH_CHECK(fabsl(NRLib::gammp(a, x) - gp) <= 1e-9L, "gammp", "gammp(%.17g,%.17g) = %.17g is %.17Lg", a, x, NRLib::gammp(a, x), gp);
    double u = r.b(.2) ? r.logu(1e-6, .1) : r.b(.2) ? 1 - r.logu(1e-6, .1) : r.u(); if (u > 0 && u < 1) { double iv = NRLib::invgammp(u, a); ld back = boost::math::gamma_p((ld)a, (ld)iv); VH_CHECK(fabsl(back - u) <= 1e-6L * std::min(u, 1 - u) + 1e-9L, "invgammp", "invgammp(%.17g,%.17g) = %.17g where P = %.17Lg", u, a, iv, back); }
    int n = (int)r.i(0, 1000), k = (int)r.i(0, n); ld lb = lgammal(n + 1) - lgammal(k + 1) - lgammal(n - k + 1); ld B = expl(lb); double b = NRLib::bico(n, k); if (B < 1e300L) VH_CHECK(fabsl(b - B) <= 1e-10L * B + .4L, "bico", "bico(%d,%d) = %.17g is %.17Lg", n, k, b, B);
    vh::sig(vh::hd(z)); vh::sig(vh::hd(a));
  }
  int bad = 0; for (double z : {-1.0, 1.0, 2.0}) { try { NRLib::erf_inv(z); bad++; } catch (NRLib::Exception&) {} } for (double z : {0.0, 2.0, -1.0}) { try { NRLib::erfc_inv(z); bad++; } catch (NRLib::Exception&) {} }
  VH_CHECK(bad == 0, "inverse-domain", "%d arguments outside the domain were accepted", bad);
}

int main(int c, char** v) {
  return vh::run(c, v, [](vh::Rng& r, long, const std::string& m) { if (m == "cont") cont(r); else if (m == "disc") disc(r); else if (m == "trunc") trunc(r); else special(r); });
}

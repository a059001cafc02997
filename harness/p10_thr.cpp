// P10: threads with their own generators or variograms do not influence each other.
#include "vh.hpp"
#include "nrlib/exception/exception.hpp"
#include "nrlib/fft/fft.hpp"
#include "nrlib/fft/fftgrid2d.hpp"
#include "nrlib/fft/fftgrid3d.hpp"
#include "nrlib/grid/grid.hpp"
#include "nrlib/grid/grid2d.hpp"
#include "nrlib/random/beta.hpp"
#include "nrlib/random/betawithendmass.hpp"
#include "nrlib/random/binomial.hpp"
#include "nrlib/random/chisquared.hpp"
#include "nrlib/random/lognormal.hpp"
#include "nrlib/random/normal.hpp"
#include "nrlib/random/poisson.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include "nrlib/random/triangular.hpp"
#include "nrlib/variogram/gaussianfield.hpp"
#include "nrlib/variogram/variogram.hpp"
#include <atomic>
#include <memory>
#include <thread>
using namespace NRLib;
typedef std::vector<double> VD;
typedef std::unique_ptr<Variogram> PV;

static PV mkvar(vh::Rng& r, double rmax) {
  Variogram::Type ty[] = {Variogram::GAUSSIAN, Variogram::EXPONENTIAL, Variogram::GENERAL_EXPONENTIAL, Variogram::SPHERICAL, Variogram::MATERN32, Variogram::MATERN52, Variogram::MATERN72};
  return PV(Variogram::Create(ty[r.i(0, 6)], r.u(1, 1.9), r.u(0.5, rmax), r.u(0.5, rmax), r.u(0.5, rmax), r.b() ? 0 : r.u(0, 3), r.b() ? 0 : r.u(0, 1.5), r.u(0.5, 2)));
}

// One operation, fully determined by its own seed; v is shared between threads and never modified.
static VD op(uint64_t seed, const Variogram& shared, bool global, int& kind) {
  vh::Rng r(seed); VD o;
  kind = global ? (r.b(0.7) ? 4 : 8) : r.pick(std::vector<int>{0, 0, 1, 1, 1, 2, 2, 3, 5, 6, 6, 7, 9});
  PV own = mkvar(r, 4); const Variogram& v = r.b() ? shared : *own;
  switch (kind) {
    case 0: { size_t n = r.i(1, 60); RandomGenerator g(r.i(0, 1 << 30)); int rep = r.i(1, 2); for (int k = 0; k < rep; ++k) { VD f(n); Simulate1DGaussianField(v, n, r.u(0.5, 2), f, &g, r.b() ? -1 : (int)r.i(0, 10), r.b() ? 1.0 : 0.5); o.insert(o.end(), f.begin(), f.end()); } break; }
    case 1: { size_t nx = r.i(1, 12), ny = r.i(1, 12); RandomGenerator g(r.i(0, 1 << 30)); std::vector<Grid2D<double>> gs; int px = r.b() ? -1 : (int)r.i(0, 5), py = r.b() ? -1 : (int)r.i(0, 5); Simulate2DGaussianField(v, nx, r.u(0.7, 2), ny, r.u(0.7, 2), r.i(1, 2), gs, &g, px, py, r.b() ? 1 : 0.3, r.b() ? 1 : 0.3); for (auto& x : gs) for (size_t i = 0; i < x.GetN(); ++i) o.push_back(x(i)); break; }
    case 2: for (int k = 0; k < 20; ++k) { double x = r.u(-5, 5), y = r.u(-5, 5), z = r.u(-5, 5); o.push_back(v.GetCorr(x)); o.push_back(v.GetCorr(x, y)); o.push_back(v.GetCorr(x, y, z)); o.push_back(v.GetCov(x, y, z)); o.push_back(v.GetVariogram(x, y)); } break;
    case 3: { PV c(v.Clone()); c->SetAngles(r.u(0, 3), r.u(0, 1)); c->SetRangeX(r.u(1, 9)); c->SetRanges(r.u(1, 9), r.u(1, 9), r.u(1, 9)); c->SetStdDev(r.u(1, 2)); if (r.b()) try { c->SetRangeY(-1); } catch (Exception&) { o.push_back(1); } for (int k = 0; k < 5; ++k) o.push_back(c->GetCov(r.u(-5, 5), r.u(-5, 5), r.u(-5, 5))); for (size_t p : FindNDimPadding(*c, r.i(1, 50), 1.0, r.i(1, 50), 2.0, r.i(1, 50), 0.5)) o.push_back((double)p); break; }
    case 4: { Random::Initialize(r.i(0, 1 << 30)); std::vector<Grid<double>> gs; Simulate3DGaussianField(v, r.i(2, 5), 1.5, r.i(2, 5), 1.5, r.i(2, 5), 2.0, r.i(1, 2), gs, 2, 2, 2); for (auto& x : gs) for (size_t i = 0; i < x.GetN(); ++i) o.push_back(x(i)); o.push_back(Random::Norm01()); break; }
    case 5: { size_t n = r.i(1, 40); VD x(n); for (double& q : x) q = r.n(); std::vector<std::complex<double>> X; bool s = r.b(); ComputeFFT1D(x, X, s, (int)r.i(-1, 4)); VD y(n); ComputeFFTInv1D(X, y, s); for (auto& c : X) { o.push_back(c.real()); o.push_back(c.imag()); } o.insert(o.end(), y.begin(), y.end()); o.push_back((double)FindNewSizeWithPadding(r.i(1, 5000))); break; }
    case 6: { RandomGenerator g(r.i(0, 1 << 30)); double a = r.u(0.5, 5), b = r.u(0.5, 5); Beta be(0, 2, a, b); ChiSquared ch((int)r.i(1, 9)); Normal no(a, b); LogNormal ln(a * 0.1, b * 0.1); Triangular tr(0, 1, 3); Binomial bi((int)r.i(1, 20), 0.3); Poisson po(a);
      for (int k = 0; k < 4; ++k) { o.push_back(be.Draw(g)); o.push_back(ch.Draw(g)); o.push_back(no.Draw(g)); o.push_back(ln.Draw(g)); o.push_back(tr.Draw(g)); o.push_back(bi.Draw(g)); o.push_back(po.Draw(g)); double q = r.u(0.05, 0.95); o.push_back(ch.Quantile(q)); o.push_back(ch.Cdf(r.u(0, 12))); o.push_back(no.Quantile(q)); o.push_back(be.Quantile(q)); } break; }
    case 7: { RandomGenerator g(r.i(0, 1 << 30)); for (int k = 0; k < 500; ++k) { o.push_back(g.Norm01()); o.push_back(g.Unif01()); o.push_back(g.Unif01Open()); o.push_back(g.DrawUint32()); } o.push_back(g.GetStartSeed()); break; }
    case 8: { unsigned long s = r.i(0, 1 << 30); Random::Initialize(s); for (int k = 0; k < 50; ++k) { o.push_back(Random::Norm01()); o.push_back(Random::Unif01()); } VD f(9); Simulate1DGaussianField(v, 9, 1, f); o.insert(o.end(), f.begin(), f.end()); std::vector<Grid2D<double>> gs; Simulate2DGaussianField(v, 5, 1, 4, 1, 1, gs); for (size_t i = 0; i < gs[0].GetN(); ++i) o.push_back(gs[0](i)); o.push_back(Random::GetStartSeed()); break; }
    default: { size_t a = r.i(1, 6), b = r.i(1, 6), c = r.i(1, 6); Grid<double> q(a, b, c); for (size_t i = 0; i < q.GetN(); ++i) q(i) = r.n(); FFTGrid3D<double> f(a, b, c, r.i(0, 2), r.i(0, 2), r.i(0, 2), r.b()); size_t A = f.GetNItot(), B = f.GetNJtot(), C = f.GetNKtot(); Grid<double> in(A, B, C); for (size_t i = 0; i < in.GetN(); ++i) in(i) = r.n(); f.Initialize(in); f.DoFFT(); f.DoInverseFFT(); Grid<double> out = f.GetRealGrid(); for (size_t i = 0; i < out.GetN(); ++i) o.push_back(out(i)); }
  }
  return o;
}

static void cs(vh::Rng& r, long c, const std::string&) {
  int nt = r.i(2, 6), no = r.i(3, 8); PV shared = mkvar(r, 4);
  bool withglobal = r.b(0.6), ref_first = c % 2;
  std::vector<std::vector<uint64_t>> seeds(nt); std::vector<std::vector<int>> delay(nt);
  uint64_t common = r.next();
  for (int t = 0; t < nt; ++t) for (int k = 0; k < no; ++k) { seeds[t].push_back(r.b(0.4) && !(withglobal && t == 0) ? common + k : r.next()); delay[t].push_back(r.b(0.3) ? (int)r.i(1, 300) : 0); }
  std::vector<std::vector<VD>> got(nt, std::vector<VD>(no)), ref = got; std::vector<std::vector<int>> kinds(nt, std::vector<int>(no));
  auto serial = [&] { for (int t = 0; t < nt; ++t) for (int k = 0; k < no; ++k) { int kd; ref[t][k] = op(seeds[t][k], *shared, withglobal && t == 0, kd); } };
  if (ref_first) serial();
  std::atomic<int> ready(0), active(0), overlap(0); std::vector<std::thread> th; std::vector<std::string> err(nt);
  for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
    ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
    try { for (int k = 0; k < no; ++k) { if (delay[t][k]) usleep(delay[t][k]); if (active.fetch_add(1, std::memory_order_relaxed) > 0) overlap.fetch_add(1, std::memory_order_relaxed); got[t][k] = op(seeds[t][k], *shared, withglobal && t == 0, kinds[t][k]); active.fetch_sub(1, std::memory_order_relaxed); } }
    catch (std::exception& e) { err[t] = e.what(); }
  });
  for (auto& t : th) t.join();
  if (!ref_first) serial();
  uint64_t h = 0;
  for (int t = 0; t < nt; ++t) {
    VH_CHECK(err[t].empty(), "thread-exception", "a thread failed with: %s", err[t].c_str());
    for (int k = 0; k < no; ++k) {
      const VD &a = got[t][k], &b = ref[t][k]; h = vh::mix(h, kinds[t][k] * 7 + t);
      VH_CHECK(a.size() == b.size(), "thread-size", "operation %d gave %zu values, alone %zu", kinds[t][k], a.size(), b.size()); if (a.size() != b.size()) continue;
      double mx = 0, d = 0; size_t at = 0; for (size_t i = 0; i < a.size(); ++i) { mx = std::max(mx, std::fabs(b[i])); double e = std::fabs(a[i] - b[i]); if (!(e <= d)) { d = e; at = i; } }
      VH_CHECK(d <= 1e-9 * std::max(mx, 1e-3), "thread-result", "operation %d in thread %d of %d: value %zu is %.12g, alone %.12g", kinds[t][k], t, nt, at, a[at], b[at]);
      vh::stat("op" + std::to_string(kinds[t][k]));
    }
  }
  vh::stat("operations overlapping another thread's", overlap.load()); vh::sig(vh::mix(h, overlap.load()));
}

int main(int argc, char** argv) { return vh::run(argc, argv, cs); }

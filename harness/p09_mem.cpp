// P09: random histories of simulation calls under ASan/UBSan/LSan (or valgrind);
// prints a digest of the results so that runs under different fill patterns compare.
#include "vh.hpp"
#include "nrlib/fft/fftgrid2d.hpp"
#include "nrlib/fft/fftgrid3d.hpp"
#include "nrlib/grid/grid.hpp"
#include "nrlib/grid/grid2d.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include "nrlib/variogram/gaussianfield.hpp"
#include "nrlib/variogram/fftcovgrid.hpp"
#include "nrlib/variogram/variogram.hpp"
#include <malloc.h>
#include <memory>
using namespace NRLib;
static Variogram* gen(vh::Rng& r, double* rg) {
  static const double A[] = {0, 0, 1.5707963267948966, 0.7, -1.1, 3.14159265358979};
  for (int i = 0; i < 3; i++) rg[i] = r.b(.1) ? r.logu(1e-8, 1e-3) : r.logu(0.3, 6);
  return Variogram::Create((Variogram::Type)r.i(0, 7), r.u(0.8, 2.0), rg[0], rg[1], rg[2], A[r.i(0, 5)], A[r.i(0, 5)], r.b() ? 1.0 : r.u(0.1, 3));
}
static void use(const std::vector<double>& f, uint64_t& dig, const char* what) {
  for (double x : f) { VH_CHECK(std::isfinite(x), "not-finite", "%s", what); dig = vh::mix(dig, vh::hd(x)); }
}
static uint64_t hist(vh::Rng& r, int small) {
  uint64_t dig = 1; int n = (int)r.i(1, small ? 3 : 8);
  std::unique_ptr<Variogram> v; double rg[3];
  RandomGenerator own; own.Initialize((unsigned long)r.i(0, 100000));
  for (int q = 0; q < n; q++) {
    if (!v || r.b()) v.reset(gen(r, rg));
    int op = (int)r.i(0, 6);
    size_t nx = r.i(1, 12), ny = r.i(1, 8), nz = r.i(1, 5);
    double dx = r.logu(0.3, 3), dy = r.logu(0.3, 3), dz = r.logu(0.3, 3);
    int px = (int)r.i(-1, 5), py = (int)r.i(-1, 5), pz = (int)r.i(-1, 5); if (r.b(.3)) px = py = pz = -1; if (r.b(.2)) px = py = pz = 0;
    double sx = r.b() ? 1 : r.u(0.01, 1), sy = r.b() ? 1 : r.u(0.01, 1), sz = r.b() ? 1 : r.u(0.01, 1);
    RandomGenerator* g = r.b() ? &own : NULL; int nf = (int)r.i(1, 3);
    if (r.b(.4)) Random::Initialize((unsigned long)r.i(0, 4294967295L));
    std::string what = vh::fmt("op %d n=%zu,%zu,%zu d=%g,%g,%g pad=%d,%d,%d s=%g,%g,%g ranges %g,%g,%g", op, nx, ny, nz, dx, dy, dz, px, py, pz, sx, sy, sz, rg[0], rg[1], rg[2]);
    if (op == 0) { std::vector<double> f; size_t extra = r.b(.4) ? r.i(1, r.b() ? 20 : 4000) : 0; f.reserve(nx + extra); f.resize(nx + extra, 123.5); f.resize(nx, -1); Simulate1DGaussianField(*v, nx, dx, f, g, px, sx); VH_CHECK(f.size() == nx, "field-size", "%s", what.c_str()); if (extra) { size_t cap = f.capacity(); f.resize(nx); const double* p = f.data(); for (size_t k = nx; k < nx + extra && k < cap; ++k) VH_CHECK(p[k] == 123.5, "beyond-the-field", "%s: element %zu of the caller's buffer was written", what.c_str(), k); } use(f, dig, what.c_str()); }
    else if (op == 1) { std::vector<Grid2D<double> > f; if (r.b(.2)) f.resize(1, Grid2D<double>(2, 2, 0.0)); size_t b = f.size(); if (r.b()) f.reserve(b + r.i(0, 6)); Simulate2DGaussianField(*v, nx, dx, ny, dy, nf, f, g, px, py, sx, sy);
      VH_CHECK(f.size() == b + nf, "number-of-fields", "%zu", f.size()); for (size_t i = b; i < f.size(); i++) { VH_CHECK(f[i].GetN() == nx * ny, "field-size", "%s", what.c_str()); use(f[i].GetStorage(), dig, what.c_str()); } }
    else if (op == 2) { std::vector<Grid<double> > f; if (r.b()) f.reserve(r.i(0, 6)); Simulate3DGaussianField(*v, nx, dx, ny, dy, nz, dz, nf, f, px, py, pz, sx, sy, sz); VH_CHECK(f.size() == (size_t)nf, "number-of-fields", "%zu", f.size());
      for (auto& x : f) { VH_CHECK(x.GetN() == nx * ny * nz, "field-size", "%s", what.c_str()); use(x.GetStorage(), dig, what.c_str()); } }
    else if (op == 3) { Grid2D<double> f; if (r.b()) f.Resize(r.i(0, 20), r.i(0, 20), -1.0); Simulate2DGaussianField(*v, nx, dx, ny, dy, f); use(f.GetStorage(), dig, what.c_str()); }
    else if (op == 4) { std::vector<size_t> p = FindNDimPadding(*v, nx, dx, ny, dy, nz, dz); for (size_t x : p) dig = vh::mix(dig, x); }
    else if (op == 5) { use(FFTCovGrid1D(*v, (int)nx, dx, sx).GetCov(), dig, what.c_str()); use(FFTCovGrid2D(*v, (int)nx, dx, (int)ny, dy, sx, sy).GetCov().GetStorage(), dig, what.c_str()); use(FFTCovGrid3D(*v, (int)nx, dx, (int)ny, dy, (int)nz, dz, sx, sy, sz).GetCov().GetStorage(), dig, what.c_str()); }
    else { std::unique_ptr<Variogram> c(v->Clone()); v.swap(c); FindGaussianFieldPadding(*v, nx, r.logu(1, 1e9), r.logu(1e-9, 1)); RandomGenerator h(own); for (int i = 0; i < 50; i++) dig = vh::mix(dig, vh::hd(h.Norm01())); own = h; }
    vh::stat("calls"); vh::sig(vh::fmt("%d/%zu/%zu/%zu/%d%d%d", op, nx, ny, nz, px, py, pz));
  }
  return dig;
}
int main(int argc, char** argv) {
  return vh::run(argc, argv, [](vh::Rng& r, long c, const std::string& mode) {
    if (mode == "bytes") {
      // the same history again and again: the heap in use must not grow
      vh::Rng r0 = r; size_t used[4]; long n = 12;
      int k = 0;
      for (long i = 0; i < 4 * n; i++) { vh::Rng q = r0; hist(q, 1); if (i % n == n - 1) used[k++] = mallinfo2().uordblks; }
      VH_CHECK(used[3] < used[2] + 8 * n || used[2] < used[1] + 8 * n, "heap-grows", "%zu -> %zu -> %zu -> %zu bytes in use after equal histories", used[0], used[1], used[2], used[3]);
      return;
    }
    uint64_t d = hist(r, mode == "vg");
    if (mode == "digest") { printf("X\tdigest %ld %lx\n", c, (unsigned long)d); }
    if (c < 2 && mode != "digest") vh::sample(vh::fmt("history %ld digest %lx", c, (unsigned long)d));
  });
}

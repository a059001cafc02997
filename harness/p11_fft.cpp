// P11: transforms against the DFT definition (long double), inversion, convolution.
#include "vh.hpp"
#include "nrlib/fft/fft.hpp"
#include "nrlib/fft/fftgrid2d.hpp"
#include "nrlib/fft/fftgrid3d.hpp"
#include "nrlib/grid/grid.hpp"
#include "nrlib/grid/grid2d.hpp"
#include <algorithm>
#include <list>
using namespace NRLib;
typedef long double L;
typedef std::complex<long double> CL;
static size_t smooth(size_t n, bool even) {
  for (size_t x = std::max<size_t>(n, even ? 2 : 1);; x++) {
    if (even && x % 2) continue;
    size_t y = x; for (size_t p : {2, 3, 5, 7}) while (y % p == 0) y /= p;
    if (y == 1) return x;
  }
}
// DFT along one axis of an n0 x n1 x n2 array (first index fastest)
static void dft_axis(std::vector<CL>& a, size_t n0, size_t n1, size_t n2, int ax, int sign) {
  size_t n[3] = {n0, n1, n2}, st[3] = {1, n0, n0 * n1}, N = n[ax], s = st[ax];
  std::vector<CL> w(N), t(N);
  for (size_t k = 0; k < N; k++) w[k] = std::polar((L)1, sign * 2 * 3.14159265358979323846264338327950288L * (L)k / (L)N);
  for (size_t b = 0; b < a.size(); b++) {
    if ((b / s) % N) continue;
    for (size_t k = 0; k < N; k++) { CL q = 0; for (size_t j = 0; j < N; j++) q += a[b + j * s] * w[(j * k) % N]; t[k] = q; }
    for (size_t k = 0; k < N; k++) a[b + k * s] = t[k];
  }
}
static std::vector<CL> dft(std::vector<CL> a, size_t n0, size_t n1, size_t n2, int sign = -1) { for (int x = 0; x < 3; x++) dft_axis(a, n0, n1, n2, x, sign); return a; }
static double scale_of(vh::Rng& r) { return r.b(.3) ? r.logu(1e-6, 1e6) : 1.0; }

static void one(vh::Rng& r, long c) {
  size_t n = c < 60 ? c + 1 : r.i(1, r.b(.1) ? 400 : 90);
  double sc = scale_of(r); bool sf = r.b(); int pad = (int)(r.b(.4) ? 0 : r.b(.4) ? -1 : r.i(1, 60));
  std::vector<double> x(n); for (auto& v : x) v = r.n() * sc;
  if (r.b(.1)) { std::fill(x.begin(), x.end(), 0.0); x[r.i(0, n - 1)] = sc; }
  double mx = 0; for (double v : x) mx = std::max(mx, std::fabs(v));
  std::vector<std::complex<double> > X;
  if (r.b(.3)) { std::list<double> l(x.begin(), x.end()); ComputeFFT1D(l, X, sf, pad); }
  else if (r.b(.3)) ComputeFFT1D(x.begin(), x.end(), X, sf, pad);
  else if (pad == -1 && r.b()) ComputeFFT1D(x, X, sf);
  else ComputeFFT1D(x, X, sf, pad);
  size_t want = pad == 0 ? n : smooth(n + (pad < 0 ? n : pad), false), N = X.size();
  if (X.size() != want) { vh::viol("transform-size", vh::fmt("1D n=%zu padding %d: %zu coefficients, expected %zu", n, pad, X.size(), want)); return; }
  L f = sf ? 1 / sqrtl((L)N) : 1, tol = 1e-12L * mx * N * f + 1e-300L;
  std::vector<CL> a(N); for (size_t i = 0; i < N; i++) a[i] = CL(X[i].real(), X[i].imag());
  std::vector<CL> b = dft(a, N, 1, 1, +1);
  L e = 0, im = 0; size_t where = 0;
  for (size_t i = 0; i < N; i++) {
    L re = b[i].real() / N / f; im = std::max(im, std::fabs(b[i].imag()) / N / f);
    if (i < n) { if (std::fabs(re - x[i]) > e) { e = std::fabs(re - x[i]); where = i; } }
    else { double lo = std::min(x[0], x[n - 1]), hi = std::max(x[0], x[n - 1]); VH_CHECK(re > lo - 1e-11 * mx && re < hi + 1e-11 * mx, "padding-values", "1D n=%zu padding %d: padded cell %zu is %.9Lg, between %.9g and %.9g expected", n, pad, i, re, x[0], x[n - 1]); }
  }
  VH_CHECK(e <= 1e-12L * mx * (N + 10), "not-the-dft", "1D n=%zu padding %d scale %d: the transform belongs to data that differ by %.3Lg at %zu", n, pad, sf, e, where);
  VH_CHECK(im <= 1e-12L * mx * (N + 10), "not-the-dft", "1D n=%zu padding %d scale %d: spectrum of data with imaginary part %.3Lg", n, pad, sf, im);
  if (pad == 0) {
    std::vector<CL> d(n); for (size_t i = 0; i < n; i++) d[i] = x[i];
    d = dft(d, n, 1, 1); L q = 0; for (size_t i = 0; i < n; i++) q = std::max(q, std::abs(d[i] * f - a[i]));
    VH_CHECK(q <= tol * 10, "not-the-dft", "1D n=%zu scale %d: coefficients differ by %.3Lg", n, sf, q);
  }
  // inverse into a container of the original size, of the full size, and a list
  std::vector<std::complex<double> > Y(X);
  for (int m = 0; m < 3; m++) {
    std::vector<double> y(m == 1 ? N : n, 99.0);
    if (m == 2) { std::list<double> l(n, 99.0); ComputeFFTInv1D(X, l, sf); y.assign(l.begin(), l.end()); }
    else if (m == 1) ComputeFFTInv1D(X, y.begin(), y.end(), sf);
    else ComputeFFTInv1D(X, y, sf);
    double d = 0; for (size_t i = 0; i < n; i++) d = std::max(d, std::fabs(y[i] - x[i]));
    VH_CHECK(d <= 1e-12 * mx * (10 + std::sqrt((double)N)), "inverse", "1D n=%zu padding %d scale %d: inverse differs by %.3g", n, pad, sf, d);
  }
  VH_CHECK(X == Y, "spectrum-modified", "1D n=%zu: the inverse changed its argument", n);
  vh::stat("transforms_1d"); vh::sig(vh::fmt("1/%zu/%d/%d", n, pad, sf));
  if (c < 2) vh::sample(vh::fmt("1D n=%zu padding=%d total=%zu scale_forward=%d: max error %.2Lg", n, pad, N, sf, e));
}

template <typename T> static void two(vh::Rng& r, long c, double eps) {
  size_t ni = r.i(1, 13), nj = r.i(1, 13), pi = r.i(0, 6), pj = r.i(0, 6); bool sf = r.b(); double sc = eps > 1e-10 ? 1.0 : scale_of(r);
  FFTGrid2D<T> g(ni, nj, pi, pj, sf);
  size_t a = g.GetNItot(), b = g.GetNJtot(), N = a * b;
  VH_CHECK(a == smooth(ni + pi, true) && b == smooth(nj + pj, false), "grid-size", "2D %zux%zu + %zux%zu: %zux%zu", ni, nj, pi, pj, a, b);
  VH_CHECK(g.GetRealNI() == ni && g.GetRealNJ() == nj && g.GetComplexNI() == a / 2 + 1 && g.GetComplexNJ() == b, "grid-size", "2D complex size");
  if (a < ni || b < nj) return;
  for (size_t i = 0; i < ni; i++) for (size_t j = 0; j < nj; j++) VH_CHECK(g.Real(i, j) == 0, "not-zero-initialised", "2D");
  Grid2D<T> x(a, b); std::vector<CL> d(N);
  for (size_t j = 0; j < b; j++) for (size_t i = 0; i < a; i++) { x(i, j) = (T)(r.n() * sc); d[i + j * a] = (L)x(i, j); }
  std::vector<CL> F = dft(d, a, b, 1);
  L f = sf ? 1 / sqrtl((L)N) : 1, tol = eps * sc * N * f * 4;
  for (int rep = 0; rep < 2; rep++) {
    g.Initialize(x);
    if (rep == 0) for (size_t i = 0; i < ni; i++) for (size_t j = 0; j < nj; j++) VH_CHECK(g.Real(i, j) == x(i, j), "initialize", "2D (%zu,%zu)", i, j);
    g.DoFFT();
    L e = 0; for (size_t j = 0; j < b; j++) for (size_t i = 0; i < a / 2 + 1; i++) { CL q(g.Complex(i, j).real(), g.Complex(i, j).imag()); e = std::max(e, std::abs(q - F[i + j * a] * f)); }
    VH_CHECK(e <= tol, "not-the-dft", "2D %zux%zu (%zux%zu) scale %d: coefficients differ by %.3Lg", a, b, ni, nj, sf, e);
    g.DoInverseFFT();
    Grid2D<T> y = g.GetRealGrid();
    VH_CHECK(y.GetNI() == ni && y.GetNJ() == nj, "real-grid-size", "2D");
    L q = 0; for (size_t j = 0; j < nj; j++) for (size_t i = 0; i < ni; i++) { q = std::max(q, std::fabs((L)y(i, j) - (L)x(i, j))); VH_CHECK(g.Real(i, j) == y(i, j), "accessor", "2D Real(%zu,%zu)", i, j); }
    VH_CHECK(q <= eps * sc * 40, "inverse", "2D %zux%zu (%zux%zu) scale %d: inverse differs by %.3Lg", a, b, ni, nj, sf, q);
    for (size_t k = 0; k < N; k++) if (std::fabs((L)g.RealData()[k] - d[k].real()) > eps * sc * 40) { vh::viol("inverse-padding", vh::fmt("2D %zux%zu scale %d: cell %zu", a, b, sf, k)); break; }
    vh::stat("transforms_2d", 2);
  }
  // convolution with a filter of either scaling
  bool sf2 = r.b(); FFTGrid2D<T> h(ni, nj, pi, pj, sf2); Grid2D<T> y(a, b); std::vector<CL> d2(N);
  int kind = (int)r.i(0, 1);
  for (size_t j = 0; j < b; j++) for (size_t i = 0; i < a; i++) {
    double ci = std::min(i, a - i), cj = std::min(j, b - j);
    y(i, j) = (T)(kind ? std::exp(-1.1 * (ci + cj)) : r.n()); d2[i + j * a] = (L)y(i, j);
  }
  g.Initialize(x); h.Initialize(y);
  std::vector<CL> G = dft(d2, a, b, 1), P(N);
  L f2 = sf2 ? 1 / sqrtl((L)N) : 1;
  if (kind) { g.ConvolveCovariance(h); for (size_t k = 0; k < N; k++) P[k] = F[k] * std::sqrt(CL(std::max((L)0, G[k].real()) * f2, 0)); }
  else { g.Convolve(h); for (size_t k = 0; k < N; k++) P[k] = F[k] * G[k] * f2; }
  P = dft(P, a, b, 1, +1);
  L e = 0; for (size_t j = 0; j < nj; j++) for (size_t i = 0; i < ni; i++) e = std::max(e, std::fabs((L)g.Real(i, j) - P[i + j * a].real() / N));
  VH_CHECK(e <= (kind ? 400 * std::sqrt(eps) * 1e-2 : 40 * eps) * sc * N, kind ? "covariance-convolution" : "convolution", "2D %zux%zu scale %d/%d: differs by %.3Lg", a, b, sf, sf2, e);
  if (!kind) {
    // directly, from the definition of circular convolution
    size_t i = r.i(0, ni - 1), j = r.i(0, nj - 1); L q = 0;
    for (size_t v = 0; v < b; v++) for (size_t u = 0; u < a; u++) q += (L)x(u, v) * (L)y((i + a - u) % a, (j + b - v) % b);
    VH_CHECK(std::fabs(q * f2 - (L)g.Real(i, j)) <= 40 * eps * sc * N, "convolution", "2D %zux%zu: %.9Lg, direct %.9Lg", a, b, (L)g.Real(i, j), q * f2);
  }
  vh::stat("convolutions"); vh::sig(vh::fmt("2/%zu/%zu/%zu/%zu/%d%d%d", ni, nj, a, b, sf, sf2, (int)sizeof(T)));
}

template <typename T> static void three(vh::Rng& r, long c, double eps) {
  size_t ni = r.i(1, 6), nj = r.i(1, 6), nk = r.i(1, 6), pi = r.i(0, 4), pj = r.i(0, 4), pk = r.i(0, 4); bool sf = r.b(); double sc = eps > 1e-10 ? 1.0 : scale_of(r);
  FFTGrid3D<T> g(ni, nj, nk, pi, pj, pk, sf);
  size_t a = g.GetNItot(), b = g.GetNJtot(), q3 = g.GetNKtot(), N = a * b * q3;
  VH_CHECK(a == smooth(ni + pi, true) && b == smooth(nj + pj, false) && q3 == smooth(nk + pk, false), "grid-size", "3D %zux%zux%zu + %zux%zux%zu: %zux%zux%zu", ni, nj, nk, pi, pj, pk, a, b, q3);
  if (a < ni || b < nj || q3 < nk) return;
  Grid<T> x(a, b, q3); std::vector<CL> d(N);
  for (size_t k = 0; k < q3; k++) for (size_t j = 0; j < b; j++) for (size_t i = 0; i < a; i++) { x(i, j, k) = (T)(r.n() * sc); d[i + a * (j + b * k)] = (L)x(i, j, k); }
  int how = (int)r.i(0, 2); T cst = (T)r.n();
  if (how == 0) g.Initialize(x);
  else if (how == 1) {
    Grid<T> s(ni, nj, nk); for (size_t k = 0; k < nk; k++) for (size_t j = 0; j < nj; j++) for (size_t i = 0; i < ni; i++) s(i, j, k) = x(i, j, k);
    if (r.b()) g.InitializeConstant(7);
    g.InitializePadZero(s);
    for (size_t k = 0; k < q3; k++) for (size_t j = 0; j < b; j++) for (size_t i = 0; i < a; i++) if (!(i < ni && j < nj && k < nk)) { x(i, j, k) = 0; d[i + a * (j + b * k)] = 0; }
  } else { g.InitializeConstant(cst); for (size_t k = 0; k < N; k++) { x(k) = cst; d[k] = (L)cst; } }
  for (int t = 0; t < 20; t++) {
    long i = r.i(-(long)a + 1, a - 1), j = r.i(-(long)b + 1, b - 1), k = r.i(-(long)q3 + 1, q3 - 1);
    L e = d[(i + a) % a + a * ((j + b) % b + b * ((k + q3) % q3))].real();
    VH_CHECK((L)g.RealCyclic((int)i, (int)j, (int)k) == e, "cyclic-accessor", "3D (%ld,%ld,%ld) of %zux%zux%zu", i, j, k, a, b, q3);
  }
  std::vector<CL> F = dft(d, a, b, q3);
  L f = sf ? 1 / sqrtl((L)N) : 1, tol = eps * sc * N * f * 4 + (how == 2 ? eps * N * f * 4 : 0);
  g.DoFFT();
  L e = 0; for (size_t k = 0; k < q3; k++) for (size_t j = 0; j < b; j++) for (size_t i = 0; i < a / 2 + 1; i++) { CL q(g.Complex(i, j, k).real(), g.Complex(i, j, k).imag()); e = std::max(e, std::abs(q - F[i + a * (j + b * k)] * f)); }
  VH_CHECK(e <= tol, "not-the-dft", "3D %zux%zux%zu (%zux%zux%zu) scale %d: coefficients differ by %.3Lg", a, b, q3, ni, nj, nk, sf, e);
  g.DoInverseFFT();
  Grid<T> y = g.GetRealGrid();
  VH_CHECK(y.GetNI() == ni && y.GetNJ() == nj && y.GetNK() == nk, "real-grid-size", "3D");
  double mag = how == 2 ? std::fabs((double)cst) + 1 : sc;
  L q = 0; for (size_t k = 0; k < nk; k++) for (size_t j = 0; j < nj; j++) for (size_t i = 0; i < ni; i++) { q = std::max(q, std::fabs((L)y(i, j, k) - (L)x(i, j, k))); VH_CHECK(g.Real(i, j, k) == y(i, j, k), "accessor", "3D Real(%zu,%zu,%zu)", i, j, k); }
  VH_CHECK(q <= eps * mag * 40, "inverse", "3D %zux%zux%zu (%zux%zux%zu) scale %d: inverse differs by %.3Lg", a, b, q3, ni, nj, nk, sf, q);
  bool sf2 = r.b(); FFTGrid3D<T> h(ni, nj, nk, pi, pj, pk, sf2); Grid<T> z(a, b, q3); std::vector<CL> d2(N);
  int kind = (int)r.i(0, 2);
  for (size_t k = 0; k < q3; k++) for (size_t j = 0; j < b; j++) for (size_t i = 0; i < a; i++) {
    double ci = std::min(i, a - i), cj = std::min(j, b - j), ck = std::min(k, q3 - k);
    z(i, j, k) = (T)(kind == 1 ? std::exp(-1.1 * (ci + cj + ck)) : r.n()); d2[i + a * (j + b * k)] = (L)z(i, j, k);
  }
  g.Initialize(x); h.Initialize(z);
  std::vector<CL> G = dft(d2, a, b, q3), P(N); L f2 = sf2 ? 1 / sqrtl((L)N) : 1;
  if (kind == 1) { g.ConvolveCovariance(h); for (size_t k = 0; k < N; k++) P[k] = F[k] * std::sqrt(CL(std::max((L)0, G[k].real()) * f2, 0)); }
  else if (kind == 0) { g.Convolve(h); for (size_t k = 0; k < N; k++) P[k] = F[k] * G[k] * f2; }
  else { g.DoFFT(); h.DoFFT(); g.ConvolveNoFFT(h); g.DoInverseFFT(); for (size_t k = 0; k < N; k++) P[k] = F[k] * G[k] * f2; }
  P = dft(P, a, b, q3, +1); e = 0;
  for (size_t k = 0; k < nk; k++) for (size_t j = 0; j < nj; j++) for (size_t i = 0; i < ni; i++) e = std::max(e, std::fabs((L)g.Real(i, j, k) - P[i + a * (j + b * k)].real() / N));
  VH_CHECK(e <= (kind == 1 ? 400 * std::sqrt(eps) * 1e-2 : 40 * eps) * mag * N, kind == 1 ? "covariance-convolution" : "convolution", "3D %zux%zux%zu scale %d/%d kind %d: differs by %.3Lg", a, b, q3, sf, sf2, kind, e);
  vh::stat("transforms_3d", 2); vh::stat("convolutions"); vh::sig(vh::fmt("3/%zu/%zu/%zu/%zu/%zu/%zu/%d%d%d", ni, nj, nk, a, b, q3, sf, how, (int)sizeof(T)));
}

int main(int argc, char** argv) {
  return vh::run(argc, argv, [](vh::Rng& r, long c, const std::string& mode) {
    if (mode == "1") one(r, c);
    else if (mode == "2") { if (c % 3) two<double>(r, c, 1e-13); else two<float>(r, c, 3e-6); }
    else if (mode == "3") { if (c % 3) three<double>(r, c, 1e-13); else three<float>(r, c, 3e-6); }
    else {
      for (int i = 0; i < 60; i++) for (int e = 0; e < 2; e++) {
        size_t n = i < 30 ? c * 30 + i + 1 : (size_t)r.logu(1, 3e6); if (i > 50) n = (size_t(1) << r.i(1, 25)) + r.i(-1, 1);
        size_t g = FindNewSizeWithPadding(n, e), w = smooth(n, e);
        VH_CHECK(g == w, "padded-size", "size %zu (even %d): %zu, expected %zu", n, e, g, w);
      }
      vh::sig(vh::fmt("s%ld", c)); vh::stat("sizes_compared", 120);
    }
  });
}

// P22: matrices, multinormal distributions and descriptive statistics against plain loops.
#include "vh.hpp"
#include "nrlib/flens/nrlib_flens.hpp"
#include "nrlib/geometry/point.hpp"
#include "nrlib/random/normal.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/statistics/multinormal.hpp"
#include "nrlib/statistics/posteriormultinormal.hpp"
#include "nrlib/statistics/statistics.hpp"
#include <algorithm>
#include <fstream>
#include <memory>
using namespace NRLib;
typedef long double ld;
typedef std::vector<std::vector<ld> > LM;

static bool inv(LM K, LM& I, ld* logdet = 0) {
  size_t n = K.size(); I.assign(n, std::vector<ld>(n, 0)); ld L = 0; for (size_t i = 0; i < n; i++) I[i][i] = 1;
  for (size_t c = 0; c < n; c++) { size_t p = c; for (size_t i = c + 1; i < n; i++) if (fabsl(K[i][c]) > fabsl(K[p][c])) p = i; if (fabsl(K[p][c]) < 1e-18L) return false; std::swap(K[p], K[c]); std::swap(I[p], I[c]); L += logl(fabsl(K[c][c]));
    for (size_t i = 0; i < n; i++) if (i != c) { ld f = K[i][c] / K[c][c]; for (size_t j = 0; j < n; j++) { K[i][j] -= f * K[c][j]; I[i][j] -= f * I[c][j]; } } }
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) I[i][j] /= K[i][i];
  if (logdet) *logdet = L; return true;
}
static ld norm(const LM& a) { ld m = 0; for (auto& r : a) { ld s = 0; for (ld x : r) s += fabsl(x); m = std::max(m, s); } return m; }
static LM spd(vh::Rng& r, int n, double sc) { LM g(n, std::vector<ld>(n)), a(n, std::vector<ld>(n, 0)); for (auto& q : g) for (ld& x : q) x = r.n(); double d = r.logu(.05, 3); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { for (int k = 0; k < n; k++) a[i][j] += g[i][k] * g[j][k]; if (i == j) a[i][j] += d; a[i][j] = (double)(a[i][j] * sc); } for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a[i][j] = a[j][i]; return a; }
static SymmetricMatrix sym(const LM& a) { int n = (int)a.size(); SymmetricMatrix s(n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) s(j, i) = (double)a[j][i]; return s; }

static void linear(vh::Rng& r) {
  int n = (int)r.i(1, r.b(.1) ? 40 : 9); double sc = r.b() ? 1 : r.logu(1e-3, 1e3); LM a = spd(r, n, sc), ai; if (!inv(a, ai)) return; ld cond = norm(a) * norm(ai); if (cond > 1e9L) return; double e = 1e-13 * (double)cond;
  SymmetricMatrix A = sym(a); Vector b(n); std::vector<ld> want(n, 0); for (int i = 0; i < n; i++) b(i) = r.n() * 10; ld big = 0; for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) want[i] += ai[i][j] * b(j); big = std::max(big, fabsl(want[i])); }
  Vector x(n); CholeskySolve(A, b, x); for (int i = 0; i < n; i++) VH_CHECK(std::fabs(x(i) - (double)want[i]) <= e * (double)big, "cholesky-solve", "n %d, element %d is %.12g expected %.12Lg", n, i, x(i), want[i]);
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) VH_CHECK(A(i, j) == (double)a[i][j], "cholesky-solve-input", "matrix changed");
  int m = (int)r.i(1, 4); Matrix B(n, m); std::vector<std::vector<ld> > W(n, std::vector<ld>(m, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) B(i, j) = r.n(); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int k = 0; k < n; k++) W[i][j] += ai[i][k] * B(k, j);
  CholeskySolve(A, B); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) VH_CHECK(std::fabs(B(i, j) - (double)W[i][j]) <= e * (double)norm(ai) * 10, "cholesky-solve-matrix", "%d,%d", i, j);
  SymmetricMatrix C = A; CholeskyInvert(C); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) VH_CHECK(std::fabs(C(i, j) - (double)ai[i][j]) <= e * (double)norm(ai), "cholesky-invert", "n %d, %d,%d is %.12g expected %.12Lg", n, i, j, C(i, j), ai[i][j]);
  SymmetricMatrix F = A; CholeskyFactorize(F); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { ld s = 0; for (int k = 0; k <= i; k++) s += (ld)F(k, i) * F(k, j); VH_CHECK(fabsl(s - a[i][j]) <= 1e-12L * norm(a), "cholesky-factor", "%d,%d", i, j); }
  if (n > 0) { SymmetricMatrix L(n, flens::Lower); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) L(i, j) = A(j, i); std::string f = vh::path("low"); WriteMatrixToFile(f, L, MatrixAscii); Matrix Y = ReadMatrixFromFile(f, n, n, MatrixAscii); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) VH_CHECK(std::fabs(Y(i, j) - (double)a[i][j]) <= 1e-8 * std::fabs((double)a[i][j]), "lower-file", "%d,%d", i, j); remove(f.c_str());
    CholeskyFactorize(L); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { ld s = 0; for (int k = 0; k <= j; k++) s += (ld)L(i, k) * L(j, k); VH_CHECK(fabsl(s - a[i][j]) <= 1e-12L * norm(a), "cholesky-factor-lower", "%d,%d", i, j); } CholeskyDeFactorize(L); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) VH_CHECK(std::fabs(L(i, j) - A(j, i)) <= 1e-12 * (double)norm(a), "cholesky-defactorize-lower", "%d,%d", i, j); }
  CholeskyDeFactorize(F); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) VH_CHECK(std::fabs(F(i, j) - A(i, j)) <= 1e-12 * (double)norm(a), "cholesky-defactorize", "%d,%d", i, j);
  // eigenvectors
  Vector ev(n); Matrix V(n, n); ComputeEigenVectorsSymmetric(A, ev, V);
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) { ld s = 0; for (int j = 0; j < n; j++) s += a[i][j] * (ld)V(j, k); VH_CHECK(fabsl(s - (ld)ev(k) * V(i, k)) <= 1e-11L * norm(a), "eigenvector", "n %d, vector %d", n, k); }
  for (int k = 0; k < n; k++) for (int l = 0; l <= k; l++) { ld s = 0; for (int i = 0; i < n; i++) s += (ld)V(i, k) * V(i, l); VH_CHECK(fabsl(s - (k == l)) <= 1e-10L, "eigenvector-orthonormal", "%d,%d: %.3Lg", k, l, s); }
  // a matrix that is not positive definite is refused
  { LM q = a; int k = (int)r.i(0, n - 1); q[k][k] = -q[k][k]; SymmetricMatrix Q = sym(q); int thrown = 0; Vector y(n); try { CholeskySolve(Q, b, y); } catch (Exception&) { thrown++; } try { SymmetricMatrix q1 = Q; CholeskyInvert(q1); } catch (Exception&) { thrown++; } try { SymmetricMatrix q1 = Q; CholeskyFactorize(q1); } catch (Exception&) { thrown++; } VH_CHECK(thrown == 3, "not-positive-definite", "%d of 3 refused", thrown); }
  // general matrices
  Matrix G(n, n); LM g(n, std::vector<ld>(n)), gi; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) g[i][j] = G(i, j) = r.n() + (i == j ? 2 : 0);
  if (inv(g, gi) && norm(g) * norm(gi) < 1e8L) { double e2 = 1e-12 * (double)(norm(g) * norm(gi)) * (double)norm(gi); Matrix H = G; Invert(H); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) VH_CHECK(std::fabs(H(i, j) - (double)gi[i][j]) <= e2, "invert", "n %d, %d,%d is %.12g expected %.12Lg", n, i, j, H(i, j), gi[i][j]);
    Matrix T = G; flens::DenseVector<flens::Array<int> > p(n); TriangleFactorize(T, p); TriangleInvert(T, p); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) VH_CHECK(std::fabs(T(i, j) - (double)gi[i][j]) <= e2, "triangle-invert", "%d,%d", i, j); }
  { Matrix Z(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) Z(i, j) = j == 0 ? 0 : r.n(); bool thrown = false; try { Invert(Z); } catch (Exception&) { thrown = true; } VH_CHECK(thrown, "singular", "a singular matrix was inverted"); }
  // complex hermitian
  { ComplexMatrix H(n, n), R(n, 1); std::vector<std::vector<std::complex<double> > > h(n, std::vector<std::complex<double> >(n)), q(n, std::vector<std::complex<double> >(n)); std::vector<std::complex<double> > y(n); for (auto& row : q) for (auto& z : row) z = std::complex<double>(r.n(), r.n());
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { std::complex<double> s = i == j ? 2. : 0.; for (int k = 0; k < n; k++) s += q[i][k] * std::conj(q[j][k]); h[i][j] = s; H(i, j) = s; }
    for (int i = 0; i < n; i++) { y[i] = std::complex<double>(r.n(), r.n()); R(i, 0) = y[i]; }
    CholeskySolveComplex(H, R); for (int i = 0; i < n; i++) { std::complex<double> s = 0; double mag = 0; for (int j = 0; j < n; j++) { s += h[i][j] * R(j, 0); mag += std::abs(h[i][j]) * std::abs(R(j, 0)); } VH_CHECK(std::abs(s - y[i]) <= 1e-10 * (1 + mag), "cholesky-complex", "row %d", i); }
    ComplexMatrix P(n, 2), Q(2, n); for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) P(i, j) = std::complex<double>(r.n(), r.n()); Adjoint(P, Q); for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) VH_CHECK(Q(j, i) == std::conj(P(i, j)), "adjoint", "%d,%d", i, j); }
  { Vector w(3); Matrix E(3, 3); double f = r.b(.2) ? 1e6 : 1; for (int i = 0; i < 3; i++) { w(i) = r.b(.2) && i ? w(0) : r.n() * f; for (int j = 0; j < 3; j++) E(i, j) = r.n(); } Vector w0 = w; Matrix E0 = E; Sort3x3(w, E); bool ok = w(0) >= w(1) && w(1) >= w(2); std::vector<bool> used(3, false); for (int j = 0; j < 3 && ok; j++) { bool found = false; for (int k = 0; k < 3 && !found; k++) if (!used[k] && w0(k) == w(j) && E0(0, k) == E(0, j) && E0(1, k) == E(1, j) && E0(2, k) == E(2, j)) { used[k] = true; found = true; } ok = found; } VH_CHECK(ok, "sort3x3", "%g %g %g", w(0), w(1), w(2)); }
  VH_CHECK(FindLargestElement(b) == *std::max_element(&b(0), &b(0) + n), "largest", "element");
  { Matrix I = IdentityMatrix(n), Z = ZeroMatrix(n); Vector z = ZeroVector(n); SymmetricMatrix S = SymmetricZeroMatrix(n), S2(n); double w = r.n(); InitializeSymmetricMatrix(S2, w); bool ok = true; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) ok = ok && S2(i, j) == w; for (int i = 0; i < n; i++) { ok = ok && z(i) == 0; for (int j = 0; j < n; j++) { ok = ok && I(i, j) == (i == j) && Z(i, j) == 0; if (j >= i) ok = ok && S(i, j) == 0; } } VH_CHECK(ok, "initial-values", "n %d", n); }
  // files
  { std::string f = vh::path("mat"); LinalgFileFormat F = r.b() ? MatrixAscii : MatrixBinary; double t = F == MatrixAscii ? 1e-8 : 0; int k = (int)r.i(1, 5); Matrix X(n, k); for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) X(i, j) = r.n() * r.logu(1e-5, 1e5); WriteMatrixToFile(f, X, F); Matrix Y = ReadMatrixFromFile(f, n, k, F); for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) VH_CHECK(std::fabs(Y(i, j) - X(i, j)) <= t * std::fabs(X(i, j)), "matrix-file", "%d,%d: %.12g read as %.12g", i, j, X(i, j), Y(i, j));
    int bad = 0; try { ReadMatrixFromFile(f, n + 1, k, F); } catch (Exception&) { bad++; } try { ReadMatrixFromFile(f, n, k + 1, F); } catch (Exception&) { bad++; } if (k > 1) { try { ReadMatrixFromFile(f, n, k - 1, F); } catch (Exception&) { bad++; } } else bad++; VH_CHECK(bad == 3, "matrix-file-size", "wrong size accepted");
    WriteMatrixToFile(f, A, F); Y = ReadMatrixFromFile(f, n, n, F); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) VH_CHECK(std::fabs(Y(i, j) - (double)a[i][j]) <= t * std::fabs((double)a[i][j]), "symmetric-file", "%d,%d", i, j);
    WriteVectorToFile(f, b, F); Vector c = ReadVectorFromFile(f, n, F); for (int i = 0; i < n; i++) VH_CHECK(std::fabs(c(i) - b(i)) <= t * std::fabs(b(i)), "vector-file", "%d", i); bad = 0; try { ReadVectorFromFile(f, n + 1, F); } catch (Exception&) { bad++; } if (n > 1) { try { ReadVectorFromFile(f, n - 1, F); } catch (Exception&) { bad++; } } else bad++; VH_CHECK(bad == 2, "vector-file-size", "wrong size accepted"); remove(f.c_str()); }
  vh::stat("matrices"); vh::sig(vh::mix(n, vh::hd(x(0))));
}

static void multi(vh::Rng& r) {
  int n = (int)r.i(1, 7); LM a = spd(r, n, r.b() ? 1 : r.logu(.01, 100)), ai; ld ldet; if (!inv(a, ai, &ldet)) return; ld cond = norm(a) * norm(ai); if (cond > 1e7L) return;
  Vector mu(n); for (int i = 0; i < n; i++) mu(i) = r.n() * 10; SymmetricMatrix S = sym(a); std::unique_ptr<MultiNormal> D; int how = (int)r.i(0, 2);
  if (how == 0) D.reset(new MultiNormal(mu, S)); else { if (how == 1) D.reset(new MultiNormal()); else { int k = (int)r.i(1, 7); Vector m0(k); for (int i = 0; i < k; i++) m0(i) = 5; D.reset(new MultiNormal(m0, sym(spd(r, k, 3)))); D->Draw(); } D->SetParameters(mu, S); }
  // draws are mean + M z for the standard normals z of the stream; M M' must be the covariance
  bool global = r.b(); unsigned seed = (unsigned)r.i(1, 1000000000); RandomGenerator g, h; LM X(n, std::vector<ld>(n)), Z(n, std::vector<ld>(n)), Zi; Normal std01;
  if (global) { Random::Initialize(seed); for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) Z[i][k] = std01.Draw(); Random::Initialize(seed); } else { h.Initialize(seed); for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) Z[i][k] = std01.Draw(h); g.Initialize(seed); }
  for (int k = 0; k < n; k++) { Vector x = global ? D->Draw() : D->Draw(g); VH_CHECK(x.length() == n, "draw-length", "%d", (int)x.length()); if (x.length() != n) return; for (int i = 0; i < n; i++) X[i][k] = (ld)x(i) - mu(i); }
  if (inv(Z, Zi)) { ld cz = norm(Z) * norm(Zi); if (cz < 1e5L) { LM M(n, std::vector<ld>(n, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) M[i][j] += X[i][k] * Zi[k][j];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { ld s = 0; for (int k = 0; k < n; k++) s += M[i][k] * M[j][k]; VH_CHECK(fabsl(s - a[i][j]) <= 1e-10L * cz * norm(a) * (1 + fabsl(mu(i)) + fabsl(mu(j))), "draw-covariance", "n %d: covariance %d,%d of the draws is %.9Lg expected %.9Lg", n, i, j, s, a[i][j]); } vh::stat("draw_covariances"); } }
  Vector x(n); for (int i = 0; i < n; i++) x(i) = mu(i) + r.n() * 2; ld q = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q += ((ld)x(i) - mu(i)) * ai[i][j] * ((ld)x(j) - mu(j)); ld pot = .5L * (n * logl(2 * acosl(-1.0L)) + ldet + q); double p = D->Potential(x);
  VH_CHECK(std::fabs(p - (double)pot) <= 1e-11 * (double)cond * (1 + (double)fabsl(pot)), "potential", "n %d: %.12g expected %.12Lg", n, p, pot);
  vh::stat("multinormals"); vh::sig(vh::hd(p));
}

static void cond(vh::Rng& r) {
  static const Variogram::Type T[] = {Variogram::EXPONENTIAL, Variogram::SPHERICAL, Variogram::GENERAL_EXPONENTIAL, Variogram::MATERN32}; double rg = r.logu(.5, 20); std::unique_ptr<Variogram> v(Variogram::Create(T[r.i(0, 3)], 1.3, rg, rg * r.logu(.5, 2), 1, r.b() ? 0 : r.u(-3, 3)));
  int nk = r.b(.1) ? 0 : (int)r.i(1, 7), nu = (int)r.i(1, 6); bool two = r.b(.6), dup = two && nk > 1 && r.b(.4);
  std::vector<double> xk(nk), yk(nk), zk(nk), ek(nk), sk(nk), lc(nk), xu(nu), yu(nu), eu(nu), su(nu);
  for (int i = 0; i < nk; i++) { xk[i] = r.u(0, 20); yk[i] = two ? r.u(0, 20) : 0; zk[i] = r.n() * 3; ek[i] = r.n(); sk[i] = r.logu(.2, 5); lc[i] = two && r.b(.4) ? (r.b() ? .6 : r.u(.2, .95)) : 1; }
  std::vector<int> keep; std::vector<int> same(nk, -1);
  if (dup) for (int i = 1; i < nk; i++) if (r.b(.4)) { int b = (int)r.i(0, i - 1); while (same[b] >= 0) b = same[b]; bool sl = r.b(.7); xk[i] = xk[b]; yk[i] = yk[b]; if (sl) { lc[i] = lc[b]; same[i] = b; } else { lc[i] = lc[b] == 1 ? .4 : 1; bool clash = false; for (int q = 0; q < i; q++) if (q != b && xk[q] == xk[i] && yk[q] == yk[i]) clash = true; if (clash) { xk[i] = r.u(21, 30); } } }
  for (int i = 0; i < nk; i++) if (same[i] < 0) keep.push_back(i);
  for (int i = 0; i < nu; i++) { xu[i] = r.u(0, 20); yu[i] = two ? r.u(0, 20) : 0; eu[i] = r.n(); su[i] = r.logu(.2, 5); }
  int m = (int)keep.size(); LM K(m, std::vector<ld>(m)), Ki;
  auto C = [&](double a, double b) { return (ld)(two ? v->GetCorr(a, b) : v->GetCorr(a)); };
  for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { int p = keep[i], q = keep[j]; ld c = i == j ? 1 : (ld)(lc[p] == lc[q] ? 1 : std::min(lc[p], lc[q])) * C(xk[p] - xk[q], yk[p] - yk[q]); if (i != j && c > .998L) return; K[i][j] = c * sk[p] * sk[q]; }
  if (m && (!inv(K, Ki) || norm(K) * norm(Ki) > 1e6L)) { vh::stat("skipped_ill_conditioned"); return; }
  { SymmetricMatrix t = m ? sym(K) : SymmetricMatrix(1); if (m) { try { CholeskyFactorize(t); } catch (Exception&) { vh::stat("skipped_not_positive_definite"); return; } } }
  double e = 1e-11 * (m ? (double)(norm(K) * norm(Ki)) : 1) * 1000;
  Vector ex; SymmetricMatrix cv;
  if (!two) { bool ok = CondDistrMultiNormal(xk, zk, xu, ek, eu, sk, su, *v, ex, cv); VH_CHECK(ok, "conditional-return", "false"); }
  else { std::vector<Point> pk, pu; for (int i = 0; i < nk; i++) pk.push_back(Point(xk[i], yk[i], 0)); for (int i = 0; i < nu; i++) pu.push_back(Point(xu[i], yu[i], 0)); bool ok = SecondayCondDistrMultiNormal2D(pk, zk, lc, pu, ek, eu, sk, su, *v, ex, cv); VH_CHECK(ok, "conditional-return", "false"); }
  VH_CHECK(ex.length() == nu && cv.dim() == nu, "conditional-size", "%d %d", (int)ex.length(), (int)cv.dim()); if (ex.length() != nu || cv.dim() != nu) return;
  LM B(nu, std::vector<ld>(m)); for (int i = 0; i < nu; i++) for (int j = 0; j < m; j++) { int q = keep[j]; B[i][j] = (two ? (ld)lc[q] : 1) * sk[q] * su[i] * C(xk[q] - xu[i], yk[q] - yu[i]); }
  std::string key = two ? "conditional-2d" : "conditional-1d";
  for (int i = 0; i < nu; i++) {
    ld s = eu[i]; for (int j = 0; j < m; j++) for (int k = 0; k < m; k++) s += B[i][j] * Ki[j][k] * ((ld)zk[keep[k]] - ek[keep[k]]);
    VH_CHECK(std::fabs(ex(i) - (double)s) <= e, key + "-mean", "%d known (%d used), unknown %d: %.12g expected %.12Lg", nk, m, i, ex(i), s);
    for (int j = i; j < nu; j++) { ld c = (ld)su[i] * su[j] * C(xu[i] - xu[j], yu[i] - yu[j]); for (int k = 0; k < m; k++) for (int l = 0; l < m; l++) c -= B[i][k] * Ki[k][l] * B[j][l]; VH_CHECK(std::fabs(cv(i, j) - (double)c) <= e, key + "-covariance", "%d known (%d used), unknown %d,%d: %.12g expected %.12Lg", nk, m, i, j, cv(i, j), c); }
  }
  double pe = r.n(), pc = r.logu(.1, 10), oe = r.n(), oc = r.logu(.1, 10), co = r.u(-1, 1), ob = r.n(), a1, a2; Posterior1DNormal(pe, pc, oe, oc, co, ob, a1, a2);
  VH_CHECK(vh::close(a1, pe + co * std::sqrt(pc) / std::sqrt(oc) * (ob - oe), 1e-12, 1e-12) && vh::close(a2, pc * (1 - co * co), 1e-12, 1e-13), "posterior-1d", "%g %g", a1, a2);
  vh::stat("conditionals"); if (m < nk) vh::stat("with_duplicates"); vh::sig(vh::mix(vh::hd(rg), m * 10 + nu));
}

static void stats(vh::Rng& r) {
  int n = (int)r.i(0, 30); double sc = r.logu(.01, 1000), off = r.b() ? 0 : r.n() * 100, miss = r.b() ? -999 : 1e30; std::vector<double> v(n), w(n), ok, pairA, pairB; double pm = r.b(.4) ? 0 : r.b(.1) ? 1 : r.u(0, .6);
  for (int i = 0; i < n; i++) { v[i] = r.b(pm) ? miss : off + r.n() * sc; w[i] = r.n(); if (v[i] != miss) ok.push_back(v[i]); }
  auto mis = [miss](double a) { return a == miss; };
  auto ref = [&](const std::vector<double>& q, ld& m, ld& var, ld& sum) { sum = 0; for (double a : q) sum += a; m = q.empty() ? 0 : sum / q.size(); var = 0; for (double a : q) var += (a - m) * (a - m); var = q.size() > 1 ? var / (q.size() - 1) : 0; };
  ld m, va, su; double big = std::fabs(off) + 5 * sc;
  for (int k = 0; k < 2; k++) {
    const std::vector<double>& q = k ? ok : w; ref(q, m, va, su); bool empty = q.empty(); double M = 0, V = 0; bool thrown = false; std::vector<double>& in = k ? v : w; double B = k ? big : 5;
    VH_CHECK((k ? Count(in.begin(), in.end(), mis) : Count(in.begin(), in.end())) == (int)q.size(), "count", "%zu", q.size());
    VH_CHECK(std::fabs((k ? Sum(in.begin(), in.end(), mis) : Sum(in.begin(), in.end())) - (double)su) <= 1e-13 * B * (n + 1), "sum", "sum");
    try { M = k ? Mean(in.begin(), in.end(), mis) : Mean(in.begin(), in.end()); } catch (NoDataError&) { thrown = true; } VH_CHECK(thrown == empty && (empty || std::fabs(M - (double)m) <= 1e-13 * B * n), "mean", "%.12g expected %.12Lg", M, m);
    thrown = false; try { V = k ? Var(in.begin(), in.end(), mis) : Var(in.begin(), in.end()); } catch (NoDataError&) { thrown = true; } VH_CHECK(thrown == empty && (empty || std::fabs(V - (double)va) <= 1e-12 * B * B * n), "variance", "%.12g expected %.12Lg", V, va);
    double M2 = k ? Mean(in.begin(), in.end(), mis, false) : Mean(in, false), V2 = k ? Var(in.begin(), in.end(), mis, false) : Var(in, false); VH_CHECK(M2 == (empty ? 0 : M) && V2 == (empty ? 0 : V), "may-not-throw", "%g %g", M2, V2);
    auto mx = k ? MaxElement(in.begin(), in.end(), mis) : MaxElement(in.begin(), in.end()); auto mn = k ? MinElement(in.begin(), in.end(), mis) : MinElement(in.begin(), in.end());
    if (empty) VH_CHECK(mx == in.end() && mn == in.end(), "extremes-empty", "not end"); else VH_CHECK(*mx == *std::max_element(q.begin(), q.end()) && *mn == *std::min_element(q.begin(), q.end()), "extremes", "%g %g", *mn, *mx);
  }
  std::vector<double> c1, c2; int k = (int)r.i(2, 20); for (int i = 0; i < k; i++) { c1.push_back(r.n() * sc); c2.push_back(c1.back() * .5 + r.n()); } ld m1, m2, x, y; ref(c1, m1, x, y); ref(c2, m2, x, y); ld s = 0; for (int i = 0; i < k; i++) s += (c1[i] - m1) * (c2[i] - m2); s /= k - 1;
  VH_CHECK(std::fabs(Cov(c1, c2) - (double)s) <= 1e-12 * (1 + sc) * (1 + sc) * k, "covariance", "%.12g expected %.12Lg", Cov(c1, c2), s);
  c2.push_back(1); bool thrown = false; try { Cov(c1, c2); } catch (InvalidDataError&) { thrown = true; } VH_CHECK(thrown && Cov(c1, c2, false) == 0, "covariance-lengths", "accepted"); vh::stat("samples"); vh::sig(vh::hd(sc));
}

int main(int c, char** v) {
  return vh::run(c, v, [](vh::Rng& r, long, const std::string& m) { if (m == "linear") linear(r); else if (m == "multi") multi(r); else if (m == "cond") cond(r); else stats(r); });
}

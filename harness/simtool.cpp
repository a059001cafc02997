// Command server around the C++ simulation API; driven by the Python oracles.
#include "nrlib/fft/fft.hpp"
#include "nrlib/fft/fftgrid2d.hpp"
#include "nrlib/fft/fftgrid3d.hpp"
#include "nrlib/grid/grid.hpp"
#include "nrlib/grid/grid2d.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include "nrlib/variogram/fftcovgrid.hpp"
#include "nrlib/variogram/gaussianfield.hpp"
#include "nrlib/variogram/variogram.hpp"
#include "nrlib/variogram/variogramtypes.hpp"
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
using namespace NRLib;
typedef std::vector<double> V;

static void out(const V& v) {
  long n = (long)v.size();
  fwrite(&n, 8, 1, stdout);
  if (n) fwrite(v.data(), 8, n, stdout);
  fflush(stdout);
}
static V flat(const Grid2D<double>& g) { V r; for (size_t j = 0; j < g.GetNJ(); j++) for (size_t i = 0; i < g.GetNI(); i++) r.push_back(g(i, j)); return r; }
static V flat(const Grid<double>& g) { V r; for (size_t k = 0; k < g.GetNK(); k++) for (size_t j = 0; j < g.GetNJ(); j++) for (size_t i = 0; i < g.GetNI(); i++) r.push_back(g(i, j, k)); return r; }

static Variogram* mk(std::istringstream& s) {
  int t; double p, rx, ry, rz, az, dip, sd;
  s >> t >> p >> rx >> ry >> rz >> az >> dip >> sd;
  Variogram::Type ty[] = {Variogram::GAUSSIAN, Variogram::EXPONENTIAL, Variogram::GENERAL_EXPONENTIAL, Variogram::SPHERICAL,
                          Variogram::MATERN32, Variogram::MATERN52, Variogram::MATERN72, Variogram::CONSTANT};
  return Variogram::Create(ty[t], p, rx, ry, rz, az, dip, sd);
}

int main() {
  std::string line;
  std::unique_ptr<Variogram> v;
  while (std::getline(std::cin, line)) {
    std::istringstream s(line);
    std::string c; s >> c;
    V r;
    if (c == "quit") break;
    else if (c == "var") { v.reset(mk(s)); }
    else if (c == "ens1") {  // mode s0 count nx dx pad sx   mode: 0 own generator, 1 shared stream
      int mode; unsigned long s0, cnt; size_t nx; double dx, sx; int pad;
      s >> mode >> s0 >> cnt >> nx >> dx >> pad >> sx;
      for (unsigned long q = 0; q < cnt; q++) {
        V f(nx);
        if (mode == 0) { RandomGenerator g(s0 + q); Simulate1DGaussianField(*v, nx, dx, f, &g, pad, sx); }
        else { Random::Initialize(s0 + q); Simulate1DGaussianField(*v, nx, dx, f, NULL, pad, sx); }
        r.insert(r.end(), f.begin(), f.end());
      }
    }
    else if (c == "ens2") {  // mode s0 count nx dx ny dy px py sx sy nf
      int mode; unsigned long s0, cnt; size_t nx, ny; double dx, dy, sx, sy; int px, py, nf;
      s >> mode >> s0 >> cnt >> nx >> dx >> ny >> dy >> px >> py >> sx >> sy >> nf;
      for (unsigned long q = 0; q < cnt; q++) {
        std::vector<Grid2D<double> > gs;
        if (mode == 0) { RandomGenerator g(s0 + q); Simulate2DGaussianField(*v, nx, dx, ny, dy, nf, gs, &g, px, py, sx, sy); }
        else if (mode == 1) { Random::Initialize(s0 + q); Simulate2DGaussianField(*v, nx, dx, ny, dy, nf, gs, NULL, px, py, sx, sy); }
        else { Random::Initialize(s0 + q); gs.resize(1); Simulate2DGaussianField(*v, nx, dx, ny, dy, gs[0]); }
        for (auto& g : gs) { V f = flat(g); r.insert(r.end(), f.begin(), f.end()); }
      }
    }
    else if (c == "ens3") {
      unsigned long s0, cnt; size_t nx, ny, nz; double dx, dy, dz, sx, sy, sz; int px, py, pz, nf;
      s >> s0 >> cnt >> nx >> dx >> ny >> dy >> nz >> dz >> px >> py >> pz >> sx >> sy >> sz >> nf;
      for (unsigned long q = 0; q < cnt; q++) {
        std::vector<Grid<double> > gs;
        Random::Initialize(s0 + q);
        Simulate3DGaussianField(*v, nx, dx, ny, dy, nz, dz, nf, gs, px, py, pz, sx, sy, sz);
        for (auto& g : gs) { V f = flat(g); r.insert(r.end(), f.begin(), f.end()); }
      }
    }
    else if (c == "used1" || c == "used2" || c == "used3") {
      // number of normals one call consumes (-1 if the stream position does not match any count)
      unsigned long seed; size_t nx, ny = 1, nz = 1; double dx, dy, dz; int px, py, pz, nf = 1;
      s >> seed >> nx >> dx >> px;
      if (c != "used1") s >> ny >> dy >> py >> nf;
      if (c == "used3") s >> nz >> dz >> pz;
      double res = -1;
      if (c != "used3") {
        RandomGenerator g(seed);
        if (c == "used1") { V f(nx); Simulate1DGaussianField(*v, nx, dx, f, &g, px, 1.0); }
        else { std::vector<Grid2D<double> > gs; Simulate2DGaussianField(*v, nx, dx, ny, dy, nf, gs, &g, px, py, 1.0, 1.0); }
        unsigned long a = g.DrawUint32(), b = g.DrawUint32(), d = g.DrawUint32();
        RandomGenerator h(seed);
        for (long k = 0; k < 400000000; k++) {
          RandomGenerator p(h);
          if (p.DrawUint32() == a && p.DrawUint32() == b && p.DrawUint32() == d) { res = (double)k; break; }
          h.Norm01();
          if (k > 2000000) break;
        }
      } else {
        Random::Initialize(seed);
        std::vector<Grid<double> > gs;
        Simulate3DGaussianField(*v, nx, dx, ny, dy, nz, dz, nf, gs, px, py, pz, 1.0, 1.0, 1.0);
        unsigned long a = Random::DrawUint32(), b = Random::DrawUint32(), d = Random::DrawUint32();
        RandomGenerator h(seed);  // same stream as Random::Initialize(seed): verified by P04
        for (long k = 0; k < 2000000; k++) {
          RandomGenerator p(h);
          if (p.DrawUint32() == a && p.DrawUint32() == b && p.DrawUint32() == d) { res = (double)k; break; }
          h.Norm01();
        }
      }
      r.push_back(res);
    }
    else if (c == "noise") {  // mode s0 count n   mode 0: own generator(seed); 1: generator seeded from the shared stream; 3: shared stream
      int mode; unsigned long s0, cnt, n; s >> mode >> s0 >> cnt >> n;
      for (unsigned long q = 0; q < cnt; q++) {
        if (mode == 3) { Random::Initialize(s0 + q); for (unsigned long i = 0; i < n; i++) r.push_back(Random::Norm01()); }
        else {
          RandomGenerator g;
          if (mode == 0) g.Initialize(s0 + q);
          else { Random::Initialize(s0 + q); g.Initialize(Random::DrawUint32()); }
          for (unsigned long i = 0; i < n; i++) r.push_back(g.Norm01());
        }
      }
    }
    else if (c == "stream") {  // who(0 global,1 own) seed ; then a list of draws u(unif) o(open) i(uint32) n(normal)
      int who; unsigned long seed; std::string ops; s >> who >> seed >> ops;
      RandomGenerator g; g.Initialize(seed);
      if (who == 0) Random::Initialize(seed);
      for (char o : ops) {
        double x = 0;
        if (o == 'u') x = who ? g.Unif01() : Random::Unif01();
        if (o == 'o') x = who ? g.Unif01Open() : Random::Unif01Open();
        if (o == 'i') x = (double)(who ? g.DrawUint32() : Random::DrawUint32());
        if (o == 'n') x = who ? g.Norm01() : Random::Norm01();
        r.push_back(x);
      }
    }
    else if (c == "skip") { unsigned long seed, n; s >> seed >> n; Random::Initialize(seed); for (unsigned long i = 0; i < n; i++) Random::Norm01(); r.push_back((double)Random::DrawUint32()); }
    else if (c == "newsize") { size_t n; int e; while (s >> n >> e) r.push_back((double)FindNewSizeWithPadding(n, e != 0)); }
    else if (c == "tot") {  // actual total sizes of the grids used for simulation: nd n... pad...
      int nd; size_t n[3], p[3]; s >> nd; for (int i = 0; i < nd; i++) s >> n[i]; for (int i = 0; i < nd; i++) s >> p[i];
      if (nd == 1) r.push_back((double)FindNewSizeWithPadding(n[0] + p[0]));
      if (nd == 2) { FFTGrid2D<double> g(n[0], n[1], p[0], p[1], true); r = {(double)g.GetNItot(), (double)g.GetNJtot()}; }
      if (nd == 3) { FFTGrid3D<double> g(n[0], n[1], n[2], p[0], p[1], p[2], true); r = {(double)g.GetNItot(), (double)g.GetNJtot(), (double)g.GetNKtot()}; }
    }
    else if (c == "pad") {
      int nd; size_t n[3] = {1, 1, 1}; double d[3] = {-1, -1, -1}; s >> nd; for (int i = 0; i < nd; i++) s >> n[i] >> d[i];
      std::vector<size_t> p = FindNDimPadding(*v, n[0], d[0], n[1], d[1], n[2], d[2]);
      for (size_t x : p) r.push_back((double)x);
    }
    else if (c == "corr") { int nd; double x, y, z; s >> nd; while (s >> x >> y >> z) r.push_back(nd == 1 ? v->GetCorr(x) : nd == 2 ? v->GetCorr(x, y) : v->GetCorr(x, y, z)); }
    else { fprintf(stderr, "simtool: unknown command %s\n", c.c_str()); return 99; }
    out(r);
  }
  return 0;
}

From 0fc4dc292d366584ba61940d5185cbbbeb4ba9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:59 +0000
Subject: [PATCH 001/125] fix: default padding of 2D/3D fields with a single
 cell along an axis

Simulate2DGaussianField and Simulate3DGaussianField took the number of
dimensions from the cell counts and indexed past the end of the padding
vector when ny or nz was 1.
---
 src/nrlib/variogram/gaussianfield.cpp | 47 +++++++++++++++------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/nrlib/variogram/gaussianfield.cpp b/src/nrlib/variogram/gaussianfield.cpp
index 4eaea78..1f11412 100644
--- a/src/nrlib/variogram/gaussianfield.cpp
+++ b/src/nrlib/variogram/gaussianfield.cpp
@@ -50,20 +50,23 @@ size_t NRLib::FindGaussianFieldPadding(const Variogram & variogram, size_t grid_
   );
 }
 
-std::vector<size_t> NRLib::FindNDimPadding(const Variogram & variogram,
-                                           size_t            nx,
-                                           double            dx,
-                                           size_t            ny,
-                                           double            dy,
-                                           size_t            nz,
-                                           double            dz)
+// Default padding for a simulation in n_dim dimensions. The number of dimensions is given
+// explicitly, since a grid may have a single cell along a simulated dimension.
+static std::vector<size_t> FindPadding(const Variogram & variogram,
+                                       int               n_dim,
+                                       size_t            nx,
+                                       double            dx,
+                                       size_t            ny,
+                                       double            dy,
+                                       size_t            nz,
+                                       double            dz)
 {
   std::vector<size_t> pad;
-  if (ny <= 1) {
+  if (n_dim == 1) {
     double range = variogram.GetRangeX();
     pad.push_back(FindGaussianFieldPadding(variogram, nx, range, dx));
   }
-  else if (nz <= 1) {
+  else if (n_dim == 2) {
     double range_x = std::max(variogram.GetRangeX(), variogram.GetRangeY());
     double range_y = range_x;
     if (variogram.GetAzimuthAngle() == 0.0) {
@@ -87,6 +90,18 @@ std::vector<size_t> NRLib::FindNDimPadding(const Variogram & variogram,
   return pad;
 }
 
+std::vector<size_t> NRLib::FindNDimPadding(const Variogram & variogram,
+                                           size_t            nx,
+                                           double            dx,
+                                           size_t            ny,
+                                           double            dy,
+                                           size_t            nz,
+                                           double            dz)
+{
+  int n_dim = (ny <= 1) ? 1 : ((nz <= 1) ? 2 : 3);
+  return FindPadding(variogram, n_dim, nx, dx, ny, dy, nz, dz);
+}
+
 
 /****************************************************************************************/
 /* Implementations                                                                      */
@@ -109,13 +124,7 @@ void NRLib::Simulate3DGaussianField(const Variogram              & variogram,
                                     double                         scaling_y,
                                     double                         scaling_z)
 {
-  std::vector<size_t> default_padding = FindNDimPadding(variogram,
-                                                        nx,
-                                                        dx,
-                                                        ny,
-                                                        dy,
-                                                        nz,
-                                                        dz);
+  std::vector<size_t> default_padding = FindPadding(variogram, 3, nx, dx, ny, dy, nz, dz);
   // This is the desired padding, but may not be the actual of the
   // FFT grid. See below.
   size_t desired_padding_x = (padding_x < 0) ? default_padding[0] : padding_x;
@@ -234,11 +243,7 @@ void NRLib::Simulate2DGaussianField(const Variogram              & variogram,
                                     double                         scaling_x,
                                     double                         scaling_y)
 {
-  std::vector<size_t> default_padding = FindNDimPadding(variogram,
-                                                        nx,
-                                                        dx,
-                                                        ny,
-                                                        dy);
+  std::vector<size_t> default_padding = FindPadding(variogram, 2, nx, dx, ny, dy, 1, -1.0);
   // This is the desired padding, but may not be the actual of the
   // FFT grid. See below.
   size_t desired_padding_x = (padding_x < 0) ? default_padding[0] : padding_x;
-- 
2.43.0


From 1c0296dcf9edd15413f0f7b72ab64a7c5235a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:59 +0000
Subject: [PATCH 002/125] fix: release the random generator created for a
 simulation

The generator allocated when the caller passes none was never deleted, so
every 1D and 2D simulation leaked one generator state.
---
 src/nrlib/variogram/gaussianfield.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/variogram/gaussianfield.cpp b/src/nrlib/variogram/gaussianfield.cpp
index 1f11412..caee1dc 100644
--- a/src/nrlib/variogram/gaussianfield.cpp
+++ b/src/nrlib/variogram/gaussianfield.cpp
@@ -207,10 +207,12 @@ void NRLib::Simulate2DGaussianField(const Variogram& variogram,
                                     // bool   user_defined_padding,
                                     Grid2D<double> & grid_out)
 {
+  RandomGenerator local_rg;
   RandomGenerator * rg = NULL;
   try {
     unsigned long seed = Random::GetStartSeed();
-    rg = new RandomGenerator(seed);
+    local_rg.Initialize(seed);
+    rg = &local_rg;
   }
   catch (std::exception) {
     // This will occur if NRLib::Random is not initilized. In this case,
@@ -284,8 +286,9 @@ void NRLib::Simulate2DGaussianField(const Variogram              & variogram,
   // This is done to be able to do multithreading
   //NRLib::RandomGenerator random;
  // random.Initialize(seed);
+  RandomGenerator local_rg;
   if(rg == NULL) {
-    rg = new RandomGenerator();
+    rg = &local_rg;
     rg->Initialize(NRLib::Random::DrawUint32());
   }
   for (int k = 0; k < n_fields; k++) {
@@ -323,8 +326,9 @@ NRLib::Simulate1DGaussianField(const Variogram       & variogram,
 
   std::vector<double> cov = FFTCovGrid1D(variogram, static_cast<int>(nxp), dx, scaling_x).GetCov();
 
+  RandomGenerator local_rg;
   if(rg == NULL) {
-    rg = new RandomGenerator();
+    rg = &local_rg;
     rg->Initialize(NRLib::Random::DrawUint32());
   }
   std::vector<double> noise(nxp);
-- 
2.43.0


From bb405535c494241c8685fd70220393b1fd8e90ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:28 +0000
Subject: [PATCH 003/125] fix: keep the current seed when a seed file cannot be
 read

A malformed seed file made the reported start seed 0 (or the maximum) while
the generator went on with its previous stream.
---
 src/nrlib/random/random.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/random/random.cpp b/src/nrlib/random/random.cpp
index d00de76..44cdc9a 100644
--- a/src/nrlib/random/random.cpp
+++ b/src/nrlib/random/random.cpp
@@ -52,9 +52,11 @@ void Random::Initialize(const std::string& filename) {
   if (!file) {
     throw Exception("Error opening seed file " + filename + "\n");
   }
-  if (!(file >> start_seed_)) {
+  unsigned long seed;
+  if (!(file >> seed)) {
     throw Exception("Error reading seed from seed file " + filename + "\n");
   }
+  start_seed_ = seed;
   seed_file_ = filename;
   use_seed_file_ = true;
   is_initialized_ = true;
-- 
2.43.0


From 1998f12d5f8c178627c4889f3ecdfc35e25fce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:35 +0000
Subject: [PATCH 004/125] fix: 'from gaussianfft import *' failed on names
 which do not exist

---
 gaussianfft/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussianfft/__init__.py b/gaussianfft/__init__.py
index 89d8c34..d5dae06 100644
--- a/gaussianfft/__init__.py
+++ b/gaussianfft/__init__.py
@@ -29,6 +29,6 @@ def variogram(type, *args, **kwargs):
 
 __all__ = [
     'variogram', 'simulate', 'seed', 'advanced', 'simulation_size',
-    'quote', 'Variogram', 'VariogramType', 'util', 'SizeTVector', 'DoubleVector',
+    'quote', 'Variogram', 'VariogramType', 'util',
     '__version__',
 ]
-- 
2.43.0


From 4e6a8b2d761337fdd8d09ec16c3c826c59001469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:35 +0000
Subject: [PATCH 005/125] fix: padding sizes above the range of int overflowed

---
 src/nrlib/variogram/gaussianfield.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/variogram/gaussianfield.cpp b/src/nrlib/variogram/gaussianfield.cpp
index caee1dc..aabfaa0 100644
--- a/src/nrlib/variogram/gaussianfield.cpp
+++ b/src/nrlib/variogram/gaussianfield.cpp
@@ -44,10 +44,10 @@ size_t NRLib::FindGaussianFieldPadding(const Variogram & variogram, size_t grid_
 {
   return static_cast<size_t>(
     std::max(
-      static_cast<int>(variogram.GetMinimumRangeToGridRatio() * range / step - grid_size),
-      static_cast<int>(range/step)
-    ) + 1 // Add 1 to avoid rounding down errors
-  );
+      variogram.GetMinimumRangeToGridRatio() * range / step - grid_size,
+      range/step
+    )
+  ) + 1; // Add 1 to avoid rounding down errors
 }
 
 // Default padding for a simulation in n_dim dimensions. The number of dimensions is given
-- 
2.43.0


From 149797f5157339ea43636f8b9f565ffdbb28df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:35 +0000
Subject: [PATCH 006/125] fix: simulation_size ignored that negative steps
 reduce the dimension

---
 src/gaussfft.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gaussfft.cpp b/src/gaussfft.cpp
index cdd7e2e..690c1fb 100644
--- a/src/gaussfft.cpp
+++ b/src/gaussfft.cpp
@@ -32,6 +32,11 @@ std::vector<size_t> GaussFFT::FindGridSizeAfterPadding(NRLib::Variogram * variog
                                                        size_t             nz,
                                                        double             dz)
 {
+  // A negative step reduces the dimension, as in the simulation
+  if (dy < 0.0)
+    ny = 1;
+  if (dz < 0.0)
+    nz = 1;
   std::vector<size_t> out = NRLib::FindNDimPadding(*variogram,
                                                    nx,
                                                    dx,
-- 
2.43.0


From cf6f82fba4db996e6feef6bc27eadc211a57a2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:12 +0000
Subject: [PATCH 007/125] fix: FFT sizes from 2^24 could be rounded down, and 1
 was returned as an even size

---
 src/nrlib/fft/fft.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/fft/fft.cpp b/src/nrlib/fft/fft.cpp
index 1f59986..eae5005 100644
--- a/src/nrlib/fft/fft.cpp
+++ b/src/nrlib/fft/fft.cpp
@@ -56,10 +56,11 @@ NRLib::FindNewSizeWithPadding(size_t minSize, bool must_be_even) {
   if (must_be_even)
     minant2 = 1;
 
-  int maxant2 = static_cast<int>(ceil((double)log((float)(minSize)) / log(2.0f)));
-  int maxant3 = static_cast<int>(ceil((double)log((float)(minSize)) / log(3.0f)));
-  int maxant5 = static_cast<int>(ceil((double)log((float)(minSize)) / log(5.0f)));
-  int maxant7 = static_cast<int>(ceil((double)log((float)(minSize)) / log(7.0f)));
+  int maxant2 = static_cast<int>(ceil(log(static_cast<double>(minSize)) / log(2.0)));
+  int maxant3 = static_cast<int>(ceil(log(static_cast<double>(minSize)) / log(3.0)));
+  int maxant5 = static_cast<int>(ceil(log(static_cast<double>(minSize)) / log(5.0)));
+  int maxant7 = static_cast<int>(ceil(log(static_cast<double>(minSize)) / log(7.0)));
+  maxant2 = maxant2 < minant2 ? minant2 : maxant2;
   int maxant11 = 0;
   int maxant13 = 0;
   size_t closestprod = static_cast<size_t>(pow(2.0f, maxant2));
-- 
2.43.0


From a5f71a0d1d790fdeceef15e9108d5375a80ef948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:12 +0000
Subject: [PATCH 008/125] fix: upper half of the spectrum from ComputeFFT1D was
 not conjugated

---
 src/nrlib/fft/fft.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/fft/fft.hpp b/src/nrlib/fft/fft.hpp
index c03d6b0..052d101 100644
--- a/src/nrlib/fft/fft.hpp
+++ b/src/nrlib/fft/fft.hpp
@@ -109,7 +109,7 @@ void NRLib::ComputeFFT1D(FI begin, FI end, std::vector<std::complex<double> >& v
 
   for (size_t i = 1; i < complex_size; i++) {
     vOut[i] = complex_data[i];;
-    vOut[tot_size - i] = complex_data[i];
+    vOut[tot_size - i] = std::conj(complex_data[i]);
   }
   fftw_free(real_data);
   fftw_free(complex_data);
-- 
2.43.0


From bcf03969bc25511563dd14903705208ab62d011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:43 +0000
Subject: [PATCH 009/125] fix: correlation of strongly anisotropic variograms
 could be NaN from rounding

---
 src/nrlib/variogram/variogram.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/variogram/variogram.hpp b/src/nrlib/variogram/variogram.hpp
index 6e37338..14afba3 100644
--- a/src/nrlib/variogram/variogram.hpp
+++ b/src/nrlib/variogram/variogram.hpp
@@ -22,6 +22,7 @@
 #ifndef NRLIB_VARIOGRAM_VARIOGRAM_HPP
 #define NRLIB_VARIOGRAM_VARIOGRAM_HPP
 
+#include <algorithm>
 #include <string>
 #include <cmath>
 
@@ -116,11 +117,11 @@ private:
   void EstimateFactors();
   /// Normalized distance considering anisotropy: (3D)
   double Distance(double dx, double dy, double dz) const
-  { return std::sqrt(txx_*dx*dx + tyy_*dy*dy + tzz_*dz*dz + txy_*dx*dy
-                     + txz_*dx*dz + tyz_*dy*dz); }
+  { return std::sqrt(std::max(0.0, txx_*dx*dx + tyy_*dy*dy + tzz_*dz*dz + txy_*dx*dy
+                     + txz_*dx*dz + tyz_*dy*dz)); }
   /// Normalized distance considering anisotropy: (2D)
   double Distance(double dx, double dy) const
-  { return std::sqrt(txx_*dx*dx + tyy_*dy*dy + txy_*dx*dy); }
+  { return std::sqrt(std::max(0.0, txx_*dx*dx + tyy_*dy*dy + txy_*dx*dy)); }
   /// Normalized distance considering anisotropy: (1D)
   double Distance(double dx) const
   { return std::sqrt(txx_*dx*dx);}
-- 
2.43.0


From 88cba0db67ade029a9ba29552c160e9fe9800ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:29 +0000
Subject: [PATCH 010/125] fix: distances reported by EmpiricalVariogram were
 bin ends, not midpoints

---
 gaussianfft/util/empirical_variogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussianfft/util/empirical_variogram.py b/gaussianfft/util/empirical_variogram.py
index 7fe6230..e867f82 100644
--- a/gaussianfft/util/empirical_variogram.py
+++ b/gaussianfft/util/empirical_variogram.py
@@ -136,7 +136,7 @@ class EmpiricalVariogram:
     def find_midpoints(self, resolution):
         s = self.simulate()
         means, edges = self.binned_variogram_statistics(resolution, s)
-        return edges[:-1] + np.diff(edges)[0]
+        return edges[:-1] + np.diff(edges)[0] / 2
 
     def simulate(self):
         s = gaussianfft.advanced.simulate(self.v,
-- 
2.43.0


From ff985e9c0e223a6df154711871ea6e6150eb0e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:03 +0000
Subject: [PATCH 011/125] fix: binary reads from a truncated BigFile delivered
 garbage instead of an error

---
 src/nrlib/iotools/fileio.hpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/nrlib/iotools/fileio.hpp b/src/nrlib/iotools/fileio.hpp
index 2d1f490..6f9aa15 100644
--- a/src/nrlib/iotools/fileio.hpp
+++ b/src/nrlib/iotools/fileio.hpp
@@ -401,6 +401,14 @@ namespace NRLibPrivate {
   };
 
 
+  /// Read n bytes. Returns true only if all of them were read, both for
+  /// std::istream (which returns itself) and BigFile (which returns the number of bytes).
+  template <typename F>
+  bool ReadAll(F& stream, char* buffer, std::streamsize n)
+  {
+    return stream.read(buffer, n) && !stream.eof();
+  }
+
   /// Parse unsigned 32-bit integer from little-endian buffer.
   inline void ParseUInt16LE(const char* buffer, /*uint16_t*/ unsigned short& ui);
 
@@ -581,7 +589,7 @@ short NRLib::ReadBinaryShort(F& stream,
   unsigned short us;
   char buffer[2];
 
-  if (!stream.read(buffer, 2)) {
+  if (!NRLibPrivate::ReadAll(stream, buffer, 2)) {
     if (stream.eof())
       throw EndOfFile();
     else
@@ -642,7 +650,7 @@ I NRLib::ReadBinaryShortArray(F& stream,
 {
   std::vector<std::uint16_t> buffer(n);
 
-  if (!stream.read(reinterpret_cast<char *>(&buffer[0]),
+  if (!NRLibPrivate::ReadAll(stream, reinterpret_cast<char *>(&buffer[0]),
                    static_cast<std::streamsize>(2 * n))) {
     throw Exception("Error reading from stream (f).");
   }
@@ -701,7 +709,7 @@ int NRLib::ReadBinaryInt(F& stream,
   unsigned int ui;
   char buffer[4];
 
-  if (!stream.read(buffer, 4)) {
+  if (!NRLibPrivate::ReadAll(stream, buffer, 4)) {
     if (stream.eof())
       throw EndOfFile();
     else
@@ -762,7 +770,7 @@ I NRLib::ReadBinaryIntArray(F& stream,
 {
   std::vector<std::uint32_t> buffer(n);
 
-  if (!stream.read(reinterpret_cast<char *>(&buffer[0]),
+  if (!NRLibPrivate::ReadAll(stream, reinterpret_cast<char *>(&buffer[0]),
                    static_cast<std::streamsize>(4 * n))) {
     throw Exception("Error reading from stream (g).");
   }
@@ -821,7 +829,7 @@ float NRLib::ReadBinaryFloat(F& stream,
   float f;
   char buffer[4];
 
-  if (!stream.read(buffer, 4)) {
+  if (!NRLibPrivate::ReadAll(stream, buffer, 4)) {
     if (stream.eof())
       throw EndOfFile();
     else
@@ -883,7 +891,7 @@ I NRLib::ReadBinaryFloatArray(F& stream,
 {
   std::vector<std::uint32_t> buffer(n);
 
-  if (!stream.read(reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4*n))) {
+  if (!NRLibPrivate::ReadAll(stream, reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4*n))) {
     throw Exception("Error reading from stream (h).");
   }
 
@@ -946,7 +954,7 @@ double NRLib::ReadBinaryDouble(F& stream,
   double d;
   char buffer[8];
 
-  if (!stream.read(buffer, 8)) {
+  if (!NRLibPrivate::ReadAll(stream, buffer, 8)) {
     if (stream.eof())
       throw EndOfFile();
     else
@@ -1007,7 +1015,7 @@ I NRLib::ReadBinaryDoubleArray(F& stream,
 {
   std::vector<std::uint64_t> buffer(n);
 
-  if (!stream.read(reinterpret_cast<char *>(&buffer[0]),
+  if (!NRLibPrivate::ReadAll(stream, reinterpret_cast<char *>(&buffer[0]),
                    static_cast<std::streamsize>(8 * n))) {
     throw Exception("Error reading from stream (i).");
   }
@@ -1074,7 +1082,7 @@ I NRLib::ReadBinaryIbmFloatArray(F& stream,
   std::vector<std::uint32_t> buffer(n);
 
   std::string error;
-  if (!stream.read(reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4*n))) {
+  if (!NRLibPrivate::ReadAll(stream, reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4*n))) {
     if (stream.eof())
       error = "Error reading binary IBM float array. Trying to read 4*" + NRLib::ToString(n) + " elements when end-of-file was reached.\n";
     else {
@@ -1139,7 +1147,7 @@ float NRLib::ReadBinaryIbmFloat(F& stream,
   float f = 0.0;
   char buffer[4];
 
-  if (!stream.read(buffer, 4)) {
+  if (!NRLibPrivate::ReadAll(stream, buffer, 4)) {
     if (stream.eof())
       throw EndOfFile();
     else
-- 
2.43.0


From be786904e9ba651f72a39a119f29295d70c85f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:03 +0000
Subject: [PATCH 012/125] fix: empty binary arrays accessed the first element
 of an empty vector

---
 src/nrlib/iotools/fileio.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/nrlib/iotools/fileio.hpp b/src/nrlib/iotools/fileio.hpp
index 6f9aa15..d1dc54d 100644
--- a/src/nrlib/iotools/fileio.hpp
+++ b/src/nrlib/iotools/fileio.hpp
@@ -618,6 +618,8 @@ void NRLib::WriteBinaryShortArray(F& stream,
                                   NRLib::Endianess number_representation)
 {
   typename I::difference_type n_in = std::distance(begin, end);
+  if (n_in == 0)
+    return;
 
   std::vector<std::uint16_t> buffer(n_in);
   memcpy(&buffer[0], &begin[0], 2 * n_in);
@@ -648,6 +650,9 @@ I NRLib::ReadBinaryShortArray(F& stream,
                               size_t n,
                               NRLib::Endianess number_representation)
 {
+  if (n == 0)
+    return begin;
+
   std::vector<std::uint16_t> buffer(n);
 
   if (!NRLibPrivate::ReadAll(stream, reinterpret_cast<char *>(&buffer[0]),
@@ -738,6 +743,8 @@ void NRLib::WriteBinaryIntArray(F& stream,
                                 NRLib::Endianess number_representation)
 {
   typename I::difference_type n_in = std::distance(begin, end);
+  if (n_in == 0)
+    return;
 
   std::vector<std::uint32_t> buffer(n_in);
   memcpy(&buffer[0], &begin[0], 4 * n_in);
@@ -768,6 +775,9 @@ I NRLib::ReadBinaryIntArray(F& stream,
                             size_t n,
                             NRLib::Endianess number_representation)
 {
+  if (n == 0)
+    return begin;
+
   std::vector<std::uint32_t> buffer(n);
 
   if (!NRLibPrivate::ReadAll(stream, reinterpret_cast<char *>(&buffer[0]),
@@ -858,6 +868,8 @@ void NRLib::WriteBinaryFloatArray(F& stream,
                                   NRLib::Endianess number_representation)
 {
   typename I::difference_type n_in = std::distance(begin, end);
+  if (n_in == 0)
+    return;
 
   std::vector<std::uint32_t> buffer(n_in);
 
@@ -889,6 +901,9 @@ I NRLib::ReadBinaryFloatArray(F& stream,
                               size_t n,
                               NRLib::Endianess number_representation)
 {
+  if (n == 0)
+    return begin;
+
   std::vector<std::uint32_t> buffer(n);
 
   if (!NRLibPrivate::ReadAll(stream, reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4*n))) {
@@ -983,6 +998,8 @@ void NRLib::WriteBinaryDoubleArray(F& stream,
                                    NRLib::Endianess number_representation)
 {
   typename I::difference_type n_in = std::distance(begin, end);
+  if (n_in == 0)
+    return;
   std::vector<std::uint64_t> buffer(n_in);
 
   memcpy(&buffer[0], &begin[0], 8 * n_in);
@@ -1013,6 +1030,9 @@ I NRLib::ReadBinaryDoubleArray(F& stream,
                                size_t n,
                                NRLib::Endianess number_representation)
 {
+  if (n == 0)
+    return begin;
+
   std::vector<std::uint64_t> buffer(n);
 
   if (!NRLibPrivate::ReadAll(stream, reinterpret_cast<char *>(&buffer[0]),
@@ -1046,6 +1066,8 @@ void NRLib::WriteBinaryIbmFloatArray(F& stream,
                                      NRLib::Endianess number_representation)
 {
   typename I::difference_type n_in = std::distance(begin, end);
+  if (n_in == 0)
+    return;
   std::vector<std::uint32_t> buffer(n_in);
 
   memcpy(&buffer[0], &begin[0], 4 * n_in);
@@ -1079,6 +1101,9 @@ I NRLib::ReadBinaryIbmFloatArray(F& stream,
                                  size_t n,
                                  NRLib::Endianess number_representation)
 {
+  if (n == 0)
+    return begin;
+
   std::vector<std::uint32_t> buffer(n);
 
   std::string error;
-- 
2.43.0


From af2afc3ecebb2a1561d8c6e8d98fcf664a800380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:03 +0000
Subject: [PATCH 013/125] fix: undefined shift when parsing negative big-endian
 integers

---
 src/nrlib/iotools/fileio.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/nrlib/iotools/fileio.hpp b/src/nrlib/iotools/fileio.hpp
index d1dc54d..42297b1 100644
--- a/src/nrlib/iotools/fileio.hpp
+++ b/src/nrlib/iotools/fileio.hpp
@@ -1261,11 +1261,9 @@ void NRLib::NRLibPrivate::WriteUInt16LE(char* buffer,
 void NRLib::ParseInt32BE(const char* buffer,
                          /*int32_t*/ int& ui)
 {
-  ui = static_cast<unsigned char>(buffer[0]);
-  for (int i = 1; i < 4; ++i) {
-    ui <<= 8;
-    ui |= static_cast<unsigned char>(buffer[i]);
-  }
+  unsigned int tmp;
+  ParseUInt32BE(buffer, tmp);
+  ui = static_cast<int>(tmp);
 }
 
 // --------------  32 bit unsigned integer -----------------
-- 
2.43.0


From 41e91ce4a07b8080f0979b308c6d522a1c582aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:03 +0000
Subject: [PATCH 014/125] fix: unnormalised IBM floats, such as zeros with an
 exponent, were decoded wrongly

---
 src/nrlib/iotools/fileio.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nrlib/iotools/fileio.hpp b/src/nrlib/iotools/fileio.hpp
index 42297b1..035de4b 100644
--- a/src/nrlib/iotools/fileio.hpp
+++ b/src/nrlib/iotools/fileio.hpp
@@ -1449,6 +1449,12 @@ void NRLib::NRLibPrivate::Ibm2Ieee(std::uint32_t& in)
   /*uint32_t*/ unsigned int manthi, iexp, inabs;
   int ix;
 
+  // Normalise: the leading hexadecimal digit of the fraction must be non-zero.
+  if ( ( in & 0x00ffffff ) == 0 )
+    in = 0;
+  while ( ( in & 0x00ffffff ) != 0 && ( in & 0x00f00000 ) == 0 && ( in & 0x7f000000 ) != 0 )
+    in = ( in & 0x80000000 ) | ( ( in & 0x7f000000 ) - 0x01000000 ) | ( ( in & 0x000fffff ) << 4 );
+
   manthi = in & 0x00ffffff;
   ix     = manthi >> 21;
   iexp   = ( ( in & 0x7f000000 ) - it[ix] ) << 1;
-- 
2.43.0


From 56f77c4ebe9b23b3c1ef9a956d93a5e4e81a9434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:42 +0000
Subject: [PATCH 015/125] fix: Substitute removed text of the wrong length and
 could loop forever

---
 src/nrlib/iotools/stringtools.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/iotools/stringtools.cpp b/src/nrlib/iotools/stringtools.cpp
index e810b22..3e50ad2 100644
--- a/src/nrlib/iotools/stringtools.cpp
+++ b/src/nrlib/iotools/stringtools.cpp
@@ -144,11 +144,12 @@ NRLib::Substitute(std::string       & text,
                    const std::string & out,
                    const std::string & in)
 {
-  std::string::size_type len = in.size();
+  if (out.empty())
+    return;
   std::string::size_type pos = text.find(out);
   while (pos != std::string::npos) {
-    text.replace(pos, len, in);
-    pos = text.find(out);
+    text.replace(pos, out.size(), in);
+    pos = text.find(out, pos + in.size());
   }
 }
 
-- 
2.43.0


From 48e148951530ae4fd4e2a38edc5941629436b266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:42 +0000
Subject: [PATCH 016/125] fix: GetQuotedTokens skipped a quote at the start of
 the line and hung on a missing end quote

---
 src/nrlib/iotools/stringtools.cpp | 33 +++++++++++++------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/nrlib/iotools/stringtools.cpp b/src/nrlib/iotools/stringtools.cpp
index 3e50ad2..dd502d5 100644
--- a/src/nrlib/iotools/stringtools.cpp
+++ b/src/nrlib/iotools/stringtools.cpp
@@ -115,26 +115,21 @@ std::vector<std::string>
 NRLib::GetQuotedTokens(const std::string& s)
 {
   std::vector<std::string> v;
-  std::istringstream iss(s);
-  std::string tmp;
-  std::string char_tmp;
-  size_t quotation_last_position = 0;
-  while(iss >> tmp) {
-    char_tmp = tmp.substr(0, 1);
-    if (char_tmp != "\"")
-      v.push_back(tmp);
-    else{
-      quotation_last_position = s.find_first_of("\"", quotation_last_position + 1);
-      size_t first_quotation_mark = quotation_last_position;
-      quotation_last_position = s.find_first_of("\"", quotation_last_position + 1);
-      size_t second_quotation_mark = quotation_last_position;
-      std::string quotation = s.substr(first_quotation_mark + 1, (second_quotation_mark - first_quotation_mark - 1));
-      v.push_back(quotation);
-      if (char_tmp == tmp)
-        iss >> tmp;
-      while (tmp.substr((tmp.size() - 1), 1) != "\"")
-        iss >> tmp;
+  size_t pos = s.find_first_not_of(Whitespace());
+  while (pos != std::string::npos) {
+    size_t end;
+    if (s[pos] == '"') {
+      end = s.find('"', pos + 1);
+      if (end == std::string::npos)
+        throw Exception("Missing end quote in \"" + s + "\"");
+      v.push_back(s.substr(pos + 1, end - pos - 1));
+      ++end;
+    }
+    else {
+      end = s.find_first_of(Whitespace(), pos);
+      v.push_back(s.substr(pos, end - pos));
     }
+    pos = s.find_first_not_of(Whitespace(), end);
   }
   return v;
 }
-- 
2.43.0


From ac1f857c3f27ffb4232ce5932ea4588f02c484c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:42 +0000
Subject: [PATCH 017/125] fix: ParseAsciiArrayFast started over at the first
 element when elements were missing

---
 src/nrlib/iotools/stringtools.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/iotools/stringtools.hpp b/src/nrlib/iotools/stringtools.hpp
index f8a0e8c..8206a88 100644
--- a/src/nrlib/iotools/stringtools.hpp
+++ b/src/nrlib/iotools/stringtools.hpp
@@ -202,9 +202,11 @@ I NRLib::ParseAsciiArrayFast(std::string& s, I begin, size_t n)
     }
     *begin = NRLibPrivate::UnsafeParser<T>::ParseType(&s[pos]);
     ++begin;
+    ++i;
+    if (next_pos == s.npos)
+      break; // Last element in string.
     pos = s.find_first_not_of(whitespace, next_pos + 1);
     next_pos = s.find_first_of(whitespace, pos + 1);
-    ++i;
   }
 
   if (i != n) {
-- 
2.43.0


From c3b1d00c3b259ef2ee1f3cf9efe24b5b42e6b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:43 +0000
Subject: [PATCH 018/125] fix: ReadAsciiArrayFast failed when the file ends
 directly after the last element

---
 src/nrlib/iotools/fileio.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/iotools/fileio.hpp b/src/nrlib/iotools/fileio.hpp
index 035de4b..bfa6cea 100644
--- a/src/nrlib/iotools/fileio.hpp
+++ b/src/nrlib/iotools/fileio.hpp
@@ -524,10 +524,10 @@ I NRLib::ReadAsciiArrayFast(std::istream& stream, I begin, size_t n)
   for (size_t i = 0; i < n; ++i) {
     stream >> *begin;
     ++begin;
-    if ( stream.eof() ) {
-      throw EndOfFile();
-    }
     if ( stream.fail() ) {
+      if ( stream.eof() ) {
+        throw EndOfFile();
+      }
       stream.clear();
       std::string nextToken;
       stream >> nextToken;
-- 
2.43.0


From 82c226003c090d92bf83cd6d1d4e0f694c666a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:43 +0000
Subject: [PATCH 019/125] fix: ReadNextQuoted read past an empty quoted string

---
 src/nrlib/iotools/fileio.cpp | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/nrlib/iotools/fileio.cpp b/src/nrlib/iotools/fileio.cpp
index f751ff5..8638625 100644
--- a/src/nrlib/iotools/fileio.cpp
+++ b/src/nrlib/iotools/fileio.cpp
@@ -421,28 +421,16 @@ void NRLib::ReadNextQuoted(std::istream& stream, char quote, std::string&  s, in
   char c = 0;
 
   int found = 0;
-  while( found == 0 && !stream.eof() ){
-    stream.get(c);
-    if (c == '\n'){
-      line++;
-    }
-    if (c == quote){
-      found++;
-      stream.get(c);
-    }
-  }
-  s ="";
-  while( found == 1  && !stream.eof() ) {
-    s = s+c;
-    stream.get(c);
-    if (c == '\n'){
+  s = "";
+  while (found < 2 && stream.get(c)) {
+    if (c == '\n')
       line++;
-    }
-    if (c == quote){
+    if (c == quote)
       found++;
-    }
+    else if (found == 1)
+      s = s+c;
   }
-  if (s == "")              //We are at end of file if nothing is read.
+  if (found == 0 || (found == 1 && s == "")) //We are at end of file if nothing is read.
     throw EndOfFile();
 
 }
-- 
2.43.0


From 49e260484cfc1e628d07258a6fbbfe430ff23f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:43 +0000
Subject: [PATCH 020/125] fix: ReadNextToken kept the previous token at the end
 of the file

---
 src/nrlib/iotools/fileio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/iotools/fileio.cpp b/src/nrlib/iotools/fileio.cpp
index 8638625..3781228 100644
--- a/src/nrlib/iotools/fileio.cpp
+++ b/src/nrlib/iotools/fileio.cpp
@@ -210,9 +210,9 @@ std::istream& NRLib::ReadNextToken(std::istream & stream,
 {
   std::locale loc = std::locale();
   char c;
+  s = "";
   if (!stream.good()) {
     stream.setstate(std::ifstream::failbit);
-    s = "";
     return stream;
   }
   while(stream.get(c) && std::isspace(c,loc) == true ) {
-- 
2.43.0


From 5c3c333d8a9d072cf761dd2c0e30bebe90e427de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:43 +0000
Subject: [PATCH 021/125] fix: checking a tabular file without any text read
 outside the list of tokens

---
 src/nrlib/iotools/tabularfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/iotools/tabularfile.cpp b/src/nrlib/iotools/tabularfile.cpp
index f19c192..b77fed1 100644
--- a/src/nrlib/iotools/tabularfile.cpp
+++ b/src/nrlib/iotools/tabularfile.cpp
@@ -66,6 +66,8 @@ bool TabularFile::CheckFile(const std::string & filename,
   OpenRead(in_file0, filename);
   last_line = FindLastNonEmptyLine(in_file0);
   std::vector<std::string> tokens = GetTokens(last_line);
+  if (tokens.empty())
+    return false;
   read_last_line = true;
   if (!IsType<double>(tokens[0])) {
     read_last_line = false;
-- 
2.43.0


From d39991db63adddfb67468564c6f3ecafa5b20a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:43 +0000
Subject: [PATCH 022/125] fix: SkipComments compared an uninitialised character
 at the end of the file

---
 src/nrlib/iotools/fileio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/iotools/fileio.cpp b/src/nrlib/iotools/fileio.cpp
index 3781228..575dd2e 100644
--- a/src/nrlib/iotools/fileio.cpp
+++ b/src/nrlib/iotools/fileio.cpp
@@ -292,7 +292,7 @@ void NRLib::SkipComments(std::istream & stream,
   bool comment = true;
 
   while (comment == true && stream.good()) {
-    char c;
+    char c = ' ';
 
     while(stream.get(c) && std::isspace(c, loc)) {
       if (c == '\n')
-- 
2.43.0


From f6382c72312e8d95e987caebe7acde4d917f8596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:54 +0000
Subject: [PATCH 023/125] fix: density of SplitUniform was zero in the upper
 half and positive above the maximum

---
 src/nrlib/random/splituniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/random/splituniform.hpp b/src/nrlib/random/splituniform.hpp
index 2e4b393..df15b7a 100644
--- a/src/nrlib/random/splituniform.hpp
+++ b/src/nrlib/random/splituniform.hpp
@@ -69,7 +69,7 @@ double SplitUniform::Pdf(double x) const {
   if (x >= min_val_ && x < mean_val_) {
     p = 0.5 / (mean_val_ - min_val_);
   }
-  else if (x > mean_val_ && x > max_val_) {
+  else if (x > mean_val_ && x <= max_val_) {
     p = 0.5 / (max_val_ - mean_val_);
   }
   else if (x == mean_val_) {
-- 
2.43.0


From 30a2bbda603373a571f7b7f37cceea1bf77a051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:54 +0000
Subject: [PATCH 024/125] fix: LogNormal drew with stale parameters, had no
 default deviation and was NaN below zero

---
 src/nrlib/random/lognormal.cpp | 2 +-
 src/nrlib/random/lognormal.hpp | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/random/lognormal.cpp b/src/nrlib/random/lognormal.cpp
index 619df76..2c27adf 100644
--- a/src/nrlib/random/lognormal.cpp
+++ b/src/nrlib/random/lognormal.cpp
@@ -31,7 +31,7 @@ namespace NRLib {
 LogNormal::LogNormal()
   : normal_(Normal()),
     mu_(0.0),
-    sigma_(0.0)
+    sigma_(1.0)
 {
   exp_ = std::exp(0.5);
   std_dev_ = std::sqrt((std::exp(1.0) - 1.0) * std::exp(1.0));
diff --git a/src/nrlib/random/lognormal.hpp b/src/nrlib/random/lognormal.hpp
index e574d2f..c8ed316 100644
--- a/src/nrlib/random/lognormal.hpp
+++ b/src/nrlib/random/lognormal.hpp
@@ -62,7 +62,7 @@ void LogNormal::SetParameters(double mu, double sigma)
 {
   // If mean and std. dev. are in the log normal distribution, we calculate the corresponding
   // mu and sigma in the normal distribution
-  normal_.SetParameters(mu_, sigma_);
+  normal_.SetParameters(mu, sigma);
   mu_ = mu;
   sigma_ = sigma;
   exp_ = std::exp(mu_ + 0.5 * sigma_ * sigma_);
@@ -82,11 +82,15 @@ double LogNormal::Draw(RandomGenerator & g) const {
 }
 
 double LogNormal::Pdf(double x) const {
+  if (x <= 0.0)
+    return 0.0;
   double var = sigma_*sigma_;
   return std::exp(-(log(x)-mu_)*(log(x)-mu_)/(2.0*var)) / (sqrt(2.0*NRLib::Pi)*sigma_*x);
 }
 
 double LogNormal::Cdf(double x) const {
+  if (x <= 0.0)
+    return 0.0;
   double z = (log(x) - mu_)/sigma_;
   return erfc(-z * NRLib::Sqrt1_2) / 2.0;
 }
-- 
2.43.0


From d89b2e368fd16cdb2b9cbfd9ca0ce331d9e5ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:54 +0000
Subject: [PATCH 025/125] fix: density of Beta was taken half a bin too low,
 and bins were looked up past the end

---
 src/nrlib/random/beta.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/nrlib/random/beta.hpp b/src/nrlib/random/beta.hpp
index 182c563..3bd2ab8 100644
--- a/src/nrlib/random/beta.hpp
+++ b/src/nrlib/random/beta.hpp
@@ -27,6 +27,8 @@
 #include "distribution.hpp"
 #include "../iotools/logkit.hpp"
 
+#include <algorithm>
+
 namespace NRLib {
 
 class Beta : public Distribution<double> {
@@ -66,11 +68,12 @@ private:
 double
 Beta::Pdf(double x) const
 {
-  // round x to cell-center
-  int ix = int( (x-min_val_)/(max_val_-min_val_) * nx_-0.5 );
   double d = 0.0;
-  if(x >= min_val_ && x <= max_val_)
-   d = pdf_[ix];
+  if(x >= min_val_ && x <= max_val_) {
+    // round x to cell-center
+    int ix = std::min(int( (x-min_val_)/dx_ ), nx_-1);
+    d = pdf_[ix];
+  }
 
   return d;
 }
@@ -79,8 +82,6 @@ double
 Beta::Cdf(double x) const
 {
   // linear interpolation between cell bounaries
-  int ix = int( (x-min_val_)/dx_);
-
   double lowP  = 0.0;
   double p     = 0.0;
   double w     = 0.0;
@@ -94,6 +95,7 @@ Beta::Cdf(double x) const
       p=1.0;
     else
     {
+      int ix = std::min(int( (x-min_val_)/dx_ ), nx_-1);
       if(ix==0)
         lowP=0.0;
       else
@@ -112,7 +114,7 @@ Beta::Quantile(double p) const
   // Inverse of CDF
 
   // linear interpolation between cell bounaries
-  int ip = int( p*nx_);
+  int ip = std::min(int( p*nx_), nx_-1);
 
   double lowX  = min_val_;
   double x     = min_val_;
-- 
2.43.0


From a7d88b5abcbdf1837732631065b550c11dc2d038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:23 +0000
Subject: [PATCH 026/125] fix: the cumulative function of Poisson was wrong,
 and its density overflowed from 13

---
 src/nrlib/random/poisson.cpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/nrlib/random/poisson.cpp b/src/nrlib/random/poisson.cpp
index bae965d..444ee90 100644
--- a/src/nrlib/random/poisson.cpp
+++ b/src/nrlib/random/poisson.cpp
@@ -66,27 +66,19 @@ namespace NRLib {
 
   double Poisson::Pdf(int x) const
   {
-    int x_fac = 1;
-    int i = 1;
-    while (i < x) {
-      i++;
-      x_fac = x_fac * i;
-    }
-    double pdf = std::exp(x*std::log(lambda_)-lambda_)/x_fac;
+    if (x < 0)
+      return 0.0;
+    double pdf = std::exp(x*std::log(lambda_)-lambda_-NRLib::gammln(x + 1.0));
     return pdf;
   }
 
 
   double Poisson::Cdf(int x) const
   {
-    int x_fac = 1;
-    int i = 1;
-    while (i < x) {
-      i++;
-      x_fac = x_fac * i;
-    }
+    if (x < 0)
+      return 0.0;
     double x1 = x + 1.0;
-    double cdf = NRLib::gammp(x1, lambda_)/x_fac;
+    double cdf = 1.0 - NRLib::gammp(x1, lambda_);
     return cdf;
 
   }
-- 
2.43.0


From 1255dd287f9f8a7d6427f8e350e0e92702505805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:23 +0000
Subject: [PATCH 027/125] fix: Binomial was NaN for more than 1029 trials, and
 its quantile was not the inverse of Cdf

---
 src/nrlib/random/binomial.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/nrlib/random/binomial.cpp b/src/nrlib/random/binomial.cpp
index 17df430..87942f6 100644
--- a/src/nrlib/random/binomial.cpp
+++ b/src/nrlib/random/binomial.cpp
@@ -65,7 +65,8 @@ double Binomial::Pdf(int x) const
     return 0.0;
   else
   {
-    double pdf = bico(n_,x)*std::exp((x*std::log(p_))+((n_-x)*std::log(1.0-p_)));
+    double log_bico = gammln(n_+1.0) - gammln(x+1.0) - gammln(n_-x+1.0);
+    double pdf = std::exp(log_bico + (x*std::log(p_))+((n_-x)*std::log(1.0-p_)));
     return pdf;
   }
 }
@@ -93,20 +94,17 @@ int Binomial::Quantile(double q) const
   while (high - low > 1)
   {
     middle = (high + low) >> 1;
-    if (cdf_[middle] <=q)
+    if (cdf_[middle] < q)
       low = middle;
     else
       high = middle;
     //    middle = int(0.5*(high+low));
   }
 
-  if (high == low)
+  if (cdf_[low] >= q)
     return low;
   else
-    if (cdf_[high] > q && cdf_[low] <= q)
-      return high;
-    else
-      return low;
+    return high;
 }
 
 } // namespace NRLib
-- 
2.43.0


From 9111b899db1fd9466e7455546f008f125ef83888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:23 +0000
Subject: [PATCH 028/125] fix: GeneralDiscrete read past its table outside the
 support and when the sum rounds below 1

---
 src/nrlib/random/generaldiscrete.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/random/generaldiscrete.hpp b/src/nrlib/random/generaldiscrete.hpp
index fac145b..c5b7802 100644
--- a/src/nrlib/random/generaldiscrete.hpp
+++ b/src/nrlib/random/generaldiscrete.hpp
@@ -36,8 +36,8 @@ public:
 
   Distribution<int>* Clone() const;
 
-  inline double Pdf(int i) const { return hist_[i]; }
-  inline double Cdf(int i) const { return cum_hist_[i]; }
+  inline double Pdf(int i) const;
+  inline double Cdf(int i) const;
   inline int Quantile(double x) const;
 
   size_t GetN() const { return hist_.size(); }
@@ -52,10 +52,27 @@ private:
 
 // ---------------- IMPLEMENTATION OF INLINE FUNCTIONS -----------------
 
+double GeneralDiscrete::Pdf(int i) const {
+  if (i < 0 || static_cast<size_t>(i) >= hist_.size())
+    return 0.0;
+  return hist_[i];
+}
+
+
+double GeneralDiscrete::Cdf(int i) const {
+  if (i < 0)
+    return 0.0;
+  if (static_cast<size_t>(i) >= cum_hist_.size())
+    return 1.0;
+  return cum_hist_[i];
+}
+
+
 int GeneralDiscrete::Quantile(double p) const {
   assert(p >= 0.0 && p <= 1.0);
   int i = 0;
-  while (cum_hist_[i] < p) {
+  // The cumulative sum may end slightly below 1.
+  while (static_cast<size_t>(i) + 1 < cum_hist_.size() && cum_hist_[i] < p) {
     i++;
   }
   return(i);
-- 
2.43.0


From 8c8eedf8b1a3ca941fcdd6ace7aa328596efdd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:23 +0000
Subject: [PATCH 029/125] fix: density of ChiSquared with two degrees of
 freedom was NaN in zero

---
 src/nrlib/random/chisquared.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/random/chisquared.hpp b/src/nrlib/random/chisquared.hpp
index 5212aac..4d16e4a 100644
--- a/src/nrlib/random/chisquared.hpp
+++ b/src/nrlib/random/chisquared.hpp
@@ -56,6 +56,8 @@ double ChiSquared::Pdf(double x) const
 {
   if (x < 0)
     return 0.0;
+  else if (x == 0.0 && df_ == 2.0)
+    return 0.5;
   else
     return std::exp(-0.5*(x-(df_-2)*std::log(x)) - fac_);
 }
-- 
2.43.0


From c93615aadf9033de80d400626e43874fd603ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:47 +0000
Subject: [PATCH 030/125] fix: PhiInverse returned a bracket end for
 probabilities within 1e-6, so truncated draws fell far out in the tail

---
 src/nrlib/random/normal.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/random/normal.cpp b/src/nrlib/random/normal.cpp
index fbc7903..07807c2 100644
--- a/src/nrlib/random/normal.cpp
+++ b/src/nrlib/random/normal.cpp
@@ -78,10 +78,10 @@ Normal::PhiInverse(double y) const
   else
     return mean_;
 
-  if (IsEqual(Cdf(upper_limit),y))
+  if (Cdf(upper_limit) == y)
     return upper_limit;
 
-  if (IsEqual(Cdf(lower_limit),y))
+  if (Cdf(lower_limit) == y)
     return lower_limit;
 
   return RootPHI(lower_limit, upper_limit, 1.0e-10, 1000, y);
@@ -127,9 +127,9 @@ double Normal::RootPHI(double lower,double upper,double xacc,int MaxIt, double y
   PHIMinusyAndphi(lower, y, fl, df);
   PHIMinusyAndphi(upper, y, fh, df);
 
-  if (IsZero(fl))
+  if (fl == 0.0)
     return lower;
-  else if (IsZero(fh))
+  else if (fh == 0.0)
     return upper;
 
   if (fl*fh >= 0.0)
-- 
2.43.0


From 806ad7f74d8dd529e95a00d1addccb8bce60fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:59 +0000
Subject: [PATCH 031/125] fix: the highest quantiles of Beta could lie outside
 the support when the cumulative sum rounds below 1

---
 src/nrlib/random/beta.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/random/beta.cpp b/src/nrlib/random/beta.cpp
index f6d9cc8..ca76542 100644
--- a/src/nrlib/random/beta.cpp
+++ b/src/nrlib/random/beta.cpp
@@ -20,6 +20,7 @@
 // EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "beta.hpp"
+#include <algorithm>
 #include <cmath>
 #include <cstdio>
 #include <cassert>
@@ -128,7 +129,7 @@ Beta::ComputeQuantile()
     if(highP <= lowP)
       w = 1.0;
     else
-      w= (dp*(i+1)-lowP)/(highP-lowP);
+      w= std::min(1.0, (dp*(i+1)-lowP)/(highP-lowP));
 
     quantile_[i] = (1-w)*lowX + w*highX;
   }
-- 
2.43.0


From cbaa6449e13c4cac877281c49c208aa03eeb29bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:26 +0000
Subject: [PATCH 032/125] fix: ResampleSurface sampled at other locations than
 those of the resampled nodes

---
 src/nrlib/surface/regularsurfacerotated.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nrlib/surface/regularsurfacerotated.hpp b/src/nrlib/surface/regularsurfacerotated.hpp
index 5f00431..ab3f75c 100644
--- a/src/nrlib/surface/regularsurfacerotated.hpp
+++ b/src/nrlib/surface/regularsurfacerotated.hpp
@@ -470,8 +470,7 @@ RegularSurface<A> RegularSurfaceRotated<A>::ResampleSurface() const
   for(i=0;i<nx;i++)
     for(j=0;j<ny;j++)
     {
-      x = x_min_ + i*dx;
-      y = y_min_ + j*dy;
+      surf.GetXY(i, j, x, y);
       value = GetZ(x,y);
       surf(i,j) = value;
     }
-- 
2.43.0


From bdd5df04ebb6bce0cc9e2f4d416b3a199fbe206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:26 +0000
Subject: [PATCH 033/125] fix: the extent of a rotated surface was stale after
 SetAngle

---
 src/nrlib/surface/regularsurfacerotated.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/surface/regularsurfacerotated.hpp b/src/nrlib/surface/regularsurfacerotated.hpp
index ab3f75c..31450f5 100644
--- a/src/nrlib/surface/regularsurfacerotated.hpp
+++ b/src/nrlib/surface/regularsurfacerotated.hpp
@@ -150,7 +150,7 @@ public:
   RegularSurface<A> ResampleSurface() const ;
 
   double GetAngle() const       { return angle_  ;}
-  void   SetAngle(double angle) { angle_ = angle ;}
+  void   SetAngle(double angle) { angle_ = angle; CalculateMinMaxXY(); }
 
   A GetMissingValue() const { return surface_.GetMissingValue() ;}
   void SetMissingValue(A missing_val) { surface_.SetMissingValue(missing_val); }
-- 
2.43.0


From 8f931b9af8d311158b1cedd518c0f3a605a4376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:26 +0000
Subject: [PATCH 034/125] fix: storm surfaces with a single row or column could
 be written but not read

---
 src/nrlib/surface/surfaceio.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/surface/surfaceio.hpp b/src/nrlib/surface/surfaceio.hpp
index ab8f4d9..36630a1 100644
--- a/src/nrlib/surface/surfaceio.hpp
+++ b/src/nrlib/surface/surfaceio.hpp
@@ -131,10 +131,10 @@ void NRLib::ReadStormBinarySurf(const std::string & filename,
     double lx = x_max - x_min;
     double ly = y_max - y_min;
 
-    if (!NRLibPrivate::Equal(lx/(ni-1), dx)) {
+    if (ni > 1 && !NRLibPrivate::Equal(lx/(ni-1), dx)) {
       throw FileFormatError("Inconsistent data in file. dx != lx/(nx-1).");
     }
-    if (!NRLibPrivate::Equal(ly/(nj-1), dy)) {
+    if (nj > 1 && !NRLibPrivate::Equal(ly/(nj-1), dy)) {
       throw FileFormatError("Inconsistent data in file. dy != ly/(ny-1).");
     }
 
-- 
2.43.0


From 12ba40ab470e0b88952bf6f6743188464da9a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:26 +0000
Subject: [PATCH 035/125] fix: the nearest node of points far outside a surface
 was on the wrong side

---
 src/nrlib/surface/regularsurface.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/surface/regularsurface.hpp b/src/nrlib/surface/regularsurface.hpp
index fb7c53c..2f2e9b0 100644
--- a/src/nrlib/surface/regularsurface.hpp
+++ b/src/nrlib/surface/regularsurface.hpp
@@ -640,8 +640,10 @@ void RegularSurface<A>::FindContIndex(double x, double y, double& i, double& j)
 template <class A>
 void RegularSurface<A>::FindGeneralIndex(double x, double y, int& i, int& j) const
 {
-  i = static_cast<int>(std::floor( (x-GetXMin()) / GetDX() ));
-  j = static_cast<int>(std::floor( (y-GetYMin()) / GetDY() ));
+  // Stay inside the range of int for points far outside the grid.
+  const double limit = 2147483646.0;
+  i = static_cast<int>(std::max(-limit, std::min(limit, std::floor( (x-GetXMin()) / GetDX() ))));
+  j = static_cast<int>(std::max(-limit, std::min(limit, std::floor( (y-GetYMin()) / GetDY() ))));
 }
 
 
-- 
2.43.0


From e3f4716f38e62ac3142e5581caef332fd1b43ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:57 +0000
Subject: [PATCH 036/125] fix: storm surfaces of floats were read past their
 end, and written from the wrong bytes

---
 src/nrlib/surface/surfaceio.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/nrlib/surface/surfaceio.hpp b/src/nrlib/surface/surfaceio.hpp
index 36630a1..52df1c9 100644
--- a/src/nrlib/surface/surfaceio.hpp
+++ b/src/nrlib/surface/surfaceio.hpp
@@ -91,8 +91,10 @@ namespace NRLib {
 
   // ----------- TEMPLATE IMPLEMENTATIONS ----------------------
 
+#include <algorithm>
 #include <fstream>
 #include <string>
+#include <vector>
 
 #include "regularsurface.hpp"
 #include "surface.hpp"
@@ -142,7 +144,10 @@ void NRLib::ReadStormBinarySurf(const std::string & filename,
     surface.SetDimensions(x_min, y_min, lx, ly);
 
     DiscardRestOfLine(file, line, true);
-    ReadBinaryDoubleArray(file, surface.begin(), surface.GetN());
+    // The file holds doubles, whereas the surface may hold another type.
+    std::vector<double> data(surface.GetN());
+    ReadBinaryDoubleArray(file, data.begin(), data.size());
+    std::transform(data.begin(), data.end(), surface.begin(), [](double z) { return static_cast<A>(z); });
 
     surface.SetMissingValue(static_cast<A>(STORM_MISSING));
 
@@ -432,16 +437,11 @@ void NRLib::WriteStormBinarySurf(const RegularSurface<A> & surf,
        << surf.GetXMin() << " " << surf.GetXMax() << " "
        << surf.GetYMin() << " " << surf.GetYMax() << "\n";
 
-  if (surf.GetMissingValue() == STORM_MISSING) {
-    // Purify *sometimes* claims a UMR for the call below. No-one understands why...
-    WriteBinaryDoubleArray(file, surf.begin(), surf.end());
-  }
-  else {
-    std::vector<double> data(surf.GetN());
-    std::copy(surf.begin(), surf.end(), data.begin());
-    std::replace(data.begin(), data.end(), surf.GetMissingValue(), static_cast<A>(STORM_MISSING));
-    WriteBinaryDoubleArray(file, data.begin(), data.end());
-  }
+  // The file holds doubles, whereas the surface may hold another type.
+  std::vector<double> data(surf.GetN());
+  std::copy(surf.begin(), surf.end(), data.begin());
+  std::replace(data.begin(), data.end(), static_cast<double>(surf.GetMissingValue()), STORM_MISSING);
+  WriteBinaryDoubleArray(file, data.begin(), data.end());
   file.close();
 }
 
-- 
2.43.0


From e5a1322967f2b6cff2e698cac79a7d127d6c1b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:47 +0000
Subject: [PATCH 037/125] fix: kriging left out the data at the end of the last
 block of the grid

---
 src/nrlib/statistics/kriging.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/statistics/kriging.cpp b/src/nrlib/statistics/kriging.cpp
index 01e3a68..6b558e6 100644
--- a/src/nrlib/statistics/kriging.cpp
+++ b/src/nrlib/statistics/kriging.cpp
@@ -641,17 +641,17 @@ void Kriging::FindOptimalDataInBlock(const Grid2D<double>          & trend,
         kriging_data_blocks[index] = kriging_data.NewInstance();
 
         size_t imin_block = i*nxb;
-        size_t imax_block = std::min(static_cast<int>((i+1)*nxb), static_cast<int>(nx));
+        size_t imax_block = (i == n_blocks_x - 1) ? nx : std::min(static_cast<int>((i+1)*nxb), static_cast<int>(nx));
         size_t jmin_block = j*nyb;
-        size_t jmax_block = std::min(static_cast<int>((j+1)*nyb), static_cast<int>(ny));
+        size_t jmax_block = (j == n_blocks_y - 1) ? ny : std::min(static_cast<int>((j+1)*nyb), static_cast<int>(ny));
         double P_est;
 
         DataInBlockBinarySearch(P_est, P_min, P_max, rx, ry, nx, ny, imin_block, imax_block, jmin_block, jmax_block, true, true, true, true, min_data_in_range, kriging_data, 0.05);
 
         size_t imin_range = std::max(static_cast<int>(std::floor(static_cast<double>(i*nxb)-P_est*static_cast<double>(rx))), 0);
-        size_t imax_range = std::min(static_cast<int>(std::ceil(static_cast<double>((i+1)*nxb)+P_est*static_cast<double>(rx))), static_cast<int>(nx));
+        size_t imax_range = std::min(static_cast<int>(std::ceil(static_cast<double>(imax_block)+P_est*static_cast<double>(rx))), static_cast<int>(nx));
         size_t jmin_range = std::max(static_cast<int>(std::floor(static_cast<double>(j*nyb)-P_est*static_cast<double>(ry))), 0);
-        size_t jmax_range = std::min(static_cast<int>(std::ceil(static_cast<double>((j+1)*nyb)+P_est*static_cast<double>(ry))), static_cast<int>(ny));
+        size_t jmax_range = std::min(static_cast<int>(std::ceil(static_cast<double>(jmax_block)+P_est*static_cast<double>(ry))), static_cast<int>(ny));
 
         kriging_data.AddDataToBlock(*kriging_data_blocks[index], imin_range, imax_range, jmin_range, jmax_range);
 
-- 
2.43.0


From ae831598f902d8cb2486ce1a000b0901fdc9ec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:47 +0000
Subject: [PATCH 038/125] fix: kriging returned the trend as the residual where
 there are no data

---
 src/nrlib/statistics/kriging.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nrlib/statistics/kriging.cpp b/src/nrlib/statistics/kriging.cpp
index 6b558e6..ed414dc 100644
--- a/src/nrlib/statistics/kriging.cpp
+++ b/src/nrlib/statistics/kriging.cpp
@@ -960,6 +960,11 @@ void Kriging::Krig2DBlock(const Grid2D<double>      & trend_orig,
       }
     }
   }
+  else if (md == 0 && get_residuals) {
+    for (int i = imin ; i < imax ; i++)
+      for (int j = jmin ; j < jmax ; j++)
+        trend(i,j) = 0.0;
+  }
 }
 
 //---------------------------------------------------------------
@@ -1074,6 +1079,11 @@ void Kriging::Krig2DBlock(const RegularSurface<double>   & trend_orig,
       }
     }
   }
+  else if (md == 0 && get_residuals) {
+    for (int i = imin ; i < imax ; i++)
+      for (int j = jmin ; j < jmax ; j++)
+        trend(i,j) = 0.0;
+  }
 }
 
 
-- 
2.43.0


From c243245676bef2050334d74f5957458ac8c8da81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:47 +0000
Subject: [PATCH 039/125] fix: kriging ignored continuous data when there were
 more data than grid nodes

---
 src/nrlib/statistics/kriging.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/statistics/kriging.cpp b/src/nrlib/statistics/kriging.cpp
index ed414dc..749ef93 100644
--- a/src/nrlib/statistics/kriging.cpp
+++ b/src/nrlib/statistics/kriging.cpp
@@ -1052,7 +1052,7 @@ void Kriging::Krig2DBlock(const RegularSurface<double>   & trend_orig,
     jmax = std::min(static_cast<int>((block_y+1)*nyb),ny);
 
 
-  if (md > 0 && md <= nx*ny) {
+  if (md > 0) {
 
     SymmetricMatrix K(md);
     Vector          residual(md);
-- 
2.43.0


From c81a1f8f7a03edb26f95e010d1446ddb35e13028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:27 +0000
Subject: [PATCH 040/125] fix: MultiNormal multiplied by the mirrored Cholesky
 factor, so draws had the wrong covariance

---
 src/nrlib/statistics/multinormal.cpp | 19 +++++++++++++++++--
 src/nrlib/statistics/multinormal.hpp |  2 ++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/statistics/multinormal.cpp b/src/nrlib/statistics/multinormal.cpp
index fa7926b..9fc1aaf 100644
--- a/src/nrlib/statistics/multinormal.cpp
+++ b/src/nrlib/statistics/multinormal.cpp
@@ -46,6 +46,21 @@ MultiNormal::~MultiNormal()
 
 
 
+Vector
+MultiNormal::MultiplyByCholeskyFactor(const Vector & z) const
+{
+  // The upper triangle of chol_fac_cov_ holds U in cov = U^T U.
+  int n = static_cast<int>(z.length());
+  Vector result(n);
+  for (int i = 0; i < n; i++) {
+    result(i) = 0.0;
+    for (int j = 0; j <= i; j++)
+      result(i) += chol_fac_cov_(j,i)*z(j);
+  }
+  return result;
+}
+
+
 Vector
 MultiNormal::Draw() const
 {
@@ -55,7 +70,7 @@ MultiNormal::Draw() const
   for (int i = 0; i < rand_01.length(); i++)
     rand_01(i) = normal.Draw();
 
-  Vector help = chol_fac_cov_*rand_01;
+  Vector help = MultiplyByCholeskyFactor(rand_01);
   result +=help;
 
   return result;
@@ -72,7 +87,7 @@ MultiNormal::Draw(RandomGenerator & rg) const
   for (int i = 0; i < rand_01.length(); i++)
     rand_01(i) = normal.Draw(rg);
 
-  Vector help = chol_fac_cov_*rand_01;
+  Vector help = MultiplyByCholeskyFactor(rand_01);
   result += help;
 
   return result;
diff --git a/src/nrlib/statistics/multinormal.hpp b/src/nrlib/statistics/multinormal.hpp
index acdf7e7..b8b2e8a 100644
--- a/src/nrlib/statistics/multinormal.hpp
+++ b/src/nrlib/statistics/multinormal.hpp
@@ -47,6 +47,8 @@ namespace NRLib {
     double Potential(const Vector & x) const; // -Log of pdf
 
   private:
+    Vector MultiplyByCholeskyFactor(const Vector & z) const;
+
     Vector exp_;
     SymmetricMatrix chol_fac_cov_;
     SymmetricMatrix cov_;
-- 
2.43.0


From ee3a29644012f5fad49146e7841293e2ef24135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:27 +0000
Subject: [PATCH 041/125] fix: MultiNormal::SetParameters left the old Cholesky
 factor for the draws

---
 src/nrlib/statistics/multinormal.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/statistics/multinormal.hpp b/src/nrlib/statistics/multinormal.hpp
index b8b2e8a..b6b1d9d 100644
--- a/src/nrlib/statistics/multinormal.hpp
+++ b/src/nrlib/statistics/multinormal.hpp
@@ -61,6 +61,8 @@ void MultiNormal::SetParameters(const Vector & exp,
   exp_ = exp;
   cov_ = cov;
 
+  CholeskyFactorize(cov);
+  chol_fac_cov_ = cov;
 }
 
 
-- 
2.43.0


From bf01b9286700724ac5316535b99c96520b11f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:27 +0000
Subject: [PATCH 042/125] fix: a primary observation was dropped when a
 secondary one at the same place came first

---
 src/nrlib/statistics/posteriormultinormal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/statistics/posteriormultinormal.cpp b/src/nrlib/statistics/posteriormultinormal.cpp
index 12091cc..6a02678 100644
--- a/src/nrlib/statistics/posteriormultinormal.cpp
+++ b/src/nrlib/statistics/posteriormultinormal.cpp
@@ -276,7 +276,7 @@ NRLib::IdentifyLargeCorr(const std::vector<NRLib::Point> & pos_known,
             if(local_corr[i] > local_corr[j])
               corr = local_corr[j];
             else if(local_corr[j] > local_corr[i])
-              corr = local_corr[j];
+              corr = local_corr[i];
             else
               corr = 1.0;
             corr *= vario.GetCorr(pos_known[i].x-pos_known[j].x, pos_known[i].y-pos_known[j].y);
-- 
2.43.0


From 6fb58daa1a6938118eb1c80dd362aeae64b09ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:51 +0000
Subject: [PATCH 043/125] fix: correlations of secondary observations were not
 moved when duplicate observations are left out

---
 src/nrlib/statistics/posteriormultinormal.cpp | 18 +++++++++++-------
 src/nrlib/statistics/posteriormultinormal.hpp |  2 +-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/nrlib/statistics/posteriormultinormal.cpp b/src/nrlib/statistics/posteriormultinormal.cpp
index 6a02678..b824e04 100644
--- a/src/nrlib/statistics/posteriormultinormal.cpp
+++ b/src/nrlib/statistics/posteriormultinormal.cpp
@@ -161,7 +161,8 @@ bool NRLib::SecondayCondDistrMultiNormal2D(const std::vector<NRLib::Point> & pos
 
   std::vector<NRLib::Point> pos_known_used = pos_known;
   std::vector<double>       std_known_used = std_known;
-  EliminateLargeCorr(pos_known_used, delta_known, std_known_used, local_corr, vario);
+  std::vector<double>       local_corr_used = local_corr;
+  EliminateLargeCorr(pos_known_used, delta_known, std_known_used, local_corr_used, vario);
   int n_used = static_cast<int>(pos_known_used.size());
 
   sigma_22 = SymmetricMatrix(n_used);
@@ -170,10 +171,10 @@ bool NRLib::SecondayCondDistrMultiNormal2D(const std::vector<NRLib::Point> & pos
   for(int i = 0; i < n_used; i++) {
     for(int j = 0; j <= i; j++) {
       double corr;
-      if(local_corr[i] > local_corr[j])
-        corr = local_corr[j];
-      else if(local_corr[j] > local_corr[i])
-        corr = local_corr[i];
+      if(local_corr_used[i] > local_corr_used[j])
+        corr = local_corr_used[j];
+      else if(local_corr_used[j] > local_corr_used[i])
+        corr = local_corr_used[i];
       else
         corr = 1.0;
 
@@ -183,7 +184,7 @@ bool NRLib::SecondayCondDistrMultiNormal2D(const std::vector<NRLib::Point> & pos
     }
 
     for(int j = 0; j < n_unknown; j++)
-      sigma_12(j,i) = std_known_used[i]*std_unknown[j]*local_corr[i]*vario.GetCorr(pos_known_used[i].x-pos_unknown[j].x,
+      sigma_12(j,i) = std_known_used[i]*std_unknown[j]*local_corr_used[i]*vario.GetCorr(pos_known_used[i].x-pos_unknown[j].x,
                                                                               pos_known_used[i].y-pos_unknown[j].y);
   }
 
@@ -228,7 +229,7 @@ void
 NRLib::EliminateLargeCorr(std::vector<NRLib::Point> & pos_known,
                           Vector                    & delta_known,
                           std::vector<double>       & std_known,
-                          const std::vector<double> & local_corr,
+                          std::vector<double>       & local_corr,
                           const Variogram           & vario)
 {
   std::vector<int>                obs_chain_map;
@@ -238,16 +239,19 @@ NRLib::EliminateLargeCorr(std::vector<NRLib::Point> & pos_known,
   std::vector<NRLib::Point> pos_known_used(obs_chains.size());
   Vector                    delta_known_used(static_cast<int>(obs_chains.size()));
   std::vector<double>       std_known_used(obs_chains.size());
+  std::vector<double>       local_corr_used(obs_chains.size());
 
   for(size_t i=0;i<obs_chains.size();i++) {
     //For simplicity, use values from first obs, instead of averaging.
     pos_known_used[i]   = pos_known[obs_chains[i][0]];
     delta_known_used(static_cast<int>(i)) = delta_known(static_cast<int>(obs_chains[i][0]));
     std_known_used[i]   = std_known[obs_chains[i][0]];
+    local_corr_used[i]  = local_corr[obs_chains[i][0]];
   }
   pos_known   = pos_known_used;
   delta_known = delta_known_used;
   std_known   = std_known_used;
+  local_corr  = local_corr_used;
 }
 
 void
diff --git a/src/nrlib/statistics/posteriormultinormal.hpp b/src/nrlib/statistics/posteriormultinormal.hpp
index 9af1a64..0627bbb 100644
--- a/src/nrlib/statistics/posteriormultinormal.hpp
+++ b/src/nrlib/statistics/posteriormultinormal.hpp
@@ -59,7 +59,7 @@ namespace NRLib {
   void EliminateLargeCorr(std::vector<NRLib::Point> & pos_known,
                           Vector                    & delta_known,
                           std::vector<double>       & std_known,
-                          const std::vector<double> & local_corr,
+                          std::vector<double>       & local_corr,
                           const Variogram           & vario);
 
   void IdentifyLargeCorr(const std::vector<NRLib::Point> & pos_known,
-- 
2.43.0


From d170f4c22cfab34aecaf369406c293c5eeb849e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:59 +0000
Subject: [PATCH 044/125] fix: Sort3x3 indexed with -1 for values below
 -100000, and the line number of matrix files was uninitialised

---
 src/nrlib/flens/nrlib_flens.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/flens/nrlib_flens.cpp b/src/nrlib/flens/nrlib_flens.cpp
index a47aecd..a7884db 100644
--- a/src/nrlib/flens/nrlib_flens.cpp
+++ b/src/nrlib/flens/nrlib_flens.cpp
@@ -309,7 +309,7 @@ void NRLib::Sort3x3(NRLib::Vector & Eval,
   }
 
   for (int j=0 ; j < 3 ; j++) {
-    double max = -100000.0;
+    double max = -std::numeric_limits<double>::infinity();
     for (int i=0 ; i < 3 ; i++) {
       if (j==0 || (j==1 && i!=index(0)) ||(j==2 && i!=index(0) && i!=index(1))) {
         if (Eval(i) > max) {
@@ -343,7 +343,7 @@ NRLib::Matrix NRLib::ReadMatrixFromFile(const std::string & filename,
 
   if (format == MatrixAscii) {
     NRLib::OpenRead(file, filename);
-    int line;
+    int line = 0;
     for (int i = 0; i < nRows; ++i) {
       for (int j = 0; j < nCols; ++j) {
         m(i, j) = NRLib::ReadNext<double>(file, line);
@@ -375,7 +375,7 @@ NRLib::Vector NRLib::ReadVectorFromFile(const std::string & filename,
 
   if (format == MatrixAscii) {
     NRLib::OpenRead(file, filename);
-    int line;
+    int line = 0;
     for (int i = 0; i < n; ++i)
       v(i) = ReadNext<double>(file, line);
   }
-- 
2.43.0


From 45f4fc34bf799c71a00f9ed49bf8a3216459ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:18 +0000
Subject: [PATCH 045/125] fix: sampling intervals of SegY files were truncated
 to whole milliseconds

---
 src/nrlib/segy/segy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index fd076dd..b832018 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -887,7 +887,7 @@ SegY::ReadHeader(TraceHeader & header)
     duplicateHeader = false;
     break;
   }
-  if (header.GetDt()/1000 != dz_) {
+  if (header.GetDt()/1000.0 != dz_) {
     if(dz_ == 0)
       dz_ = static_cast<double>(header.GetDt()/1000.0);
     else if(header.GetDt() > 0) {
@@ -1193,7 +1193,7 @@ SegY::ReadAndSetBinaryHeader(NRLib::BigFile& file)
 {
   binary_header_ = new BinaryHeader(file);
   nz_ = binary_header_->GetHns();
-  dz_ = static_cast<double>(binary_header_->GetHdt() / 1000);
+  dz_ = static_cast<double>(binary_header_->GetHdt() / 1000.0);
   if (binary_header_->GetFormat() == 3)
     datasize_ = 2;
   else
-- 
2.43.0


From ffb2ca48902a023d426c875185539e77d72ab35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:19 +0000
Subject: [PATCH 046/125] fix: SegyGeometry::FindIndex accepted the line after
 the last one

---
 src/nrlib/segy/segygeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index f3e80e0..5d73151 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -938,7 +938,7 @@ SegyGeometry::FindIndex(int IL, int XL, size_t &i, size_t &j) const
     std::swap(ii, jj);
   }
 
-  if (ii < 0 || jj < 0 || ii > static_cast<int>(nx_) || jj > static_cast<int>(ny_))
+  if (ii < 0 || jj < 0 || ii >= static_cast<int>(nx_) || jj >= static_cast<int>(ny_))
     throw Exception("Indexes (i, j) = (" + NRLib::ToString(ii) + ", " + NRLib::ToString(jj) + ") outside grid "
                     "found for (IL, XL) = (" + NRLib::ToString(IL) + ", " + NRLib::ToString(XL) + ")");
 
-- 
2.43.0


From 784705c4bdeddf758c940d88bb23f857784f5c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:19 +0000
Subject: [PATCH 047/125] fix: SegyGeometry without line numbers swapped the
 axes of its index

---
 src/nrlib/segy/segygeometry.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 5d73151..757e566 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -768,12 +768,12 @@ SegyGeometry::SegyGeometry(double x0, double y0, double dx, double dy, size_t nx
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx - 1);
+  maxIL_       = static_cast<int>(ny - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny - 1);
+  maxXL_       = static_cast<int>(nx - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false; // Crosslines are counted along the first axis.
 }
 
 SegyGeometry::SegyGeometry(double x0, double y0, double dx, double dy, size_t nx, size_t ny,
@@ -819,12 +819,12 @@ SegyGeometry::SegyGeometry(const RegularSurface<double> & surf)
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx_ - 1);
+  maxIL_       = static_cast<int>(ny_ - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny_ - 1);
+  maxXL_       = static_cast<int>(nx_ - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false; // Crosslines are counted along the first axis.
 }
 
 SegyGeometry::SegyGeometry(const RegularSurfaceRotated<double> & surf)
@@ -847,12 +847,12 @@ SegyGeometry::SegyGeometry(const RegularSurfaceRotated<double> & surf)
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx_ - 1);
+  maxIL_       = static_cast<int>(ny_ - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny_ - 1);
+  maxXL_       = static_cast<int>(nx_ - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false; // Crosslines are counted along the first axis.
 }
 
 SegyGeometry::SegyGeometry(const SegyGeometry *geometry)
-- 
2.43.0


From 3ba214ad14add8b9928fb7aa698585dd866377e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:19 +0000
Subject: [PATCH 048/125] fix: TraceHeader members were copied before they were
 given a value

---
 src/nrlib/segy/traceheader.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/segy/traceheader.cpp b/src/nrlib/segy/traceheader.cpp
index 794ae2d..f360369 100644
--- a/src/nrlib/segy/traceheader.cpp
+++ b/src/nrlib/segy/traceheader.cpp
@@ -417,7 +417,16 @@ TraceHeader::TraceHeader(const TraceHeaderFormat& format)
   : format_(format),
     status_(0),
     scal_co_(1),
-    scalcoinitial_(1)
+    scalcoinitial_(1),
+    utmx_(0.0),
+    utmy_(0.0),
+    inline_(0),
+    crossline_(0),
+    start_time_(0),
+    ns_(0),
+    dt_(0),
+    offset_(0.0),
+    useBinaryInline(false)
 {
   memset(buffer_, 0, 240);
   rmissing_ = RMISSING;
-- 
2.43.0


From 01466daedd1b25b58469ac674b549bcec37ea776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:17 +0000
Subject: [PATCH 049/125] fix: format detection of SegY files overflowed and
 took the root of negative numbers for headers of other formats

---
 src/nrlib/segy/segy.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index b832018..a0bc0c2 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -154,8 +154,8 @@ bool SegY::CompareTraces(const TraceHeader& header1, const TraceHeader& header2,
   double deltaxSq = deltax*deltax;
   double deltaySq = deltay*deltay;
   double utmDist = sqrt(deltaxSq+deltaySq);
-  int   deltaxlSq = deltaxl*deltaxl;
-  int   deltailSq = deltail*deltail;
+  double deltaxlSq = static_cast<double>(deltaxl)*deltaxl;
+  double deltailSq = static_cast<double>(deltail)*deltail;
 
   double k;
   if (deltail == 0 && deltaxl == 0)
@@ -194,9 +194,9 @@ bool SegY::CompareTraces(const TraceHeader& header1, const TraceHeader& header2,
     double deltailxlRelSq = deltailSq/deltaxlSq;
     i = static_cast<int>(floor(0.5+prodSum/static_cast<double>(deltail)));
     while(i > 0 && !ok) {
-      int j0 = static_cast<int>(floor(sqrt(prodSumSqRelXL-i*i*deltailxlRelSq)));
+      int j0 = static_cast<int>(floor(sqrt(std::max(0.0, prodSumSqRelXL-static_cast<double>(i)*i*deltailxlRelSq))));
       for(j=j0;j<=j0+1;j++) {
-        k = utmDist/sqrt(static_cast<double>(i*i*deltailSq+j*j*deltaxlSq));
+        k = utmDist/sqrt(static_cast<double>(i)*i*deltailSq+static_cast<double>(j)*j*deltaxlSq);
         double help = fmod(k,6.25);
         if (k/6.25<8.5 && k/6.25>0.5 && (help<=1.0 || (6.25-help)<=1.0))
           ok = true;
-- 
2.43.0


From 9c523e5b9291f23449fee40166eba07fb743487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:27 +0000
Subject: [PATCH 050/125] fix: SegY leaked its headers when the trace header
 format is not recognised

---
 src/nrlib/segy/segy.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index a0bc0c2..89c9803 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -122,6 +122,9 @@ SegY::SegY(const std::string               & filename,
       file_.seek(3600, SEEK_SET); // Seek to start of file, after binary header.
   }
   if(ok==false) {
+    for (i = 0; i < std_list.size(); i++)
+      delete std_list[i];
+    delete binary_header_;
     throw FileFormatError("Can not read SegY-file \"" + filename + "\". Unknown traceheader format.");
   }
   else {
-- 
2.43.0


From 34cc390f9147844bfb4fc488e146145c610a8887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:27 +0000
Subject: [PATCH 051/125] fix: SegyGeometry failed for lines and surveys with
 decreasing line numbers

---
 src/nrlib/segy/segygeometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 757e566..04231f8 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -156,7 +156,7 @@ SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
 
     if(dist2 > sqrt(dist1sq)+0.005) { //Standard case, not a simple straight line along XL, IL or diagonally..
       double denominator;
-      if(dXL2 > 0) { //Rarely fails, but may happen with diagonal line.
+      if(dXL2 != 0) { //Rarely fails, but may happen with diagonal line.
         denominator = dIL1-(dXL1/dXL2)*dIL2;
         dxIL = (x1 - x0 - dXL1/dXL2*(x2-x0))/denominator;
         dxXL = (x2 - x0 - dxIL*dIL2        )/dXL2;
@@ -207,7 +207,7 @@ SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
     }
     else {
       if(dXL1 == 0 && dXL2 == 0) { //Single crossline or single trace.
-        if(dIL1 > 0) {
+        if(dIL1 != 0) {
           dxIL = (x1-x0)/dIL1;
           dyIL = (y1-y0)/dIL1;
         }
-- 
2.43.0


From d48417b2b3af2ba182facd350b9ac9f76f024a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:54 +0000
Subject: [PATCH 052/125] fix: the textual SegY header was made of bytes
 mangled by a character set conversion

The EBCDIC literals were replaced by U+FFFD when the file was converted to UTF-8, so each card
was longer than 80 bytes and unreadable. The text of the old standard header can not be recovered.
ascii2ebcdic also read past its table for character 128.
---
 src/nrlib/segy/commonheaders.cpp | 101 ++++---------------------------
 1 file changed, 12 insertions(+), 89 deletions(-)

diff --git a/src/nrlib/segy/commonheaders.cpp b/src/nrlib/segy/commonheaders.cpp
index 92abd48..569ce6c 100644
--- a/src/nrlib/segy/commonheaders.cpp
+++ b/src/nrlib/segy/commonheaders.cpp
@@ -52,101 +52,25 @@ const unsigned char transtab[] =
 /// Translates an ASCII character to EBCDIC.
 static unsigned char ascii2ebcdic(unsigned char c)
 {
-  if (c > 128)
+  if (c > 127)
     return 0;
   return transtab[c];
 }
 
+/// 40 empty cards of 80 EBCDIC characters, numbered "C 1" to "C40".
 static void emptyHeader(std::string &ebcdicH)
 {
   ebcdicH = "";
-   ebcdicH+=  "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+=  "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@���@������@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+='@';
-}
-
-static void oldHeader(std::string &ebcdicH)
-{
-  ebcdicH = "";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@����@����@����@���@�������@��@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@���@�����@�������@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@���������@��@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@������@�����@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@����@�����@����������@@@@@@@@@@@���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@���@�����������@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@��@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@���@���������@���������@������@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@����@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@���@������@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="@";
+  for (int i = 1; i <= 40; ++i) {
+    std::string line = "C";
+    line += (i < 10) ? ' ' : static_cast<char>('0' + i/10);
+    line += static_cast<char>('0' + i % 10);
+    if (i == 40)
+      line += " END EBCDIC";
+    line.resize(80, ' ');
+    for (size_t j = 0; j < line.size(); ++j)
+      ebcdicH += static_cast<char>(ascii2ebcdic(line[j]));
+  }
 }
 
 TextualHeader::TextualHeader()
@@ -158,7 +82,6 @@ TextualHeader::TextualHeader()
 TextualHeader TextualHeader::standardHeader()
 {
   TextualHeader header;
-  oldHeader(header.buffer_);
   return header;
 }
 
-- 
2.43.0


From 5b941e2135c226e790aaa1d87afc2fd66d2e6343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:46 +0000
Subject: [PATCH 053/125] fix: SegyGeometry::FindXYFromContILXL ignored the
 slope of one axis when the other follows UTM

---
 src/nrlib/segy/segygeometry.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 04231f8..2eb1f44 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -1075,13 +1075,10 @@ SegyGeometry::FindXYFromContILXL(double IL, double XL, double &x, double &y) con
       xd = x0_-(yd-y0_)*sin_rot_/cos_rot_;
     }
   }
-  else if (std::abs(il_stepX_/xl_stepX_) < 1e-14 || std::abs(xl_stepY_/il_stepY_) < 1e-14) {
-    xd = x0_+(XL-cross_line0_)/xl_stepX_;
-    yd = y0_+(IL-in_line0_)/il_stepY_;
-  }
   else {
-    yd = y0_+(XL-cross_line0_-(IL-in_line0_)*xl_stepX_/il_stepX_)/(xl_stepY_-il_stepY_*xl_stepX_/il_stepX_);
-    xd = x0_+(IL-in_line0_-il_stepY_*(yd-y0_))/il_stepX_;
+    double det = il_stepX_*xl_stepY_ - il_stepY_*xl_stepX_;
+    xd = x0_+((IL-in_line0_)*xl_stepY_ - (XL-cross_line0_)*il_stepY_)/det;
+    yd = y0_+((XL-cross_line0_)*il_stepX_ - (IL-in_line0_)*xl_stepX_)/det;
   }
   x = xd;
   y = yd;
-- 
2.43.0


From defafa94188a1f0b1c43fc41c562044ff7881237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 054/125] fix: Grid5D did not compile, and Grid4D and Grid5D
 gave wrong indices for a position in the storage

---
 src/nrlib/grid/grid4d.hpp | 4 ++--
 src/nrlib/grid/grid5d.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/grid/grid4d.hpp b/src/nrlib/grid/grid4d.hpp
index ad740f7..8cab538 100644
--- a/src/nrlib/grid/grid4d.hpp
+++ b/src/nrlib/grid/grid4d.hpp
@@ -161,8 +161,8 @@ void Grid4D<A>::GetIJKL(size_t index, size_t &i, size_t &j, size_t &k, size_t &l
 
   i = index % ni_;
   j = (index-i)/ni_ % nj_;
-  k = (index - j*ni_ - i)/ni_/nj_;
-  l = (index - k*ni_*nj_)/ni_/nj_/nk_; //?
+  k = index/ni_/nj_ % nk_;
+  l = index/ni_/nj_/nk_;
 }
 
 template<class A>
diff --git a/src/nrlib/grid/grid5d.hpp b/src/nrlib/grid/grid5d.hpp
index 527f009..1857e7b 100644
--- a/src/nrlib/grid/grid5d.hpp
+++ b/src/nrlib/grid/grid5d.hpp
@@ -112,7 +112,7 @@ void Grid5D<A>::Resize(size_t ni, size_t nj, size_t nk, size_t nl, size_t nm, co
   nj_ = nj;
   nk_ = nk;
   nl_ = nl;
-  nm_ = nm
+  nm_ = nm;
 
   data_.resize(0); //To avoid copying of elements
   data_.resize(ni_ * nj_ * nk_ * nl * nm,  val);
@@ -166,9 +166,9 @@ void Grid5D<A>::GetIJKLM(size_t index, size_t &i, size_t &j, size_t &k, size_t &
 
   i = index % ni_;
   j = (index-i)/ni_ % nj_;
-  k = (index - j*ni_ - i)/ni_/nj_;
-  l = (index - k*ni_*nj_)/ni_/nj_/nk_; //?
-  m = (index - m*ni_*nj_*nk_)/ni_/nj_/nk_/nl_; //?
+  k = index/ni_/nj_ % nk_;
+  l = index/ni_/nj_/nk_ % nl_;
+  m = index/ni_/nj_/nk_/nl_;
 }
 
 template<class A>
-- 
2.43.0


From cd5b08499c7a7141eb3981261889fc72ae3ffd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 055/125] fix: minimum and maximum of integer grids included a
 zero that is not there

---
 src/nrlib/grid/grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/grid/grid.hpp b/src/nrlib/grid/grid.hpp
index 277b1b4..b6d3f3a 100644
--- a/src/nrlib/grid/grid.hpp
+++ b/src/nrlib/grid/grid.hpp
@@ -222,8 +222,8 @@ void Grid<A>::GetAvgMinMax(A& avg, A& min, A& max) const
 {
   A sum = 0.0;
   A value = 0.0;
-  max = -std::numeric_limits<A>::infinity();
-  min = +std::numeric_limits<A>::infinity();
+  max = std::numeric_limits<A>::has_infinity ? -std::numeric_limits<A>::infinity() : std::numeric_limits<A>::lowest();
+  min = std::numeric_limits<A>::has_infinity ? +std::numeric_limits<A>::infinity() : std::numeric_limits<A>::max();
 
   for (size_t i = 0; i < data_.size(); ++i) {
     value = data_[i];
@@ -244,8 +244,8 @@ void Grid<A>::GetAvgMinMaxWithMissing(A& avg, A& min, A& max, A missing) const
 {
   A sum = 0.0;
   A value = 0.0;
-  max = -std::numeric_limits<A>::infinity();
-  min = +std::numeric_limits<A>::infinity();
+  max = std::numeric_limits<A>::has_infinity ? -std::numeric_limits<A>::infinity() : std::numeric_limits<A>::lowest();
+  min = std::numeric_limits<A>::has_infinity ? +std::numeric_limits<A>::infinity() : std::numeric_limits<A>::max();
 
   int n = 0;
   for (size_t i = 0; i < data_.size(); ++i) {
-- 
2.43.0


From cee198041ca3a8a2542613dd64a32abb6e6a4a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 056/125] fix: cube lookups returned a layer below the last one
 at the bottom surface, and cells for points left of a facies cube

---
 src/nrlib/stormgrid/stormcontgrid.cpp   | 16 ++++++++--------
 src/nrlib/stormgrid/stormfaciesgrid.cpp | 14 +++++++++-----
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 18771c1..873f606 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -294,18 +294,15 @@ void StormContGrid::FindXYIndex(double x, double y, size_t& i_out, size_t& j_out
 
   GlobalToLocalCoord(x, y, local_x, local_y);
 
-  i_out = static_cast<size_t>(local_x / GetDX());
-  j_out = static_cast<size_t>(local_y / GetDY());
-
-  if(i_out >= GetNI()) {
+  if(local_x / GetDX() >= GetNI()) {
     std::string text ="Trying to look up an xy-position outside grid. Index in x direction is too large.\n";
-    text += "  Index : "+ToString(i_out)+"\n";
+    text += "  Index : "+ToString(local_x / GetDX())+"\n";
     text += "  Max   : "+ToString(GetNI())+"\n";
     throw Exception(text);
   }
-  if(j_out >= GetNJ()) {
+  if(local_y / GetDY() >= GetNJ()) {
     std::string text ="Trying to look up an xy-position outside grid: Index in y direction is too large.\n";
-    text += "  Index : "+ToString(j_out)+"\n";
+    text += "  Index : "+ToString(local_y / GetDY())+"\n";
     text += "  Max   : "+ToString(GetNJ())+"\n";
     throw Exception(text);
   }
@@ -317,6 +314,9 @@ void StormContGrid::FindXYIndex(double x, double y, size_t& i_out, size_t& j_out
     std::string text ="Trying to look up an xy-position outside grid: Local y-coordinate is too small ("+NRLib::ToString(local_y, 2)+").\n";
     throw Exception(text);
   }
+
+  i_out = static_cast<size_t>(local_x / GetDX());
+  j_out = static_cast<size_t>(local_y / GetDY());
 }
 
 void StormContGrid::FindIndex(double x, double y, double z, size_t& i_out, size_t& j_out, size_t& k_out) const
@@ -336,7 +336,7 @@ void StormContGrid::FindIndex(double x, double y, double z, size_t& i_out, size_
     k_out = 0;
   }
   else {
-    k_out = static_cast<size_t>((z - z_top)/dz);
+    k_out = std::min(static_cast<size_t>((z - z_top)/dz), GetNK() - 1);
   }
 
 }
diff --git a/src/nrlib/stormgrid/stormfaciesgrid.cpp b/src/nrlib/stormgrid/stormfaciesgrid.cpp
index 9827cba..ee989d4 100644
--- a/src/nrlib/stormgrid/stormfaciesgrid.cpp
+++ b/src/nrlib/stormgrid/stormfaciesgrid.cpp
@@ -276,12 +276,16 @@ void StormFaciesGrid::FindIndex(double x, double y, double z, size_t& i_out, siz
   double local_x, local_y;
   GlobalToLocalCoord(x, y, local_x, local_y);
 
+  if(local_x / GetDX() >= GetNI())
+    throw Exception("Index in x direction is too large.\n");
+  if(local_y / GetDY() >= GetNJ())
+    throw Exception("Index in y direction is too large.\n");
+  if(local_x < 0.0)
+    throw Exception("Local x-coordinate is too small.\n");
+  if(local_y < 0.0)
+    throw Exception("Local y-coordinate is too small.\n");
   i_out = static_cast<size_t>(local_x / GetDX());
   j_out = static_cast<size_t>(local_y / GetDY());
-  if(i_out >= GetNI())
-    throw Exception("Index in x direction is too large.\n");
-  if(j_out >= GetNJ())
-   throw Exception("Index in y direction is too large.\n");
   double z_top = GetTopSurface().GetZ(x, y);
   double z_bot = GetBotSurface().GetZ(x, y);
   double dz = (z_bot - z_top) / GetNK();
@@ -294,7 +298,7 @@ void StormFaciesGrid::FindIndex(double x, double y, double z, size_t& i_out, siz
     k_out = 0;
   }
   else {
-    k_out = static_cast<size_t>((z - z_top)/dz);
+    k_out = std::min(static_cast<size_t>((z - z_top)/dz), GetNK() - 1);
   }
 
 }
-- 
2.43.0


From 0ecb7011a5a7b04915e39e8b7e5ed924f6a122eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 057/125] fix: StormContGrid::GetValueClosestInZ extrapolated
 from the wrong layers and read past the last one

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 873f606..864fe26 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -470,24 +470,10 @@ float StormContGrid::GetValueClosestInZ(double x, double y, double z)const
   double local_x, local_y;
   GlobalToLocalCoord(x, y, local_x, local_y);
 
-  size_t i = static_cast<size_t>(local_x / GetDX());
-  size_t j = static_cast<size_t>(local_y / GetDY());
-  double z_top = GetTopSurface().GetZ(x, y);
-  double z_bot = GetBotSurface().GetZ(x, y);
-  double dz = (z_bot - z_top) / GetNK();
-  if (local_x < 0.0 || i >= GetNI() || local_y < 0.0 || j >= GetNJ())
+  if (local_x < 0.0 || local_x / GetDX() >= GetNI() || local_y < 0.0 || local_y / GetDY() >= GetNJ())
     return(missing_code_);
 
-  if (z<z_top+0.5*dz)
-    z = z_top+0.5*dz;
-  else if (z>z_bot+0.5*dz)
-    z = z_bot+0.5*dz;
-
-  int zInd1 = static_cast<int>(floor((z-z_top)/dz)-0.5);
-  double t = (z-z_top)/dz - 0.5 - static_cast<double>(zInd1);
-  int zInd2 = zInd1+1;
-  float value = static_cast<float>((1-t)*(*this)(GetIndex(i,j,zInd1))+t*(*this)(GetIndex(i,j,zInd2)));
-  return(value);
+  return(GetValueZInterpolated(x, y, z));
 }
 
 
-- 
2.43.0


From f3fccb499234440a32730a175086e6ff594fadc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 058/125] fix: the consistency check of facies cubes accepted
 the body after the last one

---
 src/nrlib/stormgrid/stormfaciesgrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/stormgrid/stormfaciesgrid.cpp b/src/nrlib/stormgrid/stormfaciesgrid.cpp
index ee989d4..192fa81 100644
--- a/src/nrlib/stormgrid/stormfaciesgrid.cpp
+++ b/src/nrlib/stormgrid/stormfaciesgrid.cpp
@@ -253,7 +253,7 @@ void StormFaciesGrid::CheckConsistency() const
   for (size_t ind = 0; ind < GetN(); ++ind) {
     int body = (*this)(ind);
     if ( !IsMissing(body)
-         && (body < 0 || body > static_cast<int>(body_facies_.size())) ) {
+         && (body < 0 || body >= static_cast<int>(body_facies_.size())) ) {
       size_t i, j, k;
       GetIJK(ind, i, j, k);
       throw Exception("Consistency check failed: body number "
-- 
2.43.0


From b44f6f74f43203f2a59633f1b02f3fda2e6626c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 059/125] fix: the centre of a rotated volume ignored the
 rotation, and copies of a volume lost its tolerance

---
 src/nrlib/volume/volume.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index 9082607..b3e495f 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -118,7 +118,7 @@ Volume::Volume(const Volume & volume)
   else {
     erosion_bot_ = 0;
   }
-  tolerance_   = 1e-6;
+  tolerance_   = volume.tolerance_;
 }
 
 
@@ -328,8 +328,7 @@ Volume::GetZExtreme(size_t nx, size_t ny, const Surface<double> * surf, bool get
 void
 Volume::FindCenter(double & x, double & y, double & z) const
 {
-  x = GetXMin() + 0.5 * GetLX();
-  y = GetYMin() + 0.5 * GetLY();
+  GetXYFromRelative(0.5, 0.5, x, y);
   z = 0.5 * (z_top_->GetZ(x,y) + z_bot_->GetZ(x,y));
 }
 
-- 
2.43.0


From 0926329a6ad23de01c187d01211f4fd592d4af94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 060/125] fix: surfaces of a volume were deleted twice when
 reading one of them fails

---
 src/nrlib/volume/volume.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index b3e495f..a39f78e 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -409,6 +409,7 @@ void Volume::ReadVolumeFromFile(std::ifstream& file, int line, const std::string
   }
   token = ReadNext<std::string>(file, line);
   delete z_bot_;
+  z_bot_ = NULL;
   if (IsType<double>(token)) {
     z_bot_ = new ConstantSurface<double>(ParseType<double>(token));
     botfile = false;
@@ -419,6 +420,7 @@ void Volume::ReadVolumeFromFile(std::ifstream& file, int line, const std::string
   }
   token = ReadNext<std::string>(file, line);
   delete erosion_top_;
+  erosion_top_ = NULL;
   if (IsType<double>(token)) {
     erosion_top_ = new ConstantSurface<double>(ParseType<double>(token));
     toperofile = false;
@@ -429,6 +431,7 @@ void Volume::ReadVolumeFromFile(std::ifstream& file, int line, const std::string
   }
   token = ReadNext<std::string>(file, line);
   delete erosion_bot_;
+  erosion_bot_ = NULL;
   if (IsType<double>(token)) {
     erosion_bot_ = new ConstantSurface<double>(ParseType<double>(token));
     boterofile = false;
-- 
2.43.0


From ccf1d13173cf4ef88eef9976c1cab87c743f9d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 061/125] fix: storm cubes were written with four digits, so
 their position and their missing values were lost

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 4 ++--
 src/nrlib/volume/volume.cpp           | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 864fe26..49483f1 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -181,8 +181,8 @@ void StormContGrid::WriteToFile(const std::string& filename, const std::string&
   std::ofstream file;
   OpenWrite(file, filename, std::ios::out | std::ios::binary);
 
-  //file.precision(14);
-  file.precision(4);
+  // Enough for the missing code and the values to be read back unchanged.
+  file.precision(9);
 
   // Header
   if (predefinedHeader == "" && plainAscii==false) {
diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index a39f78e..44fd846 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -345,7 +345,10 @@ static std::string WriteSingleSurface(const Surface<double>* surf,
   }
 
   if (typeid(*surf) == typeid(ConstantSurface<double>)) {
-    return (ToString((dynamic_cast<const ConstantSurface<double>*>(surf))->GetZ()));
+    std::ostringstream level;
+    level.precision(14);
+    level << (dynamic_cast<const ConstantSurface<double>*>(surf))->GetZ();
+    return level.str();
   }
   else if (typeid(*surf) == typeid(RegularSurface<double>)) {
     std::string filename = grid_filename + surface_name;
@@ -380,12 +383,14 @@ static std::string WriteSingleSurface(const Surface<double>* surf,
 void Volume::WriteVolumeToFile(std::ofstream& file,
                                const std::string& filename, bool remove_path) const
 {
+  const std::streamsize old_precision = file.precision(14);
   file << x_min_ << " " << lx_ << " " << y_min_ << " " << ly_ << " "
        << WriteSingleSurface(z_top_, filename, "_top", remove_path) << " "
        << WriteSingleSurface(z_bot_, filename, "_bot", remove_path) << " "
        << WriteSingleSurface(erosion_top_, filename, "_erosion_top", remove_path) << " "
        << WriteSingleSurface(erosion_bot_, filename, "_erosion_bot", remove_path) << "\n"
        << GetLZ() << " " << (180.0*angle_)/NRLib::Pi << "\n";
+  file.precision(old_precision);
 }
 
 
-- 
2.43.0


From 1ceffa0f5be6092b5765002e421fe98ad353a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 062/125] fix: names of Sgri data files were read past their
 end

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 4 +---
 src/nrlib/surface/surfaceio.cpp       | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 49483f1..e7aa135 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -648,10 +648,8 @@ void StormContGrid::ReadSgriHeader(std::ifstream &headerFile, std::string &binFi
   else {
     std::locale loc;
     i = 0;
-    char c = tmpStr[i];
-    while (!std::isspace(c,loc)) {
+    while (i < static_cast<int>(tmpStr.size()) && !std::isspace(tmpStr[i],loc)) {
       i++;
-      c = tmpStr[i];
     }
     tmpStr.erase(tmpStr.begin()+i, tmpStr.end());
     binFileName = tmpStr;
diff --git a/src/nrlib/surface/surfaceio.cpp b/src/nrlib/surface/surfaceio.cpp
index 815a1f8..e8b41f5 100644
--- a/src/nrlib/surface/surfaceio.cpp
+++ b/src/nrlib/surface/surfaceio.cpp
@@ -201,10 +201,8 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
     if (!tmp_str.empty()) {
       std::locale loc;
       i = 0;
-      char c = tmp_str[i];
-      while (!std::isspace(c,loc)) {
+      while (i < static_cast<int>(tmp_str.size()) && !std::isspace(tmp_str[i],loc)) {
         i++;
-        c = tmp_str[i];
       }
       tmp_str.erase(tmp_str.begin()+i, tmp_str.end());
     }
-- 
2.43.0


From 7f70907f3e7131e640a61a8e144434f39d466eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:25 +0000
Subject: [PATCH 063/125] fix: the mean of integer grids with negative values
 was computed with unsigned numbers

---
 src/nrlib/grid/grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/grid/grid.hpp b/src/nrlib/grid/grid.hpp
index b6d3f3a..878527a 100644
--- a/src/nrlib/grid/grid.hpp
+++ b/src/nrlib/grid/grid.hpp
@@ -236,7 +236,7 @@ void Grid<A>::GetAvgMinMax(A& avg, A& min, A& max) const
       min = value;
   }
 
-  avg = sum /= GetN();
+  avg = sum / static_cast<A>(GetN());
 }
 
 template<class A>
-- 
2.43.0


From a58c5cf204693f2ded1fcb000f8f8fb0b1b6a805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:52 +0000
Subject: [PATCH 064/125] fix: interpolation in the last layer of a cube read
 past it when rounding goes that way

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index e7aa135..3056ace 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -360,13 +360,14 @@ void StormContGrid::FindZInterpolatedIndex(const double & x,
   double z_bot = GetBotSurface().GetZ(x, y);
   double dz    = (z_bot - z_top) / GetNK();
 
-  if (z<=z_top+0.5*dz) {
+  // The position in layers is tested too: rounding may bring it outside when z is inside.
+  if (z<=z_top+0.5*dz || (z-z_top)/dz - 0.5 < 0.0) {
     k    = 0;
     t    = missing_code_;
     ind1 = GetIndex(i, j, k);
     ind2 = 0;
   }
-  else if (z>=z_bot-0.5*dz) {
+  else if (z>=z_bot-0.5*dz || (z-z_top)/dz - 0.5 >= static_cast<double>(GetNK()-1)) {
     k    = GetNK()-1;
     t    = missing_code_;
     ind1 = GetIndex(i, j, k);
-- 
2.43.0


From e9b87607f1545f77b815d1b3fe4f9d7401f6b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:41 +0000
Subject: [PATCH 065/125] fix: members of wells were uninitialised

---
 src/nrlib/well/laswell.cpp |  1 +
 src/nrlib/well/well.cpp    | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index eccf3e3..477c3fb 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -87,6 +87,7 @@ LasWell::LasWell(const std::string & name,
   : Well(name, -999.25),
     version_("2.0"),
     wrap_(false),
+    comma_delimited_(false),
     depth_unit_(depth_unit),
     start_depth_(start_depth),
     stop_depth_(start_depth + (length-1)*depth_increment),
diff --git a/src/nrlib/well/well.cpp b/src/nrlib/well/well.cpp
index 18ba288..4c2b855 100644
--- a/src/nrlib/well/well.cpp
+++ b/src/nrlib/well/well.cpp
@@ -37,6 +37,11 @@ using namespace NRLib;
 
 Well::Well()
 {
+  n_data_            = 0;
+  n_data_nonmissing_ = 0;
+  is_deviated_       = false;
+  x_pos0_            = 0.0;
+  y_pos0_            = 0.0;
   well_rmissing_ = -999.0;
   well_imissing_ = -999;
 }
@@ -46,6 +51,11 @@ Well::Well(const std::string & name,
            double              rmissing,
            int                 imissing)
 {
+  n_data_            = 0;
+  n_data_nonmissing_ = 0;
+  is_deviated_       = false;
+  x_pos0_            = 0.0;
+  y_pos0_            = 0.0;
   well_name_ = name;
   well_rmissing_ = rmissing;
   well_imissing_ = imissing;
@@ -56,6 +66,11 @@ Well::Well(const std::map<std::string,std::vector<double> > & cont_log,
            const std::map<std::string,std::vector<int> >    & disc_log,
            const std::string                                & well_name)
 {
+  n_data_            = 0;
+  n_data_nonmissing_ = 0;
+  is_deviated_       = false;
+  x_pos0_            = 0.0;
+  y_pos0_            = 0.0;
   cont_log_       = cont_log;
   disc_log_       = disc_log;
   well_name_      = well_name;
-- 
2.43.0


From fda50ec430b66ec81e942a6cc28ada4a4474fe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:41 +0000
Subject: [PATCH 066/125] fix: values of logs that a well does not have were
 read out of bounds instead of being missing, as documented

---
 src/nrlib/well/well.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/nrlib/well/well.cpp b/src/nrlib/well/well.cpp
index 4c2b855..c395255 100644
--- a/src/nrlib/well/well.cpp
+++ b/src/nrlib/well/well.cpp
@@ -233,20 +233,18 @@ bool Well::IsMissing(int n)const
 int Well::GetDiscValue(size_t index, const std::string& logname) const
 {
   std::map<std::string, std::vector<int> >::const_iterator item = disc_log_.find(logname);
-  assert(item != disc_log_.end());
-  const std::vector<int>& log = item->second;
-  assert(index < log.size());
-  return log[index];
+  if (item == disc_log_.end() || index >= item->second.size())
+    return well_imissing_;
+  return item->second[index];
 }
 
 
 double Well::GetContValue(size_t index, const std::string& logname) const
 {
   std::map<std::string,std::vector<double> >::const_iterator item = cont_log_.find(logname);
-  assert(item != cont_log_.end());
-  const std::vector<double>& log = item->second;
-  assert(index < log.size());
-  return log[index];
+  if (item == cont_log_.end() || index >= item->second.size())
+    return well_rmissing_;
+  return item->second[index];
 }
 
 
-- 
2.43.0


From f2c8e1093fd2e0251b9a2b620c5b463c7c65b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:41 +0000
Subject: [PATCH 067/125] fix: RMSWell made from a well read past discrete logs
 without values, and named the missing code

---
 src/nrlib/well/rmswell.cpp | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/nrlib/well/rmswell.cpp b/src/nrlib/well/rmswell.cpp
index 69e1c86..130fe7c 100644
--- a/src/nrlib/well/rmswell.cpp
+++ b/src/nrlib/well/rmswell.cpp
@@ -204,33 +204,16 @@ RMSWell::RMSWell(const Well& wellobj)
     scale_[i] ="scale1";
   }
 
-  size_t ndisc = nlog - k - 3;
-  std::vector<std::vector<int> > discvalues(ndisc);
-  i = 0;
   size_t j;
-  size_t kk = 0;
-  bool found = false;
-  for (CI p = disclog.begin(); p != disclog.end(); ++p) {
-    while(wellobj.IsMissing((p->second)[kk]))
-      kk++;
-    discvalues[i].push_back((p->second)[kk]);
-
-    for (j = kk + 1; j < p->second.size(); j++) {
-      for (k = 0; k < discvalues[i].size(); k++)
-        if ((p->second)[j] == discvalues[i][k])
-          found = true;
-      if (found == false && (!wellobj.IsMissing((p->second)[j])))
-        discvalues[i].push_back((p->second)[j]);
-      found = false;
-    }
-  }
   ////Frode NB: M� se n�yere p� dette.
   typedef std::pair<int, std::string> pp;
   for (CI p = disclog.begin(); p !=disclog.end(); ++p) {
     std::string disc_name = p->first;
     for (j = 0; j < p->second.size(); j++) {
-      std::string identstr = ToString(p->second[j]);
-      discnames_[disc_name].insert(pp(p->second[j], identstr));
+      if (!wellobj.IsMissing(p->second[j])) {
+        std::string identstr = ToString(p->second[j]);
+        discnames_[disc_name].insert(pp(p->second[j], identstr));
+      }
     }
   }
 }
-- 
2.43.0


From 840584e1a61c3a917114165b868578d16daea97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:41 +0000
Subject: [PATCH 068/125] fix: writing an RMSWell after logs were added or
 removed read out of bounds, as did the names of an added discrete log

---
 src/nrlib/well/rmswell.cpp | 57 ++++++++++++++++++++++++++++++++++----
 src/nrlib/well/rmswell.hpp |  3 ++
 2 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/src/nrlib/well/rmswell.cpp b/src/nrlib/well/rmswell.cpp
index 130fe7c..d3e5ca1 100644
--- a/src/nrlib/well/rmswell.cpp
+++ b/src/nrlib/well/rmswell.cpp
@@ -22,6 +22,7 @@
 #include <fstream>
 #include <sstream>
 #include <string>
+#include <algorithm>
 #include <iostream>
 #include <stdio.h>
 #include <stdlib.h>
@@ -221,11 +222,59 @@ RMSWell::RMSWell(const Well& wellobj)
 const std::map<int, std::string>
 RMSWell::GetDiscNames(const std::string& log_name) const
 {
-  return (discnames_.find(log_name)->second);
+  std::map<std::string, std::map<int, std::string> >::const_iterator item = discnames_.find(log_name);
+  if (item == discnames_.end()) // No names given, e.g. log added after the well was made.
+    return Well::GetDiscNames(log_name);
+  return item->second;
+}
+
+void RMSWell::UpdateLogNames()
+{
+  std::vector<std::string> names(lognames_.begin(), lognames_.begin() + 3);
+  std::vector<bool>        discrete(3, false);
+  std::vector<std::string> unit;
+  std::vector<std::string> scale;
+  size_t k = 0;
+  for (size_t i = 3; i < lognames_.size(); i++) {
+    if (isDiscrete_[i] ? HasDiscLog(lognames_[i]) : HasContLog(lognames_[i])) {
+      names.push_back(lognames_[i]);
+      discrete.push_back(isDiscrete_[i]);
+      if (isDiscrete_[i] == false) {
+        unit.push_back(unit_[k]);
+        scale.push_back(scale_[k]);
+      }
+    }
+    if (isDiscrete_[i] == false)
+      k++;
+  }
+
+  const std::map<std::string, std::vector<int> > & disc_logs = GetDiscLog();
+  for (std::map<std::string, std::vector<int> >::const_iterator it = disc_logs.begin(); it != disc_logs.end(); ++it) {
+    if (std::find(names.begin(), names.end(), it->first) == names.end()) {
+      names.push_back(it->first);
+      discrete.push_back(true);
+    }
+  }
+  const std::map<std::string, std::vector<double> > & cont_logs = GetContLog();
+  for (std::map<std::string, std::vector<double> >::const_iterator it = cont_logs.begin(); it != cont_logs.end(); ++it) {
+    if (std::find(names.begin(), names.end(), it->first) == names.end()) {
+      names.push_back(it->first);
+      discrete.push_back(false);
+      unit.push_back("");
+      scale.push_back("");
+    }
+  }
+
+  lognames_   = names;
+  isDiscrete_ = discrete;
+  unit_       = unit;
+  scale_      = scale;
 }
 
 void RMSWell::WriteToFile(const std::string& filename)
 {
+  UpdateLogNames();
+
   std::ofstream file;
   OpenWrite(file, filename, std::ios::out);
 
@@ -236,18 +285,16 @@ void RMSWell::WriteToFile(const std::string& filename)
     << GetNlog() - 3 << "\n";
 
   size_t k = 0;
-  std::map<std::string, std::map<int, std::string> >::iterator iter = discnames_.begin();
   typedef std::map<int, std::string>::const_iterator ci;
   for (size_t i = 0; i < GetNlog(); i++) {
     if (lognames_[i] != "X" && lognames_[i] != "Y" && lognames_[i] != "Z") {
       file<< lognames_[i] << " ";
-      iter = discnames_.find(lognames_[i]);
       if (isDiscrete_[i]==true) {
         file << "DISC" << " ";
-        for (ci p = iter->second.begin(); p !=iter->second.end();++p)
+        const std::map<int, std::string> names = GetDiscNames(lognames_[i]);
+        for (ci p = names.begin(); p != names.end(); ++p)
           file << p->first << " " << p->second << " ";
         file << "\n";
-       // ++iter;
       }
       else {
         file<< unit_[k] << " " << scale_[k] <<"\n";
diff --git a/src/nrlib/well/rmswell.hpp b/src/nrlib/well/rmswell.hpp
index 2f78471..e10daad 100644
--- a/src/nrlib/well/rmswell.hpp
+++ b/src/nrlib/well/rmswell.hpp
@@ -45,6 +45,9 @@ namespace NRLib {
     void WriteToFile(const std::string& filename);
 
   private:
+    /// Include logs that have been added, and leave out logs that have been removed, since the well was made.
+    void UpdateLogNames();
+
     /// Names for discrete logs
     std::map<std::string, std::map<int, std::string> > discnames_;
     double xpos0_, ypos0_;
-- 
2.43.0


From 15bc6e2ffba1ab4a113a0258967ece80ec94d5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:41 +0000
Subject: [PATCH 069/125] fix: every second log value below the end of a Norsar
 well track was lost

---
 src/nrlib/well/norsarwell.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/nrlib/well/norsarwell.cpp b/src/nrlib/well/norsarwell.cpp
index 705381d..93b5248 100644
--- a/src/nrlib/well/norsarwell.cpp
+++ b/src/nrlib/well/norsarwell.cpp
@@ -320,7 +320,6 @@ NorsarWell::MergeLogs(const std::vector<std::vector<double> > & track_logs, int
       else
         mdp = 1;
     }
-    il++;
   }
 
   return(result);
-- 
2.43.0


From a4a59e7929ab6d5e807a6688ba7ba424e4732d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:41 +0000
Subject: [PATCH 070/125] fix: the name, position and other information of a
 well read from a LAS file were lost when it is written again

---
 src/nrlib/well/laswell.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index 477c3fb..6bacbf4 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -108,7 +108,6 @@ LasWell::LasWell(const std::string & name,
   AddLog(depth_mnemonic, depth_unit, "", depth_log);
 
   AddWellInfo("COMP", company_name);
-  AddWellInfo("WELL", GetWellName());
   AddWellInfo("FLD",  field_name);
   AddWellInfo("LOC",  location);
   AddWellInfo("DATE", date);
@@ -229,7 +228,7 @@ LasWell::ParseInformation(std::vector<std::string>               & info,
         end_of_section = true;
         continue;
       }
-      else if (line[0] == '#') {
+      else if (line.empty() || line[0] == '#') {
         continue;
       }
       else {
@@ -345,10 +344,14 @@ LasWell::ParseWellToken(const std::string & token,
           depth_increment_ = val;
         else if(token == "NULL")
           SetMissing(val);
-        else if(token == "XWELL")
+        else if(token == "XWELL") {
           SetXPos0(val);
-        else if(token == "YWELL")
+          well_info_.push_back(line);
+        }
+        else if(token == "YWELL") {
           SetYPos0(val);
+          well_info_.push_back(line);
+        }
       }
       catch(NRLib::Exception & e) {
         err_txt += std::string(e.what())+" for keyword "+token+" under ~WELL INFORMATION in well "+GetWellName();
@@ -528,6 +531,7 @@ void LasWell::WriteToFile(const std::string              & filename,
   WriteLasLine(file, "STOP", depth_unit_, stop_depth_, "");
   WriteLasLine(file, "STEP", depth_unit_, depth_increment_, "");
   WriteLasLine(file, "NULL", "", GetContMissing(), "");
+  WriteLasLine(file, "WELL", "", GetWellName(), "");
   for(size_t i=0;i<well_info_.size();i++)
     file << well_info_[i] << "\n";
   file << "\n";
@@ -543,6 +547,13 @@ void LasWell::WriteToFile(const std::string              & filename,
     file << parameter_info_[i] << "\n";
   file << "\n";
 
+  // Other information. Only what is read from file.
+  if (other_info_.size() > 0) {
+    file << "~Other information\n";
+    for(size_t i=0;i<other_info_.size();i++)
+      file << other_info_[i] << "\n";
+    file << "\n";
+  }
 
   // Curve information
   // LAS only supports continuous logs...
-- 
2.43.0


From 8e6104fb58b85eaaa23f437deea423b742c7b80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:41 +0000
Subject: [PATCH 071/125] fix: writing a well that was read from a wrapped LAS
 file failed

---
 src/nrlib/well/laswell.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index 6bacbf4..339f618 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -517,7 +517,8 @@ void LasWell::WriteToFile(const std::string              & filename,
   // Version information
   file << "~Version information\n";
   WriteLasLine(file, "VERS", "", version_, "");
-  WriteLasLine(file, "WRAP", "", (wrap_ ? "YES" : "NO"), "");
+  // We don't support wrapped output yet.
+  WriteLasLine(file, "WRAP", "", "NO", "");
   for(size_t i=0;i<version_info_.size();i++)
     file << version_info_[i] << "\n";
   file << "\n";
@@ -572,9 +573,6 @@ void LasWell::WriteToFile(const std::string              & filename,
     logs[i] = &(GetContLog(log_name_[i]));
   }
 
-  // We don't support wrapped output yet.
-  assert(wrap_ == false);
-
   file.precision(3);
   for (size_t i = 0; i < logs[0]->size(); ++i) {
     for (size_t j = 0; j < logs.size(); ++j) {
-- 
2.43.0


From 9cd49c0c830f165d9e0f3f2ae69a56d9aa27f46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:41 +0000
Subject: [PATCH 072/125] fix: writing a LasWell after logs were added,
 replaced or removed read out of bounds or lost logs

---
 src/nrlib/well/laswell.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index 339f618..2bfe4ec 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -22,6 +22,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cmath>
+#include <algorithm>
 #include <fstream>
 #include <string>
 #include <vector>
@@ -490,6 +491,13 @@ void LasWell::AddLog(const std::string         & name,
                      const std::vector<double> & log)
 {
   Well::AddContLog(name, log);
+  std::vector<std::string>::iterator old = std::find(log_name_.begin(), log_name_.end(), name);
+  if (old != log_name_.end()) { // Replaces the log
+    size_t pos = old - log_name_.begin();
+    log_unit_[pos]    = units;
+    log_comment_[pos] = comment;
+    return;
+  }
   log_name_.push_back(name);
   log_unit_.push_back(units);
   log_comment_.push_back(comment);
@@ -559,20 +567,27 @@ void LasWell::WriteToFile(const std::string              & filename,
   // Curve information
   // LAS only supports continuous logs...
 
+  // Logs may have been added or removed without the units known here.
+  std::vector<const std::vector<double> *> logs;
   file << "~Curve information\n";
-  for (size_t i = 0; i < GetNContLog(); ++i) {
-    WriteLasLine(file, log_name_[i], log_unit_[i], "", log_comment_[i]);
+  for (size_t i = 0; i < log_name_.size(); ++i) {
+    if (HasContLog(log_name_[i])) {
+      WriteLasLine(file, log_name_[i], log_unit_[i], "", log_comment_[i]);
+      logs.push_back(&(GetContLog(log_name_[i])));
+    }
+  }
+  const std::map<std::string,std::vector<double> > & all_logs = GetContLog();
+  for (std::map<std::string,std::vector<double> >::const_iterator it = all_logs.begin(); it != all_logs.end(); ++it) {
+    if (std::find(log_name_.begin(), log_name_.end(), it->first) == log_name_.end()) {
+      WriteLasLine(file, it->first, "", "", "");
+      logs.push_back(&(it->second));
+    }
   }
   file << "\n";
 
   // Data section
   file << "~Ascii\n";
 
-  std::vector<const std::vector<double> *> logs(GetNContLog());
-  for (size_t i = 0; i < GetNContLog(); ++i) {
-    logs[i] = &(GetContLog(log_name_[i]));
-  }
-
   file.precision(3);
   for (size_t i = 0; i < logs[0]->size(); ++i) {
     for (size_t j = 0; j < logs.size(); ++j) {
-- 
2.43.0


From 583610ccc73853789d507bd3313334acfa00b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:41 +0000
Subject: [PATCH 073/125] fix: LAS files with an unreadable value were accepted
 with a zero there, a short record or a blank line with a carriage return was
 read out of bounds

---
 src/nrlib/well/laswell.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index 2bfe4ec..5c1f395 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -409,6 +409,10 @@ LasWell::ReadLogs(std::ifstream                  & fin,
 {
   std::string tmp_err_txt;
   std::vector<std::vector<double> > log(log_name_.size());
+  if(log.size() == 0) {
+    err_txt += "No logs given under ~CURVE INFORMATION in well "+GetWellName()+".\n";
+    return;
+  }
   size_t n_data = 2000000000; //Anything more than this will easily give indexing problems, so ok upper limit.
   bool n_data_given = false;
   if(IsMissing(start_depth_) == false && IsMissing(stop_depth_) == false && IsMissing(depth_increment_) == false &&
@@ -433,7 +437,7 @@ LasWell::ReadLogs(std::ifstream                  & fin,
     else {
       for(size_t i=0;i<log.size();i++) {
         if(n_data_given == false)
-          log[i].push_back(0);
+          log[i].resize(n_records);
         try {
           log[i][n_records-1] = NRLib::ParseType<double>(record[i]);
         }
@@ -449,7 +453,9 @@ LasWell::ReadLogs(std::ifstream                  & fin,
     n_records++;
   if(n_errors >= 5) //Note intentional use of err_txt below, final error.
      err_txt += tmp_err_txt +"Too many log errors found in well "+GetWellName()+". Stopped processing.\n";
-  else if(tmp_err_txt == "" && n_records < n_data && n_data_given == true) { //Note intentional use of err_txt below, only this error has occured.
+  else if(tmp_err_txt != "")
+    err_txt += tmp_err_txt;
+  else if(n_records < n_data && n_data_given == true) { //Note intentional use of err_txt below, only this error has occured.
     err_txt += "Wrong number of data records found in well "+GetWellName()+", found "+NRLib::ToString(n_records)
       +" while expecting "+NRLib::ToString(n_data)+".\n";
   }
@@ -467,8 +473,11 @@ LasWell::GetRecord(std:: ifstream           & fin,
                    std::vector<std::string> & record) const
 {
   std::string line;
-  while(line.empty()==true && fin.eof() == false)
+  while(line.empty()==true && fin.eof() == false) {
     getline(fin,line);
+    if(line.find_first_not_of(" \t\r") == std::string::npos)
+      line.clear();
+  }
   if(line.empty() == true)
     return(false);
 
-- 
2.43.0


From 8d2be707c9fb0963f13f32792cb8a5c16a7a91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:41 +0000
Subject: [PATCH 074/125] fix: blocked wells had another missing code than
 their values

---
 src/nrlib/well/welloperations.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/well/welloperations.hpp b/src/nrlib/well/welloperations.hpp
index de0e5c0..eb828a7 100644
--- a/src/nrlib/well/welloperations.hpp
+++ b/src/nrlib/well/welloperations.hpp
@@ -162,7 +162,11 @@ void NRLib::BlockWell(const NRLib::Well & well,
     disclognew[discnames[i]] = disclogs[i];
   }
   std::string well_name = well.GetWellName() + "blocked";
-  blocked_well = Well(contlognew, disclognew, well_name);
+  blocked_well = Well(well_name, well.GetContMissing(), well.GetIntMissing());
+  for (i = 0; i < ncont; i++)
+    blocked_well.AddContLog(contnames[i], contlognew[contnames[i]]);
+  for (i = 0; i < ndisc; i++)
+    blocked_well.AddDiscLog(discnames[i], disclognew[discnames[i]]);
 }
 
 #endif
-- 
2.43.0


From f6296fe064464cc06fdeb5b62b47535966bb9a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:10 +0000
Subject: [PATCH 075/125] fix: a LAS file with a repeated or unknown section
 was read forever

---
 src/nrlib/well/laswell.cpp | 49 ++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index 5c1f395..46c4ae8 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -159,24 +159,33 @@ LasWell::ReadHeader(const std::string        & filename,
       }
       else if (line[0] == '~') {         // Command trigger
         if (line[1] == 'V') {
-          if(version_read == true)
+          if(version_read == true) {
             err_txt += "~VERSION INFORMATION given more than once in file "+filename+".\n";
+            std::vector<std::string> junk_info;
+            ParseInformation(junk_info, "", fin, line, err_txt);
+          }
           else {
             version_read = true;
             ParseVersionInformation(fin, line, err_txt);
           }
         }
         else if (line[1] == 'W') {
-          if(well_read == true)
+          if(well_read == true) {
             err_txt += "~WELL INFORMATION given more than once in file "+filename+".\n";
+            std::vector<std::string> junk_info;
+            ParseInformation(junk_info, "", fin, line, err_txt);
+          }
           else {
             well_read = true;
             ParseWellInformation(fin, line, err_txt);
           }
         }
         else if (line[1] == 'C') {
-          if(curve_read == true)
+          if(curve_read == true) {
             err_txt += "~CURVE INFORMATION given more than once in file "+filename+".\n";
+            std::vector<std::string> junk_info;
+            ParseInformation(junk_info, "", fin, line, err_txt);
+          }
           else{
             curve_read = true;
             ParseCurveInformation(fin, line, err_txt);
@@ -219,26 +228,24 @@ LasWell::ParseInformation(std::vector<std::string>               & info,
                           std::string                            & line,
                           std::string                            & err_txt)
 {
-  if (info.size() == 0) {
-    bool end_of_section = false;
-    while ( !fin.eof() && !end_of_section && err_txt == "") {
-      getline (fin,line);
-      line = NRLib::Chomp(line);
+  if (info.size() > 0)
+    err_txt += "There is more than one "+text+" section present in well "+GetWellName()+".\n";
 
-      if (line[0] == '~') {
-        end_of_section = true;
-        continue;
-      }
-      else if (line.empty() || line[0] == '#') {
-        continue;
-      }
-      else {
-        info.push_back(line);
-      }
+  bool end_of_section = false;
+  while (!fin.eof() && !end_of_section) {
+    getline (fin,line);
+    line = NRLib::Chomp(line);
+
+    if (line[0] == '~') {
+      end_of_section = true;
+      continue;
+    }
+    else if (line.empty() || line[0] == '#') {
+      continue;
+    }
+    else {
+      info.push_back(line);
     }
-  }
-  else {
-    err_txt += "There is more than one "+text+" section present in well "+GetWellName()+".\n";
   }
 }
 
-- 
2.43.0


From 6ac6df0c869f495b1a1e70da5772ce87588aae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:43 +0000
Subject: [PATCH 076/125] fix: the incomplete gamma functions shared a global
 variable, so that threads disturbed each other

---
 src/nrlib/random/gamma.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/nrlib/random/gamma.cpp b/src/nrlib/random/gamma.cpp
index 8d5f57d..ac702b5 100644
--- a/src/nrlib/random/gamma.cpp
+++ b/src/nrlib/random/gamma.cpp
@@ -34,7 +34,6 @@ namespace NRLib {
   static const int    ngau    = 18;
   static const double EPS     = std::numeric_limits<double>::epsilon();
   static const double FPMIN   = std::numeric_limits<double>::min()/EPS;
-  double              gln;
 
   const double y[18] = {0.0021695375159141994,
   0.011413521097787704,0.027972308950302116,0.051727015600492421,
@@ -98,12 +97,12 @@ namespace NRLib {
 
   double gser(const double a, const double x)
   {
-    // Returns the incomplete gamma function P(a,x) evaluated by its series representation. Also sets ln gamma(a) as gln.
+    // Returns the incomplete gamma function P(a,x) evaluated by its series representation.
     double sum;
     double del;
     double ap;
 
-    gln = gammln(a);
+    double gln = gammln(a);
     ap  = a;
     del = 1/a;
     sum = del;
@@ -119,11 +118,11 @@ namespace NRLib {
 
   double gcf(const double a, const double x)
   {
-    //Returns the incomplete gamma function Q(a,x) evaluated by its continued fraction representation. Also sets ln Gamma(a) as gln.
+    //Returns the incomplete gamma function Q(a,x) evaluated by its continued fraction representation.
     int    i;
     double an,b,c,d,del,h;
 
-    gln = gammln(a);
+    double gln = gammln(a);
     b   = x+1-a;
     c   = 1/FPMIN;
     d   = 1/b;
@@ -163,7 +162,7 @@ namespace NRLib {
     double lna1   = std::log(a1);
     double sqrta1 = std::sqrt(a1);
 
-    gln = gammln(a);
+    double gln = gammln(a);
 
     if (x > a1)
       xu = std::max(a1+11.5*sqrta1, x+6*sqrta1);
@@ -207,7 +206,7 @@ namespace NRLib {
     double a1              = a-1;
     const double LOCAL_EPS = 1.e-8;
 
-    gln = gammln(a);
+    double gln = gammln(a);
     if (a <= 0.0)
       throw Exception("a must be positive in invgammap");
     if (p >= 1.0)
-- 
2.43.0


From 991312b2cd565cb7d2cb712240c7c6a17c2bd912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:14 +0000
Subject: [PATCH 077/125] fix: reading a damaged RMS or LAS well could write
 out of bounds or convert values out of range

---
 src/nrlib/well/laswell.cpp |  7 ++++++-
 src/nrlib/well/rmswell.cpp | 11 +++++++++--
 src/nrlib/well/well.cpp    | 10 ++++++++++
 src/nrlib/well/well.hpp    |  2 +-
 4 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index 46c4ae8..32eff2c 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -425,7 +425,12 @@ LasWell::ReadLogs(std::ifstream                  & fin,
   if(IsMissing(start_depth_) == false && IsMissing(stop_depth_) == false && IsMissing(depth_increment_) == false &&
      stop_depth_ > start_depth_ && depth_increment_ != 0) {
     n_data_given = true;
-    n_data = static_cast<size_t>(floor(0.5+(stop_depth_ - start_depth_)/depth_increment_))+1;
+    double n_steps = floor(0.5+(stop_depth_ - start_depth_)/depth_increment_);
+    if (n_steps < 0 || n_steps >= n_data) {
+      err_txt += "Start, stop and step do not agree in well "+GetWellName()+".\n";
+      return;
+    }
+    n_data = static_cast<size_t>(n_steps)+1;
     for(size_t i=0;i<log.size();i++)
       log[i].resize(n_data);
   }
diff --git a/src/nrlib/well/rmswell.cpp b/src/nrlib/well/rmswell.cpp
index d3e5ca1..3fd5365 100644
--- a/src/nrlib/well/rmswell.cpp
+++ b/src/nrlib/well/rmswell.cpp
@@ -28,6 +28,7 @@
 #include <stdlib.h>
 #include <assert.h>
 #include <math.h>
+#include <limits>
 #include "rmswell.hpp"
 #include "../iotools/stringtools.hpp"
 #include "../iotools/fileio.hpp"
@@ -53,7 +54,10 @@ RMSWell::RMSWell(const std::string& filename)
  // getline(file,dummy);// Line may contain a dummy number
   //-----line shift
   DiscardRestOfLine(file, line, false);
-  nlog = ReadNext<int>(file, line);          // read number of logs
+  int n_log_read = ReadNext<int>(file, line); // read number of logs
+  if (n_log_read < 0)
+    throw FileFormatError("Negative number of logs in file " + filename + ".");
+  nlog = n_log_read;
   DiscardRestOfLine(file, line, false);
   lognames_.resize(nlog+3);
   lognames_[0] = "X";
@@ -122,8 +126,11 @@ RMSWell::RMSWell(const std::string& filename)
     for (size_t i = 0; i < nlog; i++) {
       if (isDiscrete_[i+3]) {
         double dummy_d = ReadNext<double>(ist, line); //Double because of a problem with ReadNext<int> and facies on the form -9.9900000e+002
-        if(IsMissing(dummy_d) == false)
+        if(IsMissing(dummy_d) == false) {
+          if (dummy_d < std::numeric_limits<int>::min() || dummy_d > std::numeric_limits<int>::max())
+            throw FileFormatError("The value " + ToString(dummy_d) + " of discrete log " + lognames_[i+3] + " is out of range in file " + filename + ".");
           disclogs[j].push_back(static_cast<int>(dummy_d));
+        }
         else
           disclogs[j].push_back(GetIntMissing());
 
diff --git a/src/nrlib/well/well.cpp b/src/nrlib/well/well.cpp
index c395255..ef627f9 100644
--- a/src/nrlib/well/well.cpp
+++ b/src/nrlib/well/well.cpp
@@ -21,6 +21,7 @@
 
 #include <cassert>
 #include <fstream>
+#include <limits>
 #include <string>
 
 #include "well.hpp"
@@ -213,6 +214,15 @@ void Well::SetWellName(const std::string& wellname)
 }
 
 
+void Well::SetMissing(double value)
+{
+  well_rmissing_ = value;
+  // A code outside the range of integers cannot be the missing code of discrete logs.
+  if (value > std::numeric_limits<int>::min() && value < std::numeric_limits<int>::max())
+    well_imissing_ = static_cast<int>(value);
+}
+
+
 bool Well::IsMissing(double x)const
 {
   if (x == well_rmissing_)
diff --git a/src/nrlib/well/well.hpp b/src/nrlib/well/well.hpp
index 1588aa3..8686934 100644
--- a/src/nrlib/well/well.hpp
+++ b/src/nrlib/well/well.hpp
@@ -99,7 +99,7 @@ namespace NRLib {
     /// Set deviated
     void SetDeviated(bool b)  {is_deviated_ = b   ;}
     /// Set missing values
-    void SetMissing(double value) {well_rmissing_ = value; well_imissing_ = static_cast<int>(value);}
+    void SetMissing(double value);
     /// Return discrete value at position index in log with name logname
     /// Returns missing if there is no log with the given name, or index is out of range.
     int GetDiscValue(size_t index, const std::string& logname) const;
-- 
2.43.0


From e77fb3a80923b0e4d21b2a9d91745eaa59ff8fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:56 +0000
Subject: [PATCH 078/125] fix: a Norsar log section with two MD columns or a
 LAS record of only commas was read out of bounds

---
 src/nrlib/well/laswell.cpp    | 3 ++-
 src/nrlib/well/norsarwell.cpp | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index 32eff2c..29d87bf 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -443,7 +443,8 @@ LasWell::ReadLogs(std::ifstream                  & fin,
     n_records++;
     if(record.size() != log.size()) {
       n_errors++;
-      tmp_err_txt += "Error in well "+GetWellName()+", record "+NRLib::ToString(n_records)+"("+log_name_[0]+"="+record[0]
+      std::string first_item = (record.empty() == true) ? "" : record[0];
+      tmp_err_txt += "Error in well "+GetWellName()+", record "+NRLib::ToString(n_records)+"("+log_name_[0]+"="+first_item
         +"?): Wrong number of items, found "+NRLib::ToString(record.size())+" when expecting "+NRLib::ToString(log.size())+".\n";
     }
     else {
diff --git a/src/nrlib/well/norsarwell.cpp b/src/nrlib/well/norsarwell.cpp
index 93b5248..5bf62e5 100644
--- a/src/nrlib/well/norsarwell.cpp
+++ b/src/nrlib/well/norsarwell.cpp
@@ -156,8 +156,11 @@ NorsarWell::NorsarWell(const std::string & filename)
     log_MD = -1;
     for(int i=0; i<n_log_par;i++) {
       name = ReadNext<std::string>(file, line); //parameter
-      if(name == "MD")
+      if(name == "MD") {
+        if(log_MD >= 0)
+          throw(FileFormatError("Found MD more than once for logs '"+log_section_name+"' in file '"+filename+"'."));
         log_MD = i;
+      }
       else
         log_name.push_back(NRLib::Uppercase(name));
       token = ReadNext<std::string>(file, line); //unit
-- 
2.43.0


From d3f861ef8411af156894b1abc488f609121836a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:33 +0000
Subject: [PATCH 079/125] fix: a damaged Sgri header was used with
 uninitialised values or read for ever, the file name in it was read out of
 bounds

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 14 ++++++++------
 src/nrlib/surface/surfaceio.cpp       | 15 +++++++++------
 src/nrlib/surface/surfaceio.hpp       | 16 ++++++++--------
 3 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 3056ace..815af80 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -510,7 +510,7 @@ void StormContGrid::ReadSgriHeader(std::ifstream &headerFile, std::string &binFi
  // std::ifstream headerFile(filename.c_str(), std::ios::in); //checkFileOpen performed previously
   int i;
   std::string tmpStr;
-  int dim;
+  int dim = 0;
   //Reading record 1: Version header
   getline(headerFile, tmpStr);
   //Reading record 2: Grid dimension
@@ -528,7 +528,7 @@ void StormContGrid::ReadSgriHeader(std::ifstream &headerFile, std::string &binFi
 
 
   //Reading record 4+dim: Number of grids
-  int nGrid;
+  int nGrid = 0;
   headerFile >> nGrid;
   if (nGrid < 1) {
     throw Exception("Error: Number of grids read from sgri file must be >0");
@@ -536,7 +536,7 @@ void StormContGrid::ReadSgriHeader(std::ifstream &headerFile, std::string &binFi
   getline(headerFile, tmpStr);
   //Reading record 5+dim ... 5+dim+ngrid-1: Grid labels
 
-  for (i=0; i<nGrid; i++)
+  for (i=0; i<nGrid && headerFile; i++)
     getline(headerFile, tmpStr);
 
   std::vector<float> dValues1(dim);
@@ -606,11 +606,11 @@ void StormContGrid::ReadSgriHeader(std::ifstream &headerFile, std::string &binFi
   Resize(nX,nY,nZ);
   //Reading record 9+dim+ngrid: Angle of rotation
 
-  double angle;
+  double angle = 0.0;
   headerFile >> angle;
  // SetAngle(angle*NRLib::PI/180.0);
   SetAngle(angle);
-  double dipangle;
+  double dipangle = 0.0;
   headerFile >> dipangle;
 
   if(dipangle==0)
@@ -641,6 +641,8 @@ void StormContGrid::ReadSgriHeader(std::ifstream &headerFile, std::string &binFi
   getline(headerFile, tmpStr);
   //Reading record 10+dim+ngrid: Undef value
   headerFile >> missing_code_;
+  if (!headerFile)
+    throw Exception("Error: The header is not complete.\n");
   getline(headerFile, tmpStr);
   //Reading record 11+dim+ngrid: Filename of binary file.
   getline(headerFile, tmpStr);
@@ -656,7 +658,7 @@ void StormContGrid::ReadSgriHeader(std::ifstream &headerFile, std::string &binFi
     binFileName = tmpStr;
   }
   //Reading record 12+dim+ngrid: Complex values
-  bool hasComplex;
+  bool hasComplex = false;
   headerFile >> hasComplex;
   if (hasComplex != 0 ) {
     throw Exception("Error: Can not read Sgri binary file. Complex values?");
diff --git a/src/nrlib/surface/surfaceio.cpp b/src/nrlib/surface/surfaceio.cpp
index e8b41f5..efdc696 100644
--- a/src/nrlib/surface/surfaceio.cpp
+++ b/src/nrlib/surface/surfaceio.cpp
@@ -104,7 +104,8 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
 {
   std::ifstream header_file;
   OpenRead(header_file, filename.c_str(), std::ios::in | std::ios::binary);
-  int i, dim;
+  int i;
+  int dim = 0;
   std::string tmp_str;
   try {
     //Reading record 1: Version header
@@ -130,7 +131,7 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
     getline(header_file, tmp_str);
 
     //Reading record 4+dim: Number of grids
-    int n_grid;
+    int n_grid = 0;
     header_file >> n_grid;
     if (n_grid < 1) {
       throw Exception("Error: Number of grids read from sgri file must be > 0");
@@ -138,7 +139,7 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
     getline(header_file, tmp_str);
 
     //Reading record 5+dim ... 5+dim+ngrid-1: Grid labels
-    for (i=0; i<n_grid; i++)
+    for (i=0; i<n_grid && header_file; i++)
       getline(header_file, tmp_str);
 
     std::vector<float> d_values1(dim);
@@ -186,13 +187,15 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
     double x_min = min_values[0]-0.5*dx;
     double y_min = min_values[1]-0.5*dy;
 
-    double angle;
+    double angle = 0.0;
     header_file >> angle;
 
     getline(header_file, tmp_str);
     //Reading record 10+dim+ngrid: Undef value
-    float missing_code;
+    float missing_code = 0.0f;
     header_file >> missing_code;
+    if (!header_file)
+      throw Exception("Error: The header is not complete.\n");
 
     getline(header_file, tmp_str);
     //Reading record 11+dim+ngrid: Filename of binary file
@@ -213,7 +216,7 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
       bin_file_name = path + "/" + tmp_str;
     }
     //Reading record 12+dim+ngrid: Complex values
-    bool has_complex;
+    bool has_complex = false;
     header_file >> has_complex;
     if (has_complex != 0 ) {
       throw Exception("Error: Can not read Sgri binary file. Complex values?");
diff --git a/src/nrlib/surface/surfaceio.hpp b/src/nrlib/surface/surfaceio.hpp
index 52df1c9..abca4b6 100644
--- a/src/nrlib/surface/surfaceio.hpp
+++ b/src/nrlib/surface/surfaceio.hpp
@@ -241,7 +241,7 @@ void  NRLib::ReadSgriSurf(const std::string & filename,
     //Reading record 1: Version header
     getline(header_file, tmp_str);
     //Reading record 2: Grid dimension
-    int dim;
+    int dim = 0;
     header_file >> dim;
     if(dim!=2)
       throw Exception("Wrong dimension of Sgri file. We expect a surface, dimension should be 2.\n");
@@ -260,7 +260,7 @@ void  NRLib::ReadSgriSurf(const std::string & filename,
     //int config = IMISSING;
 
     //Reading record 4+dim: Number of grids
-    int n_grid;
+    int n_grid = 0;
     header_file >> n_grid;
     if (n_grid < 1) {
       throw Exception("Error: Number of grids read from sgri file must be >0");
@@ -268,7 +268,7 @@ void  NRLib::ReadSgriSurf(const std::string & filename,
     getline(header_file, tmp_str);
     //Reading record 5+dim ... 5+dim+ngrid-1: Grid labels
 
-    for (int i=0; i<n_grid; i++)
+    for (int i=0; i<n_grid && header_file; i++)
       getline(header_file, tmp_str);
 
     std::vector<float> d_values1(dim);
@@ -330,8 +330,10 @@ void  NRLib::ReadSgriSurf(const std::string & filename,
 
     getline(header_file, tmp_str);
     //Reading record 10+dim+ngrid: Undef value
-    float missing_code;
+    float missing_code = 0.0f;
     header_file >> missing_code;
+    if (!header_file)
+      throw Exception("Error: The header is not complete.\n");
     surface.SetMissingValue(missing_code);
     getline(header_file, tmp_str);
     //Reading record 11+dim+ngrid: Filename of binary file
@@ -340,10 +342,8 @@ void  NRLib::ReadSgriSurf(const std::string & filename,
     if (!tmp_str.empty()) {
       std::locale loc;
       int i = 0;
-      char c = tmp_str[i];
-      while (!std::isspace(c,loc)) {
+      while (i < static_cast<int>(tmp_str.size()) && !std::isspace(tmp_str[i],loc)) {
         i++;
-        c = tmp_str[i];
       }
       tmp_str.erase(tmp_str.begin()+i, tmp_str.end());
     }
@@ -354,7 +354,7 @@ void  NRLib::ReadSgriSurf(const std::string & filename,
       bin_file_name = path + "/" + tmp_str;
     }
     //Reading record 12+dim+ngrid: Complex values
-    bool has_complex;
+    bool has_complex = false;
     header_file >> has_complex;
     if (has_complex != 0 ) {
       throw Exception("Error: Can not read Sgri binary file. Complex values?");
-- 
2.43.0


From 3389e2861dd91fdd67fa932327098daca90298e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:14 +0000
Subject: [PATCH 080/125] fix: a SegY file whose traces have no samples was
 read out of bounds

---
 src/nrlib/segy/segy.cpp      | 6 ++++++
 src/nrlib/segy/segytrace.cpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 89c9803..e0cc1aa 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -544,6 +544,9 @@ SegY::GetTraceData(std::streampos pos, std::vector<float> & result, double z_top
   else
     j0 = 0;
 
+  if (nz_ == 0)
+    throw Exception("There are no samples in the traces of the SegY file.");
+
   if(z_bot > z0_)
     j1 = static_cast<size_t>((z_bot - z0_)/dz_);
   else
@@ -775,6 +778,9 @@ SegY::ReadTrace(const Volume * volume,
                    +ToString(trace_header_format_.GetCoordSys())+")");
   }
 
+  if (nz_ == 0)
+    throw Exception("There are no samples in the traces of the SegY file.");
+
   size_t j0 = 0;
   size_t j1 = nz_-1;
   double zTop, zBot;
diff --git a/src/nrlib/segy/segytrace.cpp b/src/nrlib/segy/segytrace.cpp
index 7439fa2..38d0bfb 100644
--- a/src/nrlib/segy/segytrace.cpp
+++ b/src/nrlib/segy/segytrace.cpp
@@ -118,6 +118,7 @@ SegYTrace::SegYTrace(NRLib::BigFile & file, size_t jStart, size_t jEnd, int form
           text += std::string("    ") + ToString(i) + ":  " + ToString(predata[i]) + "\n";
       }
     }
+    delete trace_header_;
     throw Exception(text);
   }
 }
-- 
2.43.0


From c494aec2841739401b9a7e4d1d548a9846f32b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:27 +0000
Subject: [PATCH 081/125] fix: a surface file with a negative number of nodes
 overflowed

---
 src/nrlib/surface/surfaceio.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nrlib/surface/surfaceio.hpp b/src/nrlib/surface/surfaceio.hpp
index abca4b6..2a6ffd8 100644
--- a/src/nrlib/surface/surfaceio.hpp
+++ b/src/nrlib/surface/surfaceio.hpp
@@ -123,6 +123,8 @@ void NRLib::ReadStormBinarySurf(const std::string & filename,
 
     int ni       = ReadNext<int>(file, line);
     int nj       = ReadNext<int>(file, line);
+    if (ni < 0 || nj < 0)
+      throw FileFormatError("Negative number of nodes.");
     double dx    = ReadNext<double>(file, line);
     double dy    = ReadNext<double>(file, line);
     double x_min = ReadNext<double>(file, line);
@@ -202,6 +204,8 @@ void NRLib::ReadIrapClassicAsciiSurf(const std::string & filename,
     ReadNext<int>(file, line);
     ReadNext<int>(file, line);
     ReadNext<int>(file, line);
+    if (ni < 0 || nj < 0)
+      throw FileFormatError("Negative number of nodes.");
     double lx = (ni-1)*dx;
     double ly = (nj-1)*dy;
 
-- 
2.43.0


From 749c39a1ccfd7ff4f5906bf740d691f0b138fe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:49 +0000
Subject: [PATCH 082/125] fix: the angle between parallel vectors could be NaN

---
 src/nrlib/geometry/point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/point.cpp b/src/nrlib/geometry/point.cpp
index c884158..315b569 100644
--- a/src/nrlib/geometry/point.cpp
+++ b/src/nrlib/geometry/point.cpp
@@ -63,7 +63,7 @@ double Point::GetAngle(const Point& p_in) const
   double norm = Norm()*p_in.Norm();
   if (norm > 0.0) {
     loc = this->Dot(p_in) / norm;
-    return std::acos(loc);
+    return std::acos(std::max(-1.0, std::min(1.0, loc)));
   }
   else
     return 0.0;   // returning unvalid value
-- 
2.43.0


From b711e93d779182cb8067f9796f2867fbc8a2b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:49 +0000
Subject: [PATCH 083/125] fix: a spline through two points read outside its
 tables

---
 src/nrlib/geometry/interpolation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/geometry/interpolation.cpp b/src/nrlib/geometry/interpolation.cpp
index def427d..23f1743 100644
--- a/src/nrlib/geometry/interpolation.cpp
+++ b/src/nrlib/geometry/interpolation.cpp
@@ -124,8 +124,10 @@ std::vector<double> Interpolation::Spline1D(const std::vector<double> &x_in,
 
   std::vector<double> u(n_in, 0.0);
   std::vector<double> v(n_in, 0.0);
-  u[1] = 2.0*(h[0] + h[1]);
-  v[1] = b[1] - b[0];
+  if (n_in > 2) {  // With two points the spline is the straight line between them.
+    u[1] = 2.0*(h[0] + h[1]);
+    v[1] = b[1] - b[0];
+  }
   for (size_t i = 2; i < n_in - 1; ++i) {
     u[i] = 2.0*(h[i] + h[i-1]) - h[i-1]*h[i-1]/u[i-1];
     v[i] = b[i] - b[i-1] - h[i-1]*v[i-1]/u[i-1];
-- 
2.43.0


From e5b36e50cb306b0cbcd50edc5e1b2d5b720c9a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:50 +0000
Subject: [PATCH 084/125] fix: circumference and orientation of polygons left
 out an edge

---
 src/nrlib/geometry/polygon.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/polygon.cpp b/src/nrlib/geometry/polygon.cpp
index fd65aa7..fdf9fc9 100644
--- a/src/nrlib/geometry/polygon.cpp
+++ b/src/nrlib/geometry/polygon.cpp
@@ -96,6 +96,7 @@ bool Polygon::IsCounterclockwise()
   for (size_t i=0; i<(polygon_points_.size()-1) ;i++) {
     doublearea+=polygon_points_[i].x*polygon_points_[i+1].y-polygon_points_[i].y*polygon_points_[i+1].x;
   }
+  doublearea+=polygon_points_.back().x*polygon_points_[0].y-polygon_points_.back().y*polygon_points_[0].x;
   return (doublearea>=0);
 }
 
@@ -339,7 +340,7 @@ Polygon::GetCircumferenceXY() const
   size_t poly_size = poly.GetSize();
   double poly_circ = (poly[poly_size-1] - poly[0]).Norm();
 
-  for (size_t i = 0; i < poly_size - 2; i++){
+  for (size_t i = 0; i < poly_size - 1; i++){
     poly_circ += (poly[i+1] - poly[i]).Norm();
   }
   return poly_circ;
-- 
2.43.0


From 8dd7a73a88a92dbd0b9fbbdd7afa53fc62eb21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:50 +0000
Subject: [PATCH 085/125] fix: side of a line beyond its second point and
 distance to a segment without length were wrong

---
 src/nrlib/geometry/line.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/line.cpp b/src/nrlib/geometry/line.cpp
index 24aa2f8..e376bd1 100644
--- a/src/nrlib/geometry/line.cpp
+++ b/src/nrlib/geometry/line.cpp
@@ -97,7 +97,7 @@ double Line::FindDistanceAndSide(const Point& p_in, bool& right_side) const
 {
   Point  proj_pt   = FindProjection(p_in);
   Point  side_vec  = p_in - proj_pt;
-  Point  line_vec  = p2_  - proj_pt;
+  Point  line_vec  = p2_  - p1_;
   Point  cross     = side_vec.Cross(line_vec);
   if (cross.z >= 0) //true also if it is exact on line
     right_side = true;
@@ -171,6 +171,12 @@ double Line::FindDistance(const Line   & line_in,
 
   // Nearest points:  s1 = p1_ + sc*u  and s2 = line_in.p1_ + tc*v.
 
+  if (c == 0 && a > 0) { // line_in has no length, nearest point is the projection of it
+    this_line_point = FindProjection(line_in.GetPt1());
+    in_line_point = line_in.GetPt1();
+    return Norm(this_line_point - in_line_point);
+  }
+
   if (dd == 0) { // lines are parallel
     sn = 0;     // We use p1_.
     sd = 1;     // Don't divide on 0.
-- 
2.43.0


From f8ff7e6b271ca27bff400078d4d815d120bda1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:25 +0000
Subject: [PATCH 086/125] fix: the point of an RMS points file with a single
 point was lost

---
 src/nrlib/pointset/pointset.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index c4cd840..3dff759 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -310,6 +310,7 @@ PointSet::ReadRMSInternalPoints(const std::string & filename,
     first_white_pos = line.find_first_of(NRLib::Whitespace());
     type_test = line.substr(0, first_white_pos);
   }
+  bool has_point_line = IsType<double>(type_test); // The first point line is already read.
   size_t n_tags = type.size();
   std::vector<std::vector<int> > discrete(n_tags);
   std::vector<std::vector<double> > floats(n_tags);
@@ -320,7 +321,7 @@ PointSet::ReadRMSInternalPoints(const std::string & filename,
 
   bool first_point = true;
   bool active;
-  while(!NRLib::CheckEndOfFile(file)) {
+  while((first_point && has_point_line) || !NRLib::CheckEndOfFile(file)) {
     active = false;
     if (!first_point)
       std::getline(file, line);
-- 
2.43.0


From d4d090a5dff8100e718ce99013166fef493f0686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:25 +0000
Subject: [PATCH 087/125] fix: the coordinates of points in Jason files were
 truncated to integers

---
 src/nrlib/pointset/pointset.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index 3dff759..a700c17 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -425,9 +425,9 @@ void PointSet::ReadJasonXYZ(const std::string &filename)
     }
     il[i] = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[0].c_str());
     xl[i] = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[1].c_str());
-    points_[i].x = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[2].c_str());
-    points_[i].y = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[3].c_str());
-    points_[i].z = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[4].c_str());
+    points_[i].x = NRLibPrivate::UnsafeParser<double>::ParseType(tokens[2].c_str());
+    points_[i].y = NRLibPrivate::UnsafeParser<double>::ParseType(tokens[3].c_str());
+    points_[i].z = NRLibPrivate::UnsafeParser<double>::ParseType(tokens[4].c_str());
   }
 
   AddDiscreteParameter("IL", il);
-- 
2.43.0


From 9dce6948fa966a379a1c1be01c1370886d39ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:26 +0000
Subject: [PATCH 088/125] fix: empty text values shifted the columns of RMS
 points files

---
 src/nrlib/pointset/pointset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index a700c17..8918966 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -511,7 +511,7 @@ PointSet::WriteInternalPoints(const std::string& filename) const
         file << " ";
       }
       for(iter3 = string_tag_.begin(); iter3 != string_tag_.end(); ++iter3){
-        if (iter3->second[i].find(" ") != std::string::npos)
+        if (iter3->second[i].empty() || iter3->second[i].find(" ") != std::string::npos)
           file << "\"" << iter3->second[i] << "\"";
         else
           file << std::setw(15) << iter3->second[i];
-- 
2.43.0


From 159af8c237a6bda2658c62c60789707a9296a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:26 +0000
Subject: [PATCH 089/125] fix: the convex hull of fewer than three points or of
 points on a line read out of bounds

---
 src/nrlib/pointset/pointset.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index 8918966..4166898 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -709,6 +709,13 @@ PointSet::Erase(size_t index)
 
 Polygon PointSet::GetConvexHull()
 {
+  if (points_.size() < 2) {
+    Polygon no_area;
+    for (size_t i = 0; i < points_.size(); i++)
+      no_area.AddPoint(points_[i]);
+    return no_area;
+  }
+
   int minpointindex=0; //The index of the point with the lowest y-coordinate
   std::vector<int> indexes;
   indexes.reserve(points_.size());
@@ -733,7 +740,8 @@ Polygon PointSet::GetConvexHull()
   std::vector<int> candidates; //Storing indexes of points in the convex hull for the first i (as in the variable i in the for-loop) indexes in the vector indexes
   candidates.push_back(indexes[0]);
   candidates.push_back(indexes[1]);
-  candidates.push_back(indexes[2]); //The point with the lowest y-coordinate, the point with the smallest angle and the point with the greatest angle is always in the convex hull
+  if (indexes.size() > 2)
+    candidates.push_back(indexes[2]); //The point with the lowest y-coordinate, the point with the smallest angle and the point with the greatest angle is always in the convex hull
   int top=2;
   int next_to_top=1;
   Point vec1, vec2;
-- 
2.43.0


From 143577f1cf1014d11a0514fcb3f35b12afa0a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:26 +0000
Subject: [PATCH 090/125] fix: shortening a wavelet wrote out of bounds and
 moved its samples

---
 src/nrlib/wavelet/wavelet.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/wavelet/wavelet.cpp b/src/nrlib/wavelet/wavelet.cpp
index a436603..c29f575 100644
--- a/src/nrlib/wavelet/wavelet.cpp
+++ b/src/nrlib/wavelet/wavelet.cpp
@@ -22,6 +22,7 @@
 #include "wavelet.hpp"
 
 #include <cmath>
+#include <algorithm>
 #include <string>
 
 #include "waveletio.hpp"
@@ -122,14 +123,15 @@ void Wavelet::Resize(size_t nw)
   if (old_center > new_center) {
     // Wavelet has become smaller.
     start = old_center - new_center;
-    end   = nw + start;
   }
   else {
     shift = new_center - old_center;
   }
 
+  end = std::min(end, nw + start - shift);
+
   for (size_t i = start; i < end; ++i) {
-    new_wavelet[i + shift] = wavelet_[i - start];
+    new_wavelet[i - start + shift] = wavelet_[i];
   }
 
   wavelet_.swap(new_wavelet);
-- 
2.43.0


From b6cb39a9245f8c4abcb95004f80286991b2b296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:43 +0000
Subject: [PATCH 091/125] fix: samples of an earlier wavelet remained where a
 file has none

---
 src/nrlib/wavelet/wavelet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nrlib/wavelet/wavelet.cpp b/src/nrlib/wavelet/wavelet.cpp
index c29f575..fe9ddeb 100644
--- a/src/nrlib/wavelet/wavelet.cpp
+++ b/src/nrlib/wavelet/wavelet.cpp
@@ -140,6 +140,7 @@ void Wavelet::Resize(size_t nw)
 
 void Wavelet::ReadFromFile(const std::string& filename, WaveletFileType type)
 {
+  wavelet_.clear();
   switch (type) {
   case JasonAscii:
     ReadJasonAsciiFile(filename, *this);
-- 
2.43.0


From e80a2bc0cadf9b9764586e6e69b86be6073b6f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:19 +0000
Subject: [PATCH 092/125] fix: a Syntool wavelet whose last line has no line
 break was rejected

---
 src/nrlib/wavelet/waveletio.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nrlib/wavelet/waveletio.cpp b/src/nrlib/wavelet/waveletio.cpp
index c98c388..2b59702 100644
--- a/src/nrlib/wavelet/waveletio.cpp
+++ b/src/nrlib/wavelet/waveletio.cpp
@@ -272,8 +272,7 @@ void ReadSyntoolOWFile(const std::string& filename, Wavelet& wavelet)
   try {
     for (size_t i = 0; i < nw; ++i) {
       double val;
-      GetNextNonEmptyLine(infile, line_number, line);
-      if (infile.eof())
+      if (!GetNextNonEmptyLine(infile, line_number, line))
         throw EndOfFile();
       std::vector<std::string> tokens = GetTokens(line);
       if (tokens.size() == 2) {
-- 
2.43.0


From 616e870a5b7703d9615c53263e1f4e40f4275b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:20 +0000
Subject: [PATCH 093/125] fix: points equal to the lowest one gave a wrong
 convex hull

---
 src/nrlib/pointset/pointset.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index 4166898..a4fd57c 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -709,24 +709,28 @@ PointSet::Erase(size_t index)
 
 Polygon PointSet::GetConvexHull()
 {
-  if (points_.size() < 2) {
-    Polygon no_area;
-    for (size_t i = 0; i < points_.size(); i++)
-      no_area.AddPoint(points_[i]);
-    return no_area;
-  }
+  if (points_.empty())
+    return Polygon();
 
   int minpointindex=0; //The index of the point with the lowest y-coordinate
   std::vector<int> indexes;
   indexes.reserve(points_.size());
   for (unsigned int i = 0; i < points_.size(); i++) {
-    indexes.push_back(i);
     if (points_[i].y<points_[minpointindex].y) {
       minpointindex=i;
     }
   }
-  indexes[minpointindex]=0;
-  indexes[0]=minpointindex; //Switching, so that the element corresponding to lowest y-coordinate is first
+  indexes.push_back(minpointindex); //The element corresponding to lowest y-coordinate is first
+  for (unsigned int i = 0; i < points_.size(); i++) {
+    //Points equal to the lowest point have no angle, and are left out
+    if (points_[i].x != points_[minpointindex].x || points_[i].y != points_[minpointindex].y)
+      indexes.push_back(i);
+  }
+  if (indexes.size() < 2) {
+    Polygon no_area;
+    no_area.AddPoint(points_[minpointindex]);
+    return no_area;
+  }
   AngleSort(indexes, minpointindex, 1, static_cast<int>(indexes.size())-1); //Sorting from second element to end
   RemoveEqualAngles(indexes, minpointindex); //If two points has the same angle wrt p=points_[minpointindex], the one closest to p will be deleted
   //debug
-- 
2.43.0


From 3584258cc39b1ce98ac305b1e561b3771a0e091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:27 +0000
Subject: [PATCH 094/125] fix: mean and sign of one-dimensional trends left out
 the first value

---
 src/nrlib/trend/trend.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/trend/trend.cpp b/src/nrlib/trend/trend.cpp
index 4d465a4..99f33d3 100644
--- a/src/nrlib/trend/trend.cpp
+++ b/src/nrlib/trend/trend.cpp
@@ -357,7 +357,7 @@ Trend1D::GetMeanValue(void) const
 {
   assert (trend_.size() > 0);
   double mean = 0.0;
-  for (size_t i = 1; i < trend_.size(); i++)
+  for (size_t i = 0; i < trend_.size(); i++)
     mean +=trend_[i];
 
   return (mean/trend_.size());
@@ -376,7 +376,7 @@ bool
 Trend1D::CheckForNegative() const
 {
   bool ok = true;
-  for (size_t i = 1; i < trend_.size(); i++)
+  for (size_t i = 0; i < trend_.size(); i++)
     if (trend_[i] < 0)
       ok = false;
 
-- 
2.43.0


From 302ba4f065651405cbbbc1e9aa77f95876c13604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:27 +0000
Subject: [PATCH 095/125] fix: interpolation between the layers of a
 three-dimensional trend was reversed

---
 src/nrlib/trend/trend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trend.cpp b/src/nrlib/trend/trend.cpp
index 99f33d3..87f177d 100644
--- a/src/nrlib/trend/trend.cpp
+++ b/src/nrlib/trend/trend.cpp
@@ -795,7 +795,7 @@ Trend3D::GetValue(double s1, double s2, double s3) const
   }
 
   double t          = k_frac - k0;
-  double val        = t*val_top + (1.0 - t)*val_bot;
+  double val        = (1.0 - t)*val_top + t*val_bot;
 
   return val;
 }
-- 
2.43.0


From 037f845b9096cb66b7cf91c92627fe3195747ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:27 +0000
Subject: [PATCH 096/125] fix: estimating a constant trend took the length of
 the first well for all wells

---
 src/nrlib/trend/trendkit.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index e55da08..ae61068 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -13,15 +13,13 @@ void EstimateConstantTrend(const std::vector<std::vector<double> > & blocked_log
   int nWells  = static_cast<int>(blocked_logs.size());
 
   if(nWells > 0) {
-    int nBlocks = static_cast<int>(blocked_logs[0].size());
-
     trend = 0;
 
     int count = 0;
 
     for (int w = 0 ; w < nWells ; w++) {
       if(blocked_logs[w].size() > 0) {
-        for (int k = 0 ; k < nBlocks ; k++) {
+        for (size_t k = 0 ; k < blocked_logs[w].size() ; k++) {
           if(blocked_logs[w][k] != RMISSING) {
             trend += blocked_logs[w][k];
             count++;
-- 
2.43.0


From 6472cfe888ab04b4684e7a57f55bde6eabd34493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:13 +0000
Subject: [PATCH 097/125] fix: release the polygons found around the active
 pillars

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index 9df54e7..aaac53a 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -285,6 +285,7 @@ Polygon EclipseGeometry::FindPolygonAroundActivePillars(double z_in)
     else {
       start_point=(*p)[0];
     }
+    delete p;
   }
   return active_polygon;
 }
-- 
2.43.0


From aa3eaa14b2bda8c1e96e1b94657488685735ab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:13 +0000
Subject: [PATCH 098/125] fix: looking up a point in a grid of one layer ends

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index aaac53a..725e0f8 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -485,7 +485,7 @@ bool EclipseGeometry::FindIndex(double x_in, double y_in, double z_in,
       above_bot = true;
     if(above_top == true || above_bot == false)
       return false;
-    while(top < bot-1){
+    while(top + 1 < bot){
         newbot = static_cast<size_t>(0.5*(top+bot));
         if (z_in < FindPointCellSurface(i_out, j_out, newbot, 1, u, v).z ){
           bot = newbot;
-- 
2.43.0


From 858af9fa5decfd7238c73b0f9718554b9ea1c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:13 +0000
Subject: [PATCH 099/125] fix: points inside a cell face lie between its
 corners

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 46 +++++------------------
 1 file changed, 9 insertions(+), 37 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index 725e0f8..a31fc4e 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -796,45 +796,17 @@ EclipseGeometry::FindZBotAtPillar(size_t i, size_t j, bool & found) const
 
 Point EclipseGeometry::FindPointCellSurface(size_t i_in, size_t j_in, size_t k_in, int lower_or_upper, double u_in, double v_in) const
 {
-  //The p values are the corner points on the cell, while q and r are points with the same z-value as the p-point
-  // at respectively the neighbouring pillar in i-direction and neighbouring pillar in j-direction.
-  Point p00 = FindPointAtPillar(i_in, j_in, GetZCorner(i_in, j_in, k_in, 0,0,lower_or_upper) );
-  Point q00 = FindPointAtPillar(i_in, j_in, GetZCorner(i_in, j_in, k_in, 1,0,lower_or_upper) );
-  Point r00 = FindPointAtPillar(i_in, j_in, GetZCorner(i_in, j_in, k_in, 0,1,lower_or_upper) );
+  // The depth is bilinear in the corners of the surface, and the point lies between the pillars at that depth.
+  double z = (1 - u_in) * ((1 - v_in) * GetZCorner(i_in, j_in, k_in, 0, 0, lower_or_upper) + v_in * GetZCorner(i_in, j_in, k_in, 0, 1, lower_or_upper))
+             +    u_in  * ((1 - v_in) * GetZCorner(i_in, j_in, k_in, 1, 0, lower_or_upper) + v_in * GetZCorner(i_in, j_in, k_in, 1, 1, lower_or_upper));
 
+  Point p00 = FindPointAtPillar(i_in,     j_in,     z);
+  Point p10 = FindPointAtPillar(i_in + 1, j_in,     z);
+  Point p01 = FindPointAtPillar(i_in,     j_in + 1, z);
+  Point p11 = FindPointAtPillar(i_in + 1, j_in + 1, z);
 
-  Point p10 = FindPointAtPillar(i_in + 1, j_in, GetZCorner(i_in, j_in, k_in, 1,0,lower_or_upper) );
-  Point q10 = FindPointAtPillar(i_in + 1, j_in, GetZCorner(i_in, j_in, k_in, 0,0,lower_or_upper) );
-  Point r10 = FindPointAtPillar(i_in + 1, j_in, GetZCorner(i_in, j_in, k_in, 1,1,lower_or_upper) );
-
-
-  Point p01 = FindPointAtPillar(i_in, j_in + 1, GetZCorner(i_in, j_in, k_in, 0,1,lower_or_upper) );
-  Point q01 = FindPointAtPillar(i_in, j_in + 1, GetZCorner(i_in, j_in, k_in, 1,1,lower_or_upper) );
-  Point r01 = FindPointAtPillar(i_in, j_in + 1, GetZCorner(i_in, j_in, k_in, 0,0,lower_or_upper) );
-
-
-  Point p11 = FindPointAtPillar(i_in + 1, j_in + 1, GetZCorner(i_in, j_in, k_in, 1,1,lower_or_upper) );
-  Point q11 = FindPointAtPillar(i_in + 1, j_in + 1, GetZCorner(i_in, j_in, k_in, 0,1,lower_or_upper) );
-  Point r11 = FindPointAtPillar(i_in + 1, j_in + 1, GetZCorner(i_in, j_in, k_in, 1,0,lower_or_upper) );
-
-
-  //Coefficients for the model f(u,v) = (a2*v^2 + a1*v + a0)u^2 + (a1*v^2 + b1*v + c1)u + a0*v^2 + b0*v + c0
-  Point a2 = (p01 + p11 - q01 - q11) -(p00 + p10 - q00 - q10) -(r10 + r11 - 2*p10);
-  Point b2 = r10 + r11 - 2*p10;
-  Point c2 = p00 + p10 - q00 - q10;
-
-  Point a1 = (p00 + p10 - q00 - q10) + (p10 + p11 - r10 - r11) - (p01 + p11 - q01 - q11)
-             - (p00 + p01 - r00 - r01) + (r10 + r11 - 2*p10);
-  Point b1 = -1*(r00 + r01 - 2*p00);
-  Point c1 = q00 + q10 - 2*p00;
-
-  Point a0 = p00 + p01 - r00 - r01;
-  Point b0 = r00 + r01 - 2*p00;
-  Point c0 = p00;
-
-  Point f = (a2 * v_in*v_in + b2*v_in + c2) * u_in*u_in
-            + (a1 * v_in*v_in + b1*v_in + c1) * u_in
-            + a0 * v_in*v_in + b0*v_in + c0;
+  Point f = (1 - u_in) * ((1 - v_in) * p00 + v_in * p01) + u_in * ((1 - v_in) * p10 + v_in * p11);
+  f.z = z;
 
   return f;
 }
-- 
2.43.0


From 2791c455597043669dc97d942fbf9a7dac3c046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:13 +0000
Subject: [PATCH 100/125] fix: resizing an Eclipse grid nulls out the z-corners

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index a31fc4e..baab0e0 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -68,7 +68,7 @@ void EclipseGeometry::Resize(size_t ni, size_t nj, size_t nk)
   nk_ = nk;
   pillars_.Resize(ni + 1, nj + 1);
   active_pillars_.Resize(ni + 1, nj + 1);
-  z_corners_.resize(8 * ni * nj * nk);
+  z_corners_.assign(8 * ni * nj * nk, 0.0);
   active_.Resize(ni, nj, nk);
 }
 
-- 
2.43.0


From fe38d071bc2185bf0136eed58b25901c263395f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:28 +0000
Subject: [PATCH 101/125] fix: find every group of active pillars when
 outlining an Eclipse grid

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index baab0e0..2056a13 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -219,16 +219,14 @@ Polygon EclipseGeometry::FindPolygonAroundActivePillars(double z_in)
   bool continuing=true;
   size_t checked_to_i=0;
   size_t checked_to_j=0;
-  size_t last_index;
   size_t choice,i,j;
   NRLib::Grid2D<bool> checked(ni_+1,nj_+1,false);
   while (continuing) {
     continuing=false;
     for (i=checked_to_i; i<=ni_; i++) {
-      last_index=0;
-      for (j=checked_to_j; j<=nj_; j++) {
+      for (j=(i==checked_to_i ? checked_to_j : 0); j<=nj_; j++) {
         if (active_pillars_(i,j)!=0 && checked(i,j)==false) {
-          if (j==0 || active_pillars_(i,last_index)==0) {
+          if (j==0 || active_pillars_(i,j-1)==0) {
             checked_to_i=i;
             checked_to_j=j+1;
             continuing=true;
@@ -236,7 +234,6 @@ Polygon EclipseGeometry::FindPolygonAroundActivePillars(double z_in)
             j=nj_+1;
           }
         }
-        last_index=j;
       }
     }
     if (continuing) {
-- 
2.43.0


From cffcbc2bd306da79d10a2b6ebb474adebadac5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:28 +0000
Subject: [PATCH 102/125] fix: points between slanted pillars are found

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index 2056a13..cf4d64f 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -156,12 +156,9 @@ Point EclipseGeometry::FindCellCenterPointTopBot(size_t i, size_t j, size_t k, b
 bool EclipseGeometry::GetCellIndex_ij(double x_in, double y_in, double z_in, size_t& i_out, size_t& j_out) const
 {
 
+  // The outlines of the grid at its top and base do not bound it in between when pillars are slanted,
+  // so all columns are examined.
   Point  p_in(x_in, y_in, z_in);
- // bool inside = largepoly.IsInsidePolygonXY(p_in);
-  bool inside1 = polymin_.IsInsidePolygonXY(p_in);
-  bool inside2 = polymax_.IsInsidePolygonXY(p_in);
-  if(inside1==false && inside2==false)
-    return false;
 
  // Generate check_plane, defined by given input point and any normal vector, here (0,0,1)
 
-- 
2.43.0


From 3f0ea54814616f6e5dbcc483314c803d1c532356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:28 +0000
Subject: [PATCH 103/125] fix: local coordinates of cells that are rotated or
 left-handed

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 56 +++++++++++++----------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index cf4d64f..53ced07 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -861,32 +861,40 @@ void EclipseGeometry::FindUVCoordinates(double x_in, double y_in, double z_in, s
     secb = dy*ax + bx*cy + x_in*ay - dx*ay - by*cx - ax*y_in;
     secc = dy*bx + x_in*by - by*dx - y_in*bx;
 
-    if (seca != 0){
-      // The expression with + in front of the square root seems to be the correct one
-      v_out = (-secb + sqrt(secb*secb - 4*seca*secc))/(2*seca);
-      if (v_out <0 || v_out>1){
-        v_out = (-secb - sqrt(secb*secb - 4*seca*secc))/(2*seca);
-      }
-    }
-    else{
-      if (secb != 0){
-        v_out = (-secc)/secb;
-      }
-      else{
-        if (secc == 0){
-          v_out = 0; //free parameter
-        }
-        else{
-          throw Exception( "Degenerated cell" );
-        }
+    // Both roots, without cancellation when seca is (almost) zero.
+    double root[2];
+    int    n_roots = 0;
+    double disc    = secb*secb - 4*seca*secc;
+    double q       = -0.5*(secb + (secb < 0 ? -1 : 1)*sqrt(disc > 0 ? disc : 0.0));
+    if (q != 0)
+      root[n_roots++] = secc/q;
+    if (seca != 0)
+      root[n_roots++] = q/seca;
+    if (n_roots == 0) {
+      if (secc == 0)
+        root[n_roots++] = 0; //free parameter
+      else
+        throw Exception( "Degenerated cell" );
+    }
+
+    // Use the root that gives a point in the cell.
+    double min_outside = numeric_limits<double>::infinity();
+    for (int n = 0; n < n_roots; n++) {
+      double v   = root[n];
+      double u   = 0; //free parameter
+      double u_x = ax*v + bx;
+      double u_y = ay*v + by;
+      if (u_x != 0 && std::abs(u_x) >= std::abs(u_y))
+        u = (x_in - cx*v - dx)/u_x;
+      else if (u_y != 0)
+        u = (y_in - cy*v - dy)/u_y;
+      double outside = std::max(std::max(-u, u - 1), 0.0) + std::max(std::max(-v, v - 1), 0.0);
+      if (n == 0 || outside < min_outside) {
+        min_outside = outside;
+        u_out = u;
+        v_out = v;
       }
     }
-    if (ax*v_out + bx != 0){
-      u_out = (x_in - cx*v_out - dx)/(ax*v_out + bx);
-    }
-    else{
-      u_out = 0; //free parameter
-    }
   }
 }
 
-- 
2.43.0


From 31a3e6b304546d5ef7c22a66d205b36f757a8ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:48 +0000
Subject: [PATCH 104/125] fix: an Eclipse file that ends too early is an error

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp  | 9 ++++++---
 src/nrlib/eclipsegrid/eclipsetools.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 7328e87..20878fa 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -152,7 +152,8 @@ void EclipseGrid::ReadFaults(std::ifstream& in_file)
 
   bool be_in_loop = true;
   while (be_in_loop == true){
-    std::getline(in_file, in_line);
+    if (!std::getline(in_file, in_line))
+      throw EndOfFile();
     line_tokens = GetTokens(in_line);
     if ( line_tokens.empty() ){
     }
@@ -364,7 +365,8 @@ void EclipseGrid::ReadKeyword(std::ifstream& in_file, const std::string& token)
     string s;
     bool cont_read = true;
     while (cont_read){
-      std::getline(in_file, s);
+      if (!std::getline(in_file, s))
+        throw EndOfFile();
       std::vector<std::string> line_tokens;
       line_tokens = GetTokens(s);
       if ( line_tokens.empty() ){
@@ -379,7 +381,8 @@ void EclipseGrid::ReadKeyword(std::ifstream& in_file, const std::string& token)
     string s;
     bool cont_read = true;
     while (cont_read){
-      std::getline(in_file, s);
+      if (!std::getline(in_file, s))
+        throw EndOfFile();
       std::vector<std::string> line_tokens;
       line_tokens = GetTokens(s);
       if (!line_tokens.empty()) {
diff --git a/src/nrlib/eclipsegrid/eclipsetools.cpp b/src/nrlib/eclipsegrid/eclipsetools.cpp
index 0dd9a85..3482ae7 100644
--- a/src/nrlib/eclipsegrid/eclipsetools.cpp
+++ b/src/nrlib/eclipsegrid/eclipsetools.cpp
@@ -21,6 +21,8 @@
 
 #include "eclipsetools.hpp"
 
+#include "../exception/exception.hpp"
+
 #include <string>
 #include <vector>
 #include <iostream>
@@ -38,7 +40,8 @@ void SkipComments( std::ifstream& in_file )
   bool comment = true;
 
   while (comment == true){
-    in_file.get(c);
+    if (!in_file.get(c))
+      throw EndOfFile();
     if ( isspace(c) ){
 
     }
@@ -74,6 +77,8 @@ std::string ReadParameterBuffer(std::ifstream& in_file)
     buffer.resize(counter);
     in_file.read(&(buffer[counter-K]), K);
     pos = buffer.find("/", counter-K);
+    if (pos == buffer.npos && !in_file)
+      throw EndOfFile();
   }
   if ( in_file.eof() ){
     in_file.clear();
-- 
2.43.0


From 8c8a3ecd823080c024836730d97cc722d291dc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:48 +0000
Subject: [PATCH 105/125] fix: map axes that point downwards or are left-handed

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 20878fa..272eb52 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -300,15 +300,13 @@ void EclipseGrid::ReadFromFile(const std::string& file_name)
   if (local_coord == true) {
     if (has_map_axes == true) {
       NRLib::Transformation transformation;
-      double vector_length = sqrt( pow((map_ax_x3 - map_ax_x2), 2) + pow( (map_ax_y3 - map_ax_y2), 2) );
-      double theta = acos( (map_ax_x3 - map_ax_x2)/vector_length );
-
-      transformation.RotateZ(theta);
+      double theta = atan2(map_ax_y3 - map_ax_y2, map_ax_x3 - map_ax_x2);
 
       double cross_prod =(map_ax_y1 - map_ax_y2)*(map_ax_x3 - map_ax_x2) - (map_ax_x1 - map_ax_x2)*(map_ax_y3 - map_ax_y2);
       if (cross_prod <0){
         transformation.MirrorXZ();
       }
+      transformation.RotateZ(theta);
       transformation.TranslateX(map_ax_x2);
       transformation.TranslateY(map_ax_y2);
 
-- 
2.43.0


From 19b72f4abbdf692c72b87cbca1867671e4711720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:48 +0000
Subject: [PATCH 106/125] fix: walking the faces of a fault without segments

---
 src/nrlib/eclipsegrid/eclipsefaceindexer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsefaceindexer.cpp b/src/nrlib/eclipsegrid/eclipsefaceindexer.cpp
index 00ae848..3aabf4b 100644
--- a/src/nrlib/eclipsegrid/eclipsefaceindexer.cpp
+++ b/src/nrlib/eclipsegrid/eclipsefaceindexer.cpp
@@ -31,9 +31,14 @@ FaceIndexer::FaceIndexer(const EclipseFault &fault)
 {
   segment_iterator_ = fault.SegmentsBegin();
   end_iterator_ = fault.SegmentsEnd();
-  i_ = segment_iterator_->i_from;
-  j_ = segment_iterator_->j_from;
-  k_ = segment_iterator_->k_from;
+  i_ = 0;
+  j_ = 0;
+  k_ = 0;
+  if (this->IsFinished() == false) {
+    i_ = segment_iterator_->i_from;
+    j_ = segment_iterator_->j_from;
+    k_ = segment_iterator_->k_from;
+  }
 }
 
 CellFace FaceIndexer::GetFace()
-- 
2.43.0


From d36c6f1d8391b4ca63b686bc66af8727dfa35c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:11 +0000
Subject: [PATCH 107/125] fix: long formatted log messages overflowed a buffer

---
 src/nrlib/iotools/logkit.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/iotools/logkit.cpp b/src/nrlib/iotools/logkit.cpp
index 8199a79..1557c62 100644
--- a/src/nrlib/iotools/logkit.cpp
+++ b/src/nrlib/iotools/logkit.cpp
@@ -21,6 +21,7 @@
 
 #include <algorithm>
 #include <cstdarg>
+#include <cstdio>
 #include <iostream>
 
 #include "fileio.hpp"
@@ -157,25 +158,39 @@ LogKit::LogMessage(int level, int phase, const std::string & message) {
 }
 
 
+namespace {
+  // Text of any length.
+  std::string FormatMessage(const char* format, va_list ap) {
+    va_list ap_length;
+    va_copy(ap_length, ap);
+    int length = vsnprintf(NULL, 0, format, ap_length);
+    va_end(ap_length);
+    if (length < 0)
+      return std::string();
+    std::vector<char> message(length + 1);
+    vsnprintf(&message[0], message.size(), format, ap);
+    return std::string(&message[0]);
+  }
+}
+
+
 void
 LogKit::LogFormatted(int level, const char* format, ...) {
   va_list ap;
-  char message[5000];
   va_start(ap, format);
-  vsprintf(message, format, ap);
+  std::string message = FormatMessage(format, ap);
   va_end(ap);
-  LogMessage(level, std::string(message));
+  LogMessage(level, message);
 }
 
 
 void
 LogKit::LogFormatted(int level, int phase, const char* format, ...) {
   va_list ap;
-  char message[1000];
   va_start(ap, format);
-  vsprintf(message, format, ap);
+  std::string message = FormatMessage(format, ap);
   va_end(ap);
-  LogMessage(level, phase, std::string(message));
+  LogMessage(level, phase, message);
 }
 
 
-- 
2.43.0


From 1c31be4a06fc050dc888b321a3a33b5a17af30fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 108/125] fix: buffering log messages anew releases the old
 buffer

---
 src/nrlib/iotools/logkit.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nrlib/iotools/logkit.cpp b/src/nrlib/iotools/logkit.cpp
index 1557c62..328edab 100644
--- a/src/nrlib/iotools/logkit.cpp
+++ b/src/nrlib/iotools/logkit.cpp
@@ -217,6 +217,7 @@ LogKit::EndLog() {
 
 void
 LogKit::StartBuffering() {
+  EndBuffering(); // Releases what was buffered before.
   buffer_ = new std::vector<BufferMessage *>;
 }
 
-- 
2.43.0


From 7ad6f9e9c70d5d335ddbeb57d83432c00994ec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:18 +0000
Subject: [PATCH 109/125] fix: XML text, attributes and comments without their
 end no longer read past the document

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index a1bb72e..90e283d 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -631,9 +631,9 @@ const char* TiXmlBase::ReadText(    const char* p,
             }
         }
     }
-    if ( p )
+    if ( p && *p )
         p += strlen( endTag );
-    return p;
+    return ( p && *p ) ? p : 0;
 }
 
 #ifdef TIXML_USE_STL
@@ -1379,8 +1379,12 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
         value.append( p, 1 );
         ++p;
     }
-    if ( p )
-        p += strlen( endTag );
+    if ( !p || !*p )
+    {
+        if ( document ) document->SetError( TIXML_ERROR_PARSING_COMMENT, 0, 0, encoding );
+        return 0;
+    }
+    p += strlen( endTag );
 
     return p;
 }
-- 
2.43.0


From 2968e76dcc124d4ae86401a4f790737e709f9123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:18 +0000
Subject: [PATCH 110/125] fix: an XML document ending in a cut off UTF-8 lead
 byte no longer hangs the parser

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index 90e283d..d13b7df 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -274,6 +274,8 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
                         else
                             { p +=3; ++col; }   // A normal character.
                     }
+                    else
+                        { ++p; ++col; }     // Cut short at the end of the text.
                 }
                 else
                 {
-- 
2.43.0


From 8f6351c59d74c494fba797dd09a25b5a30bb6dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:18 +0000
Subject: [PATCH 111/125] fix: a cut off UTF-8 character no longer takes the
 XML parser past the end of the text

---
 src/nrlib/tinyxml/tinyxml.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxml.h b/src/nrlib/tinyxml/tinyxml.h
index b85f394..10e57f0 100644
--- a/src/nrlib/tinyxml/tinyxml.h
+++ b/src/nrlib/tinyxml/tinyxml.h
@@ -350,10 +350,12 @@ protected:
         {
             //strncpy( _value, p, *length );    // lots of compilers don't like this function (unsafe),
                                                 // and the null terminator isn't needed
-            for( int i=0; p[i] && i<*length; ++i ) {
+            int i;
+            for( i=0; p[i] && i<*length; ++i ) {
                 _value[i] = p[i];
             }
-            return p + (*length);
+            *length = i;
+            return p + i;
         }
         else
         {
-- 
2.43.0


From dd0ae28b882b66a228e2f58f465915526473af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:18 +0000
Subject: [PATCH 112/125] fix: XML declarations, CDATA and tags that are cut
 off are reported as errors

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index d13b7df..75eb605 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -1297,13 +1297,12 @@ const char* TiXmlUnknown::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
         ++p;
     }
 
-    if ( !p )
+    if ( !p || !*p )
     {
         if ( document ) document->SetError( TIXML_ERROR_PARSING_UNKNOWN, 0, 0, encoding );
+        return 0;
     }
-    if ( *p == '>' )
-        return p+1;
-    return p;
+    return p+1;
 }
 
 #ifdef TIXML_USE_STL
@@ -1535,6 +1534,11 @@ const char* TiXmlText::Parse( const char* p, TiXmlParsingData* data, TiXmlEncodi
             ++p;
         }
 
+        if ( !p || !*p )
+        {
+            if ( document ) document->SetError( TIXML_ERROR_PARSING_CDATA, 0, 0, encoding );
+            return 0;
+        }
         TIXML_STRING dummy;
         p = ReadText( p, &dummy, false, endTag, false, encoding );
         return p;
@@ -1606,6 +1610,8 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
         }
 
         p = SkipWhiteSpace( p, _encoding );
+        if ( !p || !*p )
+            break;
         if ( StringEqual( p, "version", true, _encoding ) )
         {
             TiXmlAttribute attrib;
@@ -1631,6 +1637,7 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
                 ++p;
         }
     }
+    if ( document ) document->SetError( TIXML_ERROR_PARSING_DECLARATION, 0, 0, _encoding );
     return 0;
 }
 
-- 
2.43.0


From 12dff06c20a7a303cc6165dea53936f925285877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:18 +0000
Subject: [PATCH 113/125] fix: XML end tags may have white space before the
 closing bracket

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index 75eb605..955df80 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -1085,7 +1085,6 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 
     TIXML_STRING endTag ("</");
     endTag += value;
-    endTag += ">";
 
     // Check for and read attributes. Also look for an empty
     // tag or an end tag.
@@ -1126,8 +1125,12 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
             // We should find the end tag now
             if ( StringEqual( p, endTag.c_str(), false, encoding ) )
             {
-                p += endTag.length();
-                return p;
+                // White space is allowed between the name and the '>'.
+                p = SkipWhiteSpace( p + endTag.length(), encoding );
+                if ( p && *p == '>' )
+                    return p + 1;
+                if ( document ) document->SetError( TIXML_ERROR_READING_END_TAG, p, data, encoding );
+                return 0;
             }
             else
             {
-- 
2.43.0


From 7a5ac29e0894f7a33904193c401cf4bca07b2524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:18 +0000
Subject: [PATCH 114/125] fix: an XML element with the same attribute twice is
 an error instead of silently losing the rest

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index 955df80..1eb9a29 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -1167,7 +1167,7 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
             #endif
             if ( node )
             {
-                node->SetValue( attrib->Value() );
+                if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, pErr, data, encoding );
                 delete attrib;
                 return 0;
             }
-- 
2.43.0


From 268050712cec5ec022c945f62ca00bea6a6fe689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:21 +0000
Subject: [PATCH 115/125] fix: estimated 2D variance was stored in a surface of
 the wrong size

---
 src/nrlib/trend/trendstorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trendstorage.cpp b/src/nrlib/trend/trendstorage.cpp
index 18ce612..d90b132 100644
--- a/src/nrlib/trend/trendstorage.cpp
+++ b/src/nrlib/trend/trendstorage.cpp
@@ -594,7 +594,7 @@ Trend2DStorage::GenerateTrend(const std::string                       & path,
                          y,
                          z);
 
-        std::vector<std::vector<double> > trend_cube_variance(trend_cube_n1, std::vector<double>(trend_cube_n1, RMISSING));
+        std::vector<std::vector<double> > trend_cube_variance(trend_cube_n1, std::vector<double>(trend_cube_n2, RMISSING));
 
         bandwidth_x = CalculateBandwidth(x, scale, 0.167);
         bandwidth_y = CalculateBandwidth(y, scale, 0.167);
-- 
2.43.0


From ad07af3280aea93153b26a7f46a213f834f0d82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:21 +0000
Subject: [PATCH 116/125] fix: data for a 1D variance is checked against the
 samples of its own reference

---
 src/nrlib/trend/trendstorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trendstorage.cpp b/src/nrlib/trend/trendstorage.cpp
index d90b132..2d635a7 100644
--- a/src/nrlib/trend/trendstorage.cpp
+++ b/src/nrlib/trend/trendstorage.cpp
@@ -344,7 +344,7 @@ Trend1DStorage::GenerateTrend(const std::string                       & path,
 
           double bandwidth = CalculateBandwidth(x, scale, 0.2);
 
-          if (CheckConfigurations1D(x, y, trend_cube_sampling[0], bandwidth,errTxt)) {
+          if (CheckConfigurations1D(x, y, trend_cube_sampling[reference - 1], bandwidth,errTxt)) {
             EstimateVariance1D(x,
                                y,
                                trend_cube_sampling[reference - 1],
-- 
2.43.0


From a4d226382d965a20f3657e66dbbf056256a577d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:21 +0000
Subject: [PATCH 117/125] fix: estimating a trend from wells without values is
 an error instead of reading nothing

---
 src/nrlib/trend/trendkit.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index ae61068..27af538 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -386,6 +386,12 @@ bool CheckConfigurations1D(const std::vector<double> & x,
 
   size_t n_samples = y.size();
 
+  if (n_samples == 0) {
+    errTxt        += "Error: Unable to estimate 1D trend/variance.\n";
+    errTxt        += "       The data contains only missing values.\n";
+    return(false);
+  }
+
   double x_min     = *std::min_element(x.begin(), x.end());
   double x_max     = *std::max_element(x.begin(), x.end());
   double x_delta   = std::abs(x_max - x_min);
@@ -947,6 +953,12 @@ bool CheckConfigurations2D(const std::vector<double> & x,
 
   size_t              n_samples     = z.size();
 
+  if (n_samples == 0) {
+    errTxt        += "Error: Unable to estimate 2D trend/variance.\n";
+    errTxt        += "       The data contains only missing values.\n";
+    return(false);
+  }
+
   double              x_min         = *std::min_element(x.begin(), x.end());
   double              x_max         = *std::max_element(x.begin(), x.end());
   double              x_delta       = std::abs(x_max - x_min);
-- 
2.43.0


From 0d9b4268049f0e51c47ac82ebfc4bdae40bf621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:21 +0000
Subject: [PATCH 118/125] fix: too few or too concentrated data is refused for
 trends also when the region is large

---
 src/nrlib/trend/trendkit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index 27af538..a3cfc37 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -418,7 +418,7 @@ bool CheckConfigurations1D(const std::vector<double> & x,
         LogKit::LogFormatted(LogKit::High,"\n          This can result in unstable estimates. Consider using an alternative (low-dimensional) method.\n");
       }
 
-      else {
+      {
         if (n_samples < 10) {
           errTxt        += "Error: Unable to estimate 1D trend/variance.\n";
           errTxt        += "       Too few observations.\n";
@@ -989,7 +989,7 @@ bool CheckConfigurations2D(const std::vector<double> & x,
         LogKit::LogFormatted(LogKit::High,"\n          This can result in unstable estimates. Consider using an alternative (low-dimensional) method.\n");
       }
 
-      else {
+      {
         if (n_samples < 10) {
           errTxt        += "Error: Unable to estimate 2D trend/variance.\n";
           errTxt        += "       Too few observations. The algorithm requires at least 11 observations to run.\n";
-- 
2.43.0


From d72ca953a9d01f206b3814910d03c04ef418bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:21 +0000
Subject: [PATCH 119/125] fix: trends over a region that is narrow compared to
 the data were read outside their grid

---
 src/nrlib/trend/trendkit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index a3cfc37..2705420 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -1096,7 +1096,8 @@ void MakeNewGridResolution(const double              & bandwidth_x,
   double              x0_max           = *std::max_element(x0.begin(), x0.end());
 
   size_t              n_max            = 128;
-  size_t              x0_n_regridded   = std::min(static_cast<size_t>(std::ceil(7*(x0_max - x0_min)/(2*bandwidth_x))), n_max);
+  // At least two, as values are interpolated between them.
+  size_t              x0_n_regridded   = static_cast<size_t>(std::max(2.0, std::min(std::ceil(7*(x0_max - x0_min)/(2*bandwidth_x)), static_cast<double>(n_max))));
 
   double              x0_regridded_inc = (x0_max - x0_min)/(x0_n_regridded - 1);
   x0_regridded.resize(x0_n_regridded);
-- 
2.43.0


From bc7b0c3e2434c54e8adcb4f16a2d7e7dacb47994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:21 +0000
Subject: [PATCH 120/125] fix: an incomplete 2D trend surface is reported

---
 src/nrlib/trend/trendkit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index 2705420..4cbc6e4 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -889,7 +889,7 @@ void EstimateTrend2D(const std::vector<double>         & x,
     }
     l = l + 1;
   }
-  if (l > 1e4) {
+  if (!complete_surface) {
     errTxt +=  "Error: Unable to compute complete 2D trend surface.\n";
     errTxt +=  "       The interpolated region is too large compared to the support of the data.\n";
     errTxt +=  "       Reduce the size of the estiamted region or use a low-dimensional method.\n";
-- 
2.43.0


From 89f05643bb1d6477f988861c519d18918878df2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:21 +0000
Subject: [PATCH 121/125] fix: in large data sets the deviations for a 1D
 variance were paired with the wrong positions

---
 src/nrlib/trend/trendkit.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index 4cbc6e4..665a1a8 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -716,9 +716,10 @@ void EstimateVariance1D(const std::vector<double> & x,
     // linear binning
     y_y_mean_squared_binned = y_y_mean_squared;
     if (x.size() > 16384) {
-      MakeBinnedDataset1D(x,
+      const std::vector<double> w_used = w_binned;
+      MakeBinnedDataset1D(x_binned,
                           y_y_mean_squared,
-                          weights,
+                          weights == NULL ? NULL : &w_used,
                           x0_regridded,
                           y_y_mean_squared_binned,
                           w_binned);
-- 
2.43.0


From 62924f62537320a2166b963b94c2eb201dd5b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:21 +0000
Subject: [PATCH 122/125] fix: resampling a 1D trend left its last sample at
 zero

---
 src/nrlib/trend/trendkit.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index 665a1a8..1121b3e 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -250,6 +250,12 @@ void ResampleTrend1D(const std::vector<double> & x,
 
     i++;
   }
+
+  // The last value from its position on.
+  while(nx>0 && j<ny && y[j]>=x[nx-1]) {
+    fy[j] = fx[nx-1];
+    j++;
+  }
 }
 //-------------------------------------------------------------------------------
 void EstimateTrend1D(const std::vector<double> & x,
-- 
2.43.0


From 1f9a15a2514f93a3bf88c2f350f1864ba5adb392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:21 +0000
Subject: [PATCH 123/125] fix: the variance of a single value is an error
 instead of a division by zero

---
 src/nrlib/trend/trendkit.cpp     | 2 +-
 src/nrlib/trend/trendstorage.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index 1121b3e..aab70bf 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -700,7 +700,7 @@ void EstimateVariance1D(const std::vector<double> & x,
     }
   }
 
-  if (y_y_mean_squared.size() > 0) {
+  if (y_y_mean_squared.size() > 1) {
     y_var = y_var/(y_y_mean_squared.size() - 1);
   }
   else {
diff --git a/src/nrlib/trend/trendstorage.cpp b/src/nrlib/trend/trendstorage.cpp
index 2d635a7..8310170 100644
--- a/src/nrlib/trend/trendstorage.cpp
+++ b/src/nrlib/trend/trendstorage.cpp
@@ -90,7 +90,7 @@ TrendConstantStorage::GenerateTrend(const std::string                       & /*
             z_n++;
           }
         }
-        if (z_n > 0) {
+        if (z_n > 1) {
           var = var/(z_n - 1);
         }
         else {
@@ -145,7 +145,7 @@ TrendConstantStorage::GenerateTrend(const std::string                       & /*
             z_n++;
           }
         }
-        if (z_n > 0)
+        if (z_n > 1)
           var = var/(z_n - 1);
         else {
           var = RMISSING;
@@ -186,7 +186,7 @@ TrendConstantStorage::GenerateTrend(const std::string                       & /*
             z_n++;
           }
         }
-        if (z_n > 0)
+        if (z_n > 1)
           var = var/(z_n - 1);
         else {
           var = RMISSING;
-- 
2.43.0


From c114628852af27f7c98c446b091c193e5ea33142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:22 +0000
Subject: [PATCH 124/125] fix: estimating a trend from samples in one position
 could hang

---
 src/nrlib/trend/trendkit.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index aab70bf..c140d17 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -1081,16 +1081,24 @@ double CalculateVariance(const std::vector<double> & x)
   int n         = 0;
 
   double sum_x  = 0.0;
-  double sum_x2 = 0.0;
 
   for (size_t i = 0; i < x.size(); i++) {
     if (x[i] != RMISSING) {
       sum_x  = sum_x  + x[i];
-      sum_x2 = sum_x2 + x[i]*x[i];
       n      = n + 1;
     }
   }
-  double var_x  = sum_x2/(n - 1) - sum_x*sum_x/(n*(n - 1));
+
+  // Sum the squared deviations, which unlike a difference between sums of squares never turns negative.
+  double mean_x = sum_x/n;
+  double sum_d2 = 0.0;
+
+  for (size_t i = 0; i < x.size(); i++) {
+    if (x[i] != RMISSING) {
+      sum_d2 = sum_d2 + (x[i] - mean_x)*(x[i] - mean_x);
+    }
+  }
+  double var_x  = sum_d2/(n - 1);
 
   return(var_x);
 }
-- 
2.43.0


From 6be50d40057862662e0f5d1a6d77928679ae666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 125/125] fix: swapping two parts of a grid left their index
 ranges behind

---
 src/nrlib/grid/grid2dgeneral.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nrlib/grid/grid2dgeneral.hpp b/src/nrlib/grid/grid2dgeneral.hpp
index 3a0d13a..746c697 100644
--- a/src/nrlib/grid/grid2dgeneral.hpp
+++ b/src/nrlib/grid/grid2dgeneral.hpp
@@ -197,6 +197,10 @@ void Grid2DGeneral<A>::Swap(NRLib::Grid2DGeneral<A> &other)
 {
   std::swap(ni_, other.ni_);
   std::swap(nj_, other.nj_);
+  std::swap(i_min_, other.i_min_);
+  std::swap(i_max_, other.i_max_);
+  std::swap(j_min_, other.j_min_);
+  std::swap(j_max_, other.j_max_);
   data_.swap(other.data_);
 }
 
-- 
2.43.0


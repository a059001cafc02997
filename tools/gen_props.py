#!/usr/bin/env python3
"""Writes properties.jsonl (the text lives here so that it can be edited)."""
import json, os
P = []


def p(i, title, st, over, q, why, files, mech, obs=None):
    assert len(title) <= 80, title
    P.append({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": obs or [], "hook_needed": None}})


VG = "src/nrlib/variogram/"
p("P01", "Simulated fields have the covariance the variogram asks for",
  "For every supported variogram (type, ranges, azimuth, dip, power) and every 1D, 2D or 3D grid, a field simulated with default settings is a zero-mean Gaussian field, linear in the driving standard normals, whose covariance between any two cells is the variogram's correlation at their separation as reproduced by the periodic extended grid. The extended grid is at least the grid plus the default padding, so the covariance stays within 0.06 of the ideal variogram correlation wherever the padded ranges cover the correlation ellipsoid. This holds through the Python package and through the C++ entry points alike.",
  ["inputs", "configurations"], "all variogram types, ranges, angles, powers, grid sizes and steps, all seeds",
  "The tests compare a handful of stored values and a few averaged gradients; covariance is a statement about all pairs of cells over the whole probability space.",
  [VG + "gaussianfield.cpp", VG + "fftcovgrid.cpp", VG + "variogram.cpp", VG + "variogramtypes.hpp", "src/nrlib/fft/fftgrid2d.hpp", "src/nrlib/fft/fftgrid3d.hpp", "src/gaussfft.cpp"],
  [("covariance grid with wrapped lags", VG + "fftcovgrid.cpp"), ("square-root filter of the spectrum with negative part removed", VG + "gaussianfield.cpp"), ("default padding", VG + "gaussianfield.cpp")],
  ["gaussianfft.simulate", "NRLib::Simulate{1,2,3}DGaussianField"])
p("P02", "A seed fixes the whole sequence of realizations, whatever happened before",
  "After setting a seed, the sequence of fields produced by any sequence of simulation calls is determined (reproduced to floating-point rounding) by the seed and the call arguments: it does not depend on earlier calls, earlier seeds, other variogram objects, interleaved non-simulating calls, failed calls, or the process. Calls that do not simulate consume no randomness.",
  ["histories", "inputs", "configurations"], "all seeds and all call histories before and between the simulations, in one or several processes",
  "The tests re-seed and compare a single short call; they do not vary history, process, interleaving, or dimension.",
  ["src/nrlib/random/random.cpp", "src/nrlib/random/dSFMT.cpp", VG + "gaussianfield.cpp", "src/gaussfft.cpp"],
  [("global generator state re-initialised by seed", "src/nrlib/random/random.cpp"), ("per-call generator seeded from the stream", VG + "gaussianfield.cpp")],
  ["gaussianfft.seed", "gaussianfft.simulate"])
p("P03", "Seed life cycle: unset is an error, set is reported back, automatic seeds replay",
  "Asking for the seed before any was set raises an error and does not set one; after a seed is set it is reported back unchanged until another is set, no matter how many fields are simulated; a simulation without a seed chooses one, reports it afterwards, and seeding with that value replays the same fields. A seed read from a seed file behaves as if it had been set directly, the file is only rewritten when asked, with a value that starts a new stream, and unreadable seed files raise an error.",
  ["histories", "inputs", "fault_sequences"], "all orders of set, get, simulate, seed-file load and save, including missing and malformed seed files",
  "The tests exercise one get and one set; histories that mix automatic seeding, reseeding and seed files are not covered.",
  ["src/nrlib/random/random.cpp", "src/nrlib/random/randomgenerator.cpp", "src/gaussfft.cpp", "src/gaussfftinterface.cpp"],
  [("start seed bookkeeping", "src/nrlib/random/random.cpp"), ("automatic initialisation", "src/gaussfft.cpp")])
p("P04", "Random streams are dSFMT-19937 and give independent standard normals",
  "For every seed the raw stream equals the published dSFMT-19937 generator at every position, uniforms stay inside their documented interval (half-open or open), and the normals drawn from it are standard normal, including the tails. A generator object seeded with s yields the stream of the shared generator seeded with s and never disturbs it, and successive realizations, realizations of one multi-field call, and realizations under different seeds are uncorrelated.",
  ["inputs", "histories"], "all seeds, all positions in the stream, all interleavings of draw kinds, all pairs of realizations",
  "Tests look at a few values after one seed; distributional and independence claims range over all seeds and positions.",
  ["src/nrlib/random/dSFMT.cpp", "src/nrlib/random/dSFMT.h", "src/nrlib/random/random.cpp", "src/nrlib/random/randomgenerator.cpp"],
  [("dSFMT recursion and refill", "src/nrlib/random/dSFMT.cpp"), ("Marsaglia-Bray normals", "src/nrlib/random/random.cpp")])
p("P05", "Result layout, dimension collapse and argument binding of the Python API",
  "A simulation returns a fresh one-dimensional float64 array with one finite value per grid cell, x varying fastest, then y, then z; a count of at most 1 or a negative step in y (or z) reduces the dimension exactly as if the later axes had not been given. Positional and keyword arguments, the enumeration and the case-insensitive string names of the types, and the plain and advanced entry points with neutral settings are interchangeable, and calls never modify the variogram.",
  ["inputs", "configurations"], "all grid sizes, dimension patterns, argument styles and type spellings",
  "Tests check a length and a few values on fixed shapes; layout errors that only show on non-square, rotated or collapsed grids pass.",
  ["src/gaussfft.cpp", "src/gaussfftinterface.cpp", "gaussianfft/__init__.py", "src/nrlib/grid/grid.hpp", "src/nrlib/grid/grid2d.hpp"],
  [("dimension dispatch", "src/gaussfft.cpp"), ("argument defaults", "src/gaussfftinterface.cpp"), ("column-major storage", "src/nrlib/grid/grid.hpp")])
p("P06", "The announced extended grid is large enough and is the one that is simulated",
  "The announced simulation size has one entry per simulated dimension, each equal to the grid size plus the default padding derived from the type's range ratio, the range along that axis and the step, hence always larger than the grid by at least one range. The number of random cells actually simulated equals the product of the announced (or explicitly requested) sizes rounded up to sizes with only small prime factors, never down.",
  ["inputs", "configurations"], "all variograms, grids, steps and explicit paddings",
  "Tests check three sizes; rounding, truncation and the choice of axis range vary with every input.",
  [VG + "gaussianfield.cpp", "src/nrlib/fft/fft.cpp", "src/gaussfft.cpp", VG + "variogramtypes.hpp"],
  [("default padding", VG + "gaussianfield.cpp"), ("FFT friendly size", "src/nrlib/fft/fft.cpp")])
p("P07", "Correlation functions are valid and follow the documented model",
  "For every type and every lag, the correlation equals the type's function of the anisotropy-normalised distance (rotation by azimuth and dip, scaling by the three ranges): it is 1 at zero lag, symmetric, non-increasing with distance along every ray, within [0,1], about 0.05 (or 0 for spherical) at one range, and never NaN; lower-dimensional lags equal three-dimensional lags with zeros, and correlation matrices are positive semi-definite. Missing or negative secondary ranges default to the main range, changing ranges or angles is equivalent to constructing anew, invalid ranges are rejected without changing the variogram, copies are independent, and covariance and variogram values are the variance times the correlation and times its complement.",
  ["inputs", "histories"], "all types, ranges over many orders of magnitude, all angles, lags and powers, all sequences of setter calls",
  "The tests touch one value per type; rotations, extreme anisotropy and mutated objects are not covered.",
  [VG + "variogram.cpp", VG + "variogram.hpp", VG + "variogramtypes.hpp", VG + "variogramtypes.cpp", "src/gaussfft.cpp"],
  [("anisotropy factors", VG + "variogram.cpp"), ("one-dimensional correlation functions", VG + "variogramtypes.hpp")])
p("P08", "Explicit padding and smoothing have exactly their documented effect",
  "With explicit paddings the covariance is the periodic covariance on the grid extended by that padding (rounded up to an efficient size), negative paddings mean the default, and with smoothing parameters below one the covariance is additionally multiplied by a Gaussian kernel that equals the parameter at one axis range of the variogram; values close to or above one leave the field unchanged. Each setting affects only its own axis.",
  ["inputs", "configurations"], "all combinations of padding and smoothing values with all variograms and grids",
  "The advanced entry point has no test of its effect on the covariance.",
  [VG + "gaussianfield.cpp", VG + "fftcovgrid.cpp", "src/gaussfft.cpp", "src/gaussfftinterface.cpp"],
  [("smoothing factors", VG + "fftcovgrid.cpp"), ("padding override", VG + "gaussianfield.cpp")])
p("P09", "Simulation is memory safe, free of undefined behaviour and leak free",
  "No call of the simulation API with valid arguments, in any history, reads or writes outside its buffers, uses uninitialised or freed memory, executes undefined behaviour, or leaves memory allocated that the caller did not ask to keep. Repeating a call any number of times therefore keeps the memory footprint bounded.",
  ["inputs", "histories"], "all valid arguments including one-cell grids, zero padding, extreme range-to-step ratios, and arbitrarily long call histories",
  "Tests run without instrumentation; an overrun by one element or a leak per call passes them.",
  [VG + "gaussianfield.cpp", "src/nrlib/fft/fft.hpp", "src/nrlib/fft/fftgrid2d.hpp", "src/nrlib/fft/fftgrid3d.hpp", "src/gaussfft.cpp"],
  [("buffer sizing", "src/nrlib/fft/fftgrid2d.hpp"), ("generator ownership", VG + "gaussianfield.cpp")])
p("P10", "Simulations in concurrent threads do not influence each other",
  "Threads that simulate, evaluate variograms, draw from distributions or transform grids at the same time, each with its own random generator and its own objects, obtain exactly the results they would obtain alone, with no data race. Python threads sharing the module never crash it, every call returns one complete valid field, and the multiset of fields produced under one seed is the set a serial execution produces.",
  ["schedules", "inputs"], "all interleavings of simulating threads",
  "The tests are single-threaded.",
  [VG + "gaussianfield.cpp", "src/nrlib/random/randomgenerator.hpp", "src/nrlib/random/gamma.cpp", "src/nrlib/fft/fft.cpp", "src/gaussfftinterface.cpp"],
  [("generator passed by the caller", VG + "gaussianfield.hpp"), ("interpreter lock", "src/gaussfftinterface.cpp")])
p("P11", "Fourier transforms invert, match the DFT definition and convolve",
  "For every size and dimension the forward transform equals the discrete Fourier transform of the (padded) data in the documented scaling, the inverse restores the data on the original grid, and convolution through the transform equals direct circular convolution. The padded size is the smallest size not below the request whose only prime factors are 2, 3, 5 and 7 (even where required), and padding joins the last value smoothly to the first.",
  ["inputs"], "all sizes (odd, even, prime, one), all data, both scalings, single and double precision",
  "The transform code has no test of its own.",
  ["src/nrlib/fft/fft.hpp", "src/nrlib/fft/fft.cpp", "src/nrlib/fft/fftgrid2d.hpp", "src/nrlib/fft/fftgrid3d.hpp"],
  [("scaling and copy loops", "src/nrlib/fft/fft.hpp"), ("size search", "src/nrlib/fft/fft.cpp")])
IO = "src/nrlib/iotools/"
p("P12", "Binary number I/O is bit exact, endian correct and fails loudly",
  "Every integer and floating point value written in a given byte order is read back bit-identically, the bytes in the file are exactly the stated big- or little-endian representation, arrays equal their elements written one by one, and a float in the normal range written as IBM float is the System/360 representation of the value to within one unit in the last place and reads back to within that precision. A file that ends early raises an error instead of delivering values.",
  ["inputs", "fault_sequences"], "all values including denormals, extremes and zeros of both signs, all array lengths, every truncation point",
  "The tests use a fixed list of values and intact files.",
  [IO + "fileio.hpp", IO + "fileio.cpp"], [("byte shuffling", IO + "fileio.hpp"), ("IBM float conversion", IO + "fileio.hpp")])
p("P13", "Text parsing accepts exactly what was written and rejects the rest",
  "Numbers parse from text to exactly their value or raise an error when the token is not entirely a number of the target type or does not fit (negative text for unsigned types aside); tokenising, trimming, quoting, replacing and case conversion preserve all other characters and always terminate. ASCII arrays written with sufficient precision read back identically whatever the whitespace, and short or malformed arrays raise an error.",
  ["inputs", "fault_sequences"], "all strings and token sequences, all whitespace layouts, all truncation points",
  "The tests parse a few well-formed strings.",
  [IO + "stringtools.hpp", IO + "stringtools.cpp", IO + "fileio.hpp", IO + "fileio.cpp"],
  [("token parsing", IO + "stringtools.hpp"), ("array parsing", IO + "fileio.hpp")])
S = "src/nrlib/"
p("P14", "Regular surfaces interpolate correctly and survive a file round trip",
  "For regular and rotated surfaces of doubles and floats, interpolation reproduces node values at nodes and bilinear functions in between and stays within the surrounding node values: the strict lookup (GetZInside) is missing exactly when one of the four surrounding nodes is missing or outside, and the tolerant lookup (GetZ) is the weighted mean of the surrounding nodes that are present, missing when none is. Index, nearest-node and inside queries agree with the node coordinates for every point, however far away; arithmetic, resampling and statistics equal their node-wise definitions and never touch missing nodes. Writing a surface as Irap or Storm and reading it back gives the same geometry and values to the precision of the format, with missing nodes still missing, and truncated or extended files raise an error.",
  ["inputs", "histories"], "all surface sizes, values, missing patterns, origins, query points and formats",
  "The tests in the repository read no surface files and query few points.",
  [S + "surface/regularsurface.hpp", S + "surface/surfaceio.cpp", S + "surface/surfaceio.hpp"],
  [("index and weight computation", S + "surface/regularsurface.hpp"), ("format writers and readers", S + "surface/surfaceio.cpp")])
p("P15", "Grid cubes keep geometry and values through coordinates and files",
  "In a grid cube between two surfaces, converting global coordinates to local ones and back is the identity for every rotation and origin, the centre of every cell maps back to that cell, points outside are reported as outside, and lookups, the nearest and interpolated values are those of the cell the point is in and of its neighbours; z ranges, volumes, surface coverage and zero-thickness columns follow from the surfaces. The plain 2D to 5D containers and the part of a larger 2D grid address each cell exactly once, and resizing, swapping, minimum, maximum and average equal their definitions. Writing a continuous or facies cube to file (text or binary, either byte order, with its surface files) and reading it back preserves size, geometry and values to the precision of the format, with missing values still missing; truncated files, or files whose surfaces are gone, raise an error.",
  ["inputs", "configurations"], "all cube sizes, origins, rotations, top and bottom surfaces, query points and file formats",
  "The cube classes have no test in the repository's suite.",
  [S + "stormgrid/stormcontgrid.cpp", S + "stormgrid/stormcontgrid.hpp", S + "stormgrid/stormfaciesgrid.cpp", S + "volume/volume.cpp", S + "grid/grid.hpp", S + "grid/grid2dgeneral.hpp"],
  [("index computation", S + "stormgrid/stormcontgrid.cpp"), ("coordinate transforms", S + "volume/volume.cpp")])
p("P16", "SegY geometry inverts and trace files round trip",
  "For every regular survey, whatever its origin, rotation, handedness, line steps, line order and missing traces, the geometry derived from the traces, or from the line numbers, or built from its parameters, is that of the survey: conversions between grid indices, inline/crossline numbers and coordinates are mutually inverse inside the geometry and reported as outside elsewhere, every index found lies within the grid, and sub-geometries select the stated lines. Traces written to a SegY file hold the coordinates, line numbers and samples at the bytes of the format, and any file in one of the supported header and sample formats is read back with the same coordinates, line numbers, sampling and samples (exactly for IEEE, to format precision for IBM and integer formats); the header format is recognised, a cube written to SegY has its values at the right places, and truncated files raise an error.",
  ["inputs", "fault_sequences"], "all regular surveys, line numberings, missing traces, header formats, sample formats and truncation points",
  "The tests use a few fixed geometries and no trace files.",
  [S + "segy/segygeometry.cpp", S + "segy/segy.cpp", S + "segy/segytrace.cpp", S + "segy/traceheader.cpp"],
  [("index lookup", S + "segy/segygeometry.cpp"), ("trace I/O", S + "segy/segy.cpp")])
p("P17", "Wells keep their logs through edits and file round trips",
  "A well read from an RMS, LAS (plain, wrapped or comma separated) or Norsar file has the name, position, units, log names, kinds and code names of the file and exactly its values, with missing values missing and rows merged by depth where the format asks for it; a well written to a file, also after edits, copying or conversion, and read back has the same, to the precision of the format. Adding, removing, renaming and setting logs changes exactly that log, lookups by name and index agree, and logs or positions a well does not have are missing. Blocking a well to a grid gives one value per visited cell, in order: the mean of its values that are not missing. Files that are cut, repeat or lack a section, or hold unreadable values raise an error.",
  ["inputs", "histories"], "all log counts, names, kinds, values, missing patterns and edit sequences",
  "The well tests need data files that are not in the repository, so no well code is exercised by the suite.",
  [S + "well/rmswell.cpp", S + "well/laswell.cpp", S + "well/well.cpp", S + "well/norsarwell.cpp"],
  [("log bookkeeping", S + "well/well.cpp"), ("format writers and readers", S + "well/rmswell.cpp")])
p("P18", "Kriging reproduces its data and is the best linear unbiased prediction",
  "Kriging in one dimension, on grid nodes and on continuous locations returns the data values at the data nodes (the mean of data in the same node) and, when all data are used, elsewhere exactly the simple-kriging prediction from the given trend and covariance (the solution of the covariance equations), or only its residual part on request. With the default neighbourhoods the data are still reproduced everywhere, and the prediction is the same whenever the neighbourhoods hold all data correlated with the node. The result never depends on the order of the data, equals the trend far from all data, and leaves the geometry alone.",
  ["inputs"], "all data configurations, covariances, trends and grids, including duplicates and single data",
  "The tests krige a handful of points.",
  [S + "statistics/kriging.cpp", S + "statistics/nodalkrigingdata2d.cpp", S + "statistics/continuouskrigingdata2d.cpp", S + "variogram/covgrid2d.cpp"],
  [("covariance system and blocks", S + "statistics/kriging.cpp"), ("data per block", S + "statistics/nodalkrigingdata2d.cpp"), ("covariance table", S + "variogram/covgrid2d.cpp")])
p("P19", "Probability distributions are internally consistent",
  "For every distribution (normal, log-normal, uniform, split uniform, triangular, chi-squared, fractal, delta, beta with and without end masses, binomial, Poisson, general discrete) and valid parameter set, however it was constructed, copied or set later, the cumulative function is monotone from 0 below the support to 1 above it and accumulates the density, and the quantile function is its inverse and stays in the support (the tabulated beta to the resolution of its table). Draws from a generator and from the global stream follow the cumulative function, are identical for the same seed, and stay inside the support and, for truncated normals, inside the truncation limits; the error and gamma functions and their inverses are accurate.",
  ["inputs"], "all distributions, parameters, arguments and seeds",
  "The distributions have no tests in the suite.",
  [S + "random/" + f for f in ("normal.hpp", "normal.cpp", "lognormal.hpp", "beta.hpp", "beta.cpp", "poisson.cpp", "binomial.cpp", "gamma.cpp", "functions.cpp")],
  [("special functions", S + "random/functions.cpp"), ("tables", S + "random/beta.cpp"), ("truncated draws", S + "random/normal.cpp")])
p("P20", "Readers survive damaged files: a result or an exception, never corruption",
  "Whatever bytes a file contains, every reader of surfaces (Irap, Storm, Sgri), cubes (Storm, facies, Sgri), wells (RMS, LAS, Norsar), tables, matrices, number arrays and tokens ends with either a normal result or a C++ exception: it never reads or writes out of bounds, converts a number out of range, depends on an undefined value, leaks, loops forever or terminates the process. The SegY readers (format detection, counting, geometry, traces, lookup) never read or write out of bounds and end as well, whatever the file contains.",
  ["inputs", "fault_sequences"], "all byte strings, in particular valid files with bytes, tokens or lines changed, removed, duplicated, moved or cut off anywhere",
  "The tests read well-formed files only.",
  [IO + "fileio.cpp", IO + "fileio.hpp", S + "surface/surfaceio.cpp", S + "surface/surfaceio.hpp", S + "stormgrid", S + "segy", S + "well"],
  [("input validation", IO + "fileio.hpp"), ("well readers", S + "well/laswell.cpp")])
p("P21", "The empirical variogram utilities equal their definition",
  "For every variogram, grid, padding, resolution and set of reference points, the estimate at each reported distance (the midpoint of a distance class) is one minus half the mean squared difference between a reference cell and exactly the cells whose distance from it falls in that class, each once, averaged over the reference points that reach the class and over the simulated fields; sample counts, the convergence record and the true variogram belong to the same classes. Reference-point strategies return the documented cells, the second estimator groups cells by equal distance from the origin with mean and spread over the fields, and the padding analysis reports, per padding and range, the deviation that the periodic extended grid implies.",
  ["inputs"], "all variograms, one- to three-dimensional grids, steps, paddings, resolutions, reference points and field counts",
  "The utilities are not covered by the tests.",
  ["gaussianfft/util/empirical_variogram.py", "gaussianfft/util/empirical_variogram2.py", "gaussianfft/util/padding_analyzer.py"],
  [("binning by distance", "gaussianfft/util/empirical_variogram.py"), ("groups of equal distance", "gaussianfft/util/empirical_variogram2.py")])
p("P22", "Matrix routines, multinormal draws and conditioning equal their definition",
  "Cholesky solving, inversion and factorisation, general inversion and symmetric eigenvectors satisfy their defining equations to the accuracy of the conditioning, refuse matrices that are singular or not positive definite with an error, leave their inputs alone, and matrices and vectors survive a file round trip. Draws from a multinormal distribution have exactly the mean and covariance last set, the potential is minus the logarithm of the density, and conditional distributions (one-dimensional, and two-dimensional with secondary and duplicate observations) are the normal-equations solution. Means, variances, covariances, counts and extremes of samples equal their definitions and ignore missing values.",
  ["inputs", "histories"], "all matrix sizes and values, parameter histories, observation sets, and missing patterns",
  "None of this code has a test in the suite except through a kriging test with a one percent tolerance.",
  [S + "flens/nrlib_flens.cpp", S + "flens/nrlib_flens.hpp", S + "statistics/multinormal.cpp", S + "statistics/posteriormultinormal.cpp", S + "statistics/statistics.hpp"],
  [("Cholesky factor and draws", S + "statistics/multinormal.cpp"), ("conditioning", S + "statistics/posteriormultinormal.cpp"), ("LAPACK calls", S + "flens/nrlib_flens.cpp")])
p("P23", "Geometric queries and interpolation equal their definition",
  "Vector arithmetic, norms, dot and cross products and angles of points, rotations and other affine transformations; distances, nearest points, intersections and sides of lines, rays and segments (also parallel ones and ones without length); plane and triangle intersections and nearest points; points on and above a bilinear surface; circumference, orientation, extent, convexity, convex form, smallest enclosing rectangle, inside tests, tangents and distances along the boundary of polygons; intersections of a line with a box, distances to it and its coordinates and corners; and linear and natural-spline interpolation of a table are what elementary geometry says, for every position, size, orientation and vertex order, to rounding. The answer never depends on where the figure lies, in which order its corners are given, or on reading outside its data.",
  ["inputs"], "all points, lines, planes, triangles, polygons without self-intersection, boxes and tables",
  "The geometry code has only a handful of tests on polygons and lines.",
  [S + "geometry/" + f for f in ("point.hpp", "line.cpp", "plane.cpp", "triangle.cpp", "bilinearsurface.cpp", "polygon.cpp", "box.cpp", "transformation.hpp", "interpolation.cpp")],
  [("lines and segments", S + "geometry/line.cpp"), ("polygons", S + "geometry/polygon.cpp"), ("interpolation", S + "geometry/interpolation.cpp")])
p("P24", "Point sets keep points and parameters together through edits and files",
  "After any history of adding, removing, moving and resizing, setting discrete, continuous and text parameters and copying, a point set has exactly the points that were left, in order, and every parameter has one value per point: its own, or the default for a new point. Written as RMS points, Roxar text or plain columns and read back it has the same points and parameters to the printed digits (undefined stays undefined, empty and spaced text is kept, only active points when asked), and the format is recognised; Jason files give their points and line numbers, and incomplete ones an error. The points of a surface are its defined nodes. The convex hull has corners from the set and contains every point, for any points: repeated, on one line, or fewer than three.",
  ["inputs", "histories"], "all edit histories, parameter kinds and values, formats, and point configurations",
  "Point sets have no tests in the suite.",
  [S + "pointset/pointset.cpp", S + "pointset/pointset.hpp"],
  [("parameters in step with points", S + "pointset/pointset.cpp"), ("files", S + "pointset/pointset.cpp")])
p("P25", "Wavelets keep every sample at its time",
  "Time zero is at the middle index (the number of samples divided by two) and after any history of lengthening, shortening, resampling to a multiple of the interval, scaling and copying, the sample at each remaining time is the one that was there before, scaled, and zero where there was none; other resampling is refused and changes nothing. A Ricker wavelet follows its formula. Wavelet files in Jason, Syntool, Strata and Landmark format are recognised and put every sample at the time the file gives it, zero elsewhere, wherever time zero lies in the file and whatever the wavelet held before; a written wavelet reads back the same to the printed digits; a file with too few samples is an error.",
  ["inputs", "histories"], "all lengths, centres, intervals, histories and file formats",
  "Wavelets have no tests in the suite.",
  [S + "wavelet/wavelet.cpp", S + "wavelet/wavelet.hpp", S + "wavelet/waveletio.cpp"],
  [("time axis", S + "wavelet/wavelet.cpp"), ("centre of files", S + "wavelet/waveletio.cpp")])
p("P26", "Trends evaluate, summarise and read their values exactly",
  "A constant, one-, two- or three-dimensional trend gives at each position the multilinear interpolation of its nearest values along its own directions, and the nearest edge value outside, by relative position, by given increment and by position in a volume, and its elements by index; minimum, maximum, mean, sign, sizes and increments are those of all its values; adding, truncating and scaling to a mean changes every value accordingly and no copy. Trend files (plain and Jason one-dimensional, plain and surface two-dimensional, text and binary three-dimensional in both byte orders) give their values in the order of the format, and those with too few values are an error (text three-dimensional excepted). The constant trend estimated from wells is the mean of the defined values of all wells, and resampling is linear interpolation.",
  ["inputs", "histories"], "all dimensions, sizes, values, references, increments, positions and file formats",
  "Trends have no tests in the suite.",
  [S + "trend/trend.cpp", S + "trend/trend.hpp", S + "trend/trendkit.cpp"],
  [("interpolation", S + "trend/trend.cpp"), ("trend files", S + "trend/trendkit.cpp")])
p("P27", "Corner-point grids keep cells, faults and parameters in queries and files",
  "A corner-point (Eclipse) grid built from its pillars, corner depths, activity and parameters reports exactly those: corners, cell centres, points at local cell coordinates (also of rotated and left-handed cells), points on a pillar, the top and bottom active cell of a column and layer of the grid, mean pillar distance, neighbours, the extremes on every active pillar, and an enclosing volume that holds every active cell. A point inside an active cell is looked up as that cell (slanted pillars, faulted columns, one layer, inactive neighbours), and one above, below or beside the grid is not found; a planar layer is sampled as that plane by both interpolations. Faults name their faces once each, and segment ends, crossings and lengthening follow their indices. Written to one or several files and read back, a grid has the same pillars, depths, activity, parameters and faults to the printed digits; map axes of any direction and handedness turn local coordinates into map coordinates; comments do not matter; a file that ends early, has too few values or no dimensions is an error. No query or file reads outside its data or fails to end.",
  ["inputs", "histories"], "all pillar and corner geometries with layers that do not cross, activities, parameters, faults, files and map axes",
  "Corner-point grids have no tests in the suite.",
  [S + "eclipsegrid/" + f for f in ("eclipsegeometry.cpp", "eclipsegeometry.hpp", "eclipsegrid.cpp", "eclipsegrid.hpp", "eclipsefault.cpp", "eclipsefaceindexer.cpp", "eclipsetools.cpp")],
  [("cell geometry and lookup", S + "eclipsegrid/eclipsegeometry.cpp"), ("files", S + "eclipsegrid/eclipsegrid.cpp"), ("faults", S + "eclipsegrid/eclipsefault.cpp")])
p("P28", "Log messages reach exactly the logs that asked for them, whole and in order",
  "After any history of opening file logs (all phases, without library messages, per phase, single phase), screen logs and the caller's own streams, removing streams, buffering, setting prefixes, writing headers and progress and ending the log, every log holds exactly the messages at its levels and phases that were sent while it was open, or held in the buffer when it was opened, each once, in order, complete whatever its length, with the prefix of its level; a phase beyond those given counts as general, and a log that ignores general messages gets none. Files are overwritten when opened and up to date after each message; a new screen log replaces the old one; the number of messages per level is counted. A log that cannot be opened is an error that leaves the others working, and streams and buffers are released exactly once.",
  ["inputs", "histories"], "all sequences of logging calls, levels, phases and message texts",
  "Logging has no tests in the suite.",
  [S + "iotools/logkit.cpp", S + "iotools/logkit.hpp", S + "iotools/logstream.cpp", S + "iotools/logstream.hpp"],
  [("routing and buffer", S + "iotools/logkit.cpp"), ("levels and phases", S + "iotools/logstream.cpp")])
p("P29", "XML parses, prints, edits and copies as the tree described; bad text is safe",
  "A document built or parsed and then edited by any sequence of inserting, linking, replacing, removing, clearing, renaming and setting or removing attributes is exactly the tree those operations describe: children and attributes in order, links both ways, lookups by name, element and position. Copies and clones are equal and independent. Printing (stream, printer, file) and parsing back gives the same tree for every text, attribute, CDATA section, comment, unknown tag and declaration, including characters that need entities and UTF-8. Parsing well-formed text with any permitted layout of white space, quotes, entities and end tags gives the tree and the row and column of each element. Text that is cut off inside the root element is an error, and no damaged text makes the parser read outside it, hang, crash or leak.",
  ["inputs", "histories"], "all trees, edit sequences, layouts and texts, well-formed or not",
  "The XML library has no tests in the suite.",
  [S + "tinyxml/tinyxml.cpp", S + "tinyxml/tinyxmlparser.cpp", S + "tinyxml/tinyxml.h"],
  [("trees and printing", S + "tinyxml/tinyxml.cpp"), ("parsing", S + "tinyxml/tinyxmlparser.cpp")])

p("P30", "Trends and variances estimated from wells follow the samples given",
  "The trend a definition makes is the one its data describes. Estimated from wells, a constant is the mean of the defined values, a line at each sample of its own reference is the local (kernel-weighted) least-squares fit of the defined samples and constant in the other direction, and a surface follows the plane behind the values in the interior; all are finite, do not depend on which well holds a sample, on their order or on undefined samples (beyond the fit's own tolerance), and follow values that are scaled and shifted; a surface follows swapped references. An estimated variance is never negative, equals the squared deviation from the mean trend where all deviations have that size (also for large data sets, finely sampled references and means that vary along either or both references; a one-dimensional mean along another reference than the variance's excepted), and is larger where deviations are larger; the constant variance is the sum of squared deviations divided by one less than their number. A trend read from file is interpolated linearly in every sample of the cube, the last included, along the references named. Data too scarce or concentrated, an unknown reference or a file that does not cover the cube gives a message, and no data makes the estimation hang or read outside its arrays.",
  ["inputs"], "all cubes, wells, undefined samples, values, means and trend files",
  "Trend definitions have no tests in the suite.",
  [S + "trend/trendstorage.cpp", S + "trend/trendkit.cpp", S + "trend/trendstorage.hpp"],
  [("definitions", S + "trend/trendstorage.cpp"), ("estimation", S + "trend/trendkit.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")

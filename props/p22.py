"""P22: matrices, multinormal distributions, statistics."""
from vlib import build

RULE = ("Random matrices (symmetric, general, complex, indefinite, singular), multinormal distributions set in every way, conditional distributions with secondary and duplicate observations and samples with missing values "
        "are given to the library and every result is compared with plain long-double loops; the covariance of draws is recovered exactly from the replayed standard normals. Under ASan/UBSan. Distinct by input.")
DIRS = ["nrlib/statistics", "nrlib/variogram", "nrlib/surface", "nrlib/iotools", "nrlib/exception", "nrlib/grid", "nrlib/math", "nrlib/flens", "nrlib/geometry", "nrlib/random", "nrlib/fft"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["badly conditioned systems (above 1e6 to 1e9) are skipped", "LAPACK itself is trusted to the accuracy checked"]
    b = build.build_cpp("p22", "p22_lin.cpp", DIRS, "asan")
    ctx.log("built")
    ctx.run_cpp(b, ctx.n(6000, 80000), ["--mode", "linear"])
    ctx.run_cpp(b, ctx.n(6000, 80000), ["--mode", "multi"])
    ctx.run_cpp(b, ctx.n(6000, 80000), ["--mode", "cond"])
    ctx.run_cpp(b, ctx.n(6000, 80000), ["--mode", "stat"])

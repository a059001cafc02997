"""P18: kriging."""
from vlib import build

RULE = ("Random trends, data (duplicates, data on edges, none), variograms with rotation and anisotropy and grids of 1 to 60 nodes per axis are kriged in one dimension, on nodes and on continuous locations, with all data "
        "and with the default neighbourhoods; results are compared with a dense long-double solution of the covariance equations where that is the specified result, and for data reproduction, the trend far away and "
        "independence of data order everywhere. Under ASan/UBSan. Distinct by grid, step and number of data.")
DIRS = ["nrlib/statistics", "nrlib/variogram", "nrlib/surface", "nrlib/iotools", "nrlib/exception", "nrlib/grid", "nrlib/math", "nrlib/flens", "nrlib/geometry", "nrlib/random", "nrlib/fft"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["distinct data locations; systems with condition number above 1e4 (nodal, rounded to float inside) or 1e6 are skipped", "in neighbourhood mode the prediction between data is only compared when the neighbourhood covers the grid, or for isolated data under a compact covariance"]
    b = build.build_cpp("p18", "p18_krig.cpp", DIRS, "asan")
    ctx.log("built")
    ctx.run_cpp(b, ctx.n(4000, 60000), ["--mode", "one"])
    ctx.run_cpp(b, ctx.n(4000, 60000), ["--mode", "all"])
    ctx.run_cpp(b, ctx.n(2500, 40000), ["--mode", "block"])
    ctx.run_cpp(b, ctx.n(40, 600), ["--mode", "many"])

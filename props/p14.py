"""P14: surfaces."""
from vlib import build

RULE = ("Random regular and rotated surfaces (double and float, 1 to 40 nodes per axis, missing patterns and codes, small and UTM-size origins) built in four ways and edited by random operation sequences; "
        "both lookups at nodes, on grid lines, inside, outside and very far away are compared with an independent weighted mean of the nodes present, as are index lookups, statistics, resampling and operations "
        "with other surfaces; Irap and Storm files are written, detected, read back, truncated and extended. Under ASan/UBSan. Distinct by query point / file geometry.")
DIRS = ["nrlib/surface", "nrlib/iotools", "nrlib/exception", "nrlib/grid", "nrlib/math"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["values equal to the missing code do not occur as data", "query points within 1e-9 cells of a grid line are only checked against the bounds of the neighbouring nodes"]
    b = build.build_cpp("p14", "p14_surf.cpp", DIRS, "asan")
    ctx.log("built")
    ctx.run_cpp(b, ctx.n(12000, 200000), ["--mode", "surf"])
    ctx.run_cpp(b, ctx.n(6000, 120000), ["--mode", "rot"])
    ctx.run_cpp(b, ctx.n(6000, 80000), ["--mode", "file"])

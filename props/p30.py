"""P30: trends and variances estimated from wells, and trends made from their definitions."""
from vlib import build

RULE = ("Random trend cubes and wells (missing and outside samples, one to seven wells) go through the trend definitions: estimated constants, lines and surfaces are compared with the plain mean, with kernel-weighted local least squares, with themselves under rearranged, scaled, shifted and transposed data and with the plane behind the values; "
        "estimated variances with deviations of known size and place; trends from files with interpolation at the cube's samples; too little data with a result or a message. Under ASan/UBSan with hang detection. Distinct by kind and values.")
DIRS = ["nrlib/trend", "nrlib/random", "nrlib/volume", "nrlib/surface", "nrlib/exception", "nrlib/iotools", "nrlib/math", "nrlib/grid", "nrlib/geometry"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["wells are spread over the cube where values are compared", "a one-dimensional variance about a one-dimensional mean has the same reference", "one-dimensional trend files have the Jason layout"]
    b = build.build_cpp("p30", "p30_est.cpp", DIRS, "asan")
    ctx.log("built")
    for m, q, t in (("mean", 3000, 40000), ("var", 6000, 80000), ("bad", 6000, 60000), ("file", 8000, 100000)):
        ctx.run_cpp(b, ctx.n(q, t), ["--mode", m])

"""P24: point sets."""
from vlib import build

RULE = ("Histories of operations on point sets (add, erase, resize, parameters of three kinds, copies) are followed step by step against a model of plain lists; point sets in that state are written in every format and read back, "
        "Jason files are written by the harness; convex hulls (random, on a grid, on a line, on a circle, with duplicates) are checked from their definition. Under ASan/UBSan with assertions on. Distinct by operation and size of the set, and by coordinates.")
DIRS = ["nrlib/pointset", "nrlib/geometry", "nrlib/surface", "nrlib/exception", "nrlib/iotools", "nrlib/math", "nrlib/grid"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["text values have no quotes or line breaks; names have no white space at their ends", "no point is (999,999,999), which ends a Roxar file", "files end with a line break", "hulls of points nearer in angle than 1e-4 are checked to that tolerance"]
    b = build.build_cpp("p24", "p24_points.cpp", DIRS, "asan")
    ctx.log("built")
    for m, q, t in (("set", 20000, 400000), ("file", 12000, 250000), ("hull", 40000, 1000000)):
        ctx.run_cpp(b, ctx.n(q, t), ["--mode", m])

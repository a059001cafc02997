"""P26: trends."""
from vlib import build

RULE = ("Constant, one-, two- and three-dimensional trends with random values, references and increments, built from arrays or read from files the harness writes in every format, are looked up (on nodes, between, outside), edited and cloned; "
        "every value, extreme, mean, size and increment is compared with a plain multilinear model. Under ASan/UBSan with assertions on. Distinct by dimension, size and values.")
DIRS = ["nrlib/trend", "nrlib/random", "nrlib/volume", "nrlib/surface", "nrlib/exception", "nrlib/iotools", "nrlib/math", "nrlib/grid", "nrlib/geometry"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["trends have two values or more per direction of their own, unless an increment is given", "three-dimensional lookups are relative positions between 0 and 1, or positions in a volume", "estimation of trends by regression is left out"]
    b = build.build_cpp("p26", "p26_trend.cpp", DIRS, "asan")
    ctx.log("built")
    for m, q, t in (("trend", 40000, 1000000), ("file", 10000, 200000), ("kit", 40000, 1000000)):
        ctx.run_cpp(b, ctx.n(q, t), ["--mode", m])

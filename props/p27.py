"""P27: corner-point grids."""
from vlib import build

RULE = ("Corner-point grids with slanted, jittered, mirrored and vertical pillars, faulted columns, gaps, zero-thickness and inactive cells are kept as plain lists beside the real grid: every cell and pillar query is compared with those lists, "
        "points built from local cell coordinates are looked up again, planar layers are sampled, faults are walked face by face, grids are written to one and two files and read back, with map axes, comments and damage. "
        "Under ASan/UBSan with assertions on and a memory limit. Distinct by geometry.")
DIRS = ["nrlib/eclipsegrid", "nrlib/pointset", "nrlib/geometry", "nrlib/surface", "nrlib/exception", "nrlib/iotools", "nrlib/math", "nrlib/grid"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["cells are convex seen from above and their layers do not cross", "looked-up points lie 2 % inside their cell and at least 0.001 m from its top and base", "no corner is at depth -999", "fault names have no white space"]
    b = build.build_cpp("p27", "p27_ecl.cpp", DIRS, "asan")
    ctx.log("built")
    for m, q, t in (("cells", 8000, 80000), ("lookup", 60000, 600000), ("layer", 12000, 120000), ("fault", 40000, 800000), ("file", 8000, 80000)):
        ctx.run_cpp(b, ctx.n(q, t), ["--mode", m])

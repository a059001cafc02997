"""P23: geometry and one-dimensional interpolation."""
from vlib import build

RULE = ("Random points, lines (segments, rays, infinite, without length, parallel), planes, triangles, polygons (convex, star-shaped, rectangles, both orientations, far from the origin), boxes (rotated) and tables are given to the "
        "library; every answer is compared with a direct long-double computation, cases nearer to a decision than the rounding are skipped. Under ASan/UBSan with assertions on. Distinct by the coordinates.")
DIRS = ["nrlib/geometry", "nrlib/exception", "nrlib/math"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["lines are at an angle of at least 0.01 or exactly parallel", "intersections with boxes keep away from their edges", "polygons have three points or more and do not cross themselves"]
    b = build.build_cpp("p23", "p23_geom.cpp", DIRS, "asan")
    ctx.log("built")
    for m, q, t in (("point", 40000, 1000000), ("line", 60000, 1500000), ("plane", 40000, 1000000), ("poly", 20000, 500000), ("box", 40000, 1000000), ("interp", 40000, 1000000)):
        ctx.run_cpp(b, ctx.n(q, t), ["--mode", m])

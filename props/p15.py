"""P15: grid cubes."""
from vlib import build

RULE = ("Random cubes (1 to 14 cells per axis, any rotation, small and UTM-size origins, constant, plane, rotated and rough surfaces, four construction histories): coordinates, cell centres, cell lookups inside, on the "
        "faces and outside, interpolated values, z ranges and coverage are compared with closed forms; continuous and facies cubes are written in text and binary, both byte orders, read back, cut at random points, "
        "and stripped of their surface files; Sgri and Crava files are compared byte for byte; the plain containers with a model. Under ASan/UBSan incl. float casts. Distinct by point / file geometry.")
DIRS = ["nrlib/stormgrid", "nrlib/volume", "nrlib/surface", "nrlib/iotools", "nrlib/exception", "nrlib/grid", "nrlib/math"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["surfaces cover the cube and have no missing values; the bottom is below the top", "points closer to a cell face than the rounding error are only required to give a valid cell or an error"]
    b = build.build_cpp("p15", "p15_cube.cpp", DIRS, "asanf")
    ctx.log("built")
    ctx.run_cpp(b, ctx.n(6000, 150000), ["--mode", "cells"])
    ctx.run_cpp(b, ctx.n(4000, 40000), ["--mode", "grid"])
    ctx.run_cpp(b, ctx.n(5000, 60000), ["--mode", "file"])
    ctx.run_cpp(b, ctx.n(2000, 20000), ["--mode", "sgri"])

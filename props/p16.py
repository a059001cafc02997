"""P16: SEG-Y."""
from vlib import build

RULE = ("Surveys of random size, rotation, handedness, line numbering and trace order (with traces left out) are encoded at byte level in all four sample formats, six header formats and several coordinate scalings, and "
        "read trace by trace, by random access, into memory and inside volumes; files written by the library in three ways are decoded at byte level; geometries (found, given, plain, sub-geometries) must send every line "
        "number, position and index to the same trace. Under ASan/UBSan. Distinct by survey shape and orientation.")
DIRS = ["nrlib/segy", "nrlib/stormgrid", "nrlib/volume", "nrlib/surface", "nrlib/iotools", "nrlib/exception", "nrlib/grid", "nrlib/math"]
MODES = [("read", 4000, 60000), ("write", 3000, 40000), ("volume", 2000, 30000), ("detect", 1500, 20000), ("sub", 2000, 30000), ("storm", 1500, 20000), ("plain", 6000, 80000)]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["surveys are regular and orthogonal, the traces on their border are present, line numbers and coordinates are positive"]
    b = build.build_cpp("p16", "p16_segy.cpp", DIRS, "asan")
    ctx.log("built")
    for m, q, t in MODES:
        ctx.run_cpp(b, ctx.n(q, t), ["--mode", m])

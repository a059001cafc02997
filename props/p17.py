"""P17: wells."""
from vlib import build

RULE = ("Random wells and edit sequences are mirrored by a map model; RMS, LAS (wrapped, comma separated, with parameter and other sections) and Norsar files made by the harness are read and compared, and files written by the "
        "library, also after edits, conversion and copying, are parsed by the harness's own reader and read back; damaged files must be refused; blocked wells are compared with cell means. Under ASan/UBSan. Distinct by file text / log sets.")
DIRS = ["nrlib/well", "nrlib/stormgrid", "nrlib/volume", "nrlib/surface", "nrlib/iotools", "nrlib/exception", "nrlib/grid", "nrlib/math"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["a name is used for one kind of log when the well is written", "LAS missing codes have at most three decimals, as the data section", "wells to be blocked lie inside the grid and name their coordinates x, y, z"]
    b = build.build_cpp("p17", "p17_well.cpp", DIRS, "asan")
    ctx.log("built")
    ctx.run_cpp(b, ctx.n(12000, 150000), ["--mode", "edit"])
    ctx.run_cpp(b, ctx.n(8000, 100000), ["--mode", "rms"])
    ctx.run_cpp(b, ctx.n(10000, 100000), ["--mode", "las"])
    ctx.run_cpp(b, ctx.n(8000, 80000), ["--mode", "norsar"])
    ctx.run_cpp(b, ctx.n(4000, 50000), ["--mode", "block"])

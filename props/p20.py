"""Readers and malformed files."""
from vlib import build

DIRS = ["nrlib/segy", "nrlib/well", "nrlib/stormgrid", "nrlib/volume", "nrlib/surface", "nrlib/iotools", "nrlib/exception", "nrlib/grid",
        "nrlib/math", "nrlib/flens", "nrlib/statistics", "nrlib/random", "nrlib/variogram", "nrlib/fft", "nrlib/geometry"]


def run(ctx):
    ctx.rule = "a distinct damaged file"
    ctx.assumptions = ["requests above 256 MB of memory fail with std::bad_alloc, as on a machine without that memory", "a reader may use 30 s of processor time (sanitizer build) on a file of a few kB"]
    b, m = build.parallel(lambda: build.build_cpp("p20", "p20_fuzz.cpp", DIRS, "asanf"), lambda: build.build_cpp("p20", "p20_fuzz.cpp", DIRS, "asanm"))
    ctx.log("built")
    for mode, q, t in (("table", 12000, 100000), ("surf", 16000, 160000), ("well", 24000, 250000), ("cube", 20000, 160000)):
        ctx.run_cpp(b, ctx.n(q, t), ["--mode", mode])
        ctx.log(mode)
    # SegY: bounds only; the geometry search computes with whatever integers the trace headers hold
    ctx.run_cpp(m, ctx.n(16000, 160000), ["--mode", "segy"], flavour_env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1"})

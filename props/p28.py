"""P28: logging."""
from vlib import build

RULE = ("Histories of up to 40 operations (file logs of all four kinds, screen logs, the caller's own streams, removal, buffering, prefixes, headers, progress, messages with and without phase, formatted messages up to 6000 characters, end of log) "
        "run beside a model that knows what each log accepts; file, stream and screen contents, message counts and release of streams are compared after the steps. Under ASan/UBSan with leak detection. Distinct by history.")
DIRS = ["nrlib/iotools", "nrlib/exception", "nrlib/math"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["phases are not negative and below 1000 for single-phase logs", "one thread logs at a time"]
    b = build.build_cpp("p28", "p28_log.cpp", DIRS, "asan")
    ctx.log("built")
    ctx.run_cpp(b, ctx.n(20000, 400000), ["--mode", "log"])
    ctx.run_cpp(b, ctx.n(200, 2000), ["--mode", "faults"])

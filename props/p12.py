"""P12: binary number I/O."""
from vlib import build

RULE = ("Random sequences of scalar and array writes of all five number kinds in both byte orders (random bit patterns, extremes, NaN payloads, denormals, lengths 0 to 300000) to string, "
        "file and BigFile streams; the bytes are compared with an independent encoder, read back in another partition from intact and truncated copies, and every read that crosses the end "
        "must raise. IBM floats are compared with the exact value of the System/360 pattern. Under ASan/UBSan. Distinct by (stream, kind, byte order, length).")
DIRS = ["nrlib/iotools", "nrlib/exception"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["IBM floats: values in the normal range of a 32-bit float (zero included)"]
    b = build.build_cpp("p12", "p12_bin.cpp", DIRS, "asan")
    ctx.log("built")
    ctx.run_cpp(b, ctx.n(6000, 120000), ["--mode", "io"])
    ctx.run_cpp(b, ctx.n(2000, 40000), ["--mode", "buf"])
    ctx.run_cpp(b, ctx.n(800, 10000), ["--mode", "file"])

"""P25: wavelets."""
from vlib import build

RULE = ("Histories of operations on wavelets (lengthen, shorten, resample, scale, copy) are followed step by step against a model that maps times to samples; Ricker wavelets are compared with their formula; wavelet files of the four "
        "formats, written by the library or by the harness with time zero anywhere, are read into new and into used wavelets, cut and lengthened. Under ASan/UBSan with assertions on. Distinct by operation, length and centre.")
DIRS = ["nrlib/wavelet", "nrlib/exception", "nrlib/iotools", "nrlib/math"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["time zero lies within the samples of a file", "resampling is to an exact multiple of the interval, or to one that is not near a multiple", "written samples carry six digits"]
    b = build.build_cpp("p25", "p25_wavelet.cpp", DIRS, "asan")
    ctx.log("built")
    for m, q, t in (("ops", 40000, 1000000), ("file", 10000, 200000)):
        ctx.run_cpp(b, ctx.n(q, t), ["--mode", m])

"""P19: probability distributions."""
from vlib import build

RULE = ("Random distributions (normal, log-normal, uniform, split uniform, triangular, chi-squared, fractal, delta, tabulated beta with and without end masses, binomial, Poisson, general discrete) "
        "built by constructor, copy or later parameter setting; density, cumulative and quantile function at random, limit and far-outside arguments are compared with long-double/boost references; "
        "1500 draws from a generator and from the global stream of the same seed must be identical, in the support, and pass a Kolmogorov-Smirnov monitor; truncated normal draws, potentials "
        "and the error and gamma functions likewise. Under ASan/UBSan. Distinct by (distribution, parameters, argument).")
DIRS = ["nrlib/random", "nrlib/exception", "nrlib/iotools"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["truncation intervals of probability below 1e-6 are only required to keep draws inside the limits", "boost::math and the C library's long double functions are correct"]
    b = build.build_cpp("p19", "p19_dist.cpp", DIRS, "asan")
    ctx.log("built")
    ctx.run_cpp(b, ctx.n(12000, 150000), ["--mode", "cont"])
    ctx.run_cpp(b, ctx.n(6000, 80000), ["--mode", "disc"])
    ctx.run_cpp(b, ctx.n(2000, 40000), ["--mode", "trunc"])
    ctx.run_cpp(b, ctx.n(4000, 60000), ["--mode", "special"])

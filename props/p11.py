"""P11: Fourier transforms."""
from vlib import build

RULE = ("Random data on random sizes (every 1D length 1..60 and random up to 400, 2D to 19, 3D to 10 per side; odd, even, one), paddings, both scalings, float and double: "
        "coefficients compared with the DFT sum in long double, inverse with the data, convolutions with the product of spectra and the direct circular sum, sizes with a "
        "brute-force search. Under ASan/UBSan with the library's assertions on. Distinct by (sizes, scaling, precision).")
DIRS = ["nrlib/fft"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["FFTW is linked instead of MKL's FFTW interface; the package itself is checked by P01/P05"]
    b = build.build_cpp("p11", "p11_fft.cpp", DIRS, "asan")
    ctx.log("built")
    ctx.run_cpp(b, ctx.n(4000, 60000), ["--mode", "1"])
    ctx.run_cpp(b, ctx.n(3000, 40000), ["--mode", "2"])
    ctx.run_cpp(b, ctx.n(2500, 40000), ["--mode", "3"])
    ctx.run_cpp(b, ctx.n(100, 2000), ["--mode", "size"])

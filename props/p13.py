"""P13: text parsing."""
from vlib import build

RULE = ("Random numbers, tokens, quoted strings, paths, comments, ASCII arrays and tables in random whitespace layouts, intact, cut short and malformed; every function of the text layer is "
        "compared with an independent reference (value, remaining text, line count) or must raise the library's error. Under ASan/UBSan with libstdc++ assertions and a hang monitor. "
        "Distinct by (function, shape of the text).")
DIRS = ["nrlib/iotools", "nrlib/exception"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["C locale", "negative text for unsigned types, 'inf' and 'nan' are left to the standard library", "the Fast array readers are documented not to type check each element"]
    b = build.build_cpp("p13", "p13_text.cpp", DIRS, "asan")
    ctx.log("built")
    for m, q, t in (("num", 3000, 60000), ("str", 5000, 100000), ("line", 5000, 100000), ("arr", 2500, 50000), ("tab", 2500, 50000)):
        ctx.run_cpp(b, ctx.n(q, t), ["--mode", m])

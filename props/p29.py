"""P29: XML documents."""
from vlib import build

RULE = ("Random trees of elements, attributes, text, CDATA, comments, unknown tags and declarations are kept as a plain tree beside the real document: edited (insert, link, replace, remove, attributes, clear, copy), looked up by name and position, printed by four routes and parsed back, "
        "parsed from text laid out by the harness (entities, quotes, white space, byte order mark) with rows and columns, and parsed from damaged text in a buffer of exactly its size. Under ASan/UBSan with leak and hang detection. Distinct by text or history.")
DIRS = ["nrlib/tinyxml"]


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ["text has no white space at its ends and no runs of it (the parser condenses it)", "no text contains '&#' literally", "text is UTF-8"]
    b = build.build_cpp("p29", "p29_xml.cpp", DIRS, "asan")
    ctx.log("built")
    for m, q, t in (("edit", 20000, 300000), ("file", 30000, 400000), ("layout", 30000, 400000), ("damaged", 80000, 1500000)):
        ctx.run_cpp(b, ctx.n(q, t), ["--mode", m])

#!/usr/bin/env python3
"""run.py <PROPERTY> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
PY = "/opt/gfft/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/gfft/venv"):
    os.execv(PY, [PY] + sys.argv)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
from vlib import core
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
sys.exit(core.main(sys.argv[1], "thorough" if tier == "thorough" else "quick"))

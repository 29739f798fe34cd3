#!/usr/bin/env python3
"""Warms the build: every check builds what it needs itself, so that a failure here is not fatal."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
try:
    vlib.build_all([(b, p, vlib.DEFAULT_FEATURES) for p in ("dev", "nodebug") for b in ("iter", "vec", "mat", "prod", "lin", "approx", "text")]
                   + [(b, "dev", vlib.DEFAULT_FEATURES) for b in ("layout", "lits", "norm", "hist", "flo", "big", "lin2")]
                   + [(b, "fat", vlib.DEFAULT_FEATURES) for b in ("iter", "vec", "mat", "prod", "lin")])
except vlib.ToolError as e:
    print("setup: %s" % e)

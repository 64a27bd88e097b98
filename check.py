#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import vf
mod = importlib.import_module(sys.argv[1])
sys.exit(vf.main(sys.argv[1], mod.check))

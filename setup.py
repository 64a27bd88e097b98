#!/usr/bin/env python3
"""Pre-builds the library and the harness into the cache the checks use."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
import build, units
exe, lib, _ = build.build(units.UNITS, plugins=units.plugins())
build.build_py(os.path.dirname(lib))

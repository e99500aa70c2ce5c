#!/usr/bin/env python3
"""Warms Go's build cache for the binaries the checks build, and parses the
specifications once. Nothing here is needed for a verdict: every check builds
what it uses from /repo's working tree."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
try:
    vlib.driver_bin()
    vlib.driver_bin(race=True)
    vlib.build("./cmd/hangulize", "hangulize")
except vlib.HarnessError as e:
    print("setup: %s" % e, file=sys.stderr)
    sys.exit(1)
print("setup done")

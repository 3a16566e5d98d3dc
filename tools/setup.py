#!/usr/bin/env python3
"""Build the extractor and warm the extraction cache (checks do both on demand when this was not run)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build
build.build_extractor()
print("extracted %d translation units" % len(build.extract(build.compiler_tus() + build.native_tus())))

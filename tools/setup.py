#!/usr/bin/env python3
"""setup_cmd: nothing is built; check that the tools the analyses use are there."""
import shutil
import sys
miss = [t for t in ("clang-18", "opt-18") if not shutil.which(t) and not shutil.which(t[:-3])]
print("missing: %s" % miss if miss else "tools present")
sys.exit(1 if miss else 0)

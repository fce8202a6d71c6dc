#!/usr/bin/env python3
"""Nothing to prepare: every check builds what it needs from /repo in a scratch directory. Verifies that the tools are there."""
import shutil, sys
missing = [t for t in ("cbmc", "goto-cc", "goto-instrument", "gcc", "make", "python3") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present"); sys.exit(1 if missing else 0)

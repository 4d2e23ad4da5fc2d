#!/usr/bin/env python3
"""Nothing to build: check that the analysers used by the checks are present."""
import shutil, sys
missing = [t for t in ("frama-c", "gcc", "clang") if not shutil.which(t)]
print("missing: " + ", ".join(missing) if missing else "tools present")
sys.exit(1 if missing else 0)

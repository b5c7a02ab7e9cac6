#!/usr/bin/env python3
"""Nothing needs to be built ahead of a check; verifies that the tools are there."""
import shutil, sys
need = ["goto-cc", "goto-instrument", "cbmc", "clang", "gcc"]
missing = [t for t in need if not shutil.which(t)]
print("tools:", {t: shutil.which(t) for t in need + ["kissat", "cvc5", "z3"]})
sys.exit(1 if missing else 0)

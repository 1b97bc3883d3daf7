#!/usr/bin/env python3
"""Checks that the installed tools the checks need are there; builds nothing."""
import shutil, subprocess, sys
missing = [t for t in ("gcc", "clang", "cbmc", "goto-cc", "goto-instrument", "z3-new", "cvc5", "ar") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)

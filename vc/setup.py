#!/usr/bin/env python3
"""Nothing to build ahead: every check extracts and compiles what it needs. Checks that the tools are there."""
import shutil, sys
miss = [t for t in ("verus", "clang++-20", "g++") if not shutil.which(t)]
print("missing: " + ", ".join(miss) if miss else "tools present"); sys.exit(1 if miss else 0)

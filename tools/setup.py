#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs itself."""
import shutil, sys
missing = [t for t in ("g++", "python3", "valgrind", "cargo") if not shutil.which(t)]
print("missing:", missing) if missing else print("ok")
sys.exit(1 if missing else 0)

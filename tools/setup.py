#!/usr/bin/env python3
"""Offline sanity check of the tools the checks need (nothing is installed)."""
import shutil, sys
missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
print("missing: " + ", ".join(missing) if missing else "tools present")
sys.exit(1 if missing else 0)

#!/usr/bin/env python3
"""Sanity check of the toolchain; every check builds what it needs itself."""
import shutil, sys
need = ["gcc", "g++", "make", "ar", "ld"]
miss = [t for t in need if not shutil.which(t)]
print("missing: " + " ".join(miss) if miss else "toolchain ok")
sys.exit(1 if miss else 0)

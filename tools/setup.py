#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there (nothing is built ahead: every check builds from /repo's working tree)."""
import shutil,sys
miss=[t for t in("g++","python3") if not shutil.which(t)]
print("missing: "+", ".join(miss) if miss else "ok"); sys.exit(1 if miss else 0)

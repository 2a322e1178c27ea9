#!/usr/local/bin/python3
"""setup: nothing is prebuilt (every check compiles what it needs from /repo); verify that the tools are there"""
import shutil, sys
missing = [t for t in ("mpicxx", "mpirun", "g++") if not shutil.which(t)]
print("missing tools: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)

#!/usr/bin/env python3
"""setup_cmd: makes sure that the tools the checks need are there. Nothing is kept: every check builds what it needs."""
import shutil, sys
miss = [t for t in ("g++", "mpirun") if not shutil.which(t)]
print("missing: %s" % miss if miss else "tools present")
sys.exit(1 if miss else 0)

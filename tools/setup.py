#!/usr/bin/env python3
"""Nothing to build in advance (every check compiles what it needs); reports whether the tools are there."""
import shutil, sys
miss = [t for t in ("clang", "opt", "python3-vt") if not shutil.which(t)]
print("missing: %s" % miss if miss else "ok")
sys.exit(1 if miss else 0)

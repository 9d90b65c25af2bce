#!/usr/bin/env python3
"""Nothing to build beforehand: every check compiles what it needs from /repo's working tree. Only looks at the tools."""
import shutil
import sys

for t in ("g++-11", "g++", "clang++", "python3"):
    print("%s: %s" % (t, shutil.which(t)))
sys.exit(0 if shutil.which("g++-11") or shutil.which("g++") else 1)

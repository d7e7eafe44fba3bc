#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there.  Each check builds what it needs from /repo itself."""
import os, shutil, sys
missing = [t for t in ("ninja", "/usr/lib/llvm-20/bin/clang++", "/usr/lib/llvm-20/bin/mlir-tblgen", "/opt/vp/venv/bin/python") if not (shutil.which(t) or os.path.exists(t))]
if missing:
    sys.exit("missing: " + ", ".join(missing))
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("tools present")

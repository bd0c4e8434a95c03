#!/usr/bin/env python3
"""setup: nothing is prebuilt (every check builds from /repo's current tree in a scratch directory); check the tools."""
import os, sys, shutil, subprocess
need = ["/opt/veriftools/pyvenv/bin/python", "/opt/venv/bin/python"]
bad = [p for p in need if not os.path.exists(p)] + [t for t in ("gcc", "clang", "z3", "cvc5") if not shutil.which(t)]
if bad:
    sys.exit("missing tools: " + ", ".join(bad))
subprocess.check_call([need[0], "-c", "import z3, mpmath, sympy, numpy"])
print("tools present")

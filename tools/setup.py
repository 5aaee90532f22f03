#!/usr/bin/env python3
"""Nothing has to be built ahead: every check builds what it needs from /repo's
working tree.  This only verifies that the tools are there."""
import shutil, sys, os
miss = [t for t in ("java", "gcc", "g++") if not shutil.which(t)]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"): miss.append("tla2tools.jar")
print("missing: " + ", ".join(miss) if miss else "ok")
sys.exit(1 if miss else 0)

#!/usr/bin/env python3
"""setup_cmd: nothing is built here (every check builds from the current tree); it verifies the tools."""
import shutil
import sys
missing = [t for t in ("g++", "gcc", "python3", "bash") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("tools present")

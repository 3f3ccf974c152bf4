#!/usr/bin/env python3
"""setup_cmd: every check builds its own harness from /repo, so there is
nothing to build here; only make sure that the tools the checks need exist."""
import os, shutil, sys
missing = [t for t in ("/usr/bin/clang++", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "evidence"), exist_ok=True)

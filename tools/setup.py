#!/usr/bin/env python3
"""setup_cmd: nothing is cached between runs; just verify that the tools the checks need exist."""
import shutil, sys
missing = [t for t in ("g++", "git") if shutil.which(t) is None]
if missing:
    print("missing tools: %s" % missing)
    sys.exit(1)
print("setup ok")

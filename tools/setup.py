#!/usr/bin/env python3
"""Checks that the tools the framework needs are present; nothing is built ahead
(every check compiles from /repo's current tree)."""
import shutil, sys
missing = [t for t in ("clang++", "git") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: %s" % missing)
print("ok")

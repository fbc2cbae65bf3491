#!/usr/bin/env python3
"""setup_cmd: the checks build everything themselves; this only looks for the tools."""
import shutil, sys
missing = [t for t in ("g++", "protoc", "python3") if not shutil.which(t)]
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ok")

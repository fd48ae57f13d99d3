"""Checks that the tools the monitors need are present (nothing is installed or downloaded)."""
import shutil
import sys

missing = [t for t in ("g++", "python3", "git") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ok")

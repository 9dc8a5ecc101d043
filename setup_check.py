"""Checks that the tools the checks need are present (they build on demand)."""
import shutil, sys
missing = [t for t in ("clang++", "g++", "ar") if not shutil.which(t)]
if missing:
    print("missing: " + " ".join(missing))
    sys.exit(1)
print("tools present")

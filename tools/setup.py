#!/usr/bin/env python3
"""Nothing needs building ahead: every check builds its monitors from /repo's
current sources.  This only verifies that the tools are there."""
import shutil, sys
missing = [t for t in ("gcc", "clang", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing: " + ", ".join(missing))
print("ok")

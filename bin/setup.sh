#!/bin/bash
# Warms the build cache: every check builds what it needs itself.
cd "$(dirname "$0")/.." || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, "bin")
import check
c = check.Check("C01")
c.build()
import shutil
shutil.rmtree(c.dir)
P

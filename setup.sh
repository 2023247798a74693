#!/bin/bash
# builds the extractor and the replay crates (each check rebuilds what it needs)
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys, os
sys.path.insert(0, os.getcwd()); sys.argv = ["check.py"]
import check
check.build_vx()
P

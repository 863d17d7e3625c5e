#!/bin/bash
# warms the build cache and checks the tools; the checks build what they need themselves
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import core
core.build(".", "driver")
try:
    core.build(".", "driver_race", True, perturb=True)
except core.CheckError as e:
    print("no race detector:", e)
P

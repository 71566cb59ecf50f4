#!/bin/bash
# Builds the simulators from the committed files (offline).
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, "lib")
import vlib
vlib.tool("iosim", "iosim/iosim.cpp", ["-O2", "-std=c++17"])
P

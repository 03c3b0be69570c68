#!/bin/bash
# Builds the code under test and the simulators, out of tree. Every check repeats
# this as needed, so it is only a warm-up and a self-test of the seams
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.dont_write_bytecode=True
sys.path.insert(0,'.')
from dst import build
print(build.tree()[0])
print(build.shim())
P

#!/bin/bash
# everything is compiled per run from /repo's current tree; here only the tools are probed
set -e
cd "$(dirname "$0")"
mkdir -p evidence
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
clang++ --version | head -1
python3-vt -c '
import sys; sys.path.insert(0, ".")
from symx import ring
print("ring back end builds:", ring.binary())'

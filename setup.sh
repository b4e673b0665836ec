#!/bin/bash
# Offline setup: compile the malloc shim that keeps pyoscode's out-of-bounds reads deterministic.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replays
gcc -O2 -fno-builtin -shared -fPIC -o build/zerotail.so shim/zerotail.c
/opt/venv/bin/python -c "import numpy, scipy, pyoscode, cobaya, packaging"

#!/bin/bash
# Warms the build cache of the shared parse driver; every check builds what it needs by itself.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence replay
python3 - <<'P' || exit 1
import sys; sys.path.insert(0, 'lib')
import workload as W
W.parse_bin(); W.lex_bin()
P

#!/bin/bash
# Builds what the checks share; every check can also do without it.
cd "$(dirname "$0")/.." || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, 'tools')
import bmc
bmc.godead()
print('godead built')
P

#!/bin/bash
# builds the MIR extraction driver and primes the dump of the current tree (every check does the same on demand)
cd "$(dirname "$0")/.." || exit 2
python3 - <<'P'
import sys
sys.path.insert(0, 'engine')
from db import DB
d = DB()
print('%d function bodies extracted' % len(d.bodies))
P

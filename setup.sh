#!/bin/bash
# Checks that the tools are there and builds the library once, so that the checks start from compiled dependencies.
cd "$(dirname "$0")" || exit 1
set -e
for t in cargo java node python3; do command -v $t >/dev/null || { echo "missing: $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p .build evidence
python3 - <<'P'
import sys, shutil
sys.path.insert(0, 'tools')
import engine
d = engine.scratch_dir()
try:
    engine.build(d)
finally:
    shutil.rmtree(d, ignore_errors=True)
P
echo ready

#!/bin/bash
# builds the extractor and warms the scratch build of the replay harness (offline)
cd "$(dirname "$0")/.." || exit 1
mkdir -p .build evidence
python3 - <<'P'
import sys; sys.path.insert(0, 'tools')
import prove, harness
ok, log = prove.build_vx()
print(log)
b, have, hlog = harness.build()
print(b, have, hlog[-2000:])
sys.exit(0 if ok and b else 1)
P

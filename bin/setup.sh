#!/bin/bash
# Nothing to install: the checks build what they need. Verify that the tools are there.
set -e
cd "$(dirname "$0")/.."
for t in tlc g++ clang++ python3; do command -v $t >/dev/null || { echo "missing: $t"; exit 1; }; done
python3 - <<'PY'
import json, sys
sys.path.insert(0, "bin")
import props
m = json.load(open("MANIFEST.json"))
assert {c["property"] for c in m["checks"]} <= set(props.PROPS), "MANIFEST lists a property without a check"
PY
mkdir -p evidence/replay

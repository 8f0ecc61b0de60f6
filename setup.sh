#!/bin/bash
# builds everything the checks need, offline, from the committed files and /repo's working tree
cd "$(dirname "$0")" || exit 1
python3 - <<'PY'
import sys
sys.path.insert(0, "tools")
import builder, plan
kinds = set().union(*(plan.kinds(p, "quick") for p in plan.PLAN))
builder.build(kinds)
PY

#!/bin/bash
# tools/seedrun.sh ID [CHECK...]  applies a planted bug in /repo, runs the given checks (default: its property's), undoes it.
here="$(cd "$(dirname "$0")/.." && pwd)"
cd "$here" || exit 2
id="$1"; shift
checks="$*"; [ -z "$checks" ] && checks=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
git -C /repo apply "$here/seeded/$id/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for c in $checks; do
  s=$(date +%s); out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./check "$c" 2>&1); rc=$?; e=$(date +%s)
  echo "$id $c rc=$rc $((e-s))s $(printf '%s\n' "$out" | grep -m1 VIOLATION)"
done

#!/bin/bash
# catch.sh ID [PROPERTY ...] : run the checks against a scratch copy of /repo with the planted bug
id=$1; shift
S=/tmp/catch.$id; rm -rf "$S"; cp -a /repo "$S"; cd "$S" && git checkout -q -- . && git apply /verif/seeded/$id/patch.diff || exit 1
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
for p in $props; do
  out=$(cd /verif && DST_REPO=$S DST_MIN_BUDGET=${MINB:-5} DST_NO_EVIDENCE=1 /opt/venv/bin/python -m dst.runner check $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -v '^VIOLATION\|simulated runs' | tail -1 | cut -c1-200) [$(echo "$out" | grep 'simulated runs' | cut -c1-40)]"
done
rm -rf "$S"

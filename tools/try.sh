#!/bin/bash
# tools/try.sh ID...: run the quick check of its property against each planted change (in a scratch copy of /repo)
cd "$(dirname "$0")/.."
for id in "$@"; do
  d=$(mktemp -d /tmp/try_XXXX); cp -a /repo "$d/repo"
  git -C "$d/repo" checkout -q -- . ; git -C "$d/repo" apply "$PWD/seeded/$id/patch.diff" || echo "no apply $id"
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  PYVC_REPO="$d/repo" timeout 900 python3-vt run.py "$p" ${TIER:-quick} > "$d/out" 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -a -m1 VIOLATION "$d/out")"
  rm -rf "$d"
done

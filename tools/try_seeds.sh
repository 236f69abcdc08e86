#!/bin/bash
# run each seeded bug's own check against a scratch copy with the bug applied: try_seeds.sh [ID...]
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  t=$(mktemp -d /tmp/seed_XXXX); cp -a /repo "$t/repo"
  git -C "$t/repo" apply "$PWD/seeded/$d/patch.diff" || echo "APPLY FAILED"
  s=$(date +%s)
  out=$(METSIM_REPO="$t/repo" METSIM_EVIDENCE="$t" timeout 900 python3-vt check.py $p --tier quick 2>&1); rc=$?
  echo "$d rc=$rc $(( $(date +%s)-s ))s :: $(echo "$out" | grep -c '^VIOLATION') :: $(echo "$out" | grep '^VIOLATION' | head -1 | cut -c1-150)"
  rm -rf "$t"
done

#!/bin/bash
# usage: try_seeded.sh [ID...]: runs the check of each planted bug's property with it, on a
# scratch copy of /repo.
cd "$(dirname "$0")"
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seeded.XXXXXX)
  cp -a /repo "$w/repo"
  if git -C "$w/repo" apply "$PWD/seeded/$id/patch.diff"; then
    s=$(date +%s)
    out=$(VERIF_REPO="$w/repo" timeout 900 ./check.sh $p quick 2>&1); rc=$?
    v=$(echo "$out" | grep -c "^VIOLATION property=$p")
    echo "$id $p rc=$rc violations=$v $(( $(date +%s) - s ))s"
  else
    echo "$id DOES NOT APPLY"
  fi
  rm -rf "$w"
done

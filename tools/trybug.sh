#!/bin/bash
# trybug.sh ID...: applies each planted bug in /repo, runs its property's check, undoes it.
cd /verif || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  props="${PROPS:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}"
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  for p in $props; do
    s=$(date +%s.%N)
    VERIF_SEED=${VERIF_SEED:-1} sim/check.sh $p >/tmp/trybug.out 2>&1; rc=$?
    e=$(date +%s.%N)
    printf '%s %s exit=%s %.1fs %s\n' "$id" "$p" "$rc" "$(echo "$e-$s"|bc)" "$(grep -v '^VIOLATION' /tmp/trybug.out | cut -c1-230 | head -2 | tr '\n' ' ')"
  done
  git -C /repo checkout -q -- .
done

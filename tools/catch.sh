#!/bin/bash
# catch.sh ID...: runs the check of each planted bug's property with the bug applied to /repo, and undoes it.
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || continue
  out=$(bash /verif/run.sh $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -m1 -E "VIOLATION|error" | cut -c1-200)"
  part=$(echo "$out" | grep -m1 -oE "^$p: [^:]+: " | sed "s/^$p: //; s/: $//")
  sed -i "/^$id\t/d" /verif/tools/catches.tsv; printf '%s\t%s\t%s\t%s\n' "$id" "$p" "$rc" "$part" >> /verif/tools/catches.tsv
done

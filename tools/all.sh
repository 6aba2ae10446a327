#!/bin/bash
# Runs the given (or all) checks in the quick tier one after another and prints the failing ones.
cd /verif
for c in ${@:-$(ls mc/src/bin | sed 's/\.rs//' | tr a-z A-Z)}; do
  t=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash run.sh $c >/tmp/all.$c.log 2>&1; r=$?
  echo "$c exit $r $(( $(date +%s) - t ))s $([ $r = 0 ] || grep -m2 -E 'VIOLATION|key=|error' /tmp/all.$c.log | cut -c1-400)"
done

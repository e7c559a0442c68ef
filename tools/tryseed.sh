#!/bin/bash
# tryseed.sh ENGINE SEED... : runs the seed's own property check against a scratch copy with the seed applied
E=$1; shift
for s in "$@"; do
  d=/verif/seeded/$s; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  T=$(mktemp -d /tmp/try-XXXXXX); cp -a /repo $T/r; git -C $T/r apply $d/patch.diff || echo "apply failed $s"
  t0=$(date +%s); timeout 880 $E -repo $T/r -verif /verif -prop ${P:-$p} > $T/out 2>&1; rc=$?
  echo "$s ${P:-$p} rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 '^violation' $T/out | cut -c1-150)"
  [ $rc = 2 ] && head -5 $T/out
  rm -rf "$T"
done

#!/bin/bash
# tools/seedtest.sh [id ...] : run the check of each planted bug's property against a patched scratch copy (dev only)
cd /verif
one() { s=$1; d=$(mktemp -d /tmp/st_XXXX); git clone -q /repo $d/r; git -C $d/r apply /verif/seeded/$s/patch.diff || echo "$s: patch fails"
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
 DGA_SRC=$d/r/src DGA_NO_EVIDENCE=1 timeout 900 ./check.sh $p quick > $d/o 2>&1; rc=$?
 echo "$s $p rc=$rc $(grep -m1 ^VIOLATION $d/o | cut -c1-200)"; rm -rf "$d"; }
export -f one
[ $# -eq 0 ] && set -- $(ls seeded)
printf '%s\n' "$@" | xargs -P 4 -I{} bash -c 'one {}'

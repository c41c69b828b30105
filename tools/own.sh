#!/bin/bash
# own.sh [ID...]: does the planted bug's own property's check report it? (parallel)
. /opt/vp/env.sh
[ $# = 0 ] && set -- $(ls /verif/seeded)
one() { id=$1; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])"); w=$(mktemp -d /tmp/ownXXXXXX); cp -a /repo/. $w
 git -C $w apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; rm -rf "$w"; return; }
 cd /verif/checker; ${ZK:-./bin/zkcheck} -property $p -repo $w -out $w.o > $w.log 2>&1; rc=$?; echo "$([ $rc = 1 ] && echo caught || echo MISSED rc=$rc) $id [$p] $(grep -m1 -E 'definite|undecided' $w.log | cut -c1-160)"; rm -rf "$w" "$w.o" "$w.log"; }
export -f one
printf '%s\n' "$@" | xargs -P 3 -I{} bash -c 'one {}'

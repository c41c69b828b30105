#!/bin/bash
# all.sh [PROP...]: run every registered check on /repo, output under /tmp/o.
mkdir -p /tmp/o; cp /verif/known_findings.jsonl /tmp/o/
cd /verif/checker
[ $# = 0 ] && set -- $(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")
for p in "$@"; do ./bin/zkcheck -property $p -out /tmp/o 2>&1 | cut -c1-200 | tail -2 | grep -v '^$'; done

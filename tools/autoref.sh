#!/bin/bash
# autoref.sh MODE...: rewrites a copy of /repo mechanically (behaviour unchanged) and runs all checks on it.
. /opt/vp/env.sh
(cd /verif/checker && go build -o bin/autoref ./autoref) || exit 2
for m in "$@"; do
 w=$(mktemp -d /tmp/arefXXXXXX); cp -a /repo/. $w
 /verif/checker/bin/autoref $m $w || { rm -rf "$w"; continue; }
 if ! (cd $w; go build ./... 2>&1 | head -5; exit ${PIPESTATUS[0]}); then echo "$m: does not build"; [ -n "$KEEP" ] || rm -rf "$w"; continue; fi
 if [ -z "$NOTEST" ]; then (cd $w; go test -json -vet=off ./... > $w.json 2>/dev/null; python3 - $w.json <<'P'
import json,sys
st=json.load(open('/opt/vp/BASELINE.json'))['stable']; ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
m=[s for s in st if s not in ok]
if m: print('TESTS FAIL',m[:4])
P
 ); fi
 hit=""
 for p in ${PROPS:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")}; do echo $p; done | xargs -P 3 -I{} sh -c "mkdir -p $w.o; [ -f $w.o/known_findings.jsonl ] || cp -f /verif/known_findings.jsonl $w.o/; cd /verif/checker; timeout 900 ${ZK:-./bin/zkcheck} -property {} -repo $w -out $w.o > $w.{}.log 2>&1; rc=\$?; [ \$rc = 0 ] || echo {} rc=\$rc \$(grep -a -m1 -E 'definite|undecided' $w.{}.log | cut -c1-220)" > $w.res
 sort $w.res; echo "$m: $(wc -l < $w.res) checks not quiet"
 rm -rf "$w" "$w.o" "$w.json" "$w.res" "$w".*.log
done

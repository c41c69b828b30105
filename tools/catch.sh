#!/bin/bash
# catch.sh [ID...]: applies each planted bug to a copy of /repo and prints the checks that report it.
. /opt/vp/env.sh
ids=${*:-$(ls /verif/seeded)}
for id in $ids; do
 w=/tmp/catchwork; rm -rf /tmp/catchwork; cp -a /repo $w
 git -C $w apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
 hit=$(cd /verif/checker; for p in $(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))"); do echo $p; done | xargs -P 8 -I{} sh -c "./bin/zkcheck -property {} -repo $w -out /tmp/catchout-$id >/tmp/catch-$id-{}.log 2>&1 || echo {}" | sort | tr '\n' ' ')
 echo "$id [$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")] caught by: $hit"
done
rm -rf /tmp/catchwork

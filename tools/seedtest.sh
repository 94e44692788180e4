#!/bin/bash
# seedtest.sh ID...: confirm planted bugs: applies, builds, stable tests pass, demo fails with / passes without, and which check catches it
cd /repo; git diff --quiet || { echo dirty; exit 1; }
for id in "$@"; do
 D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
 W=$(mktemp -d /tmp/seeddemo.XXXX); cp $D/* $W/; rm -f $W/patch.diff $W/meta.json
 git -C /repo apply $D/patch.diff || { echo "$id DOES-NOT-APPLY"; rm -r $W; continue; }
 bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
 T=$(python3 - <<'Q'
import json
d=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json')); p=d['passed']; p=set(p if isinstance(p,list) else p.keys()); print(len(set(b['stable'])-p))
Q
)
 bash $W/demo.sh >/tmp/seed.$id.demo 2>&1; R1=$?
 if [ -z "$NOCHECK" ]; then VERIF_SEED=1 /verif/check.sh $P quick >/tmp/seed.$id.check 2>&1; C=$?; else C=-; fi
 git -C /repo checkout -- .
 bash $W/demo.sh >/dev/null 2>&1; R0=$?
 rm -r $W
 echo "$id prop=$P missing_tests=$T demo_with=$R1 demo_without=$R0 check=$C"
done

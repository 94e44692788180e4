#!/bin/bash
# fix.sh PNN "commit subject (without fix:)" "what failed": commit a repair in /repo and record it
set -e
cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
p=d['passed']; p=set(p if isinstance(p,list) else p.keys()); miss=set(b['stable'])-p
assert not miss, miss
P
git -C /repo commit -qam "fix: $2"
H=$(git -C /repo rev-parse --short HEAD)
python3 - "$1" "$H" "$3" <<'P'
import json,sys
f='/verif/known_findings.json'; d=json.load(open(f)); d['fixed'].append("fixed: property=%s %s %s"%tuple(sys.argv[1:])); json.dump(d,open(f,'w'),indent=1)
P
git -C /repo log --oneline | head -1

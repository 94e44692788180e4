#!/bin/bash
# claim.sh PNN "technique suffix" "level note"
cd "$(dirname "$0")/.."
python3 - "$1" "$2" "$3" <<'P'
import json,sys
f='tools/levels.json'; d=json.load(open(f)); d[sys.argv[1]]=sys.argv[2:4]; json.dump(d,open(f,'w'),indent=0,sort_keys=True)
P
python3 tools/mkmanifest.py && git add -A && git commit -qm "$1" 

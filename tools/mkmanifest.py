"""Source of MANIFEST.json: python3 tools/mkmanifest.py"""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "TLA+ specification checked with TLC; "
notes = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", i.lower() + ".py")) and i in notes:
        checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
                           technique=TECH + notes[i][0], level="model_checking", level_note=notes[i][1]))
    else:
        na.append(dict(property=i, reason="check under construction, not claimed yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         hooks=dict(guard="VERIF_HOOKS", enable="no hooks: the checks drive the public API of /repo with scripted estimators; nothing in /repo is guarded", source_commits=[]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")

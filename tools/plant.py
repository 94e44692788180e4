"""plant(id, property, [(file, old, new), ...], demo python text, needs, breaks): write /verif/seeded/<id>/"""
import json, os, subprocess


def plant(id, prop, edits, demo, needs, breaks):
    repo, d = "/repo", "/verif/seeded/" + id
    assert subprocess.run(["git", "-C", repo, "diff", "--quiet"]).returncode == 0
    for f, old, new in edits:
        p = repo + "/quantificationlib/" + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(demo.strip() + "\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: behaves as the property says; 1: it does not\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)

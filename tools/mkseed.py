"""mkseed.py SPEC.py : author planted bugs. SPEC defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=str)]"""
import sys, os, json, subprocess, shutil, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    d = ROOT + "/seeded/" + s["id"]
    repo = "/tmp/mk_" + s["id"]
    shutil.rmtree(repo, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", REPO, repo])
    try:
        for f, old, new in s["edits"]:
            p = repo + "/lenstronomy/" + f
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=repo, text=True)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: property holds; nonzero: broken\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\nexport NUMBA_CACHE_DIR="$T"\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("wrote", d)
    finally:
        shutil.rmtree(repo, ignore_errors=True)

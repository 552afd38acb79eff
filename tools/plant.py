"""Confirm planted bugs in scratch copies.  plant.py ID... [--tests] [--checks] [--tier quick]
Reads /verif/seeded/<id>; works on /tmp/plant_<id> (removed afterwards)."""
import sys, os, json, subprocess, shutil, tempfile, xml.etree.ElementTree as ET
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=None, timeout=3000):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def demo(d, repo):
    t = tempfile.mkdtemp(prefix="demo_")
    try:
        for f in os.listdir(d):
            if f.endswith((".diff", ".patch")) or f == "meta.json":
                continue
            shutil.copy(os.path.join(d, f), t)
        return sh(["bash", os.path.join(t, "demo.sh")], cwd=repo, env={"PYTHONPATH": repo}, timeout=300)
    finally:
        shutil.rmtree(t)


def tests(repo):
    w = tempfile.mkdtemp(prefix="pt_")
    env = {"PYTHONPATH": repo + ":/opt/vp/pytest_plugins", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
           "MPLBACKEND": "Agg", "NUMBA_CACHE_DIR": w + "/nb", "XDG_CACHE_HOME": w + "/c", "XDG_CONFIG_HOME": w + "/f", "TMPDIR": w + "/t", "VP_SCRATCH": w, "PWD": w}
    for k in ("nb", "c", "f", "t"):
        os.mkdir(w + "/" + k)
    try:
        rc, out = sh(["/opt/venv/bin/pytest", repo + "/test", "--rootdir=" + repo, "-c", repo + "/setup.cfg", "-q", "-n", "8", "-p", "vp_workdir",
                      "-p", "no:cacheprovider", "--dist", "worksteal", "--timeout=600", "--continue-on-collection-errors", "-o", "junit_family=xunit2",
                      "--junitxml=" + w + "/j.xml"], cwd=w, env=env)
        bad = set()
        ok = set()
        for tc in ET.parse(w + "/j.xml").getroot().iter("testcase"):
            n = tc.get("classname") + "::" + tc.get("name")
            (bad if tc.find("failure") is not None or tc.find("error") is not None else ok).add(n)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        return sorted(b for b in bad if b in stable), len(ok & stable), len(stable)
    finally:
        shutil.rmtree(w)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    for i in ids:
        d = ROOT + "/seeded/" + i
        meta = json.load(open(d + "/meta.json"))
        repo = "/tmp/plant_" + i
        shutil.rmtree(repo, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", REPO, repo])
        try:
            rc, out = sh(["git", "apply", d + "/patch.diff"], cwd=repo)
            if rc:
                print(i, "PATCH DOES NOT APPLY", out[:300])
                continue
            a, oa = demo(d, REPO)
            b, ob = demo(d, repo)
            msg = "%s [%s] demo clean=%d patched=%d" % (i, meta["property"], a, b)
            if a or not b:
                msg += " BAD-DEMO " + (oa if a else ob)[-500:]
            if "--tests" in sys.argv:
                f, n, m = tests(repo)
                msg += " tests: %d/%d stable pass%s" % (n, m, (" FAIL " + ",".join(f[:5])) if f else "")
            if "--checks" in sys.argv:
                rc, out = sh([PY, ROOT + "/run.py", meta["property"], tier, "--no-evidence"], env={"VERIF_REPO": repo})
                v = [l for l in out.splitlines() if "VIOLATION" in l]
                keys = [l.strip()[:110] for l in out.splitlines() if l.strip().startswith("[")][:3]
                msg += " %s rc=%d %s %s" % (tier, rc, "CAUGHT" if rc == 1 and v else "MISSED", keys)
            print(msg, flush=True)
        finally:
            shutil.rmtree(repo, ignore_errors=True)


main()

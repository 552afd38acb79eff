#!/opt/venv/bin/python
"""Run one property's check:  run.py <ID> [quick|thorough] [--replay FILE] [--only SUBSTR] [-j N] [-v]"""
import argparse, glob, importlib, json, os, queue, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True


def find_module(pid):
    m = glob.glob(os.path.join(ROOT, "checks", pid.lower() + "_*.py"))
    if len(m) != 1:
        sys.exit("no unique check module for %s" % pid)
    return os.path.basename(m[0])[:-3]


def make_env(scratch, seed, tier, extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("NUMBA_", "PYTHON"))}
    env.update(PYTHONPATH=REPO, PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg",
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), PYTHONWARNINGS="ignore",
               NUMBA_CACHE_DIR=os.path.join(scratch, "numba"), XDG_CONFIG_HOME=os.path.join(scratch, "xdgc"),
               XDG_CACHE_HOME=os.path.join(scratch, "xdgh"), TMPDIR=os.path.join(scratch, "tmp"),
               HOME=os.path.join(scratch, "home"), VERIF_SEED=str(seed), VERIF_TIER=tier,
               VERIF_SCRATCH=scratch, VERIF_REPO=REPO, ASTROPY_SKIP_CONFIG_UPDATE="1")
    for d in ("pyc", "numba", "xdgc", "xdgh", "tmp", "home"):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    if extra:
        env.update(extra)
    return env


class Worker(object):
    def __init__(self, modname, env, cwd):
        self.args = (modname, env, cwd)
        self.start()

    def start(self):
        modname, env, cwd = self.args
        self.p = subprocess.Popen([PY, "-B", os.path.join(ROOT, "lib", "worker.py"), modname], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env, cwd=cwd, text=True, start_new_session=True)
        line = self.p.stdout.readline()
        if not line:
            self.p.wait()
            raise RuntimeError("worker failed to start (import error?) rc=%s" % self.p.returncode)

    def run(self, case, timeout):
        timer = threading.Timer(timeout, self.kill)
        timer.start()
        try:
            self.p.stdin.write(json.dumps(case) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        timed_out = not timer.is_alive()
        timer.cancel()
        if line:
            return json.loads(line)
        self.p.wait()
        return dict(died=True, timeout=timed_out, rc=self.p.returncode, name=case["name"])

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            pass
        self.kill()


def import_probe(env, cwd):
    """Can the library be imported at all? Distinguishes a broken library from a broken harness."""
    r = subprocess.run([PY, "-B", "-c", "import lenstronomy, lenstronomy.LensModel.lens_model"], env=env, cwd=cwd,
                       capture_output=True, text=True)
    return r.returncode, r.stderr[-1500:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    pid, tier, seed = a.pid, a.tier, a.seed
    t0 = time.time()
    modname = find_module(pid)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))
    workers = []
    try:
        rc = _main(a, pid, tier, seed, t0, modname, scratch, workers)
    finally:
        for w in workers:
            w.kill()
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def _main(a, pid, tier, seed, t0, modname, scratch, workers):
    env = make_env(scratch, seed, tier)
    cwd = os.path.join(scratch, "tmp")
    # the case list is made by the check module (in a child, which may import the library)
    code = ("import sys,json,os,warnings; warnings.simplefilter('ignore'); sys.path[:0]=[%r,%r]; fd=os.dup(1); os.dup2(2,1)\n"
            "import %s as m\n"
            "os.write(fd, json.dumps(dict(cases=m.cases(%r,%d), rule=m.RULE, assumptions=getattr(m,'ASSUMPTIONS',[]),"
            " required=getattr(m,'REQUIRED',[]), timeout=getattr(m,'TIMEOUT',300), env=getattr(m,'ENV',{}))).encode())"
            % (os.path.join(ROOT, "lib"), os.path.join(ROOT, "checks"), modname, tier, seed))
    r = subprocess.run([PY, "-B", "-c", code], env=env, cwd=cwd, capture_output=True, text=True)
    if r.returncode != 0:
        rc, err = import_probe(env, cwd)
        print("check setup failed:\n" + r.stderr[-3000:])
        if "/lenstronomy/" in r.stderr and "Traceback" in r.stderr:
            return report_fatal(pid, tier, seed, t0, "library failed while preparing the workload: " + r.stderr[-800:])
        return 2
    spec = json.loads(r.stdout)
    cases, rule = spec["cases"], spec["rule"]
    env.update(spec["env"])
    names = [c["name"] for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"
    if a.replay:
        rep = json.load(open(a.replay))
        want = set(v["case"]["name"] for v in rep["violations"])
        env["VERIF_SEED"] = str(rep["seed"])
        byname = {c["name"]: c for c in cases}
        cases = [v["case"] for v in rep["violations"]]
        cases = list({c["name"]: c for c in cases}.values())
    if a.only:
        cases = [c for c in cases if a.only in c["name"]]
    known = [k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"] if k["property"] == pid]
    kkeys = {k["key"]: k for k in known}
    q = queue.Queue()
    for c in sorted(cases, key=lambda c: -c.get("cost", 1)):
        q.put(c)
    results, lock, startup = [], threading.Lock(), []
    stop = threading.Event()

    def loop():
        try:
            w = Worker(modname, env, cwd)
        except RuntimeError as e:
            startup.append(str(e))
            return
        workers.append(w)
        while not stop.is_set():
            try:
                c = q.get_nowait()
            except queue.Empty:
                break
            res = w.run(c, spec["timeout"])
            res["case"] = c
            if res.get("died"):
                w.start()
            with lock:
                results.append(res)
                nv = sum(sum(v["key"] not in kkeys for v in x.get("violations", [])) for x in results)
                if a.v:
                    print("%-60s %.1fs checks=%s viol=%s %s" % (c["name"][:60], res.get("t", -1), res.get("checks"),
                          len(res.get("violations", [])), res.get("err") or ("DIED" if res.get("died") else "")), flush=True)
                if nv > 60 and not a.v:
                    stop.set()
        w.close()

    nw = max(1, min(a.j, len(cases)))
    th = [threading.Thread(target=loop) for _ in range(nw)]
    [t.start() for t in th]
    [t.join() for t in th]
    if startup and not results:
        rc, err = import_probe(env, cwd)
        print("workers failed to start: %s\n%s" % (startup[0], err))
        if rc != 0:
            return report_fatal(pid, tier, seed, t0, "library cannot be imported: " + err)
        return 2
    # ---- aggregate
    events, sigs, samples, worst = {}, set(), [], {}
    checks, viol, errs = 0, [], []
    for r_ in results:
        if r_.get("died"):
            kind = "hang" if r_["timeout"] else "crash"
            viol.append(dict(key="%s/%s" % (kind, r_["case"].get("group", r_["name"])), msg="worker %s (rc %s)" % (kind, r_["rc"]),
                             ctx={}, case=r_["case"]))
            continue
        if r_["err"]:
            errs.append("%s: %s" % (r_["name"], r_["err"]))
        checks += r_["checks"]
        for k, v in r_["events"].items():
            events[k] = events.get(k, 0) + v
        sigs.update(r_["sigs"])
        for k, v in r_["worst"].items():
            worst[k] = max(worst.get(k, 0), v)
        if len(samples) < 6:
            samples.extend(dict(case=r_["name"], **s) for s in r_["samples"][:1])
        for v in r_["violations"]:
            viol.append(dict(v, case=r_["case"]))
    new = [v for v in viol if v["key"] not in kkeys]
    seen_known = {v["key"] for v in viol if v["key"] in kkeys}
    missing = [e for e in spec["required"] if not any(k == e or k.startswith(e + "/") for k in events)]
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=checks, distinct_nontrivial=len(sigs), rule=rule,
                            samples=samples or [dict(case=r_["name"]) for r_ in results[:3]],
                            cases_run=len(results), events_observed=events,
                            worst_fraction_of_tolerance={k: float("%.3g" % v) for k, v in worst.items()},
                            known_findings_seen=sorted(seen_known)),
              assumptions=spec["assumptions"], wall_s=round(wall, 2), violations=len(new))
    if not a.no_evidence and not a.replay and not a.only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s seed=%d: %d cases, %d oracle checks, %d distinct non-trivial, %.1fs" % (
        pid, tier, seed, len(results), checks, len(sigs), wall))
    if a.v:
        print(json.dumps(events, indent=0)[:4000])
        for r_ in sorted(results, key=lambda r_: -r_.get("t", 0))[:8]:
            print("slow: %-50s %.1fs rss=%sMB" % (r_["name"], r_.get("t", -1), r_.get("rss")))
        print("worst fraction of tolerance:", {k: float("%.2g" % v) for k, v in sorted(worst.items(), key=lambda kv: -kv[1])[:15]})
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, kkeys[k]["what"]))
    if new:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s_%s_seed%d.json" % (pid, tier, seed))
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, violations=new), f, indent=1)
        shown = set()
        for v in new:
            if v["key"] in shown:
                continue
            shown.add(v["key"])
            if len(shown) <= 25:
                print("  [%s] case=%s: %s %s" % (v["key"], v["case"]["name"], v["msg"], json.dumps(v["ctx"])[:700]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errs:
        print("INCONCLUSIVE: harness errors: " + " ;; ".join(errs[:5]))
        return 2
    if len(results) < len(cases) or startup:
        print("INCONCLUSIVE: only %d of %d cases ran %s" % (len(results), len(cases), startup[:1]))
        return 2
    if not a.only and not a.replay and (missing or checks == 0):
        print("INCONCLUSIVE: monitors observed nothing for %s" % missing)
        return 2
    return 0


def report_fatal(pid, tier, seed, t0, msg):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", "%s_%s_seed%d.json" % (pid, tier, seed))
    with open(path, "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, violations=[], fatal=msg), f)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level="exploration",
                       coverage=dict(evaluations=0, distinct_nontrivial=0, rule=msg, samples=[]), wall_s=time.time() - t0,
                       violations=1), f)
    print("  " + msg)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


if __name__ == "__main__":
    main()

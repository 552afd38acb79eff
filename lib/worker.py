"""Worker: reads case JSON lines on stdin, runs them, answers JSON lines on the protocol fd."""
import sys, os, json, traceback, importlib, warnings, io, time, zlib, resource

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "checks"))
REPO = os.environ.get("VERIF_REPO", "/repo")


def main():
    proto = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, "w")
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import lenstronomy
    assert os.path.realpath(lenstronomy.__file__).startswith(os.path.realpath(REPO) + os.sep), lenstronomy.__file__
    from harness import Monitor
    mod = importlib.import_module(sys.argv[1])
    proto.write(json.dumps({"ready": True}) + "\n")
    proto.flush()
    for line in sys.stdin:
        case = json.loads(line)
        mon = Monitor(case)
        t0 = time.time()
        err = None
        seed = [int(os.environ.get("VERIF_SEED", "1")) & 0xFFFFFFFF, zlib.crc32(case["name"].encode())]
        rng = np.random.default_rng(seed)
        np.random.seed(zlib.crc32(repr(seed).encode()) & 0x7FFFFFFF)
        warnings.simplefilter("ignore")
        try:
            mod.run(case, mon, rng)
        except BaseException as e:  # noqa
            tb = traceback.extract_tb(sys.exc_info()[2])
            frames = ["%s:%d:%s" % (f.filename, f.lineno, f.name) for f in tb]
            in_repo = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
            if isinstance(e, KeyboardInterrupt):
                raise
            if in_repo:
                mon.violation("raised/" + case.get("group", case["name"]).split("#")[0] + "/" + type(e).__name__,
                              "valid request raised %s: %s" % (type(e).__name__, str(e)[:300]),
                              trace=frames[-6:])
            elif isinstance(e, (ValueError, TypeError, IndexError, KeyError, AttributeError, ArithmeticError)):
                # the oracle could not process what the library returned (wrong shape, type, missing entry)
                mon.violation("unusable/" + case.get("group", case["name"]).split("#")[0] + "/" + type(e).__name__,
                              "result cannot be interpreted: %s: %s" % (type(e).__name__, str(e)[:300]), trace=frames[-6:])
            else:
                err = "%s: %s | %s" % (type(e).__name__, e, frames[-4:])
        out = mon.result()
        out.update(name=case["name"], err=err, t=time.time() - t0,
                   rss=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024)
        proto.write(json.dumps(out) + "\n")
        proto.flush()


if __name__ == "__main__":
    main()

"""C26: the compiled kernels return what the same code returns uncompiled, and never leave their arrays."""
import os
import pickle
import subprocess
import sys
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
RULE = ("differential: every request is answered by three separate interpreters (compiled; compiled with array bounds checking; compilation off) "
        "and the answers, shapes, types and raised errors are compared; convolution also against a direct sum")
ASSUMPTIONS = ["argument types that the compiler rejects with a typing error are not accepted arguments"]
REQUIRED = ["check:same", "check:bounds", "mode:jit", "mode:bounds", "mode:plain", "check:conv"]
TIMEOUT = 600
KINDS = ("epl1", "epl2", "epl3", "solver", "util1", "util2", "image", "conv")


def cases(tier, seed):
    m = {"quick": 1, "thorough": 6}[tier]
    return [dict(name=f"{k}/{i}", kind=k, i=i, cost=dict(epl1=8, epl2=8, epl3=8, util1=6, util2=7, conv=3, solver=9, image=4)[k]) for i in range(m) for k in KINDS]


def start(kind, seed, mode, tmp):
    env = dict(os.environ)
    out = os.path.join(tmp, "%s_%s_%d_%d.pkl" % (kind, mode, seed, os.getpid()))
    if mode == "plain":
        env["NUMBA_DISABLE_JIT"] = "1"
        env["JITREF"] = "1"
    elif mode == "bounds":
        env["NUMBA_BOUNDSCHECK"] = "1"
    env["NUMBA_CACHE_DIR"] = os.path.join(os.environ["VERIF_SCRATCH"], "numba_" + mode + kind)
    os.makedirs(env["NUMBA_CACHE_DIR"], exist_ok=True)
    p = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "..", "lib", "jitwork.py"), kind, str(seed), out], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    return p, out


def conv(ker, cp, out, im):
    nx, ny = im.shape
    kx, ky = ker.shape
    o = np.zeros((nx, ny))
    for x in range(nx):
        for y in range(ny):
            if cp[x, y]:
                for i in range(kx):
                    for j in range(ky):
                        u, v = x + i - (kx - 1) // 2, y + j - (ky - 1) // 2
                        if 0 <= u < nx and 0 <= v < ny:
                            o[u, v] += im[x, y] * ker[i, j]
    return o if out is None else np.where(out, o, 0.)


def run(case, mon, rng):
    tmp = os.environ["VERIF_SCRATCH"]
    seed = int(rng.integers(2 ** 31))
    procs = {m: start(case["kind"], seed, m, tmp) for m in ("jit", "bounds", "plain")}
    R = {}
    for m, (p, out) in procs.items():
        err = p.communicate()[1].decode(errors="replace")
        if p.returncode != 0:
            mon.violation("died/" + m, "the interpreter running the requests in mode %s ended with %s" % (m, p.returncode), stderr=err[-600:])
            continue
        R[m] = pickle.load(open(out, "rb"))
        os.unlink(out)
        mon.event("mode:" + m)
        mon.check("same/switch", R[m]["enabled"] == (m != "plain"), "compilation is switched as asked", mode=m)
    if len(R) < 3:
        return
    L = {m: R[m]["res"] for m in R}
    n = {m: len(v) for m, v in L.items()}
    mon.check("same/requests", len(set(n.values())) == 1, "same requests answered", n=n)
    for j, b, p in zip(L["jit"], L["bounds"], L["plain"]):
        nm = j["name"]
        if b is None:
            b = j
        typing = j["err"] is not None and j["err"][0] in ("TypingError", "LoweringError", "UnsupportedError")
        if typing:
            if nm.endswith(("/scalar", "/array", "/2d", "/np_scalar", "/array1")) or "/" not in nm:
                mon.check("same/accepts/" + nm, p["err"] is not None, "an ordinary argument type is refused once compiled", err=j["err"], args=j["args"])
            else:
                mon.event("rejected_type")
            continue
        mon.check("bounds/" + nm, (b["err"] or ("",))[0] != "IndexError" or p["err"] is not None, "a compiled routine leaves its arrays", err=b["err"], args=b["args"])
        mon.check("same/raises/" + nm, (j["err"] is None) == (p["err"] is None), "raises in one mode only", compiled=j["err"], plain=p["err"], args=j["args"] or p["args"])
        mon.check("same/raises_bounds/" + nm, (b["err"] is None) == (p["err"] is None), "raises in one mode only", bounds=b["err"], plain=p["err"], args=b["args"] or p["args"])
        mon.check("same/inputs/" + nm, j["same"] and p["same"] and b["same"], "inputs altered", compiled=j["same"], plain=p["same"])
        if p["err"] or j["err"] or b["err"]:
            continue
        mon.check("same/number/" + nm, len(j["value"]) == len(p["value"]) == len(b["value"]), "number of results")
        for k, (x, y, z) in enumerate(zip(j["value"], p["value"], b["value"])):
            mon.check("same/shape/" + nm, x.shape == y.shape == z.shape, "shape of the result", compiled=str(x.shape), plain=str(y.shape), bounds=str(z.shape))
            mon.check("same/type/" + nm, x.dtype.kind == y.dtype.kind or y.size == 0, "kind of the result", compiled=str(x.dtype), plain=str(y.dtype))
            if x.shape != y.shape or x.shape != z.shape:
                continue
            f32 = nm.endswith("/float32")
            sc = float(np.max(np.abs(y[np.isfinite(y)]), initial=1e-300)) if y.dtype.kind in "fciu" else 1.
            tol = 2e-5 if f32 else p["tol"]
            for other, tag in ((x, "compiled"), (z, "bounds")):
                u, v = np.nan_to_num(other.astype(complex), nan=7e77, posinf=8e77, neginf=9e77), np.nan_to_num(y.astype(complex), nan=7e77, posinf=8e77, neginf=9e77)
                d = np.abs(u - v)
                bad = d > tol * (np.abs(v) + sc)
                mon.check("same/value/" + nm, not bad.any(), "compiled and plain results differ", mode=tag, result=k, worst=float(d.max(initial=0)), scale=sc)
        if p["ref"] is not None and p["ref"][0] == "conv":
            want = conv(*p["ref"][1:])
            for other, tag in ((j, "compiled"), (p, "plain")):
                mon.close("conv/" + tag, other["value"][0], want, 1e-10, 1e-12, "direct sum")
        mon.nontrivial(nm)

"""Monitor object handed to every workload case: records events, checks, violations."""
import json
import math
import numpy as np


def jsonable(o, depth=0):
    if depth > 6:
        return str(o)[:200]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(o)[:40]]
    if isinstance(o, np.ndarray):
        if o.size > 24:
            return {"shape": list(o.shape), "head": [jsonable(v) for v in o.ravel()[:8]]}
        return [jsonable(v, depth + 1) for v in np.atleast_1d(o).tolist()]
    if isinstance(o, (np.floating, float)):
        v = float(o)
        return v if math.isfinite(v) else str(v)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if o is None or isinstance(o, (str, int, bool)):
        return o
    return str(o)[:200]


class Monitor(object):
    MAXV = 12

    def __init__(self, case):
        self.case = case
        self.events = {}
        self.checks = 0
        self.signatures = set()
        self.violations = []
        self.samples = []
        self.worst = {}
        self._vkeys = {}

    # -- bookkeeping ------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def nontrivial(self, *sig):
        self.signatures.add("|".join(str(s) for s in sig))

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(kw))

    # -- verdicts ---------------------------------------------------------
    def violation(self, key, msg, **ctx):
        n = self._vkeys.get(key, 0)
        self._vkeys[key] = n + 1
        if n == 0 and len(self.violations) < self.MAXV:
            self.violations.append(dict(key=key, msg=str(msg)[:600], ctx=jsonable(ctx)))

    def check(self, key, cond, msg="", **ctx):
        self.checks += 1
        self.event("check:" + key.split("/")[0])
        if not bool(np.all(cond)):
            self.violation(key, msg or "condition false", **ctx)
            return False
        return True

    def close(self, key, got, want, rtol=1e-7, atol=1e-10, msg="", **ctx):
        """|got-want| <= atol + rtol*|want| elementwise; shapes must match; NaN is never close."""
        self.event("check:" + key.split("/")[0])
        try:
            got = np.asarray(got, dtype=float)
            want = np.asarray(want, dtype=float)
        except (TypeError, ValueError) as e:
            self.checks += 1
            self.violation(key, "%s not numeric: %s" % (msg, e), got=got, want=want, **ctx)
            return False
        if got.shape != want.shape:
            self.checks += 1
            self.violation(key, "%s shape %s instead of %s" % (msg, got.shape, want.shape), **ctx)
            return False
        self.checks += max(1, got.size)
        if got.size == 0:
            return True
        d = np.abs(got - want)
        lim = atol + rtol * np.abs(want)
        with np.errstate(all="ignore"):
            bad = ~(d <= lim)
            same_inf = np.isinf(got) & np.isinf(want) & (np.sign(got) == np.sign(want))
        bad &= ~same_inf
        if np.any(bad):
            i = int(np.argmax(np.where(bad, np.where(np.isfinite(d / lim), d / lim, 1e300), -1).ravel()))
            self.violation(
                key, "%s got %r want %r (|diff| %.3g > %.3g; %d of %d entries)" % (
                    msg, float(got.ravel()[i]), float(want.ravel()[i]), float(d.ravel()[i]),
                    float(np.broadcast_to(lim, d.shape).ravel()[i]), int(np.sum(bad)), got.size),
                index=i, **ctx)
            return False
        with np.errstate(all="ignore"):
            r = d / lim
            r = r[np.isfinite(r)]
        if r.size:
            k = key.split("/")[0]
            self.worst[k] = max(self.worst.get(k, 0.0), float(np.max(r)))
        return True

    def result(self):
        return dict(events=self.events, checks=self.checks, sigs=sorted(self.signatures),
                    violations=self.violations, samples=self.samples, worst=self.worst)

"""C20: optimisers and samplers, against a log of every likelihood evaluation they made."""
import os, json, time, tempfile, hashlib, warnings, shutil
import numpy as np
from scipy.stats import norm

RULE = ("one signature per (sampler, likelihood surface, dimension, walkers, options); every likelihood evaluation is logged, and the reported best position, histories, samples and their "
        "likelihoods are compared with the log and with fresh evaluations; worker pools run with random delays and an execution log")
ASSUMPTIONS = ["the likelihood is finite inside the limits and very low outside, as lenstronomy's own likelihood is", "MPI execution and the MultiNest and PolyChord libraries are not available here"]
REQUIRED = ["check:pso", "check:simplex", "check:emcee", "check:zeus", "check:dynesty", "check:nautilus", "check:prior", "check:pool", "check:workers", "check:cobaya", "check:ball"]
TIMEOUT = 300


def cases(tier, seed):
    q = tier == "quick"
    out = [dict(name="pso/%d" % i, kind="pso", group="pso") for i in range(40 if q else 600)]
    out += [dict(name="swarm/%d" % i, kind="swarm", group="swarm") for i in range(24 if q else 300)]
    out += [dict(name="simplex/%d" % i, kind="simplex", group="simplex") for i in range(20 if q else 300)]
    out += [dict(name="emcee/%d" % i, kind="emcee", group="emcee") for i in range(20 if q else 150)]
    out += [dict(name="zeus/%d" % i, kind="zeus", group="zeus") for i in range(8 if q else 60)]
    out += [dict(name="prior/%d" % i, kind="prior", group="prior") for i in range(40 if q else 400)]
    out += [dict(name="ball/%d" % i, kind="ball", group="ball") for i in range(10 if q else 100)]
    out += [dict(name="dynesty/%d" % i, kind="dynesty", group="dynesty", cost=2) for i in range(5 if q else 40)]
    out += [dict(name="nautilus/%d" % i, kind="nautilus", group="nautilus", cost=3) for i in range(3 if q else 20)]
    out += [dict(name="cobaya/%d" % i, kind="cobaya", group="cobaya", cost=3) for i in range(2 if q else 20)]
    out += [dict(name="multinest/%d" % i, kind="multinest", group="multinest") for i in range(3 if q else 20)]
    out += [dict(name="workers/%d" % i, kind="workers", group="workers", cost=9) for i in range(2 if q else 16)]
    out += [dict(name="pool/%d" % i, kind="pool", group="pool", cost=9) for i in range(1 if q else 8)]
    out += [dict(name="real/%d" % i, kind="real", group="real", cost=8) for i in range(1 if q else 8)]
    return out


def run(case, mon, rng):
    os.environ["TQDM_DISABLE"] = "1"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = tempfile.mkdtemp(prefix="c20_")
        cwd = os.getcwd()
        os.chdir(d)
        try:
            globals()["run_" + case["kind"]](case, mon, rng, d)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)


SURF = ("gauss", "multi", "ridge", "flat", "edge", "step", "rosen")


class Stub:
    """a likelihood with limits, logging each evaluation; in pools, each evaluation is written to a per-process file and delayed at random"""

    def __init__(self, rng, surf=None, ndim=None, logdir=None, delay=0.):
        self.surf = surf or str(rng.choice(SURF))
        self.n = int(ndim or rng.integers(1, 5))
        self.lo = rng.uniform(-3, 0, self.n)
        self.up = self.lo + rng.uniform(.5, 5, self.n)
        self.c = rng.uniform(self.lo, self.up)
        if self.surf == "edge":
            self.c = np.where(rng.random(self.n) < .5, self.lo, self.up)
        self.s = rng.uniform(.05, .6, self.n) * (self.up - self.lo)
        self.off = float(rng.uniform(-50, 50))
        self.log = []
        self.logdir, self.delay = logdir, delay
        self.param = self

    # --- what lenstronomy's Likelihood and Param offer to samplers
    @property
    def param_limits(self):
        return LimitsProxy((self.lo.copy(), self.up.copy()))

    def num_param(self):
        return self.n, ["p%d" % i for i in range(self.n)]

    def args2kwargs(self, args, bijective=False, **kw):
        return dict(kwargs_lens=[dict(p=list(np.atleast_1d(args)))])

    def effective_num_data_points(self, **kw):
        return 10

    def value(self, x):
        x = np.array([float(v) for v in x])
        if np.any(x < self.lo) or np.any(x > self.up):
            return -10. ** 18
        u = (x - self.c) / self.s
        if self.surf == "gauss" or self.surf == "edge":
            v = -.5 * np.sum(u ** 2)
        elif self.surf == "multi":
            v = -.5 * np.sum(u ** 2) + 3 * np.sum(np.cos(7 * u))
        elif self.surf == "ridge":
            v = -.5 * (20 * np.sum(u)) ** 2 - .01 * np.sum(u ** 2)
        elif self.surf == "flat":
            v = 0.
        elif self.surf == "step":
            v = -float(np.floor(np.sum(np.abs(u)) * 3))
        else:
            v = -np.sum(100 * (u[1:] - u[:-1] ** 2) ** 2) - np.sum((1 - u) ** 2)
        return float(v + self.off)

    def logL(self, args, verbose=False):
        v = self.value(args)
        if self.logdir:
            if self.delay:
                h = int(hashlib.md5(repr([float(a) for a in args]).encode()).hexdigest()[:6], 16)
                time.sleep(self.delay * (h % 7) / 6.)
            with open(os.path.join(self.logdir, "eval_%d.log" % os.getpid()), "a") as f:
                f.write(json.dumps([[float(a) for a in args], v]) + "\n")
        else:
            self.log.append((tuple(float(a) for a in args), v))
        return v

    def __call__(self, a):
        return self.logL(a)

    def likelihood(self, a):
        return self.logL(a)

    def negativelogL(self, a):
        return -self.logL(a)


class LimitsProxy(tuple):
    """limits as an attribute (Likelihood) or as a method (Param)"""

    def __call__(self):
        return self[0], self[1]


def best(log):
    return max(v for _, v in log)


def check_history(mon, key, st, ll, pos, vel, n_it, c):
    mon.check(key + "/history", len(ll) == len(pos) == len(vel) and len(ll) <= n_it, "history lengths", got=(len(ll), len(pos), len(vel)), max_it=n_it, **c)
    mon.check(key + "/monotone", all(a <= b for a, b in zip(ll[:-1], ll[1:])), "recorded best likelihood gets worse", got=ll, **c)
    mon.check(key + "/match", all(st.value(p) == l for p, l in zip(pos, ll)), "recorded likelihoods are not those of the recorded positions",
              got=[(st.value(p), l) for p, l in zip(pos, ll)][:6], **c)
    mon.check(key + "/dims", all(len(p) == st.n and len(v) == st.n for p, v in zip(pos, vel)), "dimension of recorded positions", **c)


def run_pso(case, mon, rng, d):
    from lenstronomy.Sampling.sampler import Sampler
    st = Stub(rng)
    n_p, n_it = int(rng.integers(2, 25)), int(rng.integers(0, 25))
    mode = str(rng.choice(["default", "range", "outside", "narrow"]))
    start = str(rng.choice(["none", "random", "best", "bad"]))
    lo, up = None, None
    if mode == "range":
        lo = rng.uniform(st.lo, .5 * (st.lo + st.up)); up = rng.uniform(.5 * (st.lo + st.up), st.up)
    elif mode == "outside":
        lo, up = st.lo - rng.uniform(0, 2, st.n), st.up + rng.uniform(0, 2, st.n)
    elif mode == "narrow":
        lo = rng.uniform(st.lo, st.up - 1e-3); up = lo + 1e-3
    pos0 = None if start == "none" else rng.uniform(st.lo, st.up) if start == "random" else st.c.copy() if start == "best" else st.lo - 1.
    c = dict(surf=st.surf, n=st.n, n_p=n_p, n_it=n_it, mode=mode, start=start)
    lo0, up0, p0 = [None if a is None else a.copy() for a in (lo, up, pos0)]
    res, (ll, pos, vel) = Sampler(st).pso(n_p, n_it, lower_start=lo, upper_start=up, init_pos=pos0, verbose=bool(rng.integers(2)))
    log = list(st.log)
    mon.nontrivial("pso", st.surf, st.n, mode, start, min(n_it, 3))
    for _ in range(min(len(log), 50)):
        mon.event("evaluation")
    x = tuple(float(v) for v in res)
    mon.check("pso/best", st.value(x) == best(log), "the reported position is not the best one evaluated", got=st.value(x), want=best(log), n_eval=len(log), **c)
    mon.check("pso/evaluated", any(x == a for a, _ in log), "the reported position was never evaluated", x=x, **c)
    check_history(mon, "pso", st, ll, pos, vel, n_it, c)
    ini = p0 if p0 is not None else (np.array(st.lo) + st.up) / 2 if lo0 is None else (np.maximum(lo0, st.lo) + np.minimum(up0, st.up)) / 2
    mon.check("pso/start", st.value(x) >= st.value(ini), "the result is worse than the starting point", got=st.value(x), want=st.value(ini), **c)
    # reconstruct the order: one starting point, the initial swarm, one swarm per iteration
    if len(log) == 1 + n_p * (len(ll) + 1):
        a = np.array([p for p, _ in log[1:1 + n_p]])
        L, Uu = (st.lo, st.up) if lo0 is None else (np.maximum(lo0, st.lo), np.minimum(up0, st.up))
        mon.check("pso/initial", np.all(a >= L - 1e-12) and np.all(a <= Uu + 1e-12), "initial particles outside the requested range and limits", L=L, U=Uu, a=a[:4], **c)
        mon.check("pso/spread", n_p < 8 or mode == "narrow" or np.all(a.max(0) - a.min(0) > .1 * (Uu - L)), "initial particles do not fill the requested range", L=L, U=Uu, a=a[:4], **c)
        for i, l in enumerate(ll):
            A, B = best(log[:1 + n_p * (i + 1)]), best(log[:1 + n_p * (i + 2)])
            mon.check("pso/progress", A <= l <= B, "history does not hold the best found so far", i=i, got=l, want=(A, B), **c)
        if len(ll) < n_it:
            last = np.array([p for p, _ in log[-n_p:]])
            fit = np.array([v for _, v in log[-n_p:]])
            k = int(np.floor(n_p * .7))
            near = last[np.argsort(-fit, kind="stable")[:k]]
            mon.check("pso/stop", np.max(np.linalg.norm(near - np.array(x), axis=1)) < 1e-2 * 1.0001 or len(set(fit)) < len(fit), "stopped early before the swarm converged", near=near, x=x, **c)
            mon.event("early stop")
    else:
        mon.event("other evaluation order")
    for a, b, nm in ((lo, lo0, "lower_start"), (up, up0, "upper_start"), (pos0, p0, "init_pos")):
        mon.check("pso/inputs", b is None or np.array_equal(a, b), "%s was altered" % nm, **c)


def weighted(x, scale, st=None, shift=0.):
    return scale * st.logL(x) + shift


def run_swarm(case, mon, rng, d):
    """the optimiser class on its own: extra arguments, pre-set best, tolerances, resuming"""
    from lenstronomy.Sampling.Samplers.pso import ParticleSwarmOptimizer
    st = Stub(rng)
    sc, sh = float(rng.uniform(.5, 2)), float(rng.uniform(-5, 5))
    n_p, n_it = int(rng.integers(3, 20)), int(rng.integers(1, 30))
    lo, up = list(st.lo), tuple(st.up)
    f = lambda x: sc * st.value(x) + sh
    o = ParticleSwarmOptimizer(weighted, lo, up, n_p, args=[sc], kwargs=dict(st=st, shift=sh))
    c = dict(surf=st.surf, n=st.n, n_p=n_p, n_it=n_it)
    preset = bool(rng.integers(2))
    if preset:
        p = rng.uniform(st.lo, st.up)
        o.set_global_best(p, np.zeros(st.n), f(p))
    tol = None
    if rng.integers(2):
        tol = float(-2 * (sc * st.off + sh) + rng.choice([.1, 1., 30.]))
    c.update(tol=tol, preset=preset)
    res, (ll, pos, vel) = o.optimize(n_it, verbose=False, early_stop_tolerance=tol)
    log = [(a, sc * v + sh) for a, v in st.log]
    x = tuple(float(v) for v in res)
    mon.nontrivial("swarm", st.surf, st.n, preset, tol is None)
    top = best(log) if not preset else max(best(log), f(p))
    mon.check("pso/best", f(x) == top, "the reported position is not the best one evaluated", got=f(x), want=top, **c)
    mon.check("pso/fitness", o.global_best.fitness == f(x) and list(o.global_best.position) == list(res), "fitness of the global best", got=o.global_best.fitness, want=f(x), **c)
    mon.check("pso/match", all(f(a) == b for a, b in zip(pos, ll)) and len(pos) == len(ll) == len(vel) <= n_it, "history", **c)
    mon.check("pso/monotone", all(a <= b for a, b in zip(ll[:-1], ll[1:])), "history gets worse", got=ll, **c)
    if tol is not None and len(log) == n_p * (len(ll) + 1):
        run_best = [max([best(log[:n_p * (i + 1)])] + ([f(p)] if preset else [])) for i in range(len(ll) + 1)]
        mon.check("pso/tolerance", all(-2 * b >= tol for b in run_best[:-1]), "went on after the requested tolerance was reached", got=[-2 * b for b in run_best][:5], **c)
        if len(ll) < n_it and -2 * run_best[-1] < tol:
            mon.event("tolerance stop")
    # continuing does not lose the best
    st.log = []
    res2, (ll2, pos2, _) = o.optimize(int(rng.integers(0, 5)), verbose=False)
    top2 = max([top] + [sc * v + sh for _, v in st.log])
    mon.check("pso/continue", f(res2) == top2 and all(b >= top for b in ll2), "continuing lost the best position", got=f(res2), want=top2, **c)
    # every generation is reported as evaluated
    st.log = []
    o = ParticleSwarmOptimizer(weighted, lo, up, n_p, args=[sc], kwargs=dict(st=st, shift=sh))
    for i, sw in enumerate(o.sample(max_iter=4, verbose=False)):
        mon.check("pso/generation", len(sw) == n_p and all(q.fitness == f(q.position) for q in sw), "particles of a generation carry other fitness values", i=i, **c)


def run_simplex(case, mon, rng, d):
    from lenstronomy.Sampling.sampler import Sampler
    st = Stub(rng)
    x0 = rng.uniform(st.lo, st.up)
    k0 = x0.copy()
    method = str(rng.choice(["Nelder-Mead", "Nelder-Mead", "Powell"]))
    n_it = int(rng.choice([1, 2, 5, 40, 300]))
    c = dict(surf=st.surf, n=st.n, method=method, n_it=n_it, x0=x0)
    res = Sampler(st).simplex(x0, n_it, method)
    res = np.atleast_1d(res)
    mon.nontrivial("simplex", st.surf, st.n, method, n_it)
    mon.check("simplex/shape", res.shape == (st.n,), "result shape", got=res.shape, **c)
    b = best(st.log)
    got = st.value(res)
    mon.check("simplex/start", got >= st.value(x0), "result worse than the start", got=got, want=st.value(x0), **c)
    if method == "Nelder-Mead":
        mon.check("simplex/best", got == b, "result is not the best evaluated", got=got, want=b, **c)
    if st.surf == "gauss" and n_it == 300 and st.n <= 2 and method == "Nelder-Mead":
        mon.check("simplex/optimum", st.off - got < 1e-3, "optimum of a smooth peak missed", got=got, want=st.off, **c)
    mon.check("simplex/inputs", np.array_equal(x0, k0), "start altered", **c)


def check_chain(mon, key, st, s, l, n, c, tolerance=0.):
    s, l = np.asarray(s), np.asarray(l)
    ok = s.shape == (n, st.n) and l.shape == (n,)
    mon.check(key + "/shape", ok, "shape of samples and likelihoods", got=(s.shape, l.shape), want=n, **c)
    want = np.array([st.value(x) for x in s])
    k = min(len(want), len(l))
    mon.check(key + "/own", np.array_equal(want[:k], l[:k]), "likelihoods are not those of the samples", got=l[:5], want=want[:5], nbad=int(np.sum(want[:k] != l[:k])), **c)
    mon.check(key + "/limits", np.all(s >= st.lo) and np.all(s <= st.up), "samples outside the limits", lo=st.lo, up=st.up, smin=s.min(0), smax=s.max(0), **c)


def run_emcee(case, mon, rng, d):
    from lenstronomy.Sampling.sampler import Sampler
    st = Stub(rng)
    nw = int(2 * st.n + rng.integers(2, 8)) // 2 * 2
    n_run, n_burn = int(rng.integers(1, 12)), int(rng.integers(0, 6))
    m, sg = rng.uniform(st.lo, st.up), rng.uniform(.05, 2, st.n) * (st.up - st.lo)
    back = bool(rng.integers(2))
    ini = rng.uniform(st.lo, st.up, (nw, st.n)) if rng.integers(2) else None
    ini0 = None if ini is None else ini.copy()
    c = dict(surf=st.surf, n=st.n, nw=nw, n_run=n_run, n_burn=n_burn, back=back, ini=ini is not None)
    kw = dict(backend_filename=os.path.join(d, "b.h5")) if back else {}
    seed = int(rng.integers(1, 2 ** 31))
    np.random.seed(seed)
    s, l = Sampler(st).mcmc_emcee(nw, n_run, n_burn, m, sg, initpos=ini, **kw)
    mon.nontrivial("emcee", st.surf, st.n, n_burn > 0, back, ini is not None)
    check_chain(mon, "emcee", st, s, l, nw * n_run, c)
    first = np.array([a for a, _ in st.log[:nw]])
    if ini0 is not None:
        mon.check("emcee/initial", np.array_equal(first, ini0) and np.array_equal(ini, ini0), "walkers do not start at the given positions", got=first[:2], want=ini0[:2], **c)
    else:
        mon.check("emcee/initial", np.all(first >= st.lo) and np.all(first <= st.up), "walkers start outside the limits", got=first[:2], **c)
    seen = {}
    for a, v in st.log:
        seen[a] = v
    mon.check("emcee/evaluated", all(tuple(map(float, x)) in seen for x in np.asarray(s)), "a sample was never evaluated", **c)
    # the same seed gives the same chain
    st2 = st
    np.random.seed(seed)
    s2, l2 = Sampler(st2).mcmc_emcee(nw, n_run, n_burn, m, sg, initpos=ini)
    mon.check("emcee/seed", np.array_equal(s, s2) and np.array_equal(l, l2), "same seed, different chain", **c)
    if back:
        more = int(rng.integers(1, 6))
        s3, l3 = Sampler(st).mcmc_emcee(nw, more, n_burn, m, sg, start_from_backend=True, **kw)
        check_chain(mon, "emcee", st, s3, l3, nw * (n_run + more), dict(c, more=more))
        mon.check("emcee/continued", np.array_equal(np.asarray(s3)[:len(s)], s) and np.array_equal(np.asarray(l3)[:len(s)], l), "continuing from a saved run changed the earlier samples", **c)
        s4, l4 = Sampler(st).mcmc_emcee(nw, 2, 0, m, sg, start_from_backend=False, **kw)
        check_chain(mon, "emcee", st, s4, l4, nw * 2, dict(c, reset=True))


def run_zeus(case, mon, rng, d):
    from lenstronomy.Sampling.sampler import Sampler
    st = Stub(rng, surf=str(rng.choice(["gauss", "multi", "ridge"])))
    nw = 2 * int(st.n + rng.integers(1, 4))
    n_run, n_burn = int(rng.integers(2, 12)), int(rng.integers(0, 6))
    m, sg = rng.uniform(st.lo, st.up), rng.uniform(.05, 1, st.n) * (st.up - st.lo)
    ini = rng.uniform(st.lo, st.up, (nw, st.n)) if rng.integers(2) else None
    c = dict(surf=st.surf, n=st.n, nw=nw, n_run=n_run, n_burn=n_burn)
    kw = dict(backend_filename=os.path.join(d, "z.h5")) if rng.integers(2) else {}
    s, l = Sampler(st).mcmc_zeus(nw, n_run, n_burn, m, sg, initpos=ini, verbose=False, **kw)
    mon.nontrivial("zeus", st.surf, st.n, n_burn > 0, ini is None)
    check_chain(mon, "zeus", st, s, l, nw * n_run, c)
    first = np.array([a for a, _ in st.log[:nw]])
    mon.check("zeus/initial", (np.array_equal(first, ini) if ini is not None else np.all(first >= st.lo) and np.all(first <= st.up)), "walkers start elsewhere", got=first[:2], **c)


def run_ball(case, mon, rng, d):
    from lenstronomy.Util import sampling_util as su
    n = int(rng.integers(1, 5))
    lo = rng.uniform(-3, 0, n); up = lo + rng.uniform(.5, 4, n)
    m = rng.uniform(lo, up); sg = rng.uniform(.05, 2, n)
    N = 1500
    x = su.sample_ball_truncated(m, sg, lo, up, size=N)
    mon.nontrivial("ball", n)
    mon.check("ball/limits", x.shape == (N, n) and np.all(x >= lo) and np.all(x <= up), "truncated ball leaves the limits", lo=lo, up=up, smin=x.min(0), smax=x.max(0))
    a, b = norm.cdf((lo - m) / sg), norm.cdf((up - m) / sg)
    u = np.sort((norm.cdf((x - m) / sg) - a) / (b - a), axis=0)
    D = np.max(np.abs(u - (np.arange(N)[:, None] + .5) / N), axis=0) * np.sqrt(N)
    mon.check("ball/distribution", np.all(D < 2.6), "truncated ball does not follow the truncated normal distribution", D=D)
    for dist in ("uniform", "normal"):
        y = su.sample_ball(m, sg, size=N, dist=dist)
        t = (y - m) / sg
        q = np.sort((t + 1) / 2 if dist == "uniform" else norm.cdf(t), axis=0)
        D = np.max(np.abs(q - (np.arange(N)[:, None] + .5) / N), axis=0) * np.sqrt(N)
        mon.check("ball/%s" % dist, y.shape == (N, n) and np.all(D < 2.6), "ball distribution", D=D)


def nested(kind, st, rng, **kw):
    from lenstronomy.Sampling.Samplers.dynesty_sampler import DynestySampler
    from lenstronomy.Sampling.Samplers.nautilus_sampler import NautilusSampler
    t = str(rng.choice(["uniform", "gaussian"]))
    ws = float(rng.choice([1., .5, .2, 1.5]))
    ss = float(rng.choice([1., .5, 2.]))
    m, sg = rng.uniform(st.lo, st.up), rng.uniform(.1, 1, st.n) * (st.up - st.lo)
    o = dict(prior_type=t, width_scale=ws, sigma_scale=ss, prior_means=m.copy(), prior_sigmas=sg.copy())
    cls = dict(dynesty=DynestySampler, nautilus=NautilusSampler)[kind]
    S = cls(st, **o, **kw)
    if t == "uniform" and ws < 1:
        mid = (st.lo + st.up) / 2
        lo, up = mid - (st.up - st.lo) * ws / 2, mid + (st.up - st.lo) * ws / 2
    else:
        lo, up = st.lo, st.up
    return S, o, lo, up, dict(prior=t, ws=ws, ss=ss, surf=st.surf, n=st.n), m, sg * ss


def run_prior(case, mon, rng, d):
    """the map from the unit cube: prescribed distribution, in limits, increasing"""
    st = Stub(rng)
    kind = "dynesty" if rng.integers(2) or st.n < 2 else "nautilus"
    kw = {} if kind == "dynesty" else dict(n_live=10)
    S, o, lo, up, c, m, sg = nested(kind, st, rng, **kw)
    mon.nontrivial("prior", o["prior_type"], o["width_scale"], o["sigma_scale"], st.n)
    for u in [np.zeros(st.n), np.ones(st.n)] + [rng.random(st.n) for _ in range(8)]:
        u0 = u.copy()
        p = np.asarray(S.prior(u.copy()))
        eps = 1e-9 * (up - lo)
        mon.check("prior/limits", p.shape == (st.n,) and np.all(p >= lo - eps) and np.all(p <= up + eps), "prior leaves the limits", u=u0, p=p, lo=lo, up=up, **c)
        if o["prior_type"] == "uniform":
            mon.close("prior/uniform", p, lo + u0 * (up - lo), 1e-9, 1e-9, "uniform prior", **c)
        else:
            a, b = norm.cdf((lo - m) / sg), norm.cdf((up - m) / sg)
            mon.close("prior/gaussian", (norm.cdf((p - m) / sg) - a) / (b - a), u0, 1e-6, 1e-6, "gaussian prior", **c)
    x = rng.uniform(st.lo, st.up)
    mon.check("prior/likelihood", S.log_likelihood(x) == st.value(x), "nested likelihood", got=S.log_likelihood(x), want=st.value(x), **c)
    k = st.value
    for bad in (np.nan, np.inf, -np.inf):
        st.value = lambda x: bad
        v = S.log_likelihood(x)
        mon.check("prior/finite", np.isfinite(v) and v < -1e10, "non-finite likelihood handed to the sampler", got=v, **c)
    st.value = k
    mon.check("prior/inputs", np.array_equal(o["prior_means"], m) and np.allclose(o["prior_sigmas"] * o["sigma_scale"], sg), "prior settings altered", **c)


def check_nested(mon, key, st, s, l, lo, up, c):
    s, l = np.asarray(s), np.asarray(l)
    eps = 1e-9 * (up - lo)
    mon.check(key + "/shape", s.ndim == 2 and s.shape[1] == st.n and l.shape == (len(s),), "shape", got=(s.shape, l.shape), **c)
    mon.check(key + "/limits", np.all(s >= lo - eps) and np.all(s <= up + eps), "samples outside the limits", smin=s.min(0), smax=s.max(0), lo=lo, up=up, **c)
    w = np.array([st.value(x) for x in s])
    k = min(len(w), len(l))
    mon.check(key + "/own", np.allclose(w[:k], l[:k], rtol=1e-12, atol=1e-9), "likelihoods are not those of the samples", got=l[:5], want=w[:5], nbad=int(np.sum(~np.isclose(w[:k], l[:k]))), **c)


def run_dynesty(case, mon, rng, d):
    st = Stub(rng, surf=str(rng.choice(["gauss", "multi", "edge"])), ndim=int(rng.integers(1, 4)))
    S, o, lo, up, c, m, sg = nested("dynesty", st, rng)
    s, means, lz, lze, l, r = S.run(dict(dlogz_init=.5, nlive_init=30, nlive_batch=20, maxbatch=1, maxiter_init=250, maxiter_batch=40, print_progress=False))
    mon.nontrivial("dynesty", st.surf, st.n, o["prior_type"], o["width_scale"])
    check_nested(mon, "dynesty", st, s, l, lo, up, c)
    check_nested(mon, "dynesty", st, r.samples, r.logl, lo, up, dict(c, of="results"))
    w = np.exp(r.logwt - r.logz[-1]); w = w / w.sum()
    mon.close("dynesty/means", means, (w[:, None] * r.samples).sum(0), 1e-6, 1e-9, "means", **c)
    mon.check("dynesty/evidence", np.isfinite(np.atleast_1d(lz)[-1]) and np.atleast_1d(lz)[-1] <= st.off + 3 * st.n + 1e-6 + 3, "evidence above the maximum likelihood", got=np.atleast_1d(lz)[-1], **c)


def run_nautilus(case, mon, rng, d):
    st = Stub(rng, surf=str(rng.choice(["gauss", "multi"])), ndim=int(rng.integers(2, 4)))
    S, o, lo, up, c, m, sg = nested("nautilus", st, rng, n_live=60, n_networks=0, seed=int(rng.integers(1e6)))
    s, means, lz, lze, l, r = S.run(n_eff=60, f_live=.2, verbose=False, n_like_max=1500)
    mon.nontrivial("nautilus", st.surf, st.n, o["prior_type"], o["width_scale"])
    check_nested(mon, "nautilus", st, s, l, lo, up, c)
    check_nested(mon, "nautilus", st, r["points"], r["log_l"], lo, up, dict(c, of="results"))
    w = np.exp(r["log_w"] - np.max(r["log_w"])); w = w / w.sum()
    mon.close("nautilus/means", means, (w[:, None] * r["points"]).sum(0), 1e-6, 1e-9, "means", **c)


def run_multinest(case, mon, rng, d):
    """MultiNest's library is absent: a stand-in writes what MultiNest would, to see what is read back"""
    import types
    from lenstronomy.Sampling.Samplers.multinest_sampler import MultiNestSampler
    st = Stub(rng, ndim=int(rng.integers(1, 4)))
    N = int(rng.integers(5, 30))
    pts = rng.uniform(st.lo, st.up, (N, st.n))
    ll = np.array([st.value(x) for x in pts])
    idx = rng.integers(0, N, int(N * .7) + 1)
    ran = {}

    def run_(logl, prior, ndims, **kw):
        cube = [float(v) for v in rng.random(ndims)]
        u = list(cube)
        prior(cube, ndims, ndims)
        ran.update(u=u, p=list(cube), l=logl(cube, ndims, ndims), kw=kw)

    class Analyzer:
        def __init__(self, n, outputfiles_basename=None):
            pass

        def get_equal_weighted_posterior(self):
            return np.column_stack([pts[idx], ll[idx]])

        def get_data(self):
            return np.column_stack([np.full(N, 1. / N), -2 * ll, pts])

        def get_stats(self):
            return {"global evidence": 1., "global evidence error": .1, "modes": [{"mean": pts.mean(0)}]}

    class MN(MultiNestSampler):
        def _check_install(self):
            self._pymultinest_installed = True
            self._pymultinest = types.SimpleNamespace(run=run_)
            self._Analyzer = Analyzer
    S = MN(st, prior_type="uniform", output_dir=os.path.join(d, "mn"), remove_output_dir=True)
    s, means, lz, lze, l, r = S.run({})
    c = dict(n=st.n, surf=st.surf)
    mon.nontrivial("multinest", st.n)
    check_nested(mon, "multinest", st, s, l, st.lo, st.up, c)
    mon.close("multinest/prior", ran["p"], st.lo + np.array(ran["u"]) * (st.up - st.lo), 1e-9, 1e-9, "the cube is mapped in place", **c)
    mon.check("multinest/likelihood", ran["l"] == st.value(ran["p"]), "likelihood of the mapped cube", **c)


def run_cobaya(case, mon, rng, d):
    import logging
    from lenstronomy.Sampling.Samplers.cobaya_sampler import CobayaSampler
    st = Stub(rng, surf="gauss", ndim=int(rng.integers(1, 4)))
    m, sg = st.c.copy(), .2 * st.s
    kw = dict(max_samples=40, Rminus1_stop=100, Rminus1_cl_stop=100, max_tries=5000, measure_speeds=False)
    if rng.integers(2):
        kw["proposal_widths"] = list(.5 * st.s) if rng.integers(2) else {"p%d" % i: .5 * st.s[i] for i in range(st.n)}
    S = CobayaSampler(st, m, sg)
    info, smp, bf = S.run(**kw)
    c = dict(n=st.n)
    df = smp.collection.data
    x = np.array(df[["p%d" % i for i in range(st.n)]], float)
    chi2 = np.array(df["chi2"], float)
    mon.nontrivial("cobaya", st.n, "proposal_widths" in kw)
    want = np.array([st.value(p) for p in x])
    mon.check("cobaya/own", np.allclose(-.5 * chi2, want, rtol=1e-9, atol=1e-9), "likelihoods are not those of the samples", got=-.5 * chi2[:4], want=want[:4], **c)
    mon.check("cobaya/limits", np.all(x >= st.lo) and np.all(x <= st.up) and len(x) > 0, "samples outside limits", **c)
    mon.check("cobaya/best", len(bf) == st.n and st.value(bf) == want.max(), "best fit is not the best sample", got=st.value(bf), want=want.max(), **c)
    mon.check("cobaya/evaluated", set(map(tuple, x)) <= set(a for a, _ in st.log), "a sample was never evaluated", **c)


def read_logs(d):
    out, pids = [], set()
    for f in os.listdir(d):
        if f.startswith("eval_"):
            pids.add(f)
            for line in open(os.path.join(d, f)):
                a, v = json.loads(line)
                out.append((tuple(a), v))
    return out, pids


def run_workers(case, mon, rng, d):
    """worker pools with random delays: the same seed gives the same result as one process"""
    from lenstronomy.Sampling.sampler import Sampler
    n_w = int(rng.integers(2, 4))
    os.mkdir(os.path.join(d, "a")); os.mkdir(os.path.join(d, "b"))
    st = Stub(rng, logdir=os.path.join(d, "a"), delay=.004)
    other = Stub(rng, ndim=st.n)
    seed = int(rng.integers(1, 2 ** 31))
    n_p, n_it = int(rng.integers(5, 12)), int(rng.integers(3, 8))
    kind = "pso" if rng.integers(2) else "emcee"
    nw = 2 * st.n + 2
    m, sg = rng.uniform(st.lo, st.up), .3 * (st.up - st.lo)

    def go(threads, where):
        st.logdir = os.path.join(d, where)
        s = Sampler(st)
        Sampler(other)      # another sampler constructed in between
        np.random.seed(seed)
        if kind == "pso":
            return s.pso(n_p, n_it, threadCount=threads, verbose=False)
        return s.mcmc_emcee(nw, 6, 2, m, sg, threadCount=threads)
    one, two = go(1, "a"), go(n_w, "b")
    la, pa = read_logs(os.path.join(d, "a"))
    lb, pb = read_logs(os.path.join(d, "b"))
    c = dict(kind=kind, workers=n_w, surf=st.surf, n=st.n, procs=len(pb))
    mon.nontrivial("workers", kind, n_w, st.surf, st.n)
    for _ in pb:
        mon.event("worker process seen")
    mon.check("workers/spread", bool(pb - {"eval_%d.log" % os.getpid()}), "no evaluation was made by the worker processes", **c)
    mon.check("workers/multiset", sorted(la) == sorted(lb), "other likelihood evaluations than with one process", na=len(la), nb=len(lb), **c)
    if kind == "pso":
        x, (ll, pos, vel) = two
        mon.check("workers/same", list(map(float, x)) == list(map(float, one[0])) and ll == one[1][0] and np.array_equal(pos, one[1][1]), "same seed, other result with several workers", got=x, want=one[0], **c)
        mon.check("workers/best", st.value(x) == max(v for _, v in lb), "not the best evaluated", **c)
        check_history(mon, "pso", st, ll, pos, vel, n_it, c)
    else:
        mon.check("workers/same", np.array_equal(two[0], one[0]) and np.array_equal(two[1], one[1]), "same seed, other chain with several workers", **c)
        check_chain(mon, "emcee", st, two[0], two[1], nw * 6, c)


def pool_task(t):
    i, w, f = t
    time.sleep(w)
    with open(os.path.join(f, "task_%d" % os.getpid()), "a") as h:
        h.write("%d\n" % i)
    return i * i


def run_pool(case, mon, rng, d):
    """a pool executes each task exactly once and returns results in order, whatever the delays"""
    from lenstronomy.Sampling.Pool.pool import choose_pool
    n_w = int(rng.integers(2, 5))
    p = choose_pool(mpi=False, processes=n_w)
    try:
        for k in range(3):
            f = os.path.join(d, "t%d" % k); os.mkdir(f)
            N = int(rng.integers(1, 40))
            tasks = [(i, float(rng.choice([0, 0, .01, .05])), f) for i in range(N)]
            seen = []
            kw = dict(callback=seen.append) if k == 1 else {}
            r = p.map(pool_task, tasks, **kw)
            done = sorted(int(x) for g in os.listdir(f) for x in open(os.path.join(f, g)).read().split())
            c = dict(workers=n_w, N=N, k=k)
            mon.nontrivial("pool", n_w, min(N, 3), k)
            mon.check("pool/order", list(r) == [i * i for i in range(N)], "results in another order", got=list(r)[:8], **c)
            mon.check("pool/once", done == list(range(N)), "tasks lost or repeated", got=done[:20], **c)
            if k == 1:
                mon.check("pool/callback", sorted(seen) == sorted(i * i for i in range(N)), "callback results", got=seen[:8], **c)
            mon.check("pool/master", p.is_master() is True and not p.is_worker() and p.size == n_w, "roles", **c)
    finally:
        p.terminate(); p.join()
    s = choose_pool(mpi=False, processes=1)
    mon.check("pool/serial", list(s.map(abs, [-3, 2, -1])) == [3, 2, 1] and s.is_master(), "serial pool")


def run_real(case, mon, rng, d):
    """lenstronomy's own likelihood in worker processes"""
    from lenstronomy.Sampling.likelihood import Likelihood
    from lenstronomy.Sampling.parameters import Param
    from lenstronomy.Sampling.sampler import Sampler
    n = 14
    img = rng.normal(0, .1, (n, n)); img[5:9, 6:10] += 2
    km = dict(lens_model_list=["SIS"], source_light_model_list=["GAUSSIAN"])
    fl = [dict(center_x=0., center_y=0.)]
    fs = [dict(sigma=.3)]
    P = Param(km, kwargs_fixed_lens=fl, kwargs_fixed_source=fs, kwargs_lower_lens=[dict(theta_E=.2)], kwargs_upper_lens=[dict(theta_E=1.2)],
              kwargs_lower_source=[dict(center_x=-.5, center_y=-.5)], kwargs_upper_source=[dict(center_x=.5, center_y=.5)])
    data = dict(image_data=img, background_rms=.1, exposure_time=100., ra_at_xy_0=-.65, dec_at_xy_0=-.65, transform_pix2angle=np.eye(2) * .1)
    L = Likelihood(dict(multi_band_list=[[data, dict(psf_type="NONE"), {}]], multi_band_type="multi-linear"), km, P)
    seed = int(rng.integers(1, 2 ** 31))
    out = []
    for t in (1, 2):
        np.random.seed(seed)
        out.append(Sampler(L).pso(6, 3, threadCount=t, verbose=False))
    (x, (ll, pos, vel)), (y, h) = out
    mon.nontrivial("real", "pso")
    mon.check("workers/real", np.array_equal(x, y) and np.array_equal(ll, h[0]) and np.array_equal(pos, h[1]), "same seed, other result with two workers", got=y, want=x)
    mon.close("workers/real_value", h[0], [L.logL(p) for p in h[1]], 1e-10, 1e-10, "history likelihoods")
    np.random.seed(seed)
    s, l = Sampler(L).mcmc_emcee(8, 3, 1, np.array([.7, 0., 0.]), np.array([.1, .1, .1]), threadCount=2)
    mon.close("workers/real_chain", l, [L.logL(p) for p in s], 1e-10, 1e-10, "chain likelihoods")

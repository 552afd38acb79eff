"""C21: point-source positions and amplitudes against fresh lens models and an independent image finder."""
import copy, warnings
import numpy as np
import images as IM
import c09_images as C9
from lenscat import U

RULE = ("one signature per (lens set-up, point-source types, flags, number of images); random point-source lists queried in random order with and without "
        "caching and compared with ray tracing through a freshly built lens model and an independent image finder")
ASSUMPTIONS = ["completeness of solved images as in C09", "with several frames (index_lens_model_list) only LENSED_POSITION without additional images"]
REQUIRED = ["check:position", "check:source", "check:amp", "check:source_amp", "check:list", "check:basis", "check:linear", "check:subset", "check:cache", "check:inputs",
            "check:lensmodel", "check:additional", "check:frames", "check:consistent", "check:width", "check:set"]
TIMEOUT = 250


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for kind, n in (("mix", 90 if q else 700), ("frames", 20 if q else 150), ("history", 24 if q else 200), ("width", 8 if q else 40)):
        out += [dict(name="%s/%d" % (kind, i), kind=kind, group=kind) for i in range(n)]
    return out


def run(case, mon, rng):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        repeatable()
        globals()["run_" + case["kind"]](case, mon, rng)


H, W = .03, 7.


def repeatable():
    """make the grid solver's random restarts a function of its arguments, so that two searches for the same images agree"""
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver as S
    if getattr(S, "_verif", False):
        return
    for name in ("image_position_from_source",):
        def wrap(f):
            def g(self, sourcePos_x, sourcePos_y, *a, **k):
                np.random.seed(int(abs(1e6 * (float(np.mean(sourcePos_x)) + 2 * float(np.mean(sourcePos_y)))) % 2 ** 31))
                return f(self, sourcePos_x, sourcePos_y, *a, **k)
            return g
        setattr(S, name, wrap(getattr(S, name)))
    S._verif = True


def simple_lens(rng, kind):
    """main deflector with smooth perturbers only: all images are unambiguous"""
    cx, cy = U(rng, -.5, .5), U(rng, -.5, .5)
    m = str(rng.choice(["SIE", "EPL", "NIE", "SPEP", "EPL_NUMBA"]))
    ms, kw, args = [m], [C9.main(rng, m, cx, cy)], {}
    if kind != "single":
        g, p = U(rng, .01, .1), U(rng, 0, 7)
        ms.append("SHEAR")
        kw.append(dict(gamma1=g * np.cos(p), gamma2=g * np.sin(p), ra_0=U(rng, -.5, .5), dec_0=U(rng, -.5, .5)))
    if kind in ("group", "planes"):
        for _ in range(int(rng.integers(1, 3))):
            ms.append(str(rng.choice(["NFW", "SHEAR", "CONVERGENCE"])))
            kw.append(dict(NFW=dict(Rs=U(rng, 3, 6), alpha_Rs=U(rng, .02, .2), center_x=U(rng, -4, 4), center_y=U(rng, -4, 4)),
                           SHEAR=dict(gamma1=U(rng, -.05, .05), gamma2=U(rng, -.05, .05)), CONVERGENCE=dict(kappa=U(rng, -.05, .05)))[ms[-1]])
    if kind == "scaled":
        args = dict(z_source=1.7, z_source_convention=1.7, z_lens=.5)
    if kind == "planes":
        args = dict(multi_plane=True, z_source=1.9, z_source_convention=1.9, lens_redshift_list=[.5, .5] + [float(rng.choice([.2, .5, .9, 1.2])) for _ in ms[2:]])
    args["lens_model_list"] = ms
    return args, kw, kind, (cx, cy)


class World:
    """a lens, some point sources and what they should give"""

    def __init__(self, rng, kind=None, n=None, flags=True, types=None):
        kind = kind or str(rng.choice(["single", "shear", "group", "scaled", "planes", "planes"]))
        self.args, self.kw, self.kind, self.c = simple_lens(rng, kind)
        n = n or int(rng.integers(1, 4))
        self.types = types or [str(rng.choice(["UNLENSED", "LENSED_POSITION", "SOURCE_POSITION"])) for _ in range(n)]
        n = len(self.types)
        can = kind in ("scaled", "planes")
        self.z = [None if not can or rng.integers(3) == 0 else float(rng.choice([.95, 1.3, 1.6])) for _ in range(n)]
        self.limit = float(rng.choice([.05, .4])) if flags and rng.integers(3) == 0 else None
        self.fixed = [bool(rng.integers(2)) and t != "UNLENSED" for t in self.types]
        self.add = [flags and t == "LENSED_POSITION" and rng.integers(4) == 0 for t in self.types]
        self.add = [bool(a) for a in self.add]
        self.flux = [not (flags and rng.integers(5) == 0) for _ in self.types]
        self.opt = dict(min_distance=H, search_window=W, x_center=self.c[0], y_center=self.c[1])
        self.kps, self.ref = [], []
        for i in range(n):
            self.kps.append(self.make(rng, i))
        if not any(z is not None for z in self.z) and rng.integers(2):
            self.z = None

    def a(self, i):
        z = self.z[i] if self.z else None
        return self.args if z is None else dict(self.args, z_source=z)

    def solve(self, i, bx, by):
        r = IM.find(C9.shoot(self.a(i), self.kw), bx, by, W * 1.2, *self.c, n=320)
        return r, C9.must(*r, H, W, *self.c, lo=.5, f=C9.shoot(self.a(i), self.kw))

    def make(self, rng, i):
        a = self.a(i)
        t = self.types[i]
        k = {}
        if t == "SOURCE_POSITION":
            b = C9.source(rng, a, self.kw, self.c)
            k = dict(ra_source=b[0], dec_source=b[1])
            n = len(self.solve(i, *b)[0][0])
            if not self.fixed[i]:
                k["point_amp"] = self.amps(rng, int(rng.integers(1, n + 1)) if n else 1)
                if rng.integers(4) == 0:
                    k["point_amp"] = U(rng, .5, 3)
            if rng.integers(3) == 0:
                k["mag_pert"] = self.amps(rng, 8)
        elif t == "LENSED_POSITION":
            if self.add[i] or rng.integers(2):
                b = C9.source(rng, a, self.kw, self.c)
                r = self.solve(i, *b)[0]
                m = (np.abs(r[2]) > .5) & (np.abs(r[2]) < 12) & (np.maximum(np.abs(r[0] - self.c[0]), np.abs(r[1] - self.c[1])) < W / 2 - .2)
                x, y = r[0][m], r[1][m]
            else:
                m = int(rng.integers(1, 5))
                x, y = self.c[0] + np.array([U(rng, -2, 2) for _ in range(m)]), self.c[1] + np.array([U(rng, -2, 2) for _ in range(m)])
            if not len(x):
                x, y = np.array([self.c[0] + 1.2]), np.array([self.c[1] + .3])
            k = dict(ra_image=x, dec_image=y)
            if rng.integers(3) == 0:
                k = dict(ra_image=[float(v) for v in x], dec_image=[float(v) for v in y])
            if not self.fixed[i]:
                k["point_amp"] = self.amps(rng, len(x))
        else:
            m = int(rng.integers(1, 4))
            k = dict(ra_image=self.amps(rng, m), dec_image=self.amps(rng, m), point_amp=self.amps(rng, m))
        if self.fixed[i]:
            k["source_amp"] = U(rng, .5, 4)
        return k

    @staticmethod
    def amps(rng, n):
        return np.array([U(rng, .5, 5) for _ in range(n)])

    def build(self, lens=None, **kw):
        from lenstronomy.PointSource.point_source import PointSource
        return PointSource(list(self.types), lens_model=lens or C9.build(self.args), fixed_magnification_list=list(self.fixed), additional_images_list=list(self.add),
                           flux_from_point_source_list=list(self.flux), magnification_limit=self.limit, redshift_list=None if self.z is None else list(self.z),
                           kwargs_lens_eqn_solver=copy.deepcopy(self.opt), **kw)

    # expectations
    def source(self, i):
        k = self.kps[i]
        if self.types[i] == "SOURCE_POSITION":
            return k["ra_source"], k["dec_source"]
        if self.types[i] == "UNLENSED":
            return k["ra_image"], k["dec_image"]
        u, v = C9.shoot(self.a(i), self.kw)(k["ra_image"], k["dec_image"])
        return np.mean(u), np.mean(v)

    def solved(self, i, more=False):
        return self.types[i] == "SOURCE_POSITION" or (self.types[i] == "LENSED_POSITION" and (self.add[i] or more))

    def mag(self, i, x, y):
        return np.array([1 / np.linalg.det(IM.jac(C9.shoot(self.a(i), self.kw), a, b)) for a, b in zip(x, y)])

    def info(self):
        return dict(models=self.args["lens_model_list"], kind=self.kind, kw=self.kw, types=self.types, z=self.z, fixed=self.fixed, add=self.add, flux=self.flux, limit=self.limit, kps=self.kps)


def check_positions(mon, key, w, i, X, Y, c, more=False):
    k = w.kps[i]
    if not w.solved(i, more):
        mon.close(key + "/given", np.array([X, Y]), np.array([k["ra_image"], k["dec_image"]]), 0, 0, "given image positions not returned as given", model=i, **c)
        return
    b = w.source(i)
    a = w.a(i)
    X, Y = C9.truth(mon, "ps", a, w.kw, b[0], b[1], X, Y, 1.0001e-10, c)
    r, req = w.solve(i, *b)
    if w.limit is not None:
        m = np.abs(w.mag(i, X, Y)) if len(X) else np.zeros(0)
        mon.check(key + "/limit", bool(np.all(m > w.limit * .99)), "image below the magnification limit", model=i, **c)
        req = req & (np.abs(r[2]) > w.limit * 1.01)
    for j in np.nonzero(req)[0]:
        d = np.min(np.hypot(X - r[0][j], Y - r[1][j])) if len(X) else np.inf
        mon.check(key + "/solved", d < 1e-5, "image (%.4f, %.4f) of magnification %.3f missing" % (r[0][j], r[1][j], r[2][j]), model=i, **c)
    C9.order(mon, "ps", a, w.kw, X, Y, c)


def amp_want(w, i, X, Y):
    k = w.kps[i]
    n = len(X)
    if w.fixed[i]:
        a = k["source_amp"] * np.abs(w.mag(i, X, Y)) if n else np.zeros(0)
    else:
        p = k["point_amp"]
        a = np.ones(n) * p if np.isscalar(p) else np.append(p, np.zeros(max(n - len(p), 0)))
        if w.types[i] == "UNLENSED" or not w.solved(i):
            a = np.array(p)
    if w.types[i] == "SOURCE_POSITION" and "mag_pert" in k:
        a = a * k["mag_pert"][:len(a)]
    return a


def check_all(mon, rng, w, ps, c, tag=""):
    n = len(w.types)
    A = lambda: (copy.deepcopy(w.kps), copy.deepcopy(w.kw))
    kp, kw = A()
    X, Y = ps.image_position(kp, kw)
    mon.check("position/count" + tag, len(X) == n and len(Y) == n, "number of lists of image positions", **c)
    for i in range(n):
        check_positions(mon, "position" + tag, w, i, X[i], Y[i], c)
    X, Y = [np.array(x, float) for x in X], [np.array(y, float) for y in Y]
    u, v = ps.source_position(kp, kw)
    for i in range(n):
        s = w.source(i)
        mon.close("source/position" + tag, np.array([u[i], v[i]]), np.array(s), 1e-9, 1e-10, "source position", model=i, **c)
    amp = ps.image_amplitude(kp, kw)
    for i in range(n):
        want = amp_want(w, i, X[i], Y[i])
        if np.any(np.abs(want) > 80):
            continue
        if not w.flux[i]:
            want = np.zeros_like(want)
        mon.close("amp/image" + tag, amp[i], want, 1e-4, 1e-6, "image amplitudes", model=i, **c)
    ok = [i for i in range(n) if not (w.types[i] != "UNLENSED" and not w.fixed[i] and (np.isscalar(w.kps[i]["point_amp"]) or len(w.kps[i]["point_amp"]) != len(X[i])))]
    if len(ok) == n and all(len(x) for x in X):
        sa = ps.source_amplitude(kp, kw)
        for i in range(n):
            k = w.kps[i]
            if w.fixed[i]:
                want = k["source_amp"]
            elif w.types[i] == "UNLENSED":
                want = k["point_amp"]
            elif w.types[i] == "LENSED_POSITION":
                want = np.mean(np.array(k["point_amp"]) / np.abs(w.mag(i, k["ra_image"], k["dec_image"])))
            else:
                want = np.mean(np.array(k["point_amp"]) / np.abs(w.mag(i, X[i], Y[i])))
            if not w.flux[i]:
                want = np.zeros_like(want)
            mon.close("source_amp/" + w.types[i] + tag, sa[i], want, 1e-4, 1e-5, "intrinsic amplitude", model=i, **c)
    # flat list
    px, py, pa = ps.point_source_list(kp, kw)
    want = [(x, y, a) for i in range(n) for x, y, a in zip(X[i], Y[i], amp[i]) if a != 0]
    mon.close("list/all" + tag, np.array([px, py, pa]).T, np.array(want).reshape(-1, 3), 1e-7, 1e-8, "list of point sources", **c)
    px, py, pa = ps.point_source_list(kp, kw, with_amp=False)
    mon.close("list/positions" + tag, np.array([px, py, pa]).T, np.array([(x, y, 1.) for i in range(n) for x, y in zip(X[i], Y[i])]).reshape(-1, 3), 1e-7, 1e-8, "list of positions", **c)
    # subsets
    for k in [int(rng.integers(n)), sorted(int(j) for j in rng.permutation(n)[:int(rng.integers(1, n + 1))])]:
        ks = np.atleast_1d(k)
        a, b = ps.image_position(kp, kw, k=k)
        mon.check("subset/count" + tag, len(a) == len(ks), "number of selected models", k=k, **c)
        for q, j in enumerate(ks):
            mon.close("subset/position" + tag, np.array([a[q], b[q]]), np.array([X[j], Y[j]]), 1e-7, 1e-8, "positions of selected models", k=k, **c)
        a = ps.image_amplitude(kp, kw, k=k)
        for q, j in enumerate(ks):
            mon.close("subset/amp" + tag, a[q], amp[j], 1e-6, 1e-8, "amplitudes of selected models", k=k, **c)
        px, py, pa = ps.point_source_list(kp, kw, k=k)
        mon.close("subset/list" + tag, np.array([px, py, pa]).T, np.array([(x, y, z) for j in ks for x, y, z in zip(X[j], Y[j], amp[j]) if z != 0]).reshape(-1, 3), 1e-6, 1e-8, "list of selected models", k=k, **c)
    # linear basis
    nb = sum((1 if w.fixed[i] else len(X[i])) for i in range(n) if w.flux[i])
    mon.check("basis/number" + tag, ps.num_basis(kp, kw) == nb, "number of linear parameters", got=ps.num_basis(kp, kw), want=nb, **c)
    rx, ry, ra, m = ps.linear_response_set(kp, kw, with_amp=False)
    mon.check("basis/responses" + tag, m == nb and len(rx) == nb and len(ra) == nb, "number of responses", got=m, want=nb, **c)
    p = [U(rng, .5, 4) for _ in range(nb)]
    k2, j = ps.update_linear(list(p), 0, copy.deepcopy(kp), kw)
    mon.check("basis/consumed" + tag, j == nb, "number of amplitudes consumed", got=j, want=nb, **c)
    mon.close("linear/back" + tag, np.array(ps.linear_param_from_kwargs(k2), float), np.array(p), 0, 0, "amplitudes read back", **c)
    ps.delete_lens_model_cache()
    a2 = ps.image_amplitude(k2, kw)
    flat = [x for i in range(n) for x in a2[i] if w.flux[i]]
    pert = [(w.kps[i]["mag_pert"][:len(X[i])] if "mag_pert" in w.kps[i] else np.ones(len(X[i]))) for i in range(n)]
    want, q = [], 0
    for i in range(n):
        if not w.flux[i]:
            continue
        if w.fixed[i]:
            want += list(p[q] * np.abs(w.mag(i, X[i], Y[i])) * pert[i]) if len(X[i]) else []
            q += 1
        else:
            want += list(np.array(p[q:q + len(X[i])]) * pert[i])
            q += len(X[i])
    if not np.any(np.abs(want) > 80):
        mon.close("linear/rendered" + tag, np.array(flat, float), np.array(want, float), 1e-4, 1e-6, "amplitudes rendered after writing back", **c)
        if len(rx) == nb and nb:
            got = [p[q] * z for q in range(nb) for z in ra[q]]
            mon.close("linear/response" + tag, np.array(got, float), np.array(want, float), 1e-4, 1e-6, "responses times amplitudes", **c)
            mon.close("linear/where" + tag, np.array([(x, y) for q in range(nb) for x, y in zip(rx[q], ry[q])]).reshape(-1, 2),
                      np.array([(x, y) for i in range(n) if w.flux[i] for x, y in zip(X[i], Y[i])]).reshape(-1, 2), 1e-7, 1e-8, "positions of the responses", **c)
    ps.delete_lens_model_cache()
    same(mon, "inputs/ps" + tag, (kp, kw), A(), c)
    return X, Y


def same(mon, key, got, want, c):
    mon.check(key, repr(got) == repr(want), "parameters passed in were altered", **c)


def lens_same(mon, w, lens, rng, c, tag=""):
    px, py = np.array([U(rng, -2, 2) for _ in range(3)]), np.array([U(rng, -2, 2) for _ in range(3)])
    k = copy.deepcopy(w.kw)
    k[0]["center_x"] = k[0].get("center_x", 0) + .1
    f = C9.build(w.args)
    mon.close("lensmodel/alpha" + tag, np.array(lens.ray_shooting(px, py, k)), np.array(f.ray_shooting(px, py, k)), 1e-11, 1e-12, "lens model shared with the point sources changed", **c)


def run_mix(case, mon, rng):
    w = World(rng)
    lens = C9.build(w.args)
    ps = w.build(lens)
    c = w.info()
    X, Y = check_all(mon, rng, w, ps, c)
    lens_same(mon, w, lens, rng, c)
    n = len(w.types)
    # additional images on request
    a, b = ps.image_position(copy.deepcopy(w.kps), copy.deepcopy(w.kw), additional_images=True)
    for i in range(n):
        check_positions(mon, "additional", w, i, a[i], b[i], c, more=True)
    a, b = ps.image_position(copy.deepcopy(w.kps), copy.deepcopy(w.kw))
    for i in range(n):
        mon.close("additional/after", np.array([a[i], b[i]]), np.array([X[i], Y[i]]), 1e-7, 1e-8, "positions after a search for additional images", model=i, **c)
    # original order
    i = next((i for i in range(n) if w.types[i] == "LENSED_POSITION"), None)
    if i is not None:
        a, b = ps.image_position(copy.deepcopy(w.kps), copy.deepcopy(w.kw), additional_images=True, original_position=True)
        s = w.source(i)
        u, v = C9.shoot(w.a(i), w.kw)(w.kps[i]["ra_image"], w.kps[i]["dec_image"])
        x0, y0 = np.array(w.kps[i]["ra_image"]), np.array(w.kps[i]["dec_image"])
        if np.max(np.hypot(u - s[0], v - s[1])) < 1e-8 and len(a[i]) >= len(x0) and C9.must(x0, y0, w.mag(i, x0, y0), H, W, *w.c, lo=.5, f=C9.shoot(w.a(i), w.kw)).all():
            mon.close("additional/order", np.array([a[i][:len(x0)], b[i][:len(x0)]]), np.array([x0, y0]), 0, 1e-4, "images not in the order of the given ones", model=i, **c)
    # consistency test
    ok = []
    for i in range(n):
        if w.types[i] != "UNLENSED" and len(X[i]):
            u, v = C9.shoot(w.a(i), w.kw)(X[i], Y[i])
            ok.append(float(np.max(np.hypot(u - u[0], v - v[0]))))
    if all(len(X[i]) for i in range(n) if w.types[i] != "UNLENSED"):
        for tol in (1e-3, 1e-1, 3.):
            if all(abs(o / tol - 1) > 1e-3 for o in ok):
                mon.check("consistent/tolerance", bool(ps.check_image_positions(copy.deepcopy(w.kps), copy.deepcopy(w.kw), tolerance=tol)) == all(o <= tol for o in ok), "check of the lens equation", spread=ok, tol=tol, **c)
    # amplitudes set
    al = [U(rng, 1, 4) if w.fixed[i] else np.array([U(rng, 1, 4) for _ in range(len(X[i]))]) for i in range(n)]
    k0 = copy.deepcopy(w.kps)
    k3 = ps.set_amplitudes(al, k0)
    same(mon, "inputs/set", k0, copy.deepcopy(w.kps), c)
    for i in range(n):
        f = "source_amp" if w.fixed[i] else "point_amp"
        want = al[i] if w.flux[i] else w.kps[i][f]
        mon.close("set/amp", np.asarray(k3[i][f], float), np.asarray(want, float), 0, 0, "amplitudes set", model=i, **c)
        mon.check("set/rest", repr({k: v for k, v in k3[i].items() if k != f}) == repr({k: v for k, v in w.kps[i].items() if k != f}), "other parameters changed", model=i, **c)
    lens_same(mon, w, lens, rng, c, "/end")
    mon.nontrivial(w.kind, tuple(w.types), tuple(w.fixed), tuple(w.add), w.limit is None, tuple(len(x) for x in X), w.z is None)


def run_history(case, mon, rng):
    """cached and uncached instances give the same, and after clearing the cache follow new parameters."""
    w = World(rng, flags=bool(rng.integers(2)))
    lens = C9.build(w.args)
    ps = w.build(lens, save_cache=bool(rng.integers(2)))
    ps.set_save_cache(True)
    c = w.info()
    X0 = None
    for r in range(3):
        for q in rng.permutation(4):
            kp, kw = copy.deepcopy(w.kps), copy.deepcopy(w.kw)
            if q == 0:
                X, Y = ps.image_position(kp, kw)
                for i in range(len(w.types)):
                    check_positions(mon, "cache", w, i, X[i], Y[i], c)
            elif q == 1:
                u, v = ps.source_position(kp, kw)
                for i in range(len(w.types)):
                    mon.close("cache/source", np.array([u[i], v[i]]), np.array(w.source(i)), 1e-9, 1e-10, "source position with cache", model=i, **c)
            elif q == 2:
                a, b = ps.image_position(kp, kw, additional_images=True)
                for i in range(len(w.types)):
                    check_positions(mon, "cache", w, i, a[i], b[i], c, more=True)
            else:
                X, Y = ps.image_position(kp, kw)
                amp = ps.image_amplitude(kp, kw)
                for i in range(len(w.types)):
                    want = amp_want(w, i, np.array(X[i]), np.array(Y[i])) * (1. if w.flux[i] else 0.)
                    if not np.any(np.abs(want) > 80):
                        mon.close("cache/amp", amp[i], want, 1e-4, 1e-6, "amplitudes with cache", model=i, **c)
        # new parameters, or a new lens model, after clearing the cache
        if rng.integers(2):
            for k in w.kw:
                if "theta_E" in k:
                    k["theta_E"] *= U(rng, .9, 1.1)
            w.kps = [w.make(rng, i) for i in range(len(w.types))] if w.z is not None else remake(w, rng)
            ps.delete_lens_model_cache()
        else:
            z = w.z
            w2 = World(rng, kind=w.kind, types=list(w.types))
            w.args, w.kw, w.c, w.opt, w.kps = w2.args, w2.kw, w2.c, w2.opt, w2.kps
            w.fixed, w.add, w.limit, w.z, w.flux = w2.fixed, w2.add, w2.limit, w2.z, w2.flux
            if rng.integers(2):
                ps = w.build(C9.build(w.args))
            else:
                ps = w.build(lens)       # built with the old lens, then updated
                ps.update_lens_model(C9.build(w.args))
            ps.set_save_cache(True)
        c = w.info()
    ps.set_save_cache(False)
    check_all(mon, rng, w, ps, c, "/history")
    mon.nontrivial("history", w.kind, tuple(w.types), tuple(w.fixed))


def remake(w, rng):
    w.z = [None] * len(w.types)
    out = [w.make(rng, i) for i in range(len(w.types))]
    w.z = None
    return out


def run_frames(case, mon, rng):
    """images assigned to frames with their own subset of lens components."""
    from lenstronomy.PointSource.point_source import PointSource
    args, kw, kind, ctr = C9.lens(rng, "group")
    nl = len(args["lens_model_list"])
    frames = [sorted(int(j) for j in rng.permutation(nl)[:int(rng.integers(1, nl + 1))]) for _ in range(int(rng.integers(1, 4)))]
    n = int(rng.integers(1, 3))
    types = ["LENSED_POSITION"] * n
    fixed = [bool(rng.integers(2)) for _ in range(n)]
    if rng.integers(2):
        types.insert(0, "UNLENSED")
        fixed.insert(0, False)
    kps, fl = [], []
    for t, f in zip(types, fixed):
        m = int(rng.integers(1, 5))
        k = dict(ra_image=np.array([ctr[0] + U(rng, -2, 2) for _ in range(m)]), dec_image=np.array([ctr[1] + U(rng, -2, 2) for _ in range(m)]))
        k["source_amp" if f else "point_amp"] = U(rng, 1, 3) if f else World.amps(rng, m)
        kps.append(k)
        fl.append(None if t == "UNLENSED" else [int(rng.integers(len(frames))) for _ in range(m)])
    c = dict(models=args["lens_model_list"], kw=kw, frames=frames, fl=fl, types=types, fixed=fixed, kps=kps)
    ps = PointSource(types, lens_model=C9.build(args), fixed_magnification_list=fixed, index_lens_model_list=frames, point_source_frame_list=fl)
    a = lambda: (copy.deepcopy(kps), copy.deepcopy(kw))
    X, Y = ps.image_position(*a())
    u, v = ps.source_position(*a())
    amp = ps.image_amplitude(*a())
    sa = ps.source_amplitude(*a())
    mu = {}
    for i, t in enumerate(types):
        k = kps[i]
        mon.close("frames/position", np.array([X[i], Y[i]]), np.array([k["ra_image"], k["dec_image"]]), 0, 0, "positions", **c)
        if t == "UNLENSED":
            mon.close("frames/unlensed", amp[i], k["point_amp"], 0, 0, "amplitudes", **c)
            continue
        b, mg = [], []
        for x, y, fr in zip(k["ra_image"], k["dec_image"], fl[i]):
            sub = dict(args, lens_model_list=[args["lens_model_list"][j] for j in frames[fr]])
            f = C9.shoot(sub, [kw[j] for j in frames[fr]])
            b.append(np.array(f(np.array([x]), np.array([y])))[:, 0])
            mg.append(abs(1 / np.linalg.det(IM.jac(f, x, y))))
        mg = np.array(mg)
        mon.close("frames/source", np.array([u[i], v[i]]), np.mean(b, axis=0), 1e-9, 1e-10, "source position from the frames' own lens components", model=i, **c)
        if np.max(mg) < 100:
            mon.close("frames/amp", amp[i], k["source_amp"] * mg if fixed[i] else k["point_amp"], 1e-4, 1e-6, "image amplitudes", model=i, **c)
            mon.close("frames/source_amp", sa[i], k["source_amp"] if fixed[i] else np.mean(k["point_amp"] / mg), 1e-4, 1e-6, "intrinsic amplitude", model=i, **c)
        mon.check("frames/k_list", ps.k_list(i) == [frames[j] for j in fl[i]], "list of lens components per image", **c)
    mon.nontrivial("frames", len(frames), tuple(len(f) for f in frames), tuple(types), tuple(fixed))


def run_width(case, mon, rng):
    """a larger search area finds images beyond the set window and leaves the setting as it was; window updates apply."""
    w = World(rng, kind=str(rng.choice(["shear", "single"])), types=["SOURCE_POSITION", "LENSED_POSITION"], flags=False)
    w.opt = dict(min_distance=H, search_window=1.2, x_center=w.c[0], y_center=w.c[1])
    ps = w.build()
    c = w.info()
    b = w.source(0)
    r, req = w.solve(0, *b)
    A = lambda: (copy.deepcopy(w.kps), copy.deepcopy(w.kw))
    X1, Y1 = ps.image_position(*A())
    X2, Y2 = ps.image_position(*A(), width_search_factor=W / 1.2)
    X2, Y2 = [X2[0]], [Y2[0]]
    for j in np.nonzero(req)[0]:
        d = np.min(np.hypot(X2[0] - r[0][j], Y2[0] - r[1][j])) if len(X2[0]) else np.inf
        mon.check("width/wide", d < 1e-5, "image inside the widened window missing", **c)
    X3, Y3 = ps.image_position(*A())
    mon.close("width/after", np.array([X3[0], Y3[0]]), np.array([X1[0], Y1[0]]), 0, 1e-7, "window after a wider search", **c)
    ps.update_search_window(W, w.c[0] + 40, w.c[1], only_from_unspecified=True)
    X4, Y4 = ps.image_position(*A())
    mon.close("width/unspecified", np.array([X4[0], Y4[0]]), np.array([X1[0], Y1[0]]), 0, 1e-7, "specified window overridden", **c)
    ps.update_search_window(W, w.c[0], w.c[1])
    X5, Y5 = ps.image_position(*A())
    for j in np.nonzero(req)[0]:
        d = np.min(np.hypot(X5[0] - r[0][j], Y5[0] - r[1][j])) if len(X5[0]) else np.inf
        mon.check("width/updated", d < 1e-5, "image inside the updated window missing", **c)
    mon.nontrivial("width", w.args["lens_model_list"][0], len(X1[0]), len(X5[0]))

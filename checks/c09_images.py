"""C09: the lens-equation solver against an independent triangulated image finder."""
import copy, warnings
import numpy as np
import images as IM
import lenscat as LC
from lenscat import U

RULE = ("one signature per (solver, lens set-up, number of true images, options used); random lenses and sources, the returned positions compared with "
        "those of an independent triangulation of the image plane, the order with independently evaluated arrival times, the lens model with a fresh one afterwards")
ASSUMPTIONS = ["completeness is demanded only of images of |magnification| between 0.3 and 8 that are separated by more than 8 search-grid cells from every other image, lie where the lens mapping is close to linear over two cells, and lie at least 3 cells inside the window",
               "the stochastic solver is checked for truth, duplicates and order, not for completeness"]
REQUIRED = ["check:truth", "check:complete", "check:duplicate", "check:order", "check:maglimit", "check:bright", "check:state", "check:inputs", "check:variants", "check:empty"]
TIMEOUT = 200


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for kind, n in (("grid", 110 if q else 900), ("analytic", 60 if q else 500), ("stochastic", 8 if q else 60), ("nonlinear", 16 if q else 100), ("degenerate", 6 if q else 40), ("empty", 12 if q else 60), ("bright", 16 if q else 120)):
        out += [dict(name="%s/%d" % (kind, i), kind=kind, group=kind) for i in range(n)]
    return out


def run(case, mon, rng):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.random.seed(int(rng.integers(2 ** 31)))
        globals()["run_" + case["kind"]](case, mon, rng)


def main(rng, m, cx, cy):
    e1, e2 = LC.ell(rng, .25)
    c = dict(center_x=cx, center_y=cy)
    th = U(rng, .7, 1.5)
    return dict(SIS=dict(theta_E=th, **c), SIE=dict(theta_E=th, e1=e1, e2=e2, **c), EPL=dict(theta_E=th, gamma=U(rng, 1.7, 2.3), e1=e1, e2=e2, **c),
                EPL_NUMBA=dict(theta_E=th, gamma=U(rng, 1.7, 2.3), e1=e1, e2=e2, **c), NIE=dict(theta_E=th, e1=e1, e2=e2, s_scale=U(rng, .05, .2), **c),
                SPEP=dict(theta_E=th, gamma=U(rng, 1.8, 2.2), e1=e1 / 2, e2=e2 / 2, **c), SPP=dict(theta_E=th, gamma=U(rng, 1.7, 2.3), **c),
                NFW=dict(Rs=U(rng, 3, 8), alpha_Rs=U(rng, 1.5, 3.), **c), PJAFFE=dict(sigma0=U(rng, .8, 2), Ra=.1, Rs=3., **c), POINT_MASS=dict(theta_E=th, **c))[m]


def lens(rng, kind=None):
    """(constructor arguments, kwargs, description)"""
    kind = kind or str(rng.choice(["single", "shear", "group", "scaled", "planes", "planes", "los"]))
    cx, cy = (0., 0.) if rng.integers(3) == 0 else (U(rng, -.5, .5), U(rng, -.5, .5))
    ms = [str(rng.choice(["SIS", "SIE", "EPL", "EPL_NUMBA", "NIE", "SPEP", "SPP", "NFW", "PJAFFE", "POINT_MASS"]))]
    kw = [main(rng, ms[0], cx, cy)]
    args = {}
    if kind != "single":
        ms.append("SHEAR")
        g, p = U(rng, .01, .12), U(rng, 0, 7)
        kw.append(dict(gamma1=g * np.cos(p), gamma2=g * np.sin(p), ra_0=U(rng, -.5, .5), dec_0=U(rng, -.5, .5)))
    if kind in ("group", "planes"):
        for _ in range(int(rng.integers(1, 3))):
            ms.append(str(rng.choice(["SIS", "SIE"])))
            k = main(rng, ms[-1], cx + U(rng, -2, 2), cy + U(rng, -2, 2))
            k["theta_E"] = U(rng, .1, .4)
            kw.append(k)
    if kind == "scaled":
        args = dict(z_source=float(rng.choice([.8, 1.2, 3.])), z_source_convention=1.7, z_lens=.5)
    if kind == "planes":
        args = dict(multi_plane=True, z_source=1.9, lens_redshift_list=[.5, .5] + [float(rng.choice([.2, .5, .9, 1.2])) for _ in ms[2:]])
        if rng.integers(3) == 0:
            args.update(z_source=1.5, z_source_convention=2.5)
    if kind == "los":
        from lenstronomy.LensModel.lens_model import LensModel
        ms.append("LOS")
        kw.append({k: U(rng, -.04, .04) for k in ("kappa_od", "gamma1_od", "gamma2_od", "omega_od", "kappa_os", "gamma1_os", "gamma2_os", "omega_os", "kappa_ds", "gamma1_ds", "gamma2_ds", "omega_ds")})
    args["lens_model_list"] = ms
    return args, kw, kind, (cx, cy)


def build(args):
    from lenstronomy.LensModel.lens_model import LensModel
    a = copy.deepcopy(args)
    return LensModel(**a)


def shoot(args, kw):
    m = build(args)
    k = copy.deepcopy(kw)
    return lambda x, y: m.ray_shooting(np.asarray(x, float), np.asarray(y, float), k)


def arrival(args, kw, x, y):
    m = build(args)
    if args.get("multi_plane"):
        return m.arrival_time(np.asarray(x), np.asarray(y), copy.deepcopy(kw))
    return m.fermat_potential(np.asarray(x), np.asarray(y), copy.deepcopy(kw))


def source(rng, args, kw, c):
    """a source position, near the optical axis or as the source of a random image"""
    f = shoot(args, kw)
    r, p = U(rng, .9, 2.) if rng.integers(2) else U(rng, .02, .5), U(rng, 0, 7)
    if rng.integers(2):
        b = np.array(f(np.array([c[0] + r * np.cos(p)]), np.array([c[1] + r * np.sin(p)])))[:, 0]
        if np.all(np.isfinite(b)) and np.hypot(*(b - c)) < 1.5:
            return float(b[0]), float(b[1])
    b0 = np.mean(np.array(f(c[0] + .5 * np.cos(np.arange(8) * np.pi / 4), c[1] + .5 * np.sin(np.arange(8) * np.pi / 4))), axis=1)
    r = U(rng, .02, .5)
    return float(b0[0] + r * np.cos(p)), float(b0[1] + r * np.sin(p))


def smooth(f, x, y, h):
    """the map is close to linear within three search cells around the image"""
    J = np.linalg.inv(IM.jac(f, x, y))
    return all(np.abs(J @ IM.jac(f, x + u * h, y + v * h) - np.eye(2)).max() < .4 for u, v in ((3, 0), (-3, 0), (0, 3), (0, -3)))


def must(x, y, mu, h, window, wx, wy, lo=.3, hi=8, f=None):
    """mask of images the grid search has to find"""
    if f is not None:
        m = must(x, y, mu, h, window, wx, wy, lo, hi)
        return np.array([bool(a) and smooth(f, u, v, h) for a, u, v in zip(m, x, y)], bool)
    n = len(x)
    d = np.hypot(x[:, None] - x[None], y[:, None] - y[None]) + np.eye(n) * 9e9
    ok = (np.abs(mu) > lo) & (np.abs(mu) < hi) & (np.min(d, axis=1) > 8 * h if n > 1 else np.ones(n, bool))
    return ok & (np.abs(x - wx) < window / 2 - 3 * h) & (np.abs(y - wy) < window / 2 - 3 * h)


def truth(mon, tag, args, kw, bx, by, X, Y, prec, c):
    ok = isinstance(X, np.ndarray) or isinstance(X, list)
    X, Y = np.asarray(X, float), np.asarray(Y, float)
    mon.check("truth/shape/" + tag, ok and X.shape == Y.shape and X.ndim == 1, "%s: positions are not two equally long lists" % tag, **c)
    if len(X):
        u, v = shoot(args, kw)(X, Y)
        d = np.hypot(u - bx, v - by)
        # at a singular centre the map is discontinuous at rounding level: no statement there
        d[np.array([not abs(np.linalg.det(IM.jac(shoot(args, kw), a, b))) < 1e4 for a, b in zip(X, Y)])] = 0
        mon.check("truth/" + tag, bool(np.all(d <= prec)), "%s: a returned image maps %.3g away from the source (allowed %.3g)" % (tag, float(np.nanmax(d)), prec), **c)
    return X, Y


def compare(mon, tag, args, kw, bx, by, X, Y, ref, c, h, req, prec, dup):
    X, Y = truth(mon, tag, args, kw, bx, by, X, Y, prec, c)
    x, y, mu = ref
    for i in np.nonzero(req)[0]:
        d = np.min(np.hypot(X - x[i], Y - y[i])) if len(X) else np.inf
        mon.check("complete/" + tag, d < 1e-5, "%s: image (%.4f, %.4f) of magnification %.3f not found" % (tag, x[i], y[i], mu[i]), **c)
    for i in range(len(X)):
        for j in range(i):
            mon.check("duplicate/" + tag, np.hypot(X[i] - X[j], Y[i] - Y[j]) >= dup, "%s: an image is listed twice (separation %.2g)" % (tag, np.hypot(X[i] - X[j], Y[i] - Y[j])), **c)
    return X, Y


def order(mon, tag, args, kw, X, Y, c):
    if len(X) > 1:
        t = arrival(args, kw, X, Y)
        mon.check("order/" + tag, bool(np.all(np.diff(t) >= -1e-9 * np.max(np.abs(t)))), "%s: images not ordered by arrival time" % tag, **c)


def state(mon, tag, rng, model, args, kw, c):
    """the model behaves like a fresh one, with other parameters"""
    k2 = copy.deepcopy(kw)
    for d in k2:
        for p in ("theta_E", "alpha_Rs", "gamma1", "sigma0", "kappa_os"):
            if p in d:
                d[p] = d[p] * 1.21 + .01
    px, py = np.array([U(rng, -2, 2) for _ in range(3)]), np.array([U(rng, -2, 2) for _ in range(3)])
    f = build(args)
    mon.close("state/alpha/" + tag, np.array(model.ray_shooting(px, py, k2)), np.array(f.ray_shooting(px, py, k2)), 1e-12, 1e-13, "lens model no longer follows its parameters after the search", **c)
    mon.close("state/hessian/" + tag, np.array(model.hessian(px, py, k2)), np.array(f.hessian(px, py, k2)), 1e-10, 1e-11, "Hessian after the search", **c)


def solver(model):
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
    return LensEquationSolver(model)


def setup(case, rng, kind=None):
    args, kw, kind, ctr = lens(rng, kind)
    bx, by = source(rng, args, kw, ctr)
    h = float(rng.choice([.02, .03, .05]))
    window = float(rng.choice([5., 6., 8.]))
    wx, wy = (0., 0.) if rng.integers(2) else (ctr[0] + U(rng, -.4, .4), ctr[1] + U(rng, -.4, .4))
    ref = IM.find(shoot(args, kw), bx, by, window * 1.4, wx, wy, n=300)
    return args, kw, kind, ctr, bx, by, h, window, wx, wy, ref


def run_grid(case, mon, rng):
    args, kw, kind, ctr, bx, by, h, window, wx, wy, ref = setup(case, rng)
    c = dict(models=args["lens_model_list"], kind=kind, kw=kw, source=(bx, by), h=h, window=window, centre=(wx, wy))
    model = build(args)
    S = solver(model)
    kw0 = copy.deepcopy(kw)
    req = must(*ref, h, window, wx, wy, f=shoot(args, kw))
    opt = dict(min_distance=h, search_window=window, x_center=wx, y_center=wy)
    X, Y = S.image_position_from_source(bx, by, kw, **opt)
    X, Y = compare(mon, "grid", args, kw, bx, by, X, Y, ref, c, h, req, 1.0001e-10, h * .999)
    order(mon, "grid", args, kw, X, Y, c)
    mon.check("inputs/grid", repr(kw) == repr(kw0), "lens parameters altered by the search", **c)
    state(mon, "grid", rng, model, args, kw, c)
    mon.nontrivial("grid", kind, args["lens_model_list"][0], len(X), int(np.sum(req)))
    # options
    prec = float(10. ** rng.integers(-11, -4))
    o = dict(opt, precision_limit=prec, num_iter_max=int(rng.choice([60, 200])), arrival_time_sort=bool(rng.integers(2)), initial_guess_cut=bool(rng.integers(2)), num_random=int(rng.choice([0, 0, 5])))
    X2, Y2 = S.image_position_lenstronomy(bx, by, kw, **o)
    X2, Y2 = compare(mon, "options", args, kw, bx, by, X2, Y2, ref, dict(c, opt=o), h, req if prec <= 1e-8 else np.zeros(len(req), bool), prec * 1.0001, h * .999)
    if o["arrival_time_sort"]:
        order(mon, "options", args, kw, X2, Y2, c)
    # magnification limit
    if len(X):
        mag = np.abs(build(args).magnification(X, Y, copy.deepcopy(kw)))
        lim = float(np.exp(rng.uniform(np.log(.2), np.log(max(1.2 * np.max(mag), .3)))))
        if np.min(np.abs(mag / lim - 1)) > 1e-3:
            X3, Y3 = S.image_position_from_source(bx, by, kw, solver="lenstronomy", magnification_limit=lim, **opt)
            X3, Y3 = truth(mon, "maglimit", args, kw, bx, by, X3, Y3, 1.0001e-10, c)
            m3 = np.abs(build(args).magnification(X3, Y3, copy.deepcopy(kw))) if len(X3) else np.zeros(0)
            mon.check("maglimit/above", bool(np.all(m3 >= lim)), "an image below the magnification limit is returned", lim=lim, **c)
            r2 = req & (np.abs(ref[2]) > lim * 1.001)
            for i in np.nonzero(r2)[0]:
                d = np.min(np.hypot(X3 - ref[0][i], Y3 - ref[1][i])) if len(X3) else np.inf
                mon.check("maglimit/complete", d < 1e-5, "an image above the magnification limit is missing", lim=lim, mu=float(ref[2][i]), **c)
            order(mon, "maglimit", args, kw, X3, Y3, c)
            state(mon, "maglimit", rng, model, args, kw, c)
    # a changed source redshift changes the images accordingly
    if kind in ("scaled", "planes") and "z_source_convention" in args:
        z2 = float(rng.choice([1.1, 1.4]))
        S.change_source_redshift(z2)
        a2 = dict(args, z_source=z2)
        rf = IM.find(shoot(a2, kw), bx, by, window * 1.4, wx, wy, n=300)
        X4, Y4 = S.image_position_from_source(bx, by, kw, **opt)
        compare(mon, "redshift", a2, kw, bx, by, X4, Y4, rf, dict(c, z=z2), h, must(*rf, h, window, wx, wy, f=shoot(a2, kw)), 1.0001e-10, h * .999)


def run_nonlinear(case, mon, rng):
    args, kw, kind, ctr, bx, by, h, window, wx, wy, ref = setup(case, rng, str(rng.choice(["single", "shear", "planes"])))
    c = dict(models=args["lens_model_list"], kind=kind, kw=kw, source=(bx, by), h=h, window=window, centre=(wx, wy))
    model = build(args)
    prec = float(rng.choice([1e-7, 1e-8]))
    X, Y = solver(model).image_position_from_source(bx, by, kw, min_distance=h, search_window=window, x_center=wx, y_center=wy, non_linear=True, precision_limit=prec)
    X, Y = compare(mon, "nonlinear", args, kw, bx, by, X, Y, ref, c, h, np.zeros(len(ref[0]), bool), prec * 1.0001, h * .999)
    order(mon, "nonlinear", args, kw, X, Y, c)
    state(mon, "nonlinear", rng, model, args, kw, c)
    mon.nontrivial("nonlinear", kind, args["lens_model_list"][0], len(X))


def run_stochastic(case, mon, rng):
    args, kw, kind, ctr, bx, by, h, window, wx, wy, ref = setup(case, rng, str(rng.choice(["single", "shear"])))
    c = dict(models=args["lens_model_list"], kind=kind, kw=kw, source=(bx, by), window=window, centre=(wx, wy))
    model = build(args)
    kw0 = copy.deepcopy(kw)
    prec = float(rng.choice([1e-3, 1e-5, 1e-8]))
    X, Y = solver(model).image_position_from_source(bx, by, kw, solver="stochastic", search_window=window, x_center=wx, y_center=wy, precision_limit=prec, num_random=40)
    X, Y = truth(mon, "stochastic", args, kw, bx, by, X, Y, prec * 1.0001, c)
    order(mon, "stochastic", args, kw, X, Y, c)
    mon.check("inputs/stochastic", repr(kw) == repr(kw0), "lens parameters altered by the search", **c)
    state(mon, "stochastic", rng, model, args, kw, c)
    mon.nontrivial("stochastic", kind, args["lens_model_list"][0], len(X))


def run_analytic(case, mon, rng):
    from lenstronomy.LensModel.Solver.lens_equation_solver import analytical_lens_model_support
    i = int(case["name"].split("/")[1])
    ms = [["SIS", "SHEAR"], ["SIE", "SHEAR"], ["SIE"], ["EPL_NUMBA", "SHEAR"], ["EPL_NUMBA"], ["EPL", "SHEAR"], ["EPL"]][i % 7]
    cx, cy = (0., 0.) if rng.integers(3) == 0 else (U(rng, -.5, .5), U(rng, -.5, .5))
    kw = [main(rng, ms[0], cx, cy)]
    if "gamma" in kw[0]:
        kw[0]["gamma"] = float(rng.choice([2., U(rng, 1.4, 2.6)]))
    if len(ms) > 1:
        round_ = not np.hypot(kw[0].get("e1", 0), kw[0].get("e2", 0))
        g, p = float(rng.choice([0., U(rng, .001, .15)])), U(rng, 0, 7)
        if round_:
            g = U(rng, .02, .15)
        kw.append(dict(gamma1=g * np.cos(p), gamma2=g * np.sin(p)))
        if rng.integers(2):
            kw[-1].update(ra_0=U(rng, -.5, .5), dec_0=U(rng, -.5, .5))
    elif not np.hypot(kw[0]["e1"], kw[0]["e2"]):
        kw[0]["e1"] = .05
    if kw[0]["center_x"] == 0 and kw[0]["center_y"] == 0 and rng.integers(2):
        del kw[0]["center_x"], kw[0]["center_y"]
    ms = list(ms)
    if rng.integers(2):
        j = int(rng.integers(0, len(ms) + 1))
        ms.insert(j, "CONVERGENCE")
        kw.insert(j, dict(kappa=U(rng, -.2, .3)))
        if rng.integers(2):
            kw[j].update(ra_0=U(rng, -.5, .5), dec_0=U(rng, -.5, .5))
    args = dict(lens_model_list=ms)
    if rng.integers(3) == 0:
        args.update(z_source=float(rng.choice([.9, 1.2, 3.])), z_source_convention=1.7, z_lens=.5)
    mon.check("variants/support", analytical_lens_model_support(ms) is True, "supported model list reported as unsupported", models=ms)
    bx, by = source(rng, args, kw, (cx, cy))
    ref = IM.find(shoot(args, kw), bx, by, 9., cx, cy, n=500)
    c = dict(models=ms, kw=kw, source=(bx, by), z=args.get("z_source"))
    model = build(args)
    kw0 = copy.deepcopy(kw)
    S = solver(model)
    X, Y = S.image_position_from_source(bx, by, kw, solver="analytical")
    req = (np.abs(ref[2]) > .05) & (np.abs(ref[2]) < 300)
    X, Y = compare(mon, "analytic", args, kw, bx, by, X, Y, ref, c, 0, req, 2e-7, 1e-7)
    order(mon, "analytic", args, kw, X, Y, c)
    mon.check("inputs/analytic", repr(kw) == repr(kw0), "lens parameters altered by the search", **c)
    if len(X):
        mag = np.abs(build(args).magnification(X, Y, copy.deepcopy(kw)))
        lim = float(np.exp(rng.uniform(np.log(.2), np.log(max(1.2 * np.max(mag), .3)))))
        X3, Y3 = S.image_position_analytical(bx, by, kw, magnification_limit=lim, arrival_time_sort=bool(rng.integers(2)))
        want = sorted((x, y) for x, y, m in zip(X, Y, mag) if m >= lim)
        if np.min(np.abs(mag / lim - 1)) > 1e-3:
            mon.close("maglimit/analytic", np.array(sorted(zip(X3, Y3))).ravel(), np.array(want).ravel(), 0, 1e-7, "images above the magnification limit", lim=lim, **c)
    state(mon, "analytic", rng, model, args, kw, c)
    # the grid search finds the same bright images
    h, window = .04, 7.
    Xg, Yg = S.image_position_from_source(bx, by, kw, solver="lenstronomy", min_distance=h, search_window=window, x_center=cx, y_center=cy)
    r = must(*ref, h, window, cx, cy)
    for i in np.nonzero(r)[0]:
        for tag, A, B in (("analytic", X, Y), ("grid", np.asarray(Xg), np.asarray(Yg))):
            d = np.min(np.hypot(A - ref[0][i], B - ref[1][i])) if len(A) else np.inf
            mon.check("variants/" + tag, d < 1e-5, "image of magnification %.3f found by one solver only" % ref[2][i], **c)
    mon.nontrivial("analytic", tuple(ms), len(X), "z_source" in args)


def run_empty(case, mon, rng):
    """a window without images: nothing is returned and the lens model stays usable"""
    args, kw, kind, ctr = lens(rng, str(rng.choice(["single", "shear", "planes", "scaled"])))
    model = build(args)
    S = solver(model)
    c = dict(models=args["lens_model_list"], kind=kind, kw=kw)
    far = float(rng.choice([-1, 1])) * 60
    for o in (dict(min_distance=.1, search_window=1.), dict(min_distance=.3, search_window=.9), dict(min_distance=.1, search_window=1., initial_guess_cut=False)):
        X, Y = S.image_position_from_source(far, 3., kw, x_center=ctr[0], y_center=ctr[1], **o)
        truth(mon, "empty", args, kw, far, 3., X, Y, 1.0001e-10, c)
        if args["lens_model_list"][0] in ("NIE", "NFW", "PJAFFE", "SIS"):
            mon.check("empty/none", len(X) == 0 and len(Y) == 0, "images reported where there are none", got=(list(X), list(Y)), **c)
        state(mon, "empty", rng, model, args, kw, c)
    mon.nontrivial("empty", kind, args["lens_model_list"][0])


def run_bright(case, mon, rng):
    args, kw, kind, ctr, bx, by, h, window, wx, wy, ref = setup(case, rng)
    n = int(rng.integers(1, 5))
    model = build(args)
    sort = bool(rng.integers(2))
    c = dict(models=args["lens_model_list"], kind=kind, kw=kw, source=(bx, by), h=h, window=window, n=n)
    S = solver(model)
    seed = int(rng.integers(2 ** 31))
    np.random.seed(seed)
    X, Y = S.find_bright_image(bx, by, kw, numImages=n, min_distance=h, search_window=window, x_center=wx, y_center=wy, num_iter_max=100, arrival_time_sort=sort)
    X, Y = truth(mon, "bright", args, kw, bx, by, X, Y, 1.0001e-10, c)
    np.random.seed(seed)
    Xa, Ya = S.image_position_from_source(bx, by, kw, min_distance=h, search_window=window, x_center=wx, y_center=wy)
    mag = np.abs(build(args).magnification(np.asarray(Xa), np.asarray(Ya), copy.deepcopy(kw))) if len(Xa) else np.zeros(0)
    k = np.argsort(mag)[::-1]
    mon.check("bright/count", len(X) == min(n, len(Xa)), "number of brightest images", got=len(X), want=min(n, len(Xa)), **c)
    amb = len(mag) > n and mag[k[n]] > .999 * mag[k[n - 1]]
    if len(X) == min(n, len(Xa)) and len(X) and not amb and np.max(mag) < 300:
        want = np.array(sorted((np.asarray(Xa)[j], np.asarray(Ya)[j]) for j in k[:n]))
        mon.close("bright/which", np.array(sorted(zip(X, Y))), want, 0, 1e-6, "the brightest images", **c)
    if sort:
        order(mon, "bright", args, kw, X, Y, c)
    state(mon, "bright", rng, model, args, kw, c)
    mon.nontrivial("bright", kind, n, len(Xa), sort)


def run_degenerate(case, mon, rng):
    """source on a symmetry axis of the lens, or a round lens: the analytical solver"""
    i = int(case["name"].split("/")[1])
    t = ["round", "axis"][i % 2]
    kw = [dict(theta_E=U(rng, .8, 1.3), gamma=float(rng.choice([2., U(rng, 1.7, 2.3)])), e1=0. if t == "round" else .1, e2=0., center_x=0., center_y=0.)]
    args = dict(lens_model_list=["EPL"])
    r, p = U(rng, .1, .3), U(rng, 0, 7) if t == "round" else float(rng.choice([0., np.pi / 2]))
    bx, by = r * np.cos(p), r * np.sin(p)
    ref = IM.find(shoot(args, kw), bx, by, 6., 0., 0., n=400)
    X, Y = solver(build(args)).image_position_analytical(bx, by, kw)
    c = dict(kw=kw, source=(bx, by))
    X, Y = truth(mon, "degenerate", args, kw, bx, by, X, Y, 2e-7, c)
    for x, y, m in zip(*ref):
        if abs(m) > .1:
            d = np.min(np.hypot(X - x, Y - y)) if len(X) else np.inf
            mon.check("degenerate/" + t, d < 1e-5, "analytical solver: image (%.4f, %.4f) of magnification %.3f not found" % (x, y, m), **c)
    mon.nontrivial("degenerate", t, len(ref[0]))

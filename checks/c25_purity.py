"""C25: queries never alter their inputs and are repeatable (random histories of queries on one object against the same query on a fresh one)."""
import copy, warnings, io, contextlib
import numpy as np
from lenscat import U, LU, ell
import lenscat as LC
import lightcat as GC
import scene as S

RULE = ("one signature per (kind of object, query) executed in a history; arguments and configuration are deep-compared before/after every call, the result is compared with the same query on a fresh object")
ASSUMPTIONS = ["the documented write-back is: linear solves, update_linear, set_amplitudes write amplitudes; cube2args (copy=False) works in place; add_layer2image helpers may not",
               "numpy's global random state is set before each query (stochastic queries)"]
REQUIRED = ["check:input", "check:config", "check:repeat"]
TIMEOUT = 240
KINDS = dict(lens=3, lensmix=30, ext=6, solver=9, light=2, lightmix=20, ps=10, image=40, bands=15, param=30, like=15, cosmo=12, kin=16, td=6, sim=25, prof=10, data=25, util=25)


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for k, n in KINDS.items():
        if k == "lens":
            for nm in LC.names():
                for i in range(1 if q else 12):
                    out.append(dict(name="lens/%s/%d" % (nm, i), kind=k, model=nm, i=i, group="lens"))
        elif k == "light":
            for nm in GC.names():
                for i in range(1 if q else 12):
                    out.append(dict(name="light/%s/%d" % (nm, i), kind=k, model=nm, i=i, group="light"))
        else:
            out += [dict(name="%s/%d" % (k, i), kind=k, i=i, group=k, cost=6 if k in ("kin", "td", "prof") else 2) for i in range(n if q else 12 * n)]
    return out


def run(case, mon, rng):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        globals()["t_" + case["kind"]](case, mon, rng)


def freeze(o, depth=0):
    """deep copy of the plain data in o (objects by identity)"""
    if isinstance(o, np.ndarray):
        return ("a", o.dtype.str, o.copy()) if o.dtype != object else ("l", [freeze(v, depth + 1) for v in o.ravel()])
    if isinstance(o, dict):
        return ("d", [(k, freeze(v, depth + 1)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return ("l", [freeze(v, depth + 1) for v in o])
    if o is None or isinstance(o, (str, bool, int, float, complex, np.generic)):
        return ("v", o)
    return ("o", id(o))


def equal(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "a":
        return a[1] == b[1] and a[2].shape == b[2].shape and bool(np.array_equal(a[2], b[2], equal_nan=a[2].dtype.kind in "fc"))
    if a[0] == "d":
        if len(a[1]) != len(b[1]):
            return False
        d = dict(b[1])
        return all(k in d and equal(v, d[k]) for k, v in a[1])
    if a[0] == "l":
        return len(a[1]) == len(b[1]) and all(equal(x, y) for x, y in zip(a[1], b[1]))
    if a[0] == "v":
        x, y = a[1], b[1]
        return (x is y) or (type(x) is type(y) and (x == y or (x != x and y != y)))
    return a[1] == b[1]


def agree(a, b, tol=1e-10):
    """results equal up to rounding"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(agree(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(agree(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return (a is None) == (b is None) and bool(np.all(a == b))
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype == object or y.dtype == object:
            return len(a) == len(b) and all(agree(p, q, tol) for p, q in zip(a, b)) if np.ndim(a) else True
        if x.shape != y.shape:
            return False
        if x.dtype.kind not in "fciub":
            return bool(np.all(x == y))
        x, y = x.astype(complex), y.astype(complex)
    except (TypeError, ValueError):
        return True
    sc = np.abs(y)
    f = np.isfinite(sc)
    m = np.max(sc[f]) if np.any(f) else 0.
    return bool(np.all((x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= tol * (sc + 1e-3 * m) + 1e-300)))


def history(mon, rng, tag, build, queries, cfg=None, n=None, tol=1e-10, pre=None):
    """build(): a fresh object from the caller's configuration cfg; queries: list of (label, f(obj, *args), args, writes)"""
    s = int(rng.integers(2 ** 31))
    snap = freeze(cfg)
    ref = {}
    use = []
    for q in queries:
        o = build()
        args = copy.deepcopy(q[2])
        np.random.seed(s)
        try:
            ref[q[0]] = copy.deepcopy(q[1](o, *args))
        except Exception as e:      # not supported for this configuration; must then not succeed later either - not judged
            mon.event("unsupported:" + tag + ":" + q[0] + ":" + type(e).__name__)
            continue
        use.append(q)
    mon.check("config/build/" + tag, equal(snap, freeze(cfg)), "building or querying objects alters the configuration of the caller", target=tag)
    if not use:
        return
    o = build()
    seq = list(rng.permutation(len(use))) + [int(rng.integers(len(use))) for _ in range(n or len(use))]
    seen = []
    for j in seq:
        label, f, a0, writes = use[j]
        args = copy.deepcopy(a0)
        before = freeze(args)
        np.random.seed(s)
        got = f(o, *args)
        if not writes:
            mon.check("input/%s/%s" % (tag, label), equal(before, freeze(args)), "a query alters its arguments", target=tag, query=label, args=a0, after=args)
        good = agree(got, ref[label], tol)
        mon.check("repeat/%s/%s" % (tag, label), good, "a query depends on what was asked before", target=tag, query=label, history=seen[-8:], got=got if not good else 0, want=ref[label] if not good else 0)
        mon.nontrivial(tag, label)
        seen.append(label)
        if not good:
            return
    mon.check("config/history/" + tag, equal(snap, freeze(cfg)), "a query alters the configuration of the caller", target=tag, history=seen)


def positions(rng, n=6):
    k = rng.integers(4)
    if k == 0:
        return U(rng, -2, 2), U(rng, -2, 2)
    if k == 1:
        return rng.uniform(-2, 2, (2, 3)), rng.uniform(-2, 2, (2, 3))
    if k == 2:
        return rng.integers(-2, 3, n) * 2 + 1, rng.integers(-2, 3, n)
    return rng.uniform(-2, 2, n), rng.uniform(-2, 2, n)


# ---------------------------------------------------------------- lens models
def lens_queries(rng, kw, ks=None, heavy=False, z=False):
    q = []
    for lab in ("ray_shooting", "potential", "alpha", "hessian", "kappa", "gamma", "curl", "magnification"):
        x, y = positions(rng)
        q.append((lab, (lambda l: lambda o, x, y, k: getattr(o, l)(x, y, k))(lab), (x, y, kw), False))
    x, y = rng.uniform(-2, 2, 4), rng.uniform(-2, 2, 4)
    q.append(("hessian_diff", lambda o, x, y, k: o.hessian(x, y, k, diff=1e-4), (x, y, kw), False))
    q.append(("hessian_cross", lambda o, x, y, k: o.hessian(x, y, k, diff=1e-4, diff_method="cross"), (x, y, kw), False))
    q.append(("flexion", lambda o, x, y, k: o.flexion(x, y, k, diff=1e-3), (x, y, kw), False))
    q.append(("alpha_diff", lambda o, x, y, k: o.alpha(x, y, k, diff=1e-4), (x, y, kw), False))
    q.append(("fermat", lambda o, x, y, k: o.fermat_potential(x, y, k), (x, y, kw), False))
    q.append(("fermat_src", lambda o, x, y, k, sx, sy: o.fermat_potential(x, y, k, sx, sy), (x, y, kw, .1, .05), False))
    if z:
        q.append(("arrival", lambda o, x, y, k: o.arrival_time(x, y, k), (x, y, kw), False))
        q.append(("arrival_src", lambda o, x, y, k: o.arrival_time(x, y, k, .05, .1, .02), (x, y, kw), False))
    if len(kw) > 1:
        for sel in (0, [0], (0, len(kw) - 1), [True] + [False] * (len(kw) - 1)):
            q.append(("alpha_k%s" % type(sel).__name__, lambda o, x, y, k, s: o.alpha(x, y, k, k=s), (x, y, kw, sel), False))
            q.append(("kappa_k%s" % type(sel).__name__, lambda o, x, y, k, s: o.kappa(x, y, k, k=s), (x, y, kw, sel), False))
    return q


def t_lens(case, mon, rng):
    m = case["model"]
    for init in LC.init_variants(m):
        kw = [LC.params(m, rng), LC.params(m, rng)]
        cfg = dict(init=copy.deepcopy(init))
        from lenstronomy.LensModel.lens_model import LensModel
        cfg = dict(lens_model_list=[m], profile_kwargs_list=[copy.deepcopy(init or {})], z_lens=.5, z_source=1.5)
        slow = m in ("GNFW", "GNFW_ELLIPSE_GAUSS_DEC", "GreenBoschNFW", "ARC_PERT", "SERSIC_ELLIPSE_KAPPA")
        q = lens_queries(rng, [kw[0]])[:4 if slow else 8 if case["i"] % 2 else None]
        q += [(l + "_other", f, a, w) for l, f, a, w in lens_queries(rng, [kw[1]])[:3 if slow else 6]]
        if m in ("TNFWC",):
            q = [a for a in q if "potential" not in a[0] and "fermat" not in a[0]]
        x3 = np.abs(rng.uniform(.2, 2, 4))
        ok3 = {k: v for k, v in kw[0].items() if k not in ("center_x", "center_y", "e1", "e2")}
        for l in ("mass_3d", "density", "mass_2d"):
            q.append((l, (lambda l: lambda o, r, k: getattr(o.func_list[0], l)(r, **k) if hasattr(o.func_list[0], l) else 0)(l), (x3, ok3), False))
        history(mon, rng, m, lambda: LensModel(**cfg), q, cfg, n=2 if slow else 8, tol=1e-9)


def lens_cfg(rng):
    """a mixed deflector configuration"""
    n = int(rng.integers(1, 4))
    pool = ["SIE", "SHEAR", "EPL", "NFW", "SIS", "CONVERGENCE", "PJAFFE", "GAUSSIAN", "TNFW", "MULTIPOLE", "CURVED_ARC_SPP", "HERNQUIST", "CHAMELEON", "SERSIC", "INTERPOL", "SHAPELETS_CART"]
    ms = [str(rng.choice([p for p in pool if p in LC.names()])) for _ in range(n)]
    kw = [LC.params(m, rng) for m in ms]
    kw2 = [LC.params(m, rng) for m in ms]
    return ms, kw, kw2


def t_lensmix(case, mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    from astropy.cosmology import FlatLambdaCDM
    ms, kw, kw2 = lens_cfg(rng)
    mode = ["single", "multi", "multi", "zconv", "interp", "obs", "decoupled", "los"][case["i"] % 8]
    cosmo = FlatLambdaCDM(H0=70, Om0=.3)
    zl = [float(rng.choice([.3, .5, .9])) for _ in ms]
    cfg = dict(lens_model_list=ms, profile_kwargs_list=[(LC.init_variants(m) or [{}])[0] or {} for m in ms])
    if mode == "single":
        cfg.update(z_lens=.5, z_source=1.5, cosmo=cosmo)
    elif mode == "zconv":
        cfg.update(z_lens=.5, z_source=1.2, z_source_convention=3., cosmo=cosmo, lens_redshift_list=[.5] * len(ms))
    elif mode == "los":
        cfg["lens_model_list"] = ms + ["LOS"]
        cfg["profile_kwargs_list"] = cfg["profile_kwargs_list"] + [{}]
        cfg.update(z_lens=.5, z_source=1.5, cosmo=cosmo)
        for k in (kw, kw2):
            k.append({p: U(rng, -.05, .05) for p in ("kappa_od", "gamma1_od", "gamma2_od", "omega_od", "kappa_os", "gamma1_os", "gamma2_os", "omega_os", "kappa_ds", "gamma1_ds", "gamma2_ds", "omega_ds")})
    else:
        cfg.update(lens_redshift_list=zl, z_source=1.5, z_source_convention=float(rng.choice([1.5, 2.])), multi_plane=True, cosmo=cosmo, z_lens=.5)
        if mode == "interp":
            cfg.update(cosmo_interp=True, z_interp_stop=3, num_z_interp=40)
        if mode == "obs":
            ms[0], kw[0], kw2[0] = "EPL", LC.params("EPL", rng), LC.params("EPL", rng)
            cfg["profile_kwargs_list"][0] = {}
            cfg["observed_convention_index"] = [0]
    q = lens_queries(rng, kw, z=mode != "los")
    q += [(l + "_other", f, a, w) for l, f, a, w in lens_queries(rng, kw2)[:7]]
    if cfg.get("multi_plane"):
        x, y = rng.uniform(-1, 1, 3), rng.uniform(-1, 1, 3)
        q.append(("z1z2", lambda o, x, y, k: o.hessian_z1z2(.2, 1.1, x, y, k), (x, y, kw), False))
        q.append(("partial", lambda o, x, y, k: o.lens_model.ray_shooting_partial_comoving(x, y, x * 0, y * 0, 0., 1., k), (x, y, kw), False))
        q.append(("geo_shapiro", lambda o, x, y, k: o.lens_model.geo_shapiro_delay(x, y, k), (x, y, kw), False))
        q.append(("co_moving2angle", lambda o, x, y: o.lens_model.co_moving2angle_source(x, y), (x, y), False))
    if mode == "zconv":
        q.append(("ddt_scaling", lambda o: o.ddt_scaling, (), False))

    def source_tour(o, x, y, k):
        """change source redshift and back"""
        z0 = cfg["z_source"]
        r = []
        for z in (1.1, 1.4, z0):
            o.change_source_redshift(z)
            r.append(o.ray_shooting(x, y, k))
        return r
    if mode in ("single", "multi", "zconv", "interp") and cfg.get("z_source"):
        if mode != "single":
            q.append(("tour", source_tour, (rng.uniform(-1, 1, 3), rng.uniform(-1, 1, 3), kw), False))

    def static_tour(o, x, y, k):
        k1 = o.set_static(k)
        a = o.alpha(x, y, k1)
        o.set_dynamic()
        return a
    if mode == "single":
        q.append(("static", static_tour, (rng.uniform(-1, 1, 3), rng.uniform(-1, 1, 3), kw), False))

    def cosmo_tour(o, x, y, k):
        o.update_cosmology(FlatLambdaCDM(H0=60, Om0=.4))
        a = o.ray_shooting(x, y, k)
        o.update_cosmology(cosmo)
        return a
    if mode in ("multi", "interp"):
        q.append(("cosmo", cosmo_tour, (rng.uniform(-1, 1, 3), rng.uniform(-1, 1, 3), kw), False))
    if mode == "decoupled":
        from lenstronomy.LensModel.Util.decouple_multi_plane_util import setup_lens_model
        cfg.update(z_lens=.5, z_source_convention=1.5)
        q.append(("setup", lambda o, k: len(setup_lens_model(o, k, [0])[1]), (kw,), False))
    history(mon, rng, "lensmodel_" + mode, lambda: LensModel(**cfg), q, cfg, tol=1e-8)


def macro(rng, z=True):
    e1, e2 = ell(rng, .2)
    ms = ["EPL", "SHEAR"]
    kw = [dict(theta_E=U(rng, .8, 1.3), gamma=U(rng, 1.8, 2.2), e1=e1, e2=e2, center_x=U(rng, -.1, .1), center_y=U(rng, -.1, .1)), dict(gamma1=U(rng, -.08, .08), gamma2=U(rng, -.08, .08), ra_0=0., dec_0=0.)]
    return ms, kw


def t_ext(case, mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions
    from lenstronomy.LightModel.light_model import LightModel
    ms, kw = macro(rng)
    kw2 = macro(rng)[1]
    cfg = dict(lens_model_list=ms)
    x, y = rng.uniform(.5, 1.5, 3), rng.uniform(.5, 1.5, 3)
    ks = [dict(amp=1., sigma=.02, center_x=0., center_y=0.)]
    q = []
    for t, k in (("", kw), ("_other", kw2)):
        q += [("finite" + t, lambda o, x, y, k: o.magnification_finite(x, y, k, source_sigma=.02, window_size=.3, grid_number=30), (x, y, k), False),
              ("finite_polar" + t, lambda o, x, y, k: o.magnification_finite(x, y, k, source_sigma=.02, window_size=.3, grid_number=30, polar_grid=True, aspect_ratio=.5), (x, y, k), False),
              ("adaptive" + t, lambda o, x, y, k, s: o.magnification_finite_adaptive(x, y, k, LightModel(["GAUSSIAN"]), s, .02, .2), (x, y, k, ks), False),
              ("zoom" + t, lambda o, k: o.zoom_source(1., .2, k, source_sigma=.02, window_size=.2, grid_number=20), (k,), False),
              ("tiling" + t, lambda o, k: o.critical_curve_tiling(k, compute_window=4, start_scale=.5, max_order=4), (k,), False),
              ("caustics" + t, lambda o, k: o.critical_curve_caustics(k, compute_window=4, grid_scale=.1), (k,), False),
              ("eigen" + t, lambda o, x, y, k: o.hessian_eigenvectors(x, y, k), (x, y, k), False),
              ("stretch" + t, lambda o, x, y, k: o.radial_tangential_stretch(x, y, k, coordinate_frame_definitions=True), (x, y, k), False),
              ("differentials" + t, lambda o, x, y, k: o.radial_tangential_differentials(x, y, k), (x, y, k), False),
              ("arc" + t, lambda o, k: o.curved_arc_estimate(1., .4, k), (k,), False),
              ("average" + t, lambda o, k: o.tangential_average(1., .4, k, dr=.1), (k,), False),
              ("arc_area" + t, lambda o, k: o.curved_arc_finite_area(1., .4, k, .1), (k,), False)]
    history(mon, rng, "extensions", lambda: LensModelExtensions(LensModel(**cfg)), q, cfg, n=4)


def t_solver(case, mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
    from lenstronomy.LensModel.Solver.solver4point import Solver4Point
    from lenstronomy.LensModel.Solver.solver2point import Solver2Point
    ms, kw = macro(rng)
    kw2 = macro(rng)[1]
    multi = case["i"] % 3 == 2
    cfg = dict(lens_model_list=ms)
    if multi:
        cfg.update(multi_plane=True, lens_redshift_list=[.5, .7], z_source=1.5)
    bx, by = U(rng, -.08, .08), U(rng, -.08, .08)
    q = []
    for t, k in (("", kw), ("_other", kw2)):
        for s in ("lenstronomy", "stochastic") + (("analytical",) if not multi else ()):
            o_ = dict(lenstronomy=dict(min_distance=.15, search_window=4.), stochastic=dict(x_center=0., search_window=4., precision_limit=1e-8, arrival_time_sort=True) if False else dict(search_window=4., num_random=8), analytical={})[s]
            q.append((s + t, lambda o, k, s, a: o.image_position_from_source(bx, by, k, solver=s, **a), (k, s, o_), False))
        q.append(("maglim" + t, lambda o, k: o.image_position_from_source(bx, by, k, min_distance=.15, search_window=4., magnification_limit=.1), (k,), False))
        q.append(("bright" + t, lambda o, k: o.find_bright_image(bx, by, k, numImages=2, min_distance=.15, search_window=4.), (k,), False))
        q.append(("candidates" + t, lambda o, k: o.candidate_solutions(bx, by, k, min_distance=.2, search_window=4.), (k,), False))
        q.append(("sort" + t, lambda o, k, x, y: o.sort_arrival_times(x, y, k), (k, rng.uniform(-1, 1, 4), rng.uniform(-1, 1, 4)), False))
    history(mon, rng, "solver" + ("_multi" if multi else ""), lambda: LensEquationSolver(LensModel(**cfg)), q, cfg, n=4, tol=1e-7)
    if multi:
        return
    x, y = LensEquationSolver(LensModel(**cfg)).image_position_from_source(bx, by, kw, solver="analytical", magnification_limit=.01)
    if len(x) >= 4:
        q = []
        for t, xx in (("", x[:4]), ("_moved", x[:4] + .005)):
            q.append(("constraint" + t, lambda o, x, y, k: o.constraint_lensmodel(x, y, k)[0], (xx, y[:4], kw), False))
            q.append(("offset" + t, lambda o, x, y, k: o.constraint_lensmodel(x, y, k, xtol=1e-8)[1], (xx, y[:4], kw), False))
        typ = str(rng.choice(["PROFILE", "PROFILE_SHEAR"]))
        if typ == "PROFILE_SHEAR":
            for i, c in enumerate(q):
                k = copy.deepcopy(kw)
                q[i] = (c[0], c[1], (c[2][0], c[2][1], k), c[3])
        history(mon, rng, "solver4_" + typ, lambda: Solver4Point(LensModel(**cfg), solver_type=typ), q, cfg, n=2, tol=1e-7)
    if len(x) >= 2:
        typ = str(rng.choice(["CENTER", "ELLIPSE"]))
        q = [("constraint" + t, lambda o, x, y, k: o.constraint_lensmodel(x, y, k)[0], (xx, y[:2], kw), False) for t, xx in (("", x[:2]), ("_moved", x[:2] + .005))]
        history(mon, rng, "solver2_" + typ, lambda: Solver2Point(LensModel(**cfg), solver_type=typ), q, cfg, n=2, tol=1e-7)


# ---------------------------------------------------------------- light
def light_queries(rng, kw):
    q = []
    for k in range(2):
        x, y = positions(rng)
        q.append(("sb%d" % k, lambda o, x, y, k: o.surface_brightness(x, y, k), (x, y, kw), False))
    x, y = rng.uniform(-2, 2, 5), rng.uniform(-2, 2, 5)
    q.append(("split", lambda o, x, y, k: o.functions_split(x, y, k), (x, y, kw), False))
    q.append(("split_k", lambda o, x, y, k: o.functions_split(x, y, k, k=0), (x, y, kw), False))
    q.append(("num", lambda o, k: o.num_param_linear(k), (kw,), False))
    q.append(("list", lambda o, k: o.param_name_list, (kw,), False))
    q.append(("flux", lambda o, k: o.total_flux(k), (kw,), False))
    q.append(("flux_norm", lambda o, k: o.total_flux(k, norm=True), (kw,), False))
    q.append(("light3d", lambda o, r, k: o.light_3d(r, k), (np.array([.3, 1.1, 2.]), [{p: v for p, v in d.items()} for d in kw]), False))
    q.append(("from_kwargs", lambda o, k: o.linear_param_from_kwargs(k), (kw,), False))
    q.append(("positive", lambda o, k: o.check_positive_flux_profile(k), (kw,), False))
    q.append(("update_linear", lambda o, k, p: o.update_linear(p, 0, k)[1], (kw, np.arange(1., 400.)), True))
    q.append(("delete", lambda o, k: o.delete_interpol_caches(), (kw,), False))
    return q


def t_light(case, mon, rng):
    from lenstronomy.LightModel.light_model import LightModel
    m = case["model"]
    for init in GC.init_variants(m):
        kw, kw2 = [GC.params(m, rng)], [GC.params(m, rng)]
        if "image" in kw[0]:       # the table of an interpolated image is fixed until delete_interpol_caches()
            kw2[0]["image"] = kw[0]["image"]
        cfg = dict(light_model_list=[m], profile_kwargs_list=[copy.deepcopy(init or {})])
        q = light_queries(rng, kw) + [(l + "_other", f, a, w) for l, f, a, w in light_queries(rng, kw2)]
        history(mon, rng, "light_" + m, lambda: LightModel(**cfg), q, cfg, n=8, tol=1e-9)


def t_lightmix(case, mon, rng):
    from lenstronomy.LightModel.light_model import LightModel
    ms, kw, pk = S.light(rng, 3, nmin=1)
    kw2 = [GC.params(m, rng) for m in ms]
    for a, b in zip(kw, kw2):
        if "image" in a:
            b["image"] = a["image"]
    cfg = dict(light_model_list=ms, profile_kwargs_list=pk)
    q = light_queries(rng, kw) + [(l + "_other", f, a, w) for l, f, a, w in light_queries(rng, kw2)]
    history(mon, rng, "lightmix", lambda: LightModel(**cfg), q, cfg)


# ---------------------------------------------------------------- point sources
def t_ps(case, mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.PointSource.point_source import PointSource
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
    ms, kl = macro(rng)
    kl2 = macro(rng)[1]
    bx, by = U(rng, -.05, .05), U(rng, -.05, .05)
    x, y = LensEquationSolver(LensModel(ms)).image_position_from_source(bx, by, kl, solver="analytical", magnification_limit=.01)
    types, kp, fm = [], [], []
    for _ in range(int(rng.integers(1, 4))):
        t = str(rng.choice(["UNLENSED", "LENSED_POSITION", "SOURCE_POSITION"]))
        f = bool(rng.integers(2)) if t != "UNLENSED" else False
        if t == "SOURCE_POSITION":
            k = dict(ra_source=bx, dec_source=by)
            n = len(x)
        else:
            k = dict(ra_image=np.array(x), dec_image=np.array(y))
            n = len(x)
        if f:
            k["source_amp"] = U(rng, 1, 5)
        else:
            k["point_amp"] = rng.uniform(1, 5, n)
        types.append(t), kp.append(k), fm.append(f)
    cfg = dict(point_source_type_list=types, fixed_magnification_list=fm, kwargs_lens_eqn_solver=dict(search_window=4., min_distance=.1), save_cache=bool(rng.integers(2)) and False)
    nocache = dict(cfg)
    q = []
    kp2 = copy.deepcopy(kp)
    for k in kp2:
        for p in k:
            k[p] = np.array(k[p]) * 1.03 if np.ndim(k[p]) else k[p] * 1.03
    for t, p, l in (("", kp, kl), ("_kl", kp, kl2), ("_kp", kp2, kl)):
        q += [("source" + t, lambda o, p, l: o.source_position(p, l), (p, l), False),
              ("image" + t, lambda o, p, l: o.image_position(p, l), (p, l), False),
              ("image_orig" + t, lambda o, p, l: o.image_position(p, l, original_position=True), (p, l), False),
              ("image_add" + t, lambda o, p, l: o.image_position(p, l, additional_images=True), (p, l), False),
              ("amp" + t, lambda o, p, l: o.image_amplitude(p, l), (p, l), False),
              ("source_amp" + t, lambda o, p, l: o.source_amplitude(p, l), (p, l), False),
              ("list" + t, lambda o, p, l: o.point_source_list(p, l), (p, l), False),
              ("list_k" + t, lambda o, p, l: o.point_source_list(p, l, k=0), (p, l), False),
              ("list_noamp" + t, lambda o, p, l: o.point_source_list(p, l, with_amp=False), (p, l), False),
              ("basis" + t, lambda o, p, l: o.num_basis(p, l), (p, l), False),
              ("response" + t, lambda o, p, l: o.linear_response_set(p, l), (p, l), False),
              ("response_amp" + t, lambda o, p, l: o.linear_response_set(p, l, with_amp=True), (p, l), False),
              ("positive" + t, lambda o, p, l: o.check_positive_flux(p), (p, l), False),
              ("checkpos" + t, lambda o, p, l: o.check_image_positions(p, l), (p, l), False),
              ("param" + t, lambda o, p, l: o.linear_param_from_kwargs(p), (p, l), False),
              ("update" + t, lambda o, p, l, a: o.update_linear(a, 0, p, l)[0], (p, l, np.arange(1., 40.)), True),
              ("set_amp" + t, lambda o, p, l, a: o.set_amplitudes(a, p), (p, l, [rng.uniform(1, 3, len(x)) if not f else 2. for f in fm]), False)]
    # the cache is documented to be cleared by the user (delete_lens_model_cache) when the lens or the position changes
    history(mon, rng, "pointsource", lambda: PointSource(lens_model=LensModel(ms), **cfg), q, cfg, n=6, tol=1e-7)
    cfg2 = dict(cfg, save_cache=True)
    one = [(l, (lambda f: lambda o, *a: (o.delete_lens_model_cache(), f(o, *a))[1])(f), a, w) for l, f, a, w in q]
    history(mon, rng, "pointsource_cached", lambda: PointSource(lens_model=LensModel(ms), **cfg2), one, cfg2, n=6, tol=1e-7)
    same = [a for a in q if not a[0].endswith(("_kl", "_kp")) and a[0] not in ("image_add", "list_noamp")]
    history(mon, rng, "pointsource_cache_kept", lambda: PointSource(lens_model=LensModel(ms), **cfg2), same, cfg2, n=20, tol=1e-7)


# ---------------------------------------------------------------- images
def t_image(case, mon, rng):
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
    from lenstronomy.ImSim.image_model import ImageModel
    s = S.make(rng)
    K = S.kwargs(s)
    K2 = copy.deepcopy(K)
    for g in ("kwargs_source", "kwargs_lens_light"):
        for k in K2[g]:
            for p in k:
                if p.startswith("center") and not isinstance(k[p], str):
                    k[p] = k[p] + .1
    ny, nx = s["ny"], s["nx"]
    data = rng.normal(size=(ny, nx)) + 5
    mask = rng.random((ny, nx)) > .1
    cfg = dict(data=dict(image_data=data, background_rms=.1, exposure_time=rng.uniform(50, 100, (ny, nx)) if rng.integers(2) else 100.), scene=s, mask=mask)
    lin = bool(case["i"] % 2)
    order = ["kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps", "kwargs_extinction", "kwargs_special"]
    q = []
    for t, k in (("", K), ("_other", K2)):
        a = tuple(k[o] for o in order)
        q += [("image" + t, lambda o, *a: o.image(*a), a, False), ("image_unconv" + t, lambda o, *a: o.image(*a, unconvolved=True), a, False),
              ("image_nops" + t, lambda o, *a: o.image(*a, point_source_add=False), a, False),
              ("variance" + t, lambda o, *a: o.variance_map(*a), a, False),
              ("like" + t, lambda o, *a: np.atleast_1d(np.array(o.likelihood_data_given_model(*a), dtype=object))[0], a, True if lin else False),
              ("source" + t, lambda o, *a: o.source_surface_brightness(a[1], a[0], a[4], a[5]), a, False),
              ("source_delensed" + t, lambda o, *a: o.source_surface_brightness(a[1], a[0], a[4], a[5], de_lensed=True), a, False),
              ("source_k" + t, lambda o, *a: o.source_surface_brightness(a[1], a[0], a[4], a[5], k=0), a, False),
              ("lenslight" + t, lambda o, *a: o.lens_surface_brightness(a[2]), a, False),
              ("ps" + t, lambda o, *a: o.point_source(a[3], a[0], a[5]), a, False), ("ps_unconv" + t, lambda o, *a: o.point_source(a[3], a[0], a[5], unconvolved=True), a, False),
              ("ext" + t, lambda o, *a: o.extinction_map(a[4], a[5]), a, False),
              ("masked" + t, lambda o, im: o.array_masked2image(o.image2array_masked(im)), (data,), False), ("chi2" + t, lambda o, im: o.reduced_chi2(im), (data + .1,), False),
              ("data" + t, lambda o, *a: o.data_response, a, False), ("num" + t, lambda o, *a: o.num_data_evaluate, a, False)]
        if lin:
            q += [("solve" + t, lambda o, *a: o.image_linear_solve(*a), a, True), ("solve_inv" + t, lambda o, *a: o.image_linear_solve(*a, inv_bool=True), a, True),
                  ("matrix" + t, lambda o, *a: o.linear_response_matrix(*a), a, False), ("nlin" + t, lambda o, *a: o.num_param_linear(*a[:4]), a, False),
                  ("params" + t, lambda o, *a: o.linear_param_from_kwargs(a[1], a[2], a[3]), a, False),
                  ("like_marg" + t, lambda o, *a: o.likelihood_data_given_model(*a, source_marg=True)[0], a, True),
                  ("pos" + t, lambda o, *a: o.check_positive_flux(a[1], a[2], a[3]), a, False)]

    def build():
        dk = S.data_kwargs(s, **cfg["data"])
        from lenstronomy.Data.imaging_data import ImageData
        from lenstronomy.Data.psf import PSF
        lm, src, ll, ps, ext = S.classes(s)
        return (ImageLinearFit if lin else ImageModel)(ImageData(**dk), PSF(**s["psf"]), lm, src, ll, ps, ext, kwargs_numerics=s["num"], likelihood_mask=cfg["mask"])
    history(mon, rng, "imagefit" if lin else "image", build, q, cfg, n=10, tol=1e-6 if lin else 1e-9)


def t_bands(case, mon, rng):
    from lenstronomy.Util.class_creator import create_im_sim
    nb = int(rng.integers(2, 4))
    typ = ["multi-linear", "joint-linear", "single-band"][case["i"] % 3]
    base, bands, km, mb, idx = S.make_bands(rng, nb, same=typ == "joint-linear")
    for b in mb:
        b[0].update(image_data=rng.normal(size=np.shape(b[0]["image_data"])) + 3, background_rms=.1, exposure_time=100.)
    K = S.kwargs(base)
    a = tuple(K[o] for o in ("kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps", "kwargs_extinction", "kwargs_special"))
    cfg = dict(mb=mb, km=km)
    q = [("like", lambda o, *a: o.likelihood_data_given_model(*a)[0], a, True), ("solve", lambda o, *a: o.image_linear_solve(*a)[0], a, True), ("num", lambda o, *a: o.num_param_linear(*a[:4]), a, False),
         ("n", lambda o, *a: o.num_data_evaluate, a, False), ("resp", lambda o, *a: o.data_response, a, False), ("reset", lambda o, *a: o.reset_point_source_cache(False), a, False),
         ("chi2", lambda o, *a: o.reduced_residuals(o.image_linear_solve(*a)[0]), a, True)]
    history(mon, rng, "bands_" + typ, lambda: create_im_sim(mb, typ, km), q, cfg, n=8, tol=1e-6)


# ---------------------------------------------------------------- parameters and likelihood
def t_param(case, mon, rng):
    from lenstronomy.Sampling.parameters import Param
    import c18_parameters as W
    w = W.World(rng)
    km, args = copy.deepcopy(w.km), w.args()
    v, sv = W.draw(w, mon, rng)
    if v is None:
        return
    cfg = dict(km=km, args=args)
    P = Param(km, **args)
    kw = P.args2kwargs(np.ones(P.num_param()[0]) * .1) if False else None
    c = dict(kwargs_lens=v["lens"], kwargs_source=v["source"], kwargs_lens_light=v["light"], kwargs_ps=v["ps"], kwargs_special=sv, kwargs_extinction=v["ext"], kwargs_tracer_source=v["tracer"])
    try:
        a0 = P.kwargs2args(**copy.deepcopy(c))
    except Exception:
        return
    a1 = np.array(a0) * 1.01
    q = [("kwargs2args", lambda o, c: o.kwargs2args(**c), (c,), False), ("num", lambda o: o.num_param(), (), False), ("lin", lambda o: o.num_param_linear(), (), False), ("limits", lambda o: o.param_limits(), (), False),
         ("print", lambda o: o.print_setting(), (), False), ("fixed", lambda o: o.fixed_kwargs_list if isinstance(o.fixed_kwargs_list, list) else 0, (), False)]
    for t, a in (("", np.array(a0)), ("_other", a1)):
        q += [("args2kwargs" + t, lambda o, a: o.args2kwargs(a), (a,), False), ("bijective" + t, lambda o, a: o.args2kwargs(a, bijective=True), (a,), False),
              ("list" + t, lambda o, a: o.args2kwargs(a), (list(a),), False)]
    k0 = P.args2kwargs(np.array(a0))
    kz = k0["kwargs_special"].get("z_sampling") is None
    q += [("back", lambda o, c: o.kwargs2args(**c), ({k: k0[k] for k in ("kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps", "kwargs_special", "kwargs_extinction", "kwargs_tracer_source") if k in k0},), False),
          ("image2source", lambda o, s, l, p: o.image2source_plane(s, l, p), (k0["kwargs_source"], k0["kwargs_lens"], k0["kwargs_special"]), False),
          ("scaling", lambda o, p, l: o.update_lens_scaling(p, l), (k0["kwargs_special"], k0["kwargs_lens"]), False),
          ("scaling_inv", lambda o, p, l: o.update_lens_scaling(p, l, inverse=True), (k0["kwargs_special"], k0["kwargs_lens"]), False),
          ("model", lambda o, p: o.update_kwargs_model(p)[0].get("lens_redshift_list"), (k0["kwargs_special"],), False),
          ] + ([("solver", lambda o, l, p: o.check_solver(l, p), (k0["kwargs_lens"], k0["kwargs_ps"]), False)] if kz else [])
    history(mon, rng, "param", lambda: Param(km, **args), q, cfg, n=10, tol=1e-8)


def t_like(case, mon, rng):
    import c19_likelihood as W
    from lenstronomy.Sampling.likelihood import Likelihood
    w = W.World(rng)
    P = w.param()
    vecs = [w.vector(P, rng, 1.) for _ in range(3)]
    lo, up = (np.array(v, float) for v in P.param_limits())
    vecs = [np.clip(v, lo, up) for v in vecs]
    L = copy.deepcopy(w.L)
    L.pop("linear_solver_off", None)
    cfg = dict(D=copy.deepcopy(w.D), km=copy.deepcopy(w.km), L=L)
    q = []
    for i, v in enumerate(vecs):
        q += [("logL%d" % i, lambda o, v: o.logL(v), (v,), False), ("call%d" % i, lambda o, v: o(v), (v,), False), ("neg%d" % i, lambda o, v: o.negativelogL(v), (v,), False),
              ("verbose%d" % i, lambda o, v: o.logL(v, verbose=True), (v,), False)]
        q.append(("kwargs%d" % i, lambda o, k: o.log_likelihood(k), (P.args2kwargs(v),), True))
    q += [("num", lambda o: o.num_data, (), False), ("limits", lambda o: o.param_limits, (), False), ("eff", lambda o: o.effective_num_data_points(**P.args2kwargs(vecs[0])) if hasattr(o, "effective_num_data_points") else 0, (), False)]
    history(mon, rng, "likelihood", lambda: Likelihood(cfg["D"], cfg["km"], w.param(), **cfg["L"]), q, cfg, n=8, tol=1e-6)


# ---------------------------------------------------------------- cosmology, kinematics, simulation
def t_cosmo(case, mon, rng):
    from lenstronomy.Cosmo.lens_cosmo import LensCosmo
    from lenstronomy.Cosmo.background import Background
    from lenstronomy.Cosmo.nfw_param import NFWParam
    from lenstronomy.Cosmo.kde_likelihood import KDELikelihood
    from astropy.cosmology import FlatLambdaCDM
    cosmo = FlatLambdaCDM(H0=U(rng, 60, 80), Om0=U(rng, .2, .4))
    a = rng.uniform(.1, 1, 3)
    q = [(p, (lambda p: lambda o: getattr(o, p))(p), (), False) for p in ("h", "dd", "ds", "dds", "ddt", "sigma_crit", "sigma_crit_angle")]
    q += [(f, (lambda f: lambda o, a: getattr(o, f)(a))(f), (a,), False) for f in ("phys2arcsec_lens", "arcsec2phys_lens", "time_delay_units", "time_delay2fermat_pot", "kappa2proj_mass", "mass_in_theta_E", "mass_in_coin", "arcsec2phys_source", "sis_theta_E2sigma_v", "sis_sigma_v2theta_E")]
    q += [("nfw", lambda o, m, c: o.nfw_physical2angle(m, c), (np.array([1e13, 1e12]), np.array([5., 8.])), False), ("nfw_back", lambda o, r, a: o.nfw_angle2physical(r, a), (a * 5, a), False),
          ("r200", lambda o, m: o.nfw_M_theta_r200(m), (np.array([1e13]),), False), ("uldm", lambda o: o.uldm_angular2phys(.1, 3.), (), False),
          ("sersic", lambda o: o.sersic_m_star2k_eff(1e11, 1., 4.), (), False), ("hern", lambda o: o.hernquist_phys2angular(1e11, .01), (), False),
          ("beta", lambda o: o.beta_double_source_plane(.5, 1., 2.), (), False)]
    history(mon, rng, "lenscosmo", lambda: LensCosmo(.5, 1.5, cosmo=cosmo), q, None)
    z = np.sort(rng.uniform(.1, 2, 4))
    for interp in (False, True):
        q = [("dxy%d%d" % (i, j), (lambda a, b: lambda o: o.d_xy(a, b))(z[i], z[j]), (), False) for i, j in ((0, 1), (0, 2), (1, 3), (2, 3))]
        q += [("ddt", lambda o: o.ddt(z[1], z[3]), (), False), ("T", lambda o: o.T_xy(z[0], z[2]), (), False), ("scale", lambda o: o.ddt_scaling(z[0], z[1], z[2]), (), False)]
        history(mon, rng, "background_%s" % interp, lambda: Background(cosmo, interp=interp, num_interp=50, z_stop=3.), q, None)
    q = [("rho", lambda o, z: o.rhoc_z(z), (z,), False), ("r200", lambda o: o.r200_M(1e13, .5), (), False), ("c", lambda o: o.c_rho0(o.rho0_c(7., .5), .5), (), False), ("c2", lambda o: o.c_rho0(o.rho0_c(4., .3), .3), (), False), ("c3", lambda o, r: o.c_rho0(r, .3), (np.array([1e16, 3e16]),), False), ("mz", lambda o: o.nfw_Mz(1e13, .5), (), False)]
    history(mon, rng, "nfwparam", lambda: NFWParam(cosmo), q, None)
    dd, ddt = rng.normal(1000, 50, 200), rng.normal(3000, 100, 200)
    for kde in ("scipy_gaussian", "hist_product") if False else ("scipy_gaussian",):
        q = [("l%d" % i, (lambda x, y: lambda o: o.logLikelihood(x, y))(U(rng, 900, 1100), U(rng, 2800, 3200)), (), False) for i in range(3)]
        cfg = [dd, ddt]
        history(mon, rng, "kde", lambda: KDELikelihood(dd, ddt, kde_type=kde), q, cfg)


ANI = [("const", dict(beta=.2)), ("isotropic", {}), ("radial", {}), ("OM", dict(r_ani=1.)), ("GOM", dict(r_ani=1., beta_inf=.7))]
APER = [dict(aperture_type="slit", center_ra=0., center_dec=.1, width=1., length=1.2, angle=.3), dict(aperture_type="shell", r_in=.1, r_out=1., center_ra=0., center_dec=0.),
        dict(aperture_type="frame", width_outer=2., width_inner=.4, center_ra=0., center_dec=0., angle=.2), dict(aperture_type="IFU_shells", r_bins=np.array([0., .4, .8, 1.5]), center_ra=0., center_dec=0.)]


def t_kin(case, mon, rng):
    from lenstronomy.GalKin.galkin import Galkin
    from lenstronomy.GalKin.numeric_kinematics import NumericKinematics
    from lenstronomy.GalKin.analytic_kinematics import AnalyticKinematics
    from lenstronomy.GalKin.aperture import Aperture
    from lenstronomy.GalKin.psf import PSF
    ani, ka = ANI[case["i"] % 5]
    ap = copy.deepcopy(APER[int(rng.integers(4))])
    kc = dict(d_d=1000., d_s=1500., d_ds=800.)
    psf = [dict(psf_type="GAUSSIAN", fwhm=.6), dict(psf_type="MOFFAT", fwhm=.6, moffat_beta=3.), dict(psf_type="GAUSSIAN", fwhm=.3)][int(rng.integers(3))]
    kn = dict(interpol_grid_num=80, log_integration=True, max_integrate=100, min_integrate=1e-3)
    cfg = dict(model=dict(mass_profile_list=["SPP", "NFW"], light_profile_list=["HERNQUIST"] if rng.integers(2) else ["PJAFFE"], anisotropy_model=ani), ap=ap, psf=psf, kc=kc, kn=kn)
    km = [dict(theta_E=1., gamma=2.1), dict(Rs=5., alpha_Rs=.3)]
    kl = [dict(Rs=.6, amp=1.)] if cfg["model"]["light_profile_list"] == ["HERNQUIST"] else [dict(amp=1., Ra=.1, Rs=.8)]
    km2 = [dict(theta_E=1.2, gamma=1.9), dict(Rs=4., alpha_Rs=.1)]
    r = np.geomspace(.05, 3, 6)
    q = []
    for t, m in (("", km), ("_other", km2)):
        if ap["aperture_type"] == "IFU_shells":
            q.append(("map" + t, lambda o, *a: o.dispersion_map(*a, num_kin_sampling=20, num_psf_sampling=5), (m, kl, ka), False))
        else:
            q.append(("disp" + t, lambda o, *a: o.dispersion(*a, sampling_number=20), (m, kl, ka), False))
        q += [("sr2" + t, lambda o, r, *a: o.numerics.sigma_r2(r, *a), (r, m, kl, ka), False), ("ss2" + t, lambda o, r, R, *a: o.numerics.sigma_s2(r, R, *a), (r, r * .5, m, kl, ka), False),
              ("proj" + t, lambda o, R, *a: o.numerics.sigma_s2_project(R, *a), (.7, m, kl, ka), False), ("mass" + t, lambda o, r, k: o.numerics.mass_3d(r, k), (r, m), False), ("pot" + t, lambda o, r, k: o.numerics.grav_potential(r, k), (r, m), False),
              ("draw" + t, lambda o, k: o.numerics.draw_light(k), (kl,), False), ("select" + t, lambda o, x, y: o.aperture_select(x, y), (.3, .2), False), ("displace" + t, lambda o, x, y: o.displace_psf(x, y), (.3, .2), False)]
    # results are documented to be cached between parameter sets until delete_cache(); each evaluation starts with it
    q = [(l, (lambda f: lambda o, *a: (o.numerics.delete_cache(), f(o, *a))[1])(f), a, w) for l, f, a, w in q]
    history(mon, rng, "galkin", lambda: Galkin(cfg["model"], ap, psf, kc, kwargs_numerics=kn, analytic_kinematics=False), q, cfg, n=4)
    q = [("sr2_%d" % i, lambda o, r, m: [o.sigma_r2(float(ri), m, dict(r_eff=1.), dict(r_ani=.9)) for ri in r], (r, m), False) for i, m in enumerate((dict(theta_E=1., gamma=2.), dict(theta_E=1.3, gamma=1.8)))]
    q += [("grav%d" % i, lambda o, r, m: o.grav_potential(r, m), (r, m), False) for i, m in enumerate((dict(theta_E=1., gamma=2.05), dict(theta_E=1.3, gamma=1.8)))]
    q += [("draw", lambda o, k: o.draw_light(k), (dict(r_eff=1.),), False)]
    q += [("proj%d" % i, lambda o, R, m: (o.delete_cache(), o.I_R_sigma2_and_IR(R, m, dict(r_eff=1.), dict(r_ani=.9)))[1], (.7, m), False) for i, m in enumerate((dict(theta_E=1., gamma=2.05), dict(theta_E=1.3, gamma=1.8)))]
    history(mon, rng, "analytic_kin", lambda: AnalyticKinematics(kc), q, kc)


def t_td(case, mon, rng):
    from lenstronomy.Analysis.td_cosmography import TDCosmography
    from lenstronomy.Analysis.kinematics_api import KinematicsAPI
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
    ms, kw = macro(rng)
    kw2 = macro(rng)[1]
    ll = ["SERSIC_ELLIPSE"]
    kll = [dict(amp=1., R_sersic=.8, n_sersic=3., e1=.05, e2=.02, center_x=kw[0]["center_x"], center_y=kw[0]["center_y"])]
    x, y = LensEquationSolver(LensModel(ms)).image_position_from_source(.05, .02, kw, solver="analytical")
    kp = [dict(ra_image=np.array(x), dec_image=np.array(y), point_amp=np.ones(len(x)))]
    ka = dict(r_ani=1.)
    cfg = dict(km=dict(lens_model_list=ms, lens_light_model_list=ll, point_source_model_list=["LENSED_POSITION"]), ap=copy.deepcopy(APER[1]), seeing=dict(psf_type="GAUSSIAN", fwhm=.5),
               num=dict(interpol_grid_num=80, log_integration=True, max_integrate=100, min_integrate=1e-3))

    def build():
        o = TDCosmography(z_lens=.5, z_source=1.5, kwargs_model=cfg["km"], lens_model_kinematics_bool=[True, False], light_model_kinematics_bool=[True], kwargs_seeing=cfg["seeing"], kwargs_aperture=cfg["ap"],
                          anisotropy_model="OM", kinematics_backend="galkin")
        o.kinematics_modeling_settings("OM", cfg["num"], analytic_kinematics=case["i"] % 2 == 0, Hernquist_approx=False, MGE_light=True, MGE_mass=False, kwargs_mge_light=dict(n_comp=8, grid_spacing=.05, grid_num=60), sampling_number=30, num_kin_sampling=30, num_psf_sampling=5)
        return o
    q = []
    for t, k in (("", kw), ("_other", kw2)):
        te = dict(r_eff=.8, theta_E=k[0]["theta_E"], gamma=k[0]["gamma"])
        an = case["i"] % 2 == 0
        q += [("delays" + t, lambda o, k, p: o.time_delays(k, p), (k, kp), False), ("fermat" + t, lambda o, k, p: o.fermat_potential(k, p), (k, kp), False),
              ("disp" + t, lambda o, k, l, a, d: o.velocity_dispersion(k, l, a, **d), (k, kll, ka, te), False), ("dispJ" + t, lambda o, k, l, a, d: o.velocity_dispersion_dimension_less(k, l, a, **d), (k, kll, ka, te), False),
              ("lensprof" + t, lambda o, k: o.kinematic_lens_profiles(k, model_kinematics_bool=[True, False]) if not an else 0, (k,), False), ("lightprof" + t, lambda o, l: o.kinematic_light_profile(l, r_eff=.8, model_kinematics_bool=[True]), (kll,), False),
              ("mge" + t, lambda o, l, g: o.kinematic_light_profile(l, r_eff=.8, MGE_fit=True, model_kinematics_bool=[True], kwargs_mge=g) if not an else 0, (kll, dict(n_comp=6, grid_spacing=.05, grid_num=60)), False),
              ("mge_lens" + t, lambda o, k, g: o.kinematic_lens_profiles(k, MGE_fit=True, model_kinematics_bool=[True, False], theta_E=1., kwargs_mge=g) if not an else 0, (k, dict(n_gauss=6)), False),
              ("analytic" + t, lambda o, d: o.velocity_dispersion_analytical(d["theta_E"], d["gamma"], .8, 1.), (te,), False)]
    history(mon, rng, "tdcosmography", build, q, cfg, n=4, tol=1e-8)


def t_sim(case, mon, rng):
    from lenstronomy.SimulationAPI.sim_api import SimAPI
    from lenstronomy.SimulationAPI.observation_api import SingleBand
    n = int(rng.integers(10, 20))
    band = dict(pixel_scale=.1, exposure_time=U(rng, 50, 500), magnitude_zero_point=U(rng, 24, 27), read_noise=5., ccd_gain=U(rng, 1, 3), sky_brightness=U(rng, 20, 22), num_exposures=int(rng.integers(1, 4)),
                data_count_unit=str(rng.choice(["ADU", "e-"])), seeing=.2, psf_type="GAUSSIAN")
    if rng.integers(2):
        k = S.kernel(rng, 5)
        band.update(psf_type="PIXEL", kernel_point_source=k)
    e1, e2 = ell(rng, .2)
    nps = int(rng.integers(0, 3))
    pts = [str(rng.choice(["UNLENSED", "LENSED_POSITION", "SOURCE_POSITION"])) for _ in range(nps)]
    km = dict(lens_model_list=["SIE", "SHEAR"], lens_light_model_list=["SERSIC_ELLIPSE", "MULTI_GAUSSIAN"], source_light_model_list=["SERSIC"], point_source_model_list=pts)
    if rng.integers(3) == 0:
        km.update(z_lens=.5, z_source=1.5)
    kl = [dict(theta_E=.4, e1=e1, e2=e2, center_x=0., center_y=0.), dict(gamma1=.02, gamma2=.01)]
    kll = [dict(magnitude=21., R_sersic=.3, n_sersic=2., e1=e1, e2=e2, center_x=0., center_y=.02), dict(magnitude=22., sigma=[.1, .2], amp=[1., 2.], center_x=0., center_y=0.)]
    ks = [dict(magnitude=23., R_sersic=.1, n_sersic=1., center_x=.02, center_y=.01)]
    kp = [dict(magnitude=[22., 23.], ra_image=[.1, -.2], dec_image=[.2, .1]) if t != "SOURCE_POSITION" else dict(magnitude=22., ra_source=.02, dec_source=.01) for t in pts]
    for p, t in zip(kp, pts):
        if t == "SOURCE_POSITION":
            p["magnitude"] = [22.] * 4
    cfg = dict(num_pix=n, kwargs_single_band=band, kwargs_model=km)
    im = rng.uniform(0, 3, (n, n))
    q = [("mag2amp", lambda o, *a: o.magnitude2amplitude(*a), (kll, ks, kp), False), ("cps", lambda o, m: o.magnitude2cps(m), (np.array([20., 21.]),), False), ("mag", lambda o, m: o.cps2magnitude(m), (np.array([20., 21.]),), False),
         ("noise", lambda o, m: o.noise_for_model(m, seed=3), (im,), False), ("noise2", lambda o, m: o.noise_for_model(m), (im,), False), ("nobkg", lambda o, m: o.noise_for_model(m, background_noise=False, seed=3), (im,), False),
         ("est", lambda o, m: o.estimate_noise(m), (im,), False), ("fn", lambda o, m: o.flux_noise(m), (im,), False), ("iid", lambda o, m: o.flux_iid(m), (im,), False), ("bkg", lambda o: o.background_noise, (), False),
         ("sky", lambda o: o.sky_brightness, (), False), ("exp", lambda o: o.exposure_time, (), False), ("se", lambda o: o.scaled_exposure_time if hasattr(o, "scaled_exposure_time") else 0, (), False),
         ("psf", lambda o: o.psf_class.kernel_point_source, (), False), ("kd", lambda o: {k: v for k, v in o.kwargs_data.items()}, (), False)]

    def image(o, a, b, c, d):
        l, s, p = o.magnitude2amplitude(b, c, d)
        return o.image_model_class(dict(supersampling_factor=2)).image(a, s, l, p)
    q.append(("image", image, (kl, kll, ks, kp), False))
    history(mon, rng, "simapi", lambda: SimAPI(**cfg), q, cfg)


def t_prof(case, mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis
    from lenstronomy.Analysis.light_profile import LightProfileAnalysis
    ms, kw = macro(rng)
    kw2 = macro(rng)[1]
    r = np.linspace(.2, 2, 5)
    mb = [True, False]
    q = []
    for t, k in (("", kw), ("_other", kw2)):
        q += [("thetaE" + t, lambda o, k: o.effective_einstein_radius(k), (k,), False), ("thetaE_grid" + t, lambda o, k: o.effective_einstein_radius_grid(k, grid_num=60), (k,), False),
              ("local" + t, lambda o, k, m: o.local_lensing_effect(k, .1, .2, m), (k, mb), False), ("slope" + t, lambda o, k, m: o.profile_slope(k, 1., model_list_bool=m), (k, mb), False),
              ("mst" + t, lambda o, k: o.mst_invariant_differential(k, 1.), (k,), False), ("radial" + t, lambda o, r, k, m: o.radial_lens_profile(r, k, model_bool_list=m), (r, k, mb), False),
              ("mge" + t, lambda o, k, m: o.multi_gaussian_lens(k, n_comp=8, model_bool_list=m), (k, mb), False), ("frac" + t, lambda o, k: o.mass_fraction_within_radius(k, 0., 0., 1., num_pix=40), (k,), False),
              ("peak" + t, lambda o, k, m: o.convergence_peak(k, m, grid_num=40), (k, mb), False)]
    cfg = dict(lens_model_list=ms)
    history(mon, rng, "lensprofile", lambda: LensProfileAnalysis(LensModel(**cfg)), q, cfg, n=3)
    ls, kl, pk = S.light(rng, 3, pool=["SERSIC", "SERSIC_ELLIPSE", "GAUSSIAN", "GAUSSIAN_ELLIPSE", "CHAMELEON", "HERNQUIST"], nmin=1)
    mb = [True] * len(ls)
    q = [("ell", lambda o, k, m: o.ellipticity(k, .1, 40, model_bool_list=m), (kl, mb), False), ("half", lambda o, k, m: o.half_light_radius(k, .1, 40, model_bool_list=m), (kl, mb), False),
         ("radial", lambda o, r, k: o.radial_light_profile(r, k), (r, kl), False), ("rlist", lambda o, r, k: o.radial_light_profile(r, k), (list(r), kl), False), ("mge", lambda o, k: o.multi_gaussian_decomposition(k, n_comp=6, grid_spacing=.1, grid_num=40), (kl,), False),
         ("mge_ell", lambda o, k: o.multi_gaussian_decomposition_ellipse(k, n_comp=6, grid_spacing=.1, grid_num=40), (kl,), False), ("flux", lambda o, k: o.flux_components(k, grid_num=40, grid_spacing=.1), (kl,), False)]
    cfg = dict(light_model_list=ls, profile_kwargs_list=pk)
    history(mon, rng, "lightprofile", lambda: LightProfileAnalysis(LightModel(**cfg)), q, cfg, n=5)


def t_data(case, mon, rng):
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF
    from lenstronomy.Data.coord_transforms import Coordinates
    nx, ny = int(rng.integers(5, 12)), int(rng.integers(5, 12))
    M, o_, d = S.frame(rng, nx, ny)
    cfg = dict(image_data=rng.uniform(0, 3, (ny, nx)), background_rms=.2, exposure_time=rng.uniform(10, 100, (ny, nx)), ra_at_xy_0=o_[0], dec_at_xy_0=o_[1], transform_pix2angle=M.copy())
    if rng.integers(2):
        cfg["noise_map"] = rng.uniform(.1, .5, (ny, nx))
        cfg["antenna_primary_beam"] = rng.uniform(.5, 1, (ny, nx)) if rng.integers(2) else None
    if rng.integers(3) == 0:
        cfg.update(ra_shift=.1, dec_shift=-.05, phi_rot=.02)
    m = rng.uniform(0, 3, (ny, nx))
    x = rng.uniform(0, 5, 4)
    q = [("C_D", lambda o: o.C_D, (), False), ("cov", lambda o, m: o.C_D_model(m), (m,), False), ("cov2", lambda o, d: o.covariance_matrix(d, background_rms=.3, exposure_map=100., noise_map=None), (m,), False),
         ("like", lambda o, m, k: o.log_likelihood(m, k, 0.), (m, rng.random((ny, nx)) > .2), False), ("like2", lambda o, m, k, a: o.log_likelihood(m, k, a), (m, rng.random((ny, nx)) > .2, rng.uniform(0, .1, (ny, nx))), False),
         ("data", lambda o: o.data, (), False), ("num", lambda o: (o.num_pixel, o.num_pixel_axes, o.width, o.center, o.pixel_width), (), False), ("coords", lambda o: o.pixel_coordinates, (), False),
         ("p2c", lambda o, x, y: o.map_pix2coord(x, y), (x, x[::-1].copy()), False), ("c2p", lambda o, x, y: o.map_coord2pix(x, y), (x, x[::-1].copy()), False), ("grid", lambda o: o.coordinate_grid(3, 4), (), False), ("zero", lambda o: o.radec_at_xy_0, (), False),
         ("beam", lambda o: o.primary_beam, (), False), ("bkg", lambda o: (o.background_rms, o.exposure_map, o.noise_map), (), False), ("flux", lambda o: o.flux_scaling, (), False)]

    def shift(o, a, b):
        o.shift_coordinate_system(a, b)
        r = o.map_pix2coord(1., 2.)
        o.shift_coordinate_system(-a, -b)
        return r
    q.append(("shift", shift, (.1, .2), False))
    q.append(("update", lambda o, m: (o.update_data(m), o.C_D, o.update_data(cfg["image_data"]))[1], (m,), False))
    history(mon, rng, "imagedata", lambda: ImageData(**cfg), q, cfg, tol=1e-7)
    n = int(rng.choice([5, 7, 9]))
    k = rng.uniform(.1, 1, (n, n))
    p = int(rng.choice([1, 3]))
    pc = [dict(psf_type="GAUSSIAN", fwhm=.3, pixel_size=.1, truncation=3.), dict(psf_type="PIXEL", kernel_point_source=k, point_source_supersampling_factor=p, psf_variance_map=None if p > 1 else rng.uniform(0, .1, (n, n)), kernel_point_source_normalisation=bool(rng.integers(2))), dict(psf_type="NONE")][int(rng.integers(3))]
    q = [("k", lambda o: o.kernel_point_source, (), False), ("pix", lambda o: o.kernel_pixel, (), False), ("fwhm", lambda o: o.fwhm, (), False), ("var", lambda o: o.psf_variance_map, (), False)]
    for s in (1, 2, 3, 5):
        q.append(("sup%d" % s, (lambda s: lambda o: o.kernel_point_source_supersampled(s))(s), (), False))
        q.append(("supn%d" % s, (lambda s: lambda o: o.kernel_point_source_supersampled(s, updata_cache=False))(s), (), False))
    history(mon, rng, "psf_" + pc["psf_type"], lambda: PSF(**pc), q, pc, tol=1e-9)


def t_util(case, mon, rng):
    from lenstronomy.Util import util, image_util, kernel_util, param_util, mask_util, analysis_util, sampling_util, multi_gauss_expansion, correlation, data_util, simulation_util
    n = int(rng.integers(4, 9))
    N = 2 * n + 1
    im = rng.uniform(.1, 2, (N, N))
    ev = rng.uniform(.1, 2, (2 * n, 2 * n))
    v = rng.uniform(-1, 1, N * N)
    x, y = util.make_grid(N, .2)
    x, y = np.array(x), np.array(y)
    a, b = rng.uniform(-1, 1, 6), rng.uniform(-1, 1, 6)
    K = S.kernel(rng, 2 * int(rng.integers(2, 4)) + 1)
    f = lambda F, *args, **kw: (F.__module__.split(".")[-1] + "." + F.__name__ + "/%d" % len(q), lambda o, *a: F(*a, **kw), args, False)
    q = []
    add = lambda F, *args, **kw: q.append(f(F, *args, **kw))
    add(util.sort_image_index, a, b, b, a), add(util.rotate, a, b, .3), add(util.map_coord2pix, a, b, .1, .2, np.array([[.1, .02], [-.02, .1]])), add(util.array2image, v), add(util.image2array, im), add(util.array2cube, rng.uniform(size=4 * 9), 4, 9)
    add(util.cube2array, rng.uniform(size=(4, 3, 3))), add(util.grid_from_coordinate_transform, 4, 5, np.array([[.1, .02], [-.02, .1]]), 0., .1), add(util.get_axes, x, y), add(util.averaging, rng.uniform(size=36), 6, 3)
    add(util.displaceAbs, a, b, .1, .2), add(util.get_distance, a, b, b[:6], a[:6]), add(util.compare_distance, a, b), add(util.min_square_dist, a, b, b, a), add(util.selectBest, a, b, 3), add(util.select_best, a, b, 3)
    add(util.local_minima_2d, v, x, y), add(util.make_subgrid, x, y, 2), add(util.convert_bool_list, 4, [True, False, True, False]), add(util.convert_bool_list, 4, [0, 2]), add(util.area, np.stack([a, b], -1)), add(util.fwhm2sigma, np.abs(a)), add(util.merge_dicts, dict(a=1), dict(b=[2]))
    add(util.points_on_circle, .5, 6), add(util.centered_coordinate_system, 5, np.array([[.1, .02], [-.02, .1]])), add(util.make_grid_transformed, 5, np.array([[.1, .02], [-.02, .1]]))
    add(image_util.add_layer2image, im, 3.3, 2.2, K), add(image_util.add_layer2image_int, im, 3, 2, K), add(image_util.add_background, im, .1), add(image_util.add_poisson, im, 100.), add(image_util.rotateImage, im, 20.), add(image_util.symmetry_average, im, 3)
    add(image_util.re_size_array, np.arange(N) * 1., np.arange(N) * 1., im, np.arange(3) * 1., np.arange(4) * 1.), add(image_util.findOverlap, a, b, .4), add(image_util.coord_in_image, x, y, 5, .2), add(image_util.re_size, ev, 2), add(image_util.cut_edges, im, 3)
    add(image_util.rebin_image, 2, ev, np.abs(ev), .1, util.make_grid(2 * n, .1)[0].reshape(2 * n, 2 * n), util.make_grid(2 * n, .1)[1].reshape(2 * n, 2 * n), np.ones((2 * n, 2 * n)))
    add(image_util.rebin_coord_transform, 2, 1., 2., np.array([[.1, .02], [-.02, .1]]), np.linalg.inv(np.array([[.1, .02], [-.02, .1]]))), add(image_util.stack_images, [im, im + 1], [im, im], [.1, .2]), add(image_util.radial_profile, im, [2., 3.]), add(image_util.gradient_map, im)
    add(kernel_util.de_shift_kernel, K, .2, -.1), add(kernel_util.center_kernel, K), add(kernel_util.kernel_make_odd, ev), add(kernel_util.kernel_norm, im), add(kernel_util.subgrid_kernel, K, 3, True), add(kernel_util.subgrid_kernel, K, 2), add(kernel_util.kernel_pixelsize_change, im, .1, .15)
    add(kernel_util.cut_psf, im, 5), add(kernel_util.cut_psf, im, 5, normalisation=False), add(kernel_util.pixel_kernel, K, 3), add(kernel_util.kernel_average_pixel, rng.uniform(size=(9, 9)), 3), add(kernel_util.kernel_gaussian_grid, x, y, .3), add(kernel_util.kernel_gaussian, 7, .1, .3), add(kernel_util.kernel_moffat, 7, .1, .3, 2.6), add(kernel_util.kernel_moffat_grid, x, y, .3, 2.6)
    add(kernel_util.split_kernel, rng.uniform(size=(15, 15)), 9, 3), add(kernel_util.split_kernel, rng.uniform(size=(15, 15)), 9, 3, normalized=False), add(kernel_util.degrade_kernel, rng.uniform(size=(15, 15)), 3), add(kernel_util.degrade_kernel, rng.uniform(size=(15, 15)), 2), add(kernel_util.averaging_odd_kernel, rng.uniform(size=(15, 15)), 3), add(kernel_util.averaging_even_kernel, rng.uniform(size=(15, 15)), 2)
    add(kernel_util.cutout_source, n + .3, n - .2, im, 5), add(kernel_util.cutout_source, n, n, im, 5, shift=False), add(kernel_util.fwhm_kernel, kernel_util.kernel_gaussian(15, .1, .4)), add(kernel_util.estimate_amp, im + 1, n, n, K), add(kernel_util.match_kernel_size, im, 7), add(kernel_util.match_kernel_size, im, N + 4)
    add(param_util.cart2polar, a, b, .1, .2), add(param_util.polar2cart, np.abs(a), b, np.array([.1, .2])), add(param_util.shear_polar2cartesian, a, np.abs(b)), add(param_util.shear_cartesian2polar, a, b), add(param_util.phi_q2_ellipticity, a, np.abs(b)), add(param_util.ellipticity2phi_q, a * .4, b * .4)
    add(param_util.transform_e1e2_product_average, a, b, .1, .2, .1, 0.), add(param_util.transform_e1e2_square_average, a, b, .1, .2, .1, 0.), add(param_util.q2e, np.abs(a))
    add(mask_util.mask_center_2d, .1, .2, .5, x, y), add(mask_util.mask_azimuthal, x, y, .1, .2, .5), add(mask_util.mask_ellipse, x, y, .1, .2, .5, .4, .3), add(mask_util.mask_eccentric, x, y, .1, .2, .1, .05, .5), add(mask_util.mask_half_moon, x, y, .1, .2, .1, .8, .3, 1.), add(mask_util.mask_shell, x, y, .1, .2, .1, .5)
    lo, up = np.array([0., 1, -1]), np.array([1., 2, 3])
    add(sampling_util.unit2uniform, np.abs(a), .2, 3.), add(sampling_util.scale_limits, lo, up, .5), add(sampling_util.cube2args_uniform, np.array([.1, .5, .9]), lo, up, 3, copy=True), add(sampling_util.cube2args_gaussian, np.array([.1, .5, .9]), lo, up, lo + .5, up - lo, 3, copy=True)
    add(sampling_util.sample_ball, lo, up - lo, size=4), add(sampling_util.sample_ball_truncated, lo + .5, np.ones(3), lo, up, size=4)
    add(analysis_util.half_light_radius, np.abs(v), x, y), add(analysis_util.radial_profile, np.abs(v), x, y, .1, 0.), add(analysis_util.azimuthal_average, im), add(analysis_util.moments, im, x.reshape(N, N), y.reshape(N, N)), add(analysis_util.ellipticities, im, x.reshape(N, N), y.reshape(N, N)), add(analysis_util.ellipticities, np.exp(-(x ** 2 + .3 * x * y + y ** 2) * 4 / (N * .2) ** 2).reshape(N, N), x.reshape(N, N), y.reshape(N, N), iterative=True), add(analysis_util.bic_model, 3., 10, 2)
    add(analysis_util.profile_center, [dict(center_x=.1, center_y=.2)]), add(data_util.bkg_noise, 5., 100., 22., .1, 3), add(data_util.flux_noise, np.abs(a), 100.), add(data_util.magnitude2cps, a + 20, 25.), add(data_util.cps2magnitude, np.abs(a), 25.)
    r = np.geomspace(.01, 5, 40)
    add(multi_gauss_expansion.gaussian, r, .3, 2.), add(multi_gauss_expansion.mge_1d, r, np.exp(-r), N=8), add(multi_gauss_expansion.de_projection_3d, np.abs(a), np.abs(b) + .1), add(correlation.correlation_2D, im), add(correlation.power_spectrum_2d, im), add(correlation.power_spectrum_1d, im)
    add(simulation_util.data_configure_simple, 7, .1, 100., .2)
    history(mon, rng, "util", lambda: None, q, None, n=30, tol=1e-8)

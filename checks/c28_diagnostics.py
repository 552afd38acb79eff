"""C28: derived lens and light diagnostics describe the model they are given."""
import warnings
import numpy as np

RULE = ("online oracles on the real diagnostics for random off-centre lens and light models: critical points must straddle a "
        "sign change of det A, caustics are re-shot, Einstein radii, slopes, profiles, mass fractions, moments and "
        "multi-Gaussian fits are recomputed by independent quadrature, component selections are compared with a model "
        "that only has those components, and models are moved to test the dependence on the centre")
ASSUMPTIONS = ["grid based estimates judged at the accuracy of their grid", "finite magnification for sources small compared with the caustic distance"]
REQUIRED = ["check:crit", "check:tiling", "check:theta", "check:slope", "check:xi", "check:radial", "check:mge", "check:frac",
            "check:peak", "check:mdelta", "check:light", "check:finite", "check:stretch", "check:arc", "check:td"]
TIMEOUT = 300
KINDS = ["crit", "tiling", "theta", "slope", "xi", "radial", "mge", "frac", "peak", "mdelta", "light", "lightmge", "finite", "stretch", "arc", "td"]
HEAVY = {"lightmge": 3, "light": 2, "mge": 2, "td": 3, "theta": 2}


def cases(tier, seed):
    n = 8 if tier == "quick" else 120
    return [dict(name=f"{k}/{i}", group=k, kind=k, i=i, cost=HEAVY.get(k, 1)) for i in range(n) for k in KINDS
            if not (k in ("td", "lightmge") and i >= n // 2)]


def run(case, mon, rng):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + case["kind"]](mon, rng)


def _lens(rng, centre=True, circ=False, extra=None):
    from lenstronomy.LensModel.lens_model import LensModel
    cx, cy = rng.uniform(-.4, .4, 2) if centre else (0., 0.)
    e1, e2 = (0., 0.) if circ else rng.uniform(-.18, .18, 2)
    th = float(rng.uniform(.7, 1.4))
    kind = str(rng.choice(["EPL", "SIE", "NIE"]))
    if kind == "EPL":
        kw = [dict(theta_E=th, gamma=float(rng.uniform(1.75, 2.3)), e1=e1, e2=e2, center_x=cx, center_y=cy)]
    elif kind == "SIE":
        kw = [dict(theta_E=th, e1=e1, e2=e2, center_x=cx, center_y=cy)]
    else:
        kw = [dict(theta_E=th, e1=e1, e2=e2, s_scale=float(rng.uniform(.05, .2)), center_x=cx, center_y=cy)]
    models = [kind]
    if extra is None:
        extra = rng.random() < 0.6
    if extra:
        models += ["SHEAR"]
        kw += [dict(gamma1=float(rng.uniform(-.1, .1)), gamma2=float(rng.uniform(-.1, .1)), ra_0=cx, dec_0=cy)]
        if rng.random() < 0.4:
            models += ["SIS"]
            kw += [dict(theta_E=float(rng.uniform(.05, .15)), center_x=cx + float(rng.choice([-1, 1])) * 1.6, center_y=cy + float(rng.uniform(-1, 1)))]
    return LensModel(models), kw, models, cx, cy


def _move(kw, dx, dy):
    out = []
    for k in kw:
        k = dict(k)
        for a, d in (("center_x", dx), ("ra_0", dx), ("center_y", dy), ("dec_0", dy)):
            if a in k:
                k[a] = k[a] + d
        out.append(k)
    return out


def _det(L, kw, x, y):
    a, b, c, d = L.hessian(x, y, kw)
    return (1 - a) * (1 - d) - b * c


def _straddles(mon, key, L, kw, x, y, rad, **ctx):
    """det A changes sign (or the lens is singular) within rad of each reported point"""
    t = np.linspace(0, 2 * np.pi, 25)[:-1]
    rr = np.array([0.25, 0.6, 1.]) * rad
    px = x[:, None, None] + rr[:, None] * np.cos(t)
    py = y[:, None, None] + rr[:, None] * np.sin(t)
    d = _det(L, kw, px.ravel(), py.ravel()).reshape(len(x), -1)
    ok = (d.min(axis=1) <= 0) & (d.max(axis=1) >= 0)
    mon.check(key, bool(np.all(ok)), "critical point where the magnification does not change sign", bad=int((~ok).sum()), n=len(x),
              where=[float(x[~ok][0]), float(y[~ok][0])] if (~ok).any() else None, **ctx)


def _crit(mon, rng):
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions
    L, kw, models, cx, cy = _lens(rng)
    dx, dy = rng.uniform(-3, 3, 2)
    kw = _move(kw, dx, dy)
    cx, cy = cx + dx, cy + dy
    g = float(rng.choice([0.05, 0.04, 0.03]))
    win = float(rng.uniform(5, 6))
    E = LensModelExtensions(L)
    ra, dec, cra, cdec = E.critical_curve_caustics(kw, compute_window=win, grid_scale=g, center_x=cx, center_y=cy)
    mon.nontrivial("crit", models[0], len(models), len(ra))
    mon.check("crit/found", len(ra) >= 1 and max(len(r) for r in ra) > 20, "a critical curve is found", n=len(ra))
    allx, ally = np.concatenate(ra), np.concatenate(dec)
    _straddles(mon, "crit/points", L, kw, allx, ally, 2.1 * g, g=g, models=models)
    for i in range(len(ra)):
        bx, by = L.ray_shooting(ra[i], dec[i], kw)
        mon.close("crit/caustic", (cra[i], cdec[i]), (bx, by), 1e-9, 1e-9, "caustic is the image of the critical curve")
    # completeness: sign changes on random rays have a curve nearby
    for _ in range(6):
        t = rng.uniform(0, 2 * np.pi)
        r = np.arange(0.3, 2.2, g / 2)
        x, y = cx + r * np.cos(t), cy + r * np.sin(t)
        s = np.sign(_det(L, kw, x, y))
        for j in np.where(s[1:] * s[:-1] < 0)[0]:
            dist = np.min(np.hypot(allx - x[j], ally - y[j]))
            mon.check("crit/complete", dist < 3 * g, "crossing of det A = 0 without a critical curve", dist=float(dist), g=g)
    i = int(rng.integers(len(ra)))
    a = E.caustic_area(kw, dict(compute_window=win, grid_scale=g, center_x=cx, center_y=cy), index_vertices=i)
    X, Y = cra[i], cdec[i]
    shoe = abs(np.sum(X * np.roll(Y, -1) - np.roll(X, -1) * Y)) / 2
    closed = np.hypot(ra[i][0] - ra[i][-1], dec[i][0] - dec[i][-1]) < 1e-9
    if closed:
        mon.close("crit/area", a, shoe, 1e-8, 1e-12, "area within the caustic")


def _tiling(mon, rng):
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions
    L, kw, models, cx, cy = _lens(rng)
    dx, dy = rng.uniform(-3, 3, 2)
    kw = _move(kw, dx, dy)
    cx, cy = cx + dx, cy + dy
    order = int(rng.integers(6, 11))
    sc = float(rng.choice([.5, .3]))
    x, y = LensModelExtensions(L).critical_curve_tiling(kw, compute_window=5, start_scale=sc, max_order=order, center_x=cx, center_y=cy)
    mon.nontrivial("tiling", models[0], order)
    size = sc * np.sqrt(2) / 2 ** ((order - 2) / 2.) * 1.1
    mon.check("tiling/found", len(x) > 10, "critical points found", n=len(x))
    _straddles(mon, "tiling/points", L, kw, np.asarray(x), np.asarray(y), max(size, 2e-3), order=order, sc=sc)


def _mean_kappa(L, kw, R, cx, cy, k=None, n=400):
    """independent mean convergence within R by polar midpoint quadrature (exact for flux through the circle)"""
    t = (np.arange(n) + .5) / n * 2 * np.pi
    ax, ay = L.alpha(cx + R * np.cos(t), cy + R * np.sin(t), kw, k=k)
    return np.mean(ax * np.cos(t) + ay * np.sin(t)) / R


def _theta(mon, rng):
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis
    L, kw, models, cx, cy = _lens(rng)
    A = LensProfileAnalysis(L)
    gs = float(rng.choice([.05, .04]))
    sub = [True] + [bool(rng.random() < .4) for _ in models[1:]]
    k = None if rng.random() < .4 else sub
    r, prec = A.effective_einstein_radius_grid(kw, model_bool_list=k, grid_num=120, grid_spacing=gs, get_precision=True)
    mon.nontrivial("theta", models[0], len(models), k is not None)
    mon.check("theta/grid_sign", _mean_kappa(L, kw, r - 3 * gs, cx, cy, k) > 1 > _mean_kappa(L, kw, r + 2 * gs, cx, cy, k),
              "mean convergence one within the Einstein radius (grid)", r=float(r), k=k)
    mon.check("theta/value", A.effective_einstein_radius_grid(kw, model_bool_list=k, grid_num=120, grid_spacing=gs) == r, "same radius without precision output")
    ox, oy = rng.uniform(-.15, .15, 2)
    r2 = A.effective_einstein_radius_grid(kw, center_x=cx + ox, center_y=cy + oy, model_bool_list=k, grid_num=120, grid_spacing=gs)
    if not np.isnan(r2):
        mon.check("theta/given_centre", _mean_kappa(L, kw, r2 - 4.2 * gs, cx + ox, cy + oy, k) > 1 > _mean_kappa(L, kw, r2 + 2.5 * gs, cx + ox, cy + oy, k),
                  "mean convergence one about the given centre", r=float(r2))
    dx, dy = rng.uniform(-5, 5, 2)
    mv = _move(kw, dx, dy)
    mon.close("theta/moved", A.effective_einstein_radius_grid(mv, model_bool_list=k, grid_num=120, grid_spacing=gs), r, 0, 1.01 * prec, "moving the lens leaves its Einstein radius")
    # radial estimate for one dominant component
    L1, kw1, m1, cx, cy = _lens(rng, extra=False)
    A1 = LensProfileAnalysis(L1)
    e = A1.effective_einstein_radius(kw1, r_min=1e-3, r_max=10, num_points=60)
    mon.close("theta/radial", _mean_kappa(L1, kw1, float(e), cx, cy), 1., 0, 0.03, "mean convergence one within the Einstein radius (radial)", model=m1)
    Lc, kwc, mc, cx, cy = _lens(rng, extra=False, circ=True)
    e = LensProfileAnalysis(Lc).effective_einstein_radius(kwc, num_points=60, spherical_model=True)
    mon.close("theta/spherical", _mean_kappa(Lc, kwc, float(e), cx, cy), 1., 0, 0.03, "mean convergence one (spherical option)", model=mc)
    ra = np.geomspace(1e-3, 10, 80)
    T = float(rng.uniform(.3, 3))
    kr = T / 2 / ra
    kr0 = kr.copy()
    mon.close("theta/from_profile", A.effective_einstein_radius_from_radial_profile(ra, kr), T, 5e-3, 0, "Einstein radius of a tabulated isothermal profile")
    mon.check("theta/profile_input", np.array_equal(kr, kr0), "profile unchanged")


def _slope(mon, rng):
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis
    from lenstronomy.LensModel.lens_model import LensModel
    g = float(rng.uniform(1.6, 2.4))
    cx, cy = rng.uniform(-2, 2, 2)
    circ = rng.random() < .5
    e1, e2 = (0., 0.) if circ else rng.uniform(-.2, .2, 2)
    kw = [dict(theta_E=1.1, gamma=g, e1=e1, e2=e2, center_x=cx, center_y=cy)]
    R = float(rng.uniform(.5, 2))
    A = LensProfileAnalysis(LensModel(["EPL"]))
    mon.nontrivial("slope", circ)
    mon.close("slope/kappa", A.profile_slope(kw, R, alpha_differentials=False), g, 0, 0.02, "power-law slope from the convergence")
    mon.close("slope/alpha", A.profile_slope(kw, R), g, 0, 0.02, "power-law slope from the deflection")
    B = LensProfileAnalysis(LensModel(["EPL", "SHEAR", "SIS"]))
    kwb = kw + [dict(gamma1=.1, gamma2=-.05, ra_0=cx, dec_0=cy), dict(theta_E=.4, center_x=cx + .3, center_y=cy)]
    for ad in (True, False):
        mon.close("slope/select", B.profile_slope(kwb, R, model_list_bool=[True, False, False], alpha_differentials=ad),
                  A.profile_slope(kw, R, alpha_differentials=ad), 1e-9, 1e-10, "restricted to the selected components")
        mon.close("slope/select_other", B.profile_slope(kwb, R, center_x=cx + .3, center_y=cy, model_list_bool=[False, False, True], alpha_differentials=ad),
                  2., 0, 0.02, "slope of another component about its centre")


def _xi(mon, rng):
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis
    from lenstronomy.LensModel.lens_model import LensModel
    g = float(rng.uniform(1.7, 2.4))
    T = float(rng.uniform(.8, 1.3))
    cx, cy = rng.uniform(-2, 2, 2)
    R = float(rng.uniform(.8, 1.6))
    kw = [dict(theta_E=T, gamma=g, e1=0., e2=0., center_x=cx, center_y=cy)]
    A = LensProfileAnalysis(LensModel(["EPL"]))
    # alpha = T (r/T)^(2-g)
    a1 = (2 - g) * (R / T) ** (1 - g)
    a2 = (2 - g) * (1 - g) * (R / T) ** (-g) / T
    mon.nontrivial("xi", round(g, 1))
    xi = A.mst_invariant_differential(kw, R)
    mon.close("xi/power_law", xi, a2 / (1 - a1), 0.02, 5e-3, "xi of a circular power law", g=g, R=R, T=T, centre=(cx, cy))
    lam = float(rng.uniform(.7, 1.2))
    # mass sheet transform: alpha -> lam alpha + (1-lam) theta
    B = LensProfileAnalysis(LensModel(["EPL", "CONVERGENCE"]))
    kwb = [dict(kw[0], theta_E=T * lam ** (1 / (g - 1))), dict(kappa=1 - lam, ra_0=cx, dec_0=cy)]
    mon.close("xi/mst", B.mst_invariant_differential(kwb, R), xi, 5e-3, 1e-3, "invariant under the mass-sheet transform", lam=lam)
    mon.close("xi/centre", B.mst_invariant_differential(kwb, R, center_x=cx, center_y=cy), B.mst_invariant_differential(kwb, R), 1e-9, 1e-12, "explicit centre")
    mon.close("xi/select", B.mst_invariant_differential(kwb, R, model_list_bool=[True, False]), LensProfileAnalysis(LensModel(["EPL"])).mst_invariant_differential(kwb[:1], R),
              1e-6, 1e-8, "restricted to the selected components")


def _radial(mon, rng):
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis
    from lenstronomy.LensModel.lens_model import LensModel
    L, kw, models, cx, cy = _lens(rng)
    if mon.case["name"].endswith("/0"):
        L, kw, models, cx, cy = LensModel(["SIE"]), [dict(theta_E=1., e1=.25, e2=.05, center_x=.1, center_y=0.)], ["SIE"], .1, 0.
    A = LensProfileAnalysis(L)
    r = np.sort(rng.uniform(.3, 2, 4))
    sub = [True] + [bool(rng.random() < .5) for _ in models[1:]]
    k = None if rng.random() < .4 else sub
    ox, oy = (None, None) if rng.random() < .6 else (cx + .05, cy - .02)
    got = A.radial_lens_profile(r, kw, center_x=ox, center_y=oy, model_bool_list=k, num_azimuthal_points=(naz := 20 if kw[0].get('e1') == .25 else int(rng.choice([20, 64]))))
    ux, uy = (cx, cy) if ox is None else (ox, oy)
    t = (np.arange(720) + .3) / 720 * 2 * np.pi
    want = [np.mean(L.kappa(ux + R * np.cos(t), uy + R * np.sin(t), kw, k=k)) for R in r]
    sat = "SIS" in models and (k is None or k[-1])
    got, want = np.asarray(got, float), np.asarray(want, float)
    mon.nontrivial("radial", models[0], k is not None, ox is not None, sat)
    if not sat:
        # known finding: the first direction is counted twice (the mean over n points of the closed circle); told apart from any other deviation
        tc = np.linspace(0, 2 * np.pi, naz)
        twice = np.array([np.mean(L.kappa(ux + R * np.cos(tc), uy + R * np.sin(tc), kw, k=k)) for R in r])
        if np.shape(got) == np.shape(twice) and np.all(np.abs(got - twice) <= 1e-6 * np.abs(twice) + 1e-9) and not np.all(np.abs(got - want) <= 4e-3 * np.abs(want) + 1e-5):
            mon.event("check:radial")
            mon.violation("radial/first_direction_twice", "azimuthal average counts the first direction twice", got=got, want=want, models=models, kw=kw)
        else:
            mon.close("radial/lens", got, want, 4e-3, 1e-5, "azimuthally averaged convergence", models=models, kw=kw)
    al = A.local_lensing_effect(kw, ra_pos=cx + .7, dec_pos=cy - .4, model_list_bool=k)
    a = L.alpha(cx + .7, cy - .4, kw, k=k)
    h = L.hessian(cx + .7, cy - .4, kw, k=k)
    mon.close("radial/local", al, (a[0], a[1], (h[0] + h[3]) / 2, (h[0] - h[3]) / 2, h[1]), 1e-9, 1e-12, "local lensing effect of the selected components")


def _mge(mon, rng):
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis
    L, kw, models, cx, cy = _lens(rng)
    A = LensProfileAnalysis(L)
    k = [True] + [False] * (len(models) - 1)
    given = rng.random() < .5
    if given:
        a, s, ux, uy = A.multi_gaussian_lens(kw, center_x=cx, center_y=cy, model_bool_list=k, n_comp=20)
    else:
        a, s, ux, uy = A.multi_gaussian_lens(kw, model_bool_list=k, n_comp=20)
    mon.nontrivial("mge", models[0], given)
    mon.close("mge/centre", (ux, uy), (cx, cy), 1e-12, 1e-12, "centre of the decomposition")
    r = np.array([.2, .5, 1.])
    t = (np.arange(360) + .3) / 360 * 2 * np.pi
    want = np.array([np.mean(L.kappa(cx + R * np.cos(t), cy + R * np.sin(t), kw, k=k)) for R in r])
    got = sum(ai / (2 * np.pi * si ** 2) * np.exp(-r ** 2 / 2 / si ** 2) for ai, si in zip(a, s))
    mon.close("mge/kappa", got, want, 0.3, 1e-3, "radial convergence is approximated", models=models)


def _frac(mon, rng):
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis
    L, kw, models, cx, cy = _lens(rng)
    A = LensProfileAnalysis(L)
    ox, oy = cx + float(rng.uniform(-.3, .3)), cy + float(rng.uniform(-.3, .3))
    R = float(rng.uniform(.7, 1.8))
    got = A.mass_fraction_within_radius(kw, ox, oy, R, num_pix=300)
    mon.nontrivial("frac", models[0], len(models))
    mon.check("frac/len", len(got) == len(models), "one value per component")
    for i in range(len(models)):
        mon.close("frac/mean", got[i], _mean_kappa(L, kw, R, ox, oy, k=i), 0.07, 0.015, "mean convergence of each component", i=i, model=models[i])


def _peak(mon, rng):
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis
    from lenstronomy.LensModel.lens_model import LensModel
    cx, cy = rng.uniform(-.4, .4, 2)
    ox, oy = rng.uniform(-2, 2, 2)
    kw = [dict(theta_E=1., e1=.1, e2=-.05, s_scale=.1, center_x=ox + cx, center_y=oy + cy), dict(theta_E=1.5, center_x=ox - .3, center_y=oy + .3)]
    A = LensProfileAnalysis(LensModel(["NIE", "SIS"]))
    gs = .02
    x, y = A.convergence_peak(kw, model_bool_list=[True, False], grid_num=100, grid_spacing=gs, center_x_init=ox, center_y_init=oy)
    mon.nontrivial("peak", 1)
    mon.close("peak/position", (np.atleast_1d(x)[0], np.atleast_1d(y)[0]), (ox + cx, oy + cy), 0, .75 * gs, "position of the convergence peak of the selected component")
    x, y = A.convergence_peak(kw, model_bool_list=[False, True], grid_num=100, grid_spacing=gs, center_x_init=ox, center_y_init=oy)
    mon.close("peak/other", (np.atleast_1d(x)[0], np.atleast_1d(y)[0]), (ox - .3, oy + .3), 0, .75 * gs, "peak of the other component")


def _mdelta(mon, rng):
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis
    from lenstronomy.LensModel.lens_model import LensModel
    from astropy.cosmology import FlatLambdaCDM
    import astropy.units as u
    import astropy.constants as c
    cosmo = FlatLambdaCDM(H0=float(rng.uniform(60, 80)), Om0=float(rng.uniform(.2, .4)))
    zl, zs = float(rng.uniform(.1, .8)), float(rng.uniform(1, 3))
    T = float(rng.uniform(.5, 2))
    delta = float(rng.choice([200, 500, 1000]))
    dd, ds = cosmo.angular_diameter_distance(zl), cosmo.angular_diameter_distance(zs)
    dds = cosmo.angular_diameter_distance_z1z2(zl, zs)
    sig2 = (T * u.arcsec).to(u.rad).value * c.c ** 2 / 4 / np.pi * (ds / dds)
    rho = cosmo.critical_density(zl)
    r = np.sqrt(3 * 2 * sig2 / (4 * np.pi * c.G * delta * rho)).to(u.Mpc)
    m = (2 * sig2 * r / c.G).to(u.Msun).value
    for name, kw in (("SIS", dict(theta_E=T)), ("EPL", dict(theta_E=T, gamma=2., e1=0., e2=0.))):
        M, R = LensProfileAnalysis(LensModel([name])).m_delta_crit([dict(kw, center_x=.3, center_y=-.2)], zl, zs, cosmo, delta_crit=delta)
        mon.close(f"mdelta/radius/{name}", R, (r / dd).decompose().value * 206264.806, .01, 0, "radius of the over-density", delta=delta)
        mon.close(f"mdelta/mass/{name}", M, m, .02, 0, "mass of the over-density", delta=delta)
    mon.nontrivial("mdelta", delta)


def _light(mon, rng):
    from lenstronomy.Analysis.light_profile import LightProfileAnalysis
    from lenstronomy.LightModel.light_model import LightModel
    cx, cy = rng.uniform(-2, 2, 2)
    s = float(rng.uniform(.3, .6))
    e1, e2 = rng.uniform(-.25, .25, 2)
    amp = float(rng.uniform(.5, 5))
    M2 = LightModel(["GAUSSIAN_ELLIPSE", "SERSIC", "GAUSSIAN"])
    kw = [dict(amp=amp, sigma=s, e1=e1, e2=e2, center_x=cx, center_y=cy),
          dict(amp=1., R_sersic=.4, n_sersic=1., center_x=cx + .8, center_y=cy),
          dict(amp=2., sigma=.3, center_x=cx, center_y=cy - .5)]
    A = LightProfileAnalysis(M2)
    A1 = LightProfileAnalysis(LightModel(["GAUSSIAN_ELLIPSE"]))
    only = [True, False, False]
    mon.nontrivial("light", 1)
    for it in (False, True):
        got = A.ellipticity(kw, .06, 101, model_bool_list=only, iterative=it)
        mon.close("light/ellipticity", got, (e1, e2), 0, .02, "ellipticity of an elliptical Gaussian", iterative=it)
        mon.close("light/ellipticity_select", got, A1.ellipticity(kw[:1], .06, 101, iterative=it), 1e-9, 1e-12, "restricted to the selected component")
        mv = [dict(kw[0], center_x=cx + 3.3, center_y=cy - 1.7)]
        mon.close("light/ellipticity_moved", A1.ellipticity(mv, .06, 101, iterative=it), got, 1e-6, 1e-6, "independent of the position")
    rh = A.half_light_radius(kw, .05, 121, model_bool_list=[False, False, True], center_x=cx, center_y=cy - .5)
    mon.close("light/half_gauss", rh, .3 * np.sqrt(2 * np.log(2)), 0, .03, "half-light radius of a Gaussian")
    rh = A.half_light_radius(kw, .05, 161, model_bool_list=[False, True, False], center_x=cx + .8, center_y=cy)
    mon.close("light/half_sersic", rh, .4, 0, .04, "half-light radius of a Sersic profile")
    g = LightProfileAnalysis(LightModel(["SERSIC"])).half_light_radius(kw[1:2], .05, 161)
    mon.close("light/half_default", g, rh, 0, 1e-9, "default centre is that of the profile")
    r = np.sort(rng.uniform(.1, 1.2, 4))
    k = [True, False, bool(rng.random() < .5)]
    got = A.radial_light_profile(r, kw, model_bool_list=k)
    t = (np.arange(720) + .3) / 720 * 2 * np.pi
    want = [np.mean(M2.surface_brightness(cx + R * np.cos(t), cy + R * np.sin(t), kw, k=k)) for R in r]
    mon.close("light/radial", got, want, 2e-2, 1e-4, "azimuthally averaged surface brightness", k=k)
    got = A1.radial_light_profile(r, kw[:1])
    want = [np.mean(M2.surface_brightness(cx + R * np.cos(t), cy + R * np.sin(t), kw, k=only)) for R in r]
    mon.close("light/radial_one", got, want, 3e-3, 1e-5, "azimuthally averaged surface brightness of one component")
    f, rr = A.flux_components(kw, grid_num=200, grid_spacing=.03)
    tot = M2.total_flux(kw)
    mon.close("light/flux", np.array(f)[[0, 2]], np.array(tot)[[0, 2]], 1e-2, 0, "flux of each component")
    mon.close("light/flux_sersic", f[1], tot[1], 3e-2, 0, "flux of the Sersic component")
    mon.close("light/flux_radius", (rr[1], rr[2]), (.4, .3 * np.sqrt(2 * np.log(2))), 0, .04, "half-light radii of the components")


def _lightmge(mon, rng):
    from lenstronomy.Analysis.light_profile import LightProfileAnalysis
    from lenstronomy.LightModel.light_model import LightModel
    cx, cy = rng.uniform(-2, 2, 2)
    e1, e2 = rng.uniform(-.15, .15, 2)
    M = LightModel(["SERSIC_ELLIPSE", "GAUSSIAN"])
    kw = [dict(amp=float(rng.uniform(.5, 5)), R_sersic=.5, n_sersic=float(rng.uniform(1, 2.5)), e1=e1, e2=e2, center_x=cx, center_y=cy),
          dict(amp=8., sigma=.3, center_x=cx + .6, center_y=cy)]
    A = LightProfileAnalysis(M)
    only = [True, False]
    a, s, ux, uy = A.multi_gaussian_decomposition(kw, model_bool_list=only, n_comp=20, grid_spacing=.05, grid_num=120)
    mon.close("light/mge_centre", (ux, uy), (cx, cy), 1e-12, 1e-12, "centre")
    r = np.array([.1, .3, .6, 1.])
    t = (np.arange(360) + .3) / 360 * 2 * np.pi
    want = np.array([np.mean(M.surface_brightness(cx + R * np.cos(t), cy + R * np.sin(t), kw, k=only)) for R in r])
    got = sum(ai / (2 * np.pi * si ** 2) * np.exp(-r ** 2 / 2 / si ** 2) for ai, si in zip(a, s))
    mon.close("light/mge_profile", got, want, .1, 1e-3, "multi-Gaussian profile")
    k = A.multi_gaussian_decomposition_ellipse(kw, model_bool_list=only, grid_num=100, grid_spacing=.05, n_comp=20)
    G = LightModel(["MULTI_GAUSSIAN_ELLIPSE"])
    x, y = cx + rng.uniform(-.7, .7, 12), cy + rng.uniform(-.7, .7, 12)
    far = np.hypot(x - cx, y - cy) > .1
    mon.close("light/mge_ellipse", G.surface_brightness(x, y, [k])[far], M.surface_brightness(x, y, kw, k=only)[far], .35, 1e-2, "elliptical multi-Gaussian follows the light", e=(e1, e2))
    mon.nontrivial("lightmge", 1)


def _finite(mon, rng):
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions
    from lenstronomy.LightModel.light_model import LightModel
    L, kw, models, cx, cy = _lens(rng)
    E = LensModelExtensions(L)
    xs, ys, mus = [], [], []
    while len(xs) < 3:
        r, t = rng.uniform(.4, 2.), rng.uniform(0, 2 * np.pi)
        x, y = cx + r * np.cos(t), cy + r * np.sin(t)
        mu = L.magnification(x, y, kw)
        near = [float(L.magnification(x + a, y + b, kw)) for a, b in ((.1, 0), (-.1, 0), (0, .1), (0, -.1))]
        if .3 < abs(mu) < 6 and all(np.sign(m) == np.sign(mu) and abs(m / mu - 1) < .5 for m in near):
            xs.append(float(x)); ys.append(float(y)); mus.append(abs(float(mu)))
    mus = np.array(mus)
    sig = .002
    mon.nontrivial("finite", models[0], len(models))
    for polar in (False, True):
        got = E.magnification_finite(np.array(xs), np.array(ys), kw, source_sigma=sig, window_size=.16, grid_number=160, polar_grid=polar, aspect_ratio=.9)
        mon.close("finite/grid", got, mus, .02, 0, "finite magnification of a tiny source", polar=polar)
    bx, by = L.ray_shooting(xs[0], ys[0], kw)
    src = LightModel(["GAUSSIAN"])
    ks = [dict(amp=1., sigma=sig, center_x=float(bx), center_y=float(by))]
    q = float(rng.choice([0, .5, 1.]))
    big = bool(rng.random() < .5)
    fixed = bool(rng.random() < .3)
    got = E.magnification_finite_adaptive(xs[:1], ys[:1], kw, src, ks, grid_resolution=.0006, grid_radius_arcsec=.09, axis_ratio=q,
                                          use_largest_eigenvalue=big, fixed_aperture_size=fixed and q == 1.)
    mon.close("finite/adaptive", got, mus[:1], .08, 0, "adaptive finite magnification", q=q, big=big)
    z = E.zoom_source(xs[1], ys[1], kw, source_sigma=.003, window_size=.1, grid_number=40)
    u, v = L.ray_shooting(xs[1], ys[1], kw)
    g = (np.arange(40) - 19.5) * .1 / 40
    X, Y = np.meshgrid(g + xs[1], g + ys[1])
    a, b = L.ray_shooting(X, Y, kw)
    want = np.exp(-((a - u) ** 2 + (b - v) ** 2) / 2 / .003 ** 2) / 2 / np.pi / .003 ** 2
    mon.close("finite/zoom", z, want, 1e-7, 1e-6 * want.max(), "zoomed image")


def _stretch(mon, rng):
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions
    L, kw, models, cx, cy = _lens(rng)
    E = LensModelExtensions(L)
    n = 4
    r, t = rng.uniform(.3, 2, n), rng.uniform(0, 2 * np.pi, n)
    x, y = cx + r * np.cos(t), cy + r * np.sin(t)
    w1, w2, a, b, c, d = E.hessian_eigenvectors(x, y, kw)
    f = L.hessian(x, y, kw)
    mon.nontrivial("stretch", models[0], len(models))
    for i in range(n):
        A = np.array([[1 - f[0][i], -f[1][i]], [-f[2][i], 1 - f[3][i]]])
        for w, v in ((w1[i], (a[i], b[i])), (w2[i], (c[i], d[i]))):
            mon.close("stretch/eigen", A @ np.array(v), w * np.array(v), 1e-5, 1e-5, "eigenvectors of the lensing Jacobian")
        s = E.hessian_eigenvectors(float(x[i]), float(y[i]), kw)
        mon.close("stretch/scalar", s, (w1[i], w2[i], a[i], b[i], c[i], d[i]), 1e-5, 1e-5, "scalar and array calls agree")
    fr = bool(rng.random() < .5)
    lr, lt, r1, r2, t1, t2 = E.radial_tangential_stretch(x, y, kw, ra_0=cx, dec_0=cy, coordinate_frame_definitions=fr)
    mu = L.magnification(x, y, kw)
    mon.close("stretch/product", lr * lt, mu, 1e-5, 1e-7, "stretches multiply to the magnification")
    mon.check("stretch/outward", bool(np.all(r1 * (x - cx) + r2 * (y - cy) >= -1e-12)), "radial direction points outward")
    mon.check("stretch/orient", bool(np.all(r1 * t2 - r2 * t1 > 0)), "right-handed frame")
    for i in range(n):
        s = E.radial_tangential_stretch(float(x[i]), float(y[i]), kw, ra_0=cx, dec_0=cy, coordinate_frame_definitions=fr)
        mon.close("stretch/rt_scalar", s, (lr[i], lt[i], r1[i], r2[i], t1[i], t2[i]), 1e-4, 1e-5, "scalar and array calls agree")
    # circular power law: analytic
    from lenstronomy.LensModel.lens_model import LensModel
    g, T = float(rng.uniform(1.7, 2.3)), 1.
    C = LensModelExtensions(LensModel(["EPL"]))
    kc = [dict(theta_E=T, gamma=g, e1=0., e2=0., center_x=cx, center_y=cy)]
    rr = np.where(np.abs(r - 1) < .1, 1.3, r)
    x, y = cx + rr * np.cos(t), cy + rr * np.sin(t)
    out = C.radial_tangential_differentials(x, y, kc, center_x=cx, center_y=cy)
    ap, a0 = (2 - g) * rr ** (1 - g), rr ** (1 - g)
    mon.close("stretch/rad", out[0], 1 / (1 - ap), 1e-5, 1e-6, "radial stretch of a circular lens")
    mon.close("stretch/tan", out[1], 1 / (1 - a0), 1e-5, 1e-6, "tangential stretch of a circular lens")
    mon.close("stretch/angle", out[2], np.zeros(n), 0, 1e-4, "tangential direction of a circular lens")
    want = (1 - g) * rr ** (-g) / (1 - a0) ** 2
    mon.close("stretch/dtan_drad", out[4], want, .02, 2e-3 * np.max(np.abs(want)), "radial derivative of the tangential stretch")
    want = (2 - g) * (1 - g) * rr ** (-g) / (1 - ap) ** 2
    mon.close("stretch/drad_drad", out[5], want, .02, 5e-3, "radial derivative of the radial stretch")
    mon.close("stretch/dphi", out[7], 1 / rr, .02, 5e-3, "curvature of the tangential direction")
    i = 0
    av = C.tangential_average(float(x[i]), float(y[i]), kc, dr=.02, num_average=9)
    mon.close("stretch/average", av, 1 / (1 - a0[i]), .05, 1e-2, "tangential stretch averaged over a small radial range")


def _arc(mon, rng):
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions
    from lenstronomy.LensModel.lens_model import LensModel
    # circular isothermal lens at the origin: curvature 1/r, direction radial
    g = float(rng.uniform(1.8, 2.2))
    r, t = float(rng.uniform(1.25, 2.)), float(rng.uniform(-np.pi, np.pi))
    x, y = r * np.cos(t), r * np.sin(t)
    L = LensModel(["EPL"])
    kw = [dict(theta_E=1., gamma=g, e1=0., e2=0., center_x=0., center_y=0.)]
    E = LensModelExtensions(L)
    ap, a0 = (2 - g) * r ** (1 - g), r ** (1 - g)
    want = dict(radial_stretch=1 / (1 - ap), tangential_stretch=1 / (1 - a0), curvature=1 / r)
    for name, k in (("estimate", E.curved_arc_estimate(x, y, kw, tan_diff=bool(rng.random() < .5))), ("finite", E.curved_arc_finite_area(x, y, kw, dr=.02))):
        for p, v in want.items():
            mon.close(f"arc/{name}/{p}", k[p], v, .03, 0, "curved arc of a circular lens", r=r, t=t)
        mon.close(f"arc/{name}/direction", np.cos(k["direction"] - t), 1., 0, 1e-3, "direction of the arc")
        mon.close(f"arc/{name}/position", (k["center_x"], k["center_y"]), (x, y), 1e-12, 1e-12, "position of the arc")
    mon.nontrivial("arc", round(g, 1))
    # the estimated arc reproduces the lens around the position
    L2, kw2, models, cx, cy = _lens(rng, centre=False, extra=False)
    E2 = LensModelExtensions(L2)
    r = float(rng.uniform(1.5, 2.2))
    x, y = r * np.cos(t), r * np.sin(t)
    k = E2.curved_arc_estimate(x, y, kw2)
    C = LensModel(["CURVED_ARC_SIS_MST"])
    h1, h2 = L2.hessian(x, y, kw2), C.hessian(x, y, [k])
    mon.close("arc/model", h2, h1, 1e-3, 2e-3, "Hessian of the arc model is that of the lens it was estimated from", models=models)


def _td(mon, rng):
    from lenstronomy.Analysis.td_cosmography import TDCosmography
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
    from astropy.cosmology import FlatLambdaCDM
    L, kw, models, cx, cy = _lens(rng)
    zl, zs = float(rng.uniform(.2, .8)), float(rng.uniform(1.2, 3))
    cosmo = FlatLambdaCDM(H0=float(rng.uniform(60, 80)), Om0=float(rng.uniform(.2, .4)))
    bx, by = cx + .05, cy - .04
    x, y = LensEquationSolver(L).image_position_from_source(bx, by, kw, min_distance=.05, search_window=6, x_center=cx, y_center=cy)
    if len(x) < 2:
        mon.event("td:no_images")
        return
    km = dict(lens_model_list=models, point_source_model_list=["LENSED_POSITION"], lens_light_model_list=["SERSIC"])
    T = TDCosmography(z_lens=zl, z_source=zs, kwargs_model=km, cosmo_fiducial=cosmo, kinematics_backend="galkin")
    kps = [dict(ra_image=x, dec_image=y)]
    phi = T.fermat_potential(kw, kps, original_ps_position=True)
    b = L.ray_shooting(x, y, kw)
    want = ((x - np.mean(b[0])) ** 2 + (y - np.mean(b[1])) ** 2) / 2 - L.potential(x, y, kw)
    mon.close("td/fermat", phi, want, 1e-8, 1e-8, "Fermat potential of the images")
    ke = float(rng.uniform(-.1, .1))
    dt = T.time_delays(kw, kps, kappa_ext=ke, original_ps_position=True)
    dd, ds = [cosmo.angular_diameter_distance(z).value for z in (zl, zs)]
    dds = cosmo.angular_diameter_distance_z1z2(zl, zs).value
    ddt = (1 + zl) * dd * ds / dds
    days = ddt * 3.0856775814913673e22 / 299792458. / 86400. * (np.pi / 180 / 3600) ** 2
    mon.close("td/delay", dt, days * want * (1 - ke), 2e-4, 1e-6, "time delays with external convergence")
    d0 = T.time_delays(kw, kps, original_ps_position=True)
    mon.close("td/inverse", T.ddt_from_time_delay(phi[1] - phi[0], d0[1] - d0[0]), ddt, 2e-4, 0, "time-delay distance from the delay")
    ks, kds, kd = rng.uniform(-.1, .1, 3)
    mon.close("td/kappas", T.ddt_from_time_delay(phi[1] - phi[0], d0[1] - d0[0], kappa_s=ks, kappa_ds=kds, kappa_d=kd), ddt * (1 - kds) / (1 - ks) / (1 - kd), 2e-4, 0, "line-of-sight correction")
    J = float(rng.uniform(1e-6, 3e-6))
    sv = np.sqrt(J * ds / dds) * 299792.458
    mon.close("td/kin", T.ds_dds_from_kinematics(sv, J), ds / dds, 1e-6, 0, "distance ratio from kinematics")
    a, c = T.ddt_dd_from_time_delay_and_kinematics(phi[1] - phi[0], d0[1] - d0[0], sv, J)
    mon.close("td/joint", (a, c), (ddt, dd), 3e-4, 0, "both distances")
    mon.nontrivial("td", len(x))

"""C04: a single-plane lens model is the pointwise sum of its components."""
import copy
import numpy as np
import lenscat as LC

RULE = ("one signature per (kind, profile or component-name multiset, selection kind); random component lists drawn from the whole "
        "profile catalogue, compared with freshly built one-component models")
ASSUMPTIONS = ["positions within 6 arcsec; components drawn from the documented parameter ranges",
               "finite-difference derived quantities compared at the accuracy of their step length"]
REQUIRED = ["check:sum", "check:select", "check:perm", "check:shape", "check:derived", "check:scaling", "check:mass", "check:flexion"]
TIMEOUT = 200

SLOW = {n for n in ("SERSIC_ELLIPSE_GAUSS_DEC", "NFW_ELLIPSE_GAUSS_DEC", "CTNFW_GAUSS_DEC", "GreenBoschNFW", "TNFWC", "PSEUDO_DPL",
                    "GNFW", "NFW_MC", "NFW_MC_ELLIPSE_POTENTIAL", "ARC_PERT", "SERSIC", "SERSIC_ELLIPSE_POTENTIAL",
                    "SERSIC_ELLIPSE_KAPPA", "GNFW_ELLIPSE_GAUSS_DEC") if n in LC.G}


def cases(tier, seed):
    out = []
    for n in LC.names():
        for i, v in enumerate(LC.init_variants(n)):
            out.append(dict(name="shape/%s/%d" % (n, i), kind="shape", prof=n, init=v, group=n, reps=2 if tier == "quick" else 8))
    m = 70 if tier == "quick" else 500
    for i in range(m):
        out.append(dict(name="sum/%d" % i, kind="sum", group="sum", cost=2))
    for i in range(10 if tier == "quick" else 60):
        out.append(dict(name="scaling/%d" % i, kind="scaling", group="scaling"))
    for i in range(10 if tier == "quick" else 60):
        out.append(dict(name="mass/%d" % i, kind="mass", group="mass"))
    return out


# profiles that document their potential as not available (C01 checks that they raise)
NO_POT = {"SERSIC_ELLIPSE_KAPPA", "TNFWC", "PSEUDO_DPL", "CURVED_ARC_CONST", "CURVED_ARC_SPT", "SPL_CORE"}


def run_shape(case, mon, rng):
    n = case["prof"]
    for rep in range(case["reps"]):
        kw = LC.params(n, rng)
        lm = LC.model(n, case["init"])
        cx, cy = LC.center_of(kw)
        npt = int(rng.integers(3, 9))
        x = cx + rng.normal(size=npt) * rng.choice([.3, 1., 3.])
        y = cy + rng.normal(size=npt) * rng.choice([.3, 1., 3.])
        # hostile: duplicated points, axis points, points far apart in radius in the same array
        x[1], y[1] = x[0], y[0]
        if npt > 4:
            y[2] = cy
            x[3] = cx
            x[4], y[4] = cx + 25 * rng.normal(), cy + 25 * rng.normal()
        order = rng.permutation(npt)
        half = np.sort(rng.permutation(npt)[:max(1, npt // 2)])
        for q in ("potential", "alpha", "hessian"):
            f = getattr(lm, q)
            if q == "potential" and n in NO_POT:
                mon.event("unsupported:" + q)
                continue
            full = np.atleast_2d(np.array(f(x, y, [kw]), dtype=float))
            mon.check("shape/%s/%s" % (n, q), full.shape[-1] == npt, "array of %d positions gave shape %s" % (npt, full.shape))
            if full.shape[-1] != npt:
                continue
            sc = np.array([np.atleast_1d(np.array(f(float(a), float(b), [kw]), dtype=float)) for a, b in zip(x, y)]).T
            fin = np.isfinite(full) & np.isfinite(sc)
            mon.check("finite/%s/%s" % (n, q), np.all(np.isnan(full) == np.isnan(sc)), "array and scalar evaluation disagree on NaN",
                      x=x, y=y, kw=kw)
            # several profiles differentiate numerically: rounding noise of the step length
            a = (1e-5 if q == "hessian" else 1e-7) * (1 + np.max(np.abs(full[np.isfinite(full)]), initial=0) * 1e-2)
            if n.startswith("CNFW"):      # the closed form loses digits where r_core ~ Rs: rounding noise, not position mixing
                a = 1e-3 * (1 + np.max(np.abs(full[np.isfinite(full)]), initial=0))
            mon.close("shape/%s/%s" % (n, q), np.where(fin, sc, 0), np.where(fin, full, 0), rtol=1e-7, atol=a, msg="scalar vs array",
                      x=x, y=y, kw=kw)
            for nm, ind in (("permuted", order), ("part", half)):
                got = np.atleast_2d(np.array(f(x[ind], y[ind], [kw]), dtype=float))
                w = full[:, ind]
                fin = np.isfinite(w) & np.isfinite(got)
                mon.close("shape/%s/%s" % (n, q), np.where(fin, got, 0), np.where(fin, w, 0), rtol=1e-7, atol=a, msg=nm + " array",
                          x=x, y=y, kw=kw)
                mon.check("finite/%s/%s" % (n, q), np.all(np.isnan(got) == np.isnan(w)), nm)
            # one-element array
            got = np.atleast_2d(np.array(f(x[:1], y[:1], [kw]), dtype=float))
            mon.close("shape/%s/%s" % (n, q), np.where(np.isfinite(full[:, :1]), got, 0), np.where(np.isfinite(full[:, :1]), full[:, :1], 0),
                      rtol=1e-7, atol=a, msg="one-element array", kw=kw)
            mon.nontrivial("shape", n, str(case["init"]), q)


def draw(rng, nmax=5, exclude=()):
    names = [n for n in LC.names() if n not in SLOW and n not in exclude]
    n = int(rng.integers(1, nmax + 1))
    lst = list(rng.choice(names, size=n))
    if rng.integers(0, 5) == 0:
        lst.append(str(rng.choice(sorted(SLOW - set(exclude)))))
    if n > 1 and rng.integers(0, 2):
        lst[-1] = lst[0]                       # repeated profile
    kws, inits = [], []
    for nm in lst:
        iv = LC.init_variants(nm)
        inits.append(dict(iv[int(rng.integers(len(iv)))]))
        kws.append(LC.params(nm, rng))
    if rng.integers(0, 3) == 0:                # same profile twice with different per-instance settings
        cand = [k for k in LC.names() if len(LC.init_variants(k)) > 1]
        nm = str(rng.choice(cand))
        for v in LC.init_variants(nm):
            lst.append(nm)
            inits.append(dict(v))
            kws.append(LC.params(nm, rng))
    p = rng.permutation(len(lst))
    return [str(lst[i]) for i in p], [kws[i] for i in p], [inits[i] for i in p]


def build(lst, inits, **kw):
    from lenstronomy.LensModel.lens_model import LensModel
    pk = [copy.deepcopy(v) if v else None for v in inits]
    return LensModel(lst, z_lens=0.5, z_source=kw.pop("z_source", 1.5), lens_redshift_list=[0.5] * len(lst),
                     profile_kwargs_list=[({} if v is None else v) for v in pk], **kw)


def singles(lst, kws, inits, x, y):
    """potential (or None), alpha, hessian of each component from its own freshly built model."""
    out = []
    for nm, kw, iv in zip(lst, kws, inits):
        m = build([nm], [iv])
        h = np.array(m.hessian(x, y, [kw]), dtype=float)
        a = np.array(m.alpha(x, y, [kw]), dtype=float)
        p = None if nm in NO_POT else np.array(m.potential(x, y, [kw]), dtype=float)
        out.append((p, a, h))
    return out


def run_sum(case, mon, rng):
    lst, kws, inits = draw(rng)
    mon.sample(models=lst)
    n = len(lst)
    slow = any(v in SLOW for v in lst)
    npt = 3 if slow else 6
    x, y = rng.uniform(-4, 4, npt), rng.uniform(-4, 4, npt)
    parts = singles(lst, kws, inits, x, y)
    lm = build(lst, inits)
    sig = ",".join(sorted(lst))
    ctx = dict(models=lst, kwargs=kws)

    def tot(sel):
        P = None if any(parts[i][0] is None for i in sel) else sum([parts[i][0] for i in sel], np.zeros(npt))
        A = sum([parts[i][1] for i in sel], np.zeros((2, npt)))
        H = sum([parts[i][2] for i in sel], np.zeros((4, npt)))
        return P, A, H

    scale = 1 + max(np.nanmax(np.abs(p[2])) for p in parts)
    scale = min(scale, 1e6)
    if any(v.startswith("CNFW") for v in lst):
        scale *= 1e3

    def compare(tag, k, sel, m=lm, kw=kws):
        P, A, H = tot(sel)
        ok = np.all(np.isfinite(H), axis=0) & np.all(np.isfinite(A), axis=0)
        if not np.any(ok):
            return
        if P is not None and np.all(np.isfinite(P)):
            mon.close(tag + "/potential", m.potential(x, y, kw, k=k), P, rtol=1e-7, atol=1e-8 * scale, k=str(k), **ctx)
        mon.close(tag + "/alpha", np.array(m.alpha(x, y, kw, k=k))[:, ok], A[:, ok], rtol=1e-7, atol=1e-8 * scale, k=str(k), **ctx)
        mon.close(tag + "/hessian", np.array(m.hessian(x, y, kw, k=k))[:, ok], H[:, ok], rtol=1e-7, atol=1e-7 * scale, k=str(k), **ctx)

    compare("sum", None, range(n))
    mon.nontrivial("sum", sig)
    # selections
    for k in range(n):
        compare("select", k, [k])
    sub = sorted(rng.permutation(n)[:int(rng.integers(1, n + 1))].tolist())
    compare("select", sub, sub)
    compare("select", tuple(sub), sub)
    compare("select", list(reversed(sub)), sub)
    compare("select", np.array(sub), sub)
    compare("select", [bool(i in sub) for i in range(n)], sub)
    compare("select", [], [])
    mon.nontrivial("select", n, tuple(sub))
    # evaluating subsets must not have changed the whole
    compare("sum", None, range(n))
    # order of components
    p = rng.permutation(n)
    lm2 = build([lst[i] for i in p], [inits[i] for i in p])
    compare("perm", None, range(n), m=lm2, kw=[kws[i] for i in p])
    # repeated evaluation with different parameters in between
    kws2 = [LC.params(nm, rng) for nm in lst]
    lm.alpha(x, y, kws2), lm.hessian(x, y, kws2)
    compare("sum", None, range(n))
    # derived quantities
    sel, k = (range(n), None) if rng.integers(0, 2) else (sub, sub)
    P, A, H = tot(sel)
    ok = np.all(np.isfinite(H), axis=0) & np.all(np.isfinite(A), axis=0)
    if not np.all(ok):
        return
    fxx, fxy, fyx, fyy = H
    cx = dict(rtol=1e-7, atol=1e-7 * scale)
    mon.close("derived/kappa", lm.kappa(x, y, kws, k=k), .5 * (fxx + fyy), **cx, **ctx)
    g1, g2 = lm.gamma(x, y, kws, k=k)
    mon.close("derived/gamma1", g1, .5 * (fxx - fyy), **cx, **ctx)
    mon.close("derived/gamma2", g2, fxy, **cx, **ctx)
    mon.close("derived/curl", lm.curl(x, y, kws, k=k), fxy - fyx, **cx, **ctx)
    det = (1 - fxx) * (1 - fyy) - fxy * fyx
    mon.close("derived/magnification", 1 / np.asarray(lm.magnification(x, y, kws, k=k)), det, rtol=1e-6, atol=1e-6 * scale ** 2, **ctx)
    bx, by = lm.ray_shooting(x, y, kws, k=k)
    mon.close("derived/ray_shooting", [bx, by], [x - A[0], y - A[1]], **cx, **ctx)
    P, A, H = tot(range(n))
    if P is not None:
        mon.close("derived/fermat", lm.fermat_potential(x, y, kws), .5 * (A[0] ** 2 + A[1] ** 2) - P, rtol=1e-6, atol=1e-7 * scale * (1 + np.max(np.abs(A))), **ctx)
        s1, s2 = rng.normal(size=2)
        mon.close("derived/fermat_src", lm.fermat_potential(x, y, kws, x_source=s1, y_source=s2),
                  .5 * ((x - s1) ** 2 + (y - s2) ** 2) - P, rtol=1e-6, atol=1e-7 * scale, **ctx)
    # finite-difference variants: equal the finite differences of the summed field
    if slow and case["name"][-1] not in "05":
        return
    d = 1e-3
    one = [build([lst[i]], [inits[i]]) for i in range(n)]
    for meth in ("square", "cross"):
        def al(px, py):
            return sum([np.array(one[i].alpha(px, py, [kws[i]])) for i in sel], np.zeros((2, npt)))
        if meth == "square":
            pp, pn, np_, nn = al(x + d / 2, y + d / 2), al(x + d / 2, y - d / 2), al(x - d / 2, y + d / 2), al(x - d / 2, y - d / 2)
            w = [(pp - np_ + pn - nn)[0] / d / 2, (pp - pn + np_ - nn)[0] / d / 2, (pp - np_ + pn - nn)[1] / d / 2, (pp - pn + np_ - nn)[1] / d / 2]
        else:
            dx, dy = (al(x + d / 2, y) - al(x - d / 2, y)) / d, (al(x, y + d / 2) - al(x, y - d / 2)) / d
            w = [dx[0], dy[0], dx[1], dy[1]]
        if np.all(np.isfinite(w)):
            mon.close("derived/hessian_diff_" + meth, lm.hessian(x, y, kws, k=k, diff=d, diff_method=meth), w, rtol=1e-5, atol=1e-5 * scale, **ctx)
            mon.close("derived/kappa_diff", lm.kappa(x, y, kws, k=k, diff=d, diff_method=meth), .5 * (w[0] + w[3]), rtol=1e-5, atol=1e-5 * scale, **ctx)
            mon.close("derived/gamma_diff", lm.gamma(x, y, kws, k=k, diff=d, diff_method=meth), [.5 * (w[0] - w[3]), w[1]], rtol=1e-5,
                      atol=1e-5 * scale, **ctx)
    if P is not None:
        def pot(px, py):
            return sum([np.array(one[i].potential(px, py, [kws[i]])) for i in sel], np.zeros(npt))
        w = [(pot(x + d / 2, y) - pot(x - d / 2, y)) / d, (pot(x, y + d / 2) - pot(x, y - d / 2)) / d]
        if np.all(np.isfinite(w)):
            mon.close("derived/alpha_diff", lm.alpha(x, y, kws, k=k, diff=d), w, rtol=1e-5, atol=1e-5 * scale, **ctx)
    # flexion is the derivative of the Hessian
    d = 1e-3
    def hs(px, py):
        return sum([np.array(one[i].hessian(px, py, [kws[i]])) for i in sel], np.zeros((4, npt)))
    hx = (hs(x + d / 2, y) - hs(x - d / 2, y)) / d
    hy = (hs(x, y + d / 2) - hs(x, y - d / 2)) / d
    w = np.array([hx[0], hy[0], hy[1], hy[3]])
    if np.all(np.isfinite(w)):
        mon.close("flexion", lm.flexion(x, y, kws, k=k, diff=d), w, rtol=1e-4, atol=1e-4 * scale, **ctx)
        sm = np.array([hx[1], hx[2], hx[3]])
        # mixed third derivatives commute where the field is smooth
        mon.event("flexion_smooth", int(np.sum(np.abs(sm[0] - w[1]) < 1e-3)))


def run_scaling(case, mon, rng):
    """A source redshift other than the reference one scales every component and every selection alike."""
    from astropy.cosmology import FlatLambdaCDM
    lst, kws, inits = draw(rng, 3, exclude=("NFW_MC", "NFW_MC_ELLIPSE_POTENTIAL"))
    n = len(lst)
    cosmo = FlatLambdaCDM(H0=float(rng.uniform(60, 80)), Om0=float(rng.uniform(.2, .4)))
    zl, zs, zc = float(rng.uniform(.2, .6)), float(rng.uniform(.9, 3)), float(rng.uniform(.9, 4))

    def beta(z):
        return (cosmo.angular_diameter_distance_z1z2(zl, z) / cosmo.angular_diameter_distance(z)).value
    sc = beta(zs) / beta(zc)
    from lenstronomy.LensModel.lens_model import LensModel
    lm = LensModel(lst, z_lens=zl, z_source=zs, z_source_convention=zc, cosmo=cosmo, profile_kwargs_list=copy.deepcopy(inits))
    x, y = rng.uniform(-4, 4, 5), rng.uniform(-4, 4, 5)
    parts = singles(lst, kws, inits, x, y)
    big = 1 + max(np.nanmax(np.abs(p[2])) for p in parts)
    ctx = dict(models=lst, kwargs=kws, zl=zl, zs=zs, zc=zc)
    for k in [None] + list(range(n)) + [[0], [True] + [False] * (n - 1)]:
        sel = range(n) if k is None else ([k] if isinstance(k, int) else [0])
        kk = "int" if isinstance(k, int) else type(k).__name__
        A = sum(parts[i][1] for i in sel) * sc
        H = sum(parts[i][2] for i in sel) * sc
        if not np.all(np.isfinite(H)):
            continue
        mon.close("scaling/alpha/" + kk, lm.alpha(x, y, kws, k=k), A, rtol=1e-6, atol=1e-7 * big, k=str(k), **ctx)
        mon.close("scaling/hessian/" + kk, lm.hessian(x, y, kws, k=k), H, rtol=1e-6, atol=1e-7 * big, k=str(k), **ctx)
        mon.close("scaling/ray_shooting/" + kk, lm.ray_shooting(x, y, kws, k=k), [x - A[0], y - A[1]], rtol=1e-6, atol=1e-7 * big, **ctx)
        mon.close("scaling/kappa/" + kk, lm.kappa(x, y, kws, k=k), .5 * (H[0] + H[3]), rtol=1e-6, atol=1e-7 * big, **ctx)
        if all(parts[i][0] is not None for i in sel):
            mon.close("scaling/potential/" + kk, lm.potential(x, y, kws, k=k), sum(parts[i][0] for i in sel) * sc, rtol=1e-6, atol=1e-7 * big, **ctx)
    mon.nontrivial("scaling", ",".join(sorted(lst)), round(sc, 2))


MASS = ["SIS", "NFW", "HERNQUIST", "PJAFFE", "SPP", "TNFW", "CORED_DENSITY", "NFW", "SIS", "COREDNFW", "CNFW", "SPL_CORE", "GAUSSIAN"]


def run_mass(case, mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    pool = [m for m in MASS if m in LC.G]
    lst = [str(v) for v in rng.choice(pool, size=int(rng.integers(2, 5)))]
    kws = [LC.params(nm, rng) for nm in lst]
    lm = LensModel(lst).lens_model
    r = np.exp(rng.uniform(np.log(.05), np.log(10), 4))
    n = len(lst)
    sub = sorted(rng.permutation(n)[:int(rng.integers(1, n + 1))].tolist())
    for q in ("mass_3d", "mass_2d", "density"):
        one = []
        for nm, kw in zip(lst, kws):
            try:
                one.append(np.array(getattr(LensModel([nm]).lens_model, q)(r, [kw]), dtype=float))
            except (AttributeError, NotImplementedError, ValueError, TypeError):
                one.append(None)
        for k, sel in ((None, range(n)), (sub, sub), ([bool(i in sub) for i in range(n)], sub), (sub[0], [sub[0]])):
            if any(one[i] is None for i in sel):
                mon.event("mass_unsupported")
                continue
            mon.close("mass/" + q, getattr(lm, q)(r, kws, bool_list=k), sum(one[i] for i in sel), rtol=1e-9, atol=1e-12, models=lst, k=str(k))
            mon.nontrivial("mass", q, ",".join(sorted(lst[i] for i in sel)))


def run(case, mon, rng):
    globals()["run_" + case["kind"]](case, mon, rng)

"""C17: the imaging likelihood is the masked, noise-weighted residual sum over all bands."""
import copy
import warnings
import numpy as np
import scene as SC
from lenscat import U, LU
from c16_linear import gk, rim, best

RULE = ("one signature per (kind, band mode, noise type, mask, PSF-variance, linear solver, band switches); random scenes and data, likelihoods compared with sums computed here "
        "from an independent forward model, own noise model, own least-squares solution and own band bookkeeping")
ASSUMPTIONS = ["PSF-variance amplitudes are estimated from the 5x5 pixels around the image as the library documents; point sources with a truncated Gaussian PSF are only compared to rendering accuracy",
               "linear systems with condition number above 1e9 are skipped for the exact comparison"]
REQUIRED = ["check:noise", "check:single", "check:linear", "check:bands", "check:masked", "check:marg", "check:positive", "check:psfvar", "check:residuals", "check:wrapper", "check:order", "check:off"]
TIMEOUT = 200
POOL = ["GAUSSIAN", "SERSIC", "SERSIC_ELLIPSE", "GAUSSIAN_ELLIPSE", "MULTI_GAUSSIAN", "SHAPELETS", "UNIFORM", "CORE_SERSIC", "CHAMELEON"]
PHYSICAL = {"GAUSSIAN", "SERSIC", "SERSIC_ELLIPSE", "GAUSSIAN_ELLIPSE", "MULTI_GAUSSIAN", "CORE_SERSIC", "CHAMELEON"}


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for kind, n in (("noise", 12 if q else 80), ("single", 40 if q else 300), ("linear", 40 if q else 300), ("bands", 40 if q else 300)):
        out += [dict(name="%s/%d" % (kind, i), kind=kind, group=kind) for i in range(n)]
    return out


def run(case, mon, rng):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        globals()["run_" + case["kind"]](case, mon, rng)


def noise(rng, data):
    if rng.integers(2):
        return dict(noise_map=rng.uniform(.2, 2, data.shape) * (np.std(data) * .3 + 1e-3))
    return dict(background_rms=U(rng, .05, .3) * (np.std(data) + 1e-2), exposure_time=rng.uniform(50, 500, data.shape) if rng.integers(2) else U(rng, 50, 500))


def var(d, flux):
    if "noise_map" in d:
        return d["noise_map"] ** 2
    return d["background_rms"] ** 2 + np.maximum(flux, 0) / d["exposure_time"]


def info(s):
    return dict(nx=s["nx"], ny=s["ny"], psf=s["psf"]["psf_type"], source=s["source"], ll=s["ll"], ps=s["ps"], multi=s["multi"], psfvar="psf_variance_map" in s["psf"])


def add_psf_variance(rng, s):
    """PSF with a variance map (5x5 or larger kernels only: the amplitude is estimated in 5x5 pixels)."""
    n = len(s["psf"]["kernel_point_source"]) // s["psf_ss"]
    m = np.zeros((n, n))
    m[1:-1, 1:-1] = rng.uniform(0, .02, (n - 2, n - 2))
    s["psf"] = dict(s["psf"], psf_variance_map=m)


def psf_variance(s, ref, data, use):
    """sum over point sources of variance map x (estimated amplitude)^2 placed at the (displaced) position"""
    out = np.zeros(data.shape)
    K = s["psf"]["kernel_point_source"]
    K = K / K.sum()
    p, n = s["psf_ss"], len(K) // s["psf_ss"]
    if p > 1:
        K = K.reshape(n, p, n, p).sum(axis=(1, 3))
    V = s["psf"]["psf_variance_map"] / np.sum(s["psf"]["kernel_point_source"]) ** 2
    c = (n - 1) // 2
    k5 = K[c - 2:c + 3, c - 2:c + 3].sum()
    for i in range(len(s["ps"])):
        if not use[i]:
            continue
        ra, dec, _ = ref.positions(i)
        if not len(ra):
            continue
        for x, y in zip(*ref.pix(ra, dec)):
            xi, yi = int(np.floor(x + 1e-5)), int(np.floor(y + 1e-5))
            if min(abs(x - round(x)), abs(y - round(y))) < 1e-4:
                return None
            a = 0.
            if 2 < xi < data.shape[1] - 2 and 2 < yi < data.shape[0] - 2:
                a = max(data[yi - 2:yi + 3, xi - 2:xi + 3].sum(), 0) / k5
            ref.place(x, y, a ** 2, V, 1, out)
    return out


def run_noise(case, mon, rng):
    from lenstronomy.Data.imaging_data import ImageData
    ny, nx = rng.integers(4, 12, 2)
    data = rng.normal(size=(ny, nx)) * LU(rng, .1, 100)
    nz = noise(rng, data)
    D = ImageData(image_data=data.copy(), **copy.deepcopy(nz))
    model = rng.normal(size=(ny, nx)) * np.std(data)
    c = dict(noise=sorted(nz))
    mon.close("noise/C_D", D.C_D, var(nz, data), 1e-12, 0, "variance estimated from the data", **c)
    mon.close("noise/C_D_model", D.C_D_model(model), var(nz, model), 1e-12, 0, "variance for a model", **c)
    mon.close("noise/C_D_again", D.C_D, var(nz, data), 1e-12, 0, "variance after evaluating a model", **c)
    mask = rng.random((ny, nx)) < .7
    add = rng.uniform(0, 1, (ny, nx)) * np.var(data)
    w = -.5 * np.sum(((data - model) ** 2 / (var(nz, model) + add))[mask])
    mon.close("noise/logL", D.log_likelihood(model, mask, add), w, 1e-11, 0, "likelihood of an image", **c)
    mon.close("noise/logL_sign", D.log_likelihood(model, mask, -add), w, 1e-11, 0, "sign of the extra variance", **c)
    w0 = -.5 * np.sum((data - model) ** 2 / var(nz, model))
    mon.close("noise/logL_full", D.log_likelihood(model, np.ones((ny, nx))), w0, 1e-11, 0, "likelihood without mask", **c)
    other = rng.normal(size=(ny, nx)) * 3
    D.update_data(other.copy())
    mon.close("noise/update", D.C_D, var(nz, other), 1e-12, 0, "variance after replacing the data", **c)
    mon.close("noise/update_logL", D.log_likelihood(model, mask), -.5 * np.sum(((other - model) ** 2 / var(nz, model))[mask]), 1e-11, 0, "likelihood after replacing the data", **c)
    if "noise_map" in nz:
        D2 = ImageData(image_data=data, noise_map=nz["noise_map"], background_rms=1e3, exposure_time=1e-3)
        mon.close("noise/override", D2.C_D, nz["noise_map"] ** 2, 1e-12, 0, "noise map replaces the other noise settings")
        mon.close("noise/rms", D.background_rms, np.median(nz["noise_map"]), 1e-12, 0, "background rms from the noise map")
    mon.nontrivial("noise", tuple(sorted(nz)), np.ndim(nz.get("exposure_time", 0)))


def scene(rng, **o):
    s = SC.make(rng, beam=False, nmax=2, pool=POOL, **o)
    while not (s["source"] or s["ll"] or s["ps"]):
        s = SC.make(rng, beam=False, nmax=2, pool=POOL, **o)
    return s


def run_single(case, mon, rng):
    from lenstronomy.ImSim.image_model import ImageModel
    psfvar = int(case["name"].split("/")[1]) % 3 == 0
    s = scene(rng, psf="PIXEL" if psfvar else str(rng.choice(["NONE", "PIXEL"])), n_ps=3)
    kw = {}
    use = [True] * len(s["ps"])
    if psfvar:
        add_psf_variance(rng, s)
        if rng.integers(2):
            use = [bool(rng.integers(2)) for _ in s["ps"]]
            kw["psf_error_map_bool_list"] = use
    ref = SC.Ref(s)
    M = ref.source() + ref.lens_light() + ref.point_source()
    data = M + rng.normal(size=M.shape) * (np.std(M) * .2 + .01)
    nz = noise(rng, data)
    mask = rng.random(M.shape) < .7 if rng.integers(3) else np.ones(M.shape, bool)
    im = SC.image_model(s, ImageModel, data=dict(image_data=data, **nz), likelihood_mask=mask if not np.all(mask) else None, **kw)
    err = psf_variance(s, ref, data, use) if psfvar else np.zeros(M.shape)
    c = dict(mask=bool(np.all(mask)), noise=sorted(nz), use=use, special=sorted(s["special"]), **info(s))
    if err is None:
        return
    V = var(nz, M) + err
    chi = (data - M) ** 2 / V
    w = -.5 * np.sum(chi[mask])
    t = 1e-5 * (abs(w) + np.sum(np.sqrt(chi)))
    args = SC.kwargs(s)
    before = repr(args)
    mon.close("single/logL", im.likelihood_data_given_model(**args), w, 1e-6, t, "log-likelihood of the model", **c)
    mon.check("single/inputs", repr(args) == before, "parameters altered")
    vm = im.variance_map(**args)
    mon.close("psfvar/map" if psfvar else "single/variance", vm, V, 1e-6, 1e-7 * np.max(V), "variance map", **c)
    C, me = im.error_response(args["kwargs_lens"], args["kwargs_ps"], args["kwargs_special"])
    mon.close("psfvar/response" if psfvar else "single/response", C, (var(nz, data) + err)[mask], 1e-6, 1e-7 * np.max(V), "variance of the data response", **c)
    r = im.reduced_residuals(M, err)
    mon.close("residuals/map", r, (data - M) / np.sqrt(V) * mask, 1e-9, 1e-9, "reduced residuals", **c)
    mon.close("residuals/chi2", im.reduced_chi2(M, err), np.sum(chi[mask]) / mask.sum(), 1e-9, 0, "reduced chi-square", **c)
    mon.check("single/num", im.num_data_evaluate == mask.sum(), "number of data points", got=im.num_data_evaluate)
    mon.close("single/response_data", im.data_response, data[mask], 0, 0, "data vector")
    if not psfvar and not np.all(mask):
        other = data.copy()
        other[~mask] = rng.normal(size=np.sum(~mask)) * 1e6
        im2 = SC.image_model(s, ImageModel, data=dict(image_data=other, **nz), likelihood_mask=mask)
        mon.close("masked/value", im2.likelihood_data_given_model(**args), w, 1e-6, t, "likelihood depends on masked pixels", **c)
    # replacing the PSF brings in or takes away its variance term
    if s["psf"]["psf_type"] == "PIXEL" and len(s["ps"]):
        from lenstronomy.Data.psf import PSF
        p2 = {k: v for k, v in s["psf"].items() if k != "psf_variance_map"}
        if not psfvar:
            s2 = dict(s)
            add_psf_variance(rng, s2)
            p2 = s2["psf"]
            e2 = psf_variance(s2, ref, data, use)
        else:
            e2 = np.zeros(M.shape)
        if e2 is not None:
            im.update_psf(PSF(**copy.deepcopy(p2)))
            mon.close("psfvar/update", im.variance_map(**SC.kwargs(s)), var(nz, M) + e2, 1e-6, 1e-7 * np.max(V), "variance map after replacing the PSF", **c)
    mon.nontrivial("single", tuple(sorted(nz)), psfvar, bool(np.all(mask)), len(s["ps"]), s["psf"]["psf_type"], s["flux"] != 1, tuple(use))


def solution(A, d, v):
    p, chi, c, W = best(A, d, v)
    return p, c


def marg(cov, prior):
    e = np.linalg.eigvalsh(cov)
    if prior is None:
        return .5 * np.sum(np.log(e))
    m = len(e)
    return .5 * np.sum(np.log(np.minimum(e, prior ** 2))) + m / 2 * np.log(np.pi / 2) - m * np.log(prior)


def negative(s, p):
    """does any amplitude with a physical meaning come out negative"""
    i, neg, margin = 0, False, np.inf
    for names, kw in ((s["source"], s["kw_source"]), (s["ll"], s["kw_ll"])):
        for a, b in SC.amp_slots(names, kw):
            if names[a] in PHYSICAL:
                neg |= p[i] < 0
                margin = min(margin, abs(p[i]))
            i += 1
    neg |= bool(np.any(p[i:] < 0))
    margin = min(margin, np.min(np.abs(p[i:]), initial=np.inf))
    return neg, margin


def own_linear(s, ref, data, nz, mask, err):
    R = SC.responses(s, ref, gk(s))
    if not R:
        return None
    A = np.array([r[mask] for r in R])
    v = (var(nz, data) + err)[mask]
    p, c = solution(A, data[mask], v)
    if not c < 1e9:
        return None
    m = A.T @ p
    model = np.zeros(data.shape)
    model[mask] = m
    L = -.5 * np.sum(((data - model) ** 2 / (var(nz, model) + err))[mask])
    return dict(p=p, model=model, logL=L, cov=np.linalg.inv((A / v) @ A.T), R=R)


def run_linear(case, mon, rng):
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
    psfvar = int(case["name"].split("/")[1]) % 4 == 0
    s = scene(rng, psf="PIXEL" if psfvar else str(rng.choice(["NONE", "PIXEL"])), n_ps=2)
    if psfvar:
        add_psf_variance(rng, s)
    ref = SC.Ref(s)
    R = SC.responses(s, ref)
    truth = sum(U(rng, .5, 6) * r for r in R)
    data = truth + rng.normal(size=truth.shape) * (np.std(truth) * float(rng.choice([.05, .5, 2.])) + .01)
    nz = noise(rng, data)
    mask = rng.random(data.shape) < .8 if rng.integers(2) else np.ones(data.shape, bool)
    err = psf_variance(s, ref, data, [True] * len(s["ps"])) if psfvar else np.zeros(data.shape)
    if err is None:
        return
    o = own_linear(s, ref, data, nz, mask, err)
    if o is None:
        mon.event("singular")
        return
    im = SC.image_model(s, ImageLinearFit, data=dict(image_data=data, **nz), likelihood_mask=mask)
    c = dict(noise=sorted(nz), n=len(o["p"]), **info(s))
    t = 1e-5 * (1 + abs(o["logL"]))
    L, p = im.likelihood_data_given_model(**SC.kwargs(s))
    mon.close("linear/logL", L, o["logL"], 1e-5, t, "likelihood with solved amplitudes", **c)
    mon.close("linear/param", p, o["p"], 1e-5, 1e-5 * np.max(np.abs(o["p"])), "amplitudes returned with the likelihood", **c)
    for prior in (None, LU(rng, .01, 10)):
        L2, _ = im.likelihood_data_given_model(**SC.kwargs(s), source_marg=True, linear_prior=prior)
        mon.close("marg/term", L2 - L, marg(o["cov"], prior), 1e-4, 1e-4, "marginalisation term", prior=prior, **c)
    neg, margin = negative(s, o["p"])
    if margin > 1e-4 * np.max(np.abs(o["p"])):
        L3, _ = im.likelihood_data_given_model(**SC.kwargs(s), check_positive_flux=True)
        mon.close("positive/term", L3 - L, -1e8 if neg else 0., 1e-6, 1e-3 + 1e-6 * abs(L), "penalty for negative fluxes", negative=neg, p=o["p"], **c)
        mon.event("negative" if neg else "positive")
    if not psfvar and not np.all(mask):
        other = data.copy()
        other[~mask] = 1e5
        L4, _ = SC.image_model(s, ImageLinearFit, data=dict(image_data=other, **nz), likelihood_mask=mask).likelihood_data_given_model(**SC.kwargs(s))
        mon.close("masked/linear", L4, L, 1e-7, 1e-6, "likelihood depends on masked pixels", **c)
    L5, _ = im.likelihood_data_given_model(**SC.kwargs(s))
    mon.close("linear/again", L5, L, 1e-10, 0, "second evaluation", **c)
    mon.nontrivial("linear", tuple(sorted(nz)), psfvar, bool(np.all(mask)), len(s["source"]), len(s["ll"]), len(s["ps"]), neg)


def run_bands(case, mon, rng):
    from lenstronomy.Util import class_creator
    from lenstronomy.Sampling.Likelihoods.image_likelihood import ImageLikelihood
    mode = ["multi-linear", "joint-linear", "single-band"][int(case["name"].split("/")[1]) % 3]
    same = mode == "joint-linear"
    base, bands, km, mb, idx = SC.make_bands(rng, same=same, nmax=2, pool=POOL, n_ps=1)
    nb = len(bands)
    for t in bands:
        if t["psf"]["psf_type"] == "GAUSSIAN" and base["ps"]:
            t["psf"] = dict(psf_type="NONE")
            t["num"] = dict(supersampling_factor=1)
    offs = [dict(ra_shift=U(rng, -.2, .2), dec_shift=U(rng, -.2, .2)) for _ in range(nb)] if rng.integers(2) else None
    masks, solved, data, nzs, refs = [], [], [], [], []
    delta = {}
    if base["ps"] and rng.integers(2):
        n = sum(len(k["ra_image"]) for k in base["kw_ps"])
        if same or all(len(i) == len(base["ps"]) for i in idx["ps"]):
            delta = dict(delta_x_image=rng.normal(size=n) * .05, delta_y_image=rng.normal(size=n) * .05)
    for b, t in enumerate(bands):
        t["special"] = dict(base["special"], **delta)
        if t["psf"]["psf_type"] == "PIXEL" and rng.integers(2):
            add_psf_variance(rng, t)
        ref = SC.Ref(t, o=t["o"] + ([offs[b]["ra_shift"], offs[b]["dec_shift"]] if offs else 0))
        refs.append(ref)
        M = ref.source() + ref.lens_light() + ref.point_source()
        d = M + rng.normal(size=M.shape) * (np.std(M) * .3 + .05)
        nz = noise(rng, d)
        m = rng.random(M.shape) < .85
        data.append(d)
        nzs.append(nz)
        masks.append(m)
        mb[b] = [SC.data_kwargs(t, image_data=d, **nz), copy.deepcopy(t["psf"]), copy.deepcopy(t["num"])]
    errs = [psf_variance(t, r, d, [True] * len(t["ps"])) if "psf_variance_map" in t["psf"] else np.zeros(d.shape) for t, r, d in zip(bands, refs, data)]
    if any(e is None for e in errs):
        return
    args = SC.kwargs(base)
    args["kwargs_special"] = dict(args["kwargs_special"] or {}, **copy.deepcopy(delta))
    if offs:
        args["kwargs_special"]["kwargs_offsets"] = offs
    on = [bool(rng.integers(4)) for _ in bands]
    if not any(on):
        on[0] = True
    c = dict(mode=mode, on=on, idx=None if same else idx, offsets=bool(offs), delta=bool(delta), psfvars=["psf_variance_map" in t["psf"] for t in bands], **info(base))
    new = lambda o=on, **k: class_creator.create_im_sim(copy.deepcopy(mb), mode, copy.deepcopy(km), bands_compute=o, image_likelihood_mask_list=masks, **k)
    if mode == "single-band":
        for b in range(nb):
            M = refs[b].source() + refs[b].lens_light() + refs[b].point_source()
            w = -.5 * np.sum(((data[b] - M) ** 2 / (var(nzs[b], M) + errs[b]))[masks[b]])
            o = class_creator.create_im_sim(copy.deepcopy(mb), mode, copy.deepcopy(km), image_likelihood_mask_list=masks, band_index=b, linear_solver=False)
            mon.close("bands/single_fixed", o.likelihood_data_given_model(**copy.deepcopy(args))[0], w, 1e-5, 1e-5 * (1 + abs(w)), "band without linear solver", band=b, **c)
            r = own_linear(bands[b], refs[b], data[b], nzs[b], masks[b], errs[b])
            if r:
                o = class_creator.create_im_sim(copy.deepcopy(mb), mode, copy.deepcopy(km), image_likelihood_mask_list=masks, band_index=b)
                mon.close("bands/single", o.likelihood_data_given_model(**copy.deepcopy(args))[0], r["logL"], 1e-5, 1e-5 * (1 + abs(r["logL"])), "band with linear solver", band=b, **c)
                mon.check("bands/num", o.num_data_evaluate == masks[b].sum(), "number of data points")
        mon.nontrivial(mode, nb, base["multi"], bool(base["ext"]), bool(offs), tuple(c["psfvars"]))
        return
    o = new()
    mon.check("bands/num", o.num_data_evaluate == sum(m.sum() for m, k in zip(masks, on) if k), "number of data points", got=o.num_data_evaluate, **c)
    if mode == "multi-linear":
        parts = [own_linear(bands[b], refs[b], data[b], nzs[b], masks[b], errs[b]) for b in range(nb)]
        empty = [not (t["source"] or t["ll"] or t["ps"]) for t in bands]
        parts = [dict(logL=-.5 * np.sum(((data[b]) ** 2 / (var(nzs[b], 0 * data[b]) + errs[b]))[masks[b]]), p=np.zeros(0)) if empty[b] else parts[b] for b in range(nb)]
        if any(p is None for p in parts):
            mon.event("singular")
            return
        if any(empty[b] and on[b] for b in range(nb)):
            mon.event("band-without-light")
            return
        w = sum(p["logL"] for p, k in zip(parts, on) if k)
        L, par = o.likelihood_data_given_model(**copy.deepcopy(args))
        mon.close("bands/multi", L, w, 1e-5, 1e-5 * (1 + abs(w)), "multi-linear likelihood is not the sum over active bands", **c)
        mon.check("off/param", [p is None for p in par] == [not k for k in on], "amplitudes of switched-off bands", **c)
        for b in range(nb):
            one = [i == b for i in range(nb)]
            if not empty[b]:
                mon.close("bands/one", new(one).likelihood_data_given_model(**copy.deepcopy(args))[0], parts[b]["logL"], 1e-5, 1e-5 * (1 + abs(parts[b]["logL"])), "single active band", band=b, **c)
        lp = [float(LU(rng, .01, 10)) for _ in range(nb)]
        L2 = o.likelihood_data_given_model(**copy.deepcopy(args), source_marg=True, linear_prior=lp)[0]
        w2 = sum(marg(p["cov"], q) for p, q, k in zip(parts, lp, on) if k)
        mon.close("marg/bands", L2 - L, w2, 1e-4, 1e-3, "marginalisation terms of the bands", **c)
        # order of the bands
        if same or True:
            pm = [int(i) for i in rng.permutation(nb)]
            km2 = copy.deepcopy(km)
            for k in km2:
                if k.startswith("index_"):
                    km2[k] = [km2[k][i] for i in pm]
            if "tau0_index_list" in km2:
                km2["tau0_index_list"] = [km2["tau0_index_list"][i] for i in pm]
            a2 = copy.deepcopy(args)
            if offs:
                a2["kwargs_special"]["kwargs_offsets"] = [offs[i] for i in pm]
            o2 = class_creator.create_im_sim(copy.deepcopy([mb[i] for i in pm]), mode, km2, bands_compute=[on[i] for i in pm], image_likelihood_mask_list=[masks[i] for i in pm])
            mon.close("order/bands", o2.likelihood_data_given_model(**a2)[0], L, 1e-8, 1e-6 * (1 + abs(L)), "likelihood depends on the order of the bands", permutation=pm, **c)
    else:
        use = [b for b in range(nb) if on[b]]
        As, ds, vs = [], [], []
        for b in use:
            R = SC.responses(bands[b], refs[b], gk(bands[b]))
            As.append(np.array([r[masks[b]] for r in R]))
            ds.append(data[b][masks[b]])
            vs.append((var(nzs[b], data[b]) + errs[b])[masks[b]])
        A, d, v = np.concatenate(As, axis=1), np.concatenate(ds), np.concatenate(vs)
        p, cn = solution(A, d, v)
        if not cn < 1e9:
            mon.event("singular")
            return
        w = 0.
        for b, Ab in zip(use, As):
            m = np.zeros(data[b].shape)
            m[masks[b]] = Ab.T @ p
            w += -.5 * np.sum(((data[b] - m) ** 2 / (var(nzs[b], m) + errs[b]))[masks[b]])
        L, par = o.likelihood_data_given_model(**copy.deepcopy(args))
        mon.close("bands/joint", L, w, 1e-5, 1e-5 * (1 + abs(w)), "joint-linear likelihood is not the sum over active bands", **c)
        L2 = o.likelihood_data_given_model(**copy.deepcopy(args), source_marg=True)[0]
        mon.close("marg/joint", L2 - L, marg(np.linalg.inv((A / v) @ A.T), None), 1e-4, 1e-3, "marginalisation term", **c)
        neg, margin = negative(bands[0], p)
        if margin > 1e-4 * np.max(np.abs(p)):
            L3 = o.likelihood_data_given_model(**copy.deepcopy(args), check_positive_flux=True)[0]
            mon.check("positive/joint", (L3 < L - 1e4) if neg else abs(L3 - L) < 1e-3 + 1e-6 * abs(L), "penalty for negative fluxes", negative=neg, difference=L3 - L, **c)
            mon.event("negative" if neg else "positive")
    # likelihood class on top
    il = ImageLikelihood(copy.deepcopy(mb), mode, copy.deepcopy(km), bands_compute=on, image_likelihood_mask_list=masks)
    a = copy.deepcopy(args)
    got, _ = il.logL(**a)
    mon.close("wrapper/logL", got, L, 1e-9, 1e-7, "likelihood class", **c)
    mon.check("wrapper/num", il.num_data == o.num_data_evaluate, "number of data")
    bad = copy.deepcopy(mb)
    b0 = on.index(True)
    yx = np.argwhere(masks[b0])[0]
    bad[b0][0]["image_data"][tuple(yx)] = np.nan
    got, _ = ImageLikelihood(bad, mode, copy.deepcopy(km), bands_compute=on, image_likelihood_mask_list=masks).logL(**copy.deepcopy(args))
    mon.check("wrapper/nan", np.isfinite(got) and got < -1e10, "not-a-number likelihood is not replaced by the penalty", got=float(got), **c)
    mon.nontrivial(mode, nb, tuple(on), base["multi"], bool(base["ext"]), bool(offs), bool(delta), tuple(c["psfvars"]))

"""C16: linear amplitude inversion is the optimal weighted least-squares solution."""
import copy
import warnings
import numpy as np
import scene as SC
from lenscat import U, LU

RULE = ("one signature per (kind, PSF type, supersampling, number of source/lens-light/point-source components, noise and mask type, numerics); random scenes and data, "
        "response rows compared with unit-amplitude images of an independent forward model, the solution with an own SVD least-squares solution")
ASSUMPTIONS = ["amplitudes are compared one by one only when the normal matrix has condition number below 1e9; otherwise only the attained chi-square is compared (singular systems, "
               "for which the library documents a zero solution, are counted and skipped)"]
REQUIRED = ["check:rows", "check:order", "check:optimal", "check:amps", "check:cov", "check:render", "check:model", "check:mask", "check:prior", "check:joint", "check:multi",
            "check:interf", "check:coupled", "check:errmap"]
TIMEOUT = 200


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for kind, n in (("solve", 60 if q else 500), ("joint", 14 if q else 100), ("multi", 14 if q else 100), ("interf", 14 if q else 100), ("coupled", 14 if q else 80), ("beam", 2 if q else 8),
                    ("wls", 10 if q else 60)):
        out += [dict(name="%s/%d" % (kind, i), kind=kind, group=kind) for i in range(n)]
    return out


def run(case, mon, rng):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + case["kind"]](case, mon, rng)


def gk(s):
    from lenstronomy.Data.psf import PSF
    if s["psf"]["psf_type"] != "GAUSSIAN":
        return None
    p = PSF(**s["psf"])
    p.set_pixel_size(np.sqrt(abs(np.linalg.det(s["M"]))))
    return p.kernel_point_source


def rim(s):
    """relative uncertainty of a point source rendered with a truncated Gaussian kernel (see C15)"""
    K = gk(s)
    return 1e-9 if K is None else 4 * max(K[0].max(), K[:, 0].max(), K[-1].max(), K[:, -1].max()) + 1e-9


def noise(rng, s, data):
    if rng.integers(2):
        return dict(noise_map=rng.uniform(.2, 2, data.shape) * (np.std(data) * .3 + 1e-3))
    return dict(background_rms=U(rng, .05, .3) * (np.std(data) + 1e-2), exposure_time=rng.uniform(50, 500, data.shape) if rng.integers(2) else 100.)


def variance(d):
    if "noise_map" in d:
        return d["noise_map"] ** 2
    return d["background_rms"] ** 2 + np.maximum(d["image_data"], 0) / d["exposure_time"]


def info(s):
    return dict(nx=s["nx"], ny=s["ny"], psf=s["psf"]["psf_type"], source=s["source"], ll=s["ll"], ps=s["ps"], multi=s["multi"],
                num={k: (v if np.ndim(v) == 0 else "array") for k, v in s["num"].items()})


def best(A, d, v):
    """own least squares (SVD of the whitened matrix): amplitudes, chi2, condition number of the normal matrix"""
    W = (A / np.sqrt(v)).T
    norm = np.linalg.norm(W, axis=0)
    if W.shape[1] == 0:
        return np.zeros(0), float(np.sum(d ** 2 / v)), 1., W
    if np.any(norm == 0):
        return None, None, np.inf, W
    p = np.linalg.lstsq(W / norm, d / np.sqrt(v), rcond=1e-13)[0] / norm
    r = d / np.sqrt(v) - W @ p
    c = np.linalg.cond(W) ** 2
    return p, float(r @ r), c, W


def judge(mon, key, A, d, v, param, cov, ctx):
    p, chi, c, W = best(A, d, v)
    mon.event("condition<1e9" if c < 1e9 else "condition<1e14" if c < 1e14 else "singular")
    if c > 1e14:
        return False
    r = d / np.sqrt(v) - W @ np.asarray(param)
    got = float(r @ r)
    scale = float(np.sum(d ** 2 / v))
    mon.check("optimal/" + key, np.isfinite(got) and got <= chi * (1 + 1e-6) + (1e-10 if c < 1e9 else 1e-5) * scale, "amplitudes do not minimise the chi-square", got=got, best=chi, condition=c, **ctx)
    if c < 1e9 and W.shape[1]:
        s = np.max(np.abs(p)) + 1e-12
        mon.close("amps/" + key, param, p, 1e-6, 1e-7 * s * max(1, c * 1e-7), "amplitudes", condition=c, **ctx)
        if cov is not None:
            sd = np.sqrt(np.diag(np.linalg.pinv(W.T @ W)))
            F = W.T @ W
            n = np.sqrt(np.diag(F))
            mon.close("cov/" + key, np.asarray(cov) * np.outer(n, n), np.linalg.inv(F / np.outer(n, n)), 1e-5, 1e-6, "covariance is not the inverse Fisher matrix", condition=c, **ctx)
            del sd
    return True


def setup(rng, case, **o):
    s = SC.make(rng, beam=False, nmax=o.pop("nmax", 2), **o)
    while not (s["source"] or s["ll"] or s["ps"]):
        s = SC.make(rng, beam=False, nmax=2, **o)
    return s


def run_solve(case, mon, rng):
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
    s = setup(rng, case)
    if int(case["name"].split("/")[1]) % 5 == 0:     # several sources with different numbers of amplitudes, not in order of redshift
        s = setup(rng, case, multi="planes")
        while not s["lens"]:
            s = setup(rng, case, multi="planes")
        s["source"], s["kw_source"], s["pk_source"] = SC.light(rng, 3, ["GAUSSIAN", "MULTI_GAUSSIAN", "SHAPELETS", "SERSIC"], 2)
        s["zsrc"] = sorted((float(z) for z in rng.choice([2., 1.7, 1.3, .8], len(s["source"]), replace=False)), reverse=bool(rng.integers(4)))
    fixed = set()
    ref = SC.Ref(s)
    K = gk(s)
    R = SC.responses(s, ref, K)
    amp = rng.normal(size=len(R)) * 5 + 3
    truth = sum(a * r for a, r in zip(amp, R)) if R else np.zeros((s["ny"], s["nx"]))
    data = truth + rng.normal(size=truth.shape) * (np.std(truth) * .2 + .01)
    nz = noise(rng, s, data)
    mk = int(rng.integers(3))
    mask = np.ones(data.shape, bool) if mk == 0 else rng.random(data.shape) < (.8 if mk == 1 else .4)
    data[~mask] = rng.normal(size=np.sum(~mask)) * 1e3
    dk = dict(image_data=data, **nz)
    kw = dict(likelihood_mask=mask if mk else None)
    make = lambda **d: SC.image_model(s, ImageLinearFit, data=dict(dk, **d), **kw)
    im = make()
    args = SC.kwargs(s)
    ctx = dict(mask=mk, noise=sorted(nz), **info(s))
    n = im.num_param_linear(args["kwargs_lens"], args["kwargs_source"], args["kwargs_lens_light"], args["kwargs_ps"])
    mon.check("order/num", n == len(R), "number of linear parameters", got=n, want=len(R), **ctx)
    before = repr(args)
    A = im.linear_response_matrix(**args)
    mon.check("order/inputs", repr(args) == before, "computing the response altered the parameters")
    if not mon.check("rows/shape", np.shape(A) == (len(R), int(mask.sum())), "shape of the response matrix", got=np.shape(A), want=(len(R), int(mask.sum())), **ctx):
        return
    ns = len(SC.amp_slots(s["source"], s["kw_source"]))
    nl = len(SC.amp_slots(s["ll"], s["kw_ll"]))
    for i, r in enumerate(R):
        w = r[mask]
        part = "source" if i < ns else "lens_light" if i < ns + nl else "ps"
        t = 1e-7 * (np.max(np.abs(r)) + 1e-12) if part != "ps" else (rim(s) * (s["flux"] + 1))
        mon.close("rows/" + part, A[i], w, 1e-6, t, "response of amplitude %d" % i, **ctx)
    d = data[mask]
    v = variance(dk)[mask]
    model, err, cov, param = im.image_linear_solve(**args, inv_bool=bool(case["name"].endswith(("1", "3", "5", "7"))))
    ok = judge(mon, "single", A, d, v, param, cov, ctx) if len(R) else True
    # model image = response times amplitudes; nothing outside the mask
    sc = np.max(np.abs(A.T @ param), initial=0) + np.max(np.abs(A) * np.abs(np.asarray(param))[:, None], initial=0) + 1e-12
    mon.close("model/response", np.asarray(model)[mask], A.T @ np.asarray(param), 1e-9, 1e-10 * sc, "model is not response times amplitudes", **ctx)
    mon.check("model/outside", not np.any(np.asarray(model)[~mask]), "model outside the mask", **ctx)
    # written back
    back = im.linear_param_from_kwargs(args["kwargs_source"], args["kwargs_lens_light"], args["kwargs_ps"])
    mon.close("order/readback", np.asarray(back, float), np.asarray(param, float), 1e-12, 0, "amplitudes written into the parameters differ from the solution", **ctx)
    img = im.image(**args)
    mon.close("render/image", img[mask], np.asarray(model)[mask], 1e-8, 1e-9 * sc, "re-rendering with the written-back amplitudes differs from the model", **ctx)
    # own rendering of the written-back parameters (component order)
    own = sum(a * r for a, r in zip(param, R)) if R else np.zeros(data.shape)
    mon.close("render/own", img, own, 1e-6, 1e-6 * sc + rim(s) * (s["flux"] + 1) * np.sum(np.abs(param[ns + nl:])), "re-rendered image", **ctx)
    # no memory of previous amplitudes
    a2 = SC.kwargs(s)
    for l in ("kwargs_source", "kwargs_lens_light"):
        for k in a2[l]:
            k["amp"] = U(rng, 1, 9) if np.ndim(k["amp"]) == 0 else rng.normal(size=len(k["amp"]))
    for k in a2["kwargs_ps"]:
        k["point_amp"] = rng.uniform(1, 9, len(k["ra_image"]))
    _, _, _, p2 = im.image_linear_solve(**a2)
    cnd = ok and len(R) and best(A, d, v)[2] < 1e9
    if cnd:
        pt = 1e-7 * np.max(np.abs(param))
        mon.close("prior/amps", p2, param, 1e-6, pt, "solution depends on the amplitudes held before", **ctx)
        a3 = SC.kwargs(s)
        other = data.copy()
        other[~mask] = rng.normal(size=np.sum(~mask))
        _, _, _, p3 = make(image_data=other).image_linear_solve(**a3)
        mon.close("mask/values", p3, param, 1e-6, pt, "solution depends on masked pixels", **ctx)
        c2 = cov if cov is not None else im.image_linear_solve(**SC.kwargs(s), inv_bool=True)[2]
        x, y = rng.uniform(-1, 1, (2, 5))
        if ns:
            E = im.error_map_source(SC.kwargs(s)["kwargs_source"], x, y, c2)
            B = []
            for i, j in SC.amp_slots(s["source"], s["kw_source"]):
                B.append(ref.sb(s["source"], SC.unit(s["kw_source"], i, j), s["pk_source"], x, y, i))
            B = np.array(B)
            w = np.einsum("ip,ij,jp->p", B, np.asarray(c2)[:ns, :ns], B)
            mon.close("errmap/source", E, w, 1e-6, 1e-9 * np.max(np.abs(w)), "source variance map", **ctx)
    num = s["num"]
    mon.nontrivial("solve", s["psf"]["psf_type"], num["supersampling_factor"], num.get("compute_mode"), len(s["source"]), len(s["ll"]), len(s["ps"]), sorted(nz)[0], mk, s["multi"], s["flux"] != 1)


def run_joint(case, mon, rng):
    from lenstronomy.Util import class_creator
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
    base, bands, km, mb, _ = SC.make_bands(rng, same=True, nmax=2)
    nb = len(bands)
    on = [bool(rng.integers(4)) for _ in bands]
    if not any(on):
        on[int(rng.integers(nb))] = True
    masks, As, ds, vs = [], [], [], []
    for t, m in zip(bands, mb):
        data = rng.normal(size=(t["ny"], t["nx"])) * 3 + 1
        m[0].update(image_data=data, **noise(rng, t, data))
        masks.append(rng.random(data.shape) < .8)
        ref = SC.Ref(t)
        R = SC.responses(t, ref, gk(t))
        As.append(np.array([r[masks[-1]] for r in R]))
        ds.append(data[masks[-1]])
        vs.append(variance(m[0])[masks[-1]])
    o = class_creator.create_im_sim(copy.deepcopy(mb), "joint-linear", km, bands_compute=on, image_likelihood_mask_list=masks)
    args = SC.kwargs(base)
    use = [i for i in range(nb) if on[i]]
    A = o.linear_response_matrix(**args)
    W = np.concatenate([As[i] for i in use], axis=1)
    ctx = dict(on=on, bands=nb, **info(base))
    tps = max(rim(t) * (t["flux"] + 1) for t in bands)
    mon.close("joint/rows", A, W, 1e-6, 1e-7 * np.max(np.abs(W)) + tps, "joint response matrix", **ctx)
    mon.check("joint/num", o.num_param_linear(args["kwargs_lens"], args["kwargs_source"], args["kwargs_lens_light"], args["kwargs_ps"]) == len(W), "number of shared amplitudes", **ctx)
    models, err, cov, param = o.image_linear_solve(**args, inv_bool=True)
    d, v = np.concatenate([ds[i] for i in use]), np.concatenate([vs[i] for i in use])
    ok = judge(mon, "joint", A, d, v, param, cov, ctx)
    mon.check("joint/models", len(models) == len(use), "one model per active band", got=len(models), **ctx)
    k = 0
    for m, i in zip(models, use):
        n = int(masks[i].sum())
        w = A[:, k:k + n].T @ param
        mon.close("joint/model", m[masks[i]], w, 1e-9, 1e-9 * np.max(np.abs(A) * np.abs(param)[:, None]), "model of one band", **ctx)
        mon.check("joint/outside", not np.any(m[~masks[i]]), "model outside the mask", **ctx)
        k += n
        if ok:
            a = copy.deepcopy(args)
            q = o.update_linear_kwargs(param, i, a["kwargs_lens"], a["kwargs_source"], a["kwargs_lens_light"], a["kwargs_ps"])
            t = bands[i]
            im = SC.image_model(t, ImageLinearFit)
            img = im.image(q[0], q[1], q[2], q[3], a["kwargs_extinction"], a["kwargs_special"])
            mon.close("joint/render", img[masks[i]], m[masks[i]], 1e-7, 1e-7 * np.max(np.abs(A) * np.abs(param)[:, None]) + 2 * tps * np.max(np.abs(param)) * (s_ps(t) > 0),
                      "re-rendered band", band=i, **ctx)
    mon.nontrivial("joint", nb, tuple(on), base["multi"], bool(base["ext"]), len(base["ps"]))


def s_ps(t):
    return sum(len(k["ra_image"]) for k in t["kw_ps"])


def run_multi(case, mon, rng):
    """multi-linear: every band has its own solution, that of the band alone."""
    from lenstronomy.Util import class_creator
    base, bands, km, mb, idx = SC.make_bands(rng, nmax=2)
    nb = len(bands)
    on = [bool(rng.integers(4)) for _ in bands]
    masks = []
    for t, m in zip(bands, mb):
        data = rng.normal(size=(t["ny"], t["nx"])) * 3 + 1
        m[0].update(image_data=data, **noise(rng, t, data))
        masks.append(rng.random(data.shape) < .8)
    o = class_creator.create_im_sim(copy.deepcopy(mb), "multi-linear", km, bands_compute=on, image_likelihood_mask_list=masks)
    args = SC.kwargs(base)
    models, err, cov, param = o.image_linear_solve(**args, inv_bool=True)
    ctx = dict(on=on, idx=idx, **info(base))
    mon.check("multi/lengths", len(models) == len(param) == nb, "one entry per band", **ctx)
    for b, t in enumerate(bands):
        if not on[b]:
            mon.check("multi/off", models[b] is None and param[b] is None, "band switched off", **ctx)
            continue
        R = SC.responses(t, SC.Ref(t), gk(t))
        A = np.array([r[masks[b]] for r in R]).reshape(len(R), int(masks[b].sum()))
        d, v = mb[b][0]["image_data"][masks[b]], variance(mb[b][0])[masks[b]]
        mon.check("multi/num", len(param[b]) == len(R), "number of amplitudes of a band", got=len(param[b]), want=len(R), band=b, **ctx)
        if len(param[b]) != len(R) or not len(R):
            continue
        if s_ps(t) and t["psf"]["psf_type"] == "GAUSSIAN":
            continue
        judge(mon, "multi", A, d, v, param[b], cov[b], dict(band=b, **ctx))
        mon.close("multi/model", models[b][masks[b]], A.T @ param[b], 1e-6, 1e-6 * np.max(np.abs(A) * np.abs(param[b])[:, None]), "model of a band", band=b, **ctx)
        q = o.update_linear_kwargs(param, b, *[copy.deepcopy(args[k]) for k in ("kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps")])
        got = []
        for kk in (q[1], q[2]):
            for k in kk:
                got += list(np.atleast_1d(k["amp"]))
        for k in q[3]:
            got += list(k["point_amp"])
        mon.close("multi/readback", np.array(got, float), np.asarray(param[b], float), 1e-12, 0, "amplitudes linked to the band's components", band=b, **ctx)
    if any(on):
        # residuals line up with their bands
        res = o.reduced_residuals(models, [e if e is not None else 0 for e in err])
        i = 0
        for b in range(nb):
            if on[b]:
                m = np.asarray(models[b])
                vm = variance(dict(mb[b][0], image_data=m)) if "noise_map" not in mb[b][0] else mb[b][0]["noise_map"] ** 2
                w = (mb[b][0]["image_data"] - m) / np.sqrt(vm) * masks[b]
                mon.close("multi/residuals", res[i], w, 1e-8, 1e-9, "reduced residuals of a band", band=b, **ctx)
                i += 1
    mon.nontrivial("multi", nb, tuple(on), base["multi"], bool(base["ext"]))


def run_interf(case, mon, rng):
    """natural-weighting interferometric images: noise covariance proportional to the PSF convolution."""
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
    s = SC.make(rng, psf="NONE", beam=bool(rng.integers(2)), ss=1, fmask=False, adaptive=False, nmax=2, ext=bool(rng.integers(2)))
    while not (s["source"] or s["ll"] or s["ps"]):
        s = SC.make(rng, psf="NONE", beam=bool(rng.integers(2)), ss=1, fmask=False, adaptive=False, nmax=2)
    n = int(rng.choice([5, 9, 2 * max(s["nx"], s["ny"]) - 1]))
    k = rng.normal(size=(n, n)) * .02
    k = k + k[::-1, ::-1]                  # symmetric dirty beam with unit peak
    k[n // 2, n // 2] = 1.
    s["psf"] = dict(psf_type="PIXEL", kernel_point_source=k, kernel_point_source_normalisation=False)
    s["num"]["convolution_type"] = "fft"
    s["num"].pop("supersampling_convolution", None)
    ref = SC.Ref(s)
    s2 = dict(s)
    R = SC.responses(s, ref, None, unconvolved=True)
    X = np.array([r.ravel() for r in R])
    X = X.reshape(len(R), s["nx"] * s["ny"])
    C = np.array([SC.conv(r, k).ravel() for r in R]).reshape(X.shape)
    rms = U(rng, .1, 2)
    data = rng.normal(size=(s["ny"], s["nx"])) * 2
    im = SC.image_model(s, ImageLinearFit, data=dict(image_data=data, background_rms=rms, exposure_time=100., likelihood_method="interferometry_natwt",
                                                    log_likelihood_constant=-3.))
    args = SC.kwargs(s)
    ctx = dict(kernel=n, beam=s["beam"] is not None, **info(s))
    A = im.linear_response_matrix_interferometry_unconvolved(**args)
    mon.close("interf/rows", A, X, 1e-6, 1e-7 * np.max(np.abs(X)), "unconvolved response", **ctx)
    model, err, cov, param = im.image_linear_solve(**args, inv_bool=True)
    M = X @ C.T / rms ** 2
    b = X @ data.ravel() / rms ** 2
    c = np.linalg.cond(M)
    mon.event("condition<1e9" if c < 1e9 else "singular")
    if c < 1e9:
        p = np.linalg.solve(M, b)
        mon.close("interf/amps", param, p, 1e-5, 1e-6 * np.max(np.abs(p)), "amplitudes", condition=c, **ctx)
        mon.close("interf/cov", cov, np.linalg.inv(M), 1e-4, 1e-6 * np.max(np.abs(np.linalg.inv(M))), "covariance", condition=c, **ctx)
        sc = np.max(np.abs(X) * np.abs(p)[:, None])
        mon.close("interf/sky", model[0].ravel(), X.T @ p, 1e-6, 1e-5 * sc, "unconvolved model", **ctx)
        mon.close("interf/dirty", model[1].ravel(), C.T @ p, 1e-6, 1e-5 * sc * max(1, np.sum(np.abs(k))), "convolved model", **ctx)
        x = X.T @ p
        L = -(x @ SC.conv(x.reshape(data.shape), k).ravel() - 2 * x @ data.ravel()) / 2 / rms ** 2 - 3.
        got = im.likelihood_data_given_model(**SC.kwargs(s))[0]
        mon.close("interf/logL", got, L, 1e-6, 1e-6 * (1 + abs(L)), "interferometric likelihood", **ctx)
    mon.nontrivial("interf", s["beam"] is not None, n > s["nx"], s["nx"] == s["ny"], len(s["source"]), len(s["ll"]), len(s["ps"]))


def run_coupled(case, mon, rng):
    """point sources whose images share one amplitude (fixed magnification), with their own redshifts and flux perturbations."""
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.PointSource.point_source import PointSource
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF
    mp = bool(rng.integers(2))
    e1, e2 = rng.uniform(-.2, .2, 2)
    kl = [dict(theta_E=U(rng, .8, 1.2), e1=e1, e2=e2, center_x=.02, center_y=-.03), dict(gamma1=.03, gamma2=-.05)]
    lm = lambda z=2.: LensModel(["SIE", "SHEAR"], lens_redshift_list=[.5, .5], z_source=z, z_source_convention=2., multi_plane=True) if mp else LensModel(["SIE", "SHEAR"])
    types = [str(t) for t in rng.choice(["SOURCE_POSITION", "LENSED_POSITION", "UNLENSED"], int(rng.integers(1, 4)))]
    fixed = [bool(rng.integers(2)) if t != "UNLENSED" else False for t in types]
    flux = [bool(rng.integers(5)) for _ in types]
    zs = [float(rng.choice([2., 1.2, .9])) for _ in types] if mp else None
    kps = []
    for t, f in zip(types, fixed):
        if t == "SOURCE_POSITION":
            k = dict(ra_source=U(rng, -.12, .12), dec_source=U(rng, -.12, .12))
            if rng.integers(2):
                k["mag_pert"] = rng.uniform(.7, 1.4, 5)
        else:
            n = int(rng.integers(1, 5))
            k = dict(ra_image=rng.uniform(-1.4, 1.4, n), dec_image=rng.uniform(-1.4, 1.4, n))
        k.update(dict(source_amp=U(rng, 1, 5)) if f else dict(point_amp=rng.uniform(1, 5, 5 if t == "SOURCE_POSITION" else n)))
        kps.append(k)
    nx, d = 33, .12
    K = SC.kernel(rng, 5)
    data = rng.normal(size=(nx, nx)) + 1
    ps = PointSource(types, lens_model=lm(), fixed_magnification_list=fixed, flux_from_point_source_list=flux, redshift_list=zs,
                     kwargs_lens_eqn_solver=dict(min_distance=.05, search_window=4., precision_limit=1e-10))
    D = ImageData(image_data=data, background_rms=.5, exposure_time=100., ra_at_xy_0=-d * (nx - 1) / 2, dec_at_xy_0=-d * (nx - 1) / 2, transform_pix2angle=np.eye(2) * d)
    im = ImageLinearFit(D, PSF("PIXEL", kernel_point_source=K), lens_model_class=lm(), source_model_class=LightModel(["GAUSSIAN"]), point_source_class=ps)
    ksrc = [dict(amp=1., sigma=.2, center_x=0., center_y=0.)]
    args = dict(kwargs_lens=kl, kwargs_source=ksrc, kwargs_lens_light=[], kwargs_ps=copy.deepcopy(kps))
    R = []
    pos = []
    for i, t in enumerate(types):
        z = zs[i] if zs else 2.
        if t == "SOURCE_POSITION":
            from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
            x, y = LensEquationSolver(lm(z)).image_position_from_source(kps[i]["ra_source"], kps[i]["dec_source"], kl, min_distance=.05, search_window=4., precision_limit=1e-10)
        else:
            x, y = np.array(kps[i]["ra_image"]), np.array(kps[i]["dec_image"])
        mp_ = np.atleast_1d(kps[i].get("mag_pert", 1.))
        pert = mp_[:len(x)] if len(mp_) > 1 else np.ones(len(x))
        pos.append((x, y))
        if not flux[i]:
            continue
        unit = np.abs(lm(z).magnification(x, y, kl)) * pert if fixed[i] else None
        for a in ([unit] if fixed[i] else [np.eye(len(x))[j] * pert for j in range(len(x))]):
            img = np.zeros((nx, nx))
            for xx, yy, aa in zip(x, y, a):
                SC.Ref.place(None, xx / d + (nx - 1) / 2, yy / d + (nx - 1) / 2, aa, K, 1, img)
            R.append(img.ravel())
    ctx = dict(types=types, fixed=fixed, flux=flux, z=zs, images=[len(p[0]) for p in pos])
    A = im.linear_response_matrix(**args)
    mon.check("coupled/inputs", repr(args["kwargs_ps"]) == repr(kps), "parameters altered", **ctx)
    if mon.check("coupled/num", len(A) == 1 + len(R) == im.num_param_linear(kl, ksrc, [], args["kwargs_ps"]), "number of amplitudes", got=len(A), want=1 + len(R), **ctx) and R:
        w = np.array(R)
        mon.close("coupled/rows", A[1:], w, 1e-5, 1e-6 * np.max(np.abs(w), axis=1)[:, None] + 1e-9, "response of the point-source amplitudes", **ctx)
    model, _, cov, param = im.image_linear_solve(**args, inv_bool=True)
    v = .5 ** 2 + np.maximum(data.ravel(), 0) / 100.
    judge(mon, "coupled", A, data.ravel(), v, param, cov, ctx)
    img = im.image(**args)
    mon.close("coupled/render", img, model, 1e-6, 1e-7 * np.max(np.abs(A) * np.abs(param)[:, None]), "re-rendering with the written-back amplitudes differs from the model", **ctx)
    i = 1
    for k, f, fl, (x, y) in zip(args["kwargs_ps"], fixed, flux, pos):
        if not fl:
            continue
        n = 1 if f else len(x)
        mon.close("coupled/readback", np.atleast_1d(k["source_amp"] if f else k["point_amp"]), np.asarray(param[i:i + n]), 1e-12, 0, "amplitude written back", **ctx)
        i += n
    mon.nontrivial("coupled", tuple(types), tuple(fixed), tuple(flux), mp)


def run_beam(case, mon, rng):
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
    s = SC.make(rng, beam=True, nmax=2, n_ps=0, psf="PIXEL", pool=["GAUSSIAN", "SERSIC"])
    while not s["ll"]:
        s = SC.make(rng, beam=True, nmax=2, n_ps=0, psf="PIXEL", pool=["GAUSSIAN", "SERSIC"])
    data = rng.normal(size=(s["ny"], s["nx"])) + 1
    im = SC.image_model(s, ImageLinearFit, data=dict(image_data=data, background_rms=.5, exposure_time=100.))
    args = SC.kwargs(s)
    model, _, _, param = im.image_linear_solve(**args)
    mon.close("beam/render", im.image(**args), model, 1e-6, 1e-7 * np.max(np.abs(model)), "re-rendering differs from the linear model when a primary beam is set", **info(s))
    mon.nontrivial("beam", len(s["source"]), len(s["ll"]))


def run_wls(case, mon, rng):
    """the solver itself: optimality, covariance and marginalisation constants for well- and ill-conditioned systems."""
    from lenstronomy.ImSim import de_lens
    n, m = int(rng.integers(5, 60)), int(rng.integers(1, 9))
    m = min(m, n)
    A = rng.normal(size=(n, m)) * 10 ** rng.uniform(-3, 3, m)
    if rng.integers(3) == 0 and m > 1:
        A[:, -1] = A[:, 0] * (1 + 1e-4 * rng.normal(size=n))
    d = rng.normal(size=n) * LU(rng, 1e-3, 1e3)
    v = rng.uniform(.1, 5, n) * LU(rng, 1e-3, 1e3)
    ctx = dict(n=n, m=m)
    for inv in (True, False):
        p, cov, img = de_lens.get_param_WLS(A, 1 / v, d, inv_bool=inv)
        judge(mon, "wls", A.T, d, v, p, cov, dict(inv=inv, **ctx))
        mon.close("model/wls", img, A @ p, 1e-12, 1e-12 * np.max(np.abs(A) * np.abs(p)), "model", **ctx)
    # singular systems give zero amplitudes
    S = A.copy()
    if m > 1:
        S[:, 1] = S[:, 0]
        if np.linalg.cond((S.T / v) @ S) > 1e17:
            p, cov, img = de_lens.get_param_WLS(S, 1 / v, d, inv_bool=False)
            mon.check("model/singular", np.all(np.isfinite(p)) and np.all(np.isfinite(img)), "singular system gives finite amplitudes", p=p)
    B = rng.normal(size=(m, m + 3))
    C = B @ B.T * LU(rng, 1e-3, 1e3)
    mon.close("cov/marg", de_lens.marginalisation_const(C), .5 * np.linalg.slogdet(C)[1], 1e-9, 1e-9, "flat-prior marginalisation constant")
    dp = LU(rng, .01, 100)
    e = np.linalg.eigvalsh(C)
    w = .5 * np.sum(np.log(np.minimum(e, dp ** 2))) + m / 2 * np.log(np.pi / 2) - m * np.log(dp)
    mon.close("cov/marg_prior", de_lens.marginalization_new(C, d_prior=dp), w, 1e-7, 1e-7, "marginalisation with a prior width", prior=dp, m=m)
    mon.nontrivial("wls", m)

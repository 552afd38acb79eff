"""C15: a simulated image is the sum of its independently computed parts."""
import contextlib
import copy
import io
import warnings
import numpy as np
import scene as SC
from lenscat import U

RULE = ("one signature per (kind, PSF type, supersampling, numerics options, source-plane setup, extinction/beam/scaling); random scenes, every image compared "
        "pixel by pixel with a forward model written here (own sub-pixel grid, component-wise evaluation, own convolution and point placement)")
ASSUMPTIONS = ["primary beam only with one sample per pixel (as the library requires); pixel kernels have an empty rim (sub-pixel placement of kernels cut at their rim is not defined)",
               "Gaussian point-source kernels are taken from the PSF class (C14 decides those)"]
REQUIRED = ["check:source", "check:lens_light", "check:ps", "check:total", "check:select", "check:offset", "check:update", "check:bands", "check:equiv", "check:shape", "check:extinction"]
TIMEOUT = 200


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for kind, n in (("image", 70 if q else 500), ("offset", 14 if q else 80), ("update", 12 if q else 60), ("bands", 48 if q else 300), ("equiv", 16 if q else 100), ("cosmo", 14 if q else 80)):
        out += [dict(name="%s/%d" % (kind, i), kind=kind, group=kind) for i in range(n)]
    return out


def run(case, mon, rng):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + case["kind"]](case, mon, rng)


def sig(s):
    n = s["num"]
    return (s["psf"]["psf_type"], n["supersampling_factor"], n.get("compute_mode"), bool(n.get("supersampling_convolution")), n.get("convolution_type"), "flux_evaluate_indexes" in n,
            s["multi"], bool(s["ext"]), s["beam"] is not None, s["flux"] != 1, len(s["lens"]) > 0, len(s["source"]), len(s["ll"]), len(s["ps"]), s["nx"] == s["ny"])


def info(s):
    return dict(nx=s["nx"], ny=s["ny"], num={k: (v if np.ndim(v) == 0 else "array") for k, v in s["num"].items()}, psf=s["psf"]["psf_type"], multi=s["multi"], source=s["source"],
                ll=s["ll"], ps=s["ps"], lens=s["lens"], ext=s["ext"], beam=s["beam"] is not None)


def tol(w):
    return 1e-7 * (np.max(np.abs(w), initial=0) + 1e-12)


def gk(im, s):
    from lenstronomy.Data.psf import PSF
    if s["psf"]["psf_type"] != "GAUSSIAN":
        return None
    p = PSF(**s["psf"])
    p.set_pixel_size(np.sqrt(abs(np.linalg.det(s["M"]))))
    return p.kernel_point_source


def ptol(s, w):
    a = sum(np.sum(np.abs(k["point_amp"])) for k in s["kw_ps"]) * s["flux"]
    r = 1e-9
    if s["psf"]["psf_type"] == "GAUSSIAN":     # the rim of a truncated kernel may or may not take part in the sub-pixel shift
        K = gk(None, s)
        r = 1.5 * max(K[0].max(), K[-1].max(), K[:, 0].max(), K[:, -1].max()) + 1e-9
    return tol(w) + a * r


def run_image(case, mon, rng):
    s = SC.make(rng)
    im = SC.image_model(s)
    ref = SC.Ref(s)
    kw = SC.kwargs(s)
    K = gk(im, s)
    c = info(s)
    sp = kw["kwargs_special"]
    unc = bool(rng.integers(2))
    parts = {}
    for u in (False, True):
        S, L, P = ref.source(unconvolved=u), ref.lens_light(unconvolved=u), ref.point_source(unconvolved=u, K=K)
        parts[u] = (S, L, P)
        got = im.source_surface_brightness(kw["kwargs_source"], kw["kwargs_lens"], kw["kwargs_extinction"], sp, unconvolved=u)
        mon.check("shape/source", np.shape(got) == (s["ny"], s["nx"]), "shape %s" % (np.shape(got),), **c)
        mon.close("source/image", got, S, 1e-7, tol(S), "lensed source", unconvolved=u, **c)
        got = im.lens_surface_brightness(kw["kwargs_lens_light"], unconvolved=u)
        mon.close("lens_light/image", got, L, 1e-7, tol(L), "lens light", unconvolved=u, **c)
        got = im.point_source(kw["kwargs_ps"], kw["kwargs_lens"], sp, unconvolved=u)
        mon.check("shape/ps", np.shape(got) == (s["ny"], s["nx"]), "shape %s" % (np.shape(got),), **c)
        mon.close("ps/image", got, P, 1e-7, ptol(s, P), "point sources", unconvolved=u, **c)
    for u in (False, True):
        for _ in range(3):
            on = [bool(b) for b in rng.integers(0, 2, 3)]
            if _ == 0:
                on = [True] * 3
            want = sum((p for p, b in zip(parts[u], on) if b), np.zeros((s["ny"], s["nx"])))
            got = im.image(unconvolved=u, source_add=on[0], lens_light_add=on[1], point_source_add=on[2], **kw)
            mon.check("shape/total", np.shape(got) == (s["ny"], s["nx"]), "shape %s" % (np.shape(got),), **c)
            mon.close("total/switch", got, want, 1e-7, tol(want) + ptol(s, want), "image with parts %s" % on, unconvolved=u, **c)
    if s["beam"] is not None:
        got = im.image(apply_primary_beam=False, **kw)
        want = ref.source(beam=False) + ref.lens_light(beam=False) + ref.point_source(beam=False, K=K)
        mon.close("total/no_beam", got, want, 1e-7, tol(want) + ptol(s, want), "image without primary beam", **c)
    # un-lensed source
    want = ref.source(unconvolved=unc, de_lensed=True)
    got = im.source_surface_brightness(kw["kwargs_source"], kw["kwargs_lens"], kw["kwargs_extinction"], sp, unconvolved=unc, de_lensed=True)
    mon.close("source/de_lensed", got, want, 1e-7, tol(want), "un-lensed source", **c)
    # component selection
    for n, f, r in ((len(s["source"]), lambda k: im.source_surface_brightness(kw["kwargs_source"], kw["kwargs_lens"], kw["kwargs_extinction"], sp, unconvolved=unc, k=k),
                     lambda k: ref.source(k=k, unconvolved=unc)),
                    (len(s["ll"]), lambda k: im.lens_surface_brightness(kw["kwargs_lens_light"], unconvolved=unc, k=k), lambda k: ref.lens_light(k=k, unconvolved=unc))):
        ks = list(range(n)) + ([[0, n - 1]] if n > 1 else [])
        for k in ks:
            want = r(k)
            mon.close("select/light", f(k), want, 1e-7, tol(want), "component selection k=%s" % (k,), **c)
    for k in list(range(len(s["ps"]))) + ([[0, len(s["ps"]) - 1]] if len(s["ps"]) > 1 else []):
        want = ref.point_source(k=k, unconvolved=unc, K=K)
        mon.close("select/ps", im.point_source(kw["kwargs_ps"], kw["kwargs_lens"], sp, unconvolved=unc, k=k), want, 1e-7, ptol(s, want), "point source selection %s" % (k,), **c)
    # extinction map: extinction averaged over the pixel
    if s["num"].get("compute_mode") != "adaptive" and "flux_evaluate_indexes" not in s["num"]:
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            e = im.extinction_map(kw["kwargs_extinction"], sp)
        want = ref.fine(lambda a, d: ref.extinction(a, d) * np.ones_like(a)).mean(axis=(1, 3))
        mon.close("extinction/map", e, want * np.ones((s["ny"], s["nx"])), 1e-7, 1e-9, "extinction map", **c)
        mon.check("extinction/quiet", b.getvalue() == "", "evaluating a model writes to standard output")
    mon.check("inputs", repr(kw) == repr(SC.kwargs(s)), "parameters altered by rendering")
    again = im.image(**kw)
    want = sum(parts[False])
    mon.close("total/again", again, want, 1e-7, tol(want) + ptol(s, want), "image after the other queries", **c)
    mon.nontrivial("image", *sig(s))


def run_offset(case, mon, rng):
    """per-band coordinate offsets, repeatedly updated, refer to the original frame."""
    s = SC.make(rng, beam=False, fmask=False, multi=str(rng.choice(["", "scale"])))
    s["special"].pop("delta_x_image", None)
    s["special"].pop("delta_y_image", None)
    idx = int(rng.integers(0, 3))
    im = SC.image_model(s, image_index=idx)
    cur = dict(ra_shift=0., dec_shift=0., phi_rot=0.)
    for step in range(4):
        off = {}
        for k in cur:
            if rng.integers(3):
                off[k] = float(rng.choice([0., U(rng, -.5, .5), .2, cur["ra_shift"]]))
        cur.update(off)
        lst = [dict(ra_shift=9., dec_shift=-7., phi_rot=1.)] * 3
        lst = lst[:idx] + [off] + lst[idx + 1:]
        kw = SC.kwargs(s)
        kw["kwargs_special"] = dict(kw["kwargs_special"] or {}, kwargs_offsets=lst)
        c, d = np.cos(cur["phi_rot"]), np.sin(cur["phi_rot"])
        ref = SC.Ref(s, M=s["M"] @ np.array([[c, -d], [d, c]]), o=s["o"] + [cur["ra_shift"], cur["dec_shift"]])
        want = ref.source() + ref.lens_light() + ref.point_source(K=gk(im, s))
        got = im.image(**kw)
        mon.close("offset/image", got, want, 1e-7, tol(want) + ptol(s, want), "image in the shifted/rotated frame (step %d)" % step, off=cur, **info(s))
        want = ref.source(unconvolved=True)
        got = im.source_surface_brightness(kw["kwargs_source"], kw["kwargs_lens"], kw["kwargs_extinction"], kw["kwargs_special"], unconvolved=True)
        mon.close("offset/source", got, want, 1e-7, tol(want), "source in the shifted/rotated frame", off=cur, **info(s))
    mon.nontrivial("offset", idx, *sig(s)[:5])


def run_update(case, mon, rng):
    """exchanging PSF or data equals building anew."""
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF
    s = SC.make(rng, fmask=False, beam=False)
    t = dict(s)
    t2 = SC.make(rng, fmask=False, beam=False, ss=s["num"]["supersampling_factor"])
    im = SC.image_model(s)
    im.image(**SC.kwargs(s))
    order = [str(a) for a in rng.permutation(["psf", "data"])]
    for w in order:
        if w == "psf":
            if s["psf"]["psf_type"] != "PIXEL":
                continue
            k = SC.kernel(rng, int(rng.choice([5, 7])) * s["psf_ss"])
            t["psf"] = dict(s["psf"], kernel_point_source=k)
            im.update_psf(PSF(**t["psf"]))
        else:
            if s["num"].get("compute_mode") == "adaptive":
                continue
            for k in ("nx", "ny", "M", "o", "d", "flux"):
                t[k] = t2[k]
            if t["psf"]["psf_type"] == "GAUSSIAN":
                t["psf"] = dict(t["psf"])
            im.update_data(ImageData(**SC.data_kwargs(t)))
        ref = SC.Ref(t)
        want = ref.source() + ref.lens_light() + ref.point_source(K=gk(im, t))
        got = im.image(**SC.kwargs(t))
        mon.check("update/shape", np.shape(got) == np.shape(want), "shape %s" % (np.shape(got),))
        if np.shape(got) == np.shape(want):
            mon.close("update/" + w, got, want, 1e-7, tol(want) + ptol(t, want), "image after exchanging the %s" % w, order=order, **info(t))
    mon.nontrivial("update", *sig(s)[:5])


def run_bands(case, mon, rng):
    """a band of a multi-band model shows exactly the components selected for it, with their own settings."""
    from lenstronomy.ImSim.MultiBand.single_band_multi_model import SingleBandMultiModel
    from lenstronomy.ImSim.MultiBand.multi_linear import MultiLinear
    nb = int(rng.integers(2, 4))
    multi = ["scale", "", "planes"][int(case["name"].split("/")[1]) % 3]
    base = SC.make(rng, beam=False, multi=multi, ext=bool(rng.integers(2)), n_ps=2)
    while not (base["source"] and base["ll"]) or (multi == "scale" and len(base["source"]) < 2):
        base = SC.make(rng, beam=False, multi=multi, ext=bool(rng.integers(2)), n_ps=2)
    if multi == "scale":
        base["scale"] = [U(rng, .2, 1.2) for _ in base["source"]]
    base["special"] = {}
    if base["ext"]:
        base["special"]["tau0_list"] = [U(rng, .3, 2) for _ in range(nb)]
    bands = []
    pick = lambda n: sorted(int(i) for i in rng.permutation(n)[:int(rng.integers(0, n + 1))])
    shuffled = lambda n: [int(i) for i in rng.permutation(n)[:int(rng.integers(0, n + 1))]]
    idx = {k: [] for k in ("lens", "source", "ll", "ps", "ext")}
    for b in range(nb):
        f = SC.make(rng, beam=False, ext=False)
        t = dict(base)
        for k in ("nx", "ny", "M", "o", "d", "psf", "num", "psf_ss", "flux"):
            t[k] = f[k]
        t["tau_index"] = b
        for k in idx:
            idx[k].append(shuffled(len(base[k] or [])))
        i = idx
        t["lens"], t["kw_lens"] = [base["lens"][j] for j in i["lens"][b]], [base["kw_lens"][j] for j in i["lens"][b]]
        if base["multi"] == "planes":
            t["zl"] = [base["zl"][j] for j in i["lens"][b]]
            t["zsrc"] = [base["zsrc"][j] for j in i["source"][b]] if base["zsrc"] else None
        if base["multi"] == "scale":
            t["scale"] = [base["scale"][j] for j in i["source"][b]]
        for a, q in (("source", "source"), ("ll", "ll")):
            t[a] = [base[a][j] for j in i[a][b]]
            t["kw_" + a] = [base["kw_" + a][j] for j in i[a][b]]
            t["pk_" + a] = [base["pk_" + a][j] for j in i[a][b]]
        t["ps"], t["kw_ps"] = [base["ps"][j] for j in i["ps"][b]], [base["kw_ps"][j] for j in i["ps"][b]]
        if base["ext"]:
            t["ext"], t["kw_ext"] = [base["ext"][j] for j in i["ext"][b]] or None, [base["kw_ext"][j] for j in i["ext"][b]]
        bands.append(t)
    if base["multi"] == "planes" and any(not t["lens"] for t in bands):
        idx["lens"] = [list(range(len(base["lens"]))) for _ in bands]
        for t in bands:
            t["lens"], t["kw_lens"], t["zl"] = base["lens"], base["kw_lens"], base["zl"]
    km = dict(lens_model_list=base["lens"], source_light_model_list=base["source"], lens_light_model_list=base["ll"], point_source_model_list=base["ps"],
              source_light_profile_kwargs_list=copy.deepcopy(base["pk_source"]), lens_light_profile_kwargs_list=copy.deepcopy(base["pk_ll"]),
              index_lens_model_list=idx["lens"], index_source_light_model_list=idx["source"], index_lens_light_model_list=idx["ll"], index_point_source_model_list=idx["ps"])
    if base["ext"]:
        km.update(optical_depth_model_list=base["ext"], index_optical_depth_model_list=idx["ext"], tau0_index_list=list(range(nb)))
    if base["multi"] == "scale":
        km["source_deflection_scaling_list"] = base["scale"]
    if base["multi"] == "planes":
        km.update(multi_plane=True, lens_redshift_list=base["zl"], z_source=base["zs"], z_source_convention=base["zs"], source_redshift_list=base["zsrc"])
    mb = [[SC.data_kwargs(t), copy.deepcopy(t["psf"]), copy.deepcopy(t["num"])] for t in bands]
    kw = SC.kwargs(base)
    b = int(rng.integers(nb))
    offs = [dict(ra_shift=U(rng, -.3, .3), dec_shift=U(rng, -.3, .3), phi_rot=U(rng, -.3, .3)) for _ in range(nb)] if rng.integers(2) else None
    if offs:
        kw["kwargs_special"] = dict(kw["kwargs_special"] or {}, kwargs_offsets=offs)
    for b in range(nb):
        im = SingleBandMultiModel(copy.deepcopy(mb), km, band_index=b, linear_solver=bool(rng.integers(2)))
        t = bands[b]
        M, o = t["M"], t["o"]
        if offs:
            c, d = np.cos(offs[b]["phi_rot"]), np.sin(offs[b]["phi_rot"])
            M, o = M @ np.array([[c, -d], [d, c]]), o + [offs[b]["ra_shift"], offs[b]["dec_shift"]]
        ref = SC.Ref(t, M=M, o=o)
        S, L, P = ref.source(), ref.lens_light(), ref.point_source(K=gk(im, t))
        c = dict(band=b, nb=nb, idx={k: v[b] for k, v in idx.items()}, offsets=bool(offs), **info(t))
        mon.close("bands/image", im.image(**kw), S + L + P, 1e-7, tol(S + L + P) + ptol(t, S), "image of one band", **c)
        mon.close("bands/source", im.source_surface_brightness(kw["kwargs_source"], kw["kwargs_lens"], kw["kwargs_extinction"], kw["kwargs_special"]), S, 1e-7, tol(S), "source of one band", **c)
        mon.close("bands/lens_light", im.lens_surface_brightness(kw["kwargs_lens_light"]), L, 1e-7, tol(L), "lens light of one band", **c)
        mon.close("bands/ps", im.point_source(kw["kwargs_ps"], kw["kwargs_lens"], kw["kwargs_special"]), P, 1e-7, ptol(t, P), "point sources of one band", **c)
    mon.check("inputs/bands", repr({k: v for k, v in kw.items() if k != "kwargs_special"}) == repr({k: v for k, v in SC.kwargs(base).items() if k != "kwargs_special"}), "parameters altered")
    mon.nontrivial("bands", nb, base["multi"], bool(base["ext"]), bool(offs), tuple(len(base[k] or []) for k in idx))


def run_equiv(case, mon, rng):
    """equivalent ways of evaluating the same scene give the same pixels."""
    s = SC.make(rng, psf=str(rng.choice(["NONE", "PIXEL"])), beam=False, fmask=False, adaptive=False)
    s["num"].pop("supersampling_convolution", None)
    s["num"].pop("supersampling_kernel_size", None)
    kw = SC.kwargs(s)
    full = SC.image_model(s).image(**kw)
    c = info(s)
    # all pixels evaluated explicitly
    t = dict(s, num=dict(s["num"], flux_evaluate_indexes=np.ones((s["ny"], s["nx"]), dtype=bool)))
    mon.close("equiv/all_evaluated", SC.image_model(t).image(**kw), full, 1e-9, tol(full), "all pixels explicitly evaluated", **c)
    # adaptive with all pixels super-sampled
    t = dict(s, num=dict(s["num"], compute_mode="adaptive", supersampled_indexes=np.ones((s["ny"], s["nx"]), dtype=bool)))
    mon.close("equiv/adaptive_all", SC.image_model(t).image(**kw), full, 1e-9, tol(full), "adaptive with all pixels super-sampled", **c)
    for ct in ("fft", "grid", "fft_static"):
        t = dict(s, num=dict(s["num"], convolution_type=ct))
        mon.close("equiv/conv_type", SC.image_model(t).image(**kw), full, 1e-8, 1e-8 * np.max(np.abs(full), initial=1e-9), "convolution type " + ct, **c)
    # a cut-out of the frame without convolution
    x0, y0 = int(rng.integers(0, s["nx"] - 3)), int(rng.integers(0, s["ny"] - 3))
    nx, ny = int(rng.integers(2, s["nx"] - x0 + 1)), int(rng.integers(2, s["ny"] - y0 + 1))
    t = dict(s, nx=nx, ny=ny, o=s["o"] + s["M"] @ [x0, y0])
    a = SC.image_model(s).image(unconvolved=True, point_source_add=False, **kw)
    b = SC.image_model(t).image(unconvolved=True, point_source_add=False, **kw)
    mon.close("equiv/cutout", b, a[y0:y0 + ny, x0:x0 + nx], 1e-7, tol(a), "cut-out of the frame", x0=x0, y0=y0, size=(nx, ny), **c)
    # point sources on a cut-out
    a = SC.image_model(s).image(source_add=False, lens_light_add=False, **kw)
    b = SC.image_model(t).image(source_add=False, lens_light_add=False, **kw)
    mon.close("equiv/cutout_ps", b, a[y0:y0 + ny, x0:x0 + nx], 1e-7, ptol(s, a), "point sources on a cut-out", x0=x0, y0=y0, size=(nx, ny), **c)
    # a pixel mask: evaluated pixels unchanged without convolution
    m = rng.random((s["ny"], s["nx"])) < .5
    m[1, 1] = True
    t = dict(s, num=dict(s["num"], flux_evaluate_indexes=m))
    a = SC.image_model(s).image(unconvolved=True, point_source_add=False, **kw)
    b = SC.image_model(t).image(unconvolved=True, point_source_add=False, **kw)
    mon.close("equiv/mask", b, a * m, 1e-7, tol(a), "evaluation mask", **c)
    # k-sub-sampled pixels: mean of the k x k finer image
    if s["psf"]["psf_type"] == "NONE" or True:
        k = s["num"]["supersampling_factor"]
        if k > 1:
            t = dict(s, nx=s["nx"] * k, ny=s["ny"] * k, M=s["M"] / k, o=s["o"] - s["M"] @ (np.ones(2) * (k - 1) / (2 * k)), num=dict(supersampling_factor=1))
            b = SC.image_model(t).image(unconvolved=True, point_source_add=False, **kw)
            mon.close("equiv/finer", b.reshape(s["ny"], k, s["nx"], k).sum(axis=(1, 3)), a, 1e-7, tol(a), "flux of the k-times finer image", k=k, **c)
    mon.nontrivial("equiv", *sig(s)[:8])


def run_cosmo(case, mon, rng):
    """image models whose cosmology (or distance ratios) is a parameter: the image is the one of that cosmology, whatever was evaluated before"""
    import astropy.cosmology as ac
    ratio = bool(rng.integers(2))
    s = SC.make(rng, multi="planes", beam=False, nlens=3, nmax=2)
    while not (s["source"] and len(s["lens"]) > 1):
        s = SC.make(rng, multi="planes", beam=False, nlens=3, nmax=2)
    s["zl"] = [float(z) for z in rng.permutation([.3, .6, 1., 1.4])[:len(s["lens"])]]
    s["zsrc"] = [float(rng.choice([2., .8, 1.7])) for _ in s["source"]] if rng.integers(4) else None
    if s["zsrc"] and (ratio or rng.integers(2)):
        s["zsrc"][int(rng.integers(len(s["zsrc"])))] = 2.
    name = str(rng.choice(["FlatLambdaCDM", "FlatwCDM", "Flatw0waCDM"]))     # curved models: see the finding of C06
    names = ["H0", "Om0"] + (["w0"] if "w" in name else []) + (["wa"] if "wa" in name else [])

    def draw():
        v = dict(H0=U(rng, 50, 90), Om0=U(rng, .1, .6), Ode0=U(rng, .4, .9), w0=U(rng, -1.6, -.5), wa=U(rng, -.3, .3))
        return {k: v[k] for k in names}
    fid = ac.FlatLambdaCDM(70, .3)
    K = gk(None, s)
    c = info(s)
    c.update(z=s["zl"], zsrc=s["zsrc"], model=name, ratio=ratio)
    if ratio:
        zmax = 2.
        planes = sorted(set(s["zl"] + (s["zsrc"] or [2.])))
        d = lambda co, a, b: co.angular_diameter_distance_z1z2(a, b).value

        def factors(co):
            f = lambda cc, i, j: d(cc, planes[i - 1], planes[j - 1]) * d(cc, 0, zmax) / d(cc, planes[i - 1], zmax) / d(cc, 0, planes[j - 1])
            kw = {"factor_beta_%d_%d" % (i, j): f(co, i, j) / f(fid, i, j) for j in range(1, len(planes)) for i in range(1, j)}
            kw["D_dt"] = (1 + min(s["zl"])) * d(co, 0, min(s["zl"])) * d(co, 0, zmax) / d(co, min(s["zl"]), zmax)
            return kw
        kp = dict(distance_ratio_sampling=True, z_lens_convention=min(s["zl"]))
    else:
        kp = dict(cosmology_sampling=True, cosmology_model=name)
    im = SC.image_model(dict(s, cosmo=fid, kw_planes=kp))
    vals = [draw(), draw()]
    for step, v in enumerate([vals[0], vals[1], vals[0]]):
        co = getattr(ac, name)(**v) if not ratio or step == 1 else fid
        ref = SC.Ref(dict(s, cosmo=co))
        kw = SC.kwargs(s)
        kw["kwargs_special"] = dict(kw["kwargs_special"] or {}, **(factors(co) if ratio else v))
        want = ref.source()
        if not np.all(np.isfinite(want)):
            return
        how = int(rng.integers(2))
        key = "cosmo/%s_%s" % ("ratio" if ratio else "params", "source" if how else "image")
        if how:
            got = im.source_surface_brightness(kw["kwargs_source"], kw["kwargs_lens"], kwargs_extinction=kw["kwargs_extinction"], kwargs_special=kw["kwargs_special"])
            t = tol(want)
        else:
            got = im.image(**kw)
            want = want + ref.lens_light() + ref.point_source(K=K)
            t = ptol(s, want)
        if ratio and step == 1:     # other ratios (see the finding of C06): only that the result has no memory
            key += "_fresh"
            want = SC.image_model(dict(s, cosmo=fid, kw_planes=kp))
            want = want.source_surface_brightness(kw["kwargs_source"], kw["kwargs_lens"], kwargs_extinction=kw["kwargs_extinction"], kwargs_special=kw["kwargs_special"]) if how else want.image(**kw)
        mon.close(key, got, want, 1e-5, 1e2 * t, "image with a sampled cosmology, step %d" % step, **c)
    mon.nontrivial("cosmo", ratio, name, len(set(s["zl"])), s["zsrc"] is not None)

"""C23: simulated observations follow the instrument settings (photometry, noise, units, instrument catalogue)."""
import copy
import importlib.util
import os
import sys
import warnings
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import lightcat
from lenscat import U, LU

RULE = "independent photometric formulae, numerical flux integrals, sample statistics of the noise and freshly loaded instrument tables"
ASSUMPTIONS = ["the noise statistics are judged at 6 standard deviations of the sample variance, with a fixed random seed"]
REQUIRED = ["check:photo", "check:amp", "check:bkg", "check:noise", "check:units", "check:config", "check:image", "check:variable", "check:mass"]
C = 299792.458


def cases(tier, seed):
    m = {"quick": 2, "thorough": 14}[tier]
    out = []
    for n, k, c in (("photo", 6, 1), ("amp", 28, 2), ("bkg", 12, 1), ("noise", 12, 2), ("units", 8, 3), ("config", 12, 2), ("image", 16, 3),
                    ("variable", 4, 4), ("mass", 6, 2), ("update", 6, 1)):
        for i in range(k * m):
            out.append(dict(name=f"{n}/{i}", kind=n, i=i, group=n + str(i % 3), cost=c))
    return out


def band(rng, unit=None, psf="GAUSSIAN", **kw):
    b = dict(pixel_scale=U(rng, .03, .3), exposure_time=float(rng.choice([U(rng, 30, 2000), 100.])), magnitude_zero_point=U(rng, 22, 30),
             read_noise=float(rng.choice([0., U(rng, .5, 15)])), ccd_gain=U(rng, .5, 6), sky_brightness=U(rng, 18, 25), seeing=U(rng, .1, .6),
             num_exposures=int(rng.integers(1, 12)), psf_type=psf, truncation=5, data_count_unit=unit or str(rng.choice(["e-", "ADU"])))
    b.update(kw)
    return b


def flux_of(m, zp):
    return 10 ** (-.4 * (np.asarray(m, float) - zp))


def _same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b)))
    return a is b or a == b


def t_photo(case, mon, rng):
    import lenstronomy.Util.data_util as du
    for _ in range(40):
        zp, m = U(rng, 15, 32), U(rng, 8, 35)
        f = du.magnitude2cps(m, zp)
        mon.close("photo/cps", f, flux_of(m, zp), 1e-10, 0, "counts of a magnitude", m=m, zp=zp)
        mon.close("photo/inverse", du.cps2magnitude(f, zp), m, 0, 1e-9, "magnitude of the counts", m=m, zp=zp)
        mon.close("photo/zero", du.magnitude2cps(zp, zp), 1., 1e-12, 0, "one count at the zero point", zp=zp)
        arr = rng.uniform(10, 30, (3, 4))
        mon.close("photo/array", du.magnitude2cps(arr, zp), flux_of(arr, zp), 1e-10, 0, "arrays")
        d = LU(rng, 1, 1e10)
        M = U(rng, -25, 5)
        mon.close("photo/distance", du.absolute2apparent_magnitude(M, d), M + 5 * np.log10(d / 10.), 0, 1e-9, "distance modulus", d=d)
        g, e = U(rng, .3, 8), LU(rng, 1e-2, 1e5)
        mon.close("photo/gain", du.adu2electrons(e, g), e * g, 1e-12, 0, "electrons = ADU x gain")
        mon.close("photo/gain_inverse", du.electrons2adu(du.adu2electrons(e, g), g), e, 1e-12, 0, "inverse", e=e)
    zp, t = 25., LU(rng, 10, 1e4)
    c = LU(rng, .1, 100)
    mon.close("photo/flux_noise_util", du.flux_noise(c, t), np.sqrt(c / t), 1e-10, 0, "data_util.flux_noise: shot noise of a count rate", cps=c, exposure=t)
    mon.nontrivial("photo")


def integral(M, k, name, kw):
    """flux of a single component by integration on a fine grid"""
    cx, cy = kw.get("center_x", 0.), kw.get("center_y", 0.)
    if name == "LINE_PROFILE":
        L = kw["length"] + kw["width"] + 1
        n = 1500
        g = (np.arange(n) + .5) / n * 2 * L - L
        x, y = np.meshgrid(g + kw["start_x"], g + kw["start_y"])
        return M.surface_brightness(x.ravel(), y.ravel(), kw if isinstance(kw, list) else [kw]).sum() * (2 * L / n) ** 2
    if name == "INTERPOL":
        ny, nx = kw["image"].shape
        L = kw["scale"] * (max(nx, ny) + 4) * .75
        n = 1200
        g = (np.arange(n) + .5) / n * 2 * L - L
        x, y = np.meshgrid(g + cx, g + cy)
        return M.surface_brightness(x.ravel(), y.ravel(), [kw]).sum() * (2 * L / n) ** 2
    s = float(np.max(kw.get("R_sersic", kw.get("sigma", kw.get("Rs", 1)))))
    if "MGE_SET" in name:
        s = 1.
    t = np.linspace(np.log(s * 1e-5), np.log(s * 3e4), 1500)
    r = np.exp(t)
    ph = (np.arange(90) + .5) / 90 * 2 * np.pi
    R, P = np.meshgrid(r, ph)
    f = M.surface_brightness((cx + R * np.cos(P)).ravel(), (cy + R * np.sin(P)).ravel(), [kw]).reshape(R.shape)
    return float(np.trapezoid(f.mean(0) * 2 * np.pi * r ** 2, t))


SKIPFLUX = ("SERSIC_ELLIPSE_FLEXION", "PL_SERSIC")   # PL_SERSIC: see the finding on its half-light radius (C12)


def magkw(name, rng, mag):
    kw = lightcat.params(name, rng)
    rel = None
    if np.ndim(kw["amp"]):
        rel = kw["amp"]
        kw = dict(kw, magnitude=mag)
    else:
        kw = {k: v for k, v in kw.items() if k != "amp"}
        kw["magnitude"] = mag
    return kw, rel


def t_amp(case, mon, rng):
    import lenstronomy.Util.data_util as du
    from lenstronomy.SimulationAPI.sim_api import SimAPI
    from lenstronomy.SimulationAPI.mag_amp_conversion import MagAmpConversion
    F = lightcat.FLUX
    first = F[case["i"] % len(F)]
    names = [str(x) for x in rng.choice(F, int(rng.integers(0, 3)))] + [first]
    names = [names[j] for j in rng.permutation(len(names))]
    src = [str(rng.choice(F))]
    inits = [lightcat.profile_kwargs(n, rng) for n in names]
    inits_s = [lightcat.profile_kwargs(n, rng) for n in src]
    mags = [U(rng, 15, 26) for _ in names]
    kl = [magkw(n, rng, m) for n, m in zip(names, mags)]
    rel, kl = [a[1] for a in kl], [a[0] for a in kl]
    ms = U(rng, 18, 27)
    ks = magkw(src[0], rng, ms)
    rel_s, ks = [ks[1]], [ks[0]]
    b = band(rng)
    g = b["ccd_gain"] if b["data_count_unit"] == "ADU" else 1.
    model = dict(lens_light_model_list=names, source_light_model_list=src, lens_light_profile_kwargs_list=inits, source_light_profile_kwargs_list=inits_s,
                 point_source_model_list=["UNLENSED", "LENSED_POSITION", "SOURCE_POSITION"], lens_model_list=["SIS"])
    mp = rng.uniform(18, 25, 3)
    kp = [dict(ra_image=[.1, -.3], dec_image=[.2, .4], magnitude=[float(mp[0]), float(mp[1])]), dict(ra_image=np.array([1.]), dec_image=np.array([0.]), magnitude=mp[1:2]),
          dict(ra_source=.1, dec_source=.05, magnitude=float(mp[2]))]
    before = copy.deepcopy((kl, ks, kp, model, b))
    ctx = dict(names=names, source=src, unit=b["data_count_unit"])
    api = SimAPI(20, b, model)
    L, S, P = api.magnitude2amplitude(kl, ks, kp)
    conv = MagAmpConversion(model, b["magnitude_zero_point"])
    L2, S2, P2 = conv.magnitude2amplitude(kl, ks, kp)
    L3 = du.magnitude2amplitude(api.lens_light_model_class, kl, b["magnitude_zero_point"])
    mon.check("amp/inputs", _same(before, (kl, ks, kp, model, b)), "inputs unaltered", **ctx)
    zp = b["magnitude_zero_point"]
    for which, out, g_ in (("sim", L, g), ("conv", L2, 1.), ("util", L3, 1.)):
        for i, n in enumerate(names):
            mon.check("amp/keys", set(out[i]) == (set(kl[i]) - {"magnitude"}) | {"amp"}, "keys of the converted parameters", got=sorted(out[i]), **ctx)
            mon.check("amp/rest", all(_same(out[i][k], kl[i][k]) for k in out[i] if k != "amp"), "all other parameters as given", **ctx)
            want = flux_of(mags[i], zp) / g_
            M = lightcat.model([n], inits=[inits[i]])
            mon.close("amp/total/" + n, M.total_flux([out[i]])[0], want, 1e-9, 0, "total flux of the converted component " + which, i=i, **ctx)
            if n not in SKIPFLUX:
                tol = .03 if n in ("LINE_PROFILE",) else .02
                mon.close("amp/flux/" + n, integral(M, 0, n, out[i]), want, tol, 0, "integrated flux of the converted component " + which, i=i, kw=out[i], **ctx) if which == "sim" else None
            if rel[i] is not None:
                mon.close("amp/relative", np.asarray(out[i]["amp"]) / np.sum(out[i]["amp"]), rel[i] / np.sum(rel[i]), 1e-9, 0, "relative amplitudes of the components kept", **ctx)
    mon.close("amp/source", lightcat.model(src, inits=inits_s).total_flux(S)[0], flux_of(ms, zp) / g, 1e-9, 0, "source flux", **ctx)
    for out, g_ in ((P, g), (P2, 1.)):
        f = flux_of(mp, zp) / g_
        mon.close("amp/ps", out[0]["point_amp"], f[:2], 1e-10, 0, "unlensed point sources", **ctx)
        mon.close("amp/ps_lensed", out[1]["point_amp"], f[1:2], 1e-10, 0, "image positions", **ctx)
        mon.close("amp/ps_source", out[2]["source_amp"], f[2], 1e-10, 0, "source position", **ctx)
        mon.check("amp/ps_keys", all("magnitude" not in k for k in out), "no magnitude left")
    e = api.magnitude2amplitude()
    mon.check("amp/none", all(x is None for x in e), "nothing to convert", got=e)
    mon.nontrivial("amp", first, b["data_count_unit"])


def sigma_bkg(b):
    t = b["exposure_time"] * b["num_exposures"]
    sky = flux_of(b["sky_brightness"], b["magnitude_zero_point"]) * b["pixel_scale"] ** 2
    s = np.sqrt(b["num_exposures"] * b["read_noise"] ** 2 + sky * t) / t
    return s / (b["ccd_gain"] if b["data_count_unit"] == "ADU" else 1.)


def t_bkg(case, mon, rng):
    from lenstronomy.SimulationAPI.observation_api import SingleBand
    import lenstronomy.Util.data_util as du
    for _ in range(20):
        b = band(rng)
        s = SingleBand(**b)
        g = b["ccd_gain"] if b["data_count_unit"] == "ADU" else 1.
        t = b["exposure_time"] * b["num_exposures"]
        sky = flux_of(b["sky_brightness"], b["magnitude_zero_point"])
        want = sigma_bkg(b)
        mon.close("bkg/sigma", s.background_noise, want, 1e-10, 0, "background noise", band=b)
        mon.close("bkg/repeat", s.background_noise, want, 1e-10, 0, "asked again", band=b)
        mon.close("bkg/sky", s.sky_brightness, sky / g, 1e-10, 0, "sky in data units", band=b)
        mon.close("bkg/sky_repeat", s.sky_brightness, sky / g, 1e-10, 0, "sky asked again", band=b)
        mon.close("bkg/exposure", s.exposure_time, t, 1e-12, 0, "total exposure time", band=b)
        mon.close("bkg/util", du.bkg_noise(b["read_noise"], b["exposure_time"], sky, b["pixel_scale"], b["num_exposures"]), want * g, 1e-10, 0, "bkg_noise", band=b)
        f = LU(rng, 1e-3, 100)
        mon.close("bkg/iid", s.flux_iid(f), f * t * g, 1e-10, 0, "number of independent counts", band=b)
        mon.close("bkg/shot", s.flux_noise(f), np.sqrt(f / (t * g)), 1e-10, 0, "shot noise of a pixel", band=b)
        mon.close("bkg/shot_negative", s.flux_noise(-f), 0, 0, 0, "no shot noise of negative flux", band=b)
        im = rng.normal(size=(4, 5)) * f
        im0 = im.copy()
        mon.close("bkg/shot_image", s.flux_noise(im), np.sqrt(np.maximum(im, 0) / (t * g)), 1e-10, 0, "shot noise of an image", band=b)
        mon.close("bkg/estimate", s.estimate_noise(im) ** 2, want ** 2 + np.maximum(im, 0) / (t * g), 1e-10, 0, "background and shot noise add in variance", band=b)
        mon.check("bkg/unaltered", bool(np.all(im == im0)), "image unaltered")
        mon.close("bkg/mag", s.magnitude2cps(20.), flux_of(20., b["magnitude_zero_point"]) / g, 1e-10, 0, "magnitude to data counts", band=b)
        given = LU(rng, 1e-3, 1)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mon.close("bkg/given", SingleBand(**dict(b, background_noise=given)).background_noise, given, 0, 0, "explicit background noise wins", band=b)
        if b["read_noise"] > 0:
            b2 = dict(b, num_exposures=1, exposure_time=b["exposure_time"] * b["num_exposures"], read_noise=b["read_noise"] * np.sqrt(b["num_exposures"]))
            mon.close("bkg/coadd", SingleBand(**b2).background_noise, want, 1e-10, 0, "coadded exposures are one long exposure with the summed read noise", band=b)
    for k in ("read_noise", "sky_brightness"):
        try:
            SingleBand(**{a: v for a, v in b.items() if a != k}).background_noise
            mon.check("bkg/missing", False, "missing setting must be reported", key_=k)
        except ValueError:
            mon.check("bkg/missing", True, "")
    mon.nontrivial("bkg", b["data_count_unit"])


def t_noise(case, mon, rng):
    from lenstronomy.SimulationAPI.observation_api import SingleBand
    from lenstronomy.SimulationAPI.sim_api import SimAPI
    import lenstronomy.Util.image_util as iu
    b = band(rng)
    s = SingleBand(**b)
    g = b["ccd_gain"] if b["data_count_unit"] == "ADU" else 1.
    t = b["exposure_time"] * b["num_exposures"]
    sb = sigma_bkg(b)
    n = (150, 130)
    N = n[0] * n[1]
    level = sb ** 2 * t * g * LU(rng, .3, 10)
    model = np.full(n, level)
    m0 = model.copy()
    sh = np.sqrt(level / (t * g))
    ctx = dict(band=b, level=level)
    for bg in (True, False):
        for po in (True, False):
            seed = int(rng.integers(2 ** 31))
            a = s.noise_for_model(model, background_noise=bg, poisson_noise=po, seed=seed)
            var = sb ** 2 * bg + sh ** 2 * po
            mon.check("noise/shape", a.shape == n, "noise has the shape of the model", got=a.shape)
            mon.close("noise/variance", a.var(), var, 6 * np.sqrt(2. / N), 0, "variance of the realisation", background=bg, poisson=po, **ctx)
            mon.close("noise/mean", a.mean(), 0, 0, 6 * np.sqrt(var / N) + 1e-300, "mean of the realisation", background=bg, poisson=po, **ctx)
            if var > 0:
                c = np.mean(a[1:] * a[:-1]) / var
                mon.close("noise/independent", c, 0, 0, 6 / np.sqrt(N), "neighbouring pixels are independent", **ctx)
                k4 = np.mean(a ** 4) / var ** 2
                mon.close("noise/gaussian", k4, 3, 0, 6 * np.sqrt(96. / N), "Gaussian noise", **ctx)
            again = s.noise_for_model(model, background_noise=bg, poisson_noise=po, seed=seed)
            mon.check("noise/seed", bool(np.all(a == again)), "same seed same noise")
            if var > 0:
                other = s.noise_for_model(model, background_noise=bg, poisson_noise=po, seed=seed + 1)
                mon.check("noise/seed_other", not np.all(a == other), "other seed, other noise")
    np.random.seed(int(rng.integers(2 ** 31)))
    st = np.random.get_state()[1].copy()
    s.noise_for_model(model, seed=3)
    mon.check("noise/global_state", bool(np.all(st == np.random.get_state()[1])), "an explicit seed leaves the global generator alone")
    a = s.noise_for_model(model)
    mon.close("noise/unseeded", a.var(), sb ** 2 + sh ** 2, 6 * np.sqrt(2. / N), 0, "variance without seed", **ctx)
    mon.check("noise/model", bool(np.all(model == m0)), "model unaltered")
    # space dependent flux: normalised residuals are unit variance
    ramp = level * rng.uniform(0, 5, n)
    neg = ramp - 2 * level
    for im in (ramp, neg):
        z = s.noise_for_model(im, seed=int(rng.integers(2 ** 31))) / np.sqrt(sb ** 2 + np.maximum(im, 0) / (t * g))
        mon.close("noise/pixelwise", np.var(z), 1, 6 * np.sqrt(2. / N), 0, "each pixel has its own variance", **ctx)
        mon.close("noise/estimate", s.estimate_noise(im) ** 2, sb ** 2 + np.maximum(im, 0) / (t * g), 1e-10, 0, "estimate", **ctx)
    # the data class states the same noise as is simulated
    api = SimAPI(30, b, dict(lens_light_model_list=["GAUSSIAN"]))
    d = api.data_class
    im = rng.normal(size=(30, 30)) * level + level
    mon.close("noise/data", d.C_D_model(im), sb ** 2 + np.maximum(im, 0) / (t * g), 1e-9, 0, "noise model of the data class", **ctx)
    mon.close("noise/exposure_map", np.mean(d.exposure_map), t * g, 1e-10, 0, "exposure map in independent counts", **ctx)
    mon.close("noise/background_rms", np.mean(d.background_rms), sb, 1e-10, 0, "background rms", **ctx)
    np.random.seed(int(rng.integers(2 ** 31)))
    p = iu.add_poisson(model, exp_time=t * g)
    q = iu.add_background(model, sigma_bkd=sb)
    mon.close("noise/util_poisson", p.var(), sh ** 2, 6 * np.sqrt(2. / N), 0, "add_poisson", **ctx)
    mon.close("noise/util_background", q.var(), sb ** 2, 6 * np.sqrt(2. / N), 0, "add_background", **ctx)
    ints = np.full((40, 50), 7)
    if b["read_noise"] > 0:
        z = s.noise_for_model(ints.astype(float), seed=1)
        mon.close("noise/int_model", s.noise_for_model(ints, seed=1), z, 1e-12, 0, "noise of an integer image", **ctx)
    mon.nontrivial("noise", b["data_count_unit"], b["read_noise"] > 0)


def scene(rng, b, num=60):
    names = [str(x) for x in rng.choice(["SERSIC_ELLIPSE", "GAUSSIAN", "SERSIC", "HERNQUIST", "GAUSSIAN_ELLIPSE"], int(rng.integers(1, 3)))]
    pix = b["pixel_scale"]
    ext = pix * num

    def par(n):
        k = lightcat.params(n, rng)
        for a in ("R_sersic", "sigma", "Rs"):
            if a in k:
                k[a] = ext * U(rng, .04, .07)
        if "n_sersic" in k:
            k["n_sersic"] = U(rng, .7, 1.1)
        k["center_x"], k["center_y"] = ext * U(rng, -.05, .05), ext * U(rng, -.05, .05)
        k.pop("amp")
        k["magnitude"] = U(rng, 17, 21)
        return k
    return names, [par(n) for n in names]


def t_units(case, mon, rng):
    from lenstronomy.SimulationAPI.sim_api import SimAPI
    b = band(rng, "e-", seeing=.2)
    b["pixel_scale"] = U(rng, .05, .12)
    names, kl = scene(rng, b)
    ext = b["pixel_scale"] * 60
    model = dict(lens_light_model_list=names, source_light_model_list=["SERSIC"], lens_model_list=["SIE", "SHEAR"], point_source_model_list=["SOURCE_POSITION", "UNLENSED"])
    te = ext * .2
    kw = [dict(theta_E=te, e1=.1, e2=-.05, center_x=0., center_y=0.), dict(gamma1=.03, gamma2=.01)]
    ks = [dict(magnitude=U(rng, 19, 23), R_sersic=te * .3, n_sersic=1., center_x=.1 * te, center_y=0.)]
    kp = [dict(magnitude=U(rng, 20, 23), ra_source=.1 * te, dec_source=.02 * te), dict(magnitude=[U(rng, 20, 23)], ra_image=[.3], dec_image=[-.2])]
    g = b["ccd_gain"]
    out = {}
    for unit in ("e-", "ADU"):
        api = SimAPI(60, dict(b, data_count_unit=unit), model)
        L, S, P = api.magnitude2amplitude(kl, ks, kp)
        im = api.image_model_class(dict(point_source_supersampling_factor=1)).image(kw, S, L, P)
        out[unit] = (im, api.noise_for_model(im, seed=5), api.estimate_noise(im), api.data_class.C_D_model(im), api.flux_iid(im), api.background_noise, api.sky_brightness)
    e, a = out["e-"], out["ADU"]
    ctx = dict(gain=g, names=names)
    mon.close("units/image", a[0] * g, e[0], 1e-9, 0, "electrons = gain x ADU", **ctx)
    mon.close("units/noise", a[1] * g, e[1], 1e-8, 1e-12, "same noise realisation", **ctx)
    mon.close("units/estimate", a[2] * g, e[2], 1e-9, 0, "noise level", **ctx)
    mon.close("units/covariance", a[3] * g ** 2, e[3], 1e-9, 0, "noise variance of the data class", **ctx)
    mon.close("units/iid", a[4], e[4], 1e-9, 0, "same number of independent counts", **ctx)
    mon.close("units/background", a[5] * g, e[5], 1e-9, 0, "background", **ctx)
    mon.close("units/sky", a[6] * g, e[6], 1e-9, 0, "sky", **ctx)
    chi = [np.sum((o[1]) ** 2 / o[3]) for o in (e, a)]
    mon.close("units/chi2", chi[0], chi[1], 1e-9, 0, "same chi^2", **ctx)
    # changing the zero point together with magnitudes is the same observation
    dz = U(rng, -2, 2)
    api = SimAPI(60, dict(b, magnitude_zero_point=b["magnitude_zero_point"] + dz, sky_brightness=b["sky_brightness"] + dz), model)
    L, S, P = api.magnitude2amplitude(*[[dict(k, magnitude=np.asarray(k["magnitude"]) + dz) for k in q] for q in (kl, ks, kp)])
    im = api.image_model_class(dict(point_source_supersampling_factor=1)).image(kw, S, L, P)
    mon.close("units/zero_point", im, e[0], 1e-9, 0, "only magnitude minus zero point matters", dz=dz, **ctx)
    mon.close("units/zero_point_noise", api.background_noise, e[5], 1e-9, 0, "background noise", dz=dz, **ctx)
    mon.nontrivial("units", tuple(names))


def t_image(case, mon, rng):
    from lenstronomy.SimulationAPI.sim_api import SimAPI
    psf = ["GAUSSIAN", "NONE", "PIXEL"][case["i"] % 3]
    b = band(rng)
    b["pixel_scale"] = U(rng, .05, .12)
    num = int(rng.choice([60, 61]))
    b["seeing"] = b["pixel_scale"] * U(rng, 2, 3)
    b["psf_type"] = psf
    if psf == "PIXEL":
        x = np.arange(-5, 6) + 0.
        k = np.exp(-(x[:, None] ** 2 + .8 * x[None] ** 2) / 2.5)
        b["kernel_point_source"] = k * U(rng, .5, 2)
    names, kl = scene(rng, b, num)
    ext = b["pixel_scale"] * num
    g = b["ccd_gain"] if b["data_count_unit"] == "ADU" else 1.
    zp = b["magnitude_zero_point"]
    api = SimAPI(num, b, dict(lens_light_model_list=names))
    d = api.data_class
    x, y = d.pixel_coordinates
    ctx = dict(psf=psf, names=names, unit=b["data_count_unit"], num=num)
    p = b["pixel_scale"]
    c = (np.arange(num) - (num - 1) / 2.) * p
    mon.close("image/grid", np.array([x, y]), np.array(np.meshgrid(c, c)), 1e-10, 1e-10, "centred grid of the stated pixel scale", **ctx)
    L, _, _ = api.magnitude2amplitude(kl)
    im = api.image_model_class(dict(supersampling_factor=2)).image(kwargs_lens_light=L)
    herq = "HERNQUIST" in names
    want = sum(flux_of(k["magnitude"], zp) for n, k in zip(names, kl) if n != "HERNQUIST") / g
    api2 = SimAPI(num, b, dict(lens_light_model_list=[n for n in names if n != "HERNQUIST"]))
    im2 = api2.image_model_class(dict(supersampling_factor=2)).image(kwargs_lens_light=[k for n, k in zip(names, L) if n != "HERNQUIST"])
    if herq:
        mon.check("image/more", im.sum() >= im2.sum(), "additional flux")
    if want > 0:
        mon.close("image/flux", im2.sum(), want, .03, 0, "flux in the frame is the flux of the magnitudes", **ctx)
    # point sources
    m = U(rng, 18, 24)
    api = SimAPI(num, b, dict(point_source_model_list=["UNLENSED"]))
    xs, ys = p * U(rng, -4, 4), p * U(rng, -4, 4)
    _, _, P = api.magnitude2amplitude(kwargs_ps_mag=[dict(magnitude=[m], ra_image=[xs], dec_image=[ys])])
    im = api.image_model_class().image(kwargs_ps=P)
    f = flux_of(m, zp) / g
    mon.close("image/point", im.sum(), f, 2e-3, 0, "flux of a point source", **ctx)
    mon.close("image/point_x", (im * x).sum() / im.sum(), xs, 0, .03 * p + (.5 * p if psf == "NONE" else 0), "position of the point source", **ctx)
    mon.close("image/point_y", (im * y).sum() / im.sum(), ys, 0, .03 * p + (.5 * p if psf == "NONE" else 0), "position of the point source", **ctx)
    # lensed point source: SIS closed form
    te = ext * U(rng, .12, .18)
    be = te * U(rng, .1, .7)
    ph = U(rng, 0, 2 * np.pi)
    api = SimAPI(num, b, dict(lens_model_list=["SIS"], point_source_model_list=["SOURCE_POSITION"]))
    _, _, P = api.magnitude2amplitude(kwargs_ps_mag=[dict(magnitude=m, ra_source=be * np.cos(ph), dec_source=be * np.sin(ph))])
    im = api.image_model_class().image(kwargs_lens=[dict(theta_E=te, center_x=0., center_y=0.)], kwargs_ps=P)
    mon.close("image/lensed_point", im.sum(), f * 2 * te / be, 5e-3, 0, "magnified flux of a point source", **ctx)
    # user pixel grid
    T = np.array([[-p, 0], [0, p]]) if rng.integers(2) else np.array([[p * .8, -p * .6], [p * .6, p * .8]])
    kg = dict(ra_at_xy_0=U(rng, -2, 2), dec_at_xy_0=U(rng, -2, 2), transform_pix2angle=T)
    api = SimAPI(num, dict(b, kwargs_pixel_grid=kg), dict(lens_light_model_list=names))
    X, Y = api.data_class.pixel_coordinates
    J, I = np.mgrid[:num, :num]
    mon.close("image/user_grid", np.array([X, Y]), np.array([kg["ra_at_xy_0"] + T[0, 0] * I + T[0, 1] * J, kg["dec_at_xy_0"] + T[1, 0] * I + T[1, 1] * J]), 1e-9, 1e-9, "given pixel grid", **ctx)
    mon.nontrivial("image", psf, b["data_count_unit"])


def t_config(case, mon, rng):
    """any sequence of instrument configurations gives what a fresh interpreter gives"""
    import lenstronomy
    from lenstronomy.SimulationAPI.observation_api import SingleBand
    base = os.path.join(os.path.dirname(lenstronomy.__file__), "SimulationAPI", "ObservationConfig")
    opts = dict(LSST=[dict(band=x, coadd_years=c) for x in "ugrizy" for c in (1, 3, 7, 10)],
                DES=[dict(band=x, coadd_years=c) for x in ("g", "r", "i", "z", "Y") for c in (1, 2, 3, 5, 6)],
                ZTF=[dict(band=x, coadd_years=c) for x in "gri" for c in (1, 2, 3)],
                Euclid=[dict(band=x, coadd_years=c) for x in ("VIS", "Y", "J", "H") for c in (2, 3, 6)],
                HST=[dict(band=x, psf_type=c) for x in ("TDLMC_F160W", "WFC3_F160W") for c in ("GAUSSIAN", "PIXEL")],
                JWST=[dict(band=x, psf_type=c) for x in ("F115W", "F150W", "F200W", "F277W", "F356W", "F444W") for c in ("GAUSSIAN", "PIXEL")],
                Roman=[dict(band=x, survey_mode=s, psf_type=c) for x, s in (("F106", "wide_area"), ("F129", "wide_area"), ("F158", "wide_area"), ("F062", "time_domain_wide"),
                       ("F087", "time_domain_wide"), ("F106", "time_domain_wide"), ("F158", "time_domain_wide"), ("F087", "time_domain_deep"), ("F129", "time_domain_deep"),
                       ("F184", "time_domain_deep"), ("F087", "microlensing"), ("F146", "microlensing")) for c in ("GAUSSIAN", "PIXEL")])
    fresh = {}

    def load(inst, fn=None):
        spec = importlib.util.spec_from_file_location("fresh_" + inst, os.path.join(base, inst + ".py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m

    def pristine(inst, o):
        key = (inst, tuple(sorted(o.items())))
        if key not in fresh:
            try:
                fresh[key] = copy.deepcopy(getattr(load(inst), inst)(**o).kwargs_single_band())
            except (FileNotFoundError, OSError):
                fresh[key] = None
        return fresh[key]

    shared = {k: load(k) for k in opts}
    insts = [["DES", "ZTF"], ["HST", "JWST"], ["Roman"], ["LSST", "Euclid"]][case["i"] % 4]
    for step in range(25):
        inst = str(rng.choice(insts))
        o = opts[inst][int(rng.integers(len(opts[inst])))]
        want = pristine(inst, o)
        if want is None:
            continue
        obj = getattr(shared[inst], inst)(**o)
        got = obj.kwargs_single_band()
        mon.check("config/history", _same(got, want), "the configuration does not depend on earlier ones", instrument=inst, options=o, step=step,
                  differs=[k for k in set(got) | set(want) if not _same(got.get(k), want.get(k))])
        mon.check("config/again", _same(obj.kwargs_single_band(), got), "asked twice")
        if not (got["psf_type"] == "PIXEL" and got.get("kernel_point_source") is None):
            s = SingleBand(**got)
            mon.close("config/exposure", s.exposure_time, want["exposure_time"] * want["num_exposures"], 1e-12, 0, "exposure", instrument=inst)
            mon.close("config/background", s.background_noise, sigma_bkg(dict(want, data_count_unit="e-")), 1e-10, 0, "background of the instrument", instrument=inst)
            mon.close("config/one_count", s.magnitude2cps(want["magnitude_zero_point"]), 1., 1e-12, 0, "zero point", instrument=inst)
            if got["psf_type"] == "GAUSSIAN" and got["seeing"]:
                mon.close("config/psf", s.psf_class.fwhm, want["seeing"], 1e-12, 0, "PSF width", instrument=inst)
        # the user edits his copy
        got["exposure_time"] = 1e5
        got["sky_brightness"] = 3
        obj.obs["num_exposures"] = 99999
        obj.camera["read_noise"] = 1e3
        mon.nontrivial("config", inst, tuple(sorted(map(str, o.items()))))
    if "coadd_years" in opts[insts[0]][0]:
        for inst in insts:
            by = {}
            for o in opts[inst]:
                by.setdefault(o["band"], []).append((o["coadd_years"], pristine(inst, o)["num_exposures"]))
            for k, v in by.items():
                v.sort()
                n = np.array([x[1] for x in v])
                yr = np.array([x[0] for x in v])
                mon.check("config/coadd", bool(np.all(np.diff(n) > 0)), "more years, more exposures", instrument=inst, band=k, got=v)
                mon.check("config/coadd_rate", bool(np.all(np.abs(n - n[-1] * yr / yr[-1]) <= 1.0001)), "exposures in proportion to the years", instrument=inst, band=k, got=v)


def t_update(case, mon, rng):
    from lenstronomy.SimulationAPI.observation_api import SingleBand
    b = band(rng)
    s = SingleBand(**b)
    cur = dict(b)
    for step in range(8):
        keys = [str(k) for k in rng.choice(["exposure_time", "sky_brightness", "seeing", "num_exposures"], int(rng.integers(1, 4)), replace=False)]
        new = {k: (int(rng.integers(1, 20)) if k == "num_exposures" else U(rng, 18, 25) if k == "sky_brightness" else U(rng, .2, 900.)) for k in keys}
        if "seeing" in new:
            new["seeing"] = U(rng, .1, 1)
        s.update_observation(**new)
        cur.update(new)
        f = SingleBand(**cur)
        mon.close("bkg/updated", s.background_noise, f.background_noise, 1e-12, 0, "updated observation equals one created with these settings", step=step, new=new)
        mon.close("bkg/updated_formula", s.background_noise, sigma_bkg(cur), 1e-10, 0, "formula", step=step, new=new)
        mon.close("bkg/updated_exposure", s.exposure_time, cur["exposure_time"] * cur["num_exposures"], 1e-12, 0, "exposure", new=new)
        mon.close("bkg/updated_psf", s.psf_class.fwhm, cur["seeing"], 1e-12, 0, "seeing", new=new)
        mon.close("bkg/updated_sky", s.sky_brightness, f.sky_brightness, 1e-12, 0, "sky", new=new)
    k = np.outer([1, 2, 1.], [1, 3, 1.])
    s.update_observation(psf_type="PIXEL", kernel_point_source=k)
    mon.close("bkg/updated_kernel", s.psf_class.kernel_point_source, k / k.sum(), 1e-12, 0, "kernel")
    s.update_observation(psf_type="NONE")
    mon.check("bkg/updated_none", s.psf_class.psf_type == "NONE", "no PSF")
    mon.nontrivial("update", case["i"])


def t_variable(case, mon, rng):
    from lenstronomy.SimulationAPI.point_source_variability import PointSourceVariability
    from astropy.cosmology import FlatLambdaCDM
    cosmo = FlatLambdaCDM(70, .3)
    b = band(rng, pixel_scale=.1, seeing=.25)
    num = 80
    te, be, ph = U(rng, .9, 1.3), 0., U(rng, 0, 2 * np.pi)
    be = te * U(rng, .15, .5)
    sx, sy = be * np.cos(ph), be * np.sin(ph)
    amp, T = U(rng, .3, 1.), U(rng, 20, 60)

    def func(t):
        return 21. + amp * np.sin(2 * np.pi * t / T)
    model = dict(lens_model_list=["SIS"], z_lens=.5, z_source=1.5, cosmo=cosmo, lens_light_model_list=["GAUSSIAN"], source_light_model_list=["GAUSSIAN"])
    kl = [dict(theta_E=te, center_x=0., center_y=0.)]
    ll = [dict(magnitude=20., sigma=.3, center_x=0., center_y=0.)]
    ss = [dict(magnitude=22., sigma=.1, center_x=sx, center_y=sy)]
    before = copy.deepcopy((b, kl, ll, ss))
    v = PointSourceVariability(sx, sy, func, num, b, model, dict(), kl, kwargs_source_mag=ss, kwargs_lens_light_mag=ll)
    mon.check("variable/inputs", _same(before, (b, kl, ll, ss)), "inputs unaltered")
    dd, ds = cosmo.angular_diameter_distance([.5, 1.5]).value
    dds = cosmo.angular_diameter_distance_z1z2(.5, 1.5).value
    As = np.pi / 180 / 3600
    dt = 2 * te * be * As ** 2 * (1 + .5) * dd * ds / dds * 3.0856775814913673e19 / C / 86400.
    mon.close("variable/delays", np.sort(v.delays), np.array([0, dt]), 1e-4, 1e-6, "delays of an isothermal lens", te=te, beta=be)
    g = b["ccd_gain"] if b["data_count_unit"] == "ADU" else 1.
    bg = v.image_bkg.copy()
    for t in rng.uniform(-100, 100, 4):
        im = v.image_time(t)
        f = np.array([flux_of(func(t), b["magnitude_zero_point"]) * (te / be + 1), flux_of(func(t - dt), b["magnitude_zero_point"]) * (te / be - 1)]) / g
        mon.close("variable/flux", (im - bg).sum(), f.sum(), 5e-3, 0, "magnified, delayed flux", t=t)
        k = v.point_source_time(t)[0]
        o = np.argsort(v.delays)
        mon.close("variable/images", np.asarray(k["point_amp"])[o], f, 1e-4, 0, "flux of each image at its own epoch", t=t)
        r = np.hypot(k["ra_image"], k["dec_image"])[o]
        mon.close("variable/positions", r, np.array([te + be, te - be]), 1e-5, 0, "image positions", t=t)
        mon.check("variable/bkg", bool(np.all(bg == v.image_bkg)), "static image unaltered")
    mon.nontrivial("variable", case["i"])


def t_mass(case, mon, rng):
    from lenstronomy.SimulationAPI.model_api import ModelAPI
    from astropy.cosmology import FlatLambdaCDM
    import astropy.units as u
    from astropy import constants as ac
    cosmo = FlatLambdaCDM(U(rng, 60, 80), U(rng, .2, .4))
    multi = bool(case["i"] % 2)
    zs = U(rng, 1.2, 2.5)
    zl = [U(rng, .2, .9) for _ in range(3)]
    kw = dict(lens_model_list=["SIS", "NFW", "SHEAR"], z_source=zs, cosmo=cosmo)
    zc = zs
    if multi:
        kw.update(lens_redshift_list=zl, z_source_convention=zs + .7)
        zc = zs + .7
    else:
        kw.update(z_lens=zl[0])
        zl = [zl[0]] * 3
    api = ModelAPI(**kw)
    sv, M, c = U(rng, 100, 400), 10 ** U(rng, 11, 14), U(rng, 3, 15)
    km = [dict(sigma_v=sv, center_x=.1, center_y=0.), dict(M200=M, concentration=c, center_x=0., center_y=.2), dict(gamma1=.1, gamma2=0.)]
    before = copy.deepcopy(km)
    out = api.physical2lensing_conversion(km)
    mon.check("mass/inputs", _same(before, km), "inputs unaltered")
    D = [(cosmo.angular_diameter_distance(z).value, cosmo.angular_diameter_distance(zc).value, cosmo.angular_diameter_distance_z1z2(z, zc).value) for z in zl]
    te = 4 * np.pi * (sv / C) ** 2 * D[0][2] / D[0][1] * 180 * 3600 / np.pi
    mon.close("mass/theta_E", out[0]["theta_E"], te, 1e-6, 0, "Einstein radius of a velocity dispersion", multi=multi)
    mon.check("mass/keys", set(out[0]) == {"theta_E", "center_x", "center_y"} and set(out[1]) == {"Rs", "alpha_Rs", "center_x", "center_y"} and _same(out[2], km[2]), "keys", got=out)
    rc = cosmo.critical_density(zl[1]).to(u.Msun / u.Mpc ** 3).value
    r200 = (M / (4 * np.pi / 3 * 200 * rc)) ** (1 / 3.)
    rs = r200 / c
    As = np.pi / 180 / 3600
    # the definition of the library: critical density in comoving or physical units is fixed by a round trip through projected mass
    from lenstronomy.Cosmo.lens_cosmo import LensCosmo
    lc = LensCosmo(zl[1], zc, cosmo=cosmo)
    c2 = lc.nfw_angle2physical(out[1]["Rs"], out[1]["alpha_Rs"])
    mon.close("mass/round_trip", np.array([c2[2], c2[4]]) if len(c2) > 4 else np.array(c2[-1]), np.array([c, M]) if len(c2) > 4 else M, 1e-3, 0, "mass and concentration recovered", multi=multi, got_=str(c2))
    rho0 = 200. / 3 * rc * c ** 3 / (np.log(1 + c) - c / (1 + c))
    sc = (ac.c ** 2 / (4 * np.pi * ac.G)).to(u.Msun / u.Mpc).value * D[1][1] / (D[1][0] * D[1][2])
    mon.close("mass/Rs", out[1]["Rs"], rs / D[1][0] / As, 2e-3, 0, "angular scale radius", multi=multi)
    mon.close("mass/alpha_Rs", out[1]["alpha_Rs"], 4 * rho0 * rs * (out[1]["Rs"]) * (1 + np.log(.5)) / sc, 4e-3, 0, "deflection at the scale radius", multi=multi)
    mon.nontrivial("mass", multi)


def run(case, mon, rng):
    globals()["t_" + case["kind"]](case, mon, rng)

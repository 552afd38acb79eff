"""C19: the total likelihood is the sum of its documented parts, whatever was evaluated before."""
import copy, warnings, io, contextlib
import numpy as np
from lenscat import U, ell

RULE = ("one signature per (enabled terms, forms of the errors, point source types, planes, sampled redshifts or cosmology, bands); the terms are recomputed with plain formulas on fresh objects, "
        "totals compared along random evaluation histories of one likelihood object, with terms switched off one by one")
ASSUMPTIONS = ["named parameters of a vector (C18), image positions (C09, C21), imaging statistics (C17) are taken from fresh library objects",
               "2D kinematics is checked with a stand-in for the neural network, which is not installed"]
REQUIRED = ["check:total", "check:history", "check:off", "check:bounds", "check:inputs", "check:numdata", "check:nan", "check:prior", "check:lognormal", "check:alias", "check:kinematics", "check:skip",
            "check:tracer"]
TIMEOUT = 180

C_LIGHT, MPC, DAY, ARC = 299792458., 3.08567758149137e22, 86400., np.pi / 180 / 3600


def cases(tier, seed):
    q = tier == "quick"
    out = [dict(name="mix/%d" % i, kind="mix", i=i, group="mix") for i in range(110 if q else 1400)]
    out += [dict(name="prior/%d" % i, kind="prior", i=i, group="prior") for i in range(40 if q else 400)]
    out += [dict(name="kin/%d" % i, kind="kin", i=i, group="kin") for i in range(20 if q else 200)]
    out += [dict(name="tracer/%d" % i, kind="tracer", i=i, group="tracer") for i in range(24 if q else 300)]
    return out


def run(case, mon, rng):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        globals()["run_" + case["kind"]](case, mon, rng)


def cosmology(p=None, model="FlatLambdaCDM"):
    import astropy.cosmology as ac
    if p is None:
        from lenstronomy.Util.cosmo_util import get_astropy_cosmology
        return None
    return getattr(ac, model)(**p)


class World:
    def __init__(self, r):
        b = lambda p=2: bool(r.integers(p) == 0)
        self.b, self.r = b, r
        self.mode = str(r.choice(["single", "single", "scaled", "multi", "multi_z", "multi_cosmo"]))
        e1, e2 = ell(r, .2)
        self.lens = ["EPL", "SHEAR"] + (["SIS"] if b() else [])
        self.kw_lens = [dict(theta_E=U(r, .9, 1.2), gamma=U(r, 1.9, 2.1), e1=e1 + .05, e2=e2, center_x=U(r, -.05, .05), center_y=U(r, -.05, .05)), dict(gamma1=U(r, -.04, .04), gamma2=U(r, -.04, .04), ra_0=0., dec_0=0.)]
        if len(self.lens) == 3:
            self.kw_lens.append(dict(theta_E=U(r, .03, .1), center_x=U(r, 1., 1.5), center_y=U(r, -.5, .5)))
        self.ps = [str(r.choice(["LENSED_POSITION", "LENSED_POSITION", "SOURCE_POSITION"])) for _ in range(int(r.choice([1, 1, 2, 0])))]
        self.km = dict(lens_model_list=list(self.lens), point_source_model_list=list(self.ps), source_light_model_list=["SERSIC"], lens_light_model_list=["SERSIC_ELLIPSE"] if b() else [],
                       kwargs_lens_eqn_solver=dict(search_window=5., min_distance=.1, precision_limit=1e-10, num_iter_max=100))
        self.zs, self.zps = 2., None
        if self.mode == "scaled":
            self.zps = [float(r.choice([1.2, 2.])) for _ in self.ps]
            self.km.update(z_lens=.5, z_source=2., z_source_convention=2.)
        elif self.mode.startswith("multi"):
            self.zl = [.5, .5] + [float(r.choice([.3, .8]))] * (len(self.lens) - 2)
            self.zps = [float(r.choice([1.4, 2.])) for _ in self.ps]
            self.km.update(multi_plane=True, z_lens=.5, z_source=2., z_source_convention=2., lens_redshift_list=list(self.zl))
            if self.mode == "multi_cosmo":
                self.km["cosmology_sampling"] = True
        if self.mode == "single" and b():
            self.km.update(z_lens=.5, z_source=2., z_source_convention=2.)
        if self.zps and self.mode != "single":
            self.km["point_source_redshift_list"] = list(self.zps)
        self.cosmo0 = None
        # images of the point sources
        self.kw_ps, self.nps = [], []
        m0 = self.model(2.)
        from images import find
        for i, t in enumerate(self.ps):
            m = self.model(self.zps[i] if self.zps else None)
            for _ in range(20):
                bx, by = self.kw_lens[0]["center_x"] + U(r, -.12, .12), self.kw_lens[0]["center_y"] + U(r, -.12, .12)
                x, y, mu = find(lambda a, c: m.ray_shooting(a, c, self.kw_lens), bx, by, 5., n=120)
                if len(x) >= 2 and np.all(np.abs(mu) > .02):
                    break
            x, y = x[:4], y[:4]
            self.nps.append(len(x))
            self.kw_ps.append(dict(ra_image=x, dec_image=y) if t == "LENSED_POSITION" else dict(ra_source=bx, dec_source=by))
            self.kw_ps[-1].update(dict(point_amp=np.ones(len(x)) * U(r, 1, 4)))
        self.kw_src = [dict(R_sersic=U(r, .2, .5), n_sersic=U(r, .8, 2), center_x=U(r, -.1, .1), center_y=U(r, -.1, .1), amp=U(r, 5, 30))]
        self.kw_ll = [dict(R_sersic=U(r, .4, .8), n_sersic=U(r, 1, 3), e1=U(r, -.1, .1), e2=U(r, -.1, .1), center_x=0., center_y=0., amp=U(r, 5, 20))] if self.km["lens_light_model_list"] else []
        self.terms_setup()

    def model(self, z=None, zl=None, cosmo=None):
        from lenstronomy.LensModel.lens_model import LensModel
        k = dict(lens_model_list=list(self.lens))
        if self.mode.startswith("multi"):
            k.update(multi_plane=True, z_source=z or 2., z_lens=.5, z_source_convention=2., lens_redshift_list=list(zl or self.zl), cosmo=cosmo)
        elif self.mode == "scaled":
            k.update(z_lens=.5, z_source=z or 2., z_source_convention=2.)
        return LensModel(**k)

    def terms_setup(self):
        r, b = self.r, self.b
        n = len(self.ps)
        L, D = {}, {}
        self.image = b()
        lin = self.linear = b()
        self.npx = int(r.integers(12, 17))
        if self.image:
            from lenstronomy.Util import class_creator
            D["multi_band_list"], D["multi_band_type"] = [], str(r.choice(["multi-linear", "joint-linear"]))
            if not lin:
                D["multi_band_type"] = "multi-linear"
            for _ in range(int(r.choice([1, 1, 2])) if lin else 1):
                d = U(r, .28, .36)
                h = (self.npx - 1) / 2 * d
                data = dict(image_data=r.normal(size=(self.npx, self.npx)) + 1., background_rms=U(r, .5, 1), exposure_time=U(r, 50, 500), ra_at_xy_0=-h, dec_at_xy_0=-h, transform_pix2angle=np.diag([d, d]))
                D["multi_band_list"].append([data, dict(psf_type="GAUSSIAN", fwhm=2 * d, pixel_size=d), dict(supersampling_factor=1)])
            if not lin:
                L["linear_solver_off"] = True
            elif b():
                L["source_marg"], L["linear_prior"] = True, [U(r, .5, 20) for _ in D["multi_band_list"]] if D["multi_band_type"] == "multi-linear" else U(r, .5, 20)
            if b(3):
                L["check_positive_flux"] = True
            if b(3):
                L["image_likelihood_mask_list"] = [r.random((self.npx, self.npx)) < .7 for _ in D["multi_band_list"]]
            if len(D["multi_band_list"]) == 2 and b():
                L["bands_compute"] = [[True, False], [False, True]][int(r.integers(2))]
        self.td = n > 0 and b()
        self.fr = n > 0 and b()
        if self.td:
            L["time_delay_likelihood"] = True
            mk = lambda m: [U(r, -20, 20) for _ in range(m - 1)]

            def er(m):
                if b(3):
                    A = r.normal(size=(m - 1, m - 1))
                    return (A @ A.T + np.eye(m - 1)).tolist()
                return [U(r, .5, 3) for _ in range(m - 1)]
            self.bimodal = n == 1 and b(3)
            if self.bimodal:
                m = self.nps[0]
                D["time_delays_measured"], D["time_delays_uncertainties"] = [mk(m), mk(m)], [er(m), er(m)]
                L["bimodal_time_delay_measurement"] = True
            else:
                D["time_delays_measured"], D["time_delays_uncertainties"] = [mk(m) for m in self.nps], [er(m) for m in self.nps]
                if n == 1:
                    D["time_delays_measured"], D["time_delays_uncertainties"] = D["time_delays_measured"][0], D["time_delays_uncertainties"][0]
            self.tdm = [[True] * (m - 1) for m in self.nps]
            if b():
                self.tdm = [[bool(r.integers(3)) for _ in range(m - 1)] for m in self.nps]
                L["time_delay_measurement_bool_list"] = copy.deepcopy(self.tdm)
            elif n > 1 and b():
                v = [bool(r.integers(2)) for _ in self.nps]
                L["time_delay_measurement_bool_list"], self.tdm = list(v), [[x] * (m - 1) for x, m in zip(v, self.nps)]
        if self.fr:
            L["flux_ratio_likelihood"] = True
            f = [[U(r, .2, 1.5) for _ in range(m - 1)] for m in self.nps]
            e = []
            for m in self.nps:
                if b(3):
                    A = r.normal(size=(m - 1, m - 1)) * .1
                    e.append((A @ A.T + .01 * np.eye(m - 1)).tolist())
                else:
                    e.append([U(r, .05, .3) for _ in range(m - 1)])
            D["flux_ratios"], D["flux_ratio_errors"] = (f, e) if n > 1 else (f[0], e[0])
            self.frm = [True] * n
            fc = {}
            if b(3):
                fc = dict(source_type="GAUSSIAN", window_size=.1, grid_number=20)
                if b():
                    fc.update(polar_grid=True, aspect_ratio=.5)
            if n > 1 and b():
                self.frm = [bool(r.integers(2)) for _ in range(n)]
                fc["flux_ratio_measurement_bool"] = list(self.frm)
            if fc:
                L["kwargs_flux_compute"] = fc
        self.special = {}
        self.opts = {}
        lensed = bool(self.ps) and self.ps[0] == "LENSED_POSITION"
        self.astro = b() if lensed else False
        if self.astro:
            L["astrometric_likelihood"] = True
            self.opts["point_source_offset"] = True
        self.impos = n > 0 and b()
        if self.impos:
            L["image_position_likelihood"] = True
            D["ra_image_list"], D["dec_image_list"] = [], []
            for i, m in enumerate(self.nps):
                k = self.kw_ps[i]
                x, y = (k["ra_image"], k["dec_image"]) if "ra_image" in k else (r.normal(size=m), r.normal(size=m))
                D["ra_image_list"].append(np.array(x) + r.normal(size=m) * .01)
                D["dec_image_list"].append(np.array(y) + r.normal(size=m) * .01)
        L["image_position_uncertainty"] = U(r, .003, .05)
        self.srcpos = "LENSED_POSITION" in self.ps
        if b():
            self.srcpos = bool(r.integers(2))
            L["source_position_likelihood"] = self.srcpos
        L["source_position_sigma"] = U(r, .002, .02)
        self.tol = None
        if self.srcpos and b(3):
            self.tol = L["source_position_tolerance"] = float(r.choice([1e-4, 1e-2, .5]))
        self.noadd = n > 0 and b(4)
        if self.noadd:
            L["force_no_add_image"] = True
        self.restrict = n > 0 and b(4)
        if self.restrict:
            L["restrict_image_number"], L["max_num_images"] = True, int(r.choice([1, 2, 3, 4]))
        self.custom = None
        if b(3):
            a = U(r, -3, 3)
            self.custom = a
        if self.mode == "multi_z":
            self.opts["lens_redshift_sampling_indexes"] = [0, 0] + [-1] * (len(self.lens) - 2)
            self.special["z_sampling"] = [.5]
        if self.td and self.mode != "multi_cosmo":
            self.opts["Ddt_sampling"] = True
        if self.fr and L.get("kwargs_flux_compute", {}).get("source_type") == "GAUSSIAN":
            self.opts["source_size"] = True
        # priors
        self.pr = {}
        if b():
            self.pr["prior_lens"] = [[0, "theta_E", 1.05, .05], [1, "gamma1", 0., .02]]
        if b(3):
            self.pr["prior_source"] = [[0, "n_sersic", 1.2, .3]]
        if b(4):
            self.pr["prior_lens_lognormal"] = [[0, "gamma", .7, .1]]
        if b(4):
            self.pr["prior_source_kde"] = [[0, "R_sersic", r.normal(size=200) * .1 + .3]]
        if self.opts.get("Ddt_sampling") and b():
            self.pr["prior_special"] = [["D_dt", 4000., 500.]]
        if lensed and b(4):
            self.pr["prior_ps"] = [[0, "ra_image", .1, .5]]
        L.update(copy.deepcopy(self.pr))
        self.L, self.D = L, D

    def lim(self, kw, s):
        f = lambda v: np.asarray(v, float) + s if np.ndim(v) else v + s
        return [{p: f(v) for p, v in k.items()} for k in kw]

    def param(self):
        from lenstronomy.Sampling.parameters import Param
        fl = [dict() if i == 0 else dict(ra_0=0., dec_0=0.) if m == "SHEAR" else {} for i, m in enumerate(self.lens)]
        no = self.nps[0] if self.ps else 0
        lo = dict(H0=40., Om0=.05, D_dt=500., source_size=1e-4, z_sampling=[.4], delta_x_image=[-.1] * no, delta_y_image=[-.1] * no)
        up = dict(H0=120., Om0=.8, D_dt=9000., source_size=.1, z_sampling=[.6], delta_x_image=[.1] * no, delta_y_image=[.1] * no)
        return Param(copy.deepcopy(self.km), kwargs_fixed_lens=fl, kwargs_lower_lens=self.lim(self.kw_lens, -.4), kwargs_upper_lens=self.lim(self.kw_lens, .4),
                     kwargs_lower_source=self.lim(self.kw_src, -.15), kwargs_upper_source=self.lim(self.kw_src, .4), kwargs_lower_lens_light=self.lim(self.kw_ll, -.3), kwargs_upper_lens_light=self.lim(self.kw_ll, .3),
                     kwargs_lower_ps=self.lim(self.kw_ps, -.5), kwargs_upper_ps=self.lim(self.kw_ps, .5), kwargs_lower_special=lo, kwargs_upper_special=up, num_point_source_list=list(self.nps),
                     linear_solver=self.linear, **copy.deepcopy(self.opts))

    def vector(self, P, r, s=1.):
        j = lambda kw, a: [{p: (np.asarray(v) + r.normal(size=np.shape(v)) * a if np.ndim(v) else v + a * r.normal()) for p, v in k.items()} for k in kw]
        sp = dict(D_dt=U(r, 3000, 5000), source_size=U(r, .01, .03), z_sampling=[U(r, .45, .55)], H0=U(r, 60, 80), Om0=U(r, .2, .4), delta_x_image=r.normal(size=self.nps[0] if self.ps else 0) * .01,
                  delta_y_image=r.normal(size=self.nps[0] if self.ps else 0) * .01)
        return P.kwargs2args(kwargs_lens=j(self.kw_lens, .01 * s), kwargs_source=j(self.kw_src, .02 * s), kwargs_lens_light=j(self.kw_ll, .02 * s), kwargs_ps=j(self.kw_ps, .003 * s), kwargs_special=sp,
                             kwargs_extinction=[], kwargs_tracer_source=[])

    def module(self, P, off=(), calls=None):
        from lenstronomy.Sampling.likelihood import Likelihood
        L = copy.deepcopy(self.L)
        L.pop("linear_solver_off", None)
        for o in off:
            if o == "image":
                L["image_likelihood"] = False
            elif o == "custom":
                pass
            elif o == "prior":
                for p in self.pr:
                    L.pop(p)
            else:
                L[o] = False
        if self.custom is not None and "custom" not in off:
            a = self.custom

            def add(kwargs_lens=None, **kw):
                if calls is not None:
                    calls.append(1)
                return a * kwargs_lens[0]["theta_E"]
            L["custom_logL_addition"] = add
        D = copy.deepcopy(self.D)
        km = copy.deepcopy(self.km)
        M = Likelihood(D, km, P, **L)
        return M, D, km

    # -- independent terms
    def terms(self, kr):
        from lenstronomy.Util import class_creator
        out = {}
        self.slack = 0.
        kl, kp, sp = kr["kwargs_lens"], kr["kwargs_ps"], kr["kwargs_special"]
        zl, cosmo = None, None
        km = copy.deepcopy(self.km)
        if self.mode == "multi_z":
            zl = [sp["z_sampling"][0]] * 2 + self.zl[2:]
            km["lens_redshift_list"] = list(zl)
        if self.mode == "multi_cosmo":
            import astropy.cosmology as ac
            cosmo = ac.FlatLambdaCDM(H0=sp["H0"], Om0=sp["Om0"])
        L, D = self.L, self.D
        if self.custom is not None:
            out["custom"] = self.custom * kl[0]["theta_E"]
        out["prior"] = priors(self.pr, kr)
        if self.image:
            im = class_creator.create_im_sim(copy.deepcopy(D["multi_band_list"]), D["multi_band_type"], copy.deepcopy(km), bands_compute=L.get("bands_compute"),
                                             image_likelihood_mask_list=copy.deepcopy(L.get("image_likelihood_mask_list")), linear_solver=self.linear)
            v, _ = im.likelihood_data_given_model(kwargs_lens=copy.deepcopy(kl), kwargs_source=copy.deepcopy(kr["kwargs_source"]), kwargs_lens_light=copy.deepcopy(kr["kwargs_lens_light"]),
                                                  kwargs_ps=copy.deepcopy(kp), kwargs_extinction=[], kwargs_special=copy.deepcopy(sp), source_marg=L.get("source_marg", False), linear_prior=L.get("linear_prior"),
                                                  check_positive_flux=L.get("check_positive_flux", False))
            out["image"] = -1e15 if np.isnan(v) else v
        k2 = dict(km)
        k2.pop("cosmology_sampling", None)
        if cosmo is not None:
            k2["cosmo"] = cosmo
        ps = class_creator.create_class_instances(all_models=True, **k2)[3]
        fresh = lambda i: self.model(self.zps[i] if self.zps else None, zl, cosmo)
        pos = {}

        def positions(**o):
            key = repr(o)
            if key not in pos:
                pos[key] = ps.image_position(kwargs_ps=copy.deepcopy(kp), kwargs_lens=copy.deepcopy(kl), **o)
            return pos[key]
        if self.td:
            xs, ys = positions(original_position=True)
            t = 0.
            for i in range(len(self.ps)):
                if not any(self.tdm[i]):
                    continue
                m = fresh(i)
                x, y = np.asarray(xs[i]), np.asarray(ys[i])
                if self.mode == "multi_cosmo":
                    dt = np.asarray(m.arrival_time(x, y, kl))
                elif self.mode.startswith("multi"):
                    a = np.asarray(m.arrival_time(x, y, kl))     # relative to the distances of the model, then rescaled to the sampled distance
                    dt = a * sp["D_dt"] / ddt(.5, 2.)
                else:
                    z = self.zps[i] if self.mode == "scaled" else 2.
                    bx, by = m.ray_shooting(x, y, kl)
                    f = ((x - bx) ** 2 + (y - by) ** 2) / 2 - m.potential(x, y, kl)
                    dt = f * sp["D_dt"] * (ddt(.5, z) / ddt(.5, 2.)) * MPC / C_LIGHT / DAY * ARC ** 2
                sets = list(zip(D["time_delays_measured"], D["time_delays_uncertainties"])) if self.bimodal or len(self.ps) > 1 else [(D["time_delays_measured"], D["time_delays_uncertainties"])]
                pick = sets if self.bimodal else [sets[i if len(self.ps) > 1 else 0]]
                v = []
                w = np.array(self.tdm[i])
                for me, er in pick:
                    me, er = np.array(me), np.array(er)
                    if len(dt) - 1 != len(me):
                        v.append(-1e15)
                        continue
                    d = (dt[1:] - dt[0] - me)[w]
                    v.append(-.5 * np.sum(d ** 2 / er[w] ** 2) if er.ndim == 1 else -.5 * d @ np.linalg.solve(er[np.ix_(w, w)], d))
                t += np.logaddexp(*v) if self.bimodal else v[0]
            out["time_delay_likelihood"] = t
        if self.fr:
            xs, ys = positions()
            t = 0.
            from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions
            fc = L.get("kwargs_flux_compute", {})
            for i in range(len(self.ps)):
                if not self.frm[i]:
                    continue
                f, e = (D["flux_ratios"][i], D["flux_ratio_errors"][i]) if len(self.ps) > 1 else (D["flux_ratios"], D["flux_ratio_errors"])
                f, e = np.array(f), np.array(e)
                m = fresh(i)
                if fc.get("source_type") == "GAUSSIAN":
                    mu = LensModelExtensions(m).magnification_finite(xs[i], ys[i], kl, source_sigma=sp["source_size"], window_size=.1, grid_number=20, polar_grid=fc.get("polar_grid", False),
                                                                     aspect_ratio=fc.get("aspect_ratio", .5))
                else:
                    mu = np.abs(m.magnification(np.asarray(xs[i]), np.asarray(ys[i]), kl))
                if len(mu) - 1 != len(f):
                    t = -1e15
                    break
                q = mu[1:] / mu[0]
                v = -.5 * np.sum((q - f) ** 2 / e ** 2) if e.ndim == 1 else -.5 * np.log(q / f) @ np.linalg.solve(e, np.log(q / f))
                t += v if np.isfinite(v) else -1e15
            out["flux_ratio_likelihood"] = t
        s = L["image_position_uncertainty"]
        if self.astro:
            out["astrometric_likelihood"] = -.5 * np.sum(np.asarray(sp["delta_x_image"]) ** 2 + np.asarray(sp["delta_y_image"]) ** 2) / s ** 2
        if self.noadd:
            xs, _ = ps.image_position(kwargs_ps=copy.deepcopy(kp), kwargs_lens=copy.deepcopy(kl), additional_images=True, width_search_factor=1.5)
            out["force_no_add_image"] = -1e5 if any("ra_image" in k and len(x) > len(k["ra_image"]) for k, x in zip(kp, xs)) else 0.
        if self.restrict:
            out["restrict_image_number"] = -1e5 if len(positions()[0][0]) > L["max_num_images"] else 0.
        if self.impos:
            xs, ys = positions(original_position=True)
            t = 0.
            for i in range(len(self.ps)):
                m = min(len(D["ra_image_list"][i]), len(xs[i]))
                t -= .5 * np.sum((np.asarray(xs[i])[:m] - D["ra_image_list"][i][:m]) ** 2 + (np.asarray(ys[i])[:m] - D["dec_image_list"][i][:m]) ** 2) / s ** 2
            out["image_position_likelihood"] = t
        if self.srcpos:
            t, sg = 0., L["source_position_sigma"]
            for i, k in enumerate(kp):
                if self.ps[i] != "LENSED_POSITION":
                    continue
                m = fresh(i)
                x, y = np.asarray(k["ra_image"]), np.asarray(k["dec_image"])
                u, v = m.ray_shooting(x, y, kl)
                du, dv = np.mean(u) - u, np.mean(v) - v
                fxx, fxy, fyx, fyy = m.hessian(x, y, kl)
                for j in range(len(x)):
                    A = np.array([[1 - fxx[j], -fxy[j]], [-fyx[j], 1 - fyy[j]]])
                    d = np.linalg.solve(A, [du[j], dv[j]])      # the mismatch carried to the image plane
                    t -= .5 * np.sum(d ** 2) / sg ** 2
                    # second derivatives of several planes come from finite differences: what that does to a nearly singular mapping
                    self.slack += np.sum(d ** 2) / sg ** 2 * np.linalg.norm(np.linalg.inv(A)) * (1e-6 if self.mode.startswith("multi") else 1e-10)
                    if self.tol is not None and np.hypot(du[j], dv[j]) > self.tol:
                        t -= 1e3
            out["source_position_likelihood"] = t
        return out

    def info(self):
        return dict(mode=self.mode, lens=self.lens, ps=self.ps, km=self.km, L={k: v for k, v in self.L.items() if "mask" not in k}, special=self.special, D={k: v for k, v in self.D.items() if k != "multi_band_list"})


def ddt(zl, zs):
    from lenstronomy.Cosmo.lens_cosmo import LensCosmo      # default cosmology of the library, distances from astropy
    from lenstronomy.Util.cosmo_util import get_astropy_cosmology
    import astropy.cosmology as ac
    c = ac.default_cosmology.get()
    A = c.angular_diameter_distance
    return (1 + zl) * A(zl).value * A(zs).value / c.angular_diameter_distance_z1z2(zl, zs).value


GROUP = dict(lens="kwargs_lens", source="kwargs_source", lens_light="kwargs_lens_light", ps="kwargs_ps", extinction="kwargs_extinction")


def kde(samples, x):
    """plain Gaussian kernel density, Scott's bandwidth"""
    s = np.asarray(samples, float)
    h = len(s) ** (-.2) * np.std(s, ddof=1)
    return np.mean(np.exp(-.5 * ((x - s) / h) ** 2)) / np.sqrt(2 * np.pi) / h


def priors(pr, kr, proper=False):
    t = 0.
    for name, lst in pr.items():
        g = name[len("prior_"):]
        form = "gauss"
        for f in ("_kde", "_lognormal"):
            if g.endswith(f):
                g, form = g[:-len(f)], f[1:]
        for e in lst:
            if g == "special":
                x, rest = kr["kwargs_special"][e[0]], e[1:]
            else:
                x, rest = kr[GROUP[g]][e[0]][e[1]], e[2:]
            x = np.asarray(x, float)
            if form == "gauss":
                t -= np.sum((x - rest[0]) ** 2 / rest[1] ** 2 / 2)
            elif form == "lognormal":
                t -= np.sum((np.log(x) - rest[0]) ** 2 / rest[1] ** 2 / 2 + (np.log(x) if proper else x))
            else:
                t += np.log(kde(rest[0], float(x)))
    return t


def close(mon, key, got, want, msg, c, scale=0.):
    mon.close(key, float(got), float(want), 2e-6, 1e-6 + 1e-9 * scale, msg, **c)


def run_mix(case, mon, rng):
    w = World(rng)
    P = w.param()
    c = w.info()
    M, D, km = w.module(P)
    num, names = P.num_param()
    vecs = [w.vector(P, rng, 1. if i < 3 else 3.) for i in range(4)]
    lo, up = (np.array(v, float) for v in P.param_limits())
    vecs = [np.clip(v, lo, up) for v in vecs]
    want, w.slacks = [], []
    for v in vecs:
        kr = w.param().args2kwargs(v.copy())
        t = w.terms(kr)
        want.append((sum(t.values()), t))
        w.slacks.append(w.slack)
    order = [int(rng.integers(len(vecs))) for _ in range(7)]
    seen = {}
    tol = 1e-9
    for n, i in enumerate(order):
        v = vecs[i].copy()
        got = M.logL(v, verbose=bool(rng.integers(4) == 0)) if n % 3 else [M, M.likelihood, lambda a: -M.negativelogL(a)][n // 3 % 3](v)
        tot, t = want[i]
        sc = sum(abs(q) for q in t.values()) + 1e9 * w.slacks[i]
        close(mon, "total/" + ("first" if n == 0 else "later"), got, tot, "total of the likelihood %s" % ("at the first evaluation" if n == 0 else "after other evaluations"), dict(c, terms=t, order=order[:n + 1]), sc)
        mon.check("inputs/vector", np.array_equal(v, vecs[i]), "vector altered", **c)
        mon.check("nan/total", not np.isnan(got), "not a number", terms=t, **c)
        if i in seen:
            mon.check("history/same", abs(got - seen[i]) <= tol * (1 + sum(abs(q) for q in t.values())), "same vector, different likelihood: %r, %r" % (got, seen[i]), order=order[:n + 1], terms=t, **c)
        seen[i] = got
    mon.check("alias/done", True, "")
    mon.check("inputs/data", same(D, w.D), "data altered", **c)
    mon.check("inputs/model", repr(km) == repr(w.km), "model settings altered", got=km, **c)
    # switch off
    tot, t = want[0]
    part = [k for k in t if k != "prior" or w.pr]
    for o in part:
        M2, _, _ = w.module(w.param(), off=(o,))
        close(mon, "off/" + o, M2.logL(vecs[0].copy()), tot - t[o], "total without the term %s" % o, dict(c, terms=t), sum(abs(q) for q in t.values()) + 1e9 * w.slacks[0])
    # bounds
    calls = []
    M3, _, _ = w.module(w.param(), calls=calls)
    spy = []
    orig = M3.param.args2kwargs
    M3.param.args2kwargs = lambda *a, **k: (spy.append(1), orig(*a, **k))[1]
    for _ in range(3):
        i, hi = int(rng.integers(num)), bool(rng.integers(2))
        v = vecs[0].copy()
        v[i] = np.nextafter(up[i], np.inf) + (0 if rng.integers(2) else 1.) if hi else np.nextafter(lo[i], -np.inf) - (0 if rng.integers(2) else 1.)
        spy.clear()
        calls.clear()
        got = M3.logL(v)
        mon.check("bounds/penalty", got == -1e18, "outside the limits: %r" % got, param=names[i], **c)
        mon.check("bounds/unevaluated", not spy and not calls, "model evaluated outside the limits", param=names[i], **c)
    got = M3.logL(vecs[0].copy())
    close(mon, "bounds/after", got, tot, "inside the limits after excursions", c, sum(abs(q) for q in t.values()) + 1e9 * w.slacks[0])
    mon.check("bounds/inside", len(spy) == 1, "not evaluated inside the limits", **c)
    # number of data
    n = 0
    if w.image:
        bc = w.L.get("bands_compute") or [True] * len(w.D["multi_band_list"])
        mk = w.L.get("image_likelihood_mask_list") or [np.ones((w.npx, w.npx))] * len(bc)
        n += sum(int(np.sum(m)) for m, u in zip(mk, bc) if u)
    if w.td:
        n += sum(int(np.sum(m)) for m in w.tdm)
    if w.fr:
        n += sum(m - 1 for m, u in zip(w.nps, w.frm) if u)
    if w.impos:
        n += 2 * sum(w.nps)
    mon.check("numdata/total", M.num_data == n, "number of data points", got=M.num_data, want=n, **c)
    if not w.image:
        mon.check("numdata/effective", M.effective_num_data_points(**P.args2kwargs(vecs[0].copy())) == n - num, "effective number of data points", **c)
    mon.nontrivial(tuple(sorted(t)), w.mode, tuple(w.ps), w.linear, tuple(sorted(w.L)), len(w.D.get("multi_band_list", [])))


def same(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return bool(np.array_equal(a, b))


def run_prior(case, mon, rng):
    """every kind of prior on every group, and skipping by the user's own addition"""
    from lenstronomy.Sampling.Likelihoods.prior_likelihood import PriorLikelihood
    r = rng
    kr = dict(kwargs_lens=[dict(theta_E=U(r, .5, 2), gamma=U(r, 1.5, 2.5)), dict(gamma1=U(r, -.1, .1), theta_E=U(r, .1, 1))], kwargs_source=[dict(R_sersic=U(r, .2, 1), n_sersic=U(r, 1, 4)), dict(R_sersic=U(r, .2, 1))],
              kwargs_lens_light=[dict(R_sersic=U(r, .2, 1), n_sersic=U(r, 1, 4))], kwargs_ps=[dict(ra_image=np.array([U(r, .1, 1), U(r, .2, 2)]), source_amp=U(r, 1, 3))], kwargs_special=dict(D_dt=U(r, 2, 5), source_size=U(r, .01, .1)),
              kwargs_extinction=[dict(amp=U(r, .1, 1)), dict(amp=U(r, .1, 1), sigma=U(r, .5, 1))])
    pr = {}
    for g, q in list(GROUP.items()) + [("special", None)]:
        for form in ("", "_lognormal", "_kde"):
            if r.integers(3) == 0:
                continue
            lst = []
            for _ in range(int(r.integers(1, 4))):
                if g == "special":
                    p = str(r.choice(["D_dt", "source_size"]))
                    head, x = [p], kr["kwargs_special"][p]
                else:
                    i = int(r.integers(len(kr[q])))
                    ps = [p for p in kr[q][i] if not (form and (np.ndim(kr[q][i][p]) or p == "gamma1"))]
                    p = str(r.choice(ps))
                    head, x = [i, p], kr[q][i][p]
                x = float(np.mean(x))
                s = abs(x) * .2 + .01
                lst.append(head + ([x + s * r.normal(size=int(r.integers(30, 200)))] if form == "_kde" else [np.log(x) + .1, .2] if form == "_lognormal" else [x + s * r.normal(), s]))
            pr["prior_" + g + form] = lst
    c = dict(prior=[(k, [e[:2] for e in v]) for k, v in pr.items()], kr=kr)
    p0, k0 = copy.deepcopy(pr), copy.deepcopy(kr)
    PL = PriorLikelihood(**pr)
    for _ in range(2):
        mon.close("prior/total", float(PL.logL(**kr)), priors(pr, kr), 1e-9, 1e-9, "sum of the priors", **c)
    mon.check("inputs/prior", same([list(v) for v in pr.values()], [list(v) for v in p0.values()]) and same(kr, k0), "inputs altered", **c)
    for name in pr:
        one = {name: pr[name]}
        v = float(PriorLikelihood(**one).logL(**kr))
        mon.close("prior/" + name[6:], v, priors(one, kr), 1e-9, 1e-9, "prior %s" % name, **c)
        mon.close("prior/without", float(PriorLikelihood(**{k: x for k, x in pr.items() if k != name}).logL(**kr)) + v, priors(pr, kr), 1e-9, 1e-9, "priors without %s" % name, **c)
        if name.endswith("lognormal"):
            mon.close("lognormal/density", v, priors(one, kr, True), 1e-9, 1e-9, "log-normal density", **c)
    # the user's own addition decides first
    w = World(rng)
    P = w.param()
    from lenstronomy.Sampling.likelihood import Likelihood
    L = copy.deepcopy(w.L)
    L.pop("linear_solver_off", None)
    val = [0.]
    M = Likelihood(copy.deepcopy(w.D), copy.deepcopy(w.km), P, custom_logL_addition=lambda **k: val[0], **L)
    v = np.clip(w.vector(P, rng), *(np.array(q, float) for q in P.param_limits()))
    base = M.logL(v.copy())
    for bad in (-np.inf, -1e18, -3e18):
        val[0] = bad
        mon.check("skip/value", M.logL(v.copy()) == bad, "addition of %r returned as something else" % bad, **w.info())
    val[0] = -2.5
    mon.close("skip/after", float(M.logL(v.copy())), float(base - 2.5), 1e-8, 1e-6, "likelihood after skipped evaluations", **w.info())
    mon.nontrivial("prior", tuple(sorted(pr)))


def run_kin(case, mon, rng):
    """binned velocity dispersions against data, with a stand-in for the neural network"""
    import lenstronomy.Sampling.Likelihoods.kinematic_2D_likelihood as K
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel
    r = rng
    nl = int(r.integers(1, 3))
    il, ill = int(r.integers(nl)), int(r.integers(nl))
    q, phi = U(r, .65, .9), U(r, -1.2, 1.2)
    kl = [dict(theta_E=U(r, 1, 1.5), gamma=U(r, 1.9, 2.2), q=U(r, .7, .9), phi=U(r, -1, 1), center_x=0., center_y=0.) for _ in range(nl)]
    kll = [dict(amp=U(r, 1, 5), n_sersic=U(r, 2, 4), R_sersic=U(r, .8, 1.), q=U(r, .7, .9), phi=U(r, -1, 1), center_x=0., center_y=0.) for _ in range(nl)]
    kll[ill]["phi"] = kl[il]["phi"] + U(r, -.02, .02)
    sp = dict(b_ani=U(r, -.1, .2), incli=U(r, 1.2, 1.5), D_d=U(r, 900, 1500), D_dt=U(r, 2000, 4000))
    S = K.KinLikelihood.__new__(K.KinLikelihood)
    S._idx_lens, S._idx_lens_light = il, ill
    vec, al = S.convert_to_nn_params(copy.deepcopy(kl), copy.deepcopy(kll), sp)
    g = (kl[il]["gamma"] - 1) / 2
    qm = kl[il]["q"]
    want = [qm, kll[ill]["q"], kl[il]["theta_E"] / ((2 / (1 + qm)) ** (1 / (2 * g)) * np.sqrt(qm)), kll[ill]["n_sersic"], kll[ill]["R_sersic"], .08, g, sp["b_ani"], np.degrees(sp["incli"])]
    c = dict(kl=kl, kll=kll, sp=sp, il=il, ill=ill)
    mon.close("kinematics/input", np.asarray(vec, float), np.array(want), 1e-9, 1e-12, "parameters handed to the emulator", **c)
    mon.check("kinematics/aligned", bool(al), "aligned mass and light reported as misaligned", **c)
    bad = copy.deepcopy(kll)
    bad[ill]["phi"] += .3
    mon.check("kinematics/misaligned", not S.convert_to_nn_params(kl, bad, sp)[1], "misaligned mass and light reported as aligned", **c)
    # distances
    S.z_lens, S.fiducial_scale = .6, (1.5 * 1215.739 * 1650.753 / 1042.883) / (1215.739 * 1.5)
    im = r.random((5, 5))
    f = sp["D_dt"] / sp["D_d"] / 1.6 / S.fiducial_scale
    mon.close("kinematics/distance", S.rescale_distance(im, sp) ** 2, im ** 2 * f, 1e-9, 0, "squared velocities scale with D_dt / D_d", **c)
    # statistic
    n = int(r.integers(2, 8))
    A = r.normal(size=(n, n))
    S.covariance, S.data = A @ A.T + np.eye(n), r.normal(size=n) * 10 + 200
    v = S.data + r.normal(size=n) * 3
    d = v - S.data
    mon.close("kinematics/statistic", float(S._logL(v)), float(-.5 * d @ np.linalg.solve(S.covariance, d)), 1e-8, 1e-10, "statistic", **c)
    v[0] = np.nan
    got = S._logL(v)
    mon.check("nan/kinematics", np.isfinite(got) and got <= -1e15, "statistic of not-a-number velocities: %r" % got, **c)
    # bins
    m = 12
    S.bin_mask = r.integers(-1, n, (m, m))
    for i in range(n):
        S.bin_mask[0, i] = i
    S.psf = np.zeros((3, 3))
    S.psf[1, 1] = 1.
    vel, li = r.random((m, m)) * 100 + 100, r.random((m, m)) + .1
    got = S.auto_binning(vel, li)
    want = np.array([np.sum((vel * li)[S.bin_mask == i]) / np.sum(li[S.bin_mask == i]) for i in range(n)])
    mon.close("kinematics/bins", np.asarray(got), want, 1e-9, 0, "light-weighted velocities per bin", **c)
    mon.nontrivial("kin", nl, il, ill, n)


def run_tracer(case, mon, rng):
    from lenstronomy.Sampling.likelihood import Likelihood
    from lenstronomy.Sampling.parameters import Param
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.LensModel.lens_model import LensModel
    import scene
    r = rng
    n, d = int(r.integers(10, 16)), U(r, .2, .3)
    ns, nt = int(r.integers(1, 3)), int(r.integers(1, 3))
    typ = str(r.choice(["LINEAR", "LOG"]))
    lens, kl = ["SIE", "SHEAR"], [dict(theta_E=U(r, .7, 1.1), e1=.1, e2=U(r, -.1, .1), center_x=0., center_y=0.), dict(gamma1=.03, gamma2=U(r, -.03, .03), ra_0=0., dec_0=0.)]
    ks = [dict(amp=U(r, 5, 30), sigma=U(r, .3, .6), center_x=U(r, -.1, .1), center_y=U(r, -.1, .1)) for _ in range(ns)]
    kt = [dict(amp=U(r, .5, 2), sigma=U(r, .3, .6), center_x=U(r, -.1, .1), center_y=U(r, -.1, .1)) for _ in range(nt)]
    km = dict(lens_model_list=lens, source_light_model_list=["GAUSSIAN"] * ns, tracer_source_model_list=["GAUSSIAN"] * nt, tracer_source_band=0)
    if typ == "LOG" or r.integers(2):
        km["tracer_type"] = typ
    part = None
    if ns == 2 and nt == 2 and r.integers(2):
        part = [[[True, False], [True, False]], [[False, True], [False, True]]] if r.integers(2) else [[[0], [1]], [[1], [0]]]
        part = [[[bool(0 in a) if not isinstance(a[0], bool) else a[0], bool(1 in a) if not isinstance(a[0], bool) else a[1]] for a in p] for p in part]
        km["tracer_partition"] = copy.deepcopy(part)
    k = scene.kernel(r, 5)
    psf = [dict(psf_type="NONE"), dict(psf_type="PIXEL", kernel_point_source=k)][int(r.integers(2))]
    h = (n - 1) / 2 * d
    X, Y = np.meshgrid(np.arange(n) * d - h, np.arange(n) * d - h)
    geo = dict(ra_at_xy_0=-h, dec_at_xy_0=-h, transform_pix2angle=np.diag([d, d]))
    u, v = LensModel(lens).ray_shooting(X, Y, kl)
    g = lambda q: q["amp"] / (2 * np.pi * q["sigma"] ** 2) * np.exp(-((u - q["center_x"]) ** 2 + (v - q["center_y"]) ** 2) / 2 / q["sigma"] ** 2)
    cv = (lambda a: scene.conv(a, k)) if psf["psf_type"] == "PIXEL" else (lambda a: a)

    def model(ks, kt):
        top = bot = 0.
        for pl, pt in part or [[[True] * ns, [True] * nt]]:
            s = sum([g(q) for q, on in zip(ks, pl) if on])
            t = sum([g(q) for q, on in zip(kt, pt) if on])
            top = top + cv((10 ** t if typ == "LOG" else t) * s * d ** 2)
            bot = bot + np.maximum(cv(s * d ** 2), 1e-20)
        return np.log10(top / bot) if typ == "LOG" else top / bot
    rms = U(r, .05, .2)
    noisy = model(ks, kt) + r.normal(size=(n, n)) * rms
    td = [dict(image_data=noisy, noise_map=np.full((n, n), rms), **geo), copy.deepcopy(psf), dict(supersampling_factor=1)]
    lin = bool(r.integers(2))
    img = cv(sum(g(q) for q in ks)) * d ** 2
    band = [dict(image_data=img + r.normal(size=(n, n)) * .01, background_rms=.01, exposure_time=1e5, **geo), copy.deepcopy(psf), dict(supersampling_factor=1)]
    mask = r.random((n, n)) < .7 if r.integers(2) else None
    fix = [dict(ra_0=0., dec_0=0.) if m == "SHEAR" else {} for m in lens]
    P = Param(copy.deepcopy(km), kwargs_fixed_lens=fix, linear_solver=lin)
    c = dict(km=km, kl=kl, ks=ks, kt=kt, lin=lin, typ=typ, part=part, psf=psf["psf_type"])
    L = dict(tracer_likelihood=True)
    if mask is not None:
        L["tracer_likelihood_mask"] = mask.copy()
    M = Likelihood(dict(multi_band_list=[band], multi_band_type=str(r.choice(["multi-linear", "joint-linear"])) if lin else "multi-linear", tracer_data=td), copy.deepcopy(km), P, check_bounds=False, **L)
    M0 = Likelihood(dict(multi_band_list=[band], multi_band_type="multi-linear", tracer_data=td), copy.deepcopy(km), P, check_bounds=False)
    vec = P.kwargs2args(kwargs_lens=kl, kwargs_source=ks, kwargs_lens_light=[], kwargs_ps=[], kwargs_special={}, kwargs_extinction=[], kwargs_tracer_source=kt)
    a, b = M.logL(vec.copy()), M0.logL(vec.copy())
    ks2 = copy.deepcopy(ks)
    if lin:
        from lenstronomy.Util import class_creator
        im = class_creator.create_im_sim([copy.deepcopy(band)], "single-band", copy.deepcopy(km), linear_solver=True)
        _, _, _, par = im.image_linear_solve(copy.deepcopy(kl), copy.deepcopy(ks), [], [])
        for q, x in zip(ks2, np.atleast_1d(par)):
            q["amp"] = x
        if not all(q["amp"] > .5 for q in ks2):
            return
    w = np.ones((n, n), bool) if mask is None else mask
    want = -.5 * np.sum(((noisy - model(ks2, kt)) ** 2 / rms ** 2)[w])
    mon.close("tracer/term", float(a - b), float(want), 1e-6, 1e-5 + 1e-9 * abs(b), "tracer term of the likelihood", **c)
    mon.check("tracer/num", M.num_data - M0.num_data == int(np.sum(w)), "number of tracer data %d %d %d, %r" % (M.num_data, M0.num_data, np.sum(w), mask is None), **c)
    mon.close("tracer/again", float(M.logL(vec.copy())), float(a), 1e-12, 1e-9, "same vector again", **c)
    mon.nontrivial("tracer", ns, nt, typ, lin, part is not None, psf["psf_type"], mask is None)

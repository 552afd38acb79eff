"""C27: a fitting workflow keeps its state consistent from step to step (shadow state driven by random histories of steps)."""
import copy, warnings, io, contextlib
import numpy as np
from lenscat import U, ell

RULE = ("one signature per (kind of history, step, options of the step) observed; a shadow state written from the documentation is advanced with every step and compared with the observable state of the workflow after every step")
ASSUMPTIONS = ["the likelihood of a parameter vector is the one of a fresh Likelihood object (C19) and named parameters of a vector those of Param (C18)",
               "MPI, MultiNest, dyPolyChord and STARRED are not available"]
REQUIRED = ["check:settings", "check:fixed", "check:best", "check:logl", "check:render", "check:inputs", "check:data", "check:align", "check:psf", "check:calibrate", "check:bands", "check:combine", "check:star", "check:bic", "check:restart"]
TIMEOUT = 240
CLS = ["kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps", "kwargs_special", "kwargs_extinction", "kwargs_tracer_source"]
PK = ["lens_model", "source_model", "lens_light_model", "point_source_model", "special", "extinction_model", "tracer_source_model"]


def cases(tier, seed):
    q = tier == "quick"
    out = [dict(name="settings/%d" % i, kind="settings", i=i, group="settings") for i in range(60 if q else 1500)]
    out += [dict(name="fit/%d" % i, kind="fit", i=i, group="fit", cost=8) for i in range(30 if q else 400)]
    out += [dict(name="calib/%d" % i, kind="calib", i=i, group="calib", cost=3) for i in range(6 if q else 60)]
    out += [dict(name="psf/%d" % i, kind="psf", i=i, group="psf", cost=3) for i in range(12 if q else 200)]
    out += [dict(name="render/%d" % i, kind="render", i=i, group="render") for i in range(30 if q else 400)]
    out += [dict(name="combine/%d" % i, kind="combine", i=i, group="combine") for i in range(40 if q else 500)]
    if not q:
        out += [dict(name="slow/%d" % i, kind="slow", i=i, group="slow", cost=40) for i in range(12)]
    return out


def run(case, mon, rng):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        np.random.seed(int(rng.integers(2 ** 31)))
        globals()["run_" + case["kind"]](case, mon, rng)


def same(a, b, tol=0.):
    """deep equality of nested lists/dicts/arrays"""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return same(np.asarray(a), np.asarray(b), tol)
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a is b or bool(np.all(a == b))
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return True          # objects
    if a.shape != b.shape:
        if a.size != b.size:
            return False
        a, b = a.ravel(), b.ravel()
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * (1 + np.abs(b)))))


# ---------------------------------------------------------------- a small world
class World:
    def __init__(self, r, joint=False, n_ps=None):
        b = lambda p=.5: bool(r.random() < p)
        self.r, self.b = r, b
        nb = int(r.choice([1, 2, 3])) if not joint else int(r.choice([2, 3]))
        self.nb = nb
        from lenstronomy.LensModel.lens_model import LensModel
        per_band = nb > 1 and b(.4) and not joint          # disjoint lens models per band
        self.per_band = per_band
        nl = nb if per_band else 1
        lens, kl = [], []
        for i in range(nl):
            e1, e2 = ell(r, .15)
            lens.append("EPL")
            kl.append(dict(theta_E=U(r, .6, .8), gamma=U(r, 1.9, 2.1), e1=e1, e2=e2, center_x=U(r, -.05, .05), center_y=U(r, -.05, .05)))
        lens.append("SHEAR")
        kl.append(dict(gamma1=U(r, -.05, .05), gamma2=U(r, -.05, .05), ra_0=0., dec_0=0.))
        self.nlens = len(lens)
        src = ["SERSIC"] + (["GAUSSIAN"] if b(.4) else [])
        ks = [dict(amp=U(r, 30, 60), R_sersic=U(r, .1, .2), n_sersic=U(r, 1, 2), center_x=U(r, -.1, .1), center_y=U(r, -.1, .1))]
        if len(src) > 1:
            ks.append(dict(amp=U(r, 3, 6), sigma=U(r, .08, .15), center_x=U(r, -.2, .2), center_y=U(r, -.2, .2)))
        ll = ["SERSIC_ELLIPSE"] if b() else []
        e1, e2 = ell(r, .15)
        kll = [dict(amp=U(r, 10, 40), R_sersic=U(r, .2, .4), n_sersic=U(r, 1.5, 3), e1=e1, e2=e2, center_x=U(r, -.05, .05), center_y=U(r, -.05, .05))] if ll else []
        n_ps = n_ps if n_ps is not None else (1 if b() and not per_band else 0)
        ps, kp = [], []
        if n_ps:
            ps = ["LENSED_POSITION"]
            t = r.uniform(0, 2 * np.pi) + np.array([0, 1.7, 3.1, 4.6]) + r.uniform(-.15, .15, 4)
            kp = [dict(ra_image=.72 * np.cos(t), dec_image=.72 * np.sin(t), point_amp=r.uniform(3, 9, 4))]
        self.km = dict(lens_model_list=lens, source_light_model_list=src, lens_light_model_list=ll, point_source_model_list=ps)
        if per_band:
            self.km["index_lens_model_list"] = [[i, nl] if b() or True else [i] for i in range(nb)]
            self.km["index_source_light_model_list"] = [list(range(len(src)))] * nb
        self.kc = dict()
        special = {}
        self.mass_scaling = b(.3) and not per_band
        if ps:
            self.kc["num_point_source_list"] = [4]
        if b(.4) and not per_band:
            self.kc["image_plane_source_list"] = [True] + [False] * (len(src) - 1)
        if len(src) > 1 and b(.5):
            self.kc["joint_source_with_source"] = [[0, 1, ["center_x", "center_y"]]]
        if ll and b(.4):
            self.kc["joint_lens_with_light"] = [[0, 0, ["center_x", "center_y"]]]
        if self.mass_scaling:
            self.kc["mass_scaling_list"] = [1] + [False] * (self.nlens - 1)
            special["scale_factor"] = [U(r, .9, 1.1)]
        if b(.3):
            special["D_dt"] = U(r, 2000, 4000)
            self.kc["Ddt_sampling"] = True
        self.kw = dict(kwargs_lens=kl, kwargs_source=ks, kwargs_lens_light=kll, kwargs_ps=kp, kwargs_special=special, kwargs_extinction=[], kwargs_tracer_source=[])
        # data
        from lenstronomy.Data.imaging_data import ImageData
        from lenstronomy.ImSim.MultiBand.single_band_multi_model import SingleBandMultiModel
        self.npix, self.d = 14, .15
        bands = []
        for i in range(nb):
            c = (self.npix - 1) / 2 * self.d
            kd = dict(image_data=np.zeros((self.npix, self.npix)), background_rms=.3, exposure_time=100., ra_at_xy_0=-c, dec_at_xy_0=-c, transform_pix2angle=np.eye(2) * self.d)
            xx = np.arange(5) - 2.
            k = np.exp(-(xx[:, None] ** 2 + xx[None, :] ** 2) / 2 / U(r, .7, 1.1) ** 2) * (1 + .2 * r.random((5, 5)))
            kp_ = dict(psf_type="PIXEL", kernel_point_source=k / k.sum())
            if b(.3):
                kp_["psf_variance_map"] = np.full((5, 5), .01)
            bands.append([kd, kp_, dict(supersampling_factor=1)])
        self.bands = bands
        truth = copy.deepcopy(self.kw)
        for i in range(nb):
            m = SingleBandMultiModel(bands, self.km, band_index=i)
            kk = {k: v for k, v in truth.items() if k != "kwargs_tracer_source"}
            bands[i][0]["image_data"] = m.image(**kk) + r.normal(size=(self.npix, self.npix)) * .3
        self.mbt = "joint-linear" if joint else ("multi-linear" if nb > 1 else str(r.choice(["multi-linear", "single-band"])))
        self.kd = dict(multi_band_list=bands, multi_band_type=self.mbt)
        if b(.2):
            self.mask = [r.random((self.npix, self.npix)) > .1 for _ in range(nb)]
        else:
            self.mask = None
        self.kl = dict(source_marg=False, check_bounds=True)
        if self.mask is not None:
            self.kl["image_likelihood_mask_list"] = self.mask
        self.params = {}
        for c, p in zip(CLS, PK):
            v = self.kw[c]
            if isinstance(v, dict):
                init = {k: copy.deepcopy(x) for k, x in v.items()}
                self.params[p] = [init, {k: np.abs(np.asarray(x)) * .02 if not np.isscalar(x) else abs(x) * .02 for k, x in v.items()}, {},
                                  {k: [a * .5 for a in x] if isinstance(x, list) else x * .5 for k, x in v.items()}, {k: [a * 2 for a in x] if isinstance(x, list) else x * 2 for k, x in v.items()}]
                continue
            if not v:
                if c in ("kwargs_lens_light",) :
                    self.params[p] = [[], [], [], [], []]
                elif c == "kwargs_ps":
                    self.params[p] = [[], [], [], [], []]
                continue
            ini, sg, fx, lo, up = [], [], [], [], []
            for comp in v:
                i_, s_, f_, l_, u_ = {}, {}, {}, {}, {}
                for k, x in comp.items():
                    w = .03 + .05 * np.abs(np.asarray(x))
                    i_[k] = x + w * r.uniform(-.3, .3, np.shape(x))
                    i_[k] = float(i_[k]) if np.ndim(x) == 0 else i_[k]
                    s_[k] = w * .3
                    l_[k], u_[k] = x - 6 * w, x + 6 * w
                    if k in ("n_sersic", "R_sersic", "sigma"):
                        l_[k] = x * .6
                    if k in ("ra_0", "dec_0"):
                        f_[k] = 0.
                        i_[k] = 0.
                    elif r.random() < .25 and k not in ("amp", "point_amp"):
                        f_[k] = copy.deepcopy(i_[k])
                ini.append(i_); sg.append(s_); fx.append(f_); lo.append(l_); up.append(u_)
            self.params[p] = [ini, sg, fx, lo, up]
        # joint components must not be independently fixed
        if self.kc.get("joint_source_with_source"):
            for k in ("center_x", "center_y"):
                self.params["source_model"][2][1].pop(k, None)
        if self.kc.get("joint_lens_with_light"):
            for k in ("center_x", "center_y"):
                self.params["lens_model"][2][0].pop(k, None)
        self.hidden = set()
        if self.kc.get("joint_source_with_source"):
            self.hidden |= {("source", 1, "center_x"), ("source", 1, "center_y")}
        if self.kc.get("joint_lens_with_light"):
            self.hidden |= {("lens", 0, "center_x"), ("lens", 0, "center_y")}
        self.special_given = bool(special) or b()
        if not self.special_given:
            self.params.pop("special")

    def snapshot(self):
        return copy.deepcopy((self.km, self.kc, self.kl, self.params))


class Shadow:
    """documented state of the update manager"""
    def __init__(self, w):
        p = copy.deepcopy(w.params)
        emp = lambda c: {} if c == "kwargs_special" else []
        get = lambda j: {c: copy.deepcopy(p[k][j]) if k in p else emp(c) for c, k in zip(CLS, PK)}
        self.init, self.sigma, self.fixed, self.lower, self.upper = (get(j) for j in range(5))
        self.state = copy.deepcopy(self.init)
        self.km, self.kc, self.kl = (copy.deepcopy(x) for x in (w.km, w.kc, w.kl))
        self.lens_fixed0 = copy.deepcopy(self.fixed["kwargs_lens"])


NAMES = dict(lens="kwargs_lens", source="kwargs_source", lens_light="kwargs_lens_light", ps="kwargs_ps")


def random_settings(w, sh, r):
    """a random documented settings update; advances the shadow and returns the keyword arguments"""
    kw = {}
    opts = list(NAMES)
    sig = []
    def pick(cl, n=2):
        comps = sh.init[NAMES[cl]]
        if not comps:
            return None
        i = int(r.integers(len(comps)))
        ks = [k for k in comps[i] if k not in ("amp", "point_amp", "ra_0", "dec_0") and (cl, i, k) not in w.hidden]
        return i, [str(k) for k in r.permutation(ks)[:int(r.integers(1, n + 1))]]
    for cl in r.permutation(opts)[:int(r.integers(1, 4))]:
        cl = str(cl)
        c = NAMES[cl]
        what = str(r.choice(["add", "addv", "remove", "both", "lower", "upper", "sigma"]))
        p = pick(cl)
        if p is None:
            continue
        i, ks = p
        sig.append((cl, what))
        if what in ("add", "both"):
            kw[cl + "_add_fixed"] = [[i, ks]]
            for k in ks:
                sh.fixed[c][i][k] = copy.deepcopy(sh.state[c][i][k])
        if what == "addv":
            vals = [copy.deepcopy(sh.state[c][i][k]) * 1.001 if r.random() < .6 else None for k in ks]
            kw[cl + "_add_fixed"] = [[i, ks, copy.deepcopy(vals)]]
            for k, v in zip(ks, vals):
                sh.fixed[c][i][k] = copy.deepcopy(sh.state[c][i][k] if v is None else v)
        if what in ("remove", "both"):
            i2, k2 = pick(cl, 3)
            if what == "both" and i2 == i:
                k2 = [k for k in k2 if k not in ks]
            kw[cl + "_remove_fixed"] = [[i2, k2]]
            for k in k2:
                sh.fixed[c][i2].pop(k, None)
        if what in ("lower", "upper") and cl in ("lens", "source"):
            d = getattr(sh, what)
            v = [d[c][i][k] + (.01 if what == "upper" else -.01) * (k not in ("n_sersic", "R_sersic", "sigma")) for k in ks]
            kw["change_%s_%s_limit" % (cl, what)] = [[i, ks, copy.deepcopy(v)]]
            for k, x in zip(ks, v):
                d[c][i][k] = x
        if what == "sigma" and cl != "ps":
            v = [abs(sh.sigma[c][i][k]) * float(r.uniform(.5, 1.5)) for k in ks]
            kw["change_sigma_" + cl] = [[i, ks, copy.deepcopy(v)]]
            for k, x in zip(ks, v):
                sh.sigma[c][i][k] = x
    if sh.init["kwargs_special"] and r.random() < .4:
        k = str(r.choice(list(sh.init["kwargs_special"])))
        if k in sh.fixed["kwargs_special"]:
            kw["special_remove_fixed"] = [k]
            del sh.fixed["kwargs_special"][k]
        else:
            kw["special_add_fixed"] = [k]
            sh.fixed["kwargs_special"][k] = copy.deepcopy(sh.state["kwargs_special"][k])
        sig.append(("special", sorted(kw)[-1]))
    if r.random() < .3:
        kw["kwargs_likelihood"] = dict(check_positive_flux=bool(r.random() < .5))
        sh.kl.update(kw["kwargs_likelihood"])
        sig.append(("likelihood", "option"))
    if r.random() < .2:
        kw["kwargs_constraints"] = dict(log_sampling_lens=[])
        sh.kc.update(kw["kwargs_constraints"])
        sig.append(("constraints", "option"))
    return kw, sig


def compare_manager(mon, um, sh, where):
    for i, c in enumerate(CLS):
        mon.check("settings/fixed", same(um.fixed_kwargs[i], sh.fixed[c]), "fixed parameters are those asked for", where=where, cls=c, got=um.fixed_kwargs[i], want=sh.fixed[c])
        for n, d, g in (("lower", sh.lower, um.lower_kwargs), ("upper", sh.upper, um.upper_kwargs), ("sigma", sh.sigma, um.sigma_kwargs), ("init", sh.init, um.init_kwargs), ("state", sh.state, um.parameter_state)):
            mon.check("settings/" + n, same(g[c], d[c]), "%s values are those asked for" % n, where=where, cls=c, got=g[c], want=d[c])
    mon.check("settings/options", same(um.kwargs_likelihood, sh.kl) and same(um.kwargs_constraints, sh.kc) and same(um.kwargs_model, sh.km), "options are those asked for", where=where)


def param_values(w, sh, r):
    kw, n = {}, 0
    for cl in r.permutation(list(NAMES))[:2]:
        cl = str(cl)
        comps = sh.state[NAMES[cl]]
        if not comps:
            continue
        i = int(r.integers(len(comps)))
        ks = [k for k in comps[i] if k not in ("ra_0", "dec_0", "amp", "point_amp") and (cl, i, k) not in w.hidden and k not in sh.fixed[NAMES[cl]][i]]
        ks = [str(k) for k in r.permutation(ks)[:2]]
        if not ks:
            continue
        lo, up = sh.lower[NAMES[cl]][i], sh.upper[NAMES[cl]][i]
        v = [lo[k] + (up[k] - lo[k]) * float(r.uniform(.45, .55)) for k in ks]
        kw[cl] = [[i, ks, copy.deepcopy(v)]]
        for k, x in zip(ks, v):
            sh.state[NAMES[cl]][i][k] = copy.deepcopy(x)
    return kw


def band_fix(w, sh, r):
    free = [bool(r.random() < .5) for _ in range(w.nb)]
    idx = w.km.get("index_lens_model_list")
    if idx is not None:
        for f, ii in zip(free, idx):
            if f:
                for i in ii:
                    sh.fixed["kwargs_lens"][i] = copy.deepcopy(sh.lens_fixed0[i])
        for f, ii in zip(free, idx):
            if not f:
                for i in ii:
                    sh.fixed["kwargs_lens"][i] = copy.deepcopy(sh.state["kwargs_lens"][i])
    return free


# ---------------------------------------------------------------- settings histories without fits
def run_settings(case, mon, r):
    from lenstronomy.Workflow.multi_band_manager import MultiBandUpdateManager
    w = World(r)
    snap = w.snapshot()
    um = MultiBandUpdateManager(w.km, w.kc, w.kl, w.params, num_bands=w.nb)
    sh = Shadow(w)
    compare_manager(mon, um, sh, "start")
    for step in range(12):
        op = str(r.choice(["settings", "settings", "settings", "value", "restart", "bands", "state"]))
        kin = None
        if op == "settings":
            kw, sig = random_settings(w, sh, r)
            kin = copy.deepcopy(kw)
            um.update_options(kw.get("kwargs_model"), kw.get("kwargs_constraints"), kw.get("kwargs_likelihood"))
            um.update_fixed(**{k: v for k, v in kw.items() if k.endswith("_fixed")})
            um.update_limits(**{k: v for k, v in kw.items() if k.endswith("_limit")})
            um.update_sigmas(**{k: v for k, v in kw.items() if k.startswith("change_sigma")})
            for s in sig:
                mon.nontrivial("settings", *s)
        elif op == "value":
            kw = param_values(w, sh, r)
            kin = copy.deepcopy(kw)
            um.update_param_value(**kw)
            mon.nontrivial("value", len(kw))
        elif op == "restart":
            um.set_init_state()
            sh.state = copy.deepcopy(sh.init)
            mon.check("restart/state", same(um.parameter_state, sh.init), "restart restores the initial state", got=um.parameter_state)
        elif op == "bands":
            free = band_fix(w, sh, r)
            um.fix_not_computed(list(free))
            mon.check("bands/fixed", same(um.fixed_kwargs[0], sh.fixed["kwargs_lens"]), "lens models of the computed bands are free, the others fixed", free=free, got=um.fixed_kwargs[0], want=sh.fixed["kwargs_lens"])
            mon.nontrivial("bands", w.per_band, tuple(free))
        else:
            new = copy.deepcopy(sh.state)
            for c in CLS[:4]:
                for comp in new[c]:
                    for k in comp:
                        if k not in ("ra_0", "dec_0"):
                            comp[k] = comp[k] * 1.0001
            given = copy.deepcopy(new)
            um.update_param_state(**given)
            sh.state = new
            for c in CLS[:4]:           # the caller goes on using his dictionaries
                for comp in given[c]:
                    comp.clear()
        compare_manager(mon, um, sh, (step, op))
        if kin is not None:
            mon.check("inputs/step", same(kw, kin), "arguments of the step are not altered", op=op)
        bf = um.best_fit(bijective=True)
        mon.check("best/state", same(bf, sh.state), "best fit is the parameter state")
        pc = um.param_class
        n, names = pc.num_param()
        try:
            args = pc.kwargs2args(**sh.state)
            back = pc.args2kwargs(args, bijective=True)
        except KeyError:
            raise
        mon.check("settings/free", len(args) == n == len(names), "one value per free parameter")
        check_fixed(mon, back, sh, w)
        lo, up = pc.param_limits()
        lw = np.array(pc.kwargs2args(**sh.lower), float)
        uw = np.array(pc.kwargs2args(**sh.upper), float)
        mon.check("settings/limits", same(lo, lw, 1e-12) and same(up, uw, 1e-12), "limits of the free parameters", lo=lo, want=lw)
    mon.check("inputs/constructor", same((w.km, w.kc, w.kl, w.params), snap), "arguments given by the caller are not altered")


def check_fixed(mon, kw, sh, w):
    for cl, c in NAMES.items():
        for i, f in enumerate(sh.fixed[c]):
            for k, v in f.items():
                if k in ("amp", "point_amp") or (cl, i, k) in w.hidden:
                    continue
                if k in kw[c][i]:
                    mon.check("fixed/value", same(kw[c][i][k], v, 1e-12), "fixed parameter keeps its value", cls=c, i=i, k=k, got=kw[c][i][k], want=v)
    for k, v in sh.fixed["kwargs_special"].items():
        mon.check("fixed/special", same(kw["kwargs_special"][k], v, 1e-12), "fixed special parameter keeps its value", k=k)


# ---------------------------------------------------------------- full fitting sequences
def fresh_logl(w, sh, bands, kw):
    """likelihood of named (as sampled) parameters on a fresh set of objects with the shadow settings"""
    from lenstronomy.Sampling.likelihood import Likelihood
    from lenstronomy.Sampling.parameters import Param
    f, lo, up = sh.fixed, sh.lower, sh.upper
    pc = Param(copy.deepcopy(sh.km), *[copy.deepcopy(f[c]) for c in CLS], *[copy.deepcopy(lo[c]) for c in CLS], *[copy.deepcopy(up[c]) for c in CLS],
               kwargs_lens_init=copy.deepcopy(sh.state["kwargs_lens"]), **copy.deepcopy(sh.kc))
    L = Likelihood(dict(multi_band_list=copy.deepcopy(bands), multi_band_type=w.mbt), copy.deepcopy(sh.km), pc, **copy.deepcopy(sh.kl))
    args = pc.kwargs2args(**kw)
    return L.logL(args), args, pc, L


def after_fit(mon, fs, w, sh, before, where):
    bf = copy.deepcopy(fs.best_fit(bijective=True))
    logl, args, pc, L = fresh_logl(w, sh, fs.multi_band_list, bf)
    got = fs.best_fit_likelihood()
    mon.close("logl/best", got, logl, 1e-8, 1e-6, "reported best likelihood is the likelihood of the reported best fit", where=where)
    check_fixed(mon, bf, sh, w)
    lo, up = pc.param_limits()
    mon.check("best/limits", bool(np.all(args >= lo - 1e-12) and np.all(args <= up + 1e-12)), "best fit within the limits", where=where)
    render = pc.args2kwargs(args, bijective=False)
    mon.check("render/best_fit", same(fs.best_fit(bijective=False), render, 1e-9), "best fit in the convention of the image model", where=where, got=fs.best_fit(bijective=False), want=render)
    n = pc.num_param()[0] + pc.num_param_linear()
    mon.close("bic/value", fs.bic, n * np.log(L.num_data) - 2 * logl, 1e-9, 1e-6, "Bayesian information criterion")
    if before is not None and np.isfinite(before):
        mon.check("logl/improves", logl >= before - 1e-6 * (1 + abs(before)), "an optimisation started at the current state does not end worse", where=where, before=before, after=logl)
    return bf, logl


def run_fit(case, mon, r, slow=False):
    from lenstronomy.Workflow.fitting_sequence import FittingSequence
    w = World(r)
    snap = w.snapshot()
    sh = Shadow(w)
    fs = FittingSequence(w.kd, w.km, w.kc, w.kl, w.params, verbose=False)
    ops = ["PSO", "PSO", "SIMPLEX", "emcee", "update_settings", "update_settings", "set_param_value", "restart", "align_images", "psf_iteration", "update_state", "fix_not_computed"]
    if slow:
        ops = ["PSO", "zeus", "dynesty", "Nautilus", "Cobaya", "update_settings", "emcee", "restart"]
    seen_mcmc = False
    for step in range(5 if slow else 7):
        op = str(r.choice(ops))
        data0 = copy.deepcopy(fs.multi_band_list)
        state0 = copy.deepcopy(sh.state)
        changed = []
        n_free = fs.param_class.num_param()[0]
        if op in ("PSO", "SIMPLEX", "emcee", "zeus", "dynesty", "Nautilus", "Cobaya"):
            if n_free == 0:
                continue
            # a fit moves fixed parameters to their fixed values: the start is judged on the fresh likelihood
            before, a0, pc0, _ = fresh_logl(w, sh, fs.multi_band_list, sh.state)
            lo, up = pc0.param_limits()
            ok0 = bool(np.all(a0 >= lo) and np.all(a0 <= up))
        mon.nontrivial("fit", op, w.per_band, w.mbt, len(w.km["point_source_model_list"]), w.mass_scaling)
        if op == "PSO":
            kw = dict(n_particles=int(r.integers(3, 7)), n_iterations=int(r.integers(1, 5)), sigma_scale=float(r.choice([.3, 1.])))
            arg = [[op, kw]]
            k0 = copy.deepcopy(kw)
            out = fs.fit_sequence(arg)
            mon.check("inputs/fit", same(kw, k0), "options of the step are not altered", op=op, got=kw)
            t, chain, names = out[0]
            mon.check("best/names", list(names) == fs.param_class.num_param()[1], "names of the sampled parameters")
            bf, logl = after_fit(mon, fs, w, sh, before if ok0 else None, (step, op))
            sh.state = bf
            if chain[0]:        # the history ends before the last comparison of the swarm
                mon.check("best/pso_logl", logl >= chain[0][-1] - 1e-6 * (1 + abs(logl)), "best fit is not worse than the history of the swarm", hist=chain[0][-1], got=logl)
        elif op == "SIMPLEX":
            kw = dict(n_iterations=int(r.integers(3, 25)))
            out = fs.fit_sequence([[op, kw]])
            bf, logl = after_fit(mon, fs, w, sh, None, (step, op))
            sh.state = bf
            mon.check("best/simplex", same(out[0][1], bf), "best fit is the result of the simplex")
        elif op in ("emcee", "zeus"):
            kw = dict(n_burn=int(r.integers(0, 2)), n_run=int(r.integers(2, 4)), n_walkers=2 * n_free + 2 * int(r.integers(0, 2)), sigma_scale=.1, progress=False, re_use_samples=False)
            if not seen_mcmc:
                kw.pop("re_use_samples")
            nm = "MCMC" if op == "emcee" and r.random() < .3 else op
            k0 = copy.deepcopy(kw)
            out = fs.fit_sequence([[nm, kw]])
            mon.check("inputs/fit", same(kw, k0), "options of the step are not altered", op=op, got=sorted(kw))
            seen_mcmc = True
            t, samples, names, dist = out[0]
            bf, logl = after_fit(mon, fs, w, sh, None, (step, op))
            sh.state = bf
            mon.check("best/shape", samples.shape == (len(dist), n_free) and len(names) == n_free, "one sample per likelihood value")
            mon.close("best/mcmc", fs.param_class.kwargs2args(**bf), samples[np.argmax(dist)], 1e-9, 1e-9, "best fit is the sample of highest likelihood")
            if np.isfinite(np.max(dist)) and np.max(dist) > -1e10:
                mon.close("best/mcmc_logl", np.max(dist), logl, 1e-8, 1e-6, "likelihood of the best sample")
        elif op in ("dynesty", "Nautilus", "Cobaya"):
            if op == "dynesty":
                kw = dict(kwargs_run=dict(dlogz_init=1e3, nlive_init=3 * n_free + 10, nlive_batch=3 * n_free + 10, maxbatch=0, maxiter=40), prior_type="uniform")
            elif op == "Nautilus":
                kw = dict(prior_type="uniform", thread_count=1, verbose=False, f_live=.9, n_eff=0, n_live=60, seed=42, n_like_max=200)
            else:
                kw = dict(max_samples=20, max_tries=10000, proposal_widths=[.001] * n_free, Rminus1_stop=1e3)
            out = fs.fit_sequence([[op, kw]])
            bf, logl = after_fit(mon, fs, w, sh, None, (step, op))
            sh.state = bf
            if op == "Cobaya":
                mon.check("best/cobaya", same(out[0][2], bf, 1e-12), "best fit is the result of the last step")
            else:
                mon.close("best/nested", logl, np.max(out[0][3]), 1e-8, 1e-6, "likelihood of the best sample", op=op)
        elif op == "update_settings":
            kw, sig = random_settings(w, sh, r)
            k0 = copy.deepcopy(kw)
            fs.fit_sequence([[op, kw]])
            mon.check("inputs/settings", same(kw, k0), "arguments of the step are not altered")
        elif op == "set_param_value":
            fs.fit_sequence([[op, param_values(w, sh, r)]])
        elif op == "fix_not_computed":
            fs.fit_sequence([[op, dict(free_bands=band_fix(w, sh, r))]])
        elif op == "restart":
            fs.fit_sequence([[op, {}]])
            sh.state = copy.deepcopy(sh.init)
            mon.check("restart/best_fit", same(fs.best_fit(bijective=True), sh.init), "restart restores the initial state")
        elif op == "update_state":
            new = copy.deepcopy(sh.init)
            fs.update_state(copy.deepcopy(new))
            sh.state = new
        elif op == "align_images":
            comp = [bool(r.random() < .7) for _ in range(w.nb)]
            rot = bool(r.random() < .4)
            before = [band_logl(w, sh, fs, i) for i in range(w.nb)]
            fs.fit_sequence([[op, dict(n_particles=3, n_iterations=2, delta_shift=.02, delta_rot=.02, align_offset=True, align_rotation=rot, compute_bands=None if all(comp) and r.random() < .5 else list(comp))]])
            after = [band_logl(w, sh, fs, i) for i in range(w.nb)]
            for i in range(w.nb):
                if comp[i]:
                    mon.check("align/improves", after[i] >= before[i] - 1e-6 * (1 + abs(before[i])), "alignment does not make the fit of the band worse", band=i, before=before[i], after=after[i])
                    d = {k: v for k, v in fs.multi_band_list[i][0].items() if k not in ("ra_shift", "dec_shift", "phi_rot")}
                    d0 = {k: v for k, v in data0[i][0].items() if k not in ("ra_shift", "dec_shift", "phi_rot")}
                    mon.check("align/data", same(d, d0), "only the alignment of the band changes", band=i)
                    if not rot:
                        mon.check("align/rot", fs.multi_band_list[i][0].get("phi_rot", 0) == data0[i][0].get("phi_rot", 0), "no rotation unless asked for")
                    changed.append((i, 0))
        elif op == "psf_iteration":
            if not w.km["point_source_model_list"]:
                continue
            comp = [bool(r.random() < .7) for _ in range(w.nb)]
            before = [band_logl(w, sh, fs, i) for i in range(w.nb)]
            n_mem = len(fs.psf_iteration_memory)
            fs.fit_sequence([[op, dict(compute_bands=list(comp), num_iter=3, psf_iter_factor=.3, verbose=False, psf_symmetry=int(r.choice([1, 4])), stacking_method=str(r.choice(["median", "mean"])))]])
            after = [band_logl(w, sh, fs, i) for i in range(w.nb)]
            for i in range(w.nb):
                if comp[i]:
                    mon.check("psf/improves", after[i] >= before[i] - 1e-6 * (1 + abs(before[i])), "PSF iteration does not make the fit of the band worse", band=i, before=before[i], after=after[i])
                    mon.check("psf/shape", np.shape(fs.multi_band_list[i][1]["kernel_point_source"]) == (5, 5), "kernel size kept")
                    changed.append((i, 1))
            mem = fs.psf_iteration_memory[n_mem:]
            mon.check("psf/memory", [m["band"] for m in mem] == [i for i in range(w.nb) if comp[i]] and all(same(m["psf_before"], data0[m["band"]][1]) and same(m["psf_after"], fs.multi_band_list[m["band"]][1]) for m in mem),
                      "memory of the PSF iterations")
        # state not touched by anything but the step
        mon.check("best/kept", same(strip(fs.best_fit(bijective=True)), strip(sh.state)), "the parameter state is that of the last step", where=(step, op), got=fs.best_fit(bijective=True), want=sh.state)
        for i, c in enumerate(CLS):
            mon.check("settings/fs_fixed", same(fs.kwargs_fixed[i], sh.fixed[c]), "fixed parameters are those asked for", where=(step, op), cls=c, got=fs.kwargs_fixed[i], want=sh.fixed[c])
        for i in range(w.nb):
            for j in range(3):
                if (i, j) not in changed:
                    mon.check("data/kept", same(fs.multi_band_list[i][j], data0[i][j]), "data, PSF and numerics of other bands are kept", where=(step, op), band=i, part=j)
        logl, args, pc, L = fresh_logl(w, sh, fs.multi_band_list, sh.state)
        if np.isfinite(logl):
            mon.close("logl/state", fs.best_fit_likelihood(), logl, 1e-8, 1e-6, "likelihood of the current state", where=(step, op))
            mon.close("logl/repeat", fs.best_fit_likelihood(), logl, 1e-8, 1e-6, "likelihood of the current state asked again", where=(step, op))
        lo, up = fs.param_class.param_limits()
        mon.check("settings/fs_limits", same(lo, pc.param_limits()[0], 1e-12) and same(up, pc.param_limits()[1], 1e-12), "limits of the free parameters", where=(step, op))
    mon.check("inputs/fs", same((w.km, w.kc, w.kl, w.params), snap), "arguments given by the caller are not altered")


def strip(kw):
    """without solved linear amplitudes"""
    kw = copy.deepcopy(kw)
    for c in ("kwargs_source", "kwargs_lens_light", "kwargs_ps"):
        for comp in kw[c]:
            for k in ("amp", "point_amp"):
                comp.pop(k, None)
    return kw


def band_logl(w, sh, fs, i):
    from lenstronomy.ImSim.MultiBand.single_band_multi_model import SingleBandMultiModel
    m = SingleBandMultiModel(copy.deepcopy(fs.multi_band_list), copy.deepcopy(sh.km), likelihood_mask_list=copy.deepcopy(w.mask), band_index=i)
    kw = copy.deepcopy(fs.best_fit(bijective=False))
    kw.pop("kwargs_tracer_source", None)
    return m.likelihood_data_given_model(source_marg=False, **kw)[0]


def run_slow(case, mon, r):
    run_fit(case, mon, r, slow=True)


def run_calib(case, mon, r):
    from lenstronomy.Workflow.fitting_sequence import FittingSequence
    w = World(r, joint=True)
    scale = [1.] + [float(r.uniform(.4, 2.5)) for _ in range(w.nb - 1)]
    for b, s in zip(w.bands, scale):
        b[0]["image_data"] = b[0]["image_data"] * s
    sh = Shadow(w)
    snap = w.snapshot()
    fs = FittingSequence(w.kd, w.km, w.kc, w.kl, w.params, verbose=False)
    cal = [False] + [bool(r.random() < .7) for _ in range(w.nb - 1)]
    if not any(cal):
        cal[-1] = True
    before = fs.best_fit_likelihood()
    data0 = copy.deepcopy(fs.multi_band_list)
    fs.fit_sequence([["calibrate_images", dict(n_particles=12, n_iterations=12, calibrate_bands=list(cal), scaling_lower_limit=.2, scaling_upper_limit=4.)]])
    mon.nontrivial("calib", w.nb, tuple(cal))
    for i in range(w.nb):
        d, d0 = fs.multi_band_list[i], data0[i]
        mon.check("calibrate/others", same(d[1:], d0[1:]) and same({k: v for k, v in d[0].items() if k != "flux_scaling"}, {k: v for k, v in d0[0].items() if k != "flux_scaling"}), "only the flux scaling changes", band=i)
        if not cal[i]:
            mon.check("calibrate/kept", d[0].get("flux_scaling", 1) == d0[0].get("flux_scaling", 1), "bands not calibrated keep their scaling", band=i)
        else:
            mon.check("calibrate/range", .2 <= d[0]["flux_scaling"] <= 4., "scaling within the limits", band=i, got=d[0]["flux_scaling"])
    after = fs.best_fit_likelihood()
    want, *_ = fresh_logl(w, sh, fs.multi_band_list, sh.state)
    mon.close("calibrate/used", after, want, 1e-8, 1e-6, "the calibrated data are the ones fitted afterwards", before=before)
    mon.check("calibrate/improves", after >= before - 1e-6 * (1 + abs(before)), "calibration does not make the fit worse", before=before, after=after)
    mon.check("best/calib", same(strip(fs.best_fit(bijective=True)), strip(sh.state)), "calibration does not change the parameters")
    mon.check("inputs/calib", same((w.km, w.kc, w.kl, w.params), snap), "arguments given by the caller are not altered")


# ---------------------------------------------------------------- PSF reconstruction
def run_psf(case, mon, r):
    """noise-free data with another PSF: the iteration moves towards the PSF of the data"""
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF
    from lenstronomy.ImSim.image_model import ImageModel
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
    from lenstronomy.PointSource.point_source import PointSource
    from lenstronomy.Workflow.psf_fitting import PsfFitting
    n, d = 41, .1
    ss = int(r.choice([1, 1, 3]))
    nk = 7
    def ker(s, a):
        N = nk * ss
        xx = (np.arange(N) - (N - 1) / 2) / ss
        X, Y = np.meshgrid(xx, xx)
        k = np.exp(-(X ** 2 * (1 + a) + Y ** 2 * (1 - a)) / 2 / s ** 2)
        return k / k.sum()
    kt, k0 = ker(1.2, .15), ker(1.0, 0.)
    c = (n - 1) / 2 * d
    pos = np.array([[-1.1, -1.], [1.05, -.9], [-.95, 1.1], [1., 1.]]) + r.uniform(-.05, .05, (4, 2))
    ps = PointSource(["UNLENSED"])
    kw_ps = [dict(ra_image=pos[:, 0], dec_image=pos[:, 1], point_amp=r.uniform(50, 100, 4))]
    kd = dict(image_data=np.zeros((n, n)), background_rms=.01, exposure_time=1e4, ra_at_xy_0=-c, dec_at_xy_0=-c, transform_pix2angle=np.eye(2) * d)
    num = dict(point_source_supersampling_factor=ss)
    pt = dict(psf_type="PIXEL", kernel_point_source=kt, point_source_supersampling_factor=ss)
    p0 = dict(psf_type="PIXEL", kernel_point_source=k0, point_source_supersampling_factor=ss)
    if r.random() < .4:
        p0["psf_variance_map"] = np.full((nk, nk), 1e-4)
    img = ImageModel(ImageData(**kd), PSF(**pt), point_source_class=ps, kwargs_numerics=num).image(kwargs_ps=kw_ps)
    kd["image_data"] = img
    M = ImageLinearFit(ImageData(**kd), PSF(**p0), point_source_class=ps, kwargs_numerics=num)
    F = PsfFitting(M)
    new = bool(r.random() < .7) or ss > 1
    keep = bool(r.random() < .5)
    par = dict(kwargs_ps=copy.deepcopy(kw_ps), kwargs_lens=None, kwargs_source=None, kwargs_lens_light=None)
    inp, parc = copy.deepcopy(p0), copy.deepcopy(par)
    sym = int(r.choice([1, 2])) if new else 1
    out = F.update_iterative(p0, par, num_iter=8, keep_psf_variance_map=keep, verbose=False, psf_symmetry=sym, psf_iter_factor=.5, new_procedure=new, stacking_method=str(r.choice(["mean", "median"])),
                             error_map_radius=float(r.choice([.3, 1.])), block_center_neighbour=float(r.choice([0, .2])))
    mon.nontrivial("psf", ss, new, keep, sym)
    mon.check("psf/inputs", same(p0, inp) and same(par, parc), "PSF and parameters given are not altered")
    k1 = out["kernel_point_source"]
    mon.check("psf/size", np.shape(k1) == np.shape(k0), "kernel size kept")
    mon.close("psf/norm", np.sum(k1), 1, 1e-6, 0, "kernel normalised")
    e0, e1 = np.sum((k0 - kt) ** 2), np.sum((k1 - kt) ** 2)
    mon.check("psf/converges", ss > 1 or e1 < .7 * e0, "the kernel moves to the one of the data", before=e0, after=e1, ss=ss, new=new)
    mon.check("psf/initial", same(out["kernel_point_source_init"], k0), "initial kernel is kept on record")
    if keep:
        mon.check("psf/variance", same(out["psf_variance_map"], inp.get("psf_variance_map", np.zeros_like(k0))), "variance map kept")
    else:
        v = np.asarray(out["psf_variance_map"])
        mon.check("psf/variance_range", bool(np.all(v >= 0) and np.all(v <= 1)), "variance map between zero and one")
    again = F.update_iterative(out, par, num_iter=2, verbose=False, psf_iter_factor=.5, new_procedure=new)
    mon.check("psf/initial2", same(again["kernel_point_source_init"], k0), "initial kernel survives a second call")


def run_combine(case, mon, r):
    from lenstronomy.Workflow.psf_fitting import PsfFitting
    nk = int(r.choice([5, 7, 9]))
    m = int(r.integers(1, 5))
    ks = [r.uniform(.1, 1, (nk, nk)) for _ in range(m)]
    old = r.uniform(.1, 1, (nk, nk)) * float(r.uniform(.5, 2))
    f = float(r.choice([0., .3, 1.]))
    stack = str(r.choice(["mean", "median"]))
    sym = int(r.choice([1, 2, 4]))
    k0, o0 = copy.deepcopy(ks), old.copy()
    got = PsfFitting.combine_psf(ks, old, factor=f, stacking_option=stack, symmetry=sym)
    norm = [k / k.sum() for k in ks]
    rot = [np.rot90(k, j * 4 // sym) for k in norm for j in range(sym)]
    w = (np.mean if stack == "mean" else np.median)(rot, axis=0)
    want = f * w / w.sum() + (1 - f) * old / old.sum()
    mon.nontrivial("combine", stack, sym, f, m)
    mon.close("combine/value", got, want, 1e-7, 1e-10, "combined kernel is the weighted stack of the rotated, normalised estimates", stack=stack, sym=sym, f=f)
    mon.check("combine/inputs", same(ks, k0) and same(old, o0), "kernels given are not altered")
    if f == 1. and sym > 1:
        mon.close("combine/symmetry", np.rot90(got, 4 // sym), got, 1e-7, 1e-10, "imposed symmetry", sym=sym)
    cs = int(r.choice([1, 2, 4]))
    mask = r.random((nk, nk)) < .3
    got = PsfFitting.combine_psf(ks, old, factor=f, stacking_option=stack, symmetry=sym, corner_symmetry=cs, corner_mask=mask)
    rc = [np.rot90(k, j * 4 // cs) for k in norm for j in range(cs)]
    wc = (np.mean if stack == "mean" else np.median)(rc, axis=0)
    w2 = np.where(mask, wc, w)
    mon.close("combine/corner", got, f * w2 / w2.sum() + (1 - f) * old / old.sum(), 1e-7, 1e-10, "corner kernel where the mask asks for it", cs=cs, sym=sym)
    # one star, partly masked: masked pixels from the initial kernel, flux of the rest as in the initial kernel
    n = 31
    xx = np.arange(-20, 21)
    init = np.exp(-(xx[17:24, None] ** 2 + xx[None, 17:24] ** 2) / 2 / 1.3 ** 2)
    init /= init.sum()
    x0, y0 = int(r.integers(10, 20)), int(r.integers(10, 20))
    img = np.zeros((n, n))
    A = float(r.uniform(10, 1000))
    img[y0 - 3:y0 + 4, x0 - 3:x0 + 4] = init * A
    mask = np.ones((n, n))
    mx, my = x0 + int(r.integers(-3, 4)), y0 + int(r.integers(-3, 4))
    blocked = bool(r.random() < .7)
    if blocked:
        mask[my - 1:my + 2, mx - 1:mx + 2] = 0
        img = img + (1 - mask) * A * float(r.uniform(0, 3))
    got = PsfFitting.cutout_psf_single(float(x0), float(y0), img, mask, 7, init)
    mon.nontrivial("star", blocked)
    mon.close("star/kernel", got, init, 1e-6, 1e-9, "a star of the shape of the kernel gives the kernel back, whatever is masked", A=A, blocked=blocked)
    # blocking of the neighbours
    N = 25
    d = .1
    xg, yg = np.meshgrid((np.arange(N) - 12) * d, (np.arange(N) - 12) * d)
    px, py = r.uniform(-1, 1, 3), r.uniform(-1, 1, 3)
    R = float(r.uniform(.15, .5))
    i = int(r.integers(3))
    got = PsfFitting.mask_point_source(px, py, xg.ravel(), yg.ravel(), R, i=i)
    dist = np.array([np.hypot(xg - px[k], yg - py[k]) for k in range(3) if k != i])
    want = np.all(dist > R, axis=0)
    sure = np.all(np.abs(dist - R) > 1e-9, axis=0)
    mon.check("star/blocked", bool(np.all((np.asarray(got) > .5)[sure] == want[sure])), "neighbours are blocked around their positions", R=R)


def run_render(case, mon, r):
    """best fit in both conventions with every kind of joint component, after an arbitrary result"""
    from lenstronomy.Workflow.update_manager import UpdateManager
    from lenstronomy.Sampling.parameters import Param
    b = lambda p=.5: bool(r.random() < p)
    km = dict(lens_model_list=["SIE", "SHEAR"], source_light_model_list=["SERSIC", "GAUSSIAN", "SERSIC"], lens_light_model_list=["SERSIC"], point_source_model_list=["LENSED_POSITION"],
              tracer_source_model_list=["LINEAR"] if b() else [])
    if b(.3):
        km.update(multi_plane=True, lens_redshift_list=[.5, .3], z_source=2., z_source_convention=2.5, source_redshift_list=[2., 1.5, 1.8])
    kl = [dict(theta_E=1., e1=.1, e2=.05, center_x=.02, center_y=-.03), dict(gamma1=.03, gamma2=-.02, ra_0=0., dec_0=0.)]
    ks = [dict(amp=1., R_sersic=.2, n_sersic=1.5, center_x=.1, center_y=.05), dict(amp=1., sigma=.1, center_x=.2, center_y=-.1), dict(amp=1., R_sersic=.3, n_sersic=1., center_x=-.1, center_y=.2)]
    kll = [dict(amp=1., R_sersic=.4, n_sersic=2., center_x=.02, center_y=-.03)]
    kp = [dict(ra_image=np.array([1., -.9, .1, .2]), dec_image=np.array([.1, .2, 1., -.95]), point_amp=np.ones(4))]
    kt = [dict(amp=1., k=.1, center_x=0., center_y=0.)] if km["tracer_source_model_list"] else []
    kc = dict(num_point_source_list=[4], image_plane_source_list=[b(.6), b(.3), False])
    sp = {}
    if b():
        kc["joint_source_with_source"] = [[0, 2, ["center_x", "center_y"]]]
    elif b():
        kc["joint_source_with_source"] = [[0, 2, {"center_x": "center_x", "center_y": "center_y"}]]
    if b(.3):
        kc["joint_source_with_point_source"] = [[0, 1, ["center_x", "center_y"]]]
        kc["image_plane_source_list"][1] = False
    if b(.4):
        kc["joint_lens_with_light"] = [[0, 0, ["center_x", "center_y"]]]
    if kt and b(.7):
        kc["joint_source_light_with_tracer"] = [[int(r.choice([0, 1, 2])), 0, ["center_x", "center_y"]]]
    if b(.4):
        kc["mass_scaling_list"] = [1, False]
        sp["scale_factor"] = [1.1]
    full = dict(kwargs_lens=kl, kwargs_source=ks, kwargs_lens_light=kll, kwargs_ps=kp, kwargs_special=sp, kwargs_extinction=[], kwargs_tracer_source=kt)
    def scaled(kw, s):
        f = lambda x: {k: (np.asarray(v) * s if np.ndim(v) else v * s) for k, v in x.items()}
        return f(kw) if isinstance(kw, dict) else [f(x) for x in kw]
    par = {}
    for c, p in zip(CLS, PK):
        v = full[c]
        fx = {} if isinstance(v, dict) else [{k: x[k] for k in x if k in ("ra_0", "dec_0")} for x in v]
        par[p] = [copy.deepcopy(v), scaled(v, .1), fx, scaled(v, -100.), scaled(v, 100.)]
    um = UpdateManager(km, kc, {}, par)
    pc = um.param_class
    try:
        args = pc.kwargs2args(**full)
    except KeyError:
        raise
    args = args * (1 + .02 * r.normal(size=len(args)))
    res = pc.args2kwargs(args, bijective=True)
    um.update_param_state(**copy.deepcopy(res))
    want = Param(copy.deepcopy(km), *[copy.deepcopy(x) for x in um.fixed_kwargs], kwargs_lens_init=copy.deepcopy(res["kwargs_lens"]), **copy.deepcopy(kc)).args2kwargs(args, bijective=False)
    got = um.best_fit(bijective=False)
    mon.nontrivial("render", kc["image_plane_source_list"], sorted(kc), bool(kt), "multi_plane" in km)
    for c in CLS:
        mon.check("render/" + c, same(got[c], want[c], 1e-9), "best fit in the convention of the image model", cls=c, got=got[c], want=want[c], kc=kc)
    mon.check("render/bijective", same(um.best_fit(bijective=True), res), "best fit as sampled")

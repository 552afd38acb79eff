"""C18: the sampled vector and the named parameters, against an independent bookkeeping of free, fixed and tied values."""
import copy, warnings
import numpy as np
import lenscat as LC
import lightcat as GC
from lenscat import U

RULE = ("one signature per (models, ties, special parameters, linear solving); random model configurations with random fixed values, ties, scalings and limits, the named "
        "parameters recomputed from the vector by the reported names and the declared ties")
ASSUMPTIONS = ["parameters that are arrays are sampled only where documented (amplitudes, shapelet coefficients, image positions)",
               "a tied parameter is tied to at most one other", "lens solvers inside the parameter mapping are checked under C10"]
REQUIRED = ["check:names", "check:count", "check:values", "check:ties", "check:inverse", "check:limits", "check:inputs", "check:repeat", "check:linear", "check:default", "check:clip",
            "check:mapped", "check:kwargs_model", "check:rendered", "check:order"]
TIMEOUT = 120


def cases(tier, seed):
    q = tier == "quick"
    out = [dict(name="mix/%d" % i, kind="mix", group="mix") for i in range(320 if q else 4000)]
    out += [dict(name="default/lens/%s" % n, kind="default", which="lens", model=n, group="default") for n in LC.names() if not n.startswith("NFW_MC")]
    out += [dict(name="default/light/%s" % n, kind="default", which="light", model=n, group="default") for n in GC.names()]
    out += [dict(name="mgauss/%s" % n, kind="mgauss", model=n, group="mgauss") for n in MG]
    out += [dict(name="redshift/%d" % i, kind="redshift", group="redshift") for i in range(24 if q else 200)]
    return out


def run(case, mon, rng):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + case["kind"]](case, mon, rng)


ARR_FREE = ("amp", "coeffs")
MG = ("MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE_KAPPA", "MULTI_GAUSSIAN_ELLIPSE_POTENTIAL")


def run_mgauss(case, mon, rng):
    """amplitude lists of the multi-Gaussian lens models (recorded finding: not handled as lists)"""
    from lenstronomy.LensModel.lens_param import LensParam
    kw = lens_kw(case["model"], rng, 6)
    n = len(kw["sigma"])
    lp = LensParam([case["model"]], kwargs_fixed=[{"sigma": kw["sigma"]}])
    num, names = lp.num_param()
    mon.nontrivial("mgauss", case["model"])
    mon.check("mgauss/amp", sum(x.startswith("amp") for x in names) == n, "number of sampled amplitudes of a multi-Gaussian lens", names=names, n=n)
    if sum(x.startswith("amp") for x in names) == n:
        args = lp.set_params([kw])
        back, i = lp.get_params(args, 0)
        mon.check("mgauss/values", i == num == len(args) and list(back[0]["amp"]) == list(kw["amp"]), "amplitudes read back", back=back, kw=kw)


def light_names():
    return [n for n in GC.names() if n not in ("INTERPOL",)]


def lens_kw(name, rng, nsh):
    kw = LC.params(name, rng)
    if "coeffs" in kw:
        kw["coeffs"] = [U(rng, -.1, .1) for _ in range(nsh)]
    if name.startswith("MULTI_GAUSSIAN"):
        kw.setdefault("scale_factor", 1.)
    return {k: (list(v) if np.ndim(v) else v) for k, v in kw.items()}


def light_kw(name, rng):
    kw = GC.params(name, rng)
    return {k: (list(v) if np.ndim(v) == 1 else v) for k, v in kw.items()}


def param_names_lens(name):
    return list(LC.model(name).lens_model.func_list[0].param_names)


def param_names_light(name, pk):
    from lenstronomy.LightModel.light_model import LightModel
    return list(LightModel([name], profile_kwargs_list=[copy.deepcopy(pk)]).param_name_list[0])


def must_fix(name, kw):
    return [k for k, v in kw.items() if (np.ndim(v) and (k not in ARR_FREE or (k == "amp" and name in MG)))] + [k for k in ("n_max", "sigma") if k in kw and (k == "n_max" or np.ndim(kw["sigma"]))]


class World:
    def __init__(self, rng, multi=None):
        r = rng
        b = lambda p=2: bool(r.integers(p) == 0)
        self.nsh = int(r.integers(6, 11))
        names = [n for n in LC.names() if n not in ("LOS", "LOS_MINIMAL", "INTERPOL", "INTERPOL_SCALED", "CTNFW_GAUSS_DEC", "NFW_ELLIPSE_GAUSS_DEC", "SERSIC_ELLIPSE_GAUSS_DEC", "NFW_MC", "NFW_MC_ELLIPSE_POTENTIAL")]
        n = int(r.integers(1, 5))
        pool = ["SIE", "EPL", "SHEAR", "SIS", "NIE", "NFW", "PJAFFE", "CONVERGENCE"]
        self.lens = [str(r.choice(pool if b() else names)) for _ in range(n)]
        self.multi = b(4) if multi is None else multi
        if self.multi:
            self.lens = [str(r.choice(pool)) for _ in range(n)]
        lp = ["SERSIC", "SERSIC_ELLIPSE", "GAUSSIAN", "CHAMELEON", "NIE", "HERNQUIST"]
        L = lambda m: [str(r.choice(lp if b() else light_names())) for _ in range(int(r.integers(0, m)))]
        self.source, self.light = L(4), L(3)
        self.ext = L(2) if b(4) else []
        self.ext = [e for e in self.ext if e not in ("MGE_SET", "MGE_SET_ELLIPSE")]
        self.tracer = [str(r.choice(["GAUSSIAN", "SERSIC_ELLIPSE"])) for _ in range(int(r.integers(1, 3)))] if b(4) else []
        self.ps = [str(r.choice(["LENSED_POSITION", "SOURCE_POSITION", "UNLENSED"])) for _ in range(int(r.integers(0, 3)))]
        self.fixmag = [b() for _ in self.ps]
        self.nps = [int(r.integers(1, 5)) for _ in self.ps]
        self.linear = b()
        self.km = dict(lens_model_list=list(self.lens), source_light_model_list=list(self.source), lens_light_model_list=list(self.light), point_source_model_list=list(self.ps),
                       optical_depth_model_list=list(self.ext))
        if self.tracer:
            self.km.update(tracer_source_model_list=list(self.tracer), tracer_source_band=0)
        if self.ps:
            self.km["fixed_magnification_list"] = list(self.fixmag)
        pk = lambda ns: [GC.profile_kwargs(m, r) if m.startswith("MGE") else None for m in ns]
        self.pks, self.pkl = pk(self.source), pk(self.light)
        if any(self.pks):
            self.km["source_light_profile_kwargs_list"] = copy.deepcopy(self.pks)
        if any(self.pkl):
            self.km["lens_light_profile_kwargs_list"] = copy.deepcopy(self.pkl)
        self.scal = None
        if self.multi:
            self.zl = [float(r.choice([.3, .5, .8])) for _ in self.lens]
            self.zs = [float(r.choice([1.2, 2.])) for _ in self.source]
            self.km.update(multi_plane=True, z_source=2., lens_redshift_list=list(self.zl), source_redshift_list=list(self.zs))
        elif self.source and b(3):
            self.scal = [float(r.choice([1., .7, 1.2])) for _ in self.source]
            self.km["source_deflection_scaling_list"] = list(self.scal)
        self.opts = {}
        self.names = dict(lens=[param_names_lens(m) for m in self.lens], source=[param_names_light(m, k) for m, k in zip(self.source, self.pks)],
                          light=[param_names_light(m, k) for m, k in zip(self.light, self.pkl)], ext=[param_names_light(m, None) for m in self.ext],
                          tracer=[param_names_light(m, None) for m in self.tracer])
        self.base = self.values(r)
        self.fixed = {g: [self.fix(r, m, kw) for m, kw in zip(getattr(self, g), self.base[g])] for g in ("lens", "source", "light", "ext", "tracer")}
        self.fixed["ps"] = [{k: v for k, v in kw.items() if b(4)} for kw in self.base["ps"]]
        self.special_setup(r, b)
        self.tie(r, b)
        self.log(r, b)

    def fix(self, r, m, kw):
        f = {k: kw[k] for k in must_fix(m, kw)}
        p = r.choice([.1, .5])
        for k in kw:
            if k not in f and r.random() < p:
                f[k] = kw[k]
        return f

    def values(self, r):
        """one random value for every parameter (arrays that must be fixed are the same in every draw)"""
        v = dict(lens=[lens_kw(m, r, self.nsh) for m in self.lens], source=[light_kw(m, r) for m in self.source], light=[light_kw(m, r) for m in self.light],
                 ext=[light_kw(m, r) for m in self.ext], tracer=[light_kw(m, r) for m in self.tracer], ps=[])
        for t, f, n in zip(self.ps, self.fixmag, self.nps):
            a = lambda lo=-2, hi=2: [U(r, lo, hi) for _ in range(n)]
            k = dict(ra_source=U(r, -1, 1), dec_source=U(r, -1, 1)) if t == "SOURCE_POSITION" else dict(ra_image=a(), dec_image=a())
            if f and t != "UNLENSED":
                k["source_amp"] = U(r, .5, 3)
            else:
                k["point_amp"] = a(.5, 3)
            v["ps"].append(k)
        if hasattr(self, "fixed"):
            for g in (g for g in self.fixed if g != "special"):
                for kw, f in zip(v[g], self.fixed[g]):
                    for k in f:
                        kw[k] = copy.deepcopy(f[k])
                    # arrays whose length follows a fixed one
                    for x, y in (("amp", "sigma"), ("amp", "n_max")):
                        if y in f and x in kw and x not in f and np.ndim(kw[x]):
                            i = v[g].index(kw)
                            m = len(self.base[g][i][x])
                            kw[x] = [U(r, .3, 5) for _ in range(m)]
        return v

    def special_setup(self, r, b):
        s, o = {}, self.opts
        n = len(self.lens)
        A = lambda n, lo, hi: (n, lo, hi)
        self.mass, self.gen = None, None
        massp = ("theta_E", "alpha_Rs", "alpha_1", "sigma0", "k_eff")
        if b(3):
            self.mass = [int(r.integers(1, 3)) if any(p in self.base["lens"][i] for p in massp) and b() else False for i in range(n)]
            if any(self.mass) and 1 in self.mass:
                o["mass_scaling_list"] = list(self.mass)
                s["scale_factor"] = A(max(int(m) for m in self.mass), .5, 2)
            else:
                self.mass = None
        if b(4):
            cand = [p for p in ("theta_E", "sigma0", "Rs", "gamma") if any(p in kw for kw in self.base["lens"])]
            if cand:
                self.gen = {}
                for p in cand[:int(r.integers(1, 3))]:
                    mask = [1 if p in kw and b() else False for kw in self.base["lens"]]
                    if sum(1 for m in mask if m) >= 2 and b():
                        j = [i for i, m in enumerate(mask) if m][-1]
                        mask[j] = 2
                    if any(mask):
                        self.gen[p] = mask
                        s[p + "_scale_factor"] = A(max(int(m) for m in mask), .5, 2)
                        s[p + "_scale_pow"] = A(max(int(m) for m in mask), .5, 2)
                if self.gen:
                    o["general_scaling"] = copy.deepcopy(self.gen)
                else:
                    self.gen = None
        cosmo = self.multi and b(4)
        self.cosmo = None
        if cosmo:
            self.cosmo = str(r.choice(["FlatLambdaCDM", "LambdaCDM", "FlatwCDM", "wCDM", "Flatw0waCDM", "w0waCDM"]))
            self.km.update(cosmology_sampling=True, cosmology_model=self.cosmo)
            lim = dict(H0=(60, 80), Om0=(.2, .4), Ode0=(.6, .8), w0=(-1.2, -.8), wa=(-.2, .2))
            for p in dict(FlatLambdaCDM=["H0", "Om0"], LambdaCDM=["H0", "Om0", "Ode0"], FlatwCDM=["H0", "Om0", "w0"], wCDM=["H0", "Om0", "w0", "Ode0"],
                          Flatw0waCDM=["H0", "Om0", "w0", "wa"], w0waCDM=["H0", "Om0", "w0", "wa", "Ode0"])[self.cosmo]:
                s[p] = A(None, *lim[p])
        if b(4) and not cosmo:
            o["Ddt_sampling"] = True
            s["D_dt"] = A(None, 100, 9000)
        elif b(5) and not cosmo:
            o["kinematic_sampling"] = True
            s.update(D_dt=A(None, 100, 9000), D_d=A(None, 100, 9000), b_ani=A(None, -1, .9), incli=A(None, 0, 1.5))
        if b(4) and self.ps:
            o["point_source_offset"] = True
            s.update(delta_x_image=A(self.nps[0], -.9, .9), delta_y_image=A(self.nps[0], -.9, .9))
        if b(5):
            o["source_size"] = True
            s["source_size"] = A(None, .01, .9)
        if b(5):
            o["num_tau0"] = int(r.integers(1, 4))
            s["tau0_list"] = A(o["num_tau0"], 0, 5)
        self.zidx = None
        if self.multi and not cosmo and b(3):
            il = [int(r.integers(-1, 2)) for _ in self.lens]
            js = [int(r.integers(-1, 2)) for _ in self.source] if b() and self.source else None
            k = max([max(il)] + ([max(js)] if js else []))
            if k >= 0 and max(il) >= 0:
                # lens and source redshifts must not cross: separate indices
                if js:
                    js = [j + 2 if j >= 0 else -1 for j in js]
                    k = max(max(il), max(js))
                self.zidx = (il, js)
                o["lens_redshift_sampling_indexes"] = list(il)
                if js and max(js) >= 0:
                    o["source_redshift_sampling_indexes"] = list(js)
                else:
                    self.zidx = (il, None)
                    k = max(il)
                s["z_sampling"] = A(k + 1, .2, .9)
        self.spec = s
        sv = self.special_values(r)
        self.fixed["special"] = {k: v for k, v in sv.items() if b(5)}

    def special_values(self, r):
        out = {}
        for k, (n, lo, hi) in self.spec.items():
            out[k] = U(r, lo, hi) if n is None else [U(r, lo, hi) for _ in range(n)]
        if "z_sampling" in out:      # sources beyond lenses
            out["z_sampling"] = [z if i < 2 else 1 + z for i, z in enumerate(out["z_sampling"])]
        if hasattr(self, "fixed") and "special" in self.fixed:
            out.update(copy.deepcopy(self.fixed["special"]))
        return out

    def tie(self, r, b):
        """ties: (kind, source component, target component, [(target name, source name)])"""
        self.ties = []
        used = set()
        scaled = set()
        for i, m in enumerate(self.mass or []):
            if m:
                scaled |= {(i, p) for p in ("theta_E", "alpha_Rs", "alpha_1", "sigma0", "k_eff")}
        for p, mask in (self.gen or {}).items():
            scaled |= {(i, p) for i, m in enumerate(mask) if m}

        def one(opt, gfrom, gto, same):
            lst = []
            for _ in range(int(r.integers(1, 3))):
                nf, nt = len(getattr(self, gfrom)), len(getattr(self, gto))
                if not nf or not nt:
                    continue
                i, k = int(r.integers(nf)), int(r.integers(nt))
                if same and i == k:
                    continue
                ok = lambda g, j, p: not np.ndim(self.base[g][j][p]) and p not in ("amp", "n_max", "coeffs")
                fp = [p for p in self.names[gfrom][i] if p in self.base[gfrom][i] and ok(gfrom, i, p)]
                tp = [p for p in self.names[gto][k] if p in self.base[gto][k] and ok(gto, k, p) and (gto, k, p) not in used and not (gto == "lens" and (k, p) in scaled)
                      and not (gto == "lens" and self.lens[k] in ("NFW_MC", "NFW_MC_ELLIPSE_POTENTIAL"))]
                common = [p for p in tp if p in fp]
                if b(3) and fp and tp:
                    pairs = [(str(r.choice(tp)), str(r.choice(fp)))]
                    arg = {pairs[0][0]: pairs[0][1]}
                elif common:
                    pk = [p for p in common if b()] or common[:1]
                    pairs = [(p, p) for p in pk]
                    arg = list(pk)
                else:
                    continue
                # no chains through a parameter that is itself tied or used as a source of another tie
                if any((gfrom, i, f) in used for _, f in pairs) or any((gto, k, t, "src") in used for t, _ in pairs):
                    continue
                used.update((gto, k, t) for t, _ in pairs)
                used.update((gfrom, i, f, "src") for _, f in pairs)
                lst.append([i, k, arg])
                self.ties.append((opt, gfrom, i, gto, k, pairs))
            if lst:
                self.opts[opt] = lst

        self.image_plane = [b(3) for _ in self.source] if b(3) and self.source else None
        if self.image_plane is not None:
            self.opts["image_plane_source_list"] = list(self.image_plane)
        self.sps, self.lps = [], []
        if self.ps and self.source and b(2):
            i, k = int(r.integers(len(self.ps))), int(r.integers(len(self.source)))
            if "center_x" in self.base["source"][k]:
                self.opts["joint_source_with_point_source"] = [[i, k]]
                self.sps.append((i, k))
                used.update({("source", k, "center_x"), ("source", k, "center_y")})
        if self.ps and self.light and b(3):
            i, k = int(r.integers(len(self.ps))), int(r.integers(len(self.light)))
            if self.ps[i] != "SOURCE_POSITION" and "center_x" in self.base["light"][k]:
                self.opts["joint_lens_light_with_point_source"] = [[i, k]]
                self.lps.append((i, k))
                used.update({("light", k, "center_x"), ("light", k, "center_y")})
        src_ok = not self.image_plane
        if b():
            one("joint_lens_light_with_lens_light", "light", "light", True)
        if b():
            one("joint_lens_with_light", "light", "lens", False)
        if b(3) and src_ok and not self.sps:
            one("joint_lens_with_source_light", "source", "lens", False)
        if b(3):
            one("joint_extinction_with_lens_light", "light", "ext", False)
        if b():
            one("joint_lens_with_lens", "lens", "lens", True)
        if b() and src_ok:
            one("joint_source_with_source", "source", "source", True)
        if b(3) and src_ok:
            one("joint_source_light_with_tracer", "source", "tracer", False)

    def log(self, r, b):
        self.logs = set()
        if b(4):
            tied = {(k, t) for _, _, _, g, k, pairs in self.ties if g == "lens" for t, _ in pairs}
            out = []
            for i in range(len(self.lens)):
                ps = [p for p in ("theta_E", "Rs", "sigma0", "s_scale", "gamma") if p in self.base["lens"][i] and b() and (i, p) not in tied]
                if ps:
                    out.append([i, ps])
                    self.logs |= {(i, p) for p in ps}
            if out:
                self.opts["log_sampling_lens"] = out

    def build(self, **kw):
        from lenstronomy.Sampling.parameters import Param
        d = copy.deepcopy
        return Param(d(self.km), **dict(self.args(), **kw))

    def args(self):
        d = copy.deepcopy
        return dict(d(self.opts), kwargs_fixed_lens=d(self.fixed["lens"]), kwargs_fixed_source=d(self.fixed["source"]), kwargs_fixed_lens_light=d(self.fixed["light"]),
                    kwargs_fixed_ps=d(self.fixed["ps"]), kwargs_fixed_special=d(self.fixed["special"]), kwargs_fixed_extinction=d(self.fixed["ext"]),
                    kwargs_fixed_tracer_source=d(self.fixed["tracer"]), linear_solver=self.linear, num_shapelet_lens=self.nsh, num_point_source_list=list(self.nps))

    # expectations
    def free(self, g, k):
        """names of component k of group g that are sampled"""
        f = set(self.fixed[g][k])
        for _, _, _, gt, kt, pairs in self.ties:
            if gt == g and kt == k:
                f |= {t for t, _ in pairs}
        if g == "source" and any(k == j for _, j in self.sps):
            f |= {"center_x", "center_y"}
        if g == "light" and any(k == j for _, j in self.lps):
            f |= {"center_x", "center_y"}
        if g in ("source", "light") and self.linear:
            f.add("amp")
        if g == "ps" and self.linear:
            f |= {"point_amp", "source_amp"}
        keys = self.base["ps"][k] if g == "ps" else self.names[g][k]
        return [n for n in keys if n not in f]

    def entries(self):
        """multiset of vector entries by block: list of (block, [(label, group, component, name, index)])"""
        out = []
        for g, label in (("lens", "lens"), ("source", "source_light"), ("light", "lens_light"), ("ps", None), ("special", None), ("ext", "light"), ("tracer", "light")):
            if g == "special":
                e = []
                for n in self.spec:
                    if n not in self.fixed["special"]:
                        m = self.spec[n][0]
                        e += [(n, g, None, n, j) for j in ([None] if m is None else range(m))]
                out.append(e)
                continue
            for k in range(len(getattr(self, g))):
                e = []
                for n in self.free(g, k):
                    v = self.base[g][k][n]
                    lab = n if label is None else "%s_%s%d" % (n, label, k)
                    e += [(lab, g, k, n, j) for j in ([None] if not np.ndim(v) else range(len(v)))]
                out.append(e)
        return out

    def info(self):
        return dict(km=self.km, opts=self.opts, fixed=self.fixed, linear=self.linear)

    def lensmodel(self, z, zl, cosmo):
        from lenstronomy.LensModel.lens_model import LensModel
        if not self.multi:
            return LensModel(list(self.lens))
        return LensModel(list(self.lens), multi_plane=True, z_source=z, z_source_convention=2., lens_redshift_list=list(zl), cosmo=cosmo)

    def expect(self, v, sv, bij):
        """named parameters for raw values v"""
        d = copy.deepcopy(v)
        if self.linear:
            for g in ("source", "light"):
                for k, kw in enumerate(d[g]):
                    if "amp" in kw and "amp" not in self.fixed[g][k]:
                        kw["amp"] = 1
            for k, kw in enumerate(d["ps"]):
                if "source_amp" in kw:
                    kw["source_amp"] = 1
                else:
                    kw["point_amp"] = [1.] * self.nps[k]
        for i, k in self.lps:
            d["light"][k]["center_x"], d["light"][k]["center_y"] = float(np.mean(d["ps"][i]["ra_image"])), float(np.mean(d["ps"][i]["dec_image"]))

        def do(opts):
            for o, gf, i, gt, k, pairs in self.ties:
                if o in opts:
                    for t, f in pairs:
                        d[gt][k][t] = d[gf][i][f]
        do(("joint_lens_light_with_lens_light",))
        do(("joint_lens_with_light",))
        do(("joint_lens_with_source_light",))
        do(("joint_extinction_with_lens_light",))
        do(("joint_lens_with_lens",))
        raw = copy.deepcopy(d["lens"])
        for i, m in enumerate(self.mass or []):
            if m:
                p = next(p for p in ("theta_E", "alpha_Rs", "alpha_1", "sigma0", "k_eff") if p in d["lens"][i])
                d["lens"][i][p] *= sv["scale_factor"][m - 1]
        for p, mask in (self.gen or {}).items():
            for i, m in enumerate(mask):
                if m:
                    d["lens"][i][p] = sv[p + "_scale_factor"][m - 1] * d["lens"][i][p] ** sv[p + "_scale_pow"][m - 1]
        if any(self.image_plane or []) or self.sps:
            zl, zs = (list(self.zl), list(self.zs)) if self.multi else (None, None)
            if self.zidx:
                zl = [sv["z_sampling"][j] if j > -1 else z for j, z in zip(self.zidx[0], zl)]
                if self.zidx[1]:
                    zs = [sv["z_sampling"][j] if j > -1 else z for j, z in zip(self.zidx[1], zs)]
            cosmo = None
            if self.cosmo:
                import astropy.cosmology as ac
                cosmo = getattr(ac, self.cosmo)(**{p: sv[p] for p in ("H0", "Om0", "Ode0", "w0", "wa") if p in sv})

            def trace(x, y, k):
                x, y = np.asarray(x, float), np.asarray(y, float)
                if self.multi:
                    return self.lensmodel(zs[k], zl, cosmo).ray_shooting(x, y, d["lens"])
                a, c = self.lensmodel(None, None, None).alpha(x, y, d["lens"])
                s = self.scal[k] if self.scal else 1.
                return x - s * a, y - s * c
            for k, ip in enumerate(self.image_plane or []):
                if ip and not bij and "center_x" in d["source"][k]:
                    x, y = trace(d["source"][k]["center_x"], d["source"][k]["center_y"], k)
                    d["source"][k]["center_x"], d["source"][k]["center_y"] = float(x), float(y)
            for i, k in self.sps:
                p = d["ps"][i]
                if "ra_source" in p:
                    x, y = p["ra_source"], p["dec_source"]
                else:
                    x, y = trace(p["ra_image"], p["dec_image"], k)
                d["source"][k]["center_x"], d["source"][k]["center_y"] = float(np.mean(x)), float(np.mean(y))
        do(("joint_source_with_source",))
        do(("joint_source_light_with_tracer",))
        if bij:
            d["lens"] = raw
        return d


KEYS = (("kwargs_lens", "lens"), ("kwargs_source", "source"), ("kwargs_lens_light", "light"), ("kwargs_ps", "ps"), ("kwargs_extinction", "ext"), ("kwargs_tracer_source", "tracer"))


def compare(mon, tag, w, out, d, sv, c):
    mon.check(tag + "/groups", set(out) == {k for k, _ in KEYS} | {"kwargs_special"}, "groups of named parameters", got=sorted(out), **c)
    tied = {(g, k, t) for _, _, _, g, k, pairs in w.ties for t, _ in pairs}
    mapped = {("source", k) for _, k in w.sps} | {("source", k) for k, ip in enumerate(w.image_plane or []) if ip}
    for key, g in KEYS:
        got, want = out[key], d[g]
        mon.check(tag + "/components", len(got) == len(want), "number of components of %s" % key, **c)
        for k in range(len(want)):
            names = set(w.base["ps"][k]) if g == "ps" else set(w.names[g][k])
            mon.check(tag + "/present", set(got[k]) == names, "parameters of %s %d" % (key, k), got=sorted(got[k]), want=sorted(names), **c)
            for n in names & set(got[k]):
                if n not in want[k]:
                    continue
                t = "ties" if (g, k, n) in tied else "mapped" if (g, k) in mapped and n in ("center_x", "center_y") else "values"
                if t == "mapped" and not np.isfinite(want[k][n]):
                    continue
                mon.close("%s/%s" % (t, tag), np.asarray(got[k][n], float), np.asarray(want[k][n], float), 1e-7 if t == "mapped" else 1e-9, 1e-8 if t == "mapped" else 1e-12, "%s %d %s" % (key, k, n), **c)
    mon.check(tag + "/special", set(out["kwargs_special"]) == set(sv), "special parameters", got=sorted(out["kwargs_special"]), want=sorted(sv), **c)
    for n in set(sv) & set(out["kwargs_special"]):
        mon.close("values/%s/special" % tag, np.asarray(out["kwargs_special"][n], float), np.asarray(sv[n], float), 1e-12, 0, n, **c)


def vector(w, order, v, sv):
    out = []
    for lab, g, k, n, j in order:
        x = sv[n] if g == "special" else v[g][k][n]
        x = x if j is None else x[j]
        out.append(np.log10(x) if g == "lens" and (k, n) in w.logs else x)
    return np.array(out, float)


def run_mix(case, mon, rng):
    w = World(rng)
    drive(w, mon, rng)


def run_redshift(case, mon, rng):
    """multi-plane with sampled redshifts or cosmology and sources given in the image plane"""
    for _ in range(40):
        w = World(rng, multi=True)
        if (w.zidx or w.cosmo) and (w.sps or any(w.image_plane or [])):
            break
    drive(w, mon, rng)


def order_of(w, mon, names, c):
    """entries in the order of the reported names"""
    blocks = w.entries()
    mon.check("count/vector", len(names) == sum(len(b) for b in blocks), "number of sampled parameters", got=len(names), want=sum(len(b) for b in blocks), names=names, **c)
    i, out = 0, []
    for b in blocks:
        got = list(names[i:i + len(b)])
        ok = sorted(got) == sorted(e[0] for e in b)
        mon.check("names/block", ok, "names of a block of the vector", got=got, want=[e[0] for e in b], **c)
        if not ok:
            return None
        rest = list(b)
        for n in got:
            e = next(e for e in rest if e[0] == n)
            rest.remove(e)
            out.append(e)
        i += len(b)
    return out if len(out) == len(names) else None


def draw(w, mon, rng):
    """raw values; ties and scalings can combine to a lens that has no deflection (negative radii and the like)"""
    for _ in range(20):
        v, sv = w.values(rng), w.special_values(rng)
        try:
            d = w.expect(v, sv, False)
            z = [kw[p] for kw in d["source"] for p in ("center_x", "center_y") if p in kw]
            if all(np.isfinite(q) and not np.iscomplexobj(q) for q in z) and not any(np.iscomplexobj(q) or not np.all(np.isfinite(q)) for kw in d["lens"] for q in kw.values() if not isinstance(q, (str, dict))):
                return v, sv
        except (ArithmeticError, ValueError, TypeError):
            pass
        mon.event("redrawn")
    return None, None


def drive(w, mon, rng):
    c = w.info()
    from lenstronomy.Sampling.parameters import Param
    km, a = copy.deepcopy(w.km), w.args()
    lim = limits(w, rng)
    a.update(copy.deepcopy(lim))
    P = Param(km, **a)
    num, names = P.num_param()
    mon.check("count/reported", num == len(names), "reported number of parameters differs from the number of names", **c)
    order = order_of(w, mon, names, c)
    if order is None:
        return
    # limits
    lo, up = P.param_limits()
    lv = ({g: lim["kwargs_lower_" + q] for g, q in LIMQ}, {g: lim["kwargs_upper_" + q] for g, q in LIMQ})
    mon.close("limits/lower", np.array(lo), vector(w, order, lv[0], lim["kwargs_lower_special"]), 1e-12, 0, "lower limits", **c)
    mon.close("limits/upper", np.array(up), vector(w, order, lv[1], lim["kwargs_upper_special"]), 1e-12, 0, "upper limits", **c)
    # values
    keep = []
    for r in range(2):
        v, sv = draw(w, mon, rng)
        if v is None:
            return
        x = vector(w, order, v, sv)
        x0 = x.copy()
        for bij in ((False, True) if rng.integers(2) else (True, False)):
            out = P.args2kwargs(x, bijective=bij)
            mon.check("inputs/vector", np.array_equal(x, x0), "the vector passed in was altered", **c)
            compare(mon, "bijective" if bij else "rendered", w, out, w.expect(v, sv, bij), sv, c)
            if bij:
                back = P.kwargs2args(**out)
                tol = np.array([1e-7 if w.gen and e[1] == "lens" else 1e-10 for e in order])
                mon.check("inverse/vector", len(back) == len(x0) and bool(np.all(np.abs(back - x0) <= tol * (1 + np.abs(x0)))), "vector -> named -> vector", got=list(back), want=list(x0), names=names, **c)
        keep.append((x0, out, v, sv))
    x, _, v, sv = keep[0]
    out = P.args2kwargs(list(x) if rng.integers(2) else x.copy())
    compare(mon, "repeat", w, out, w.expect(v, sv, False), sv, c)
    mon.check("repeat/done", True, "")
    # named -> vector
    got = P.kwargs2args(kwargs_lens=v["lens"], kwargs_source=v["source"], kwargs_lens_light=v["light"], kwargs_ps=v["ps"], kwargs_special=sv, kwargs_extinction=v["ext"], kwargs_tracer_source=v["tracer"])
    mon.close("order/named", np.array(got), x, 1e-12, 0, "named -> vector", names=names, **c)
    # redshifts in the model settings
    if w.zidx:
        k2, ch = P.update_kwargs_model(copy.deepcopy(sv))
        zl = [sv["z_sampling"][j] if j > -1 else z for j, z in zip(w.zidx[0], w.zl)]
        zs = list(w.zs) if not w.zidx[1] else [sv["z_sampling"][j] if j > -1 else z for j, z in zip(w.zidx[1], w.zs)]
        mon.check("kwargs_model/changed", ch is True, "sampled redshifts not flagged", **c)
        mon.close("kwargs_model/lens", np.array(k2["lens_redshift_list"]), np.array(zl), 1e-12, 0, "lens redshifts", **c)
        mon.close("kwargs_model/source", np.array(k2["source_redshift_list"], float), np.array(zs, float), 1e-12, 0, "source redshifts", **c)
        rest = lambda k: {a: b for a, b in k.items() if a not in ("lens_redshift_list", "source_redshift_list")}
        mon.check("kwargs_model/rest", repr(rest(k2)) == repr(rest(w.km)), "other model settings changed", **c)
    else:
        k2, ch = P.update_kwargs_model(copy.deepcopy(sv))
        mon.check("kwargs_model/same", ch is False and repr(k2) == repr(w.km), "model settings changed without sampled redshifts", **c)
    # linear parameters
    nl = 0
    for g in ("source", "light"):
        for k, kw in enumerate(w.base[g]):
            if "amp" in kw:
                f = w.fixed[g][k].get("amp", None)
                nl += 0 if not w.linear and False else (len(np.atleast_1d(kw["amp"])) if np.ndim(kw["amp"]) else 1)
    if w.linear:
        nl += sum(1 if "source_amp" in kw else w.nps[k] for k, kw in enumerate(w.base["ps"]))
        mon.check("linear/count", P.num_param_linear() == nl, "number of linear parameters", got=P.num_param_linear(), want=nl, **c)
    # clipping of special parameters to their limits
    se = [i for i, e in enumerate(order) if e[1] == "special" and e[3] not in ("z_sampling", "H0", "Om0", "Ode0", "w0", "wa")]
    if se:
        i = int(rng.choice(se))
        x2 = x.copy()
        e = order[i]
        hi = bool(rng.integers(2))
        L = lim["kwargs_upper_special" if hi else "kwargs_lower_special"][e[3]]
        L = L if e[4] is None else L[e[4]]
        x2[i] = L + (1. if hi else -1.)
        x3 = x2.copy()
        out = P.args2kwargs(x2, bijective=True)["kwargs_special"][e[3]]
        mon.check("inputs/clip", np.array_equal(x2, x3), "the vector passed in was altered", entry=e, **c)
        mon.close("clip/special", float(out if e[4] is None else out[e[4]]), float(L), 1e-12, 1e-12, "special parameter outside its limits", entry=e, **c)
    # inputs
    mon.check("inputs/model", repr(km) == repr(w.km), "model settings altered", **c)
    b = w.args()
    b.update(copy.deepcopy(lim))
    for k in a:
        mon.check("inputs/" + k, repr(a[k]) == repr(b[k]), "argument %s altered" % k, got=a[k], want=b[k], **c)
    mon.nontrivial(tuple(w.lens), tuple(w.source), tuple(w.ps), tuple(sorted(w.opts)), w.linear, w.multi)


LIMQ = (("lens", "lens"), ("source", "source"), ("light", "lens_light"), ("ps", "ps"), ("ext", "extinction"), ("tracer", "tracer_source"))


def limits(w, rng):
    out = {}
    f = lambda x, s: [f(y, s) for y in x] if np.ndim(x) else float(x) + s * (abs(float(x)) * .3 + (1 + U(rng, 0, 1)) * (s > 0)) if True else 0
    for g, q in LIMQ:
        lo, up = [], []
        for k, kw in enumerate(w.base[g]):
            l, u = {}, {}
            for n, x in kw.items():
                logp = g == "lens" and (k, n) in w.logs
                A = lambda s: [float(y) * s if logp else float(y) + (s - 1) for y in x] if np.ndim(x) == 1 else (float(x) * s if logp else float(x) + (s - 1)) if not np.ndim(x) else x
                s1, s2 = U(rng, .2, .8), U(rng, 1.2, 3)
                l[n], u[n] = A(s1), A(s2)
            lo.append(l)
            up.append(u)
        out["kwargs_lower_" + q], out["kwargs_upper_" + q] = lo, up
    lo, up = {}, {}
    for n, (m, a, b) in w.spec.items():
        a, b = (a - .001, b + 1.2) if n == "z_sampling" else (a - .001, b + .001)
        lo[n], up[n] = (a, b) if m is None else ([a - .01 * j for j in range(m)], [b + .01 * j for j in range(m)])
    out["kwargs_lower_special"], out["kwargs_upper_special"] = lo, up
    return out


def run_default(case, mon, rng):
    """default limits exist, are ordered and describe the vector"""
    from lenstronomy.Sampling.parameters import Param
    m = case["model"]
    lens = case["which"] == "lens"
    nsh = 7
    kw = lens_kw(m, rng, nsh) if lens else light_kw(m, rng)
    pk = None if lens else GC.profile_kwargs(m, rng) if m.startswith("MGE") else None
    names = param_names_lens(m) if lens else param_names_light(m, pk)
    fixed = {k: kw[k] for k in must_fix(m, kw)}
    if np.ndim(kw.get("amp")) or np.ndim(kw.get("coeffs")) or m == "INTERPOL":
        for k in ("amp", "coeffs", "image"):
            if k in kw:
                fixed[k] = kw[k]
    c = dict(model=m, kw=kw)
    km = dict(lens_model_list=[m]) if lens else dict(source_light_model_list=[m], source_light_profile_kwargs_list=[pk])
    P = Param(km, **({"kwargs_fixed_lens": [fixed]} if lens else {"kwargs_fixed_source": [fixed]}), linear_solver=False, num_shapelet_lens=nsh)
    num, ns = P.num_param()
    lo, up = P.param_limits()
    want = ["%s_%s0" % (n, "lens" if lens else "source_light") for n in names if n not in fixed]
    mon.check("default/names", list(ns) == want, "names", got=ns, want=want, **c)
    mon.check("default/length", len(lo) == num and len(up) == num, "default limits do not match the vector", got=(len(lo), len(up)), want=num, **c)
    if len(lo) == num == len(up):
        mon.check("default/ordered", bool(np.all(np.array(lo) < np.array(up))), "a default lower limit is not below the upper", lo=list(lo), up=list(up), names=ns, **c)
    for n in names:
        mon.check("default/known", n in kw or n == "scale_factor", "unknown parameter name %s" % n, **c)
    mon.nontrivial("default", m, lens)

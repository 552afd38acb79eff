"""C22: stellar kinematics predictions are consistent and conserve light."""
import numpy as np
from scipy import integrate, stats

RULE = ("monitors on the real GalKin/JAMPy/KinematicsAPI classes: anisotropy kernels are compared with the direct projection integral of "
        "their own beta(r); Jeans solutions, projected dispersions and surface brightness with independent quadrature in SI units, with the "
        "virial theorem (anisotropy independent), with the closed form solution and with the independent jampy code; apertures with their "
        "geometric definition at random positions, PSF and light draws with their distribution functions (Kolmogorov-Smirnov), aperture "
        "dispersions and maps with an independent rendering, and results under changes of distances, mass, light units, grid order, rotation, "
        "binning and call history")
ASSUMPTIONS = ["numerical integrals of the library are first order in the number of interpolation points: compared at per-cent level with 1000-2000 points",
               "Monte-Carlo predictions are compared within >= 6 standard errors; KS tests at p > 1e-7",
               "numerics objects cache per parameter set until delete_cache() (documented): each evaluation of the numerics starts with it, Galkin methods do not need it",
               "constant anisotropy: -1/2 < beta < 1, beta != 1/2 (domain of the closed form kernel)"]
REQUIRED = ["check:K", "check:f", "check:jeans", "check:virial", "check:sis", "check:analytic", "check:scaling", "check:select", "check:sample",
            "check:psf", "check:draw", "check:map", "check:dispersion", "check:shells", "check:multi", "check:api", "check:jam", "check:td"]
TIMEOUT = 400
G, C, MPC = 6.67384e-11, 299792458., 3.08567758e22
AS = np.pi / 180 / 3600


def cases(tier, seed):
    q = tier == "quick"
    n = dict(aniso=12, jeans=18, scaling=8, analytic=6, aperture=40, psf=14, draw=10, map=14, dispersion=8, shells=6, multi=3, api=8, jam=6, td=4)
    out = []
    for k, v in n.items():
        for i in range(v if q else v * 14):
            out.append(dict(name=f"{k}/{i}", group=k, i=i, cost=dict(dispersion=4, multi=5, map=3, api=3, jam=2, td=3, jeans=2, shells=3).get(k, 1)))
    return out


def U(rng, a, b):
    return float(rng.uniform(a, b))


MODELS = ["const", "isotropic", "radial", "OM", "GOM", "Colin"]


def ani(rng, name):
    if name == "const":
        b = U(rng, -.45, .9)
        return dict(beta=b if abs(b - .5) > .03 and abs(b) > 1e-3 else .3)
    if name in ("isotropic", "radial"):
        return {}
    k = dict(r_ani=float(np.exp(rng.uniform(np.log(.15), np.log(5)))))
    if name == "GOM":
        k["beta_inf"] = U(rng, .1, 1.)
    if name == "LOGISTIC":
        k.update(beta_0=U(rng, -.3, .4), beta_inf=U(rng, -.2, .8), alpha=U(rng, .5, 3))
    return k


def beta_f(name, k):
    """independent beta(r) and integrating factor"""
    if name == "const":
        return (lambda r: k["beta"] + 0 * r), (lambda r: r ** (2 * k["beta"]))
    if name == "isotropic":
        return (lambda r: 0. * r), (lambda r: 1. + 0 * r)
    if name == "radial":
        return (lambda r: 1. + 0 * r), (lambda r: r**2)
    a = k["r_ani"]
    if name == "OM":
        return (lambda r: r**2 / (r**2 + a**2)), (lambda r: r**2 + a**2)
    if name == "GOM":
        return (lambda r: k["beta_inf"] * r**2 / (r**2 + a**2)), (lambda r: (r**2 + a**2) ** k["beta_inf"])
    if name == "Colin":
        return (lambda r: .5 * r / (r + a)), (lambda r: r + a)
    b0, bi, al = k["beta_0"], k["beta_inf"], k["alpha"]
    return (lambda r: b0 + (bi - b0) / (1 + (a / r) ** al)), (lambda r: r ** (2 * b0) * (r**al + a**al) ** (2 * (bi - b0) / al))


def t_aniso(case, mon, rng):
    from lenstronomy.GalKin.anisotropy import Anisotropy
    for name in MODELS:
        k = ani(rng, name)
        if name == "Colin" and case["i"] % 3 == 0:
            k["r_ani"] = .7
        o = Anisotropy(name)
        be, f = beta_f(name, k)
        r = np.geomspace(.02, 30, 9)
        mon.close("beta/" + name, o.beta_r(r, **k) + 0 * r, be(r), 1e-12, 1e-12, "anisotropy beta(r)", model=name, params=k)
        if name not in ("const", "Colin"):
            h = 1e-5
            d = (np.log(o.anisotropy_solution(r * (1 + h), **k) + 0 * r) - np.log(o.anisotropy_solution(r * (1 - h), **k) + 0 * r)) / (np.log(1 + h) - np.log(1 - h))
            mon.close("f/" + name, d, 2 * be(r), 1e-6, 1e-6, "d ln f / d ln r = 2 beta", model=name, params=k)
        for R in [float(np.exp(rng.uniform(np.log(.03), np.log(5)))) for _ in range(3)] + ([.7] if name == "Colin" else []):
            s = R * (1 + np.geomspace(1e-2, 30, 7) * U(rng, .7, 1.3))
            got = np.asarray(o.K(s, R, **k)) + 0 * s
            want = []
            for si in s:
                g = lambda t: (lambda rr: (1 - be(rr) * R**2 / rr**2) / f(rr))(np.sqrt(R**2 + t**2))
                want.append(f(si) / si * integrate.quad(g, 0, np.sqrt(si**2 - R**2), epsabs=0, epsrel=1e-9, limit=200)[0])
            near = name == "Colin" and abs(k["r_ani"] / R - 1) < .02 and k["r_ani"] != R
            rt = 2e-2 if name == "GOM" else 1e-6
            if not near:
                mon.close("K/" + name, got, np.array(want), rt, 1e-9, "projection kernel equals the direct projection integral", model=name, params=k, R=R, s=s)
            s1 = np.asarray(o.K(np.array([s[3]]), R, **k)).ravel()
            mon.close("K/" + name + "/single", s1, got[3:4], 1e-10, 0, "kernel at one radius", model=name)
        o.delete_anisotropy_cache()
        k2 = ani(rng, name)
        R = .6
        v2 = np.asarray(o.K(np.array([.9, 2.]), R, **k2))
        mon.close("K/" + name + "/cache", v2, np.asarray(Anisotropy(name).K(np.array([.9, 2.]), R, **k2)), 1e-12, 0, "kernel after deleting the cache", model=name)
        mon.nontrivial("aniso", name, case["i"])
    for name in MODELS + ["LOGISTIC"]:
        k = ani(rng, name)
        if name == "radial":
            continue
        try:
            o = Anisotropy(name)
        except Exception:
            if name == "LOGISTIC":
                try:
                    o = Anisotropy("logistic")
                except Exception:
                    continue
            else:
                raise
        be, f = beta_f(name, k)
        r = np.geomspace(.05, 10, 6)
        p = o.jampy_beta(k, "spherical")
        if o.use_logistic:
            ra, b0, bi, al = p
            mon.close("jampy/" + name, b0 + (bi - b0) / (1 + (ra / r) ** al), be(r), 1e-10, 1e-12, "anisotropy passed to jampy", model=name, params=k)
            b, db = o.jampy_beta(k, "axi_sph")(r, .3)
            mon.close("jampy/" + name + "/axi_sph", b, be(r), 1e-10, 1e-12, "spherically aligned anisotropy", model=name)
        else:
            mon.close("jampy/" + name, p, float(be(1.)), 1e-12, 1e-12, "anisotropy passed to jampy", model=name, params=k)
        fn = o.jampy_beta(k, "axi_cyl")
        th = rng.uniform(0, np.pi, 6)
        b, db = fn(r, th)
        bp, bm = fn(r, th + 1e-5)[0], fn(r, th - 1e-5)[0]
        mon.close("jampy/" + name + "/dtheta", db + 0 * r, (bp - bm) / 2e-5 + 0 * r, 1e-4, 1e-6, "angular derivative of the anisotropy", model=name, params=k)
        mon.close("jampy/" + name + "/equator", fn(r, np.pi / 2 + 0 * r)[0] + 0 * r, be(r) + 0 * r, 1e-9, 1e-12, "cylindrically aligned anisotropy in the equatorial plane", model=name, params=k)
        mon.close("jampy/" + name + "/axis", fn(r, 0 * r)[0] + 0 * r, 1 - 1 / (1 - be(r)) + 0 * r, 1e-9, 1e-12, "cylindrically aligned anisotropy on the symmetry axis", model=name, params=k)


def mass(rng, i):
    opts = [(["SIS"], [dict(theta_E=U(rng, .6, 1.8))]), (["SPP"], [dict(theta_E=U(rng, .6, 1.8), gamma=U(rng, 1.6, 2.4))]),
            (["SPP", "NFW"], [dict(theta_E=U(rng, .6, 1.2), gamma=U(rng, 1.8, 2.3)), dict(Rs=U(rng, 2, 10), alpha_Rs=U(rng, .2, 1.))]),
            (["HERNQUIST", "NFW"], [dict(Rs=U(rng, .3, 1), sigma0=U(rng, .5, 3)), dict(Rs=U(rng, 2, 10), alpha_Rs=U(rng, .2, 1.))]),
            (["PJAFFE"], [dict(sigma0=U(rng, .5, 3), Ra=U(rng, .05, .3), Rs=U(rng, 1, 3))]),
            (["MULTI_GAUSSIAN"], [dict(amp=rng.uniform(.3, 3, 3), sigma=np.array([.3, 1., 3.]), scale_factor=1)]),
            (["EPL"], [dict(theta_E=U(rng, .6, 1.8), gamma=U(rng, 1.7, 2.3), e1=0., e2=0., center_x=U(rng, -.2, .2), center_y=.1)]),
            (["POINT_MASS", "SIS"], [dict(theta_E=U(rng, .02, .2)), dict(theta_E=U(rng, .6, 1.8))])]
    return opts[i % len(opts)]


def light(rng, i):
    opts = [(["HERNQUIST"], [dict(amp=U(rng, .5, 5), Rs=U(rng, .3, 1.2))]),
            (["PJAFFE"], [dict(amp=U(rng, .5, 5), Ra=U(rng, .1, .3), Rs=U(rng, .5, 1.5))]),
            (["MULTI_GAUSSIAN"], [dict(amp=rng.uniform(.3, 3, 4), sigma=np.array([.1, .3, .8, 2.]))]),
            (["HERNQUIST", "GAUSSIAN"], [dict(amp=U(rng, .5, 5), Rs=U(rng, .3, 1.2)), dict(amp=U(rng, .2, 2), sigma=U(rng, .4, 1.5))]),
            (["HERNQUIST_ELLIPSE"], [dict(amp=U(rng, .5, 5), Rs=U(rng, .3, 1.2), e1=0., e2=0., center_x=.1, center_y=-.1)])]
    return opts[i % len(opts)]


def m_si(masses, km, dd, ds, dds):
    """3d enclosed mass [kg] at r [arcsec] from the deprojected profiles"""
    from lenstronomy.LensModel.single_plane import SinglePlane
    sp = SinglePlane(masses)
    return lambda r: sp.mass_3d(r, km) * AS**2 * dd * ds / dds * MPC * C**2 / (4 * np.pi * G)


def dist(rng):
    return dict(d_d=U(rng, 500, 1600), d_s=U(rng, 1200, 2000), d_ds=U(rng, 400, 1500))


class Ref:
    """independent solution of the spherical Jeans equation on a fine logarithmic grid up to rmax"""
    def __init__(self, masses, km, lights, kl, aname, ka, kc, rmax, rmin=1e-4):
        from lenstronomy.LightModel.light_model import LightModel
        lm = LightModel(lights)
        kl = [{k: v for k, v in d.items() if k not in ("center_x", "center_y")} for d in kl]
        self.dd = kc["d_d"]
        M = m_si(masses, km, kc["d_d"], kc["d_s"], kc["d_ds"])
        self.r = np.geomspace(rmin, rmax, 6000)
        self.l = lm.light_3d(self.r, kl)
        self.M = M(self.r)
        self.be, self.f = beta_f(aname, ka)
        y = self.f(self.r) * self.l * G * self.M / self.r**2 / (AS * self.dd * MPC) * self.r
        x = np.log(self.r)
        c = np.concatenate([[0], np.cumsum(.5 * (y[1:] + y[:-1]) * np.diff(x))])
        self.ls = (c[-1] - c) / self.f(self.r)
        self.rmax = rmax
        self._l = lambda rr: np.exp(np.interp(np.log(rr), x, np.log(np.maximum(self.l, 1e-290))))
        self._ls = lambda rr: np.interp(np.log(rr), x, self.ls)

    def sigma_r2(self, r):
        return self._ls(r) / self._l(r)

    def proj(self, R):
        t = np.concatenate([np.linspace(0, .02 * R, 20)[:-1], np.geomspace(.02 * R, np.sqrt(self.rmax**2 - R**2), 2500)])
        rr = np.sqrt(R**2 + t**2)
        return 2 * np.trapezoid((1 - self.be(rr) * R**2 / rr**2) * self._ls(rr), t), 2 * np.trapezoid(self._l(rr), t)

    def virial(self):
        y = self.l * G * self.M * self.r / (AS * self.dd * MPC) * self.r
        w = self.l * self.r**2 * self.r
        x = np.log(self.r)
        return np.trapezoid(y, x) / np.trapezoid(w, x) / 3


def numerics(rng=None, n=1500, rmax=200., **k):
    return dict(dict(interpol_grid_num=n, log_integration=True, max_integrate=rmax, min_integrate=1e-4), **k)


def t_jeans(case, mon, rng):
    from lenstronomy.GalKin.numeric_kinematics import NumericKinematics
    name = MODELS[case["i"] % 6]
    ka = ani(rng, name)
    ms, km = mass(rng, int(rng.integers(8)))
    ls, kl = light(rng, int(rng.integers(5)))
    kc = dist(rng)
    o = NumericKinematics(dict(mass_profile_list=ms, light_profile_list=ls, anisotropy_model=name), kc, **numerics())
    ref = Ref(ms, km, ls, kl, name, ka, kc, 200.)
    ctx = dict(model=name, params=ka, mass=ms, light=ls, kwargs_mass=km, kwargs_light=kl)
    r = np.geomspace(.02, 2 if "MULTI_GAUSSIAN" in ls else 5, 6)
    mon.close("jeans/mass", o.mass_3d(r, km), m_si(ms, km, kc["d_d"], kc["d_s"], kc["d_ds"])(r), 1e-4, 0, "enclosed physical mass", **ctx)
    mon.close("jeans/potential", o.grav_potential(r, km), -G * m_si(ms, km, kc["d_d"], kc["d_s"], kc["d_ds"])(r) / (r * AS * kc["d_d"] * MPC), 1e-4, 0, "-G M / r", **ctx)
    if name not in ("const", "Colin"):
        mon.close("jeans/sigma_r2/" + name, o.sigma_r2(r, km, kl, ka), ref.sigma_r2(r), .04, 0, "radial dispersion solves the Jeans equation", **ctx)
    R = np.geomspace(.03, 3, 6)
    a, b = zip(*[o.I_R_sigma2_and_IR(float(x), km, kl, ka) for x in R])
    A, B = zip(*[ref.proj(x) for x in R])
    mon.close("jeans/IR/" + name, np.array(b, float), np.array(B), .03, 0, "projected light", **ctx)
    mon.close("jeans/sigma_los/" + name, np.array(a, float) / np.array(b, float), np.array(A) / np.array(B), .04, 0, "projected dispersion", R=R, **ctx)
    s, w = o.sigma_s2(1., 0.5, km, kl, ka)
    o2 = NumericKinematics(dict(mass_profile_list=ms, light_profile_list=ls, anisotropy_model=name), kc, **numerics(lum_weight_int_method=False))
    if name not in ("const", "Colin"):
        got, w1 = o2.sigma_s2(1., .5, km, kl, ka)
        mon.close("jeans/sigma_s2/" + name, got, (1 - ref.be(1.) * .25) * ref.sigma_r2(1.), .025, 0, "dispersion along the line of sight at a 3d position", **ctx)
    a0, b0 = ref.proj(.5)
    mon.close("jeans/project/" + name, s / w, a0 / b0, .04, 0, "luminosity weighted dispersion at a projected radius", **ctx)
    # virial theorem: light weighted total dispersion does not depend on anisotropy
    Rg = np.geomspace(1e-3, 195, 400)
    a, b = o.I_R_sigma2_and_IR(Rg, km, kl, ka)
    tot = np.trapezoid(a * Rg**2, np.log(Rg)) / np.trapezoid(b * Rg**2, np.log(Rg))
    mon.close("virial/" + name, tot, ref.virial(), .03, 0, "total dispersion obeys the virial theorem", **ctx)
    # within a radius
    Rm = U(rng, .3, 2.)
    g = np.geomspace(1e-3, Rm, 50)
    ab = np.array([ref.proj(x) for x in g])
    want = np.sqrt(np.trapezoid(ab[:, 0] * g**2, np.log(g)) / np.trapezoid(ab[:, 1] * g**2, np.log(g))) / 1000
    mon.close("jeans/within/" + name, o.lum_weighted_vel_disp(Rm, km, kl, ka), want, .15 if name == "radial" else .06, 0, "light weighted dispersion within a radius", Rm=Rm, **ctx)
    # other parameters after deletion of the cache
    o.delete_cache()
    ms2, km2 = ms, [dict(d) for d in km]
    kl2 = [dict(d) for d in kl]
    if "Rs" in kl2[0]:
        kl2[0]["Rs"] = kl2[0]["Rs"] * 1.4
    ka2 = ani(rng, name)
    s2, w2 = o.sigma_s2(1., .5, km2, kl2, ka2)
    of = NumericKinematics(dict(mass_profile_list=ms, light_profile_list=ls, anisotropy_model=name), kc, **numerics())
    s3, w3 = of.sigma_s2(1., .5, km2, kl2, ka2)
    mon.close("jeans/fresh/" + name, s2, s3, 1e-12, 0, "a cleared object equals a new object", **ctx)
    mon.nontrivial("jeans", name, tuple(ms), tuple(ls))
    # absolute value: isothermal mass, power-law light, isotropic
    if name == "isotropic":
        te, gl = U(rng, .5, 2), U(rng, 2.5, 3.5)
        o = NumericKinematics(dict(mass_profile_list=["SIS"], light_profile_list=["POWER_LAW"], anisotropy_model="isotropic"), kc, **numerics(n=2000, rmax=3000.))
        kl = [dict(amp=1., gamma=gl, e1=0., e2=0.)]
        sis = C**2 * te * AS / (4 * np.pi) * kc["d_s"] / kc["d_ds"]
        got = o.sigma_r2(np.array([.3, 1.]), [dict(theta_E=te)], kl, {})
        mon.close("sis/sigma_r2", got, 2 * sis / gl + np.zeros(2), .02, 0, "isotropic orbits in an isothermal sphere", theta_E=te, slope=gl, dist=kc)
        o.delete_cache()
        ab = np.array([o._I_R_sigma2(x, [dict(theta_E=te)], kl, {}) for x in (.3, 1.)]) if False else np.array([o.I_R_sigma2_and_IR(x, [dict(theta_E=te)], kl, {}) for x in (.3, 1.)], float)
        mon.close("sis/sigma_los", ab[:, 0] / ab[:, 1], 2 * sis / gl + np.zeros(2), .03, 0, "projected dispersion of isotropic orbits in an isothermal sphere", theta_E=te, slope=gl, dist=kc)
    elif case["i"] % 6 == 3:
        mon.event("check:sis_skipped")


def t_scaling(case, mon, rng):
    from lenstronomy.GalKin.numeric_kinematics import NumericKinematics
    name = MODELS[case["i"] % 6]
    ka = ani(rng, name)
    ls, kl = light(rng, int(rng.integers(4)))
    kc = dist(rng)
    te = U(rng, .6, 1.8)
    m = dict(mass_profile_list=["SIS"], light_profile_list=ls, anisotropy_model=name)
    kn = numerics(n=300, rmax=100.)

    def los(kc, te, kl, ka=ka, kn=kn, R=.7):
        s, w = NumericKinematics(m, kc, **kn).sigma_s2(1.2 * R, R, [dict(theta_E=te)], kl, ka)
        return s / w
    s0 = los(kc, te, kl)
    f = U(rng, .5, 2)
    ctx = dict(model=name, light=ls, factor=f)
    mon.close("scaling/ds", los(dict(kc, d_s=kc["d_s"] * f), te, kl), s0 * f, 1e-10, 0, "dispersion squared is proportional to D_s", **ctx)
    mon.close("scaling/dds", los(dict(kc, d_ds=kc["d_ds"] * f), te, kl), s0 / f, 1e-10, 0, "dispersion squared is inverse to D_ds", **ctx)
    mon.close("scaling/dd", los(dict(kc, d_d=kc["d_d"] * f), te, kl), s0, 1e-10, 0, "dispersion does not depend on D_d at fixed angles", **ctx)
    mon.close("scaling/mass", los(kc, te * f, kl), s0 * f, 1e-10, 0, "dispersion squared is proportional to mass", **ctx)
    mon.close("scaling/amp", los(kc, te, [dict(d, amp=np.asarray(d["amp"]) * f) for d in kl]), s0, 1e-10, 0, "dispersion does not depend on the light unit", **ctx)
    # all angles scaled: isothermal mass gives the same dispersion when theta_E stays
    lk = ("Rs", "Ra", "sigma")
    kl2 = [{k: (np.asarray(v) * f if k in lk else v) for k, v in d.items()} for d in kl]
    ka2 = {k: (v * f if k == "r_ani" else v) for k, v in ka.items()}
    if len(ls) == 1:
        mon.close("scaling/angle", los(kc, te, kl2, ka2, dict(kn, max_integrate=100. * f, min_integrate=1e-4 * f), .7 * f), s0, 2e-3 if name == "GOM" else 1e-6, 0, "isothermal dispersion is scale free", **ctx)
    mon.nontrivial("scaling", name, tuple(ls))


def t_analytic(case, mon, rng):
    from lenstronomy.GalKin.numeric_kinematics import NumericKinematics
    from lenstronomy.GalKin.analytic_kinematics import AnalyticKinematics
    from lenstronomy.GalKin.galkin import Galkin
    kc = dist(rng)
    te, g, reff, ra = U(rng, .6, 1.8), U(rng, 1.6, 2.4), U(rng, .5, 2), U(rng, .3, 4)
    km, kl, ka = dict(theta_E=te, gamma=g), dict(r_eff=reff), dict(r_ani=ra)
    if case["i"] % 3 == 1:
        kl = dict(Rs=reff * .551, amp=1.)
    elif case["i"] % 3 == 2:
        kl = dict(a=reff * .551)
    KM, KL = [dict(theta_E=te, gamma=g)], [dict(Rs=reff * .551, amp=1.)]
    rmax = 500.
    a = AnalyticKinematics(kc, **numerics(n=300, rmax=rmax))
    n = NumericKinematics(dict(mass_profile_list=["SPP"], light_profile_list=["HERNQUIST"], anisotropy_model="OM"), kc, **numerics(n=1500, rmax=rmax))
    ref = Ref(["SPP"], KM, ["HERNQUIST"], KL, "OM", ka, kc, 2e4)
    r = np.geomspace(.05, 3, 5)
    ctx = dict(theta_E=te, gamma=g, r_eff=reff, r_ani=ra)
    got = np.array([float(a.sigma_r2(float(x), km, kl, ka)) for x in r])
    mon.close("analytic/ref", got, ref.sigma_r2(r), 3e-3, 0, "closed form solves the Jeans equation", **ctx)
    mon.close("analytic/sigma_r2", got, n.sigma_r2(r, KM, KL, ka), .03, 0, "closed form and numerical radial dispersion", **ctx)
    mon.close("analytic/potential", a.grav_potential(r, km), n.grav_potential(r, KM), 1e-8, 0, "potential", **ctx)
    for x in r[1:4]:
        s, w = a.sigma_s2(float(x), float(.6 * x), km, kl, ka)
        mon.close("analytic/sigma_s2", float(s) / w, (1 - ref.be(x) * .36) * ref.sigma_r2(x), 5e-3, 0, "closed form dispersion along the line of sight", **ctx)
    if "a" not in kl:
        for R in (.2, .8):
            A, B = a.I_R_sigma2_and_IR(R, km, kl, ka)
            p, q = ref.proj(R)
            mon.close("analytic/project", A / B, p / q, .10, 0, "projected closed form dispersion", R=R, **ctx)
    a.delete_cache()
    km2 = dict(theta_E=te * 1.3, gamma=g + .1)
    s2, _ = a.sigma_s2(1., .5, km2, kl, ka)
    s3, _ = AnalyticKinematics(kc, **numerics(n=300, rmax=rmax)).sigma_s2(1., .5, km2, kl, ka)
    mon.close("analytic/fresh", float(s2), float(s3), 1e-12, 0, "a cleared object equals a new object", **ctx)
    mon.nontrivial("analytic", case["i"])


def rot(x, y, a):
    return np.cos(a) * x - np.sin(a) * y, np.sin(a) * x + np.cos(a) * y


def make_ap(rng, kind):
    """aperture settings and an independent function position -> (bin or None, distance to the next edge)"""
    cx, cy, an = U(rng, -.7, .7), U(rng, -.7, .7), U(rng, -3, 3)
    if kind in ("slit", "frame"):
        L, W = U(rng, .5, 3), U(rng, .4, 2)
        if kind == "slit":
            kw = dict(aperture_type="slit", length=L, width=W, center_ra=cx, center_dec=cy, angle=an)

            def f(x, y):
                u, v = rot(x - cx, y - cy, -an)
                e = min(abs(abs(u) - L / 2), abs(abs(v) - W / 2))
                return (0 if abs(u) < L / 2 and abs(v) < W / 2 else None), e
        else:
            I = W * .8
            L = W * U(rng, 1.1, 2)
            kw = dict(aperture_type="frame", width_outer=L, width_inner=I, center_ra=cx, center_dec=cy, angle=an)

            def f(x, y):
                u, v = rot(x - cx, y - cy, -an)
                m = max(abs(u), abs(v))
                return (0 if I / 2 <= m < L / 2 else None), min(abs(m - I / 2), abs(m - L / 2))
        return kw, f, (cx, cy, 3.)
    if kind in ("shell", "IFU_shells"):
        rb = np.sort(rng.uniform(.1, 2.5, 4)) + np.arange(4) * .05
        if rng.integers(2):
            rb[0] = 0
        kw = dict(aperture_type="shell", r_in=float(rb[0]), r_out=float(rb[2]), center_ra=cx, center_dec=cy) if kind == "shell" else dict(aperture_type="IFU_shells", r_bins=rb, center_ra=cx, center_dec=cy)

        def f(x, y):
            r = np.hypot(x - cx, y - cy)
            e = np.min(np.abs(r - rb))
            if kind == "shell":
                return (0 if rb[0] <= r < rb[2] else None), e
            j = [i for i in range(3) if rb[i] <= r < rb[i + 1]]
            return (j[0] if j else None), e
        return kw, f, (cx, cy, 3.)
    # grids
    ny, nx = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    d = U(rng, .1, .5)
    sx, sy = [1 if rng.integers(2) else -1 for _ in range(2)]
    an = an if rng.integers(2) else 0.
    x0, y0 = U(rng, -2, 1), U(rng, -2, 1)
    gx, gy = np.meshgrid(x0 + sx * d * np.arange(nx), y0 + sy * d * np.arange(ny))
    X, Y = rot(gx, gy, an)
    kw = dict(aperture_type=kind, x_grid=X, y_grid=Y, angle=an)
    bins = None
    if kind == "IFU_binned":
        bins = rng.integers(-1, 4, (ny, nx))
        bins[0, 0], bins[-1, -1], bins[0, -1], bins[-1, 0] = 0, 1, 2, 3
        kw["bins"] = bins

    def f(x, y):
        u, v = rot(x, y, -an)
        i, j = (v - y0) / (sy * d), (u - x0) / (sx * d)
        ii, jj = int(np.rint(i)), int(np.rint(j))
        e = min(abs(abs(i - ii) - .5), abs(abs(j - jj) - .5)) * d
        if not (0 <= ii < ny and 0 <= jj < nx):
            return None, e
        if bins is not None:
            return (int(bins[ii, jj]) if bins[ii, jj] >= 0 else None), e
        return (ii, jj), e
    c = rot(np.mean(gx), np.mean(gy), an)
    return kw, f, (float(c[0]), float(c[1]), d * max(nx, ny) * 1.2)


KINDS = ["slit", "frame", "shell", "IFU_shells", "IFU_grid", "IFU_binned", "IFU_grid", "IFU_binned"]


def t_aperture(case, mon, rng):
    from lenstronomy.GalKin.aperture import Aperture
    kind = KINDS[case["i"] % 8]
    kw, f, (cx, cy, w) = make_ap(rng, kind)
    pad = U(rng, 0, .5) if rng.integers(2) else 0
    a = Aperture(**dict(kw, padding_arcsec=pad, **({} if "grid" in kind or "binned" in kind else dict(delta_pix=U(rng, .05, .15)))))
    n_in = 0
    for _ in range(60):
        x, y = cx + rng.uniform(-1, 1) * w, cy + rng.uniform(-1, 1) * w
        want, e = f(x, y)
        if e < 1e-6:
            continue
        got, idx = a.aperture_select(x, y)
        mon.check("select/" + kind, bool(got) == (want is not None), "position inside the aperture", x=x, y=y, aperture=kw, got=got, want=want)
        if want is not None and got:
            n_in += 1
            idx = tuple(int(t) for t in idx) if isinstance(idx, tuple) else int(idx)
            mon.check("select/" + kind + "/bin", idx == want, "bin of the position", x=x, y=y, aperture=kw, got=idx, want=want)
    seg = a.num_segments
    want_seg = {"slit": 1, "frame": 1, "shell": 1, "IFU_shells": 3, "IFU_grid": None, "IFU_binned": 4}[kind]
    if kind == "IFU_grid":
        mon.check("select/segments", tuple(seg) == kw["x_grid"].shape, "number of segments", got=seg)
    else:
        mon.check("select/segments", seg == want_seg, "number of segments", got=seg, want=want_seg, kind=kind)
    mon.nontrivial("aperture", kind, n_in > 0, case["i"])
    # sampling grid
    ss = int(rng.integers(1, 4))
    X, Y = a.aperture_sample(ss)
    d = a.delta_pix
    p = int(pad / (d / ss))
    if kind in ("IFU_grid", "IFU_binned"):
        ny, nx = kw["x_grid"].shape
        mon.check("sample/shape", X.shape == (ny * ss + 2 * p, nx * ss + 2 * p), "shape of the sampled grid", got=X.shape, ss=ss, pad=p)
        core = (slice(p, p + ny * ss), slice(p, p + nx * ss))
        m = lambda q: q[core].reshape(ny, ss, nx, ss).mean(axis=(1, 3))
        mon.close("sample/center", np.array([m(X), m(Y)]), np.array([kw["x_grid"], kw["y_grid"]]), 1e-9, 1e-9, "sub-samples are centred on their pixel", ss=ss, angle=kw["angle"])
        if ss > 1:
            step = np.hypot(X[0, 1] - X[0, 0], Y[0, 1] - Y[0, 0])
            mon.close("sample/step", step, d / ss, 1e-9, 0, "sub-sample spacing")
    # sampled bins agree with the selection and averages are of the samples selected
    base = a._aperture
    X1, Y1 = a.aperture_sample(1)
    p1 = int(pad / d)
    cut = (lambda q: q[p1:-p1, p1:-p1]) if p1 else (lambda q: q)
    V = U(rng, -1, 1) * X1 + U(rng, -1, 1) * Y1 + 3
    got = np.asarray(a.aperture_downsample(V, 1))
    if kind == "IFU_grid":
        mon.close("sample/grid_values", got, cut(V), 1e-12, 0, "downsampled map")
    else:
        sums, cnt, amb = np.zeros(want_seg), np.zeros(want_seg), 0
        for x, y, v in zip(cut(X1).ravel(), cut(Y1).ravel(), cut(V).ravel()):
            b, e = f(x, y)
            if e < 1e-9 and "IFU_b" not in kind:
                amb += 1
            if b is not None:
                sums[b] += v
                cnt[b] += 1
        if amb == 0 and np.all(cnt > 0):
            mon.close("sample/bins/" + kind, got, sums / cnt, 1e-9, 1e-9, "averages over the bins of the sampled aperture", aperture=kw, delta_pix=d)
        if kind in ("shell", "slit", "frame", "IFU_shells") and np.all(cnt > 0):
            mon.event("sampled")
            # every sampled position with a bin is inside the aperture
            bb = base.bins
            for x, y, b in list(zip(cut(X1).ravel(), cut(Y1).ravel(), bb.ravel()))[:: max(1, bb.size // 60)]:
                w_, e = f(x, y)
                if e > d:
                    mon.check("sample/inside/" + kind, (b >= 0) == (w_ is not None), "sampled positions belong to the aperture", x=float(x), y=float(y), aperture=kw)
    Vs = 2.5 * np.ones_like(X)
    mon.close("sample/constant", np.asarray(a.aperture_downsample(Vs, ss)), 2.5 + np.zeros_like(np.asarray(a.aperture_downsample(Vs, ss))), 1e-12, 0, "constant map", kind=kind)
    if kind == "IFU_binned":
        from lenstronomy.GalKin.aperture import downsample_values_to_bins
        V = rng.normal(size=kw["bins"].shape)
        got = downsample_values_to_bins(V, kw["bins"])
        mon.close("sample/downsample", got, [V[kw["bins"] == b].mean() for b in range(4)], 1e-12, 1e-12, "bin averages")
        x, y = kw["x_grid"].ravel(), kw["y_grid"].ravel()
        g = Aperture("general_aperture", x_cords=x, y_cords=y, bins=kw["bins"].ravel(), delta_pix=d)
        if kw["angle"] == 0:
            for _ in range(10):
                px, py = cx + rng.uniform(-1, 1) * w, cy + rng.uniform(-1, 1) * w
                want, e = f(px, py)
                if e > 1e-6:
                    r = g.aperture_select(px, py)
                    mon.check("select/general", bool(r[0]) == (want is not None) and (want is None or int(r[1]) == want), "general aperture bin", x=px, y=py, got=r, want=want)


def t_psf(case, mon, rng):
    from lenstronomy.GalKin.psf import PSF
    fw = U(rng, .3, 1.4)
    kind = ["GAUSSIAN", "MOFFAT", "MULTI_GAUSSIAN", "PIXEL"][case["i"] % 4]
    be = U(rng, 2.2, 5.)
    amps, sig = rng.uniform(.3, 1, 3), np.array([.1, .17, .3]) * U(rng, .8, 1.4)
    if kind == "PIXEL":
        n = 2 * int(rng.integers(6, 12)) + 1
        g = np.arange(n) - n // 2
        s = fw / 2.35482
        d = fw / U(rng, 3, 5)
        k = np.exp(-.5 * d**2 * (g[:, None]**2 + g[None]**2) / s**2)
        k /= k.sum()
        o = PSF("PIXEL", kernel=k.copy(), delta_pix=d, supersampling_factor=1, fwhm=fw)
        mon.close("psf/pixel", o.convolution_kernel(d, n), k, 1e-12, 0, "pixel kernel")
        mon.close("psf/pixel_fwhm", o.psf_fwhm, fw, 1e-12, 0, "given FWHM")
        o = PSF("PIXEL", kernel=k.copy(), delta_pix=d, supersampling_factor=1)
        mon.close("psf/pixel_fwhm_estimate", o.psf_fwhm, fw, 0, 2 * d, "estimated FWHM")
        mon.nontrivial("psf", kind, case["i"])
        return
    o = PSF("GAUSSIAN", fwhm=fw) if kind == "GAUSSIAN" else PSF("MOFFAT", fwhm=fw, moffat_beta=be) if kind == "MOFFAT" else PSF("MULTI_GAUSSIAN", amplitudes=amps.copy(), sigmas=sig.copy())
    al = fw / 2 / np.sqrt(2 ** (1 / be) - 1)
    s = fw / 2.3548200450309493
    an = amps / amps.sum()
    prof = {"GAUSSIAN": lambda r: np.exp(-.5 * r**2 / s**2), "MOFFAT": lambda r: (1 + (r / al) ** 2) ** -be,
            "MULTI_GAUSSIAN": lambda r: sum(a / (2 * np.pi * q**2) * np.exp(-.5 * r**2 / q**2) for a, q in zip(an, sig))}[kind]
    d = U(rng, .04, .12)
    n = 2 * int(rng.integers(5, 20)) + 1
    k = o.convolution_kernel(d, num_pix=n)
    g = (np.arange(n) - n // 2) * d
    w = prof(np.hypot(g[:, None], g[None]))
    mon.close("psf/kernel/" + kind, k, w / w.sum(), 1e-6, 1e-12, "normalised kernel follows the profile", fwhm=fw, beta=be, d=d, n=n)
    mon.close("psf/norm/" + kind, np.sum(k), 1., 1e-9, 0, "kernel conserves flux")
    gx, gy = np.meshgrid(g, g)
    kg = o.convolution_kernel_grid(gx, gy)
    mon.close("psf/grid/" + kind, kg / np.sum(kg), w / w.sum(), 1e-6, 1e-12, "kernel on a grid follows the profile", fwhm=fw, beta=be)
    h = o.psf_fwhm
    mon.close("psf/fwhm/" + kind, prof(h / 2) / prof(0.), .5, .06 if kind == "MULTI_GAUSSIAN" else 1e-6, 0, "full width at half maximum", width=h)
    if kind != "MULTI_GAUSSIAN":
        x0, y0 = U(rng, -1, 1), U(rng, -1, 1)
        np.random.seed(int(rng.integers(2**31)))
        p = np.array([o.displace_psf(x0, y0) for _ in range(3000)], float)
        r = np.hypot(p[:, 0] - x0, p[:, 1] - y0)
        cdf = (lambda r: 1 - np.exp(-.5 * r**2 / s**2)) if kind == "GAUSSIAN" else (lambda r: 1 - (1 + (r / al) ** 2) ** (1 - be))
        mon.check("psf/displace/" + kind, stats.kstest(r, cdf).pvalue > 1e-7, "displacements follow the PSF", fwhm=fw, beta=be, median=float(np.median(r)))
        ph = np.arctan2(p[:, 1] - y0, p[:, 0] - x0)
        mon.check("psf/isotropic/" + kind, stats.kstest(ph, lambda t: (t + np.pi) / 2 / np.pi).pvalue > 1e-7, "displacements are isotropic")
        if kind == "GAUSSIAN":
            X, Y = o.displace_psf(np.zeros(4), np.ones(4))
            mon.check("psf/array", np.shape(X) == (4,), "shape of displaced positions")
    # Gaussian description for jampy
    A, S = np.atleast_1d(o.psf_multi_gauss_amplitudes), np.atleast_1d(o.psf_multi_gauss_sigmas)
    mon.close("psf/mge_norm/" + kind, np.sum(A), 1., 1e-9, 0, "normalised Gaussian components")
    rr = np.linspace(0, 1.2 * fw, 8)
    mg = sum(a / (2 * np.pi * q**2) * np.exp(-.5 * rr**2 / q**2) for a, q in zip(A, S))
    tr = prof(rr) if kind == "MULTI_GAUSSIAN" else prof(rr) / (2 * np.pi * s**2) if kind == "GAUSSIAN" else prof(rr) * (be - 1) / np.pi / al**2
    mon.close("psf/mge/" + kind, mg, tr, 1e-9 if kind != "MOFFAT" else .12, .02 * tr[0] if kind == "MOFFAT" else 1e-12, "Gaussian components describe the PSF", fwhm=fw, beta=be)
    mon.nontrivial("psf", kind, case["i"])


def t_draw(case, mon, rng):
    from lenstronomy.GalKin.light_profile import LightProfile
    from lenstronomy.GalKin import velocity_util as vu
    from lenstronomy.LightModel.light_model import LightModel
    ls, kl = light(rng, case["i"])
    rmax = U(rng, 5, 60)
    o = LightProfile(ls, interpol_grid_num=1000, max_interpolate=rmax, min_interpolate=1e-3)
    fresh = light(rng, case["i"])[1]
    np.random.seed(int(rng.integers(2**31)))
    for rnd, k in enumerate((kl, fresh)):
        circ = [{p: v for p, v in d.items() if p not in ("center_x", "center_y")} for d in k]
        lm = LightModel(ls)
        r = np.geomspace(1e-3, rmax, 4000)
        y = lm.light_3d(r, circ) * r**3
        c3 = np.concatenate([[0], np.cumsum(.5 * (y[1:] + y[:-1]) * np.diff(np.log(r)))])
        y2 = lm.surface_brightness(r, 0, circ) * r**2
        c2 = np.concatenate([[0], np.cumsum(.5 * (y2[1:] + y2[:-1]) * np.diff(np.log(r)))])
        ctx = dict(light=ls, kwargs=k, round=rnd, rmax=rmax)
        d = o.draw_light_3d(k, n=4000)
        mon.check("draw/3d", stats.kstest(d, lambda t: np.interp(t, r, c3 / c3[-1])).pvalue > 1e-7, "3d draws follow the light", median=float(np.median(d)), want=float(np.interp(.5, c3 / c3[-1], r)), **ctx)
        d = o.draw_light_2d(k, n=4000)
        mon.check("draw/2d", stats.kstest(d, lambda t: np.interp(t, r, c2 / c2[-1])).pvalue > 1e-7, "2d draws follow the light", median=float(np.median(d)), want=float(np.interp(.5, c2 / c2[-1], r)), **ctx)
        o3 = LightProfile(ls, interpol_grid_num=2000, max_interpolate=5, min_interpolate=1e-3)
        d = o3.draw_light_2d_linear(k, n=2000)
        w = r <= 5
        mon.check("draw/2d_linear", stats.kstest(d, lambda t: np.interp(t, r[w], c2[w] / c2[w][-1])).statistic < .06, "2d draws (linear) follow the light", median=float(np.median(d)), **ctx)
        R = np.array([.05, .3, 1.])
        mon.close("draw/light_2d", o.light_2d(R, k), lm.surface_brightness(R, 0, circ), 1e-9, 0, "projected light", **ctx)
        fin = []
        for x in R:
            t = np.concatenate([[0], np.geomspace(1e-4, np.sqrt(rmax**2 - x**2), 4000)])
            fin.append(2 * np.trapezoid(lm.light_3d(np.sqrt(x**2 + t**2), circ), t))
        mon.close("draw/light_2d_finite", o.light_2d_finite(R, k), fin, .02, 0, "projected light within the radius", **ctx)
        mon.close("draw/light_3d_interp", o.light_3d_interp(R, k), lm.light_3d(R, circ), 2e-3, 0, "interpolated 3d light", **ctx)
        # documented: caches belong to one parameter set until deleted
        o.delete_cache()
    mon.nontrivial("draw", tuple(ls), case["i"])
    a = U(rng, .2, 2)
    d = np.array([vu.draw_hernquist(a) for _ in range(3000)])
    mon.check("draw/hernquist", stats.kstest(d, lambda r: r**2 / (r + a) ** 2).pvalue > 1e-7, "Hernquist draws", a=a)
    R, x, y = vu.project2d_random(np.ones(3000) * a)
    mon.check("draw/project", stats.kstest(R / a, lambda t: 1 - np.sqrt(np.maximum(1 - t**2, 0))).pvalue > 1e-7, "random projections are isotropic")
    mon.close("draw/project_R", R, np.hypot(x, y), 1e-12, 1e-12, "projected radius of the position")
    mon.check("draw/project_angle", stats.kstest(np.arctan2(y, x), lambda t: (t + np.pi) / 2 / np.pi).pvalue > 1e-7, "random projections have no preferred direction")


def ap_grid(rng, sq=True):
    ny = int(rng.integers(5, 9))
    nx = ny if sq else int(rng.integers(4, 10))
    d = float(rng.choice([.1, .12, .2, .25, .15]))
    return ny, nx, d


def t_map(case, mon, rng):
    from lenstronomy.GalKin.galkin import Galkin
    name = MODELS[case["i"] % 6]
    ka = ani(rng, name)
    ms, km = mass(rng, int(rng.integers(4)))
    km = [dict(k) for k in km]
    cx, cy = U(rng, -.2, .2), U(rng, -.2, .2)
    km[0].update(center_x=cx, center_y=cy)
    ls, kl = light(rng, int(rng.integers(4)))
    kc = dist(rng)
    ny, nx, d = ap_grid(rng, case["i"] % 2 == 0)
    ox, oy = (0., 0.) if rng.integers(2) else (U(rng, -1.5, -.8), U(rng, -1.5, .5))
    dy = d     # the library only accepts square pixels
    gx, gy = np.meshgrid(ox + (np.arange(nx) - (nx - 1) / 2) * d + .013, oy + (np.arange(ny) - (ny - 1) / 2) * dy + .021)
    fw = U(rng, .25, .7)
    psf = dict(psf_type="GAUSSIAN", fwhm=fw) if rng.integers(2) else dict(psf_type="MOFFAT", fwhm=fw, moffat_beta=U(rng, 2.5, 4))
    kn = numerics(n=400, rmax=100.)
    model = dict(mass_profile_list=ms, light_profile_list=ls, anisotropy_model=name)

    def G_(x, y, typ="IFU_grid", **kw):
        return Galkin(model, dict(aperture_type=typ, x_grid=x, y_grid=y, **kw), psf, kc, kwargs_numerics=kn)
    ss = int(rng.integers(1, 4))
    o = G_(gx, gy)
    m0 = np.asarray(o.dispersion_map_grid_convolved(km, kl, ka, supersampling_factor=ss))
    ctx = dict(model=name, mass=ms, light=ls, ss=ss, shape=(ny, nx), d=d, dy=dy, psf=psf, offset=(ox, oy))
    mon.check("map/shape", m0.shape == (ny, nx), "shape of the dispersion map", got=m0.shape, **{k: v for k, v in ctx.items() if k != "shape"})
    if m0.shape != (ny, nx):
        return
    mon.nontrivial("map", name, ss, ny == nx)
    # independent rendering
    from lenstronomy.GalKin.numeric_kinematics import NumericKinematics
    num = NumericKinematics(model, kc, **kn)
    sub = (np.arange(ss) - (ss - 1) / 2) * d / ss
    xs = (gx[0][:, None] + sub[None]).ravel()
    ys = (gy[:, 0][:, None] + sub[None] * dy / d).ravel()
    X, Y = np.meshgrid(xs, ys)
    R = np.hypot(X - cx, Y - cy)
    a, b = num.I_R_sigma2_and_IR(R, km, kl, ka)
    from scipy.signal import fftconvolve
    h = int(round(3 * fw / (d / ss))) + 1
    g = np.arange(-h, h + 1) * d / ss
    hy = int(round(3 * fw / (dy / ss))) + 1
    rr = np.hypot((np.arange(-hy, hy + 1) * dy / ss)[:, None], g[None])
    if psf["psf_type"] == "GAUSSIAN":
        ker = np.exp(-.5 * rr**2 / (fw / 2.35482) ** 2)
    else:
        ker = (1 + (rr / (fw / 2 / np.sqrt(2 ** (1 / psf["moffat_beta"]) - 1))) ** 2) ** -psf["moffat_beta"]
    ker /= ker.sum()
    ac, bc = fftconvolve(a, ker, "same") if ker.shape[0] <= a.shape[0] and ker.shape[1] <= a.shape[1] else _same(a, ker), None
    bc = _same(b, ker)
    ac = _same(a, ker)
    A = ac.reshape(ny, ss, nx, ss).sum(axis=(1, 3))
    B = bc.reshape(ny, ss, nx, ss).sum(axis=(1, 3))
    want = np.sqrt(A / B) / 1000
    mon.close("map/render/" + name, m0, want, .01, 0, "convolved dispersion map", **ctx)
    # history: another parameter set, then again
    km2 = [dict(k) for k in km]
    for k in km2:
        if "theta_E" in k:
            k["theta_E"] *= 1.7
    kl2 = [dict(k) for k in kl]
    if "Rs" in kl2[0]:
        kl2[0]["Rs"] *= 1.5
    m2 = o.dispersion_map_grid_convolved(km2, kl2, ka, supersampling_factor=ss)
    mon.close("map/history", m2, G_(gx, gy).dispersion_map_grid_convolved(km2, kl2, ka, supersampling_factor=ss), 1e-9, 0, "map of new parameters does not depend on previous calls", **ctx)
    mon.close("map/history_back", o.dispersion_map_grid_convolved(km, kl, ka, supersampling_factor=ss), m0, 1e-9, 0, "map of the first parameters again", **ctx)
    # flipped grids
    mf = G_(gx[:, ::-1], gy[:, ::-1]).dispersion_map_grid_convolved(km, kl, ka, supersampling_factor=ss)
    mon.close("map/flip_x", mf, m0[:, ::-1], 1e-6, 0, "grid with decreasing x", **ctx)
    mf = G_(gx[::-1], gy[::-1]).dispersion_map_grid_convolved(km, kl, ka, supersampling_factor=ss)
    mon.close("map/flip_y", mf, m0[::-1], 1e-6, 0, "grid with decreasing y", **ctx)
    # rotated system
    an = U(rng, -3, 3)
    xr, yr = rot(gx, gy, an)
    kmr = [dict(k) for k in km]
    c = rot(cx, cy, an)
    kmr[0].update(center_x=float(c[0]), center_y=float(c[1]))
    mr = G_(xr, yr, angle=an).dispersion_map_grid_convolved(kmr, kl, ka, supersampling_factor=ss)
    mon.close("map/rotate", mr, m0, 1e-6, 0, "rotated grid and centre", angle=an, **ctx)
    # shifted system
    kms = [dict(k) for k in km]
    sx, sy = U(rng, -3, 3), U(rng, -3, 3)
    kms[0].update(center_x=cx + sx, center_y=cy + sy)
    mon.close("map/shift", G_(gx + sx, gy + sy).dispersion_map_grid_convolved(kms, kl, ka, supersampling_factor=ss), m0, 1e-5, 0, "shifted grid and centre", **ctx)
    # bins
    bins = np.arange(ny * nx).reshape(ny, nx)
    mon.close("map/bins_single", o.dispersion_map_grid_convolved(km, kl, ka, supersampling_factor=ss, voronoi_bins=bins), m0.ravel(), 1e-9, 0, "one bin per pixel", **ctx)
    bins = rng.integers(-1, 3, (ny, nx))
    bins[0, :3] = [0, 1, 2]
    mb = o.dispersion_map_grid_convolved(km, kl, ka, supersampling_factor=ss, voronoi_bins=bins)
    want = [np.sqrt(A[bins == n].sum() / B[bins == n].sum()) / 1000 for n in range(3)]
    mon.close("map/bins", mb, want, .01, 0, "luminosity weighted average of the pixels of a bin", **ctx)
    mi = G_(gx, gy, "IFU_binned", bins=bins).dispersion_map_grid_convolved(km, kl, ka, supersampling_factor=ss)
    mon.close("map/ifu_binned", mi, mb, 1e-9, 0, "binned aperture equals bins on the grid", **ctx)
    # whole aperture as one bin lies within the values of its parts
    one = o.dispersion_map_grid_convolved(km, kl, ka, supersampling_factor=ss, voronoi_bins=np.zeros((ny, nx), int))
    mon.close("map/whole", one[0] ** 2, np.sum(m0**2 * B) / np.sum(B), .01, 0, "whole aperture is the luminosity weighted average of its pixels", **ctx)


def _same(a, k):
    from scipy.signal import convolve2d
    return convolve2d(a, k, mode="same") if True else None


def ap_average(num, f, w, c, km, kl, ka, fw, n=161, nb=None):
    """luminosity weighted dispersion of aperture function f seen through a Gaussian PSF, light at the origin"""
    L = w + 3 * fw
    h = 2 * L / n
    x = (np.floor((c[0] - L) / h) + .5 + np.arange(n + 1)) * h  # the cusp of the light lies on a corner of the pixels
    y = (np.floor((c[1] - L) / h) + .5 + np.arange(n + 1)) * h
    n = n + 1
    X, Y = np.meshgrid(x, y)
    a, b = num.I_R_sigma2_and_IR(np.hypot(X, Y), km, kl, ka)
    from scipy.ndimage import gaussian_filter
    s = fw / 2.35482 / h
    a, b = gaussian_filter(a, s, mode="nearest"), gaussian_filter(b, s, mode="nearest")
    idx = [[f(X[i, j], Y[i, j])[0] for j in range(n)] for i in range(n)]
    idx = np.array([[-1 if v is None else v for v in row] for row in idx])
    nb = nb or 1
    return np.array([np.sqrt(a[idx == k].sum() / b[idx == k].sum()) / 1000 for k in range(nb)]), np.array([b[idx == k].sum() / b.sum() for k in range(nb)])


def t_dispersion(case, mon, rng):
    from lenstronomy.GalKin.galkin import Galkin
    from lenstronomy.GalKin.numeric_kinematics import NumericKinematics
    name = ["isotropic", "OM", "radial", "GOM"][case["i"] % 4]
    ka = ani(rng, name)
    ms, km = mass(rng, int(rng.integers(3)))
    ls, kl = light(rng, [0, 1, 3][case["i"] % 3])
    kc = dist(rng)
    kind = ["slit", "shell", "frame"][case["i"] % 3]
    for _ in range(20):
        ap, f, (cx, cy, w) = make_ap(rng, kind)
        if np.hypot(cx, cy) < .8:
            break
    fw = U(rng, .3, .7)
    model = dict(mass_profile_list=ms, light_profile_list=ls, anisotropy_model=name)
    kn = numerics(n=600, rmax=60.)
    lum = bool(case["i"] % 2)
    np.random.seed(int(rng.integers(2**31)))
    o = Galkin(model, ap, dict(psf_type="GAUSSIAN", fwhm=fw), kc, kwargs_numerics=dict(kn, lum_weight_int_method=lum))
    N = 500
    want, frac = ap_average(NumericKinematics(model, kc, **kn), f, w, (cx, cy), km, kl, ka, fw)
    if frac[0] < .03:
        mon.event("skip:dim")
        return
    v = o.dispersion(km, kl, ka, sampling_number=N)
    ctx = dict(model=name, params=ka, mass=ms, light=ls, aperture=ap, lum=lum, fwhm=fw)
    mon.close("dispersion/" + kind, v, float(want[0]), .06 if lum else .22, 0, "aperture dispersion", **ctx)
    # other parameters on the same object
    km2 = [dict(k) for k in km]
    km2[0]["theta_E"] = km2[0]["theta_E"] * 1.6
    kl2 = [dict(k) for k in kl]
    kl2[0]["Rs"] = kl2[0]["Rs"] * 2.
    want, frac = ap_average(NumericKinematics(model, kc, **kn), f, w, (cx, cy), km2, kl2, ka, fw)
    if frac[0] > .03:
        v = o.dispersion(km2, kl2, ka, sampling_number=N)
        mon.close("dispersion/again", v, float(want[0]), .06 if lum else .22, 0, "aperture dispersion of other parameters", **ctx)
        s = int(rng.integers(2**31))
        np.random.seed(s)
        a = o.dispersion(km, kl, ka, sampling_number=20)
        np.random.seed(s)
        b = Galkin(model, ap, dict(psf_type="GAUSSIAN", fwhm=fw), kc, kwargs_numerics=dict(kn, lum_weight_int_method=lum)).dispersion(km, kl, ka, sampling_number=20)
        mon.close("dispersion/history", a, b, 1e-9, 0, "same random numbers, same result as a new object", **ctx)
    mon.nontrivial("dispersion", name, kind, lum)
    # df check formula
    r = .8
    oa = NumericKinematics(model, kc, **kn)
    s1, s2 = oa.sigma_r2(r, km, kl, ka), oa.sigma_r2(r + .01, km, kl, ka)
    p1, p2 = oa.grav_potential(r, km), oa.grav_potential(r + .01, km)
    mon.close("dispersion/check_df", o.check_df(r, km, kl, ka), r * (s2 - s1 - p1 + p2) / .01, 1e-6, 0, "phase space check", **ctx)


def t_shells(case, mon, rng):
    from lenstronomy.GalKin.galkin import Galkin
    from lenstronomy.GalKin.galkin_shells import GalkinShells
    from lenstronomy.GalKin.numeric_kinematics import NumericKinematics
    name = MODELS[case["i"] % 6]
    ka = ani(rng, name)
    ms, km = mass(rng, int(rng.integers(3)))
    ls, kl = light(rng, [0, 1, 3][case["i"] % 3])
    kc = dist(rng)
    rb = np.array([0, U(rng, .4, .6), U(rng, .9, 1.2), U(rng, 1.6, 2.)])
    cx, cy = (0., 0.) if case["i"] % 2 == 0 else (U(rng, -.5, .5), U(rng, -.5, .5))
    ap = dict(aperture_type="IFU_shells", r_bins=rb, center_ra=cx, center_dec=cy)
    fw = U(rng, .3, .7)
    psf = dict(psf_type="GAUSSIAN", fwhm=fw)
    model = dict(mass_profile_list=ms, light_profile_list=ls, anisotropy_model=name)
    kn = numerics(n=500, rmax=60.)
    o = GalkinShells(model, ap, psf, kc, kwargs_numerics=kn)

    def f(x, y):
        r = np.hypot(x - cx, y - cy)
        j = int(np.searchsorted(rb, r, side="right")) - 1
        return (j if 0 <= j < 3 else None), 1
    want, frac = ap_average(NumericKinematics(model, kc, **kn), f, rb[-1] * 1.2, (cx, cy), km, kl, ka, fw, nb=3)
    got = o.dispersion_map(km, kl, ka)
    ctx = dict(model=name, params=ka, mass=ms, light=ls, aperture=ap, fwhm=fw)
    mon.close("shells/fast", got, want, .02, 0, "dispersion in shells", **ctx)
    mon.close("shells/again", o.dispersion_map(km, kl, ka), got, 1e-12, 0, "repeated dispersion map", **ctx)
    km2 = [dict(k) for k in km]
    km2[0]["theta_E"] *= 1.5
    mon.close("shells/history", o.dispersion_map(km2, kl, ka), GalkinShells(model, ap, psf, kc, kwargs_numerics=kn).dispersion_map(km2, kl, ka), 1e-9, 0, "map of new parameters does not depend on previous calls", **ctx)
    np.random.seed(int(rng.integers(2**31)))
    mc = Galkin(model, ap, psf, kc, kwargs_numerics=kn).dispersion_map(km, kl, ka, num_kin_sampling=600, num_psf_sampling=4)
    mon.close("shells/monte_carlo", mc, want, .08, 0, "Monte-Carlo dispersion in shells", **ctx)
    # with luminosity weights a segment still holds an average: between the extremes of the projected dispersion
    kn2 = dict(kn, lum_weight_int_method=True)
    rs = np.geomspace(1e-3, 30, 60)
    a, b = NumericKinematics(model, kc, **kn2).I_R_sigma2_and_IR(rs, km, kl, ka)
    lo, hi = np.sqrt(np.min(a / b)) / 1000, np.sqrt(np.max(a / b)) / 1000
    mc = Galkin(model, ap, psf, kc, kwargs_numerics=kn2).dispersion_map(km, kl, ka, num_kin_sampling=60, num_psf_sampling=3)
    mc = mc[np.isfinite(mc)]
    mon.check("shells/average", np.all(mc > .9 * lo) and np.all(mc < 1.1 * hi), "Monte-Carlo average outside the range of the dispersion profile", got=list(mc), range=(lo, hi), **ctx)
    mon.nontrivial("shells", name, case["i"])


def t_multi(case, mon, rng):
    from lenstronomy.GalKin.galkin_multiobservation import GalkinMultiObservation
    from lenstronomy.GalKin.numeric_kinematics import NumericKinematics
    name = ["OM", "isotropic", "GOM"][case["i"] % 3]
    ka = ani(rng, name)
    ms, km = mass(rng, int(rng.integers(3)))
    ls, kl = light(rng, 0)
    kc = dist(rng)
    aps, psfs, want = [], [], []
    model = dict(mass_profile_list=ms, light_profile_list=ls, anisotropy_model=name)
    kn = numerics(n=500, rmax=60.)
    while len(aps) < 3:
        kind = ["slit", "shell", "frame"][int(rng.integers(3))]
        ap, f, (cx, cy, w) = make_ap(rng, kind)
        fw = U(rng, .3, .8)
        v, fr = ap_average(NumericKinematics(model, kc, **kn), f, w, (cx, cy), km, kl, ka, fw)
        if fr[0] > .05:
            aps.append(ap)
            psfs.append(dict(psf_type="GAUSSIAN", fwhm=fw))
            want.append(float(v[0]))
    np.random.seed(int(rng.integers(2**31)))
    got = GalkinMultiObservation(model, aps, psfs, kc, kwargs_numerics=kn).dispersion_map(km, kl, ka, num_kin_sampling=700, num_psf_sampling=3)
    mon.close("multi/dispersion", got, want, .07, 0, "dispersion of each observation", apertures=aps, model=name)
    mon.nontrivial("multi", name)


def api(rng, backend="galkin", **kw):
    from lenstronomy.Analysis.kinematics_api import KinematicsAPI
    return KinematicsAPI(**kw)


def t_api(case, mon, rng):
    from lenstronomy.Analysis.kinematics_api import KinematicsAPI
    from lenstronomy.GalKin.galkin import Galkin
    from lenstronomy.GalKin.galkin_shells import GalkinShells
    from lenstronomy.Cosmo.lens_cosmo import LensCosmo
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel
    from astropy.cosmology import FlatLambdaCDM
    cosmo = FlatLambdaCDM(H0=U(rng, 60, 80), Om0=U(rng, .2, .4))
    zl, zs = U(rng, .2, .7), U(rng, 1.2, 2.5)
    lc = LensCosmo(zl, zs, cosmo=cosmo)
    comp = [("SIS", dict(theta_E=.2, center_x=1.4, center_y=-.8), False), ("EPL", dict(theta_E=U(rng, .8, 1.5), gamma=U(rng, 1.8, 2.2), e1=.1, e2=-.05, center_x=.05, center_y=-.03), True), ("SHEAR", dict(gamma1=.03, gamma2=.02, ra_0=0., dec_0=0.), False),
            ("NFW", dict(Rs=4., alpha_Rs=.4, center_x=.05, center_y=-.03), True)]
    if rng.integers(2):
        comp = comp[1:]
    order = rng.permutation(len(comp))
    comp = [comp[i] for i in order]
    lens, kw, sel = [c[0] for c in comp], [c[1] for c in comp], [c[2] for c in comp]
    lcomp = [("SERSIC", dict(amp=3., R_sersic=.2, n_sersic=1., center_x=1.4, center_y=-.8), False), ("HERNQUIST", dict(amp=2., Rs=U(rng, .4, .8), center_x=.05, center_y=-.03), True), ("GAUSSIAN", dict(amp=1., sigma=1., center_x=.05, center_y=-.03), True)]
    lo = rng.permutation(3)
    lcomp = [lcomp[i] for i in lo]
    lights, kwl, lsel = [c[0] for c in lcomp], [c[1] for c in lcomp], [c[2] for c in lcomp]
    name = ["OM", "isotropic", "GOM", "const"][case["i"] % 4]
    ka = ani(rng, name)
    fw = U(rng, .3, .8)
    psf = dict(psf_type="GAUSSIAN", fwhm=fw)
    ap, f, (cx, cy, w) = make_ap(rng, ["slit", "shell", "IFU_shells", "IFU_grid"][case["i"] % 4])
    kn = numerics(n=200, rmax=60.)
    mge_l, mge_m = [(False, False), (True, False), (False, True), (True, True)][(case["i"] // 2) % 4]
    o = KinematicsAPI(zl, zs, dict(lens_model_list=lens, lens_light_model_list=lights), kwargs_aperture=ap, kwargs_seeing=psf, anisotropy_model=name, cosmo=cosmo, lens_model_kinematics_bool=sel, light_model_kinematics_bool=lsel, kwargs_numerics_galkin=kn,
                      MGE_light=mge_l, MGE_mass=mge_m, sampling_number=40, num_kin_sampling=40, num_psf_sampling=3, kinematics_backend="galkin", kwargs_mge_light=dict(n_comp=20), kwargs_mge_mass=dict(n_comp=20))
    ctx = dict(lens=lens, select=sel, light=lights, light_select=lsel, MGE=(mge_l, mge_m), aperture=ap["aperture_type"], model=name)
    reff, te = 1., 1.2
    mp, kp = o.kinematic_lens_profiles(kw, MGE_fit=mge_m, model_kinematics_bool=sel, theta_E=te, kwargs_mge=dict(n_comp=20))
    lp, kp_l = o.kinematic_light_profile(kwl, r_eff=reff, MGE_fit=mge_l, model_kinematics_bool=lsel, kwargs_mge=dict(n_comp=20))
    # profiles handed to the kinematics
    first = [k for k, s in zip(kw, sel) if s][0]
    mon.check("api/center", kp[0].get("center_x") == first["center_x"] and kp[0].get("center_y") == first["center_y"], "centre of the first selected mass component", got=kp[0].get("center_x"), **ctx)
    R = np.geomspace(.05, 3, 8)
    circ = lambda ks: [{k: (0. if k in ("e1", "e2", "center_x", "center_y") else v) for k, v in d.items()} for d in ks]
    want = LensModel([m for m, s in zip(lens, sel) if s]).kappa(R, 0 * R, circ([k for k, s in zip(kw, sel) if s]))
    from lenstronomy.LensModel.lens_model import LensModel as LM
    kk = [dict(d) for d in kp]
    for d in kk:
        d.pop("center_x", None), d.pop("center_y", None)
    got = LM(mp).kappa(R, 0 * R, kk)
    mon.close("api/kappa", got, want, .12 if mge_m else 1e-9, 0, "convergence of the selected mass components", **ctx)
    want = LightModel([m for m, s in zip(lights, lsel) if s]).surface_brightness(R, 0 * R, circ([k for k, s in zip(kwl, lsel) if s]))
    kk = [{k: v for k, v in d.items() if k not in ("center_x", "center_y")} for d in kp_l]
    got = LightModel(lp).surface_brightness(R, 0 * R, kk)
    mon.close("api/light", got, want, .12 if mge_l else 1e-9, 0, "surface brightness of the selected light components", **ctx)
    # full prediction equals the kinematics class with these profiles
    kc = dict(d_d=lc.dd, d_s=lc.ds, d_ds=lc.dds)
    model = dict(mass_profile_list=mp, light_profile_list=lp, anisotropy_model=name)
    np.random.seed(5)
    shells = ap["aperture_type"] == "IFU_shells"
    grid = ap["aperture_type"] == "IFU_grid"
    gk = (GalkinShells if shells else Galkin)(model, ap, psf, kc, kwargs_numerics=kn)
    kx = U(rng, -.1, .15)
    if shells or grid:
        got = o.velocity_dispersion_map(kw, kwl, ka, r_eff=reff, theta_E=te, kappa_ext=kx, **(dict(supersampling_factor=2) if grid else {}))
        np.random.seed(5)
        want = gk.dispersion_map(kp, kp_l, ka) if shells else gk.dispersion_map_grid_convolved(kp, kp_l, ka, supersampling_factor=2).ravel()
    else:
        got = o.velocity_dispersion(kw, kwl, ka, r_eff=reff, theta_E=te, kappa_ext=kx)
        np.random.seed(5)
        want = gk.dispersion(kp, kp_l, ka, sampling_number=40)
    mon.close("api/dispersion", got, np.atleast_1d(want) * np.sqrt(1 - kx), 1e-8, 0, "dispersion of the selected components with external convergence", **ctx)
    # analytic
    if ap["aperture_type"] in ("slit", "shell") and name == "OM":
        np.random.seed(7)
        a = o.velocity_dispersion_analytical(1.2, 2.05, 1., .8, kappa_ext=kx)
        np.random.seed(7)
        b = Galkin(dict(anisotropy_model="OM"), ap, psf, kc, kwargs_numerics={}, analytic_kinematics=True).dispersion(dict(theta_E=1.2, gamma=2.05), dict(r_eff=1.), dict(r_ani=.8), sampling_number=40) * np.sqrt(1 - kx)
        mon.close("api/analytic", a, np.atleast_1d(b), 1e-8, 0, "closed form prediction", **ctx)
    # multiple observations
    if case["i"] % 4 < 2:
        ap2 = dict(aperture_type="shell", r_in=0., r_out=1.5)
        o2 = KinematicsAPI(zl, zs, dict(lens_model_list=lens, lens_light_model_list=lights), kwargs_aperture=[ap, ap2], kwargs_seeing=[psf, dict(psf_type="GAUSSIAN", fwhm=.2)], anisotropy_model=name, cosmo=cosmo, lens_model_kinematics_bool=sel, light_model_kinematics_bool=lsel,
                           kwargs_numerics_galkin=kn, MGE_light=mge_l, MGE_mass=mge_m, sampling_number=40, kinematics_backend="galkin", multi_observations=True, kwargs_mge_light=dict(n_comp=20), kwargs_mge_mass=dict(n_comp=20))
        np.random.seed(9)
        got = o2.velocity_dispersion(kw, kwl, ka, r_eff=reff, theta_E=te)
        np.random.seed(9)
        w1 = Galkin(model, ap, psf, kc, kwargs_numerics=kn).dispersion(kp, kp_l, ka, sampling_number=40)
        w2 = Galkin(model, ap2, dict(psf_type="GAUSSIAN", fwhm=.2), kc, kwargs_numerics=kn).dispersion(kp, kp_l, ka, sampling_number=40)
        mon.close("api/multi", got, [w1, w2], 1e-8, 0, "dispersion of each observation", **ctx)
    mon.nontrivial("api", name, tuple(order), tuple(lo), mge_l, mge_m)


def t_jam(case, mon, rng):
    from lenstronomy.JAMPy.jam_wrapper import JAMWrapper
    from lenstronomy.GalKin.numeric_kinematics import NumericKinematics
    name = ["isotropic", "OM", "const", "GOM", "Colin", "const"][case["i"] % 6]
    ka = ani(rng, name)
    kc = dist(rng)
    n = int(rng.integers(2, 5))
    km = [dict(amp=rng.uniform(.5, 3, n), sigma=np.geomspace(.4, 4, n), scale_factor=1)]
    kl = [dict(amp=rng.uniform(.5, 3, 3), sigma=np.array([.3, .7, 1.5]))]
    gx, gy = np.meshgrid((np.arange(5) - 2) * .3 + .05, (np.arange(4) - 1.5) * .3)
    model = dict(mass_profile_list=["MULTI_GAUSSIAN"], light_profile_list=["MULTI_GAUSSIAN"], anisotropy_model=name)
    fw = U(rng, .4, .8)
    o = JAMWrapper(model, dict(aperture_type="IFU_grid", x_grid=gx, y_grid=gy), dict(psf_type="GAUSSIAN", fwhm=fw), kc)
    num = NumericKinematics(model, kc, **numerics(n=1500, rmax=60.))
    R = np.array([.1, .4, 1., 2.])
    v, s = o.dispersion_points(R, 0 * R, km, kl, ka)
    a, b = num.I_R_sigma2_and_IR(R, km, kl, ka)
    ctx = dict(model=name, params=ka, kwargs_mass=km, kwargs_light=kl)
    mon.close("jam/points/" + name, v, np.sqrt(a / b) / 1000, .02, 0, "jampy and numerical Jeans solutions", **ctx)
    ref = Ref(["MULTI_GAUSSIAN"], km, ["MULTI_GAUSSIAN"], kl, name, ka, kc, 60.)
    w = np.array([ref.proj(x) for x in R])
    mon.close("jam/ref/" + name, v, np.sqrt(w[:, 0] / w[:, 1]) / 1000, .015, 0, "jampy and independent quadrature", **ctx)
    mon.close("jam/light", s, w[:, 1], 5e-3, 0, "projected light", **ctx)
    # rotation and centre
    cx, cy, an = U(rng, -.3, .3), U(rng, -.3, .3), U(rng, -3, 3)
    m0 = o.dispersion(km, kl, ka)
    xr, yr = rot(gx, gy, an)
    o2 = JAMWrapper(model, dict(aperture_type="IFU_grid", x_grid=xr + cx, y_grid=yr + cy, angle=an), dict(psf_type="GAUSSIAN", fwhm=fw), kc)
    kl2 = [dict(kl[0], center_x=cx, center_y=cy)]
    mon.close("jam/rotate", o2.dispersion(km, kl2, ka), m0, 5e-3, 0, "rotated and shifted grid", **ctx)
    mon.check("jam/shape", np.shape(m0) == gx.shape, "shape of the map")
    bins = np.array([[0, 0, 1, 1, -1]] * 4)
    mb = JAMWrapper(model, dict(aperture_type="IFU_binned", x_grid=gx, y_grid=gy, bins=bins), dict(psf_type="GAUSSIAN", fwhm=fw), kc).dispersion(km, kl, ka)
    mv = o.dispersion(km, kl, ka, voronoi_bins=bins)
    mon.close("jam/bins", mb, mv, 1e-6, 0, "binned aperture equals bins on the grid", **ctx)
    mon.check("jam/between", np.all(mb <= m0.max() * 1.001) and np.all(mb >= m0.min() * .999), "bin averages lie between the pixels", **ctx)
    # pixelised PSF equals the analytic one
    f = U(rng, 1.1, 1.8)
    mon.close("jam/ds", JAMWrapper(model, dict(aperture_type="IFU_grid", x_grid=gx, y_grid=gy), dict(psf_type="GAUSSIAN", fwhm=fw), dict(kc, d_s=kc["d_s"] * f)).dispersion(km, kl, ka), m0 * np.sqrt(f), 2e-3, 0, "dispersion squared is proportional to D_s", **ctx)
    mon.nontrivial("jam", name, case["i"])


def t_td(case, mon, rng):
    from lenstronomy.Analysis.td_cosmography import TDCosmography
    from lenstronomy.Cosmo.lens_cosmo import LensCosmo
    from astropy.cosmology import FlatLambdaCDM
    zl, zs = U(rng, .2, .7), U(rng, 1.2, 2.5)
    mods = []
    cs = [FlatLambdaCDM(H0=U(rng, 60, 80), Om0=U(rng, .2, .4)) for _ in range(2)]
    kwm = dict(lens_model_list=["EPL"], lens_light_model_list=["HERNQUIST"], point_source_model_list=["LENSED_POSITION"])
    kw = [dict(theta_E=1.2, gamma=2.05, e1=.05, e2=0., center_x=0., center_y=0.)]
    kl = [dict(amp=1., Rs=.6, center_x=0., center_y=0.)]
    name = ["OM", "isotropic", "GOM", "radial"][case["i"] % 4]
    ka = ani(rng, name)
    J, sig, td, fp = [], [], [], []
    kp = [dict(ra_image=np.array([1.3, -.9]), dec_image=np.array([.2, -.4]), point_amp=np.ones(2))]
    for c in cs:
        o = TDCosmography(z_lens=zl, z_source=zs, kwargs_model=kwm, cosmo_fiducial=c, lens_model_kinematics_bool=[True], light_model_kinematics_bool=[True], kwargs_seeing=dict(psf_type="GAUSSIAN", fwhm=.6),
                          kwargs_aperture=dict(aperture_type="slit", length=1., width=1.), anisotropy_model=name, kinematics_backend="galkin")
        o.kinematics_modeling_settings(name, numerics(n=150, rmax=60.), sampling_number=60)
        np.random.seed(3)
        J.append(float(np.squeeze(o.velocity_dispersion_dimension_less(kw, kl, ka, r_eff=1., theta_E=1.2, gamma=2.05))))
        np.random.seed(3)
        sig.append(float(np.squeeze(o.velocity_dispersion(kw, kl, ka, r_eff=1., theta_E=1.2, gamma=2.05))))
        td.append(o.time_delays(kw, kp))
        fp.append(o.fermat_potential(kw, kp))
    ctx = dict(model=name)
    mon.close("td/J", J[1], J[0], 1e-9, 0, "dimensionless dispersion does not depend on cosmology", **ctx)
    for i, c in enumerate(cs):
        lc = LensCosmo(zl, zs, cosmo=c)
        mon.close("td/sigma", sig[i] ** 2, J[i] * (C / 1000) ** 2 * lc.ds / lc.dds, 1e-9, 0, "dispersion from dimensionless dispersion", **ctx)
        ds_dds = o.ds_dds_from_kinematics(sig[i], J[i])
        mon.close("td/ds_dds", ds_dds, lc.ds / lc.dds, 1e-9, 0, "distance ratio from kinematics", **ctx)
        ddt, dd = o.ddt_dd_from_time_delay_and_kinematics(fp[i][0] - fp[i][1], td[i][0] - td[i][1], sig[i], J[i])
        mon.close("td/ddt", ddt, lc.ddt, 1e-7, 0, "time delay distance from time delays", **ctx)
        mon.close("td/dd", dd, lc.dd, 1e-7, 0, "deflector distance from time delays and kinematics", **ctx)
        ks, kd, kds = U(rng, -.1, .1), U(rng, -.1, .1), U(rng, -.1, .1)
        d2 = o.ddt_from_time_delay(fp[i][0] - fp[i][1], td[i][0] - td[i][1], kappa_s=ks, kappa_ds=kds, kappa_d=kd)
        mon.close("td/kappa", d2, lc.ddt * (1 - kds) / (1 - ks) / (1 - kd), 1e-7, 0, "external convergence", **ctx)
        mon.close("td/kappa_sigma", o.ds_dds_from_kinematics(sig[i], J[i], kappa_s=ks, kappa_ds=kds), lc.ds / lc.dds * (1 - kds) / (1 - ks), 1e-9, 0, "external convergence", **ctx)
    mon.nontrivial("td", name)


def run(case, mon, rng):
    globals()["t_" + case["group"]](case, mon, rng)

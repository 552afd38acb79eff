"""C02: density / projected density / enclosed masses / convergence / deflection of radial profiles agree."""
import inspect
import numpy as np
import lenscat as lc

RULE = ("one case per (profile, repetition); parameters over the documented ranges with round isophotes, radii from 0.02 to 20 scale "
        "lengths. Non-trivial: a (profile, parameter set, relation) whose two sides were both evaluated and non-zero.")
ASSUMPTIONS = ["elliptical profiles are judged in their round limit, where the 3-d functions are defined",
               "relations are only demanded where the profile reports both sides"]
REQUIRED = ["check:proj", "check:mass3d", "check:mass2d", "check:deflection", "check:rho_proj", "check:rho_mass3d", "check:rho_mass2d"]

# profiles whose 3-d or projected functions are documented numerics: relative tolerance
TOL = {"SIE": 2e-3, "NIE": 1e-3, "CHAMELEON": 1e-3, "DOUBLE_CHAMELEON": 1e-3, "TRIPLE_CHAMELEON": 1e-3, "NFW_ELLIPSE_POTENTIAL": 1e-2,
       "HERNQUIST_ELLIPSE_POTENTIAL": 1e-3, "GAUSSIAN_ELLIPSE_POTENTIAL": 1e-3, "MULTI_GAUSSIAN_ELLIPSE_POTENTIAL": 1e-3, "PJAFFE_ELLIPSE_POTENTIAL": 1e-3,
       "SERSIC": 2e-3, "SERSIC_ELLIPSE_POTENTIAL": 2e-3, "GNFW": 3e-3, "HERNQUIST_ELLIPSE_CSE": 5e-3,
       "NFW_ELLIPSE_CSE": 5e-3, "CNFW": 2e-3, "CNFW_ELLIPSE_POTENTIAL": 1e-2, "PSEUDO_DPL": 1e-3, "ULDM": 1e-4, "BPL": 2e-3}
ATOL = {"CHAMELEON": 1e-4, "DOUBLE_CHAMELEON": 1e-4, "TRIPLE_CHAMELEON": 1e-4, "NIE": 1e-4, "SIE": 1e-5, "SERSIC": 1e-5, "SERSIC_ELLIPSE_POTENTIAL": 1e-5}
SCALES = ("Rs", "r_core", "theta_c", "sigma", "theta_E", "w_t", "w_t1", "r_c", "R_sersic", "Ra", "a", "r_trunc")
NORM = ("alpha_Rs", "sigma0", "theta_E", "kappa_0", "alpha_1", "b", "amp", "k_eff")


def profiles():
    skip = {"TNFW_ELLIPSE_POTENTIAL",  # documented (and tested) to raise
            "POINT_MASS", "POINT_MASS_LOG_SCALED", "GreenBoschNFW", "CTNFW_GAUSS_DEC", "SERSIC", "SIS_TRUNCATED"}
    out = []
    for n in lc.names():
        kw = lc.params(n, np.random.default_rng(0))
        f = lc.model(n).lens_model.func_list[0]
        if n in skip:
            continue
        real = [m for m in ("density", "density_2d", "mass_2d", "mass_3d", "density_lens", "mass_3d_lens", "mass_2d_lens")
                if hasattr(f, m) and "kwargs" not in inspect.signature(getattr(f, m)).parameters]
        if real:
            out.append(n)
    return out


def cases(tier, seed):
    reps = 2 if tier == "quick" else 12
    slow = {"GNFW": 1, "CNFW": 1, "BPL": 1}
    out = []
    for n in profiles():
        for r in range(reps):
            out.append(dict(name="%s#%d" % (n, r), group=n, profile=n, nset=2 if n in slow else 4, cost=5 if n in slow else 1))
    for r in range(reps):
        out.append(dict(name="ROUND_DEFLECTION#%d" % r, group="ROUND_DEFLECTION", profile="ROUND", nset=2, cost=4))
        out.append(dict(name="PROFILE_INTEGRALS#%d" % r, group="PROFILE_INTEGRALS", profile="INTEGRALS", nset=2, cost=8))
        out.append(dict(name="CONVERSIONS#%d" % r, group="CONVERSIONS", profile="CONV", nset=20, cost=1))
    return out


_x, _w = np.polynomial.legendre.leggauss(16)


def gl(f, edges):
    """composite Gauss-Legendre of a vectorised function; returns value and a crude error from halving panels"""
    edges = np.asarray(edges, float)
    def comp(e):
        a, b = e[:-1], e[1:]
        t = 0.5 * (b - a)[:, None] * _x[None, :] + 0.5 * (a + b)[:, None]
        v = np.asarray(f(t.ravel()), float).reshape(t.shape)
        return float(np.sum(v * _w[None, :] * 0.5 * (b - a)[:, None]))
    i1 = comp(edges)
    mid = np.sort(np.concatenate([edges, 0.5 * (edges[1:] + edges[:-1])]))
    i2 = comp(mid)
    return i2, abs(i2 - i1)


def vec(fn, r):
    """evaluate a profile function on an array, falling back to a loop (not all of them are vectorised)"""
    r = np.asarray(r, float)
    return np.array([float(np.squeeze(fn(float(v)))) for v in r.ravel()]).reshape(r.shape)


def vfun(fn):
    """vectorised version if the function supports arrays (verified on a probe), else loop"""
    probe = np.array([0.31, 1.7, 0.9])
    try:
        a = np.asarray(fn(probe.copy()), float)
        if a.shape == probe.shape:
            b = vec(fn, probe)
            if np.allclose(a, b, rtol=1e-9, atol=0):
                return lambda t: np.asarray(fn(np.array(t, float)), float)
    except Exception:
        pass
    return lambda t: vec(fn, t)


def project(rho, R, tmax=60.0):
    return gl(lambda t: 2 * rho(R * np.cosh(t)) * R * np.cosh(t), np.concatenate([np.linspace(0, 6, 13), np.linspace(7, tmax, 25)]))


def shell(rho, r1, r2):
    e = np.exp(np.linspace(np.log(r1), np.log(r2), 9))
    return gl(lambda r: 4 * np.pi * r ** 2 * rho(r), e)


def call(f, m, kw):
    meth = getattr(f, m, None)
    if meth is None:
        return None
    ps = inspect.signature(meth).parameters
    if "args" in ps or "kwargs" in ps:
        return None
    sub = {k: v for k, v in kw.items() if k in ps}
    need = [k for k, p in ps.items() if p.default is inspect._empty and k not in ("r", "R", "x", "y", "self") and k not in sub]
    if need:
        return None
    if "x" in ps and "y" in ps:
        return lambda R: meth(R, 0.0 * R, **sub)
    return lambda R: meth(R, **sub)


def roundkw(kw):
    kw = dict(kw)
    for k in kw:
        if k in ("e1", "e2", "e11", "e21", "e12", "e22", "e13", "e23"):
            kw[k] = 0.0
    if "q" in kw:
        kw["q"] = 1.0
    if "center_x" in kw:
        kw["center_x"], kw["center_y"] = 0.0, 0.0
    return kw


def rel(mon, key, got, want, tol, err, **ctx):
    if not (np.isfinite(err) and err <= 0.3 * tol * abs(want) + 1e-13):
        mon.event("unjudged")
        return
    mon.close(key, got, want, tol, ATOL.get(key.split("/")[1], 1e-11), **ctx)
    if want != 0:
        mon.nontrivial(key, ctx.get("iset"))


def one(mon, n, kw, rng, iset):
    lm = lc.model(n)
    f = lm.lens_model.func_list[0]
    kw = roundkw(kw)
    tol = TOL.get(n, 1e-6)
    sc = [np.max(v) for k, v in kw.items() if k in SCALES and np.max(v) > 0] or [1.0]
    s = float(np.exp(np.mean(np.log(sc))))
    radii = s * np.exp(rng.uniform(np.log(.03), np.log(15), 5))
    if n == "SPEP":
        kwl = kw
    rho_l, m3_l, m2_l = (call(f, m, kw) for m in ("density_lens", "mass_3d_lens", "mass_2d_lens"))
    kap = lambda R: lm.kappa(np.atleast_1d(R), np.zeros_like(np.atleast_1d(R)), [kw])
    if rho_l is not None:
        rv = vfun(rho_l)
        for R in radii:
            if n == "BPL" and abs(R / kw["r_c"] - 1) < .05:
                continue
            v, e = project(rv, R)
            if n == "BPL" and R < kw["r_c"]:
                e = 0  # density kink inside the range: accept quadrature at the looser tolerance
            rel(mon, "proj/%s" % n, float(kap(R)[0]), v, max(tol, 1e-6), e, R=R, kw=kw, iset=iset)
    if m3_l is not None:
        mv = vfun(m3_l)
        for r1 in radii:
            r2 = r1 * float(rng.uniform(1.2, 4))
            if rho_l is not None:
                v, e = shell(rv, r1, r2)
                if n == "BPL":
                    e = 0
                rel(mon, "mass3d/%s" % n, float(mv(np.array([r2]))[0] - mv(np.array([r1]))[0]), v, max(tol, 3e-6), e, r1=r1, r2=r2, kw=kw, iset=iset)
        # monotone and vanishing at the centre
        rr = np.sort(np.concatenate([radii, s * np.array([1e-4, 1e-3])]))
        mm = mv(rr)
        mon.check("mass3d_monotone/%s" % n, np.all(np.diff(mm) >= -1e-9 * np.max(np.abs(mm))) and mm[0] >= -1e-9 * np.max(mm) and mm[0] <= 1e-1 * np.max(mm) + 1e-12,
                  "enclosed mass not monotone / not vanishing at the centre", r=rr, m=mm, kw=kw)
    if m2_l is not None:
        for R in radii:
            a = lm.alpha(np.array([R]), np.array([0.]), [kw])[0][0]
            got = float(np.squeeze(vec(m2_l, [R])[0]))
            mon.close("mass2d/%s" % n, got, np.pi * R * a, max(tol, 1e-6), 1e-10, "mass_2d_lens vs pi R alpha", R=R, kw=kw)
            mon.nontrivial("mass2d", n, iset)
    # density normalised by rho0
    kr = {k: v for k, v in kw.items() if k not in ("alpha_Rs", "sigma0", "theta_E", "alpha_1")}
    f_d = getattr(f, "density", None)
    if f_d is not None and "rho0" in inspect.signature(f_d).parameters:
        kr["rho0"] = float(rng.uniform(.2, 3))
    else:
        kr = dict(kw)
    d, d2, m2, m3 = (call(f, m, kr) for m in ("density", "density_2d", "mass_2d", "mass_3d"))
    if d is not None and n != "SERSIC":
        dv = vfun(d)
        if d2 is not None:
            d2v = vfun(d2)
            for R in radii:
                v, e = project(dv, R)
                rel(mon, "rho_proj/%s" % n, float(d2v(np.array([R]))[0]), v, max(tol, 1e-6), e, R=R, kw=kr, iset=iset)
        if m3 is not None:
            m3v = vfun(m3)
            for r1 in radii:
                r2 = r1 * float(rng.uniform(1.2, 4))
                v, e = shell(dv, r1, r2)
                rel(mon, "rho_mass3d/%s" % n, float(m3v(np.array([r2]))[0] - m3v(np.array([r1]))[0]), v, max(tol, 3e-6), e, r1=r1, r2=r2, kw=kr, iset=iset)
    if d2 is not None and m2 is not None:
        d2v, m2v = vfun(d2), vfun(m2)
        for r1 in radii:
            r2 = r1 * float(rng.uniform(1.2, 4))
            v, e = gl(lambda R: 2 * np.pi * R * d2v(R), np.exp(np.linspace(np.log(r1), np.log(r2), 9)))
            rel(mon, "rho_mass2d/%s" % n, float(m2v(np.array([r2]))[0] - m2v(np.array([r1]))[0]), v, max(tol, 3e-6), e, r1=r1, r2=r2, kw=kr, iset=iset)
        mm = m2v(np.sort(radii))
        mon.check("mass2d_monotone/%s" % n, np.all(np.diff(mm) >= -1e-9 * np.max(np.abs(mm))) and mm[0] >= 0, "projected mass not monotone", kw=kr, m=mm)
    # off-centre density_2d is a translate
    meth = getattr(f, "density_2d", None)
    if meth is not None and "center_x" in inspect.signature(meth).parameters and d2 is not None and "kwargs" not in inspect.signature(meth).parameters:
        sub = {k: v for k, v in kr.items() if k in inspect.signature(meth).parameters and not k.startswith("center")}
        x, y = rng.uniform(-1, 1, 6) * s, rng.uniform(-1, 1, 6) * s
        cx, cy = rng.uniform(-1, 1, 2)
        try:
            a = np.array([float(np.squeeze(meth(u + cx, v + cy, center_x=cx, center_y=cy, **sub))) for u, v in zip(x, y)])
            b = np.array([float(np.squeeze(meth(u, v, **sub))) for u, v in zip(x, y)])
            mon.close("rho_centre/%s" % n, a, b, 1e-8, 1e-12)
        except NotImplementedError:
            pass
    mon.event("parameter_sets")
    if iset == 0:
        mon.sample(profile=n, kw=kw, radii=radii)


ROUND = ["SIS", "SPP", "NFW", "TNFW", "TNFWC", "CNFW", "coreBURKERT", "CORED_DENSITY", "CORED_DENSITY_2", "CORED_DENSITY_EXP", "ULDM", "GAUSSIAN",
         "MULTI_GAUSSIAN", "HERNQUIST", "PJAFFE", "SERSIC", "SPL_CORE", "EPL", "SIE", "NIE", "CHAMELEON", "PSEUDO_DPL", "SIS_TRUNCATED", "NFW_ELLIPSE_CSE",
         "HERNQUIST_ELLIPSE_CSE", "SERSIC_ELLIPSE_POTENTIAL", "GAUSSIAN_ELLIPSE_KAPPA", "CSE", "CORED_DENSITY_MST", "CORED_DENSITY_2_MST", "CURVED_ARC_NONE"]


def deflection(mon, rng, iset):
    """radial deflection of a round lens is the enclosed convergence: R alpha = 2 int kappa R dR between two radii"""
    for n in ROUND:
        if n not in lc.G:
            continue
        lm = lc.model(n)
        kw = roundkw(lc.params(n, rng))
        if n == "BPL":
            continue
        for _ in range(3):
            r1 = float(np.exp(rng.uniform(np.log(.05), np.log(4))))
            r2 = r1 * float(rng.uniform(1.1, 3))
            if n == "SIS_TRUNCATED":
                pts = sorted([r1, r2] + [q for q in (kw["r_trunc"], 2 * kw["r_trunc"]) if r1 < q < r2])
                edges = np.concatenate([np.linspace(a + 1e-9, b - 1e-9, 9) for a, b in zip(pts[:-1], pts[1:])])
            else:
                edges = np.exp(np.linspace(np.log(r1), np.log(r2), 9))
            ph = float(rng.uniform(-np.pi, np.pi))
            c, s_ = np.cos(ph), np.sin(ph)
            v, e = gl(lambda R: 2 * R * lm.kappa(R * c, R * s_, [kw]), edges)
            ar = []
            for r in (r1, r2):
                ax, ay = lm.alpha(np.array([r * c]), np.array([r * s_]), [kw])
                mon.close("deflection_radial/%s" % n, float(ay[0] * c - ax[0] * s_), 0, 0, 1e-5 * (abs(ax[0]) + abs(ay[0])) + 1e-9, "tangential deflection of a round lens", kw=kw)
                ar.append(r * float(ax[0] * c + ay[0] * s_))
            rel(mon, "deflection/%s" % n, ar[1] - ar[0], v, max(TOL.get(n, 0), 1e-4), e * (n != "SIS_TRUNCATED"), r1=r1, r2=r2, kw=kw, iset=iset)
        # no mass at the centre for non-singular profiles
        if n in ("CORED_DENSITY", "CORED_DENSITY_2", "CORED_DENSITY_EXP", "ULDM", "GAUSSIAN", "MULTI_GAUSSIAN", "SPL_CORE", "coreBURKERT", "NFW", "HERNQUIST", "TNFW", "SERSIC", "CSE"):
            r = 1e-3
            ax, _ = lm.alpha(np.array([r]), np.array([0.]), [kw])
            k1 = lm.kappa(np.array([r * .5]), np.array([0.]), [kw])[0]
            mon.check("deflection_centre/%s" % n, abs(ax[0]) <= 4 * r * k1 + 1e-7, "deflection does not vanish at the centre", ax=ax, kappa=k1, kw=kw)


def integrals(mon, rng, iset):
    from lenstronomy.LensModel.profile_integrals import ProfileIntegrals
    for n in ("SPP", "NFW", "HERNQUIST", "PJAFFE", "CORED_DENSITY"):
        f = lc.model(n).lens_model.func_list[0]
        kw = roundkw(lc.params(n, rng))
        kr = {k: v for k, v in kw.items() if k not in ("alpha_Rs", "sigma0", "theta_E")}
        if "rho0" in inspect.signature(f.density).parameters:
            kr["rho0"] = float(rng.uniform(.2, 3))
        else:
            kr = kw
        if n == "SPP":  # the class integrates to a finite radius: shallow slopes are out of its reach
            kr["gamma"] = float(rng.uniform(2.0, 2.4))
        pi = ProfileIntegrals(f)
        s = float(kr.get("Rs", 1.0))
        r = s * float(np.exp(rng.uniform(np.log(.2), np.log(3))))
        kr = {k: v for k, v in kr.items() if not k.startswith("center")}
        mon.close("integrals/%s/2d" % n, pi.density_2d(r, kr, lum_weight=None) if "lum_weight" in inspect.signature(pi.density_2d).parameters else pi.density_2d(r, kr),
                  float(np.squeeze(f.density_2d(r, 0, **kr))), 3e-2, 0, kw=kr, r=r)
        mon.close("integrals/%s/m3" % n, pi.mass_enclosed_3d(r, kr), float(np.squeeze(f.mass_3d(r, **kr))), 3e-2, 0, kw=kr, r=r)
        mon.close("integrals/%s/m2" % n, pi.mass_enclosed_2d(r, kr), float(np.squeeze(f.mass_2d(r, **kr))), 3e-2, 0, kw=kr, r=r)
        mon.nontrivial("integrals", n, iset)


def conversions(mon, rng):
    for n in ("NFW", "TNFW", "GNFW", "PSEUDO_DPL", "TNFWC", "SIS", "SPP", "HERNQUIST", "PJAFFE"):
        f = lc.model(n).lens_model.func_list[0]
        kw = roundkw(lc.params(n, rng))
        for a, b, src in (("alpha2rho0", "rho02alpha", "alpha_Rs"), ("sigma2rho", "rho2sigma", "sigma0"), ("theta2rho", "rho2theta", "theta_E")):
            if not (hasattr(f, a) and hasattr(f, b)):
                continue
            pa, pb = inspect.signature(getattr(f, a)).parameters, inspect.signature(getattr(f, b)).parameters
            rho0 = getattr(f, a)(**{k: v for k, v in kw.items() if k in pa})
            back = getattr(f, b)(**dict({k: v for k, v in kw.items() if k in pb}, rho0=rho0))
            mon.close("convert/%s/%s" % (n, a), back, kw[src], 1e-6, 0, kw=kw)
            mon.nontrivial("convert", n, a)
            # the converted density is the lens density
            if hasattr(f, "density") and call(f, "density_lens", kw) is not None:
                d = call(f, "density", dict({k: v for k, v in kw.items()}, rho0=rho0))
                r = float(rng.uniform(.1, 5))
                mon.close("convert/%s/density" % n, float(np.squeeze(d(r))), float(np.squeeze(call(f, "density_lens", kw)(r))), 1e-6, 0, kw=kw)
            if hasattr(f, "density_2d"):
                d = call(f, "density_2d", dict({k: v for k, v in kw.items()}, rho0=rho0))
                if d is not None:
                    r = float(rng.uniform(.2, 5))
                    k = lc.model(n).kappa(np.array([r]), np.array([0.]), [kw])[0]
                    mon.close("convert/%s/kappa" % n, float(np.squeeze(d(r))), float(k), max(TOL.get(n, 0), 1e-5), 0, "kappa vs density_2d", kw=kw, r=r)


def run(case, mon, rng):
    n = case["profile"]
    if n == "CONV":
        for i in range(case["nset"]):
            conversions(mon, rng)
        return
    for i in range(case["nset"]):
        if n == "ROUND":
            deflection(mon, rng, i)
        elif n == "INTEGRALS":
            integrals(mon, rng, i)
        else:
            one(mon, n, lc.params(n, rng), rng, i)

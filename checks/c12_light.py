"""C12: light profiles: additivity, linearity in amplitude, linear basis bookkeeping, total flux, half light, deprojection."""
import copy
import numpy as np
from scipy import integrate
import lightcat
from lenscat import U, LU

RULE = ("every evaluation of every light profile (random parameters incl. limits) is observed and compared with: amplitude times the unit response, "
        "the sum over components/selections, the linear-basis decomposition and read-back; reported total flux against an independent polar quadrature "
        "of the reported surface brightness, 3-d light against its line-of-sight integral")
REQUIRED = ["check:linear", "check:split", "check:count", "check:readback", "check:sum", "check:select", "check:flux", "check:light3d", "check:half", "check:shape"]
SLOW = ("PL_SERSIC",)


def cases(tier, seed):
    out = []
    rep = 2 if tier == "quick" else 12
    for n in lightcat.names():
        for i in range(rep):
            out.append(dict(name="lin/%s#%d" % (n, i), group="lin/" + n, kind="lin", p=n))
    for n in lightcat.FLUX:
        for i in range(rep):
            out.append(dict(name="flux/%s#%d" % (n, i), group="flux/" + n, kind="flux", p=n))
    for n in lightcat.LIGHT3D + ["MGE_SET", "MGE_SET_ELLIPSE"]:
        for i in range(rep):
            out.append(dict(name="l3d/%s#%d" % (n, i), group="l3d/" + n, kind="l3d", p=n))
    for i in range(25 if tier == "quick" else 200):
        out.append(dict(name="model#%d" % i, group="model", kind="model"))
    for i in range(6 if tier == "quick" else 30):
        out.append(dict(name="half#%d" % i, group="half", kind="half"))
    return out


def run(case, mon, rng):
    globals()["run_" + case["kind"]](case, mon, rng)


def pts(rng, n=9):
    r = rng.uniform(.05, 3., n)
    f = rng.uniform(0, 2 * np.pi, n)
    return r * np.cos(f), r * np.sin(f)


def run_lin(case, mon, rng):
    n = case["p"]
    init = lightcat.profile_kwargs(n, rng)
    for t in range(3 if n not in SLOW else 1):
        kw = lightcat.params(n, rng)
        m = lightcat.model([n], inits=[init])
        x, y = pts(rng)
        f = m.surface_brightness(x, y, [copy.deepcopy(kw)])
        sc = float(np.max(np.abs(f))) + 1e-300
        slack = 1e4 if n in SLOW else 1.   # numerical quadrature inside with an absolute tolerance
        c = float(rng.choice([2., 1e-4, 37.5] if n.startswith("LINEAR") else [2., -1., 1e-4, 37.5, 0.]))
        kc = dict(kw, amp=np.asarray(kw["amp"]) * c if np.ndim(kw["amp"]) else kw["amp"] * c)
        m2 = lightcat.model([n], inits=[init])
        mon.close("linear/" + n, m2.surface_brightness(x, y, [kc]), c * f, 1e-9 * slack, 1e-11 * slack * sc * max(1, abs(c)), "not proportional to amplitude", params=kw, c=c)
        if np.ndim(kw["amp"]):
            # additivity in the amplitude vector
            a = np.asarray(kw["amp"], dtype=float)
            b = rng.normal(size=a.size)
            g = m.surface_brightness(x, y, [dict(kw, amp=b)])
            h = m.surface_brightness(x, y, [dict(kw, amp=a + b)])
            mon.close("linear/" + n + "/vec", h, f + g, 1e-9, 1e-10 * (sc + np.max(np.abs(g))), "not additive in amplitudes", params=kw)
        # the linear basis
        k1 = copy.deepcopy(kw)
        resp, num = m.functions_split(x, y, [k1])
        amps = np.atleast_1d(np.asarray(kw["amp"], dtype=float))
        mon.check("count/" + n, num == len(resp) == amps.size == int(m.num_param_linear([kw])) == m.num_param_linear([kw], list_return=True)[0],
                  "number of linear parameters inconsistent", got=[num, len(resp), amps.size])
        if len(resp) == amps.size:
            tot = np.zeros_like(x)
            for a, r in zip(amps, resp):
                tot = tot + a * np.asarray(r, dtype=float)
            mon.close("split/" + n, tot, f, 1e-9 * slack, 1e-10 * slack * sc, "linear basis times amplitudes differs from the surface brightness", params=kw)
            # each basis vector is the response to its own amplitude
            j = int(rng.integers(amps.size))
            e = np.zeros(amps.size)
            e[j] = 1.
            one = m.surface_brightness(x, y, [dict(kw, amp=e if np.ndim(kw["amp"]) else 1.)])
            mon.close("split/" + n + "/order", resp[j], one, 1e-9, 1e-11 * (np.max(np.abs(one)) + 1e-300), "basis vector out of order", params=kw, j=j)
        pars = m.linear_param_from_kwargs([kw])
        mon.close("readback/" + n, pars, amps, 0, 0, "amplitudes read from parameters")
        new = rng.normal(size=amps.size)
        k2, i = m.update_linear(np.append([9., 9.], new), 2, [copy.deepcopy(kw)])
        mon.check("readback/" + n + "/count", i == 2 + amps.size, "index after read back")
        mon.close("readback/" + n + "/values", np.atleast_1d(k2[0]["amp"]), new, 0, 0, "amplitudes written back")
        rest = {q: v for q, v in k2[0].items() if q != "amp"}
        mon.check("readback/" + n + "/others", all(np.array_equal(rest[q], kw[q]) for q in rest) and set(k2[0]) == set(kw), "other parameters changed")
        # pointwise: scalar and part of an array
        if not (n == "INTERPOL" and False):
            i0 = int(rng.integers(x.size))
            s = m.surface_brightness(float(x[i0]), float(y[i0]), [copy.deepcopy(kw)])
            mon.close("shape/" + n + "/scalar", s, f[i0], 1e-10, 1e-12 * sc, "scalar evaluation")
            g = m.surface_brightness(x[2:6], y[2:6], [copy.deepcopy(kw)])
            mon.close("shape/" + n + "/slice", g, f[2:6], 1e-10, 1e-12 * sc, "part of an array")
        mon.nontrivial(n, str(sorted(init.items())), t)


def run_model(case, mon, rng):
    n = int(rng.integers(1, 6))
    pool = [p for p in lightcat.names() if p not in SLOW or rng.integers(6) == 0]
    names = [str(s) for s in rng.choice(pool, n)]
    if n > 2 and rng.integers(2):
        names[-1] = names[0]
    inits = [lightcat.profile_kwargs(p, rng) for p in names]
    kw = [lightcat.params(p, rng) for p in names]
    m = lightcat.model(names, inits=inits)
    x, y = pts(rng, 7)
    parts = [lightcat.model([p], inits=[i]).surface_brightness(x, y, [copy.deepcopy(k)]) for p, i, k in zip(names, inits, kw)]
    sc = max(float(np.max(np.abs(p))) for p in parts) + 1e-300
    f = m.surface_brightness(x, y, kw)
    mon.close("sum/all", f, np.sum(parts, axis=0), 1e-10, 1e-11 * sc, "sum over components", names=names)
    for i in range(n):
        mon.close("select/int", m.surface_brightness(x, y, kw, k=i), parts[i], 1e-10, 1e-11 * sc, "single component", names=names, k=i)
    sel = sorted(set(int(s) for s in rng.integers(0, n, int(rng.integers(0, n + 1)))))
    want = np.sum([parts[i] for i in sel], axis=0) if sel else np.zeros_like(x)
    mon.close("select/list", m.surface_brightness(x, y, kw, k=sel), want, 1e-10, 1e-11 * sc, "selection", names=names, k=sel)
    sel2 = sel[::-1]
    mon.close("select/rev", m.surface_brightness(x, y, kw, k=sel2), want, 1e-10, 1e-11 * sc, "selection order", names=names, k=sel2)
    perm = rng.permutation(n)
    mp = lightcat.model([names[i] for i in perm], inits=[inits[i] for i in perm])
    mon.close("sum/perm", mp.surface_brightness(x, y, [kw[i] for i in perm]), f, 1e-10, 1e-11 * sc, "component order", names=names)
    x2, y2 = x[:6].reshape(2, 3), y[:6].reshape(2, 3)
    # linear basis of the list, with and without selection
    for k in (None, sel, int(rng.integers(n))):
        resp, num = m.functions_split(x, y, kw, k=k)
        idx = list(range(n)) if k is None else ([k] if isinstance(k, int) else k)
        am = np.concatenate([np.atleast_1d(np.asarray(kw[i]["amp"], dtype=float)) for i in idx]) if idx else np.zeros(0)
        mon.check("count/list", num == len(resp) == am.size, "number of basis vectors", names=names, k=k, got=[num, len(resp), am.size])
        if len(resp) == am.size:
            tot = np.zeros_like(x)
            for a, r in zip(am, resp):
                tot = tot + a * np.asarray(r, dtype=float)
            if not any(names[i].startswith("LINEAR") for i in idx):
                mon.close("split/list", tot, np.sum([parts[i] for i in idx], axis=0) if idx else np.zeros_like(x), 1e-5 if "PL_SERSIC" in names else 1e-9, (1e-6 if "PL_SERSIC" in names else 1e-10) * sc, "linear basis of a list", names=names, k=k)
    am = np.concatenate([np.atleast_1d(np.asarray(q["amp"], dtype=float)) for q in kw])
    mon.check("count/total", int(m.num_param_linear(kw)) == am.size and len(m.num_param_linear(kw, list_return=True)) == n, "num_param_linear", names=names)
    new = rng.normal(size=am.size)
    k2, i = m.update_linear(new, 0, copy.deepcopy(kw))
    mon.check("readback/end", i == am.size, "read-back index")
    mon.close("readback/list", m.linear_param_from_kwargs(k2), new, 0, 0, "write/read amplitudes", names=names)
    if not any(p.startswith("LINEAR") for p in names):
        resp, num = m.functions_split(x, y, kw)
        mon.close("readback/render", m.surface_brightness(x, y, k2), np.sum([a * np.asarray(r) for a, r in zip(new, resp)], axis=0), 1e-5 if "PL_SERSIC" in names else 1e-8,
                  (1e-6 if "PL_SERSIC" in names else 1e-9) * float(np.max(np.abs(resp)) * np.max(np.abs(new)) + 1e-300), "rendered with read-back amplitudes", names=names)
    # flux list of several profiles
    fl = [i for i in range(n) if names[i] in lightcat.FLUX]
    if fl:
        tot = m.total_flux(kw, k=fl)
        one = [lightcat.model([names[i]], inits=[inits[i]]).total_flux([copy.deepcopy(kw[i])])[0] for i in fl]
        mon.close("flux/list", tot, one, 1e-10, 0, "flux list", names=names)
        norm = m.total_flux(kw, norm=True, k=fl)
        for v, u, i in zip(norm, one, fl):
            a = kw[i]["amp"]
            mon.close("flux/norm", v * float(np.sum(a)), u, 1e-9, 1e-12, "flux for unit amplitude", names=names[i])
    mon.nontrivial("model", n, len(set(names)), len(sel))


def center(kw):
    return kw.get("center_x", 0.), kw.get("center_y", 0.)


def run_flux(case, mon, rng):
    n = case["p"]
    init = lightcat.profile_kwargs(n, rng)
    kw = lightcat.params(n, rng)
    if n == "SERSIC_ELLIPSE_FLEXION" or "SERSIC" in n:
        kw["n_sersic"] = float(rng.choice([1., U(rng, .7, 3.)]))
    if n == "SERSIC_ELLIPSE_FLEXION":
        for k in ("a", "b1", "b2", "c1", "c2", "d1", "d2"):
            kw[k] = 0.
    m = lightcat.model([n], inits=[init])
    got = m.total_flux([copy.deepcopy(kw)])[0]
    tol = 2e-4
    if n == "INTERPOL":
        # smooth image vanishing at the rim: the integral of the interpolated surface brightness
        ny, nx = kw["image"].shape
        yy, xx = np.mgrid[0:ny, 0:nx]
        kw["image"] = kw["image"] * np.where((xx > 1) & (yy > 1) & (xx < nx - 2) & (yy < ny - 2), 1., 0.)
        m = lightcat.model([n], inits=[init])
        got = m.total_flux([copy.deepcopy(kw)])[0]
        R = kw["scale"] * max(nx, ny)
        k = 700
        g = (np.arange(k) + .5) / k * 2 * R - R
        X, Y = np.meshgrid(g, g)
        want = np.sum(m.surface_brightness(X.ravel() + kw["center_x"], Y.ravel() + kw["center_y"], [kw])) * (2 * R / k) ** 2
        tol, at = 3e-3, 2e-3 * float(np.sum(np.abs(kw["image"]))) * kw["scale"] ** 2 * kw["amp"]
    elif n == "LINE_PROFILE":
        L = kw["length"] + kw["width"]
        k = 1500
        g = (np.arange(k) + .5) / k * 2 * L - L
        X, Y = np.meshgrid(g, g)
        want = np.sum(m.surface_brightness(X.ravel() + kw["start_x"], Y.ravel() + kw["start_y"], [kw])) * (2 * L / k) ** 2
        tol, at = 2e-2, 0
    else:
        cx, cy = center(kw)
        ext = {"HERNQUIST": 3e4, "HERNQUIST_ELLIPSE": 3e4}.get(n, 0)
        if "SERSIC" in n:
            ext = 900. * kw["R_sersic"] * .6
        if "GAUSS" in n or "MGE" in n:
            ext = 40.
        nr, nf = (2400, 48) if n != "PL_SERSIC" else (260, 32)
        u = np.linspace(np.log(1e-6), np.log(ext), nr)
        r = np.exp(u)
        f = (np.arange(nf) + .5) / nf * 2 * np.pi
        RR, FF = np.meshgrid(r, f)
        sb = m.surface_brightness((RR * np.cos(FF)).ravel() + cx, (RR * np.sin(FF)).ravel() + cy, [kw]).reshape(RR.shape)
        ring = 2 * np.pi * np.mean(sb, axis=0) * r ** 2
        want = np.trapezoid(ring, u)
        at = 0
        if n.startswith("HERNQUIST"):
            tol = 2e-3
        if n == "PL_SERSIC":
            tol = 6e-2   # the outer surface brightness is a documented approximation of the projected density
    mon.close("flux/" + n, got, want, tol, at, "total flux against the integrated surface brightness", params=kw, init=init)
    mon.event("flux:integrated")
    mon.nontrivial("flux", n, round(float(got), 2))


def run_half(case, mon, rng):
    """R_sersic is the half-light radius (product-averaged or along the major axis, as configured)"""
    for n in ("SERSIC", "SERSIC_ELLIPSE", "SERSIC_ELLIPSE_Q_PHI"):
        init = lightcat.profile_kwargs(n, rng)
        kw = lightcat.params(n, rng)
        kw["n_sersic"] = U(rng, .8, 5)
        m = lightcat.model([n], inits=[init])
        cx, cy = center(kw)
        if n == "SERSIC":
            q, phi = 1., 0.
        elif "q" in kw:
            q, phi = kw["q"], kw["phi"]
        else:
            e = np.hypot(kw["e1"], kw["e2"])
            q, phi = (1 - e) / (1 + e), .5 * np.arctan2(kw["e2"], kw["e1"])
        Rs = kw["R_sersic"]
        a, b = (Rs, Rs * q) if init.get("sersic_major_axis") else (Rs / np.sqrt(q), Rs * np.sqrt(q))
        # flux inside the half-light ellipse, in the ellipse's own polar coordinates
        u = np.linspace(np.log(1e-7), 0, 3000)
        t = np.exp(u)
        ff = (np.arange(16) + .5) / 16 * 2 * np.pi
        T, F = np.meshgrid(t, ff)
        X, Y = a * T * np.cos(F), b * T * np.sin(F)
        x, y = np.cos(phi) * X - np.sin(phi) * Y + cx, np.sin(phi) * X + np.cos(phi) * Y + cy
        sb = m.surface_brightness(x.ravel(), y.ravel(), [kw]).reshape(T.shape)
        # isophotes are these ellipses
        mon.close("half/iso", np.max(sb, axis=0), np.min(sb, axis=0), 1e-7, 1e-12 * float(np.max(sb)), "isophotes are not the stated ellipses", params=kw, init=init)
        inside = np.trapezoid(2 * np.pi * np.mean(sb, axis=0) * a * b * t ** 2, u)
        from scipy.special import gamma as G, gammaincinv
        bn = gammaincinv(2 * kw["n_sersic"], .5)
        tot = kw["amp"] * a * b * 2 * np.pi * kw["n_sersic"] * np.exp(bn) / bn ** (2 * kw["n_sersic"]) * G(2 * kw["n_sersic"])
        mon.close("half/flux", inside, tot / 2, 1.5e-2, 0, "half of the flux inside R_sersic", params=kw, init=init)
        edge = m.surface_brightness(x=float(a * np.cos(phi) + cx), y=float(a * np.sin(phi) + cy), kwargs_list=[kw])
        mon.close("half/amp", edge, kw["amp"], 1e-6, 0, "amplitude is the surface brightness at R_sersic", params=kw)
        mon.nontrivial("half", n, str(init))
    # power-law Sersic: nearly all light outside of a tiny core, so R_sersic must enclose half of it
    kw = dict(amp=1., R_sersic=LU(rng, .5, 2), n_sersic=U(rng, 1.5, 4), alpha_c=1., r_c=.1, e1=0., e2=0., center_x=0., center_y=0.)
    kw["r_c"] = kw["R_sersic"] * .02
    m = lightcat.model(["PL_SERSIC"])
    u = np.linspace(np.log(1e-3), np.log(999.), 500)
    r = kw["R_sersic"] * np.exp(u)
    ring = 2 * np.pi * m.surface_brightness(r, np.zeros_like(r), [kw]) * r ** 2
    cum = np.concatenate([[0], np.cumsum((ring[1:] + ring[:-1]) / 2 * np.diff(u))])
    mon.close("half/PL_SERSIC", np.interp(.5 * cum[-1], cum, r), kw["R_sersic"], .12, 0, "R_sersic of PL_SERSIC is its half-light radius", params=kw)


def run_l3d(case, mon, rng):
    n = case["p"]
    init = lightcat.profile_kwargs(n, rng)
    kw = lightcat.params(n, rng)
    for k in list(kw):
        if k in ("e1", "e2", "e11", "e21", "e12", "e22", "e13", "e23"):
            kw[k] = 0.
    if n == "POWER_LAW":
        kw["gamma"] = U(rng, 1.6, 2.9)
    m = lightcat.model([n], inits=[init])
    cx, cy = center(kw)
    kc = {k: v for k, v in kw.items() if k not in ("center_x", "center_y")}
    if n.startswith("MGE"):
        l3 = lambda r: m.func_list[0].light_3d(r, **kc)
    else:
        l3 = lambda r: m.light_3d(r, [kw])
    for R in (LU(rng, .05, .4), LU(rng, .4, 1.5), LU(rng, 1.5, 5.)):
        # substitution z = R sinh(t)
        t = np.linspace(0, 19., 6001)
        z = R * np.sinh(t)
        r = np.sqrt(R ** 2 + z ** 2)
        val = np.asarray(l3(r), dtype=float)
        want = 2 * np.trapezoid(val * R * np.cosh(t), t)
        phi = U(rng, 0, 6.28)
        got = m.surface_brightness(np.array([cx + R * np.cos(phi)]), np.array([cy + R * np.sin(phi)]), [kw])[0]
        sc = float(m.surface_brightness(np.array([cx + .1]), np.array([cy]), [kw])[0])
        mon.close("light3d/" + n, got, want, 2e-3, 1e-7 * abs(sc), "projection of the 3-d light density", R=R, params=kw)
    mon.nontrivial("l3d", n)

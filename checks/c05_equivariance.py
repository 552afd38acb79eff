"""C05: translating / rotating lens and light models moves their observables with them."""
import copy
import numpy as np
import lenscat as LC
import lightcat as GC
import c01_profiles

RULE = ("one signature per (profile, constructor variant, transformation: shift / rotation / both, special angle); the profile is evaluated at "
        "random positions, then the transformed profile at the transformed positions")
ASSUMPTIONS = ["LINE_PROFILE angles count clockwise (pinned by the repository's own test)",
               "profiles without an orientation parameter (SHAPELETS, ARC_PERT, GAUSSIAN_POTENTIAL) are only turned by angles their basis admits",
               "SERSIC_ELLIPSE_FLEXION deforms absolute coordinates by definition: rotated, not shifted"]
REQUIRED = ["check:shift_lens", "check:rot_lens", "check:shift_light", "check:rot_light", "check:composite", "check:multiplane", "check:parity"]
TIMEOUT = 240
NOPOT = c01_profiles.NO_POT
NOROT_LENS = {"ARC_PERT", "SHAPELETS_POLAR", "TABULATED"}
NOROT_LIGHT = {"SHAPELETS", "SHAPELETS_ELLIPSE", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"}
QUARTER_LENS = {"GAUSSIAN_POTENTIAL", "SHAPELETS_CART"}
# quadrature / finite-difference implementations
SLOW_TOL = {"TNFW_ELLIPSE_POTENTIAL": 1e-4, "CNFW_ELLIPSE_POTENTIAL": 1e-4, "SERSIC_ELLIPSE_KAPPA": 2e-3, "GNFW": 1e-5, "PSEUDO_DPL": 1e-5,
            "HERNQUIST_ELLIPSE_POTENTIAL": 1e-4, "NFW_MC_ELLIPSE_POTENTIAL": 1e-4, "SPL_CORE": 1e-4, "ULDM": 1e-4, "CORED_DENSITY_ULDM_MST": 1e-4,
            "GreenBoschNFW": 1e-3, "SERSIC_ELLIPSE_POTENTIAL": 1e-4, "SERSIC": 1e-5, "PJAFFE_ELLIPSE_POTENTIAL": 1e-4, "DIPOLE": 1e-5,
            "CORED_DENSITY_EXP_MST": 1e-5, "CURVED_ARC_SPT": 1e-6, "NFW_ELLIPSE_POTENTIAL": 1e-5, "GAUSSIAN_ELLIPSE_POTENTIAL": 1e-5, "SPEP": 1e-6}


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for n in LC.names():
        for i, init in enumerate(LC.init_variants(n)):
            out.append(dict(name="lens/%s/%d" % (n, i), kind="lens", prof=n, init=init, group=n, reps=3 if q else 14,
                            cost=8 if n in ("SERSIC_ELLIPSE_KAPPA", "GNFW") else 1))
    for n in GC.names():
        for i, init in enumerate(GC.init_variants(n)):
            out.append(dict(name="light/%s/%d" % (n, i), kind="light", prof=n, init=init, group=n, reps=5 if q else 25))
    for i in range(25 if q else 150):
        out.append(dict(name="composite/%d" % i, kind="composite", group="composite"))
        out.append(dict(name="multiplane/%d" % i, kind="multiplane", group="multiplane"))
    return out


def rot(x, y, a):
    c, s = np.cos(a), np.sin(a)
    return c * x - s * y, s * x + c * y


SPIN2 = [("e1", "e2"), ("gamma1", "gamma2"), ("e11", "e21"), ("e12", "e22"), ("e13", "e23"), ("b1", "b2")]
SPIN1 = [("center_x", "center_y"), ("ra_0", "dec_0"), ("com_x", "com_y"), ("alpha_x", "alpha_y"), ("start_x", "start_y"), ("F1", "F2"), ("c1", "c2")]
SPIN3 = [("G1", "G2"), ("d1", "d2")]
ANGLES = ["phi", "phi_G", "phi_m", "direction", "psi", "psi_ext", "phi_dipole", "phi_ref"]


def turned(name, kw, a):
    """parameters of the profile turned by angle a about the origin (None: cannot be expressed)"""
    old, kw = kw, copy.deepcopy(kw)
    for pairs, s in ((SPIN1, 1), (SPIN2, 2), (SPIN3, 3)):
        for p, q in pairs:
            if p in kw and q in kw:
                kw[p], kw[q] = (float(v) for v in rot(kw[p], kw[q], s * a))
    for k in ANGLES:
        if k in kw:
            kw[k] = kw[k] + a
    if "angle" in kw:
        kw["angle"] = kw["angle"] - np.degrees(a)
    if name == "FLEXION":      # third derivatives g1=f_xxx, g2=f_xxy, g3=f_xyy, g4=f_yyy
        g = [kw["g1"], kw["g2"], kw["g3"], kw["g4"]]
        t = np.array([[[g[i + j + k] for k in range(2)] for j in range(2)] for i in range(2)])
        R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
        t = np.einsum("ai,bj,ck,ijk->abc", R, R, R, t)
        kw["g1"], kw["g2"], kw["g3"], kw["g4"] = float(t[0, 0, 0]), float(t[0, 0, 1]), float(t[0, 1, 1]), float(t[1, 1, 1])
    if name == "HESSIAN":
        R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
        h = R @ np.array([[kw["f_xx"], kw["f_xy"]], [kw["f_yx"], kw["f_yy"]]]) @ R.T
        kw["f_xx"], kw["f_xy"], kw["f_yx"], kw["f_yy"] = (float(v) for v in (h[0, 0], h[0, 1], h[1, 0], h[1, 1]))
    if name.startswith("EPL_MULTIPOLE_"):
        # the odd multipoles are measured from the major axis, which is reported in (-pi/2, pi/2]: crossing that range flips their sign
        p0, p1 = (.5 * np.arctan2(k["e2"], k["e1"]) for k in (old, kw))
        if round((p0 + a - p1) / np.pi) % 2:
            for k in ("a1_a", "a3_a"):
                if k in kw:
                    kw[k] = -kw[k]
    return kw


def quarter(name, kw):
    """parameters after a quarter turn for profiles tied to the axes"""
    kw = copy.deepcopy(kw)
    kw["center_x"], kw["center_y"] = -kw["center_y"], kw["center_x"]
    if name == "GAUSSIAN_POTENTIAL":
        kw["sigma_x"], kw["sigma_y"] = kw["sigma_y"], kw["sigma_x"]
    return kw


def shifted(kw, dx, dy):
    kw = copy.deepcopy(kw)
    for p, q in (("center_x", "center_y"), ("ra_0", "dec_0"), ("com_x", "com_y"), ("start_x", "start_y")):
        if p in kw:
            kw[p], kw[q] = kw[p] + dx, kw[q] + dy
    return kw


def lens_eval(m, x, y, kws):
    out = {}
    if m.lens_model_list[0] not in NOPOT:
        out["f"] = np.asarray(m.potential(x, y, kws))
    out["a"] = [np.asarray(v) for v in m.alpha(x, y, kws)]
    out["h"] = [np.asarray(v) for v in m.hessian(x, y, kws)]
    return out


def compare_lens(mon, key, o, n, a, tol, ctx, htol=1e-7):
    htol = max(tol, htol)
    sa = max(np.max(np.abs(o["a"][0])), np.max(np.abs(o["a"][1])), 1e-3)
    if "f" in o and "f" in n:
        sf = max(np.max(np.abs(o["f"])), 1e-3)
        mon.close(key + "/potential", n["f"], o["f"], rtol=tol, atol=tol * sf, msg="potential changed", **ctx)
    ax, ay = rot(o["a"][0], o["a"][1], a)
    mon.close(key + "/alpha", np.array(n["a"]), np.array([ax, ay]), rtol=tol, atol=tol * sa, msg="deflection did not turn with the model", **ctx)
    h = o["h"]
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    H = np.einsum("ai,ijn,bj->abn", R, np.array([[h[0], h[1]], [h[2], h[3]]]), R)
    sh = np.max(np.abs(H), axis=(0, 1))
    g = np.array([[n["h"][0], n["h"][1]], [n["h"][2], n["h"][3]]])
    bad = np.abs(g - H) > 30 * htol * (sh + 1e-2)
    mon.check(key + "/hessian", not np.any(bad), "Hessian did not turn with the model", **dict(ctx, got=g.tolist()[:2], want=H.tolist()[:2]))


def run(case, mon, rng):
    globals()["run_" + case["kind"]](case, mon, rng)


def angle(rng):
    k = rng.integers(0, 6)
    if k == 0:
        return float(np.pi / 2 * rng.integers(1, 4)), "quarter"
    if k == 1:
        return float(np.pi), "half"
    return float(rng.uniform(-np.pi, np.pi)), "generic"


def run_lens(case, mon, rng):
    name = case["prof"]
    m = LC.model(name, case["init"])
    tol = SLOW_TOL.get(name, 1e-7)
    htol = max(tol, c01_profiles.SLACK.get(name, (0, 0, 0))[1] / 30)
    N = 5 if name in ("SERSIC_ELLIPSE_KAPPA", "GNFW") else 12
    for _ in range(case["reps"]):
        kw = LC.params(name, rng)
        cx, cy = LC.center_of(kw)
        r, t = rng.uniform(.25, 2.5, N), rng.uniform(0, 2 * np.pi, N)
        if name == "CURVED_ARC_CONST":                       # no deflection is defined beyond the curvature radius
            r = r / 2.5 * .8 / kw["curvature"]
        x, y = cx + r * np.cos(t), cy + r * np.sin(t)
        o = lens_eval(m, x, y, [kw])
        if not all(np.all(np.isfinite(v)) for v in o["a"] + o["h"]):
            mon.event("skip:nonfinite")
            continue
        ctx = dict(profile=name, kwargs=kw, x=x, y=y)
        if LC.center_of(kw) != (0., 0.) or "center_x" in kw or "ra_0" in kw or "com_x" in kw:
            dx, dy = (float(v) for v in rng.uniform(-3, 3, 2))
            n = lens_eval(m, x + dx, y + dy, [shifted(kw, dx, dy)])
            compare_lens(mon, "shift_lens/" + name, o, n, 0., tol, dict(ctx, shift=(dx, dy)), htol)
            mon.nontrivial("shift_lens", *(name, str(case["init"]), "shift"))
        if name in NOROT_LENS:
            continue
        if name.startswith(("EPL_MULTIPOLE_", "EPL_BOXY")) and kw["e1"] == 0 and kw["e2"] == 0:
            continue           # a round lens has no axis to measure the multipoles from
        if name in QUARTER_LENS:
            if name == "SHAPELETS_CART":
                continue
            n = lens_eval(m, -y, x, [quarter(name, kw)])
            compare_lens(mon, "rot_lens/" + name, o, n, np.pi / 2, tol, ctx, htol)
            mon.nontrivial("rot_lens", *(name, "quarter"))
            continue
        a, lab = angle(rng)
        X, Y = rot(x, y, a)
        n = lens_eval(m, X, Y, [turned(name, kw, a)])
        compare_lens(mon, "rot_lens/" + name, o, n, a, tol, dict(ctx, angle=a), htol)
        mon.nontrivial("rot_lens", *(name, str(case["init"]), lab))
        # mirror image: e2/gamma2/angles change sign; catches handedness conventions that survive rotations
        mk = mirrored(name, kw)
        if mk is not None:
            n = lens_eval(m, x, -y, [mk])
            w = dict(o)
            w["a"] = [o["a"][0], -o["a"][1]]
            w["h"] = [o["h"][0], -o["h"][1], -o["h"][2], o["h"][3]]
            compare_lens(mon, "parity/" + name, w, n, 0., tol, ctx, htol)
            mon.nontrivial("parity", *(name, "mirror"))


def mirrored(name, kw):
    kw = copy.deepcopy(kw)
    for pairs in (SPIN1, SPIN2, SPIN3):
        for p, q in pairs:
            if q in kw:
                kw[q] = -kw[q]
    for k in ANGLES + ["angle", "delta_phi_m1", "delta_phi_m3", "delta_phi_m4", "varphi_m", "dtan_dtan"]:
        if k in kw:
            kw[k] = -kw[k]
    if name == "FLEXION":
        kw["g2"], kw["g4"] = -kw["g2"], -kw["g4"]
    if name == "HESSIAN":
        kw["f_xy"], kw["f_yx"] = -kw["f_xy"], -kw["f_yx"]
    if name == "ARC_PERT":
        return None
    if name in ("SHAPELETS_CART", "SHAPELETS_POLAR"):
        return None
    return kw


def mirrored_light(name, kw):
    if name in NOROT_LIGHT:
        return None
    kw = mirrored(name, kw)
    if name == "INTERPOL":
        kw["image"] = kw["image"][::-1].copy()
    return kw


def run_light(case, mon, rng):
    name = case["prof"]
    m = GC.model([name], inits=[case["init"]])
    for _ in range(case["reps"]):
        kw = GC.params(name, rng)
        cx, cy = LC.center_of(kw)
        N = 12 if name == "PL_SERSIC" else 40
        r, t = rng.uniform(.02, 2.5, N), rng.uniform(0, 2 * np.pi, N)
        x, y = cx + r * np.cos(t), cy + r * np.sin(t)
        o = m.surface_brightness(x, y, [kw])
        s = np.max(np.abs(o)) + 1e-300
        ctx = dict(profile=name, kwargs=kw, x=x, y=y)
        tol = 1e-3 if case["init"].get("interpolation") else 1e-8

        def cmp(key, n, what):
            if name in GC.EDGES or name == "INTERPOL":
                bad = np.abs(n - o) > tol * np.abs(o) + tol * s
                # positions within rounding of an edge may fall on either side
                mon.check(key, np.mean(bad) <= .03, what, **dict(ctx, got=n, want=o))
            else:
                mon.close(key, n, o, rtol=tol, atol=tol * s, msg=what, **ctx)
        if ("center_x" in kw or "start_x" in kw) and name != "SERSIC_ELLIPSE_FLEXION":
            # binary fractions: the shift is exact to rounding of the coordinates
            dx, dy = (float(v) for v in rng.uniform(-3, 3, 2))
            n = m.surface_brightness(x + dx, y + dy, [shifted(kw, dx, dy)])
            cmp("shift_light/" + name, n, "surface brightness changed under a shift")
            mon.nontrivial("shift_light", *(name, str(case["init"])))
        if name in NOROT_LIGHT:
            continue
        a, lab = angle(rng)
        n = m.surface_brightness(*rot(x, y, a), [turned(name, kw, a)])
        cmp("rot_light/" + name, n, "surface brightness changed under a rotation")
        mon.nontrivial("rot_light", *(name, str(case["init"]), lab))
        mk = mirrored_light(name, kw)
        if name == "INTERPOL":                               # the image is cached per instance (documented)
            m.delete_interpol_caches()
        n = m.surface_brightness(x, -y, [mk])
        m.delete_interpol_caches()
        cmp("parity_light/" + name, n, "surface brightness changed under mirror imaging")
        mon.nontrivial("parity", *(name, "mirror"))


FAST = ["SIS", "SIE", "EPL", "NFW", "SHEAR", "CONVERGENCE", "HERNQUIST", "GAUSSIAN", "PJAFFE", "TNFW", "NIE", "SHEAR_GAMMA_PSI", "EPL_Q_PHI", "FLEXION",
        "CHAMELEON", "MULTIPOLE", "EPL_MULTIPOLE_M3M4", "CURVED_ARC_SPP", "NFW_ELLIPSE_CSE", "BPL", "SHEAR_REDUCED"]


SMOOTH = ("SIS", "EPL", "EPL_Q_PHI", "NFW", "SHEAR", "CONVERGENCE", "GAUSSIAN", "FLEXION", "MULTIPOLE", "SHEAR_GAMMA_PSI", "HERNQUIST", "TNFW")


def needs_axis(lst, kws):
    return any(n.startswith(("EPL_MULTIPOLE_", "EPL_BOXY")) and k["e1"] == 0 and k["e2"] == 0 for n, k in zip(lst, kws))


def run_composite(case, mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    lst = [str(v) for v in rng.choice(FAST, int(rng.integers(2, 5)))]
    kws = [LC.params(n, rng) for n in lst]
    m = LensModel(lst, z_lens=.5, z_source=1.5)
    x, y = rng.uniform(-3, 3, 10), rng.uniform(-3, 3, 10)
    sx, sy = float(rng.uniform(-.3, .3)), float(rng.uniform(-.3, .3))
    a, lab = angle(rng)
    dx, dy = (float(v) for v in rng.uniform(-2, 2, 2))

    def tr(kws):
        return [shifted(turned(n, k, a), dx, dy) for n, k in zip(lst, kws)]
    if needs_axis(lst, kws):
        return
    X, Y = rot(x, y, a)
    X, Y = X + dx, Y + dy
    SX, SY = rot(sx, sy, a)
    k2 = tr(kws)
    ctx = dict(lens=lst, kwargs=kws, angle=a, shift=(dx, dy))
    f0, f1 = m.fermat_potential(x, y, kws, x_source=sx, y_source=sy), m.fermat_potential(X, Y, k2, x_source=SX + dx, y_source=SY + dy)
    mon.close("composite/fermat", f1 - f1[0], f0 - f0[0], rtol=1e-6, atol=1e-6, msg="Fermat potential differences not invariant", **ctx)
    t0, t1 = m.arrival_time(x, y, kws, x_source=sx, y_source=sy), m.arrival_time(X, Y, k2, x_source=SX + dx, y_source=SY + dy)
    mon.close("composite/arrival", t1 - t1[0], t0 - t0[0], rtol=1e-6, atol=1e-4, msg="arrival time differences not invariant", **ctx)
    mon.close("composite/kappa", m.kappa(X, Y, k2), m.kappa(x, y, kws), rtol=1e-3, atol=1e-3, msg="convergence not invariant", **ctx)
    mon.close("composite/invmag", 1 / m.magnification(X, Y, k2), 1 / m.magnification(x, y, kws), rtol=1e-3, atol=1e-3, msg="magnification not invariant", **ctx)
    b0, b1 = m.ray_shooting(x, y, kws), m.ray_shooting(X, Y, k2)
    w = rot(b0[0], b0[1], a)
    mon.close("composite/beta", np.array(b1), np.array([w[0] + dx, w[1] + dy]), rtol=1e-6, atol=1e-6, msg="source position not covariant", **ctx)
    g0, g1 = m.gamma(x, y, kws), m.gamma(X, Y, k2)
    w = rot(g0[0], g0[1], 2 * a)
    mon.close("composite/gamma", np.array(g1), np.array(w), rtol=1e-3, atol=1e-3, msg="shear did not turn as spin 2", **ctx)
    fl = np.array(m.flexion(x, y, kws, diff=1e-4))
    f2 = np.array(m.flexion(X, Y, k2, diff=1e-4))
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    T = np.empty((2, 2, 2, x.size))
    for i in range(2):
        for j in range(2):
            for k in range(2):
                T[i, j, k] = fl[i + j + k]
    T = np.einsum("ai,bj,ck,ijkn->abcn", R, R, R, T)
    w = np.array([T[0, 0, 0], T[0, 0, 1], T[0, 1, 1], T[1, 1, 1]])
    sc = np.max(np.abs(fl), axis=0) + .1
    mon.check("composite/flexion", np.all(np.abs(f2 - w) < 5e-2 * sc + 20 * 1e-4 * sc ** 2) or np.max(sc) > 30 or any(n not in SMOOTH for n in lst), "flexion did not turn as a rank-3 tensor", **dict(ctx, got=f2, want=w))
    mon.nontrivial("composite", *(len(lst), lab))
    # light of several components
    ln = [str(v) for v in rng.choice([n for n in GC.names() if n not in NOROT_LIGHT and n not in GC.EDGES + ("INTERPOL", "SERSIC_ELLIPSE_FLEXION", "PL_SERSIC")], 3)]
    lm = GC.model(ln)
    lk = [GC.params(n, rng) for n in ln]
    s0 = lm.surface_brightness(x, y, lk)
    s1 = lm.surface_brightness(X, Y, [shifted(turned(n, k, a), dx, dy) for n, k in zip(ln, lk)])
    mon.close("composite/light", s1, s0, rtol=1e-8, atol=1e-8 * np.max(np.abs(s0)), msg="surface brightness of several components not invariant", **dict(ctx, light=ln, kwargs_light=lk))


def run_multiplane(case, mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    n = int(rng.integers(2, 5))
    lst = [str(v) for v in rng.choice(FAST, n)]
    kws = [LC.params(k, rng) for k in lst]
    zs = [float(v) for v in rng.uniform(.1, 1.4, n)]
    if needs_axis(lst, kws):
        return
    m = LensModel(lst, multi_plane=True, lens_redshift_list=zs, z_source=1.8)
    x, y = rng.uniform(-2.5, 2.5, 8), rng.uniform(-2.5, 2.5, 8)
    a, lab = angle(rng)
    k2 = [turned(k, v, a) for k, v in zip(lst, kws)]
    X, Y = rot(x, y, a)
    ctx = dict(lens=lst, kwargs=kws, angle=a, z=zs)
    b0, b1 = m.ray_shooting(x, y, kws), m.ray_shooting(X, Y, k2)
    if np.max(np.abs(b0)) > 20:
        return
    mon.close("multiplane/beta", np.array(b1), np.array(rot(b0[0], b0[1], a)), rtol=1e-5, atol=1e-5, msg="source position did not turn with the planes", **ctx)
    t0, t1 = m.arrival_time(x, y, kws), m.arrival_time(X, Y, k2)
    mon.close("multiplane/arrival", t1 - t1[0], t0 - t0[0], rtol=1e-5, atol=1e-2, msg="arrival times changed when all planes were turned", **ctx)
    mon.nontrivial("multiplane", *(n, lab))

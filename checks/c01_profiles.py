"""C01: gradient/Jacobian consistency of every lens profile, watched through the public lens model."""
import numpy as np
import lenscat as lc

RULE = ("one case per lens profile (and constructor variant); each draws parameter sets over the documented ranges "
        "(round, on-axis, isothermal, off-centre included) and positions from deep inside to far outside; the monitor compares "
        "reported deflection/Hessian with 4th-order differences of reported potential/deflection. A (profile, parameter set, "
        "position) triple is non-trivial if the difference estimate converged and the quantity is not identically zero.")
ASSUMPTIONS = ["points where two step sizes disagree (kinks, singular points) are not judged",
               "profiles needing fastell4py are not installed here"]
REQUIRED = ["check:grad", "check:jac", "check:sym"]

# profiles documented as having no (global) potential: asking for it has to raise
NO_POT = {"SERSIC_ELLIPSE_KAPPA", "TNFWC", "PSEUDO_DPL", "CURVED_ARC_CONST", "CURVED_ARC_SPT", "SPL_CORE"}
# documented not to be a gradient field (mixed derivatives may differ)
NO_SYM = {"CURVED_ARC_SPT", "CURVED_ARC_CONST"}
# accuracy of the implementation's own numerics (internally differenced, fitted or interpolated): relative slack
# (deflection vs potential, Hessian vs deflection, symmetry)
NUM = (1e-5, 1e-3, 2e-3)
SLACK = {n: NUM for n in (
    "CHAMELEON", "DOUBLE_CHAMELEON", "TRIPLE_CHAMELEON", "NIE", "SIE", "NFW_ELLIPSE_POTENTIAL", "TNFW_ELLIPSE_POTENTIAL",
    "CNFW_ELLIPSE_POTENTIAL", "HERNQUIST_ELLIPSE_POTENTIAL", "PJAFFE_ELLIPSE_POTENTIAL", "SERSIC_ELLIPSE_POTENTIAL",
    "GAUSSIAN_ELLIPSE_POTENTIAL", "MULTI_GAUSSIAN_ELLIPSE_POTENTIAL", "SERSIC", "SERSIC_ELLIPSE_KAPPA", "ElliSLICE",
    "CURVED_ARC_TAN_DIFF", "NFW_MC_ELLIPSE_POTENTIAL")}
SLACK.update({"CNFW": (3e-3, 3e-3, 1e-5), "CNFW_ELLIPSE_POTENTIAL": (1e-3, 2e-2, 3e-2), "BPL": (2e-3, 2e-3, 1e-5), "NFW_ELLIPSE_POTENTIAL": (1e-5, 1e-2, 2e-2), "NFW_MC_ELLIPSE_POTENTIAL": (1e-5, 1e-2, 2e-2),
              "GreenBoschNFW": (1e-1, 1e-1, 1e-5), "CORED_DENSITY_2_MST": (1e-5, 1e-5, 1e-5),
              "CORED_DENSITY_EXP_MST": (1e-5, 1e-5, 1e-5), "CORED_DENSITY_MST": (1e-5, 1e-5, 1e-5),
              "CORED_DENSITY_ULDM_MST": (1e-4, 1e-4, 1e-4),
              "GAUSSIAN_ELLIPSE_KAPPA": (1e-4, 2e-3, 1e-4), "GNFW": (1e-4, 1e-4, 1e-5),
              "NFW_ELLIPSE_GAUSS_DEC": (1e-3, 3e-3, 1e-4), "GNFW_ELLIPSE_GAUSS_DEC": (1e-3, 3e-2, 1e-4), "ElliSLICE": (1e-5, 5e-3, 1e-2),
              "SERSIC_ELLIPSE_GAUSS_DEC": (1e-3, 3e-3, 1e-4), "CTNFW_GAUSS_DEC": (1e-3, 3e-3, 1e-4)})
# a convergence sheet minus a core cancels near the centre: absolute floor
FLOOR = {"CORED_DENSITY_MST": 1e-6, "CORED_DENSITY_2_MST": 3e-8, "CORED_DENSITY_EXP_MST": 3e-8, "CORED_DENSITY_ULDM_MST": 3e-8}
# numerically heavy profiles: (sets, points) in the quick tier
SLOW = {"NFW_ELLIPSE_GAUSS_DEC": (1, 4), "GNFW_ELLIPSE_GAUSS_DEC": (1, 2), "BPL": (3, 6), "SERSIC_ELLIPSE_GAUSS_DEC": (2, 4),
        "SERSIC_ELLIPSE_KAPPA": (2, 5), "GNFW": (1, 3), "GreenBoschNFW": (1, 12), "CNFW": (3, 8), "CNFW_ELLIPSE_POTENTIAL": (2, 8),
        "CTNFW_GAUSS_DEC": (3, 6), "GAUSSIAN_ELLIPSE_KAPPA": (3, 6), "TNFWC": (3, 8), "PSEUDO_DPL": (3, 8)}
RMAX = {"CURVED_ARC_CONST": 0.8, "CURVED_ARC_SPT": 0.8, "GreenBoschNFW": 4.0}


def cases(tier, seed):
    out = []
    reps = 1 if tier == "quick" else 6
    for n in lc.names():
        for iv, init in enumerate(lc.init_variants(n)):
            nset, npts = SLOW.get(n, (5, 16))
            for rep in range(reps):
                out.append(dict(name="%s#%d%s" % (n, iv, "" if rep == 0 else "r%d" % rep), group=n, profile=n, init=init, nset=nset,
                                npts=npts, cost=10 if n in SLOW else 1))
    return out


def positions(rng, kw, n, rmax):
    cx, cy = lc.center_of(kw)
    r = np.exp(rng.uniform(np.log(0.05), np.log(rmax), n))
    phi = rng.uniform(-np.pi, np.pi, n)
    if n >= 8:  # a few exactly on the coordinate axes through the centre
        phi[:2] = rng.choice([0, np.pi / 2, np.pi, -np.pi / 2], 2, replace=False)
    return cx + r * np.cos(phi), cy + r * np.sin(phi), r


W = np.array([1, -8, 8, -1]) / 12.0
S = np.array([-2, -1, 1, 2])


def diff(f, x, y, h, axis):
    """4th-order central difference of f at (x,y) with per-point steps h"""
    out = 0
    for w, s in zip(W, S):
        out = out + w * np.asarray(f(x + s * h * (axis == 0), y + s * h * (axis == 1)))
    return out / h


def judge(mon, key, got, f, x, y, r, slack, scale, **ctx):
    """compare got (n) with derivative of f; three steps give an error estimate"""
    axis = ctx["axis"]
    n = key.split("/")[1]
    best, err = None, np.full(len(x), np.inf)
    prev = None
    for frac in ((1.3e-2, 4e-3, 1.3e-3) if n in SLOW else (4e-2, 1.3e-2, 4e-3, 1.3e-3, 4e-4)):
        h = frac * r
        d = diff(f, x, y, h, axis)
        if prev is not None:
            e = np.abs(d - prev)
            e = np.where(np.isfinite(e), e, np.inf)
            use = e < err
            best = d if best is None else np.where(use, d, best)
            err = np.where(use, e, err)
        prev = d
    tol = 8 * err + slack * scale + FLOOR.get(n, 1e-10)
    ok = np.isfinite(err) & (err < 2e-3 * scale + 1e-12) & (scale > 0)
    mon.event("judged_points", int(np.sum(ok)))
    mon.event("unjudged_points", int(np.sum(~ok)))
    if not np.any(ok):
        return 0
    bad = ok & ~(np.abs(got - best) <= tol)
    mon.checks += int(np.sum(ok))
    mon.event("check:" + key.split("/")[0], int(np.sum(ok)))
    if np.any(bad):
        i = int(np.argmax(np.where(bad, np.abs(got - best) / tol, -1)))
        mon.violation(key, "rel %.2g reported %r, derivative %r (tol %.2g) at x=%r y=%r; %d of %d points" % (
            float(abs(got[i]-best[i])/scale[i]), float(got[i]), float(best[i]), float(tol[i]), float(x[i]), float(y[i]), int(bad.sum()), int(ok.sum())), **ctx)
    else:
        k = key.split("/")[0]
        mon.worst[k] = max(mon.worst.get(k, 0), float(np.max((np.abs(got - best) / tol)[ok])))
    return int(np.sum(ok))


def bpl_probe(mon, lm, kw):
    """known finding: with default settings the Hessian deep inside the break radius is not the Jacobian of the deflection"""
    kw = dict(kw, a=2.0, a_c=0.6, e1=0.0, e2=0.0)
    x, y = np.array([kw["center_x"] + 0.02 * kw["r_c"]]), np.array([kw["center_y"] + 0.02 * kw["r_c"]])
    h = 2e-5 * kw["r_c"]
    num = (lm.alpha(x + h, y, [kw])[0] - lm.alpha(x - h, y, [kw])[0]) / (2 * h)
    mon.close("jac/BPL_default_deep", lm.hessian(x, y, [kw])[0] / num, [1.0], 0, 0.1, "Hessian over Jacobian at 0.03 r_c")


def run(case, mon, rng):
    n = case["profile"]
    npts = case["npts"]
    for iset in range(case["nset"]):
        kw = lc.params(n, rng)
        lm = lc.model(n, case["init"])
        x, y, r = positions(rng, kw, npts, RMAX.get(n, 12.0))
        if n == "SIS_TRUNCATED":  # stay off the two kinks of the density
            u = r / kw["r_trunc"]
            sel = (np.abs(u - 1) > 0.12) & (np.abs(u - 2) > 0.22)
            x, y, r = x[sel], y[sel], r[sel]
        if n == "BPL":  # its series are only summed to 1e-5 by default
            if iset == 0:
                bpl_probe(mon, lm, kw)
            kw["target_precision"] = 1e-9
            sel = r > 0.07 * kw["r_c"]
            x, y, r = x[sel], y[sel], r[sel]
            if len(x) == 0:
                continue
        kws = [kw]
        slack = SLACK.get(n, (1e-6, 1e-6, 1e-6))
        ax, ay = lm.alpha(x, y, kws)
        fxx, fxy, fyx, fyy = lm.hessian(x, y, kws)
        for nm, v in (("alpha_x", ax), ("alpha_y", ay), ("f_xx", fxx), ("f_xy", fxy), ("f_yx", fyx), ("f_yy", fyy)):
            mon.check("finite/%s/%s" % (n, nm), np.all(np.isfinite(v)) and np.shape(v) == np.shape(x), "non-finite or wrong shape", kw=kw)
        sa = np.sqrt(ax ** 2 + ay ** 2)
        sh = np.abs(fxx) + np.abs(fyy) + np.abs(fxy)
        if n not in NO_SYM:
            mon.close("sym/%s" % n, fxy / (sh + 1e-9), fyx / (sh + 1e-9), 0, slack[2], kw=kw)
        # typical magnitudes so that points with accidental zero components are still judged
        fl = 0.1 if n.endswith("_MST") else 1e-2
        sa = sa + fl * np.median(sa)
        sh = sh + fl * np.median(sh)
        k = 0
        if n not in NO_POT:
            pot = lambda a, b: lm.potential(a, b, kws)
            k += judge(mon, "grad/%s/x" % n, ax, pot, x, y, r, slack[0], sa, axis=0, kw=kw)
            k += judge(mon, "grad/%s/y" % n, ay, pot, x, y, r, slack[0], sa, axis=1, kw=kw)
        else:
            try:
                v = lm.potential(x, y, kws)
                raised = False
            except Exception as e:  # documented: not available
                raised = True
            mon.check("nopot/%s" % n, raised, "potential documented as unavailable returned a value", kw=kw)
        fa = lambda a, b: lm.alpha(a, b, kws)[0]
        fb = lambda a, b: lm.alpha(a, b, kws)[1]
        k += judge(mon, "jac/%s/xx" % n, fxx, fa, x, y, r, slack[1], sh, axis=0, kw=kw)
        k += judge(mon, "jac/%s/xy" % n, fxy, fa, x, y, r, slack[1], sh, axis=1, kw=kw)
        k += judge(mon, "jac/%s/yx" % n, fyx, fb, x, y, r, slack[1], sh, axis=0, kw=kw)
        k += judge(mon, "jac/%s/yy" % n, fyy, fb, x, y, r, slack[1], sh, axis=1, kw=kw)
        if k:
            mon.nontrivial(n, case["init"], iset)
        mon.event("parameter_sets")
        if iset == 0:
            mon.sample(kw=kw, x=x[:3], y=y[:3], alpha=ax[:3])

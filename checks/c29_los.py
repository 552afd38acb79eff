"""C29: line-of-sight corrected lensing equals its matrix composition."""
import numpy as np

RULE = ("monitors on the real LensModel with LOS/LOS_MINIMAL/LOS_FLEXION/LOS_FLEXION_MINIMAL components: every deflection, "
        "Hessian, source position and Fermat potential is recomputed online from the plain main-deflector model and 2x2 matrix "
        "algebra (or, with flexion, from its expansion to the documented order), for every position of the LOS entry in the list, "
        "every selection of components and scalar/array positions")
ASSUMPTIONS = ["flexion regime: terms of second order in line-of-sight quantities are outside the approximation (compared at vanishing strength)"]
REQUIRED = ["check:alpha", "check:hessian", "check:fermat", "check:minimal", "check:zero", "check:select", "check:flexion", "check:multiplane"]
TIMEOUT = 300

MAINS = [["EPL", "SHEAR"], ["SIE"], ["NFW", "SIS", "CONVERGENCE"], ["EPL", "SHEAR", "FLEXION"], ["SERSIC"], ["GAUSSIAN_POTENTIAL", "SIE"], ["CHAMELEON", "SHEAR"], ["NIE", "MULTIPOLE"]]


def cases(tier, seed):
    n = 25 if tier == "quick" else 600
    out = []
    for kind in ("tidal", "minimal", "fermat", "zero", "select", "flexion", "flexmin", "multiplane"):
        for i in range(n):
            out.append(dict(name=f"{kind}/{i}", group=kind, kind=kind, i=i, cost=1))
    return out


def _main(rng, big=False):
    names = MAINS[int(rng.integers(len(MAINS)))]
    c = rng.normal(size=2) * .05
    kw = []
    for n in names:
        e = rng.uniform(-.2, .2, 2)
        cc = dict(center_x=float(c[0]), center_y=float(c[1]))
        kw.append({"EPL": dict(theta_E=rng.uniform(.7, 1.5), gamma=rng.uniform(1.7, 2.3), e1=e[0], e2=e[1], **cc),
                   "SIE": dict(theta_E=rng.uniform(.7, 1.5), e1=e[0], e2=e[1], **cc),
                   "SHEAR": dict(gamma1=rng.uniform(-.1, .1), gamma2=rng.uniform(-.1, .1), ra_0=0., dec_0=0.),
                   "NFW": dict(Rs=rng.uniform(.5, 3), alpha_Rs=rng.uniform(.3, 1.2), **cc),
                   "SIS": dict(theta_E=rng.uniform(.1, .6), center_x=.7, center_y=-.4),
                   "CONVERGENCE": dict(kappa=rng.uniform(-.1, .1), ra_0=0., dec_0=0.),
                   "FLEXION": dict(g1=.01, g2=-.02, g3=.015, g4=.005, ra_0=0., dec_0=0.),
                   "SERSIC": dict(k_eff=rng.uniform(.3, 1), R_sersic=rng.uniform(.5, 2), n_sersic=rng.uniform(1, 4), **cc),
                   "GAUSSIAN_POTENTIAL": dict(amp=rng.uniform(.5, 3), sigma_x=rng.uniform(.6, 1.5), sigma_y=rng.uniform(.6, 1.5), **cc),
                   "CHAMELEON": dict(alpha_1=rng.uniform(.5, 1.5), w_c=.3, w_t=1.2, e1=e[0], e2=e[1], **cc),
                   "NIE": dict(theta_E=rng.uniform(.7, 1.5), e1=e[0], e2=e[1], s_scale=.2, **cc),
                   "MULTIPOLE": dict(m=4, a_m=.02, phi_m=.3, **cc)}[n])
    return list(names), kw


def _pos(rng, n=5):
    r, p = rng.uniform(.35, 2.2, n), rng.uniform(0, 2 * np.pi, n)
    x, y = r * np.cos(p), r * np.sin(p)
    return (float(x[0]), float(y[0])) if rng.integers(4) == 0 else (x, y)


def _gam(rng, s, omega=True):
    return dict(kappa=rng.uniform(-s, s), gamma1=rng.uniform(-s, s), gamma2=rng.uniform(-s, s), omega=rng.uniform(-s, s) if omega else 0.)


def _mat(k, t):
    return np.array([[1 - k["kappa_" + t] - k["gamma1_" + t], -k["gamma2_" + t] + k["omega_" + t]],
                     [-k["gamma2_" + t] - k["omega_" + t], 1 - k["kappa_" + t] + k["gamma1_" + t]]])


def _los(rng, s=.3, omega=True):
    k = {}
    for t in ("od", "os", "ds"):
        for a, b in _gam(rng, s, omega).items():
            k[a + "_" + t] = float(b)
    return k


def _minimal(rng, s=.3, omega=True):
    k = {}
    for t in ("od", "los"):
        for a, b in _gam(rng, s, omega).items():
            k[a + "_" + t] = float(b)
    full = dict()
    for a in ("kappa", "gamma1", "gamma2", "omega"):
        full[a + "_od"] = full[a + "_ds"] = k[a + "_od"]
        full[a + "_os"] = k[a + "_los"]
    return k, full


def _noisy(names):
    """profiles whose own Hessian is a finite difference (limited to ~1e-6)"""
    return any(n in ("SIE", "NIE", "CHAMELEON") for n in names)


def _insert(names, kw, model, klos, pos):
    return names[:pos] + [model] + names[pos:], kw[:pos] + [klos] + kw[pos:]


def _compose(plain, kw, full, x, y, k=None):
    Aod, Aos, Ads = _mat(full, "od"), _mat(full, "os"), _mat(full, "ds")
    v = np.array([np.atleast_1d(x), np.atleast_1d(y)])
    d = Aod @ v
    a = np.array(plain.alpha(d[0], d[1], kw, k=k))
    beta = Aos @ v - Ads @ a
    H = np.array(plain.hessian(d[0], d[1], kw, k=k)).reshape(2, 2, -1)
    Hl = np.einsum("ij,jkn,kl->iln", Ads, H, Aod) + (np.eye(2) - Aos)[:, :, None]
    return v - beta, Hl, beta, d


def run(case, mon, rng):
    globals()["_run_" + case["kind"]](mon, rng)


def _flat(t):
    return np.array([np.ravel(a) for a in t])


def _compare(mon, L, kwl, plain, kw, full, x, y, tag, cx):
    al, H, beta, d = _compose(plain, kw, full, x, y)
    mon.close("alpha/" + tag, _flat(L.alpha(x, y, kwl)), al, 1e-9, 1e-11, "deflection is the matrix composition", **cx)
    mon.close("alpha/ray_" + tag, _flat(L.ray_shooting(x, y, kwl)), beta, 1e-9, 1e-11, "ray shooting", **cx)
    h = _flat(L.hessian(x, y, kwl))
    mon.close("hessian/" + tag, h, H.reshape(4, -1), 1e-8, 1e-10 if not _noisy(cx["models"]) else 3e-5, "Hessian is the matrix composition", **cx)
    s = 1e-5
    X, Y = np.atleast_1d(x), np.atleast_1d(y)
    ax = (_flat(L.alpha(X + s, Y, kwl)) - _flat(L.alpha(X - s, Y, kwl))) / 2 / s
    ay = (_flat(L.alpha(X, Y + s, kwl)) - _flat(L.alpha(X, Y - s, kwl))) / 2 / s
    mon.close("hessian/fd_" + tag, h, [ax[0], ay[0], ax[1], ay[1]], 2e-4, 2e-4, "Hessian is the derivative of the deflection", **cx)
    J = np.eye(2)[:, :, None] - H
    det = J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0]
    mon.close("hessian/mag_" + tag, 1 / np.ravel(L.magnification(x, y, kwl)), det, 1e-6, 1e-9 if not _noisy(cx["models"]) else 1e-4, "magnification is the determinant of the composed Jacobian", **cx)
    mon.check("alpha/shape_" + tag, np.shape(L.alpha(x, y, kwl)[0]) == np.shape(x), "shape of the input", **cx)


def _run_tidal(mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    names, kw = _main(rng)
    full = _los(rng, .3)
    p = int(rng.integers(len(names) + 1))
    nl, kl = _insert(names, kw, "LOS", full, p)
    x, y = _pos(rng)
    import copy
    kb = copy.deepcopy(kl)
    _compare(mon, LensModel(nl), kl, LensModel(names), kw, full, x, y, "tidal", dict(models=nl))
    mon.check("alpha/input", kb == kl, "parameters unchanged")
    mon.nontrivial("tidal", tuple(nl))


def _run_minimal(mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    names, kw = _main(rng)
    kmin, full = _minimal(rng)
    p = int(rng.integers(len(names) + 1))
    nm, km = _insert(names, kw, "LOS_MINIMAL", kmin, p)
    nl, kl = _insert(names, kw, "LOS", full, p)
    x, y = _pos(rng)
    cx = dict(models=nm)
    A, B = LensModel(nm), LensModel(nl)
    mon.close("minimal/alpha", _flat(A.alpha(x, y, km)), _flat(B.alpha(x, y, kl)), 1e-10, 1e-12, "same deflection as the full form", **cx)
    mon.close("minimal/hessian", _flat(A.hessian(x, y, km)), _flat(B.hessian(x, y, kl)), 1e-10, 1e-12 if not _noisy(names) else 3e-5, "same Hessian", **cx)
    mon.close("minimal/fermat", np.ravel(A.fermat_potential(x, y, km)), np.ravel(B.fermat_potential(x, y, kl)), 1e-9, 1e-11, "same Fermat potential", **cx)
    mon.close("minimal/fermat_src", np.ravel(A.fermat_potential(x, y, km, .1, -.05)), np.ravel(B.fermat_potential(x, y, kl, .1, -.05)), 1e-9, 1e-11, "same Fermat potential", **cx)
    _compare(mon, A, km, LensModel(names), kw, full, x, y, "minimal", cx)
    mon.nontrivial("minimal", tuple(nm))


def _run_fermat(mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    names, kw = _main(rng)
    p = int(rng.integers(len(names) + 1))
    full = _los(rng, .25)
    nl, kl = _insert(names, kw, "LOS", full, p)
    L, plain = LensModel(nl), LensModel(names)
    x, y = _pos(rng)
    cx = dict(models=nl)
    Aod, Aos, Ads = _mat(full, "od"), _mat(full, "os"), _mat(full, "ds")

    def phi(X, Y, bx, by):
        v = np.array([np.atleast_1d(X), np.atleast_1d(Y)])
        d = Aod @ v
        f = v - np.linalg.inv(Aos) @ np.array([np.atleast_1d(bx) + 0 * v[0], np.atleast_1d(by) + 0 * v[0]])
        M = Aod.T @ np.linalg.inv(Ads) @ Aos
        return .5 * np.einsum("in,ij,jn->n", f, M, f) - np.ravel(plain.potential(d[0], d[1], kw))
    bx, by = rng.normal(size=2) * .1
    mon.close("fermat/value", np.ravel(L.fermat_potential(x, y, kl, bx, by)), phi(x, y, bx, by), 1e-9, 1e-10, "Fermat potential for a given source", **cx)
    sx, sy = L.ray_shooting(x, y, kl)
    mon.close("fermat/own", np.ravel(L.fermat_potential(x, y, kl)), phi(x, y, sx, sy), 1e-9, 1e-10, "Fermat potential of the ray's own source", **cx)
    # Fermat's principle where the composite matrix is symmetric (minimal, no rotation)
    kmin, fullm = _minimal(rng, .25, omega=False)
    nm, km = _insert(names, kw, "LOS_MINIMAL", kmin, p)
    M = LensModel(nm)
    X, Y = np.atleast_1d(x), np.atleast_1d(y)
    sx, sy = M.ray_shooting(X, Y, km)
    s = 1e-4
    gx = (np.ravel(M.fermat_potential(X + s, Y, km, sx, sy)) - np.ravel(M.fermat_potential(X - s, Y, km, sx, sy))) / 2 / s
    gy = (np.ravel(M.fermat_potential(X, Y + s, km, sx, sy)) - np.ravel(M.fermat_potential(X, Y - s, km, sx, sy))) / 2 / s
    mon.close("fermat/principle", [gx, gy], np.zeros((2, len(X))), 0, 2e-5, "images are stationary points of the arrival time", models=nm)
    mon.nontrivial("fermat", tuple(nl))


def _run_zero(mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.profile_list_base import lens_class
    names, kw = _main(rng)
    p = int(rng.integers(len(names) + 1))
    plain = LensModel(names)
    x, y = _pos(rng)
    for m in ("LOS", "LOS_MINIMAL", "LOS_FLEXION", "LOS_FLEXION_MINIMAL"):
        z = {k: 0. for k in lens_class(m).param_names}
        nl, kl = _insert(names, kw, m, z, p)
        L = LensModel(nl)
        cx = dict(models=nl)
        mon.close("zero/alpha", _flat(L.alpha(x, y, kl)), _flat(plain.alpha(x, y, kw)), 1e-10, 1e-12, "no line-of-sight terms: plain deflection", **cx)
        mon.close("zero/hessian", _flat(L.hessian(x, y, kl)), _flat(plain.hessian(x, y, kw)), 1e-10, 1e-12 if not _noisy(names) else 3e-5, "plain Hessian", **cx)
        mon.close("zero/fermat", np.ravel(L.fermat_potential(x, y, kl)), np.ravel(plain.fermat_potential(x, y, kw)), 1e-9, 1e-11, "plain Fermat potential", **cx)
        mon.close("zero/potential", np.ravel(L.potential(x, y, kl)), np.ravel(plain.potential(x, y, kw)), 1e-9, 1e-11, "potential of the main lens", **cx)
    mon.nontrivial("zero", tuple(names), p)


def _run_select(mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    names, kw = [], []
    while len(names) < 2:
        names, kw = _main(rng)
    plain = LensModel(names)
    p = int(rng.integers(len(names) + 1))
    kmin, full = _minimal(rng, .2)
    flex = _flexfull(rng, .02)
    x, y = _pos(rng)
    n = len(names) + 1
    full_idx = [i for i in range(n) if i != p]
    pick = sorted(rng.choice(full_idx, size=int(rng.integers(1, len(full_idx) + 1)), replace=False).tolist())
    sub = [full_idx.index(i) for i in pick]
    k = pick[0] if len(pick) == 1 and rng.integers(2) else (pick if rng.integers(2) else [i in pick for i in range(n)])
    for model, kk in (("LOS", full), ("LOS_MINIMAL", kmin)):
        nl, kl = _insert(names, kw, model, kk, p)
        L = LensModel(nl)
        cx = dict(models=nl, k=k)
        al, H, beta, d = _compose(plain, kw, full, x, y, k=sub)
        mon.close("select/alpha", _flat(L.alpha(x, y, kl, k=k)), al, 1e-9, 1e-11, "deflection of the selected profiles", **cx)
        mon.close("select/hessian", _flat(L.hessian(x, y, kl, k=k)), H.reshape(4, -1), 1e-8, 1e-10 if not _noisy(names) else 3e-5, "Hessian of the selected profiles", **cx)
        mon.close("select/potential", np.ravel(L.potential(x, y, kl, k=k)), np.ravel(plain.potential(x, y, kw, k=sub)), 1e-9, 1e-11, "potential of the selected profiles", **cx)
    nl, kl = _insert(names, kw, "LOS_FLEXION", flex, p)
    L = LensModel(nl)
    ns, ks = _insert([names[i] for i in sub], [kw[i] for i in sub], "LOS_FLEXION", flex, 0)
    S = LensModel(ns)
    cx = dict(models=nl, k=k)
    mon.close("select/flex_alpha", _flat(L.alpha(x, y, kl, k=k)), _flat(S.alpha(x, y, ks)), 1e-9, 1e-11, "selected profiles with flexion", **cx)
    mon.close("select/flex_hessian", _flat(L.hessian(x, y, kl, k=k)), _flat(S.hessian(x, y, ks)), 1e-9, 1e-11 if not _noisy(names) else 3e-5, "selected profiles with flexion", **cx)
    mon.close("select/flex_potential", np.ravel(L.potential(x, y, kl, k=k)), np.ravel(plain.potential(x, y, kw, k=sub)), 1e-9, 1e-11, "potential of the selected profiles", **cx)
    # the place of the LOS entry in the list does not matter
    q = int(rng.integers(n))
    n2, k2 = _insert(names, kw, "LOS_FLEXION", flex, q)
    mon.close("select/order", _flat(LensModel(n2).alpha(x, y, k2)), _flat(L.alpha(x, y, kl)), 1e-10, 1e-12, "order of the list", models=n2)
    mon.nontrivial("select", p, len(pick), type(k).__name__)


FL = ["F1", "F2", "G1", "G2"]


def _flexfull(rng, s):
    k = {}
    for t in ("od", "os", "ds"):
        for a in ("kappa", "gamma1", "gamma2"):
            k[a + "_" + t] = float(rng.uniform(-s, s))
    for t in ("od", "os", "1ds", "2ds"):
        for a in FL:
            k[a + "_" + t] = float(rng.uniform(-s, s))
    k["omega_os"] = float(rng.uniform(-s, s))
    return k


def _flex_alpha(k, t, th):
    """deflection of a tidal + flexion field in complex notation"""
    F, G = k["F1_" + t] + 1j * k["F2_" + t], k["G1_" + t] + 1j * k["G2_" + t]
    c = np.conj(th)
    kap, gam = k.get("kappa_" + t, 0), k.get("gamma1_" + t, 0) + 1j * k.get("gamma2_" + t, 0)
    return kap * th + gam * c + .5 * (np.conj(F) * th ** 2 + 2 * F * th * c + G * c ** 2)


def _run_flexion(mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    names, kw = _main(rng)
    p = int(rng.integers(len(names) + 1))
    plain = LensModel(names)
    x, y = _pos(rng)
    X, Y = np.atleast_1d(x), np.atleast_1d(y)
    th = X + 1j * Y
    s = float(rng.choice([.05, .01, 1e-3]))
    k = _flexfull(rng, s)
    nl, kl = _insert(names, kw, "LOS_FLEXION", k, p)
    L = LensModel(nl)
    cx = dict(models=nl, strength=s)
    td = th - _flex_alpha(k, "od", th)
    a0 = np.array(plain.alpha(X, Y, kw))
    a0 = a0[0] + 1j * a0[1]
    ad = np.array(plain.alpha(td.real, td.imag, kw))
    ad = ad[0] + 1j * ad[1]
    a_os = _flex_alpha(k, "os", th) + 1j * k["omega_os"] * th
    # background term: derivative of the 2ds field applied to the main deflection, plus the 1ds quadratic term
    F2, G2 = k["F1_2ds"] + 1j * k["F2_2ds"], k["G1_2ds"] + 1j * k["G2_2ds"]
    kap = k["kappa_ds"] + 2 * np.real(np.conj(F2) * th)
    gam = k["gamma1_ds"] + 1j * k["gamma2_ds"] + F2 * th + G2 * np.conj(th)
    k1 = {"kappa_q": 0, "gamma1_q": 0, "gamma2_q": 0, **{a + "_q": k[a + "_1ds"] for a in FL}}
    tot = ad + a_os - kap * a0 - gam * np.conj(a0) + _flex_alpha(k1, "q", a0)
    got = _flat(L.alpha(x, y, kl))
    mon.close("flexion/alpha", got, [tot.real, tot.imag], 1e-9, 1e-11, "deflection with flexion", **cx)
    # Hessian is the derivative up to second order in the line-of-sight terms
    h = _flat(L.hessian(x, y, kl))
    st = 1e-4
    ax = (_flat(L.alpha(X + st, Y, kl)) - _flat(L.alpha(X - st, Y, kl))) / 2 / st
    ay = (_flat(L.alpha(X, Y + st, kl)) - _flat(L.alpha(X, Y - st, kl))) / 2 / st
    p0 = _flat(plain.hessian(x, y, kw))
    b0x = (_flat(plain.alpha(X + st, Y, kw)) - _flat(plain.alpha(X - st, Y, kw))) / 2 / st
    b0y = (_flat(plain.alpha(X, Y + st, kw)) - _flat(plain.alpha(X, Y - st, kw))) / 2 / st
    # difference of the line-of-sight part only, so that the finite-difference error of the main lens cancels
    d1 = h - p0
    d2 = np.array([ax[0], ay[0], ax[1], ay[1]]) - np.array([b0x[0], b0y[0], b0x[1], b0y[1]])
    scale = 1 + np.max(np.abs(p0)) ** 3 + np.max(np.abs(a0)) ** 2
    if s <= 1e-3 and not _noisy(names):
        mon.close("flexion/hessian", d1 / s, d2 / s, 0, 300 * s * scale, "Hessian is the derivative of the deflection to first order in the line-of-sight terms", **cx)
    # each term alone, at vanishing strength
    key = list(k)[int(rng.integers(len(k)))]
    e = 1e-5
    kz = {a: 0. for a in k}
    kz[key] = e
    _, ke = _insert(names, kw, "LOS_FLEXION", kz, p)
    _, k0 = _insert(names, kw, "LOS_FLEXION", {a: 0. for a in k}, p)
    dh = (_flat(L.hessian(X, Y, ke)) - _flat(L.hessian(X, Y, k0))) / e
    da = lambda xx, yy: (_flat(L.alpha(xx, yy, ke)) - _flat(L.alpha(xx, yy, k0))) / e
    st = 1e-3
    fx = (8 * (da(X + st, Y) - da(X - st, Y)) - (da(X + 2 * st, Y) - da(X - 2 * st, Y))) / 12 / st
    fy = (8 * (da(X, Y + st) - da(X, Y - st)) - (da(X, Y + 2 * st) - da(X, Y - 2 * st))) / 12 / st
    if names != ["NFW", "SIS", "CONVERGENCE"] and not _noisy(names):  # positions are drawn away from the main centre only
        mon.close("flexion/hessian_term", dh, [fx[0], fy[0], fx[1], fy[1]], 2e-3, 2e-3 * scale, "response of the Hessian to a single term", term=key, **cx)
    # without flexion and rotation it is the tidal model to first order
    e = 1e-4
    kt = {a: (v / s * e if not (a[0] in "FG" or a == "omega_os") else 0.) for a, v in k.items()}
    tid = {**{a: v for a, v in kt.items() if a.split("_")[0] in ("kappa", "gamma1", "gamma2")}, "omega_od": 0., "omega_os": 0., "omega_ds": 0.}
    _, k1 = _insert(names, kw, "LOS_FLEXION", kt, p)
    n2, k2 = _insert(names, kw, "LOS", tid, p)
    T = LensModel(n2)
    mon.close("flexion/tidal", _flat(L.alpha(x, y, k1)), _flat(T.alpha(x, y, k2)), 0, 300 * e ** 2 * scale, "flexion-free limit is the tidal model", **cx)
    mon.nontrivial("flexion", tuple(nl), s, key)


def _run_flexmin(mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    names, kw = _main(rng)
    p = int(rng.integers(len(names) + 1))
    x, y = _pos(rng)
    s = .05
    km = {}
    for t in ("od", "los"):
        for a in ("kappa", "gamma1", "gamma2"):
            km[a + "_" + t] = float(rng.uniform(-s, s))
    for t in ("od", "los", "1los"):
        for a in FL:
            km[a + "_" + t] = float(rng.uniform(-s, s))
    km["omega_los"] = float(rng.uniform(-s, s))
    full = {"omega_os": km["omega_los"]}
    for a in ("kappa", "gamma1", "gamma2"):
        full[a + "_od"] = full[a + "_ds"] = km[a + "_od"]
        full[a + "_os"] = km[a + "_los"]
    for a in FL:
        full[a + "_od"] = full[a + "_2ds"] = km[a + "_od"]
        full[a + "_os"] = km[a + "_los"]
        full[a + "_1ds"] = km[a + "_1los"]
    nm, k1 = _insert(names, kw, "LOS_FLEXION_MINIMAL", km, p)
    nf, k2 = _insert(names, kw, "LOS_FLEXION", full, p)
    A, B = LensModel(nm), LensModel(nf)
    cx = dict(models=nm)
    mon.close("minimal/flex_alpha", _flat(A.alpha(x, y, k1)), _flat(B.alpha(x, y, k2)), 1e-10, 1e-12, "same deflection as the full form", **cx)
    mon.close("minimal/flex_hessian", _flat(A.hessian(x, y, k1)), _flat(B.hessian(x, y, k2)), 1e-10, 1e-12 if not _noisy(names) else 3e-5, "same Hessian", **cx)
    mon.close("minimal/flex_fermat", np.ravel(A.fermat_potential(x, y, k1)), np.ravel(B.fermat_potential(x, y, k2)), 1e-9, 1e-11, "same Fermat potential", **cx)
    # Fermat potential of the flexion-free limit: tidal model to first order
    e = 1e-4
    kt = {a: (v / s * e if a.split("_")[0] in ("kappa", "gamma1", "gamma2") else 0.) for a, v in km.items()}
    tid = {a: v for a, v in kt.items() if a.split("_")[0] in ("kappa", "gamma1", "gamma2")}
    tid.update(omega_od=0., omega_los=0.)
    _, k3 = _insert(names, kw, "LOS_FLEXION_MINIMAL", kt, p)
    n4, k4 = _insert(names, kw, "LOS_MINIMAL", tid, p)
    T = LensModel(n4)
    plain = LensModel(names)
    a0 = np.max(np.abs(_flat(plain.alpha(x, y, kw))))
    h0 = np.max(np.abs(_flat(plain.hessian(x, y, kw))))
    mon.close("flexion/fermat_tidal", np.ravel(A.fermat_potential(x, y, k3)), np.ravel(T.fermat_potential(x, y, k4)), 0, 500 * e ** 2 * (1 + a0 ** 2 + h0 ** 3), "Fermat potential in the flexion-free limit", **cx)
    # masses and densities ignore the line of sight
    mon.nontrivial("flexmin", tuple(nm))


def _run_multiplane(mon, rng):
    """a tidal line of sight is what multi-plane ray-tracing through sheets of shear and convergence gives"""
    from lenstronomy.LensModel.lens_model import LensModel
    from astropy.cosmology import FlatLambdaCDM
    cosmo = FlatLambdaCDM(H0=70, Om0=.3)
    names, kw = _main(rng)
    zl, zs = .5, 2.
    zf, zb = float(rng.uniform(.1, .4)), float(rng.uniform(.7, 1.6))
    fk = dict(kappa=rng.uniform(-.1, .1), g=rng.uniform(-.1, .1, 2))
    bk = dict(kappa=rng.uniform(-.1, .1), g=rng.uniform(-.1, .1, 2))

    def D(a, b):
        return cosmo.angular_diameter_distance_z1z2(a, b).value
    # sheets in MultiPlane are given for the source redshift
    mp = ["CONVERGENCE", "SHEAR"] + names + ["CONVERGENCE", "SHEAR"]
    kmp = [dict(kappa=fk["kappa"], ra_0=0, dec_0=0), dict(gamma1=fk["g"][0], gamma2=fk["g"][1], ra_0=0, dec_0=0)] + kw + \
          [dict(kappa=bk["kappa"], ra_0=0, dec_0=0), dict(gamma1=bk["g"][0], gamma2=bk["g"][1], ra_0=0, dec_0=0)]
    zz = [zf, zf] + [zl] * len(names) + [zb, zb]
    M = LensModel(mp, z_source=zs, lens_redshift_list=zz, multi_plane=True, cosmo=cosmo)

    def G(k):
        return np.array([[k["kappa"] + k["g"][0], k["g"][1]], [k["g"][1], k["kappa"] - k["g"][0]]])
    # linear matrices between observer (o), deflector (d) and source (s)
    Gf, Gb = G(fk), G(bk)
    I = np.eye(2)
    rod = D(zf, zl) / D(0, zl) * D(0, zs) / D(zf, zs)
    Aod = I - rod * Gf
    rfb = D(zf, zb) / D(0, zb) * D(0, zs) / D(zf, zs)
    tb = I - rfb * Gf
    Aos = I - Gf - Gb @ tb
    # source response to a deflection at d: direct term and the background sheet it crosses
    rdb = D(zl, zb) / D(0, zb) * D(0, zs) / D(zl, zs)
    Ads = I - rdb * Gb

    def terms(A, t):
        B = I - A
        return {"kappa_" + t: (B[0, 0] + B[1, 1]) / 2, "gamma1_" + t: (B[0, 0] - B[1, 1]) / 2, "gamma2_" + t: (B[0, 1] + B[1, 0]) / 2, "omega_" + t: (B[1, 0] - B[0, 1]) / 2}
    full = {**terms(Aod, "od"), **terms(Aos, "os"), **terms(Ads, "ds")}
    nl, kl = _insert(names, kw, "LOS", full, int(rng.integers(len(names) + 1)))
    L = LensModel(nl)
    x, y = _pos(rng)
    cx = dict(models=nl, z=(zf, zb))
    mon.close("multiplane/ray", _flat(L.ray_shooting(x, y, kl)), _flat(M.ray_shooting(x, y, kmp)), 1e-7, 1e-8, "line-of-sight model equals multi-plane ray tracing", **cx)
    mon.close("multiplane/hessian", _flat(L.hessian(x, y, kl)), _flat(M.hessian(x, y, kmp)), 2e-4, 2e-4, "and its Jacobian", **cx)
    mon.nontrivial("multiplane", tuple(names), round(zf, 1))

"""C30: tabulated / decomposed lensing and light reproduce what they were built from."""
import warnings
import numpy as np

RULE = ("online oracles on the real tabulated and decomposed models: asymmetric analytic fields are tabulated on non-square, "
        "off-centre grids and the interpolated model is compared with independent bilinear/spline references at the nodes, "
        "between and outside; convergence integrals are compared with a direct double sum; transforms are composed with "
        "their inverses")
ASSUMPTIONS = ["radial interpolation judged inside the tabulated range", "kappa integrals compared up to the additive constant of the potential",
               "shapelet decomposition on grids that sample and contain the basis"]
REQUIRED = ["check:lens", "check:scaled", "check:light", "check:radial", "check:kappa", "check:shapelet", "check:starlet",
            "check:mge", "check:gdec", "check:synth", "check:l2m"]
TIMEOUT = 300
KINDS = ["lens", "scaled", "light", "radial", "kappa", "adaptive", "shapelet", "polar", "starlet", "mge", "gdec", "synth", "l2m"]


def cases(tier, seed):
    n = 12 if tier == "quick" else 200
    out = []
    for i in range(n):
        for k in KINDS:
            if k in ("l2m", "gdec") and i >= n // 3:
                continue
            out.append(dict(name=f"{k}/{i}", group=k, kind=k, i=i, cost=4 if k == "l2m" else 1))
    return out


def run(case, mon, rng):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + case["kind"]](mon, rng)


def _field(rng):
    """asymmetric analytic potential with its derivatives (a few Gaussian bumps plus a cubic)"""
    a = rng.normal(0, 1, 3)
    cx, cy = rng.uniform(-1, 1, (2, 3))
    s = rng.uniform(0.8, 2, 3)
    g = rng.normal(0, 0.3, 4)

    def f(x, y):
        return sum(ai * np.exp(-((x - u) ** 2 + (y - v) ** 2) / 2 / w ** 2) for ai, u, v, w in zip(a, cx, cy, s)) + \
            g[0] * x + g[1] * y + g[2] * x * y + g[3] * x ** 2 * y

    def d(x, y):
        e = [ai * np.exp(-((x - u) ** 2 + (y - v) ** 2) / 2 / w ** 2) for ai, u, v, w in zip(a, cx, cy, s)]
        fx = sum(-ei * (x - u) / w ** 2 for ei, u, w in zip(e, cx, s)) + g[0] + g[2] * y + 2 * g[3] * x * y
        fy = sum(-ei * (y - v) / w ** 2 for ei, v, w in zip(e, cy, s)) + g[1] + g[2] * x + g[3] * x ** 2
        fxx = sum(ei * ((x - u) ** 2 / w ** 4 - 1 / w ** 2) for ei, u, w in zip(e, cx, s)) + 2 * g[3] * y
        fyy = sum(ei * ((y - v) ** 2 / w ** 4 - 1 / w ** 2) for ei, v, w in zip(e, cy, s))
        fxy = sum(ei * (x - u) * (y - v) / w ** 4 for ei, u, v, w in zip(e, cx, cy, s)) + g[2] + 2 * g[3] * x
        return fx, fy, fxx, fyy, fxy
    return f, d


def _table(rng, f, d, uniform=None):
    nx, ny = int(rng.integers(6, 25)), int(rng.integers(6, 25))
    if uniform is None:
        uniform = rng.random() < 0.6
    x = np.linspace(*np.sort(rng.uniform(-3, 3, 2) + [-1, 1]), nx)
    y = np.linspace(*np.sort(rng.uniform(-3, 3, 2) + [-1, 1]), ny)
    if not uniform:
        x = x[0] + (x[-1] - x[0]) * ((x - x[0]) / (x[-1] - x[0])) ** 1.3
    X, Y = np.meshgrid(x, y)
    fx, fy, fxx, fyy, fxy = d(X, Y)
    return x, y, X, Y, dict(grid_interp_x=x, grid_interp_y=y, f_=f(X, Y), f_x=fx, f_y=fy, f_xx=fxx, f_yy=fyy, f_xy=fxy)


def _bilin(x, y, tab, px, py):
    """independent bilinear interpolation, tab[iy, ix]; clamped outside"""
    px, py = np.clip(px, x[0], x[-1]), np.clip(py, y[0], y[-1])
    i = np.clip(np.searchsorted(x, px) - 1, 0, len(x) - 2)
    j = np.clip(np.searchsorted(y, py) - 1, 0, len(y) - 2)
    u = (px - x[i]) / (x[i + 1] - x[i])
    v = (py - y[j]) / (y[j + 1] - y[j])
    return (tab[j, i] * (1 - u) * (1 - v) + tab[j, i + 1] * u * (1 - v) + tab[j + 1, i] * (1 - u) * v + tab[j + 1, i + 1] * u * v)


def _positions(rng, x, y, n):
    px = rng.uniform(x[0], x[-1], n)
    py = rng.uniform(y[0], y[-1], n)
    return px, py


def _lens(mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    f, d = _field(rng)
    x, y, X, Y, kw = _table(rng, f, d)
    spline = rng.choice(["default", "linear", "cubic"])
    opts = {} if spline == "default" else dict(kwargs_spline=dict(kx=3, ky=3, s=0) if spline == "cubic" else dict(kx=1, ky=1, s=0))
    grid = rng.random() < 0.3
    if grid:
        opts.update(grid=True, min_grid_number=int(rng.choice([4, 100])))
    tabulated = rng.random() < 0.7
    kwu = dict(kw) if tabulated else {k: v for k, v in kw.items() if k not in ("f_xx", "f_yy", "f_xy")}
    mon.nontrivial("lens", str(spline), bool(grid), bool(tabulated), len(x) != len(y))
    L = LensModel(["INTERPOL"], profile_kwargs_list=[opts])
    if grid:
        n = int(rng.integers(4, 12))
        gx, gy = np.meshgrid(np.linspace(x[1], x[-2], n), np.linspace(y[1], y[-2], n))
        px, py = gx.ravel(), gy.ravel()
    else:
        px, py = _positions(rng, x, y, int(rng.choice([1, 7, 130])))
    sc = 1 + np.max(np.abs(kw["f_"]))
    sd = 1 + max(np.max(np.abs(kw["f_x"])), np.max(np.abs(kw["f_y"])))
    order = list(rng.permutation(3))
    got = {}
    for o in order:
        if o == 0:
            got["f_"] = L.potential(px, py, [kwu])
        elif o == 1:
            got["f_x"], got["f_y"] = L.alpha(px, py, [kwu])
        else:
            got["f_xx"], got["f_xy"], got["f_yx"], got["f_yy"] = L.hessian(px, py, [kwu])
    for k in ("f_", "f_x", "f_y"):
        if spline != "cubic":
            mon.close(f"lens/between/{k}", got[k], _bilin(x, y, kw[k], px, py), 1e-9, 1e-9 * sc, "bilinear interpolation of the table", order=order)
    if tabulated and spline != "cubic":
        for k in ("f_xx", "f_xy", "f_yy"):
            mon.close(f"lens/between/{k}", got[k], _bilin(x, y, kw[k], px, py), 1e-9, 1e-9 * sd, "bilinear interpolation of the table")
        mon.close("lens/between/f_yx", got["f_yx"], got["f_xy"], 1e-12, 1e-12, "symmetric Hessian")
    if not tabulated and spline == "linear" and not grid:
        h = 1e-4
        inside = (np.min(np.abs(px[:, None] - x), axis=1) > 2 * h) & (np.min(np.abs(py[:, None] - y), axis=1) > 2 * h)
        for a, b, dx, dy in (("f_xx", "f_x", h, 0), ("f_xy", "f_x", 0, h), ("f_yx", "f_y", h, 0), ("f_yy", "f_y", 0, h)):
            want = (_bilin(x, y, kw[b], px + dx, py + dy) - _bilin(x, y, kw[b], px - dx, py - dy)) / 2 / h
            mon.close(f"lens/numhess/{a}", np.asarray(got[a])[inside], want[inside], 1e-5, 1e-5 * sd, "Hessian is the derivative of the interpolated deflection")
    # at tabulated positions, scalar calls
    j, i = int(rng.integers(1, len(y) - 1)), int(rng.integers(1, len(x) - 1))
    mon.close("lens/node/f_", L.potential(float(x[i]), float(y[j]), [kwu]), kw["f_"][j, i], 1e-8, 1e-8 * sc, "potential at a node")
    al = L.alpha(float(x[i]), float(y[j]), [kwu])
    mon.close("lens/node/alpha", al, (kw["f_x"][j, i], kw["f_y"][j, i]), 1e-8, 1e-8 * sd, "deflection at a node")
    if tabulated:
        hh = L.hessian(float(x[i]), float(y[j]), [kwu])
        mon.close("lens/node/hessian", hh, (kw["f_xx"][j, i], kw["f_xy"][j, i], kw["f_xy"][j, i], kw["f_yy"][j, i]), 1e-8, 1e-8 * sd, "Hessian at a node")
    # prepared interpolation object
    from lenstronomy.LensModel.Profiles.interpol import Interpol
    I = Interpol(kwargs_spline=dict(kx=1, ky=1, s=0))
    second = {k: kw[k] for k in ("f_xx", "f_yy", "f_xy")} if tabulated else {}
    I.do_interp(x, y, kw["f_"], kw["f_x"], kw["f_y"], **second)
    qx, qy = _positions(rng, x, y, 5)
    mon.close("lens/prepared/f_", I.function(qx, qy), _bilin(x, y, kw["f_"], qx, qy), 1e-9, 1e-9 * sc, "prepared interpolation")
    a = I.derivatives(qx, qy)
    mon.close("lens/prepared/alpha", a, [_bilin(x, y, kw[k], qx, qy) for k in ("f_x", "f_y")], 1e-9, 1e-9 * sd, "prepared interpolation")
    if tabulated:
        h = I.hessian(qx, qy)
        mon.close("lens/prepared/hessian", h, [_bilin(x, y, kw[k], qx, qy) for k in ("f_xx", "f_xy", "f_xy", "f_yy")], 1e-9, 1e-9 * sd, "prepared interpolation")
    # convergence to the field for a fine cubic table
    xf, yf = np.linspace(-2, 2, 61), np.linspace(-2.5, 1.5, 57)
    XF, YF = np.meshgrid(xf, yf)
    D = d(XF, YF)
    kf = dict(grid_interp_x=xf, grid_interp_y=yf, f_=f(XF, YF), f_x=D[0], f_y=D[1], f_xx=D[2], f_yy=D[3], f_xy=D[4])
    Lf = LensModel(["INTERPOL"], profile_kwargs_list=[dict(kwargs_spline=dict(kx=3, ky=3, s=0))])
    qx, qy = rng.uniform(-1.8, 1.8, 6), rng.uniform(-2.3, 1.3, 6)
    T = d(qx, qy)
    mon.close("lens/fine/f_", Lf.potential(qx, qy, [kf]), f(qx, qy), 1e-4, 1e-4 * sc, "interpolated potential")
    mon.close("lens/fine/alpha", Lf.alpha(qx, qy, [kf]), T[:2], 1e-4, 1e-4 * sd, "interpolated deflection")
    mon.close("lens/fine/hessian", Lf.hessian(qx, qy, [kf]), (T[2], T[4], T[4], T[3]), 1e-3, 1e-3 * sd, "interpolated Hessian")
    k = Lf.kappa(qx, qy, [kf])
    mon.close("lens/fine/kappa", k, (T[2] + T[3]) / 2, 1e-3, 1e-3 * sd, "convergence")


def _scaled(mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    f, d = _field(rng)
    x, y, X, Y, kw = _table(rng, f, d)
    tabulated = rng.random() < 0.7
    kwu = dict(kw) if tabulated else {k: v for k, v in kw.items() if k not in ("f_xx", "f_yy", "f_xy")}
    mon.nontrivial("scaled", bool(tabulated), len(x) != len(y))
    n = int(rng.choice([0, 1, 9, 100, 150]))
    px, py = _positions(rng, x, y, max(n, 1))
    if n == 0:
        px, py = float(px[0]), float(py[0])
    L = LensModel(["INTERPOL"])
    M = LensModel(["INTERPOL_SCALED"])
    for s in (float(rng.uniform(0.1, 5)), float(rng.uniform(0.1, 5)), 0.):
        k2 = dict(kwu, scale_factor=s)
        mon.close("scaled/potential", M.potential(px, py, [k2]), s * np.asarray(L.potential(px, py, [kwu])), 1e-10, 1e-12, "scaled potential", scale=s, n=n)
        mon.close("scaled/alpha", M.alpha(px, py, [k2]), s * np.asarray(L.alpha(px, py, [kwu])), 1e-10, 1e-12, "scaled deflection", scale=s, n=n)
        mon.close("scaled/hessian", M.hessian(px, py, [k2]), s * np.asarray(L.hessian(px, py, [kwu])), 1e-8, 1e-8, "scaled Hessian", scale=s, n=n)


def _light(mon, rng):
    from lenstronomy.LightModel.light_model import LightModel
    ny, nx = int(rng.integers(3, 14)), int(rng.integers(3, 14))
    im = rng.random((ny, nx))
    scale = float(rng.uniform(0.05, 2))
    cx, cy = rng.uniform(-3, 3, 2)
    phi = float(rng.choice([0, np.pi / 2, rng.uniform(-np.pi, np.pi)]))
    amp = float(rng.uniform(0.5, 3))
    kw = [dict(image=im, amp=amp, center_x=cx, center_y=cy, phi_G=phi, scale=scale)]
    mon.nontrivial("light", nx != ny, phi != 0)
    M = LightModel(["INTERPOL"])
    J, I = np.mgrid[:ny, :nx]
    u, v = (I - (nx - 1) / 2.) * scale, (J - (ny - 1) / 2.) * scale
    # documented: image rotated by phi_G counter-clockwise onto the sky
    def sky(u, v):
        return cx + np.cos(phi) * u - np.sin(phi) * v, cy + np.sin(phi) * u + np.cos(phi) * v
    X, Y = sky(u, v)
    got = M.surface_brightness(X.ravel(), Y.ravel(), kw)
    mon.close("light/nodes", got, amp * im.ravel(), 1e-9, 1e-9, "surface brightness at the pixel centres", phi=phi, shape=(ny, nx))
    pad = np.zeros((ny + 2, nx + 2))
    pad[1:-1, 1:-1] = im
    xg, yg = (np.arange(nx + 2) - (nx + 1) / 2.) * scale, (np.arange(ny + 2) - (ny + 1) / 2.) * scale
    pu, pv = rng.uniform(xg[0], xg[-1], 30), rng.uniform(yg[0], yg[-1], 30)
    mon.close("light/between", M.surface_brightness(*sky(pu, pv), kw), amp * _bilin(xg, yg, pad, pu, pv), 1e-9, 1e-9, "bilinear in between")
    far = 1.01 * scale * (max(nx, ny) + 2) * np.array([[1, -1, 0, 0], [0, 0, 1, -1]]) / 2 * 1.5
    mon.close("light/outside", M.surface_brightness(*sky(*far), kw), np.zeros(4), 0, 1e-12, "zero outside of the image")
    mon.close("light/total", M.total_flux(kw)[0], amp * im.sum() * scale ** 2, 1e-10, 0, "total flux")
    # the same object used for another image after dropping the cache
    im2 = rng.random((nx, ny))
    M.delete_interpol_caches()
    kw2 = [dict(kw[0], image=im2)]
    J, I = np.mgrid[:nx, :ny]
    X, Y = sky((I - (ny - 1) / 2.) * scale, (J - (nx - 1) / 2.) * scale)
    mon.close("light/recache", M.surface_brightness(X.ravel(), Y.ravel(), kw2), amp * im2.ravel(), 1e-9, 1e-9, "new image after the cache is deleted")


def _radial(mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    from scipy.integrate import quad
    nb = int(rng.integers(5, 30))
    rb = np.sort(np.concatenate([[float(rng.choice([0., 1e-3]))], rng.uniform(0.05, 4, nb)]))
    rb = rb[np.concatenate([[True], np.diff(rb) > 1e-3])]
    kr = np.sort(rng.uniform(0, 3, len(rb)))[::-1] if rng.random() < 0.5 else rng.uniform(0, 2, len(rb))
    cx, cy = rng.uniform(-1, 1, 2)
    kw = [dict(r_bin=rb, kappa_r=kr, center_x=cx, center_y=cy)]
    L = LensModel(["RADIAL_INTERPOL"])
    mon.nontrivial("radial", rb[0] == 0, len(rb))
    # exact piece-wise linear enclosed mass at the bins
    m = [np.pi * rb[0] ** 2 * kr[0]]
    for a, b, ka, kb in zip(rb[:-1], rb[1:], kr[:-1], kr[1:]):
        s = (kb - ka) / (b - a)
        m.append(m[-1] + 2 * np.pi * ((ka - s * a) * (b ** 2 - a ** 2) / 2 + s * (b ** 3 - a ** 3) / 3))
    m = np.array(m)
    sel = rb > 1e-2
    phi = rng.uniform(-np.pi, np.pi, sel.sum())
    x, y = cx + rb[sel] * np.cos(phi), cy + rb[sel] * np.sin(phi)
    # rounding may move the outermost radius a hair outside
    al = m[sel] / np.pi / rb[sel]
    ax, ay = L.alpha(x, y, kw)
    mon.close("radial/alpha", (ax, ay), (al * np.cos(phi), al * np.sin(phi)), 1e-6, 1e-8, "deflection at the radial bins")
    mon.close("radial/kappa", L.kappa(x, y, kw), kr[sel], 1e-5, 1e-6, "convergence at the radial bins")
    fxx, fxy, fyx, fyy = L.hessian(x, y, kw)
    kbar = m[sel] / np.pi / rb[sel] ** 2
    g = kr[sel] - kbar
    mon.close("radial/shear", ((fxx - fyy) / 2, fxy, fyx), (g * np.cos(2 * phi), g * np.sin(2 * phi), g * np.sin(2 * phi)), 1e-5, 1e-6, "shear at the radial bins")
    # potential is the integral of the deflection the model reports
    i, j = sorted(rng.choice(np.where(sel)[0], 2, replace=False))
    def defl(r):
        return float(L.alpha(cx + r, cy, kw)[0])
    nodes = rb[i:j + 1]
    want = sum(quad(defl, a, b)[0] for a, b in zip(nodes[:-1], nodes[1:]))
    p = L.potential(np.array([cx + rb[i], cx + rb[j]]), np.array([cy, cy]), kw)
    mon.close("radial/potential", p[1] - p[0], want, 1e-5, 1e-6, "potential difference between bins")
    # fine radial table of a smooth profile approaches it
    rs = float(rng.uniform(0.5, 1.5))
    rf = np.linspace(0, 6, 400)
    kf = [dict(r_bin=rf, kappa_r=np.exp(-rf ** 2 / 2 / rs ** 2), center_x=cx, center_y=cy)]
    r = rng.uniform(0.3, 5, 6)
    t = rng.uniform(-np.pi, np.pi, 6)
    mon.close("radial/fine", np.hypot(*L.alpha(cx + r * np.cos(t), cy + r * np.sin(t), kf)), 2 * rs ** 2 * (1 - np.exp(-r ** 2 / 2 / rs ** 2)) / r,
              2e-3, 1e-4, "deflection of a finely tabulated profile")


def _direct(kappa, d):
    ny, nx = kappa.shape
    J, I = np.mgrid[:ny, :nx] * d
    dx = I.ravel()[:, None] - I.ravel()
    dy = J.ravel()[:, None] - J.ravel()
    r2 = np.maximum(dx ** 2 + dy ** 2, (d / 2) ** 2)
    k = kappa.ravel() * d * d / np.pi
    return [(q @ k).reshape(ny, nx) for q in (dx / r2, dy / r2, np.log(r2) / 2)]


def _kappa(mon, rng):
    from lenstronomy.LensModel import convergence_integrals as ci
    ny, nx = int(rng.integers(3, 22)), int(rng.integers(3, 22))
    kappa = rng.random((ny, nx)) if rng.random() < 0.6 else rng.normal(0, 1, (ny, nx))
    d = float(10 ** rng.uniform(-2, 1))
    k0 = kappa.copy()
    fx, fy = ci.deflection_from_kappa_grid(kappa, d)
    p = ci.potential_from_kappa_grid(kappa, d)
    a, b, c = _direct(kappa, d)
    mon.nontrivial("kappa", np.sign(nx - ny), nx % 2, ny % 2)
    s = np.abs(np.concatenate([a.ravel(), b.ravel()])).max()
    mon.close("kappa/alpha_x", fx, a, 1e-9, 1e-9 * s, "deflection is the direct sum over the map", shape=(ny, nx))
    mon.close("kappa/alpha_y", fy, b, 1e-9, 1e-9 * s, "deflection is the direct sum over the map", shape=(ny, nx))
    mon.close("kappa/potential", p - p[0, 0], c - c[0, 0], 1e-9, 1e-9 * max(np.abs(c).max(), 1e-12), "potential differences are those of the direct sum", shape=(ny, nx))
    mon.check("kappa/input", np.array_equal(kappa, k0), "the input map is unchanged")
    # analytic Gaussian
    n, dd = 61, 0.1
    g = (np.arange(n) - 30) * dd
    X, Y = np.meshgrid(g, g)
    u, v, w = *rng.uniform(-0.5, 0.5, 2), float(rng.uniform(0.4, 0.6))
    r2 = (X - u) ** 2 + (Y - v) ** 2
    ax, ay = ci.deflection_from_kappa_grid(np.exp(-r2 / 2 / w ** 2), dd)
    al = 2 * w ** 2 * (1 - np.exp(-r2 / 2 / w ** 2)) / np.maximum(r2, 1e-12)
    mon.close("kappa/gauss", (ax, ay), (al * (X - u), al * (Y - v)), 0, 5e-3, "deflection of a Gaussian convergence")
    pot = ci.potential_from_kappa_grid(np.exp(-r2 / 2 / w ** 2), dd)
    gx = (pot[1:-1, 2:] - pot[1:-1, :-2]) / 2 / dd
    gy = (pot[2:, 1:-1] - pot[:-2, 1:-1]) / 2 / dd
    mon.close("kappa/gausspot", (gx, gy), (ax[1:-1, 1:-1], ay[1:-1, 1:-1]), 0, 2e-2, "gradient of the potential is the deflection")


def _adaptive(mon, rng):
    from lenstronomy.LensModel import convergence_integrals as ci
    fac = int(rng.choice([2, 3, 4, 5]))
    m = int(rng.integers(4, 8))
    n = fac * m
    hs = int(rng.choice([3, 5]))
    g = np.arange(n) - (n - 1) / 2
    X, Y = np.meshgrid(g, g)
    u, v = rng.uniform(-n / 5, n / 5, (2, 2))
    w = rng.uniform(fac * 1.0, fac * 2.0, 2)
    kappa = sum(a * np.exp(-((X - p) ** 2 + (Y - q) ** 2) / 2 / s ** 2) for a, p, q, s in zip((1, .5), u, v, w))
    d = float(rng.uniform(0.05, 1))
    def low(z):
        return z.reshape(m, fac, m, fac).mean(axis=(1, 3))
    a, b, c = [low(q) for q in _direct(kappa, d)]
    s = max(np.abs(a).max(), np.abs(b).max())
    mon.nontrivial("adaptive", fac, hs, m % 2)
    fx, fy = ci.deflection_from_kappa_grid_adaptive(kappa, d, fac, hs)
    p = ci.potential_from_kappa_grid_adaptive(kappa, d, fac, hs)
    mon.check("kappa/adaptive_shape", fx.shape == (m, m) and p.shape == (m, m), "low resolution output", shape=fx.shape)
    mon.close("kappa/adaptive", (fx, fy), (a, b), 0, 0.08 * s, "split-resolution deflection approximates the full one", fac=fac, hs=hs)
    mon.close("kappa/adaptive_pot", p - p.mean(), c - c.mean(), 0, 0.15 * np.ptp(c), "split-resolution potential approximates the full one", fac=fac, hs=hs)
    # all of the kernel at high resolution: exact
    big = 2 * n + 1
    fx, fy = ci.deflection_from_kappa_grid_adaptive(kappa, d, fac, big)
    p = ci.potential_from_kappa_grid_adaptive(kappa, d, fac, big)
    mon.close("kappa/adaptive_full", (fx, fy), (a, b), 1e-9, 1e-9 * s, "full-size high resolution kernel is exact")
    mon.close("kappa/adaptive_full_pot", p - p[0, 0], c - c[0, 0], 1e-9, 1e-9 * np.ptp(c), "full-size high resolution kernel is exact")
    # exchanging axes
    gx, gy = ci.deflection_from_kappa_grid_adaptive(kappa.T.copy(), d, fac, hs)
    fx, fy = ci.deflection_from_kappa_grid_adaptive(kappa, d, fac, hs)
    mon.close("kappa/adaptive_axes", (gx.T, gy.T), (fy, fx), 1e-9, 1e-9 * s, "x and y are treated alike")


def _grid2(n, d, cx, cy):
    g = (np.arange(n) - (n - 1) / 2.) * d
    X, Y = np.meshgrid(g + cx, g + cy)
    return X.ravel(), Y.ravel()


def _shapelet(mon, rng):
    from lenstronomy.LightModel.Profiles.shapelets import ShapeletSet, Shapelets
    from lenstronomy.LightModel.light_model import LightModel
    from numpy.polynomial.hermite import hermval
    import math
    n_max = int(rng.integers(0, 7))
    beta = float(10 ** rng.uniform(-1, 0.5))
    cx, cy = rng.uniform(-2, 2, 2)
    num = (n_max + 1) * (n_max + 2) // 2
    amp = rng.normal(0, 1, num)
    mon.nontrivial("shapelet", n_max)
    x, y = _grid2(81, beta * 0.2, cx + rng.uniform(-.1, .1) * beta, cy)
    M = LightModel(["SHAPELETS"])
    kw = [dict(amp=amp, n_max=n_max, beta=beta, center_x=cx, center_y=cy)]
    sb = M.surface_brightness(x, y, kw)
    S = ShapeletSet()
    rec = S.decomposition(sb, x, y, n_max, beta, beta * 0.2, center_x=cx, center_y=cy)
    mon.close("shapelet/identity", rec, amp, 1e-6, 1e-6, "decomposition of a reconstruction", n_max=n_max)
    # independent evaluation in the documented order
    want = np.zeros_like(x)
    k = 0
    for n in range(n_max + 1):
        for n2 in range(n + 1):
            n1 = n - n2
            B = 1.
            for o, u in ((n1, (x - cx) / beta), (n2, (y - cy) / beta)):
                c = np.zeros(o + 1)
                c[o] = 1
                B = B * hermval(u, c) * np.exp(-u ** 2 / 2) / np.sqrt(2. ** o * np.sqrt(np.pi) * math.factorial(o))
            want += amp[k] * B
            k += 1
    mon.close("shapelet/basis", sb, want, 1e-9, 1e-9, "sum of the Hermite basis functions", n_max=n_max)
    # a higher order decomposition leaves the extra coefficients at zero
    rec2 = S.decomposition(sb, x, y, n_max + 1, beta, beta * 0.2, center_x=cx, center_y=cy)
    mon.close("shapelet/extra", rec2, np.concatenate([amp, np.zeros(n_max + 2)]), 1e-6, 1e-6, "orthogonality")
    # scalar, single shapelet (with tabulated Hermite polynomials) and gridded basis
    j = int(rng.integers(len(x)))
    mon.close("shapelet/scalar", M.surface_brightness(float(x[j]), float(y[j]), kw), want[j], 1e-9, 1e-9, "scalar position")
    n1, n2 = int(rng.integers(0, 5)), int(rng.integers(0, 5))
    xs, ys = cx + rng.uniform(-3, 3, 8) * beta, cy + rng.uniform(-3, 3, 8) * beta
    a = Shapelets().function(xs, ys, 1., beta, n1, n2, cx, cy)
    b = Shapelets(interpolation=True).function(xs, ys, 1., beta, n1, n2, cx, cy)
    c = Shapelets(stable_cut=False).function(xs, ys, 1., beta, n1, n2, cx, cy)
    mon.close("shapelet/interpolated", b, a, 0, 5e-3, "tabulated Hermite polynomials")
    mon.close("shapelet/cut", c, a, 1e-9, 1e-12, "numerical cut leaves the core unchanged")
    basis = S.shapelet_basis_2d(n_max, beta, 15, delta_pix=beta * .3, center_x=beta * .4, center_y=-beta * .1)
    gx, gy = _grid2(15, beta * .3, 0, 0)
    w = LightModel(["SHAPELETS"]).surface_brightness(gx, gy, [dict(amp=amp, n_max=n_max, beta=beta, center_x=beta * .4, center_y=-beta * .1)])
    mon.close("shapelet/grid", sum(ai * bi for ai, bi in zip(amp, basis)).ravel(), w, 1e-9, 1e-12, "gridded basis")


def _polar(mon, rng):
    from lenstronomy.LightModel.Profiles.shapelets_polar import ShapeletSetPolar
    exp = bool(rng.random() < 0.5)
    name = "SHAPELETS_POLAR_EXP" if exp else "SHAPELETS_POLAR"
    from lenstronomy.LightModel.light_model import LightModel
    n_max = int(rng.integers(0, 5))
    S = ShapeletSetPolar(exponential=exp)
    num = S.shapelets.num_param(n_max)
    amp = rng.normal(0, 1, num)
    beta = float(10 ** rng.uniform(-1, 0.5))
    cx, cy = rng.uniform(-2, 2, 2)
    mon.nontrivial("polar", exp, n_max)
    for i in range(num):
        n, m, c = S.index2poly(i)
        mon.check("shapelet/index", S.shapelets.poly2index(n, m, c) == i, "coefficient index and order/parity are a bijection", exp=exp, i=i)
        mon.check("shapelet/order", n <= n_max and abs(m) <= n, "orders within n_max", n=n, m=m)
    step, nn = (beta * 0.2, 91) if not exp else (beta * 0.25 * 0.5, 321)
    scale = 1. if not exp else (n_max + 1)
    x, y = _grid2(nn, step * scale if exp else step, cx + 0.37 * step, cy + 0.21 * step)
    sb = LightModel([name]).surface_brightness(x, y, [dict(amp=amp, n_max=n_max, beta=beta, center_x=cx, center_y=cy)])
    rec = S.decomposition(sb, x, y, n_max, beta, step * scale if exp else step, center_x=cx, center_y=cy)
    tol = 1e-4 if not exp else 0.12 * (1 + np.abs(amp).max())
    mon.close(f"shapelet/polar_identity{'_exp' if exp else ''}", rec, amp, 0, tol, "decomposition of a reconstruction", n_max=n_max)


def _starlet(mon, rng):
    from lenstronomy.LightModel.Profiles import starlets_util as su
    from lenstronomy.LightModel.Profiles.starlets import SLIT_Starlets
    from lenstronomy.LightModel.light_model import LightModel
    ny, nx = int(rng.integers(8, 24)), int(rng.integers(8, 24))
    square = rng.random() < 0.6
    if square:
        ny = nx
    ns = int(rng.integers(2, 1 + int(np.log2(min(nx, ny)))))
    im = rng.normal(0, 1, (ny, nx))
    im0 = im.copy()
    mon.nontrivial("starlet", square, ns)
    for gen2 in (False, True):
        w = su.transform(im, ns, second_gen=gen2)
        mon.check("starlet/shape", w.shape == (ns, ny, nx), "one image per scale", shape=w.shape)
        for fast in (True, False):
            mon.close("starlet/identity", su.inverse_transform(w, fast=fast, second_gen=gen2), im, 1e-9, 1e-10, "inverse transform of the transform", gen2=gen2, fast=fast, shape=(ny, nx))
        b = rng.normal(0, 1, (ny, nx))
        mon.close("starlet/linear", su.transform(2 * im - b, ns, second_gen=gen2), 2 * w - su.transform(b, ns, second_gen=gen2), 1e-9, 1e-10, "linear transform")
        mon.close("starlet/constant", su.transform(np.full((ny, nx), 3.), ns, second_gen=gen2)[:-1], np.zeros((ns - 1, ny, nx)), 0, 1e-10, "details of a constant vanish")
    mon.check("starlet/input", np.array_equal(im, im0), "the image is unchanged")
    if square:
        gen2 = bool(rng.random() < 0.5)
        name = "SLIT_STARLETS_GEN2" if gen2 else "SLIT_STARLETS"
        S = SLIT_Starlets(second_gen=gen2, fast_inverse=True)
        c = S.decomposition(im if rng.random() < 0.5 else im.ravel(), ns)
        scale = float(rng.uniform(.05, 1))
        cx, cy = rng.uniform(-1, 1, 2)
        x, y = _grid2(nx, scale, cx, cy)
        M = LightModel([name])
        kw = [dict(amp=c, n_scales=ns, n_pixels=nx * ny, scale=scale, center_x=cx, center_y=cy)]
        mon.close("starlet/model", M.surface_brightness(x, y, kw), im.ravel(), 1e-9, 1e-9, "light model of the decomposed image", gen2=gen2)
        kw3 = [dict(kw[0], amp=S.decomposition_2d(im, ns))]
        mon.close("starlet/model3", LightModel([name]).surface_brightness(x, y, kw3), im.ravel(), 1e-9, 1e-9, "3-d coefficients")


def _mge(mon, rng):
    from lenstronomy.Util import multi_gauss_expansion as mge
    from scipy.integrate import quad
    N = int(rng.integers(3, 15))
    lin = bool(rng.random() < 0.4)
    r = np.logspace(-2, 1, 120) if not lin else np.linspace(0.05, 8, 120)
    if lin:
        sig = np.linspace(r[0], r[-1] / 2, N + 2)[1:-1]
    else:
        sig = np.logspace(np.log10(r[0]), np.log10((r[-1] + 1e-7) / 2), N + 2)[1:-1]
    true = rng.uniform(0, 2, N) * (rng.random(N) < 0.6)
    true[int(rng.integers(N))] = 1.
    flux = sum(a / (2 * np.pi * s ** 2) * np.exp(-r ** 2 / 2 / s ** 2) for a, s in zip(true, sig))
    a, s, norm = mge.mge_1d(r, flux, N=N, linspace=lin)
    mon.nontrivial("mge", N, lin)
    if len(s) != N:
        # documented fall-back to fewer Gaussians when the non-negative solver gives up
        mon.event("mge:reduced")
        return
    mon.close("mge/sigmas", s, sig, 1e-9, 0, "widths span the radial range")
    rec = sum(ai / (2 * np.pi * si ** 2) * np.exp(-r ** 2 / 2 / si ** 2) for ai, si in zip(a, s))
    mon.close("mge/reconstruct", rec, flux, 1e-5, 1e-6 * flux.max(), "flux profile on the span of the Gaussians is reproduced", N=N)
    mon.check("mge/positive", np.all(np.asarray(a) >= 0), "non-negative amplitudes")
    mon.close("mge/norm", norm, np.linalg.norm(rec - flux), 1e-3, 1e-6 * flux.max(), "residual norm")
    mon.close("mge/gaussian", mge.gaussian(r, float(sig[0]), 2.5), 2.5 / (2 * np.pi * sig[0] ** 2) * np.exp(-r ** 2 / 2 / sig[0] ** 2), 1e-12, 1e-300, "normalised Gaussian")
    # general profile
    b = mge.mge_1d(r, np.exp(-r), N=20)
    rec = sum(mge.gaussian(r, si, ai) for ai, si in zip(b[0], b[1]))
    if not lin:
        mid = (r > 0.05) & (r < 4)
        mon.close("mge/exponential", rec[mid], np.exp(-r[mid]), 0, 0.03, "smooth profile approximated")
    # deprojection: the 3-d profile projects back
    a3, s3 = mge.de_projection_3d(np.array(true), np.array(sig))
    R = float(rng.uniform(0.1, 2))
    def rho(z):
        return sum(ai / (2 * np.pi * si ** 2) * np.exp(-(R ** 2 + z ** 2) / 2 / si ** 2) for ai, si in zip(a3, s3))
    proj = 2 * sum(quad(rho, u, v, limit=200)[0] for u, v in zip([0, .02, .1, .5, 2, 8], [.02, .1, .5, 2, 8, 60]))
    want = sum(ai / (2 * np.pi * si ** 2) * np.exp(-R ** 2 / 2 / si ** 2) for ai, si in zip(true, sig))
    mon.close("mge/deproject", proj, want, 1e-5, 1e-9, "projected 3-d profile")


def _gdec(mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    name = str(rng.choice(["SERSIC_ELLIPSE_GAUSS_DEC", "NFW_ELLIPSE_GAUSS_DEC", "CTNFW_GAUSS_DEC", "GNFW_ELLIPSE_GAUSS_DEC"]))
    cx, cy = rng.uniform(-1, 1, 2)
    r = np.array([0.3, 0.7, 1.2, 2.])
    t = rng.uniform(-np.pi, np.pi, 4)
    x, y = cx + r * np.cos(t), cy + r * np.sin(t)
    mon.nontrivial("gdec", name)
    if name.startswith("SERSIC"):
        kw = dict(k_eff=float(rng.uniform(.5, 2)), R_sersic=float(rng.uniform(.7, 1.5)), n_sersic=float(rng.uniform(.8, 4)), e1=0., e2=0., center_x=cx, center_y=cy)
        from lenstronomy.LensModel.Profiles.sersic_utils import SersicUtil
        b = SersicUtil().b_n(kw["n_sersic"])
        want = kw["k_eff"] * np.exp(-b * ((r / kw["R_sersic"]) ** (1 / kw["n_sersic"]) - 1))
        tol = 0.04
    elif name.startswith("NFW"):
        kw = dict(Rs=float(rng.uniform(1, 3)), alpha_Rs=float(rng.uniform(.5, 1.5)), e1=0., e2=0., center_x=cx, center_y=cy)
        want = LensModel(["NFW"]).kappa(x, y, [dict(Rs=kw["Rs"], alpha_Rs=kw["alpha_Rs"], center_x=cx, center_y=cy)])
        tol = 0.05
    elif name.startswith("GNFW"):
        kw = dict(Rs=float(rng.uniform(1, 3)), alpha_Rs=float(rng.uniform(.5, 1.5)), gamma_in=float(rng.uniform(.8, 1.5)), e1=0., e2=0., center_x=cx, center_y=cy)
        from scipy.integrate import quad
        g = kw["gamma_in"]
        def proj(R):
            return 2 * quad(lambda z: (np.hypot(R, z)) ** -g * (1 + np.hypot(R, z)) ** (g - 3), 0, np.inf)[0]
        # normalised by the deflection at Rs: alpha(Rs) = 2 kappa_s Rs * int_0^1 proj(u) u du
        ks = kw["alpha_Rs"] / (2 * kw["Rs"] * quad(lambda u: u * proj(u), 0, 1)[0])
        want = np.array([ks * proj(R) for R in r / kw["Rs"]])
        tol = 0.05
    else:
        kw = dict(r_s=float(rng.uniform(2, 5)), r_core=float(rng.uniform(.1, .3)), r_trunc=float(rng.uniform(20, 30)), a=float(rng.uniform(4, 10)), rho_s=1., center_x=cx, center_y=cy)
        want = None
    L = LensModel([name])
    if want is not None:
        mon.close(f"gdec/kappa/{name}", L.kappa(x, y, [kw]), want, tol, 1e-4, "decomposed convergence approximates the profile", kw=kw)
        f = L.lens_model.func_list[0]
        mon.close(f"gdec/density/{name}", f.density_2d(x, y, **kw), want, tol, 1e-4, "decomposed surface density approximates the profile", kw=kw)
        # decomposition is linear in the normalisation
        norm = {"SERSIC": "k_eff", "NFW": "alpha_Rs", "GNFW": "alpha_Rs"}[name.split("_")[0]]
        k2 = dict(kw)
        k2[norm] = 2 * kw[norm]
        mon.close(f"gdec/linear/{name}", L.kappa(x, y, [k2]), 2 * np.asarray(L.kappa(x, y, [kw])), 1e-9, 1e-12, "linear in the amplitude")
    else:
        k2 = dict(kw, rho_s=3.)
        mon.close("gdec/linear/CTNFW", L.kappa(x, y, [k2]), 3 * np.asarray(L.kappa(x, y, [kw])), 1e-9, 1e-12, "linear in the amplitude")
        # the 3-d decomposition: enclosed deflection positive and about the given centre
        xx = np.array([cx + 1., cx - 1., cx, cx])
        yy = np.array([cy, cy, cy + 1., cy - 1.])
        ax, ay = L.alpha(xx, yy, [kw])
        mon.close("gdec/centre", np.array([ax[0], -ax[1], ay[2], -ay[3]]), np.full(4, ax[0]), 1e-6, 1e-10, "circular about the given centre")


def _synth(mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    # target that lies in the span of the components: exact reproduction
    cx, cy = rng.uniform(-1, 1, 2)
    e1, e2 = rng.uniform(-.1, .1, 2)
    sizes = np.sort(rng.uniform(.1, 3, 4))
    sizes = sizes + 0.3 * np.arange(4)
    comp = [dict(a=1., s=float(s), e1=e1, e2=e2, center_x=cx, center_y=cy) for s in sizes]
    j = int(rng.integers(4))
    target = dict(a=float(rng.uniform(.5, 2)), s=float(sizes[j]), e1=e1, e2=e2, center_x=cx, center_y=cy)
    hyper = dict(lower_log_bound=-2, upper_log_bound=1, num_r_evals=int(rng.integers(20, 60)), sigma=float(rng.choice([0.01, 0.1])))
    S = LensModel(["SYNTHESIS"], profile_kwargs_list=[dict(target_lens_model="CSE", component_lens_model="CSE", kwargs_list=comp, lin_fit_hyperparams=hyper)])
    T = LensModel(["CSE"])
    x, y = cx + rng.uniform(-2, 2, 6), cy + rng.uniform(-2, 2, 6)
    mon.nontrivial("synth", j)
    mon.close("synth/kappa", S.kappa(x, y, [target]), T.kappa(x, y, [target]), 1e-5, 1e-7, "synthesised profile in the span of its components", j=j)
    mon.close("synth/alpha", S.alpha(x, y, [target]), T.alpha(x, y, [target]), 1e-5, 1e-6, "synthesised deflection")
    p, q = np.asarray(S.potential(x, y, [target])), np.asarray(T.potential(x, y, [target]))
    mon.close("synth/potential", p - p[0], q - q[0], 1e-5, 1e-6, "synthesised potential up to a constant")
    t2 = dict(target, a=3 * target["a"])
    mon.close("synth/again", S.alpha(x, y, [t2]), 3 * np.asarray(T.alpha(x, y, [target])), 1e-5, 1e-6, "refit for other parameters")
    # elliptical NFW and Hernquist by cored steep ellipsoids against the circular analytic profiles
    for name, base, kw in (("NFW_ELLIPSE_CSE", "NFW", dict(Rs=float(rng.uniform(.5, 3)), alpha_Rs=float(rng.uniform(.5, 2)))),
                           ("HERNQUIST_ELLIPSE_CSE", "HERNQUIST", dict(Rs=float(rng.uniform(.5, 3)), sigma0=float(rng.uniform(.5, 2))))):
        kc = dict(kw, center_x=cx, center_y=cy)
        want = LensModel([base])
        got = LensModel([name])
        ke = dict(kc, e1=0., e2=0.)
        mon.close(f"synth/{name}", got.kappa(x, y, [ke]), want.kappa(x, y, [kc]), 2e-2, 1e-4, "decomposed convergence of the circular limit")
        mon.close(f"synth/{name}/alpha", got.alpha(x, y, [ke]), want.alpha(x, y, [kc]), 2e-2, 2e-3, "decomposed deflection of the circular limit")


def _l2m(mon, rng):
    from lenstronomy.Analysis.light2mass import light2mass_interpol
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel
    s = float(rng.uniform(.45, .7))
    cx, cy = rng.uniform(-.3, .3, 2)
    e1, e2 = rng.uniform(-.2, .2, 2)
    kw = [dict(amp=float(rng.uniform(.5, 5)), sigma=s, e1=e1, e2=e2, center_x=cx, center_y=cy)]
    models = ["GAUSSIAN_ELLIPSE"]
    if rng.random() < 0.5:
        models.append("GAUSSIAN")
        kw.append(dict(amp=1., sigma=.5, center_x=-cx, center_y=.3))
    n, d, sub = 16, 0.2, int(rng.choice([1, 2]))
    k = light2mass_interpol(models, kw, num_pix=n, delta_pix=d, subgrid_res=sub)
    mon.nontrivial("l2m", len(models), sub)
    L = LensModel(["INTERPOL"])
    x, y = _grid2(n, d, 0, 0)
    mon.close("l2m/grid", (k["grid_interp_x"], k["grid_interp_y"]), (x[:n], y[::n]), 1e-9, 1e-9, "grid of the returned table")
    sb = LightModel(models).surface_brightness
    # normalisation: unit mean within one angular unit
    g = d / sub
    X, Y = _grid2(n * 5 * sub, g, 0, 0)
    m = X ** 2 + Y ** 2 <= 1
    kap = sb(X, Y, kw) / np.mean(sb(X, Y, kw)[m])
    inner = (np.abs(x) < 1) & (np.abs(y) < 1)
    got = L.kappa(x, y, [k])
    want = sb(x, y, kw) / np.mean(sb(X, Y, kw)[m])
    mon.close("l2m/kappa", got[inner], want[inner], 0, 0.15 * want.max(), "convergence follows the light")
    i = np.where(inner)[0][int(rng.integers(inner.sum()))]
    ax, ay = L.alpha(x[i:i + 1], y[i:i + 1], [k])
    dx, dy = x[i] - X, y[i] - Y
    r2 = np.maximum(dx ** 2 + dy ** 2, (g / 2) ** 2)
    far = np.sqrt(r2) > 1e-9
    w = kap * g * g / np.pi
    amax = np.abs(np.hypot(k["f_x"], k["f_y"])).max()
    mon.close("l2m/alpha", (ax[0], ay[0]), (np.sum(w * dx / r2), np.sum(w * dy / r2)), 0, 0.03 * amax, "deflection of the light-traced mass")

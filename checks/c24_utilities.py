"""C24: conversion utilities are inverse bijections; grid/bin/pad/cut helpers preserve what they document."""
import copy
import numpy as np

RULE = ("online oracles on the real utility functions: every conversion pair is composed in both orders on the whole "
        "domain (angles wrapped, zero ellipticity, extreme axis ratios, scalars/1-d/2-d arrays) and every grid, binning, "
        "padding, cutting and resampling helper is compared with an independent pixel-by-pixel reference; inputs are "
        "fingerprinted before and after")
ASSUMPTIONS = ["ellipticity modulus below the documented 0.9999 clip", "resampling compared on fields the interpolation order represents exactly"]
REQUIRED = ["check:conv", "check:grid", "check:image", "check:kernel", "check:sampling", "check:mask", "check:select", "check:stat", "check:analysis"]
TIMEOUT = 300

KINDS = ["ellip", "shear", "polar", "flux", "arrays", "grid", "coordgrid", "subgrid", "rebin", "layers", "resample",
         "masks", "select", "sampling", "kernel", "derivs", "stats", "analysis", "align"]


def cases(tier, seed):
    n = 10 if tier == "quick" else 300
    return [dict(name=f"{k}/{i}", group=k, kind=k, i=i, cost=1) for i in range(n) for k in KINDS]


def _shape(rng, v):
    """a scalar, 1-d or 2-d version of generated values"""
    k = rng.integers(3)
    if k == 0:
        return float(np.ravel(v)[0])
    return v if k == 1 else v.reshape(2, -1)


def _wrap(d, period):
    return (np.asarray(d) + period / 2) % period - period / 2


def _frozen(mon, key, before, after):
    mon.check(key, all(np.array_equal(a, b) for a, b in zip(before, after)), "the helper changed its input")


def run(case, mon, rng):
    globals()["_" + case["kind"]](mon, rng)


# ---------------------------------------------------------------- conversions
def _ellip(mon, rng):
    from lenstronomy.Util import param_util as pu
    q = np.concatenate([10 ** rng.uniform(-2.5, 0, 6), [1., 1e-3, 0.999999, 0.5]])
    phi = np.concatenate([rng.uniform(-np.pi, np.pi, 6), [np.pi / 2, -np.pi / 2, np.pi, 0.]])
    for sh in ("s", "1", "2"):
        if sh == "s":
            j = int(rng.integers(len(q)))
            qq, pp = float(q[j]), float(phi[j])
        elif sh == "1":
            qq, pp = q, phi
        else:
            qq, pp = q.reshape(2, 5), phi.reshape(2, 5)
        if sh == "2":
            # scalar/1-d/2-d all have to give the same numbers
            a1 = pu.phi_q2_ellipticity(phi, q)
            a2 = pu.phi_q2_ellipticity(pp, qq)
            mon.check("conv/ellip_shape", np.shape(a2[0]) == (2, 5), "shape kept", got=np.shape(a2[0]))
            mon.close("conv/ellip_vec", np.ravel(a2), np.ravel(a1), 1e-13, 1e-15, "2-d equals 1-d")
        e1, e2 = pu.phi_q2_ellipticity(pp, qq)
        c = (1 - np.asarray(qq)) / (1 + np.asarray(qq))
        mon.close("conv/ellip_modulus", np.hypot(e1, e2), c, 1e-10, 1e-14, "|e| = (1-q)/(1+q)")
        p2, q2 = pu.ellipticity2phi_q(e1, e2)
        mon.close("conv/ellip_q", q2, qq, 1e-9, 1e-12, "q -> e -> q", q=qq, phi=pp)
        keep = np.asarray(c) > 1e-9
        mon.close("conv/ellip_phi", np.where(keep, _wrap(np.asarray(p2) - pp, np.pi), 0.), np.zeros(np.shape(pp)), 0, 1e-6, "phi -> e -> phi modulo pi")
        mon.check("conv/ellip_range", bool(np.all(np.abs(p2) <= np.pi / 2 + 1e-12)), "angle in (-pi/2, pi/2]")
    m = rng.uniform(0, 0.99, 8)
    t = rng.uniform(-np.pi, np.pi, 8)
    e1, e2 = m * np.cos(t), m * np.sin(t)
    a, b = pu.phi_q2_ellipticity(*pu.ellipticity2phi_q(e1, e2))
    mon.close("conv/ellip_back", [a, b], [e1, e2], 1e-9, 1e-12, "e -> phi,q -> e")
    p0, q0 = pu.ellipticity2phi_q(0., 0.)
    mon.close("conv/ellip_round", q0, 1., 1e-12, 0, "zero ellipticity is round")
    # elliptical coordinates
    x, y = rng.normal(size=7), rng.normal(size=7)
    cx, cy = rng.normal(size=2)
    j = int(rng.integers(8))
    f1, f2 = 0.9 * float(e1[j]), 0.9 * float(e2[j])
    phi_, q_ = pu.ellipticity2phi_q(f1, f2)
    cth, sth = np.cos(phi_), np.sin(phi_)
    u, v = cth * (x - cx) + sth * (y - cy), -sth * (x - cx) + cth * (y - cy)
    xs, ys = pu.transform_e1e2_product_average(x, y, f1, f2, cx, cy)
    mon.close("conv/product_radius", xs ** 2 + ys ** 2, q_ * u ** 2 + v ** 2 / q_, 1e-8, 1e-12, "R^2 = q x'^2 + y'^2/q")
    xo, yo = pu.transform_e1e2_product_average_old(x, y, f1, f2, cx, cy)
    mon.close("conv/product_old", [xo, yo], [u * np.sqrt(q_), v / np.sqrt(q_)], 1e-9, 1e-12, "rotated frame form")
    xd, yd = pu.elliptical_distortion_product_average(x, y, f1, f2, cx, cy)
    mon.close("conv/product_frame", [xd - cx, yd - cy], [xs, ys], 1e-9, 1e-12, "same distortion in the original frame")
    back = pu.elliptical_distortion_product_average(xd, yd, -f1, -f2, cx, cy)
    mon.close("conv/product_inverse", back, [x, y], 1e-7, 1e-9, "opposite ellipticity undoes the distortion")
    xq, yq = pu.transform_e1e2_square_average(x, y, f1, f2, cx, cy)
    ee = (1 - q_ ** 2) / (1 + q_ ** 2)
    mon.close("conv/square_radius", xq ** 2 + yq ** 2, (1 - ee) * u ** 2 + (1 + ee) * v ** 2, 1e-8, 1e-12, "R^2 = (1-e) x'^2 + (1+e) y'^2")
    mon.close("conv/q2e", pu.q2e(q_), ee, 1e-12, 1e-15, "e from q")
    mon.nontrivial("ellip", round(q_, 1), round(float(phi_), 1))


def _shear(mon, rng):
    from lenstronomy.Util import param_util as pu
    g = np.concatenate([10 ** rng.uniform(-6, 1, 7), [0.]])
    phi = rng.uniform(-np.pi, np.pi, 8)
    a, b = pu.shear_polar2cartesian(phi, g)
    p2, g2 = pu.shear_cartesian2polar(a, b)
    mon.close("conv/shear_g", g2, g, 1e-10, 1e-14, "strength")
    mon.close("conv/shear_phi", _wrap(p2 - phi, np.pi)[:-1], np.zeros(7), 0, 1e-8, "angle modulo pi")
    c, d = pu.shear_polar2cartesian(p2, g2)
    mon.close("conv/shear_back", [c, d], [a, b], 1e-9, 1e-14, "cartesian -> polar -> cartesian")
    mon.close("conv/shear_def", [a, b], [g * np.cos(2 * phi), g * np.sin(2 * phi)], 1e-12, 1e-15, "spin-2")
    # the two shear lens models describe the same field
    from lenstronomy.LensModel.lens_model import LensModel
    x, y = rng.normal(size=5), rng.normal(size=5)
    j = int(rng.integers(7))
    k1 = [dict(gamma1=float(a[j]), gamma2=float(b[j]), ra_0=.3, dec_0=-.2)]
    k2 = [dict(gamma_ext=float(g[j]), psi_ext=float(phi[j]), ra_0=.3, dec_0=-.2)]
    mon.close("conv/shear_models", LensModel(["SHEAR_GAMMA_PSI"]).alpha(x, y, k2), LensModel(["SHEAR"]).alpha(x, y, k1), 1e-9, 1e-13, "SHEAR and SHEAR_GAMMA_PSI")
    mon.nontrivial("shear", round(float(phi[j]), 1), round(float(np.log10(g[j] + 1e-9))))


def _polar(mon, rng):
    from lenstronomy.Util import param_util as pu, util
    cx, cy = rng.normal(size=2) * rng.choice([0, 1, 5])
    x, y = rng.normal(size=6) * 3, rng.normal(size=6) * 3
    x, y = _s(rng, x, y)
    r, phi = pu.cart2polar(x, y, cx, cy)
    mon.close("conv/polar_r", r, np.hypot(np.asarray(x) - cx, np.asarray(y) - cy), 1e-12, 1e-14, "radius about the centre")
    xb, yb = pu.polar2cart(r, phi, np.array([cx, cy]))
    mon.close("conv/polar_back", [xb, yb], [x, y], 1e-10, 1e-12, "cart -> polar -> cart", center=(cx, cy))
    mon.check("conv/polar_shape", np.shape(xb) == np.shape(x), "shape kept")
    r0, p0 = rng.uniform(0.01, 4, 5), rng.uniform(-np.pi, np.pi, 5)
    rb, pb = pu.cart2polar(*pu.polar2cart(r0, p0, [cx, cy]), cx, cy)
    mon.close("conv/polar_fwd", [rb, _wrap(pb - p0, 2 * np.pi)], [r0, 0 * p0], 1e-8, 1e-7, "polar -> cart -> polar")
    ang = rng.uniform(-7, 7)
    xr, yr = util.rotate(x, y, ang)
    mon.close("conv/rotate_back", util.rotate(xr, yr, -ang), [x, y], 1e-10, 1e-12, "rotation and its reverse")
    mon.close("conv/rotate_norm", np.hypot(xr, yr), np.hypot(x, y), 1e-12, 1e-14, "rotation keeps the radius")
    mon.close("conv/rotate_def", [xr, yr], [np.asarray(x) * np.cos(ang) + np.asarray(y) * np.sin(ang), -np.asarray(x) * np.sin(ang) + np.asarray(y) * np.cos(ang)], 1e-12, 1e-14, "rotation sense")
    A = rng.normal(size=(2, 2)) + 2 * np.eye(2)
    xx, yy = np.atleast_1d(x).ravel(), np.atleast_1d(y).ravel()
    px, py = util.map_coord2pix(xx, yy, .7, -1.3, A)
    bx, by = util.map_coord2pix(px - .7, py + 1.3, 0, 0, np.linalg.inv(A))
    mon.close("conv/map_back", [bx, by], [xx, yy], 1e-9, 1e-11, "linear map and inverse")
    mon.nontrivial("polar", round(float(cx), 1), round(ang))


def _s(rng, x, y):
    k = rng.integers(3)
    if k == 0:
        return float(x[0]), float(y[0])
    if k == 1:
        return x, y
    return x.reshape(2, -1), y.reshape(2, -1)


def _flux(mon, rng):
    from lenstronomy.Util import data_util as du, util
    zp = rng.uniform(15, 32)
    m = rng.uniform(5, 35, 6)
    f = du.magnitude2cps(m, zp)
    mon.close("conv/mag", du.cps2magnitude(f, zp), m, 1e-10, 1e-9, "magnitude -> cps -> magnitude")
    mon.close("conv/mag_zp", du.magnitude2cps(zp, zp), 1., 1e-12, 0, "zero point is one count per second")
    mon.close("conv/mag_ratio", du.magnitude2cps(m + 5, zp) * 100, f, 1e-9, 0, "five magnitudes are a factor 100")
    mon.close("conv/mag_int", du.magnitude2cps(int(m[0]), zp), 10 ** (-(int(m[0]) - zp) / 2.5), 1e-10, 0, "integer magnitudes")
    d = 10 ** rng.uniform(0, 9)
    M = rng.uniform(-25, 5)
    app = du.absolute2apparent_magnitude(M, d)
    # the flux falls with the square of the distance
    ratio = du.magnitude2cps(app, zp) / du.magnitude2cps(M, zp)
    mon.close("conv/distance_modulus", ratio, (10. / d) ** 2, 1e-8, 0, "flux at distance d relative to 10 pc", d=d)
    gain = rng.uniform(.2, 9)
    mon.close("conv/adu", du.electrons2adu(du.adu2electrons(m, gain), gain), m, 1e-12, 0, "ADU -> electrons -> ADU")
    mon.close("conv/adu_def", du.adu2electrons(m, gain), m * gain, 1e-12, 0, "electrons per ADU")
    s = 10 ** rng.uniform(-3, 3, 4)
    mon.close("conv/fwhm", util.fwhm2sigma(util.sigma2fwhm(s)), s, 1e-12, 0, "sigma -> fwhm -> sigma")
    fw = util.sigma2fwhm(s)
    mon.close("conv/fwhm_def", np.exp(-(fw / 2) ** 2 / 2 / s ** 2), .5 * np.ones(4), 1e-10, 0, "half maximum at half the fwhm")
    mon.nontrivial("flux", round(zp), round(np.log10(d)))


def _arrays(mon, rng):
    from lenstronomy.Util import util
    ny, nx = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    im = rng.normal(size=(ny, nx))
    before = im.copy()
    a = util.image2array(im)
    mon.check("conv/array_order", np.array_equal(a, im.ravel()), "row-major order")
    mon.check("conv/array_back", np.array_equal(util.array2image(a, nx, ny), im), "image -> array -> image", shape=(ny, nx))
    n = int(rng.integers(1, 9))
    v = rng.normal(size=n * n)
    mon.check("conv/image_back", np.array_equal(util.image2array(util.array2image(v)), v), "array -> image -> array")
    n1 = int(rng.integers(1, 5))
    cube = rng.normal(size=(n1, n, n))
    mon.check("conv/cube_back", np.array_equal(util.array2cube(util.cube2array(cube), n1, n * n), cube), "cube -> array -> cube")
    for bad in (n * n + 1 if n > 0 else 2,):
        ok = False
        try:
            util.array2image(np.zeros(bad))
            ok = int(np.sqrt(bad)) ** 2 == bad
        except ValueError:
            ok = True
        mon.check("conv/image_bad", ok, "non-square arrays are refused")
    _frozen(mon, "conv/array_input", [before], [im])
    x, y = util.make_grid(max(n, 2), .3)
    xa, ya = util.get_axes(x, y)
    X, Y = np.meshgrid(xa, ya)
    mon.close("conv/axes", [X.ravel(), Y.ravel()], [x, y], 1e-12, 1e-14, "axes rebuild the grid")
    d = [dict(a=1, b=2), dict(b=3), dict(c=4)]
    mon.check("conv/merge", util.merge_dicts(*d) == dict(a=1, b=3, c=4) and d[0] == dict(a=1, b=2), "merge_dicts")
    mon.nontrivial("arrays", nx, ny, n)


# ---------------------------------------------------------------- grids
def _grid(mon, rng):
    from lenstronomy.Util import util
    nx, ny = int(rng.integers(2, 9)), int(rng.integers(2, 9))
    d = rng.uniform(.01, 3)
    s = int(rng.integers(1, 6))
    x, y = util.make_grid((nx, ny), d, subgrid_res=s)
    X, Y = x.reshape(ny * s, nx * s), y.reshape(ny * s, nx * s)
    mon.close("grid/centre", [x.mean(), y.mean()], [0, 0], 0, 1e-10 * d * max(nx, ny), "centred on zero")
    mon.close("grid/span", [x.max() - x.min(), y.max() - y.min()], [(nx * s - 1) * d / s, (ny * s - 1) * d / s], 1e-10, 1e-12, "extent")
    mon.close("grid/step", [np.diff(X, axis=1), np.zeros(1)][0], np.full((ny * s, nx * s - 1), d / s), 1e-8, 1e-10, "x varies along columns")
    mon.close("grid/stepy", np.diff(Y, axis=0), np.full((ny * s - 1, nx * s), d / s), 1e-8, 1e-10, "y varies along rows")
    mon.close("grid/pixavg", X.reshape(ny, s, nx, s).mean(axis=(1, 3)).ravel(), util.make_grid((nx, ny), d)[0], 1e-9, 1e-10, "sub-pixels average to their pixel")
    # left_lower: the pixel grid starts at zero and the sub-grid stays centred on its pixels
    xl, yl = util.make_grid((nx, ny), d, subgrid_res=s, left_lower=True)
    x1, y1 = util.make_grid((nx, ny), d, left_lower=True)
    mon.close("grid/left", [x1[0], y1[0]], [0, 0], 0, 1e-12, "lower left pixel is the origin")
    mon.close("grid/left_sub", [xl.reshape(ny, s, nx, s).mean(axis=(1, 3)).ravel(), yl.reshape(ny, s, nx, s).mean(axis=(1, 3)).ravel()], [x1, y1], 1e-9, 1e-10, "left_lower sub-pixels average to their pixel", s=s, d=d)
    # explicit subgrid of an arbitrary linear grid
    A = rng.normal(size=(2, 2)) * d + np.eye(2) * 2 * d
    ra0, dec0 = rng.normal(size=2)
    ra, dec = util.grid_from_coordinate_transform(nx, ny, A, ra0, dec0)
    jj, ii = np.meshgrid(np.arange(nx), np.arange(ny))
    mon.close("grid/transform", [ra, dec], [(A[0, 0] * jj + A[0, 1] * ii + ra0).ravel(), (A[1, 0] * jj + A[1, 1] * ii + dec0).ravel()], 1e-10, 1e-12, "grid follows the transformation")
    rs, ds = util.make_subgrid(ra, dec, s, nx, ny)
    sx = (np.arange(nx * s) + .5) / s - .5
    sy = (np.arange(ny * s) + .5) / s - .5
    jj, ii = np.meshgrid(sx, sy)
    mon.close("grid/subgrid", [rs, ds], [(A[0, 0] * jj + A[0, 1] * ii + ra0).ravel(), (A[1, 0] * jj + A[1, 1] * ii + dec0).ravel()], 1e-9, 1e-11, "sub-grid positions", s=s)
    n = int(rng.integers(2, 9))
    rt, dt = util.make_grid_transformed(n, A)
    mon.close("grid/transformed", [rt.mean(), dt.mean()], [0, 0], 0, 1e-9, "transformed grid centred")
    k = util.centered_coordinate_system(n, A)
    rg, dg = util.grid_from_coordinate_transform(n, n, k["transform_pix2angle"], k["ra_at_xy_0"], k["dec_at_xy_0"])
    mon.close("grid/centered_system", [rg, dg], [rt, dt], 1e-9, 1e-10, "centred coordinate system")
    mon.nontrivial("grid", nx, ny, s)


def _coordgrid(mon, rng):
    from lenstronomy.Util import util
    n, s = int(rng.integers(2, 8)), int(rng.integers(1, 5))
    d = rng.uniform(.01, 2)
    cr, cd = rng.normal(size=2)
    for left in (False, True):
        for inv in (False, True):
            ra, dec, r0, d0, x0, y0, p2c, c2p = util.make_grid_with_coordtransform(n, d, s, cr, cd, left_lower=left, inverse=inv)
            cx = dict(n=n, s=s, left=left, inverse=inv)
            N = n * s
            jj, ii = np.meshgrid(np.arange(N), np.arange(N))
            rr, dd = util.map_coord2pix(jj.ravel(), ii.ravel(), r0, d0, p2c)
            mon.close("grid/ct_grid", [rr, dd], [ra, dec], 1e-9, 1e-10, "pixel -> angle reproduces the grid", **cx)
            xx, yy = util.map_coord2pix(ra, dec, x0, y0, c2p)
            mon.close("grid/ct_inverse", [xx, yy], [jj.ravel(), ii.ravel()], 1e-7, 1e-7, "angle -> pixel inverts it", **cx)
            mon.close("grid/ct_matrix", c2p.dot(p2c), np.eye(2), 1e-9, 1e-11, "inverse matrices", **cx)
            sgn = -1 if inv else 1
            mon.check("grid/ct_dir", (p2c[0, 0] * sgn > 0) and p2c[1, 1] > 0, "East direction", **cx)
            R = ra.reshape(n, s, n, s).mean(axis=(1, 3))
            D = dec.reshape(n, s, n, s).mean(axis=(1, 3))
            off = 0 if left else (n - 1) / 2.
            mon.close("grid/ct_pixel", [R[0] - cr, D[:, 0] - cd], [(np.arange(n) - off) * d * sgn, (np.arange(n) - off) * d], 1e-9, 1e-10, "sub-grid averages to the pixel grid", **cx)
    mon.nontrivial("coordgrid", n, s)


def _subgrid(mon, rng):
    from lenstronomy.Util import util, image_util
    ny, nx, f = int(rng.integers(1, 6)), int(rng.integers(1, 6)), int(rng.integers(1, 5))
    im = rng.normal(size=(ny * f, nx * f))
    b = im.copy()
    want = np.array([[im[i * f:(i + 1) * f, j * f:(j + 1) * f].mean() for j in range(nx)] for i in range(ny)])
    mon.close("image/re_size", image_util.re_size(im, f), want, 1e-10, 1e-12, "block average")
    sq = rng.normal(size=(ny * f, ny * f))
    want = np.array([[sq[i * f:(i + 1) * f, j * f:(j + 1) * f].mean() for j in range(ny)] for i in range(ny)])
    mon.close("image/averaging", util.averaging(sq, ny * f, ny), want, 1e-10, 1e-12, "block average")
    _frozen(mon, "image/re_size_input", [b], [im])
    if f > 1:
        try:
            image_util.re_size(np.zeros((ny * f + 1, nx * f)), f)
            mon.check("image/re_size_bad", False, "sizes that do not divide are refused")
        except ValueError:
            mon.check("image/re_size_bad", True, "")
    mon.nontrivial("subgrid", ny, nx, f)


def _rebin(mon, rng):
    from lenstronomy.Util import image_util, util
    f = int(rng.integers(1, 5))
    n = int(rng.integers(2, 6))
    extra = int(rng.integers(0, f))
    N = n * f + extra
    im, wht = rng.uniform(.1, 2, size=(N, N)), rng.uniform(1, 2, size=(N, N))
    A = rng.normal(size=(2, 2)) * .2 + np.eye(2)
    r0, d0 = rng.normal(size=2)
    ra, dec = util.grid_from_coordinate_transform(N, N, A, r0, d0)
    ra, dec = ra.reshape(N, N), dec.reshape(N, N)
    mask = (rng.uniform(size=(N, N)) > .5).astype(float)
    saved = [v.copy() for v in (im, wht, ra, dec, mask)]
    sig = rng.uniform(.1, 1)
    im2, w2, s2, ra2, dec2, m2 = image_util.rebin_image(f, im, wht, sig, ra, dec, mask)
    _frozen(mon, "image/rebin_input", saved, [im, wht, ra, dec, mask])
    cut = im[:n * f, :n * f]
    mon.close("image/rebin_flux", im2.sum(), cut.sum(), 1e-10, 0, "flux conserved", f=f, N=N)
    mon.close("image/rebin_sum", im2, cut.reshape(n, f, n, f).sum(axis=(1, 3)), 1e-10, 0, "pixel sums")
    mon.close("image/rebin_wht", w2, wht[:n * f, :n * f].reshape(n, f, n, f).mean(axis=(1, 3)), 1e-10, 0, "mean weights")
    mon.close("image/rebin_noise", s2, np.sqrt(f * f * sig ** 2), 1e-10, 0, "background noise of the summed pixel")
    mon.check("image/rebin_mask", np.array_equal(m2 > 0, mask[:n * f, :n * f].reshape(n, f, n, f).max(axis=(1, 3)) > 0), "mask")
    c2p = np.linalg.inv(A)
    x0, y0 = util.map_coord2pix(-r0, -d0, 0, 0, c2p)
    rn, dn, xn, yn, p2, c2 = image_util.rebin_coord_transform(f, x0, y0, A, c2p)
    jj, ii = np.meshgrid(np.arange(n), np.arange(n))
    rr, dd = util.map_coord2pix(jj.ravel(), ii.ravel(), rn, dn, p2)
    mon.close("image/rebin_coords", [rr, dd], [ra2.ravel(), dec2.ravel()], 1e-8, 1e-9, "re-binned coordinates are the mean of the pixels merged", f=f)
    xx, yy = util.map_coord2pix(ra2.ravel(), dec2.ravel(), xn, yn, c2)
    mon.close("image/rebin_pix", [xx, yy], [jj.ravel(), ii.ravel()], 1e-7, 1e-8, "and back", f=f)
    mon.nontrivial("rebin", n, f, extra)


def _layers(mon, rng):
    from lenstronomy.Util import image_util, kernel_util
    ny, nx = int(rng.integers(3, 14)), int(rng.integers(3, 14))
    ky, kx = 2 * int(rng.integers(0, 6)) + 1, 2 * int(rng.integers(0, 6)) + 1
    im, ker = rng.normal(size=(ny, nx)), rng.normal(size=(ky, kx))
    px, py = int(rng.integers(-8, nx + 8)), int(rng.integers(-8, ny + 8))
    b = [im.copy(), ker.copy()]
    got = image_util.add_layer2image_int(im, px, py, ker)
    want = im.copy()
    hit = 0
    for i in range(ky):
        for j in range(kx):
            r, c = py + i - ky // 2, px + j - kx // 2
            if 0 <= r < ny and 0 <= c < nx:
                want[r, c] += ker[i, j]
                hit += 1
    mon.close("image/layer_int", got, want, 1e-12, 1e-12, "kernel added around its centre and cut at the edges", pos=(px, py), shape=(ny, nx), kernel=(ky, kx))
    _frozen(mon, "image/layer_input", b, [im, ker])
    # sub-pixel shift: a padded kernel keeps its sum and moves its centroid
    big = np.zeros((41, 43))
    ker2 = np.zeros((9, 11))
    ker2[2:-2, 2:-2] = rng.uniform(.1, 1, size=(5, 7))
    fx, fy = rng.uniform(15, 25, 2)
    out = image_util.add_layer2image(big, fx, fy, ker2, order=1)
    Y, X = np.mgrid[:41, :43]
    ky_, kx_ = np.mgrid[-4:5, -5:6]
    mon.close("image/layer_flux", out.sum(), ker2.sum(), 1e-9, 0, "flux of a shifted layer")
    mon.close("image/layer_centroid", [(out * X).sum() / out.sum() - (ker2 * kx_).sum() / ker2.sum(), (out * Y).sum() / out.sum() - (ker2 * ky_).sum() / ker2.sum()], [fx, fy], 1e-9, 1e-9, "position of a shifted layer")
    # cutting
    m = int(rng.integers(1, 12))
    a, c = m + 2 * int(rng.integers(0, 4)), m + 2 * int(rng.integers(0, 4))
    big = rng.normal(size=(a, c))
    cut = image_util.cut_edges(big, m)
    mon.check("image/cut", np.array_equal(cut, big[(a - m) // 2:(a - m) // 2 + m, (c - m) // 2:(c - m) // 2 + m]), "central cutout", a=a, c=c, m=m)
    cut *= 0
    mon.check("image/cut_copy", bool(np.any(big)), "cutout is a copy")
    no, so = 2 * int(rng.integers(0, 6)) + 1, 2 * int(rng.integers(0, 6)) + 1
    ker = rng.normal(size=(no, no))
    mk = kernel_util.match_kernel_size(ker, so)
    want = np.zeros((so, so))
    for i in range(so):
        for j in range(so):
            r, c = i - so // 2 + no // 2, j - so // 2 + no // 2
            if 0 <= r < no and 0 <= c < no:
                want[i, j] = ker[r, c]
    mon.check("image/match_size", np.shape(mk) == (so, so) and np.allclose(mk, want), "padded or cut about the centre", no=no, so=so)
    # cutouts around a source
    ks = 2 * int(rng.integers(0, 5)) + 1
    img = rng.normal(size=(ny, nx))
    sx, sy = int(rng.integers(0, nx)), int(rng.integers(0, ny))
    co = kernel_util.cutout_source(sx, sy, img, ks, shift=False)
    want = np.zeros((ks, ks))
    for i in range(ks):
        for j in range(ks):
            r, c = sy + i - ks // 2, sx + j - ks // 2
            if 0 <= r < ny and 0 <= c < nx:
                want[i, j] = img[r, c]
    mon.check("image/cutout", np.array_equal(co, want), "cutout centred on the source, zero outside", pos=(sx, sy), shape=(ny, nx), ks=ks)
    mon.nontrivial("layers", hit > 0, hit == ky * kx, ky, kx)


def _resample(mon, rng):
    from lenstronomy.Util import image_util
    nx, ny = int(rng.integers(3, 9)), int(rng.integers(3, 9))
    x, y = np.sort(rng.uniform(-1, 1, nx)) + np.arange(nx) * .1, np.sort(rng.uniform(-1, 1, ny)) + np.arange(ny) * .1
    c = rng.normal(size=4)
    f = lambda a, b: c[0] + c[1] * a[:, None] + c[2] * b[None, :] + c[3] * a[:, None] * b[None, :]
    xo = np.sort(rng.uniform(x[0], x[-1], 5))
    yo = np.sort(rng.uniform(y[0], y[-1], 7))
    mon.close("image/re_size_array", image_util.re_size_array(x, y, f(x, y), xo, yo), f(xo, yo), 1e-8, 1e-9, "bilinear field resampled exactly")
    # rotation / symmetry
    n = 2 * int(rng.integers(2, 8)) + 1
    im = rng.uniform(size=(n, n))
    for k in (1, 2, 3):
        mon.close("image/rotate90", image_util.rotateImage(im, 90 * k), np.rot90(im, k), 1e-6, 1e-6, "quarter turns")
    sym = image_util.symmetry_average(im, 4)
    mon.close("image/symmetry", np.rot90(sym), sym, 1e-6, 1e-6, "four-fold average is symmetric")
    mon.close("image/symmetry_mean", sym, (im + np.rot90(im) + np.rot90(im, 2) + np.rot90(im, 3)) / 4, 1e-6, 1e-6, "and is the mean of the rotations")
    sh = [int(rng.integers(-2, 3)), int(rng.integers(-2, 3))]
    got = image_util.shift_image(im, sh)
    want = np.zeros_like(im)
    for i in range(n):
        for j in range(n):
            if 0 <= i - sh[0] < n and 0 <= j - sh[1] < n:
                want[i, j] = im[i - sh[0], j - sh[1]]
    mon.close("image/shift", got, want, 1e-6, 1e-6, "integer shift")
    ims = [rng.uniform(size=(4, 5)) for _ in range(3)]
    ws = [np.full((4, 5), w) for w in rng.uniform(1, 3, 3)] if rng.integers(2) else [rng.uniform(1, 3, (4, 5)) for _ in range(3)]
    sg = rng.uniform(.1, 1, 3)
    st, wt, sgm = image_util.stack_images(ims, ws, sg)
    mon.close("image/stack", st, sum(i * w for i, w in zip(ims, ws)) / sum(ws), 1e-10, 0, "weighted mean")
    mon.close("image/stack_w", wt, sum(ws) / 3, 1e-10, 0, "mean weight")
    mon.nontrivial("resample", nx, ny, n)


def _masks(mon, rng):
    from lenstronomy.Util import mask_util as mu, param_util as pu
    n, m = int(rng.integers(3, 15)), int(rng.integers(3, 15))
    x, y = np.meshgrid(np.linspace(-2, 2, n), np.linspace(-2, 2, m))
    if rng.integers(2):
        x, y = x.ravel(), y.ravel()
    cx, cy = rng.uniform(-1, 1, 2)
    r = rng.uniform(.2, 2.5)
    R = np.hypot(x - cx, y - cy)
    inside = (R <= r)
    mon.check("mask/azimuthal", np.array_equal(mu.mask_azimuthal(x, y, cx, cy, r), inside.astype(int)), "ones inside")
    mon.check("mask/center", np.array_equal(mu.mask_center_2d(cx, cy, r, x, y), 1 - inside.astype(int)), "zeros inside")
    a, b, t = rng.uniform(.3, 2), rng.uniform(.3, 2), rng.uniform(-4, 4)
    u = (x - cx) * np.cos(t) + (y - cy) * np.sin(t)
    v = -(x - cx) * np.sin(t) + (y - cy) * np.cos(t)
    mon.check("mask/ellipse", np.array_equal(mu.mask_ellipse(x, y, cx, cy, a, b, t), (u ** 2 / a ** 2 + v ** 2 / b ** 2 <= 1).astype(int)), "rotated ellipse")
    q, ph = rng.uniform(.3, 1), rng.uniform(-3, 3)
    e1, e2 = pu.phi_q2_ellipticity(ph, q)
    u = (x - cx) * np.cos(ph) + (y - cy) * np.sin(ph)
    v = -(x - cx) * np.sin(ph) + (y - cy) * np.cos(ph)
    rr = q * u ** 2 + v ** 2 / q
    sel = np.abs(rr / r ** 2 - 1) > 1e-9
    mon.check("mask/eccentric", np.array_equal(mu.mask_eccentric(x, y, cx, cy, e1, e2, r)[sel], (rr <= r ** 2).astype(int)[sel]), "eccentric mask")
    edges = np.sort(rng.uniform(0, 3, 3))
    shells = [mu.mask_shell(x, y, cx, cy, lo, hi) for lo, hi in zip(np.r_[0, edges], np.r_[edges, 10])]
    mon.check("mask/shell_partition", np.array_equal(sum(shells), np.ones_like(R).astype(int)), "shells partition the plane")
    mon.check("mask/shell", np.array_equal(shells[1], ((R >= edges[0]) & (R < edges[1])).astype(int)), "ring")
    p0, dp = rng.uniform(-.6, .6), rng.uniform(.2, 4.)
    phi = np.arctan2(x - cx, y - cy)
    want = ((R < edges[2]) & (R > edges[0]) & (phi > p0 - dp / 2) & (phi < p0 + dp / 2)).astype(int)
    mon.check("mask/half_moon", np.array_equal(mu.mask_half_moon(x, y, cx, cy, edges[0], edges[2], p0, dp), want), "ring segment")
    mon.nontrivial("masks", n, m, int(inside.sum() > 0))


def _select(mon, rng):
    from lenstronomy.Util import util, image_util
    n, k = int(rng.integers(1, 9)), int(rng.integers(0, 9))
    arr, crit = rng.normal(size=n), rng.permutation(n).astype(float)
    for fn in (util.selectBest, util.select_best):
        for hi in (True, False):
            got = fn(arr, crit, k, highest=hi)
            if k > n:
                want = arr
            else:
                o = np.argsort(crit)
                want = arr[o[n - k:]][::-1] if hi else arr[o[:k]][::-1]
            mon.check("select/best", np.array_equal(got, want), "best elements ordered by decreasing criterion", fn=fn.__name__, n=n, k=k, hi=hi)
    m = int(rng.integers(1, 5))
    x, y = rng.normal(size=m), rng.normal(size=m)
    perm = rng.permutation(m)
    xr, yr = x[perm] + 1e-4 * rng.normal(size=m), y[perm] + 1e-4 * rng.normal(size=m)
    sep = min([np.hypot(x[i] - x[j], y[i] - y[j]) for i in range(m) for j in range(i)] or [1])
    if sep > .01:
        idx = util.sort_image_index(x, y, xr, yr)
        mon.check("select/sort_images", np.array_equal(idx, perm), "indexes matching the reference", m=m, got=idx)
        mon.close("select/distance", util.get_distance(x[idx], y[idx], xr, yr), np.sum((x[perm] - xr) ** 2 + (y[perm] - yr) ** 2), 1e-8, 1e-15, "distance to the nearest counterparts")
    dup = np.concatenate([x, x[:1]]), np.concatenate([y, y[:1]])
    mon.close("select/distance_tie", util.get_distance(dup[0], dup[1], dup[0], dup[1]), 0., 0, 1e-14, "coincident positions are matched one to one")
    xi, yi = rng.integers(-9, 9, m), rng.integers(-9, 9, m)
    x2, y2 = rng.normal(size=4), rng.normal(size=4)
    for a, b in ((x, y), (xi, yi)):
        mon.close("select/min_square", util.min_square_dist(a, b, x2, y2), [min((a[i] - x2) ** 2 + (b[i] - y2) ** 2) for i in range(m)], 1e-10, 1e-12, "minimum squared distance", dtype=str(a.dtype))
    mon.close("select/compare", util.compare_distance(x, y), sum((x[i] - x[j]) ** 2 + (y[i] - y[j]) ** 2 for i in range(m) for j in range(i)), 1e-10, 1e-14, "pairwise squared distances")
    mon.close("select/displace", util.displaceAbs(x, y, .3, -.1), np.hypot(x - .3, y + .1), 1e-12, 0, "distances")
    # overlaps: the kept set has no close pair and covers every input
    p = rng.uniform(0, 1, 10), rng.uniform(0, 1, 10)
    d = rng.uniform(.02, .4)
    ox, oy = image_util.findOverlap(p[0], p[1], d)
    # every removed one is close to some input before it
    cover = all(any(abs(p[0][i] - p[0][j]) < d and abs(p[1][i] - p[1][j]) < d for j in range(i)) == (not any(np.isclose(ox, p[0][i]) & np.isclose(oy, p[1][i]))) for i in range(10))
    mon.check("select/overlap", cover and all(any(np.isclose(p[0], a) & np.isclose(p[1], b)) for a, b in zip(ox, oy)), "duplicates removed, first occurrence kept")
    npix, dp = int(rng.integers(1, 20)), rng.uniform(.01, .2)
    qx, qy = rng.uniform(-2, 2, 12), rng.uniform(-2, 2, 12)
    gx, gy = image_util.coord_in_image(qx, qy, npix, dp)
    keep = (np.abs(qx) <= npix * dp / 2) & (np.abs(qy) <= npix * dp / 2)
    mon.check("select/in_image", np.array_equal(gx, qx[keep]) and np.array_equal(gy, qy[keep]), "positions inside the image")
    # boolean selections
    nn = int(rng.integers(1, 7))
    ints = sorted(rng.choice(nn, size=int(rng.integers(0, nn + 1)), replace=False).tolist())
    want = [i in ints for i in range(nn)]
    mon.check("select/bool_ints", list(util.convert_bool_list(nn, ints)) == want, "integer list")
    mon.check("select/bool_npints", list(util.convert_bool_list(nn, [np.int64(i) for i in ints])) == want, "numpy integers")
    mon.check("select/bool_bools", list(util.convert_bool_list(nn, want)) == want, "boolean list")
    j = int(rng.integers(nn))
    mon.check("select/bool_int", list(util.convert_bool_list(nn, j)) == [i == j for i in range(nn)] == list(util.convert_bool_list(nn, np.int64(j))), "single integer")
    mon.check("select/bool_none", list(util.convert_bool_list(nn)) == [True] * nn, "everything")
    # circles and areas
    rad, num = rng.uniform(.1, 4), int(rng.integers(3, 40))
    cxx, cyy = util.points_on_circle(rad, num, connect_ends=True)
    mon.check("select/circle_closed", len(cxx) == num and np.hypot(cxx[0] - cxx[-1], cyy[0] - cyy[-1]) < 1e-9 * rad, "closed circle")
    dx, dy = util.points_on_circle(rad, num, connect_ends=False)
    seg = np.hypot(np.diff(np.r_[dx, dx[0]]), np.diff(np.r_[dy, dy[0]]))
    mon.close("select/circle_open", seg, np.full(num, 2 * rad * np.sin(np.pi / num)), 1e-9, 1e-12, "uniform points without repetition")
    xc, yc = rng.normal(size=2) * 3
    poly = np.c_[dx + xc, dy + yc]
    poly = np.vstack([poly, poly[:1]])
    mon.close("select/area", util.area(poly), num / 2 * rad ** 2 * np.sin(2 * np.pi / num), 1e-8, 1e-10, "polygon area anywhere in the plane")
    mon.nontrivial("select", n, k, m)


def _sampling(mon, rng):
    from lenstronomy.Util import sampling_util as su
    from scipy import stats
    n = int(rng.integers(1, 6))
    lo = rng.normal(size=n) * 3
    hi = lo + rng.uniform(.1, 4, n)
    u = rng.uniform(size=n)
    th = su.unit2uniform(u, lo, hi)
    mon.close("sampling/unit", su.uniform2unit(th, lo, hi), u, 1e-9, 1e-11, "unit -> physical -> unit")
    mon.close("sampling/ends", [su.unit2uniform(0., lo, hi), su.unit2uniform(1., lo, hi)], [lo, hi], 1e-10, 1e-11, "limits")
    keep = u.copy()
    t = su.cube2args_uniform(u, lo, hi, n, copy=True)
    mon.close("sampling/cube", t, lo + (hi - lo) * keep, 1e-10, 1e-12, "hypercube to parameters")
    _frozen(mon, "sampling/cube_copy", [keep], [u])
    mu, sg = rng.uniform(lo, hi), rng.uniform(.1, 3, n)
    t = su.cube2args_gaussian(u, lo, hi, mu, sg, n, copy=True)
    _frozen(mon, "sampling/gauss_copy", [keep], [u])
    a, b = (lo - mu) / sg, (hi - mu) / sg
    back = (stats.norm.cdf((t - mu) / sg) - stats.norm.cdf(a)) / (stats.norm.cdf(b) - stats.norm.cdf(a))
    mon.close("sampling/gauss", back, u, 1e-5, 1e-7, "truncated Gaussian quantiles")
    mon.check("sampling/gauss_in", bool(np.all((t >= lo - 1e-9) & (t <= hi + 1e-9))), "inside the limits")
    u2 = u.copy()
    r = su.cube2args_uniform(u2, lo, hi, n, copy=False)
    mon.close("sampling/inplace", u2, lo + (hi - lo) * keep, 1e-10, 1e-12, "in-place mapping")
    s = rng.uniform(.1, 3)
    l2, h2 = su.scale_limits(list(lo), list(hi), s)
    mon.close("sampling/scale", [(l2 + h2) / 2, h2 - l2], [(lo + hi) / 2, (hi - lo) * s], 1e-9, 1e-10, "scaled about the middle")
    np.random.seed(int(rng.integers(2 ** 31)))
    N = 3000
    B = su.sample_ball(mu, sg, N, dist="uniform")
    mon.check("sampling/ball_in", B.shape == (N, n) and bool(np.all(np.abs(B - mu) <= sg * (1 + 1e-9))), "uniform ball within one width")
    mon.close("sampling/ball_mean", (B.mean(0) - mu) / sg, np.zeros(n), 0, 6 / np.sqrt(3 * N), "centred")
    mon.close("sampling/ball_std", B.std(0) / sg, np.full(n, 1 / np.sqrt(3)), .08, 0, "uniform width")
    B = su.sample_ball(mu, sg, N, dist="normal")
    mon.close("sampling/ball_nstd", B.std(0) / sg, np.ones(n), .1, 0, "normal width")
    mon.close("sampling/ball_nmean", (B.mean(0) - mu) / sg, np.zeros(n), 0, 6 / np.sqrt(N), "normal mean")
    T = su.sample_ball_truncated(mu, sg, lo, hi, 800)
    mon.check("sampling/trunc", T.shape == (800, n) and bool(np.all((T >= lo - 1e-9) & (T <= hi + 1e-9))), "truncated ball in the limits")
    tm = stats.truncnorm.mean(a, b, loc=mu, scale=sg)
    ts = stats.truncnorm.std(a, b, loc=mu, scale=sg)
    mon.close("sampling/trunc_mean", (T.mean(0) - tm) / ts, np.zeros(n), 0, 6 / np.sqrt(800), "truncated mean")
    mon.nontrivial("sampling", n, round(s))


def _kernel(mon, rng):
    from lenstronomy.Util import kernel_util as ku
    n = 2 * int(rng.integers(1, 8)) + 1
    ker = rng.uniform(.01, 1, size=(n, n))
    b = ker.copy()
    mon.close("kernel/norm", ku.kernel_norm(ker).sum(), 1., 1e-10, 0, "unit sum")
    mon.close("kernel/norm_shape", ku.kernel_norm(ker) * ker.sum(), ker, 1e-10, 0, "shape kept")
    s = int(rng.integers(1, 6))
    k1 = ku.kernel_norm(ker)
    low = ku.degrade_kernel(k1, s)
    mon.close("kernel/degrade_flux", low.sum(), 1., 1e-9, 0, "flux kept", s=s, n=n)
    mon.check("kernel/degrade_odd", len(low) % 2 == 1, "odd size")
    # the degraded kernel assigns each fine pixel to the coarse pixel(s) it overlaps
    N = len(low)
    want = np.zeros((N, N))
    c, C = n // 2, N // 2

    def overlaps(i):
        x0, x1 = (i - c - .5) / s, (i - c + .5) / s
        out = []
        for j in range(-C, C + 1):
            w = min(x1, j + .5) - max(x0, j - .5)
            if w > 1e-12:
                out.append((j + C, w * s))
        return out
    ov = [overlaps(i) for i in range(n)]
    for i in range(n):
        for j in range(n):
            for (I, wi) in ov[i]:
                for (J, wj) in ov[j]:
                    want[I, J] += k1[i, j] * wi * wj
    mon.close("kernel/degrade_overlap", low, want, 1e-9, 1e-12, "area-weighted re-binning about the centre", s=s, n=n)
    m = n - 2 * int(rng.integers(0, (n + 1) // 2))
    cut = ku.cut_psf(ker, m)
    o = (n - m) // 2
    mon.close("kernel/cut", cut, ker[o:o + m, o:o + m] / ker[o:o + m, o:o + m].sum(), 1e-10, 0, "central cutout, normalised")
    mon.close("kernel/cut_raw", ku.cut_psf(ker, m, normalisation=False), ker[o:o + m, o:o + m], 1e-12, 0, "central cutout")
    _frozen(mon, "kernel/input", [b], [ker])
    # gaussian/moffat kernels
    fw, dp = rng.uniform(.3, 3), rng.uniform(.05, .6)
    x = (np.arange(n) - n // 2) * dp
    R2 = x[:, None] ** 2 + x[None] ** 2
    g = np.exp(-R2 * 4 * np.log(2) / fw ** 2)
    mon.close("kernel/gaussian", ku.kernel_gaussian(n, dp, fw), g / g.sum(), 1e-8, 1e-14, "Gaussian of the stated width")
    be = rng.uniform(1.2, 5)
    al = fw / 2 / np.sqrt(2 ** (1 / be) - 1)
    g = (1 + R2 / al ** 2) ** (-be)
    mon.close("kernel/moffat", ku.kernel_moffat(n, dp, fw, be), g / g.sum(), 1e-8, 1e-14, "Moffat of the stated width")
    # change of pixel size keeps the profile
    G = ku.kernel_gaussian(61, .1, 1.6)
    f2 = rng.uniform(.07, .3)
    out = ku.kernel_pixelsize_change(G, .1, f2)
    c = (len(out) - 1) // 2
    xx = (np.arange(len(out)) - c) * f2
    mon.check("kernel/pixelsize_odd", len(out) % 2 == 1 and abs(len(out) * f2 - 6.1) <= 2.01 * f2, "size", n=len(out))
    rms = np.sqrt((out * xx[None] ** 2).sum() / out.sum())
    rms0 = np.sqrt((G * ((np.arange(61) - 30) * .1)[None] ** 2).sum() / G.sum())
    mon.close("kernel/pixelsize_width", rms, rms0, .03, 0, "same angular size", d=f2)
    e = ku.kernel_make_odd(ku.kernel_gaussian(20, .3, 1.7))
    mon.close("kernel/odd", [e, e.sum()][0], ku.kernel_gaussian(21, .3, 1.7), .06, 2e-4, "odd kernel stays centred and scaled")
    mon.nontrivial("kernel", n, s)


def _derivs(mon, rng):
    from lenstronomy.Util import derivative_util as d
    x, y = rng.normal(size=6) * 2, rng.normal(size=6) * 2
    x, y = np.where(np.abs(x) < .2, .4, x), np.where(np.abs(y) < .2, -.3, y)
    r = lambda a, b: np.sqrt(a ** 2 + b ** 2)
    p = lambda a, b: np.arctan2(b, a)
    h = 1e-4

    def dx(f, a, b):
        return (f(a + h, b) - f(a - h, b)) / 2 / h

    def dy(f, a, b):
        return (f(a, b + h) - f(a, b - h)) / 2 / h
    # away from the branch cut (y=0, x<0)
    for name, got, f, op in [
            ("d_r_dx", d.d_r_dx, r, dx), ("d_r_dy", d.d_r_dy, r, dy), ("d_r_dxx", d.d_r_dxx, d.d_r_dx, dx), ("d_r_dyy", d.d_r_dyy, d.d_r_dy, dy),
            ("d_r_dxy", d.d_r_dxy, d.d_r_dx, dy), ("d_phi_dx", d.d_phi_dx, p, dx), ("d_phi_dy", d.d_phi_dy, p, dy), ("d_phi_dxx", d.d_phi_dxx, d.d_phi_dx, dx),
            ("d_phi_dyy", d.d_phi_dyy, d.d_phi_dy, dy), ("d_phi_dxy", d.d_phi_dxy, d.d_phi_dx, dy), ("d_x_diffr_dx", d.d_x_diffr_dx, lambda a, b: a / r(a, b), dx),
            ("d_y_diffr_dy", d.d_y_diffr_dy, lambda a, b: b / r(a, b), dy), ("d_y_diffr_dx", d.d_y_diffr_dx, lambda a, b: b / r(a, b), dx),
            ("d_x_diffr_dy", d.d_x_diffr_dy, lambda a, b: a / r(a, b), dy)]:
        mon.close("conv/" + name, got(x, y), op(f, x, y), 1e-4, 1e-6, "derivative of the polar coordinate")
    mon.nontrivial("derivs", int(rng.integers(4)))


def _stats(mon, rng):
    from lenstronomy.Util.prob_density import SkewGaussian, compute_lower_upper_errors, KDE1D
    S = SkewGaussian()
    mu, sg = rng.normal(), rng.uniform(.2, 3)
    sk = float(rng.choice([0., rng.uniform(-.95, .95)]))
    t = np.linspace(mu - 12 * sg, mu + 12 * sg, 40001)
    p = np.array([S.pdf_skew(t, mu, sg, sk)]).ravel()
    dt = t[1] - t[0]
    norm = p.sum() * dt
    mean = (p * t).sum() * dt
    var = (p * (t - mean) ** 2).sum() * dt
    skew = (p * (t - mean) ** 3).sum() * dt / var ** 1.5
    mon.close("stat/skew_moments", [norm, mean, np.sqrt(var), skew], [1., mu, sg, sk], 2e-3, 2e-3 * (1 + abs(mu)), "normalisation, mean, dispersion and skewness as requested", skw=sk)
    N = 20001
    smp = rng.permutation(np.linspace(0, 1, N))
    med, er = compute_lower_upper_errors(smp, 3)
    mon.close("stat/median", med, .5, 1e-3, 0, "median")
    mon.close("stat/sigmas", np.array(er), [[.341345] * 2, [.47725] * 2, [.49865] * 2], 0, 1e-3, "one, two and three sigma")
    kv = rng.normal(size=400)
    kd = KDE1D(kv)
    g = np.linspace(-8, 8, 4001)
    mon.close("stat/kde", np.sum(kd.likelihood(g)) * (g[1] - g[0]), 1., 1e-3, 0, "density integrates to one")
    mon.nontrivial("stats", sk == 0, round(sk, 1))


def _analysis(mon, rng):
    from lenstronomy.Util import analysis_util as au, image_util, correlation as co, util
    # azimuthal averages
    ny, nx = int(rng.integers(12, 30)), int(rng.integers(12, 30))
    if rng.integers(2):
        c, kc = [(nx - 1) / 2, (ny - 1) / 2], None
    else:
        c = [rng.uniform(3, nx - 3), rng.uniform(3, ny - 3)]
        kc = c if rng.integers(2) else np.array(c)
    Y, X = np.indices((ny, nx))
    R = np.hypot(X - c[0], Y - c[1])
    im = rng.normal(size=(ny, nx))
    av, rb = au.azimuthal_average(im, center=kc)
    ri = R.astype(int)
    r0 = ri.min()
    levels = sorted(set(ri.ravel()))[1:1 + len(av)]
    mon.close("analysis/azimuthal", av, [im[ri == l].mean() for l in levels], 1e-8, 1e-9, "mean of the pixels in each ring", shape=(ny, nx), center=str(kc))
    prof = image_util.radial_profile(np.abs(im), c)
    mon.close("analysis/radial", prof[levels[:-1]], [np.abs(im)[ri == l].mean() for l in levels[:-1]], 1e-9, 1e-12, "mean of the pixels in each ring")
    mon.close("analysis/parseval", co.power_spectrum_2d(im).sum(), (im ** 2).sum() / im.size, 1e-8, 0, "power spectrum conserves power")
    # half light radius and enclosed light
    n = 121
    x, y = util.make_grid(n, .05)
    sg = rng.uniform(.25, .5)
    cx, cy = rng.uniform(-.6, .6, 2)
    L = np.exp(-((x - cx) ** 2 + (y - cy) ** 2) / 2 / sg ** 2)
    keep = L - 0
    hl = au.half_light_radius(L, x, y, cx, cy)
    rmax = np.max(np.hypot(x - cx, y - cy))
    mon.close("analysis/half_light", hl, sg * np.sqrt(2 * np.log(2)), .05, rmax / 400, "half-light radius of a Gaussian", sigma=sg, center=(cx, cy))
    neg = L - .01 * (rng.uniform(size=L.size) < .3)
    k2 = neg.copy()
    au.half_light_radius(neg, x, y, cx, cy)
    _frozen(mon, "analysis/half_light_input", [keep, k2], [L, neg])
    I, rr = au.radial_profile(L, x, y, cx, cy, n=int(rng.integers(5, 60)))
    mon.close("analysis/profile_sum", I.sum(), L.sum(), 1e-9, 0, "rings partition the light")
    mon.close("analysis/profile_cum", np.cumsum(I), [L[np.hypot(x - cx, y - cy) <= q].sum() for q in rr], 1e-8, 1e-9, "enclosed light")
    # ellipticities of a known ellipse
    from lenstronomy.Util import param_util as pu
    q, ph = rng.uniform(.6, 1), rng.uniform(-3, 3)
    e1, e2 = pu.phi_q2_ellipticity(ph, q)
    xs, ys = pu.transform_e1e2_product_average(x, y, e1, e2, 0, 0)
    E = np.exp(-(xs ** 2 + ys ** 2) / 2 / .3 ** 2)
    g = au.ellipticities(E, x, y, iterative=False)
    mon.close("analysis/ellipticity", g, [e1, e2], 0, .02, "moments recover the ellipticity", q=q, phi=ph)
    ll, nd, npar = rng.normal(), int(rng.integers(2, 99)), int(rng.integers(1, 9))
    mon.close("analysis/bic", au.bic_model(ll, nd, npar), -2 * ll + npar * np.log(nd), 1e-12, 0, "BIC")
    kl = [dict(center_x=.3, center_y=-.2), dict(center_x=9, center_y=9)]
    mon.check("analysis/center", au.profile_center(kl) == (.3, -.2) and au.profile_center(kl, 1., 2.) == (1., 2.), "profile centre")
    mon.nontrivial("analysis", ny == nx, kc is None)


def _align(mon, rng):
    from lenstronomy.Util.kin_sampling_util import KinNNImageAlign

    def ins(n, d, th, **kw):
        A = d * np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        return dict(image=rng.uniform(size=(n, n)), transform_pix2angle=A, ra_at_xy0=rng.normal(), dec_at_xy0=rng.normal(), **kw)
    sp = ins(6, .3, rng.uniform(-2, 2))
    im1 = ins(20, .1, rng.uniform(-2, 2), ellipse_PA=rng.uniform(-1, 1), offset_x=rng.normal() * .1, offset_y=rng.normal() * .1)
    im2 = ins(20, .1 * rng.uniform(.5, 2), rng.uniform(-2, 2), ellipse_PA=rng.uniform(-1, 1), offset_x=rng.normal() * .1, offset_y=rng.normal() * .1)
    nn = dict(image=rng.uniform(size=(30, 30)), delta_pix=.07)
    k = KinNNImageAlign(sp, im1, nn)
    x, y = rng.normal(size=5), rng.normal(size=5)
    a = (im1["transform_pix2angle"], im1["ra_at_xy0"], im1["dec_at_xy0"])
    mon.close("conv/kin_radec", k.radec_to_xy(*k.xy_to_radec(x, y, *a), *a), [x, y], 1e-9, 1e-9, "pixel -> angle -> pixel")
    # separations are preserved up to the pixel scale
    u, v = k.spectragrid_in_kin_nn_xy()
    mon.close("conv/kin_scale", np.hypot(u[1] - u[0], v[1] - v[0]) * .07, .3, 1e-8, 0, "mapped grid keeps angular separations")
    k.update(imaging_inputs=im2, update_npix=True)
    f = KinNNImageAlign(sp, im2, nn)
    mon.close("conv/kin_update", k.spectragrid_in_kin_nn_xy(), f.spectragrid_in_kin_nn_xy(), 1e-10, 1e-10, "an update equals a fresh alignment")
    mon.close("conv/kin_update_image", k.interp_image(), f.interp_image(), 1e-9, 1e-10, "an update equals a fresh alignment")
    mon.nontrivial("align", int(rng.integers(9)))

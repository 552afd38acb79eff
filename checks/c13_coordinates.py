"""C13: pixel <-> sky coordinates."""
import copy
import numpy as np
from lenscat import U
from lenstronomy.Data.coord_transforms import Coordinates, Coordinates1D
from lenstronomy.Data.pixel_grid import PixelGrid
from lenstronomy.Data.imaging_data import ImageData
from lenstronomy.ImSim.Numerics.grid import RegularGrid, AdaptiveGrid
from lenstronomy.Util import util, image_util

RULE = ("every conversion, grid and frame update of random linear frames (scaled, rotated, sheared, flipped, shifted; square and non-square) is observed after "
        "every step of random update histories and compared with an independently maintained affine map")
REQUIRED = ["check:inverse", "check:map", "check:grid", "check:area", "check:update", "check:shift", "check:sub", "check:adaptive", "check:mask", "check:util", "check:rebin", "check:data"]


def cases(tier, seed):
    out = []
    n = 30 if tier == "quick" else 400
    for k in ("frame", "history", "sub", "adaptive", "util", "data"):
        for i in range(n):
            out.append(dict(name="%s#%d" % (k, i), group=k, kind=k))
    return out


def run(case, mon, rng):
    globals()["run_" + case["kind"]](case, mon, rng)


def frame(rng, cls=None):
    """random invertible pix2angle matrix and offset."""
    c = cls or str(rng.choice(["plain", "flip", "rot", "rotflip", "shear", "aniso", "swap"]))
    d = float(10 ** rng.uniform(-2, .5))
    p = rng.uniform(0, 2 * np.pi)
    R = np.array([[np.cos(p), -np.sin(p)], [np.sin(p), np.cos(p)]])
    if c == "plain":
        M = np.eye(2)
    elif c == "flip":
        M = np.diag([-1., 1.])
    elif c == "rot":
        M = R
    elif c == "rotflip":
        M = R @ np.diag([-1., 1.])
    elif c == "aniso":
        M = np.diag([1., rng.uniform(.3, 3)])
    elif c == "swap":
        M = np.array([[0., 1.], [1., 0.]])
    else:
        while True:
            M = rng.normal(size=(2, 2))
            if abs(np.linalg.det(M)) > .2:
                break
    return c, M * d, float(rng.normal() * 5 * d), float(rng.normal() * 5 * d), d


class Ref:
    def __init__(self, M, ra0, dec0):
        self.M, self.o = np.array(M, dtype=float), np.array([ra0, dec0], dtype=float)
        self.M0, self.o0 = self.M.copy(), self.o.copy()

    def sky(self, x, y):
        M, o = self.M, self.o
        return o[0] + M[0, 0] * x + M[0, 1] * y, o[1] + M[1, 0] * x + M[1, 1] * y

    def pix(self, ra, dec):
        a, b = ra - self.o[0], dec - self.o[1]
        M = self.M
        D = M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
        return (M[1, 1] * a - M[0, 1] * b) / D, (-M[1, 0] * a + M[0, 0] * b) / D


def size(rng):
    nx, ny = int(rng.integers(2, 9)), int(rng.integers(2, 9))
    if rng.integers(3) == 0:
        ny = nx
    if rng.integers(5) == 0:
        nx, ny = 9, 4   # nx*ny a perfect square
    return nx, ny


def probe(tag, c, ref, d, mon, rng, **ctx):
    """all conversions of object c against the reference frame."""
    x, y = rng.normal(size=5) * 20, rng.normal(size=5) * 20
    sc = d * 100
    ra, dec = ref.sky(x, y)
    got = c.map_pix2coord(x, y)
    mon.close("map/pix2coord/" + tag, got, [ra, dec], 1e-10, 1e-12 * sc, "pixel to sky", **ctx)
    px = c.map_coord2pix(ra, dec)
    mon.close("map/coord2pix/" + tag, px, [x, y], 1e-8, 1e-9, "sky to pixel", **ctx)
    back = c.map_coord2pix(*c.map_pix2coord(x, y))
    mon.close("inverse/pix/" + tag, back, [x, y], 1e-8, 1e-9, "pixel -> sky -> pixel", **ctx)
    back = c.map_pix2coord(*c.map_coord2pix(ra, dec))
    mon.close("inverse/sky/" + tag, back, [ra, dec], 1e-8, 1e-9 * sc, "sky -> pixel -> sky", **ctx)
    s = c.map_pix2coord(float(x[0]), float(y[0]))
    mon.close("map/scalar/" + tag, s, [ra[0], dec[0]], 1e-10, 1e-12 * sc, "scalar", **ctx)
    s = c.map_coord2pix(float(ra[1]), float(dec[1]))
    mon.close("map/scalar2/" + tag, s, [x[1], y[1]], 1e-8, 1e-9, "scalar", **ctx)
    mon.close("map/origin/" + tag, c.radec_at_xy_0, ref.o, 1e-12, 1e-13 * sc, "sky position of pixel (0,0)", **ctx)
    mon.close("map/origin2/" + tag, c.xy_at_radec_0, ref.pix(0., 0.), 1e-8, 1e-9, "pixel position of sky (0,0)", **ctx)
    mon.close("map/matrix/" + tag, c.transform_pix2angle, ref.M, 1e-10, 1e-13 * d, "pix2angle matrix", **ctx)
    mon.close("inverse/matrix/" + tag, np.dot(c.transform_pix2angle, c.transform_angle2pix), np.eye(2), 0, 1e-9, "matrices are inverse", **ctx)
    A = abs(ref.M[0, 0] * ref.M[1, 1] - ref.M[0, 1] * ref.M[1, 0])
    mon.close("area/" + tag, [c.pixel_area, c.pixel_width ** 2], [A, A], 1e-10, 0, "pixel area/width", **ctx)
    nx, ny = size(rng)
    g = c.coordinate_grid(nx, ny)
    yy, xx = np.mgrid[0:ny, 0:nx]
    want = ref.sky(xx.astype(float), yy.astype(float))
    if isinstance(c, Coordinates1D):
        want = [w.ravel() for w in want]
    for a, b, n in zip(g, want, ("ra", "dec")):
        if mon.check("grid/shape/" + tag, np.shape(a) == np.shape(b), "grid shape (image order [y, x])", got=np.shape(a), want=np.shape(b), **ctx):
            mon.close("grid/coordinate/" + tag, a, b, 1e-10, 1e-12 * sc, "grid " + n, **ctx)


def probe_grid(tag, g, ref, nx, ny, d, mon, rng, **ctx):
    probe(tag, g, ref, d, mon, rng, **ctx)
    yy, xx = np.mgrid[0:ny, 0:nx]
    want = ref.sky(xx.astype(float), yy.astype(float))
    pc = g.pixel_coordinates
    for a, b in zip(pc, want):
        if mon.check("grid/pc_shape/" + tag, np.shape(a) == (ny, nx), "pixel_coordinates shape", **ctx):
            mon.close("grid/pc/" + tag, a, b, 1e-9, 1e-11 * d * 100, "pixel_coordinates", **ctx)
    mon.close("area/center/" + tag, g.center, [np.mean(want[0]), np.mean(want[1])], 1e-9, 1e-11 * d * 100, "centre", **ctx)
    pw = np.sqrt(abs(np.linalg.det(ref.M)))
    mon.close("area/width/" + tag, g.width, [nx * pw, ny * pw], 1e-9, 0, "extent", **ctx)
    mon.check("area/num/" + tag, g.num_pixel == nx * ny and tuple(g.num_pixel_axes) == (nx, ny), "number of pixels", **ctx)


def run_frame(case, mon, rng):
    for _ in range(6):
        cls, M, ra0, dec0, d = frame(rng)
        ref = Ref(M, ra0, dec0)
        for C in (Coordinates, Coordinates1D):
            probe(C.__name__, C(M.copy(), ra0, dec0), ref, d, mon, rng, frame=cls)
        nx, ny = size(rng)
        probe_grid("PixelGrid", PixelGrid(nx, ny, M.copy(), ra0, dec0), ref, nx, ny, d, mon, rng, frame=cls)
        mon.nontrivial(cls, nx, ny)
    # ImageData: documented construction shift and rotation, relative to the given frame
    cls, M, ra0, dec0, d = frame(rng)
    nx, ny = size(rng)
    ds, dd, ph = rng.normal() * d, rng.normal() * d, float(rng.choice([0., rng.uniform(-3, 3)]))
    g = ImageData(np.zeros((ny, nx)), transform_pix2angle=M.copy(), ra_at_xy_0=ra0, dec_at_xy_0=dec0, ra_shift=ds, dec_shift=dd, phi_rot=ph, background_rms=1., exposure_time=1.)
    R = np.array([[np.cos(ph), -np.sin(ph)], [np.sin(ph), np.cos(ph)]])
    probe_grid("ImageData", g, Ref(M @ R, ra0 + ds, dec0 + dd), nx, ny, d, mon, rng, frame=cls)
    g0 = ImageData(np.zeros((ny, nx)), transform_pix2angle=M.copy(), ra_at_xy_0=ra0, dec_at_xy_0=dec0, background_rms=1., exposure_time=1.)
    g0.update_coordinate_grid(ra_shift=ds, dec_shift=dd, phi_rot=ph)
    mon.close("update/same_as_constructed", g0.pixel_coordinates, g.pixel_coordinates, 1e-9, 1e-11 * d * 100, "constructing with or updating to a shift/rotation", frame=cls)


def run_history(case, mon, rng):
    for _ in range(3):
        cls, M, ra0, dec0, d = frame(rng)
        nx, ny = size(rng)
        typ = str(rng.choice(["Coordinates", "PixelGrid", "ImageData"]))
        M_in = M.copy()
        if typ == "Coordinates":
            g = Coordinates(M_in, ra0, dec0)
        elif typ == "PixelGrid":
            g = PixelGrid(nx, ny, M_in, ra0, dec0)
        else:
            g = ImageData(rng.normal(size=(ny, nx)), transform_pix2angle=M_in, ra_at_xy_0=ra0, dec_at_xy_0=dec0, background_rms=1., exposure_time=1.)
        ref = Ref(M, ra0, dec0)
        sh, dh, ph = 0., 0., 0.
        hist = []
        upd = g.update_coord_transform if typ == "Coordinates" else g.update_coordinate_grid
        for step in range(7):
            args = {}
            if rng.integers(2):
                args["ra_shift"] = float(rng.choice([0., sh, rng.normal() * d]))
            if rng.integers(2):
                args["dec_shift"] = float(rng.choice([0., dh, rng.normal() * d]))
            if rng.integers(2):
                args["phi_rot"] = float(rng.choice([0., ph, rng.uniform(-3, 3)]))
            new = (args.get("ra_shift", sh), args.get("dec_shift", dh), args.get("phi_rot", ph))
            changed = new != (sh, dh, ph)
            r = upd(**args)
            hist.append(args)
            mon.check("update/flag/" + typ, bool(r) == changed, "return value tells whether the frame was updated", history=hist, got=r)
            sh, dh, ph = new
            R = np.array([[np.cos(ph), -np.sin(ph)], [np.sin(ph), np.cos(ph)]])
            ref.M = ref.M0 @ R
            ref.o = ref.o0 + np.array([sh, dh])
            (probe if typ == "Coordinates" else lambda t, g, rf, d_, m, rr, **c: probe_grid(t, g, rf, nx, ny, d_, m, rr, **c))("update/" + typ, g, ref, d, mon, rng, frame=cls, history=hist)
            mon.event("check:update")
        # the caller's matrix is untouched
        mon.check("update/input/" + typ, np.array_equal(M_in, M), "caller's matrix changed")
        # shifts accumulate (history of shift_coordinate_system only)
        cls, M, ra0, dec0, d = frame(rng)
        g = Coordinates(M.copy(), ra0, dec0) if typ == "Coordinates" else (PixelGrid(nx, ny, M.copy(), ra0, dec0) if typ == "PixelGrid" else
            ImageData(rng.normal(size=(ny, nx)), transform_pix2angle=M.copy(), ra_at_xy_0=ra0, dec_at_xy_0=dec0, background_rms=1., exposure_time=1.))
        ref = Ref(M, ra0, dec0)
        for step in range(4):
            pu = bool(rng.integers(2))
            sx, sy = (rng.normal(size=2) * (1 if pu else d)).tolist()
            g.shift_coordinate_system(sx, sy, pixel_unit=pu)
            ref.o = ref.o + (ref.M @ np.array([sx, sy]) if pu else np.array([sx, sy]))
            (probe if typ == "Coordinates" else lambda t, g, rf, d_, m, rr, **c: probe_grid(t, g, rf, nx, ny, d_, m, rr, **c))("shift/" + typ, g, ref, d, mon, rng, frame=cls, step=step, pixel_unit=pu)
            mon.event("check:shift")
        mon.nontrivial(cls, typ, str(hist))


def sub_want(ref, nx, ny, s):
    yy, xx = np.mgrid[0:ny * s, 0:nx * s]
    return ref.sky((xx + .5) / s - .5, (yy + .5) / s - .5)


def run_sub(case, mon, rng):
    for _ in range(4):
        cls, M, ra0, dec0, d = frame(rng)
        nx, ny = size(rng)
        s = int(rng.integers(1, 6))
        ref = Ref(M, ra0, dec0)
        want = sub_want(ref, nx, ny, s)
        sc = d * 100
        mask = rng.integers(0, 2, (ny, nx)).astype(bool)
        use = mask if rng.integers(2) else None
        g = RegularGrid(nx, ny, M.copy(), ra0, dec0, supersampling_factor=s, flux_evaluate_indexes=use)
        m_hi = np.ones((ny * s, nx * s), dtype=bool) if use is None else np.kron(mask.astype(int), np.ones((s, s), dtype=int)).astype(bool)
        ra, dec = g.coordinates_evaluate
        ctx = dict(frame=cls, nx=nx, ny=ny, s=s, masked=use is not None)
        if mon.check("sub/count", np.size(ra) == m_hi.sum() == np.size(dec), "number of evaluated points", **ctx):
            mon.close("sub/coords", [ra, dec], [want[0][m_hi], want[1][m_hi]], 1e-9, 1e-11 * sc, "positions of sub-pixels", **ctx)
            f = rng.normal(size=ra.size)
            lo, hi = g.flux_array2image_low_high(f)
            big = np.zeros((ny * s, nx * s))
            big[m_hi] = f
            mon.check("mask/shape", np.shape(lo) == (ny, nx), "low resolution shape", **ctx)
            if np.shape(lo) == (ny, nx):
                mon.close("mask/low", lo, big.reshape(ny, s, nx, s).mean(axis=(1, 3)), 1e-9, 1e-11, "pixel value is the average of its sub-pixels", **ctx)
            if s > 1 and mon.check("mask/hshape", np.shape(hi) == big.shape, "high resolution shape", **ctx):
                mon.close("mask/high", hi, big, 1e-12, 0, "high resolution image", **ctx)
        mon.close("sub/spacing", g.grid_points_spacing, np.sqrt(abs(np.linalg.det(M))) / s, 1e-9, 0, "spacing", **ctx)
        mon.check("sub/axes", tuple(g.num_grid_points_axes) == (nx * s, ny * s) and g.supersampling_factor == s, "axes", **ctx)
        # the utility
        yy, xx = np.mgrid[0:nx, 0:nx]
        gr = [v.ravel() for v in ref.sky(xx.astype(float), yy.astype(float))]
        got = util.make_subgrid(gr[0], gr[1], s)
        w = sub_want(ref, nx, nx, s)
        mon.close("sub/make_subgrid", got, [w[0].ravel(), w[1].ravel()], 1e-9, 1e-11 * sc, "make_subgrid", **ctx)
        mon.nontrivial(cls, nx, ny, s, use is not None)


def run_adaptive(case, mon, rng):
    for _ in range(4):
        cls, M, ra0, dec0, d = frame(rng)
        nx, ny = size(rng)
        s = int(rng.integers(2, 6))
        ref = Ref(M, ra0, dec0)
        hi_mask = rng.integers(0, 2, (ny, nx)).astype(bool)
        ev = rng.integers(0, 4, (ny, nx)).astype(bool) if rng.integers(2) else None
        g = AdaptiveGrid(nx, ny, M.copy(), ra0, dec0, supersampling_indexes=hi_mask, supersampling_factor=s, flux_evaluate_indexes=ev)
        e = np.ones((ny, nx), dtype=bool) if ev is None else ev
        lo, hi = e & ~hi_mask, e & hi_mask
        ra, dec = g.coordinates_evaluate
        ctx = dict(frame=cls, nx=nx, ny=ny, s=s, masked=ev is not None)
        if not mon.check("adaptive/count", np.size(ra) == lo.sum() + s * s * hi.sum(), "number of evaluated points", **ctx):
            continue
        # a field that identifies positions: evaluate on the coordinates, and compare with the direct evaluation
        k1, k2 = rng.normal(size=2) / (d * 5)
        fun = lambda a, b: np.sin(a * k1 + .3) * np.cos(b * k2) + a * k2 * .1
        flux = fun(ra, dec)
        low, high = g.flux_array2image_low_high(flux)
        yy, xx = np.mgrid[0:ny, 0:nx]
        direct = fun(*ref.sky(xx.astype(float), yy.astype(float)))
        sub = fun(*sub_want(ref, nx, ny, s))
        want = np.where(lo, direct, 0) + np.where(hi, sub.reshape(ny, s, nx, s).mean(axis=(1, 3)), 0)
        if mon.check("adaptive/shape", np.shape(low) == (ny, nx) and np.shape(high) == (ny * s, nx * s), "shapes", **ctx):
            mon.close("adaptive/low", low, want, 1e-9, 1e-9, "pixel values", **ctx)
            mon.close("adaptive/high", high, np.where(np.kron(hi.astype(int), np.ones((s, s), dtype=int)) > 0, sub, 0), 1e-9, 1e-9, "sub-pixel values", **ctx)
        low2, h2 = g.flux_array2image_low_high(flux, high_res_return=False)
        mon.check("adaptive/nohigh", h2 is None and np.array_equal(low, low2), "without high resolution image", **ctx)
        mon.nontrivial(cls, nx, ny, s, ev is not None)


def run_util(case, mon, rng):
    n, d, s = int(rng.integers(2, 12)), float(10 ** rng.uniform(-2, 1)), int(rng.integers(1, 5))
    m = int(rng.integers(2, 12))
    x, y = util.make_grid(n, d, subgrid_res=s)
    a = (np.arange(n * s) - (n * s - 1) / 2) * d / s
    mon.close("util/make_grid", [x, y], [np.tile(a, n * s), np.repeat(a, n * s)], 1e-10, 1e-12 * d, "make_grid", n=n, d=d, s=s)
    x, y = util.make_grid((n, m), d)
    mon.close("util/make_grid_nonsq", [x, y], [np.tile((np.arange(n) - (n - 1) / 2) * d, m), np.repeat((np.arange(m) - (m - 1) / 2) * d, n)], 1e-10, 1e-12 * d, "make_grid non-square", n=n, m=m)
    x, y = util.make_grid(n, d, left_lower=True)
    mon.close("util/left_lower", [x, y], [np.tile(np.arange(n) * d, n), np.repeat(np.arange(n) * d, n)], 1e-12, 0, "left lower origin")
    ax, ay = util.get_axes(*util.make_grid(n, d))
    mon.close("util/axes", [ax, ay], [(np.arange(n) - (n - 1) / 2) * d] * 2, 1e-10, 1e-12 * d, "axes")
    cls, M, ra0, dec0, dd = frame(rng)
    ra, dec = util.make_grid_transformed(n, M)
    yy, xx = np.mgrid[0:n, 0:n] - (n - 1) / 2
    w = [M[0, 0] * xx + M[0, 1] * yy, M[1, 0] * xx + M[1, 1] * yy]
    mon.close("util/transformed", [ra, dec], [w[0].ravel(), w[1].ravel()], 1e-10, 1e-11 * dd, "make_grid_transformed", frame=cls)
    kg = util.centered_coordinate_system(n, M)
    g = PixelGrid(n, n, **kg)
    mon.close("util/centered", g.pixel_coordinates, w, 1e-10, 1e-10 * dd, "centered_coordinate_system", frame=cls)
    ra, dec = util.grid_from_coordinate_transform(n, m, M, ra0, dec0)
    yy, xx = np.mgrid[0:m, 0:n]
    w = Ref(M, ra0, dec0).sky(xx, yy)
    mon.close("util/grid_from", [ra, dec], [w[0].ravel(), w[1].ravel()], 1e-10, 1e-11 * dd, "grid_from_coordinate_transform", frame=cls)
    for inv in (True, False):
        for ll in (True, False):
            ss = s if not ll else 1
            cx, cy = rng.normal(size=2)
            gx, gy, r0, d0, x0, y0, P, Q = util.make_grid_with_coordtransform(n, d, subgrid_res=ss, center_ra=cx, center_dec=cy, left_lower=ll, inverse=inv)
            sg = -1. if inv else 1.
            N = n * ss
            off = 0 if ll else (N - 1) / 2
            a = (np.arange(N) - off) * d / ss
            ctx = dict(n=n, d=d, s=ss, left_lower=ll, inverse=inv)
            mon.close("util/coordtransform/grid", [gx, gy], [np.tile(sg * a, N) + cx, np.repeat(a, N) + cy], 1e-9, 1e-11 * (d + 1), "grid", **ctx)
            C = Coordinates(P, r0, d0)
            xx, yy = np.tile(np.arange(N), N), np.repeat(np.arange(N), N)
            mon.close("util/coordtransform/frame", C.map_pix2coord(xx, yy), [gx, gy], 1e-9, 1e-11 * (d + 1), "frame describes the grid", **ctx)
            mon.close("util/coordtransform/inverse", np.dot(P, Q), np.eye(2), 0, 1e-10, "inverse matrices", **ctx)
            mon.close("util/coordtransform/zero", [x0, y0], C.map_coord2pix(0, 0), 1e-9, 1e-8, "pixel of (0,0)", **ctx)
    # rebinned frame
    b = int(rng.integers(1, 5))
    k = int(rng.integers(1, 5))
    N = b * k + (int(rng.integers(0, b)) if rng.integers(2) else 0)
    C = PixelGrid(N, N, M, ra0, dec0)
    rc, dc = [q.copy() for q in C.pixel_coordinates]
    img = rng.normal(size=(N, N))
    wht = rng.uniform(1, 2, (N, N))
    msk = rng.integers(0, 2, (N, N)).astype(float)
    ib, wb, sb, rb, db, mb = image_util.rebin_image(b, img.copy(), wht.copy(), .3, rc.copy(), dc.copy(), msk.copy())
    blk = lambda q: q[:k * b, :k * b].reshape(k, b, k, b)
    mon.close("rebin/sum", ib, blk(img).sum(axis=(1, 3)), 1e-10, 1e-11, "rebinned flux", N=N, b=b)
    mon.close("rebin/noise", sb, .3 * b, 1e-12, 0, "rebinned background")
    mon.close("rebin/wht", wb, blk(wht).mean(axis=(1, 3)), 1e-12, 0, "rebinned weight")
    mon.close("rebin/mask", mb, (blk(msk).max(axis=(1, 3)) > 0).astype(float), 0, 0, "rebinned mask")
    mon.close("rebin/coords", [rb, db], [blk(rc).mean(axis=(1, 3)), blk(dc).mean(axis=(1, 3))], 1e-9, 1e-10 * dd, "rebinned coordinates", frame=cls)
    x0, y0 = C.map_coord2pix(0, 0)
    r0, d0, x0, y0, P, Q = image_util.rebin_coord_transform(b, x0, y0, C.transform_pix2angle, C.transform_angle2pix)
    w = Coordinates(P, r0, d0).coordinate_grid(k, k)
    mon.close("rebin/frame", w, [rb, db], 1e-8, 1e-9 * dd * 10, "rebinned frame describes the rebinned grid", frame=cls, b=b)
    mon.close("rebin/inverse", np.dot(P, Q), np.eye(2), 0, 1e-9, "inverse")
    mon.close("rebin/zero", [x0, y0], Coordinates(P, r0, d0).map_coord2pix(0, 0), 1e-8, 1e-8, "pixel of (0,0)")
    # coordinates within an image
    num = int(rng.integers(4, 20))
    px, py = rng.uniform(-1, 1, 40) * num * d, rng.uniform(-1, 1, 40) * num * d
    sx, sy = image_util.coord_in_image(px, py, num, d)
    ins = (np.abs(px) < num / 2 * d) & (np.abs(py) < num / 2 * d)
    mon.check("util/coord_in_image", np.array_equal(sx, px[ins]) and np.array_equal(sy, py[ins]), "positions in the image")
    mon.nontrivial(n, s, cls, b)


def run_data(case, mon, rng):
    """data object: values stay with their pixels, wrong shapes are refused."""
    nx, ny = size(rng)
    cls, M, ra0, dec0, d = frame(rng)
    img = rng.normal(size=(ny, nx))
    pb = rng.uniform(.5, 1, (ny, nx)) if rng.integers(2) else None
    et = rng.uniform(-1, 10, (ny, nx))
    et0 = et.copy()
    g = ImageData(img, background_rms=.1, exposure_time=et, transform_pix2angle=M.copy(), ra_at_xy_0=ra0, dec_at_xy_0=dec0, antenna_primary_beam=pb)
    mon.check("data/values", np.array_equal(g.data, img), "data")
    mon.check("data/input", np.array_equal(et, et0), "caller's exposure map altered")
    if pb is not None:
        mon.check("data/beam", np.array_equal(g.primary_beam, pb), "primary beam")
    for sh in ((ny + 1, nx), (ny, nx + 1), (ny + 1, nx + 1)) + (((nx, ny),) if nx != ny else ()):
        try:
            g.update_data(np.zeros(sh))
            ok = False
        except ValueError:
            ok = True
        mon.check("data/refuse_shape", ok, "new data of another shape accepted", shape=sh, old=(ny, nx))
        mon.check("data/unchanged", np.array_equal(g.data, img), "refused data replaced the data")
        try:
            ImageData(img, background_rms=.1, exposure_time=1., antenna_primary_beam=np.ones(sh))
            ok = False
        except ValueError:
            ok = True
        mon.check("data/refuse_beam", ok, "primary beam of another shape accepted", shape=sh, old=(ny, nx))
    new = rng.normal(size=(ny, nx))
    g.update_data(new)
    mon.check("data/update", np.array_equal(g.data, new), "updated data")
    mon.nontrivial(nx, ny, cls)

"""C06: multi-plane ray tracing vs an independently written recursive lens equation."""
import copy
import numpy as np
import lenscat as LC

RULE = ("one signature per (kind, number of planes, ordering pattern of the redshift list, conventions used); random deflector lists at random "
        "unsorted, repeated redshifts in front of and behind the source are traced and compared with beta_j = theta - sum_i D_ij/D_j alpha_i "
        "computed from astropy distances")
ASSUMPTIONS = ["spatially flat cosmologies (FlatLambdaCDM, FlatwCDM) except the separately reported curved case",
               "deflectors are single-plane lens models checked by C01/C04"]
REQUIRED = ["check:trace", "check:legs", "check:hessian", "check:perm", "check:oneplane", "check:observed", "check:interp", "check:z1z2",
            "check:decoupled", "check:behind", "check:stop", "check:organizer"]
TIMEOUT = 200
FAST = ["SIS", "SIE", "EPL", "NFW", "SHEAR", "CONVERGENCE", "HERNQUIST", "GAUSSIAN", "PJAFFE", "POINT_MASS", "TNFW", "NIE", "SHEAR_GAMMA_PSI"]


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for kind, n in (("trace", 90), ("observed", 50), ("decoupled", 16), ("oneplane", 20), ("interp", 10), ("organizer", 16), ("curved", 3)):
        for i in range(n if q else n * 6):
            out.append(dict(name="%s/%d" % (kind, i), kind=kind, group=kind))
    return out


def cosmology(rng):
    from astropy.cosmology import FlatLambdaCDM, FlatwCDM
    if rng.integers(0, 3) == 0:
        return FlatwCDM(H0=float(rng.uniform(55, 85)), Om0=float(rng.uniform(.15, .5)), w0=float(rng.uniform(-1.4, -.7)))
    return FlatLambdaCDM(H0=float(rng.uniform(55, 85)), Om0=float(rng.uniform(.15, .5)), Ob0=.04)


def D(c, a, b):
    return float(c.angular_diameter_distance_z1z2(a, b).value)


def T(c, a, b):
    return D(c, a, b) * (1 + b)


def draw(rng, nmax=6, zmax=2.5, names=FAST, obs=False):
    n = int(rng.integers(1, nmax + 1))
    zs = rng.uniform(.05, zmax, n)
    if n > 1 and rng.integers(0, 2):
        zs[int(rng.integers(n))] = zs[int(rng.integers(n))]       # repeated plane
    zs = [float(round(z, int(rng.integers(2, 6)))) for z in zs]
    pool = [m for m in names if m in LC.G]
    lst = [str(v) for v in rng.choice(pool, n)]
    kws = [LC.params(m, rng) for m in lst]
    for k in kws:                                                 # keep deflections moderate, centres distinct
        for a in ("center_x", "ra_0"):
            if a in k:
                k[a] = float(rng.uniform(-1, 1))
        for a in ("center_y", "dec_0"):
            if a in k:
                k[a] = float(rng.uniform(-1, 1))
    return lst, zs, kws


class Ref(object):
    def __init__(self, cosmo, lst, zs, kws, zconv):
        from lenstronomy.LensModel.lens_model import LensModel
        self.c, self.zs, self.kws, self.zconv = cosmo, zs, kws, zconv
        self.m = [LensModel([n]) for n in lst]
        self.planes = sorted(set(zs))

    def phys(self, p, x, y, kws):
        """physical deflection of all deflectors at plane redshift p"""
        ax, ay = np.zeros_like(x), np.zeros_like(y)
        for i, z in enumerate(self.zs):
            if z == p:
                a, b = self.m[i].alpha(x, y, [kws[i]])
                ax, ay = ax + a, ay + b
        f = D(self.c, 0, self.zconv) / D(self.c, p, self.zconv)
        return ax * f, ay * f

    def beta(self, x, y, z, kws=None):
        kws = self.kws if kws is None else kws
        x, y = np.asarray(x, float), np.asarray(y, float)
        pos, defl = [], []
        for p in self.planes:
            if p >= z:
                break
            bx, by = x.copy(), y.copy()
            for (q, dx, dy) in defl:
                w = D(self.c, q, p) / D(self.c, 0, p)
                bx, by = bx - w * dx, by - w * dy
            dx, dy = self.phys(p, bx, by, kws)
            defl.append((p, dx, dy))
        bx, by = x.copy(), y.copy()
        for (q, dx, dy) in defl:
            w = D(self.c, q, z) / D(self.c, 0, z)
            bx, by = bx - w * dx, by - w * dy
        return bx, by

    def observed(self, idx):
        kws = copy.deepcopy(self.kws)
        for i in sorted(idx, key=lambda i: self.zs[i]):
            bx, by = self.beta(self.kws[i]["center_x"], self.kws[i]["center_y"], self.zs[i], kws)
            kws[i]["center_x"], kws[i]["center_y"] = float(bx), float(by)
        return kws

    def comoving(self, x, y, ax, ay, z1, z2, include=False):
        """explicit ray stepping from (x, y) [comoving] with angle (ax, ay) at z1 to z2"""
        zc = z1
        for p in self.planes:
            if (p > z1 or (include and p == z1)) and p <= z2:
                t = T(self.c, zc, p) if p > zc else 0.
                x, y = x + ax * t, y + ay * t
                dx, dy = self.phys(p, x / T(self.c, 0, p), y / T(self.c, 0, p), self.kws)
                ax, ay = ax - dx, ay - dy
                zc = p
        t = T(self.c, zc, z2) if z2 > zc else 0.
        return x + ax * t, y + ay * t, ax, ay


def sane(*arrs):
    return all(np.all(np.isfinite(a)) for a in arrs) and max(np.max(np.abs(a)) for a in arrs) < 1e3


def pattern(zs):
    return "-".join(str(int(i)) for i in np.argsort(np.argsort(zs, kind="stable"), kind="stable"))


def run_trace(case, mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    cosmo = cosmology(rng)
    lst, zs, kws = draw(rng)
    zsrc = float(rng.uniform(.3, 2.6))
    if rng.integers(4) == 0:
        zsrc = float(rng.choice(zs))                              # a deflector in the source plane
    zconv = None if (max(zs) < zsrc and rng.integers(0, 2)) else float(max(max(zs), zsrc) + rng.uniform(.05, 1.5))
    zc = zsrc if zconv is None else zconv
    ref = Ref(cosmo, lst, zs, kws, zc)
    lm = LensModel(lst, lens_redshift_list=zs, z_source=zsrc, z_source_convention=zconv, multi_plane=True, cosmo=cosmo)
    x, y = rng.uniform(-2.5, 2.5, 4), rng.uniform(-2.5, 2.5, 4)
    ctx = dict(models=lst, z=zs, zsrc=zsrc, zconv=zconv)
    bx, by = ref.beta(x, y, zsrc)
    if not sane(bx, by):
        return
    tol = dict(rtol=1e-6, atol=1e-6)
    mon.close("trace/ray_shooting", lm.ray_shooting(x, y, kws), [bx, by], **tol, **ctx)
    mon.close("trace/alpha", lm.alpha(x, y, kws), [x - bx, y - by], **tol, **ctx)
    sx, sy = lm.ray_shooting(float(x[0]), float(y[0]), kws)
    mon.close("trace/scalar", [sx, sy], [bx[0], by[0]], **tol, **ctx)
    nb = sum(z >= zsrc for z in zs)
    mon.nontrivial("trace", pattern(zs), len(set(zs)), "behind%d" % nb, zconv is None)
    mon.event("planes", len(set(zs)))
    # order of the deflector list is irrelevant
    p = rng.permutation(len(lst))
    lm2 = LensModel([lst[i] for i in p], lens_redshift_list=[zs[i] for i in p], z_source=zsrc, z_source_convention=zconv, multi_plane=True, cosmo=cosmo)
    mon.close("perm", lm2.ray_shooting(x, y, [kws[i] for i in p]), [bx, by], **tol, **ctx)
    # deflectors behind the source have no effect
    front = [i for i in range(len(lst)) if zs[i] < zsrc]
    lm3 = LensModel([lst[i] for i in front], lens_redshift_list=[zs[i] for i in front], z_source=zsrc, z_source_convention=zc, multi_plane=True, cosmo=cosmo)
    mon.close("behind", lm3.ray_shooting(x, y, [kws[i] for i in front]), [bx, by], **tol, **ctx)
    # Hessian and magnification
    d = 1e-6
    xp, xm, yp, ym = ref.beta(x + d, y, zsrc), ref.beta(x - d, y, zsrc), ref.beta(x, y + d, zsrc), ref.beta(x, y - d, zsrc)
    h = np.array([1 - (xp[0] - xm[0]) / 2 / d, -(yp[0] - ym[0]) / 2 / d, -(xp[1] - xm[1]) / 2 / d, 1 - (yp[1] - ym[1]) / 2 / d])
    d2 = 4e-6
    xp, xm, yp, ym = ref.beta(x + d2, y, zsrc), ref.beta(x - d2, y, zsrc), ref.beta(x, y + d2, zsrc), ref.beta(x, y - d2, zsrc)
    h2 = np.array([1 - (xp[0] - xm[0]) / 2 / d2, -(yp[0] - ym[0]) / 2 / d2, -(xp[1] - xm[1]) / 2 / d2, 1 - (yp[1] - ym[1]) / 2 / d2])
    if np.max(np.abs(h - h2)) < 1e-4 and np.max(np.abs(h)) < 1e2:
        # the library differentiates with a forward step of 1e-8: allow the rounding noise of the deflectors themselves
        d3 = 1e-8
        b0, xp, yp = np.array([bx, by]), np.array(ref.beta(x + d3, y, zsrc)), np.array(ref.beta(x, y + d3, zsrc))
        h3 = np.array([1 - (xp - b0)[0] / d3, -(yp - b0)[0] / d3, -(xp - b0)[1] / d3, 1 - (yp - b0)[1] / d3])
        s = 1 + np.max(np.abs(h)) + 1e5 * np.max(np.abs(h3 - h))
        mon.close("hessian", lm.hessian(x, y, kws), h, rtol=1e-4, atol=3e-5 * s, **ctx)
        mon.close("hessian/diff", lm.hessian(x, y, kws, diff=1e-5), h, rtol=1e-4, atol=2e-4 * s, **ctx)
        mon.close("hessian/kappa", lm.kappa(x, y, kws), .5 * (h[0] + h[3]), rtol=1e-4, atol=3e-5 * s, **ctx)
        det = (1 - h[0]) * (1 - h[3]) - h[1] * h[2]
        mon.close("hessian/magnification", 1 / lm.magnification(x, y, kws), det, rtol=1e-3, atol=2e-4 * s ** 2, **ctx)
    mp = lm.lens_model
    # intermediate positions and legs
    zmid = [float(rng.uniform(.01, zsrc)), float(rng.choice(zs)), zsrc]
    for zm in zmid:
        if zm > zsrc:
            continue
        mx, my = ref.beta(x, y, zm)
        tx, ty, ax, ay = mp.ray_shooting_partial(x * 0, y * 0, x, y, 0, zm, kws)
        mon.close("stop/angular", [tx, ty], [mx, my], zm=zm, **tol, **ctx)
        cx, cy, ax2, ay2 = mp.ray_shooting_partial_comoving(x * 0, y * 0, x, y, 0, zm, kws)
        t = T(cosmo, 0, zm)
        mon.close("stop/comoving", [cx / t, cy / t, ax2, ay2], [mx, my, ax, ay], zm=zm, **tol, **ctx)
        rx = ref.comoving(x * 0, y * 0, x, y, 0, zm)
        mon.close("stop/angle", [ax, ay], rx[2:], zm=zm, rtol=1e-6, atol=1e-5, **ctx)
        fx, fy, fax, fay = mp.ray_shooting_partial(tx, ty, ax, ay, zm, zsrc, kws)
        if zm < zsrc:
            mon.close("legs/angular", [fx, fy], [bx, by], zm=zm, **tol, **ctx)
            fx, fy, _, _ = mp.ray_shooting_partial_comoving(cx, cy, ax2, ay2, zm, zsrc, kws)
            mon.close("legs/comoving", [fx / T(cosmo, 0, zsrc), fy / T(cosmo, 0, zsrc)], [bx, by], zm=zm, **tol, **ctx)
            ts, te = mp.transverse_distance_start_stop(zm, zsrc)
            fx, fy, _, _ = mp.ray_shooting_partial(tx, ty, ax, ay, zm, zsrc, kws, T_ij_start=ts, T_ij_end=te)
            mon.close("legs/precomputed", [fx, fy], [bx, by], zm=zm, **tol, **ctx)
    z0 = min(zs)
    if z0 < zsrc:
        fx, fy, _, _ = mp.ray_shooting_partial(x, y, x, y, z0, zsrc, kws, include_z_start=True)
        mon.close("legs/include_start", [fx, fy], [bx, by], **tol, **ctx)
    # observer at z1
    z1 = float(rng.uniform(.01, zsrc * .8))
    if min(abs(z1 - z) for z in zs) > 1e-3:
        t1, t12 = T(cosmo, 0, z1), T(cosmo, z1, zsrc)

        def fpart(u, v, ref=ref):
            a = ref.comoving(x * t1, y * t1, u, v, z1, zsrc)
            return np.array(a[:2]) / t12
        d = 1e-6
        hx, hy = (fpart(x + d, y) - fpart(x - d, y)) / 2 / d, (fpart(x, y + d) - fpart(x, y - d)) / 2 / d
        w = np.array([1 - hx[0], -hy[0], -hx[1], 1 - hy[1]])
        if sane(w) and np.max(np.abs(w)) < 30:
            mon.close("z1z2", lm.hessian_z1z2(z1, zsrc, x, y, kws, diff=1e-7), w, rtol=1e-3, atol=3e-4 * (1 + np.max(np.abs(w))), z1=z1, **ctx)


def run_observed(case, mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    cosmo = cosmology(rng)
    lst, zs, kws = draw(rng, zmax=1.8, names=["SIS", "SIE", "NFW", "EPL", "HERNQUIST", "NIE"])
    zsrc = float(rng.uniform(1.9, 3))
    n = len(lst)
    idx = rng.permutation(n)[:int(rng.integers(1, n + 1))].tolist()
    ref = Ref(cosmo, lst, zs, kws, zsrc)
    flat = ref.observed(idx)
    if not all(abs(k["center_x"]) < 50 and abs(k["center_y"]) < 50 for k in flat):
        return
    x, y = rng.uniform(-2.5, 2.5, 4), rng.uniform(-2.5, 2.5, 4)
    bx, by = ref.beta(x, y, zsrc, flat)
    lm = LensModel(lst, lens_redshift_list=zs, z_source=zsrc, multi_plane=True, cosmo=cosmo, observed_convention_index=list(idx))
    ctx = dict(models=lst, z=zs, idx=idx)
    kw0 = copy.deepcopy(kws)
    got = lm.lens_model.observed2flat_convention(kws)
    mon.close("observed/positions", [[k["center_x"], k["center_y"]] for k in got], [[k["center_x"], k["center_y"]] for k in flat],
              rtol=1e-6, atol=1e-6, **ctx)
    mon.check("observed/input", kws == kw0, "caller's parameters were changed")
    if sane(bx, by):
        mon.close("observed/ray_shooting", lm.ray_shooting(x, y, kws), [bx, by], rtol=1e-6, atol=1e-5, **ctx)
        lm2 = LensModel(lst, lens_redshift_list=zs, z_source=zsrc, multi_plane=True, cosmo=cosmo)
        mon.close("observed/hessian", lm.hessian(x, y, kws), lm2.hessian(x, y, flat), rtol=1e-4, atol=1e-3 * (1 + np.max(np.abs(bx))), **ctx)
        mon.close("observed/partial", lm.lens_model.ray_shooting_partial(x * 0, y * 0, x, y, 0, zsrc, kws)[:2], [bx, by], rtol=1e-6, atol=1e-5, **ctx)
        mon.close("observed/arrival", lm.arrival_time(x, y, kws), lm2.arrival_time(x, y, flat), rtol=1e-5, atol=1e-3, **ctx)
    mon.nontrivial("observed", pattern(zs), tuple(idx), len(set(zs)))


def run_oneplane(case, mon, rng):
    """All deflectors at one redshift: single-plane lensing."""
    from lenstronomy.LensModel.lens_model import LensModel
    cosmo = cosmology(rng)
    lst, _, kws = draw(rng, 4)
    z = float(rng.uniform(.1, 1.2))
    zsrc = float(z + rng.uniform(.2, 2))
    zconv = float(rng.choice([zsrc, zsrc + .7, max(z + .05, zsrc - .1)]))
    x, y = rng.uniform(-2.5, 2.5, 5), rng.uniform(-2.5, 2.5, 5)
    sp = LensModel(lst, z_lens=z, z_source=zsrc, z_source_convention=zconv, cosmo=cosmo)
    mp = LensModel(lst, lens_redshift_list=[z] * len(lst), z_source=zsrc, z_source_convention=zconv, multi_plane=True, cosmo=cosmo)
    a = np.array(sp.alpha(x, y, kws))
    if not sane(a):
        return
    mon.close("oneplane/alpha", mp.alpha(x, y, kws), a, rtol=1e-6, atol=1e-6, models=lst)
    f = np.array(sp.hessian(x, y, kws))
    if np.max(np.abs(f)) < 50:
        mon.close("oneplane/hessian", mp.hessian(x, y, kws), f, rtol=1e-3, atol=1e-4 * (1 + np.max(np.abs(f))), models=lst)
    mon.nontrivial("oneplane", ",".join(sorted(lst)), zconv == zsrc)
    # blank planes added anywhere change nothing
    zb = [float(v) for v in rng.uniform(.05, max(zsrc, zconv) - .02, 3)]
    mb = LensModel(["BLANK_PLANE"] * 3 + lst, lens_redshift_list=zb + [z] * len(lst), z_source=zsrc, z_source_convention=max(zconv, max(zb) + .01),
                   multi_plane=True, cosmo=cosmo)
    mb2 = LensModel(lst, lens_redshift_list=[z] * len(lst), z_source=zsrc, z_source_convention=max(zconv, max(zb) + .01), multi_plane=True, cosmo=cosmo)
    mon.close("oneplane/blank", mb.alpha(x, y, [{}] * 3 + kws), mb2.alpha(x, y, kws), rtol=1e-6, atol=1e-6, models=lst, zb=zb)


def run_interp(case, mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    cosmo = cosmology(rng)
    lst, zs, kws = draw(rng, zmax=1.8)
    zsrc = float(rng.uniform(1.9, 3))
    x, y = rng.uniform(-2.5, 2.5, 4), rng.uniform(-2.5, 2.5, 4)
    ref = Ref(cosmo, lst, zs, kws, zsrc)
    bx, by = ref.beta(x, y, zsrc)
    if not sane(bx, by):
        return
    lm = LensModel(lst, lens_redshift_list=zs, z_source=zsrc, multi_plane=True, cosmo=cosmo, cosmo_interp=True, num_z_interp=300, z_interp_stop=zsrc + 1)
    amax = 1 + np.max(np.abs(x - bx)) + np.max(np.abs(y - by))
    mon.close("interp", lm.ray_shooting(x, y, kws), [bx, by], rtol=1e-4, atol=2e-4 * amax, models=lst, z=zs)
    mon.nontrivial("interp", pattern(zs))


def run_decoupled(case, mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Util import decouple_multi_plane_util as dm
    cosmo = cosmology(rng)
    lst, zs, kws = draw(rng, 5, zmax=1.5, names=["SIS", "SIE", "NFW", "EPL", "HERNQUIST", "SHEAR"])
    zl = float(rng.uniform(.3, 1.0))
    m = int(rng.integers(1, 3))
    lst += [str(v) for v in rng.choice(["EPL", "SIE", "SHEAR"], m)]
    zs += [zl] * m
    kws += [LC.params(v, rng) for v in lst[-m:]]
    p = rng.permutation(len(lst))
    free = [int(i) for i in range(len(lst)) if p[i] >= len(lst) - m]
    lst, zs, kws = [lst[i] for i in p], [zs[i] for i in p], [kws[i] for i in p]
    zsrc = float(rng.uniform(1.6, 3))
    lm = LensModel(lst, lens_redshift_list=zs, z_source=zsrc, multi_plane=True, cosmo=cosmo)
    ref = Ref(cosmo, lst, zs, kws, zsrc)
    ctx = dict(models=lst, z=zs, free=free)
    fixed, fr, kfix, kfree, zs_, zsplit, bkg = dm.setup_lens_model(lm, kws, free)
    mon.check("decoupled/split", zsplit == zl and zs_ == zsrc and len(kfree) == m, "split %s %s" % (zsplit, zs_))
    xi, yi = rng.uniform(-2, 2, 4), rng.uniform(-2, 2, 4)
    bx, by = ref.beta(xi, yi, zsrc)
    if not sane(bx, by):
        return
    tol = dict(rtol=1e-6, atol=1e-5)
    # POINT and MULTIPLE_IMAGES are exact at the given coordinates
    r = dm.coordinates_and_deflections(fixed, fr, kfix, kfree, xi, yi, zsplit, zsrc, bkg)
    for ct, extra in (("POINT", {}), ("MULTIPLE_IMAGES", dict(x_image=xi, y_image=yi))):
        kd = dm.decoupled_multiplane_class_setup(fr, *r, zsplit, coordinate_type=ct, **extra)
        ld = LensModel(**kd)
        mon.close("decoupled/" + ct, ld.ray_shooting(xi, yi, kfree), [bx, by], **tol, **ctx)
        mon.close("decoupled/alpha_" + ct, ld.alpha(xi, yi, kfree), [xi - bx, yi - by], **tol, **ctx)
    # GRID: exact on grid nodes, non-square orientation check through off-centre windows
    cx, cy = float(rng.uniform(-1.5, 1.5)), float(rng.uniform(-1.5, 1.5))
    gx, gy, pts, npix = dm.setup_grids(.4, .05, cx, cy)
    gbx, gby = ref.beta(gx, gy, zsrc)
    r = dm.coordinates_and_deflections(fixed, fr, kfix, kfree, gx, gy, zsplit, zsrc, bkg)
    kd = dm.decoupled_multiplane_class_setup(fr, *r, zsplit, coordinate_type="GRID", interp_points=pts)
    ld = LensModel(**kd)
    if sane(gbx, gby):
        mon.close("decoupled/GRID", ld.ray_shooting(gx, gy, kfree), [gbx, gby], **tol, **ctx)
    # foreground fixed: changing the free lens moves the rays as the decoupled equation says
    k2 = copy.deepcopy(kfree)
    for k in k2:
        if "theta_E" in k:
            k["theta_E"] *= 1.1
    a1 = np.array(LensModel([lst[i] for i in free]).alpha(r[0] / T(cosmo, 0, zl), r[1] / T(cosmo, 0, zl), kfree))
    a2 = np.array(LensModel([lst[i] for i in free]).alpha(r[0] / T(cosmo, 0, zl), r[1] / T(cosmo, 0, zl), k2))
    if sane(a1, a2, gbx):
        mon.close("decoupled/change", ld.ray_shooting(gx, gy, k2), np.array([gbx, gby]) - (a2 - a1), **tol, **ctx)
    mon.nontrivial("decoupled", pattern(zs), tuple(free))


def run_organizer(case, mon, rng):
    """Distance-ratio sampling with all factors one reproduces the fiducial cosmology; cosmology sampling equals that cosmology."""
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.ImSim.multiplane_organizer import MultiPlaneOrganizer
    from lenstronomy.Cosmo.background import Background
    cosmo, cosmo2 = cosmology(rng), cosmology(rng)
    n = int(rng.integers(2, 4))
    zs = sorted(float(v) for v in rng.uniform(.1, 1.2, n))
    lst = [str(v) for v in rng.choice(["SIS", "SIE", "NFW", "EPL"], n)]
    kws = [LC.params(v, rng) for v in lst]
    p = rng.permutation(n)
    zs = [zs[i] for i in p]
    zsrc = float(rng.uniform(1.4, 3))
    x, y = rng.uniform(-2.5, 2.5, 4), rng.uniform(-2.5, 2.5, 4)
    lm = LensModel(lst, lens_redshift_list=zs, z_source=zsrc, z_source_convention=zsrc, multi_plane=True, cosmo=cosmo, distance_ratio_sampling=True,
                   z_lens_convention=min(zs))
    sidx = [int(v) for v in np.argsort(zs)]
    org = MultiPlaneOrganizer(lens_redshift_list=zs, source_redshift_list=[zsrc], sorted_lens_redshift_index=sidx, sorted_source_redshift_index=[0],
                              z_lens_convention=min(zs), z_source_convention=zsrc, cosmo=Background(cosmo))
    planes = sorted(set(zs + [zsrc]))
    nl = len(planes) - 1

    def factors(c2):
        kw = {}
        for j in range(1, nl + 1):
            for i in range(1, j):
                f = lambda c: D(c, planes[i - 1], planes[j - 1]) * D(c, 0, zsrc) / D(c, planes[i - 1], zsrc) / D(c, 0, planes[j - 1])
                kw["factor_beta_%d_%d" % (i, j)] = f(c2) / f(cosmo)
        return kw
    ref = Ref(cosmo, lst, zs, kws, zsrc)
    ref2 = Ref(cosmo2, lst, zs, kws, zsrc)
    b1, b2 = np.array(ref.beta(x, y, zsrc)), np.array(ref2.beta(x, y, zsrc))
    if not sane(b1, b2):
        return
    ddt = lambda c: (1 + min(zs)) * D(c, 0, min(zs)) * D(c, 0, zsrc) / D(c, min(zs), zsrc)
    ctx = dict(models=lst, z=zs, zsrc=zsrc)
    kw1 = factors(cosmo)
    kw1["D_dt"] = ddt(cosmo)
    org.update_lens_T_lists(lm, kw1)
    mon.close("organizer/fiducial", lm.ray_shooting(x, y, kws), b1, rtol=1e-6, atol=1e-5, **ctx)
    kw2 = factors(cosmo2)
    kw2["D_dt"] = ddt(cosmo2)
    org.update_lens_T_lists(lm, kw2)
    mon.close("organizer/other", lm.ray_shooting(x, y, kws), b2, rtol=1e-6, atol=1e-5, **ctx)
    base = lm.lens_model.multi_plane_base
    sz = [zs[i] for i in sidx]
    mon.close("organizer/T_z", base.T_z_list, [T(cosmo, 0, z) for z in sz], rtol=1e-6, **ctx)
    mon.close("organizer/T_ij", base.T_ij_list, [T(cosmo, 0, sz[0])] + [
        T(cosmo, sz[i], sz[i + 1]) * kw2["factor_beta_%d_%d" % (i + 1, i + 2)] for i in range(n - 1)], rtol=1e-6, **ctx)
    mon.close("organizer/T_stop", [lm.lens_model.T_ij_start, lm.lens_model.T_ij_stop], [T(cosmo, 0, sz[0]), T(cosmo, sz[-1], zsrc)], rtol=1e-6, **ctx)
    # back again: no drift
    org.update_lens_T_lists(lm, kw1)
    mon.close("organizer/back", lm.ray_shooting(x, y, kws), b1, rtol=1e-6, atol=1e-5, **ctx)
    # explicit change of the background cosmology
    lm3 = LensModel(lst, lens_redshift_list=zs, z_source=zsrc, multi_plane=True, cosmo=cosmo)
    lm3.lens_model.set_background_cosmo(cosmo2)
    mon.close("organizer/set_background_cosmo", lm3.ray_shooting(x, y, kws), b2, rtol=1e-6, atol=1e-5, **ctx)
    mon.nontrivial("organizer", pattern(zs))


def run_curved(case, mon, rng):
    from astropy.cosmology import LambdaCDM
    from lenstronomy.LensModel.lens_model import LensModel
    cosmo = LambdaCDM(H0=70, Om0=.3, Ode0=float(.7 - rng.uniform(.15, .3)))
    zl, zsrc = .5, 2.0
    kw = [dict(theta_E=1., center_x=0, center_y=0)]
    lm = LensModel(["SIS"], lens_redshift_list=[zl], z_source=zsrc, multi_plane=True, cosmo=cosmo)
    x, y = rng.uniform(-2.5, 2.5, 4), rng.uniform(-2.5, 2.5, 4)
    ref = Ref(cosmo, ["SIS"], [zl], kw, zsrc)
    mon.close("curved/ray_shooting", lm.ray_shooting(x, y, kw), ref.beta(x, y, zsrc), rtol=1e-6, atol=1e-6)
    mon.nontrivial("curved", round(cosmo.Ode0, 3))


def run(case, mon, rng):
    globals()["run_" + case["kind"]](case, mon, rng)

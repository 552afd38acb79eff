"""C07: arrival times vs an independently written sum of geometric and potential delays, and Fermat's principle."""
import numpy as np
import lenscat as LC
from c06_multiplane import Ref, D, cosmology, draw, sane

RULE = ("one signature per (kind, number of planes, position relative to the source, convention); random lens models, redshifts and cosmologies; arrival "
        "times are compared with sums of (1+z)D_iD_j/D_ij/c delays computed from astropy distances and with the stationarity identity of Fermat's principle")
ASSUMPTIONS = ["spatially flat cosmologies", "lens potentials are those of single-plane LensModel (C01, C04)"]
REQUIRED = ["check:single", "check:multi", "check:fermat", "check:stationary", "check:tdc", "check:units", "check:convention", "check:h0", "check:images"]
TIMEOUT = 200
MPC_ARCSEC2_DAYS = 3.0856775814913674e22 / 299792458.0 / 86400.0 * (np.pi / 180 / 3600) ** 2
SMOOTH = ["SIS", "SIE", "EPL", "NFW", "SHEAR", "CONVERGENCE", "HERNQUIST", "GAUSSIAN", "PJAFFE", "TNFW", "NIE", "SHEAR_GAMMA_PSI", "POINT_MASS"]


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for kind, n in (("single", 60), ("multi", 90), ("convention", 30), ("tdc", 12), ("units", 30), ("images", 24)):
        for i in range(n if q else n * 6):
            out.append(dict(name="%s/%d" % (kind, i), kind=kind, group=kind))
    return out


def run(case, mon, rng):
    globals()["run_" + case["kind"]](case, mon, rng)


def ddt(c, zl, zs):
    return (1 + zl) * D(c, 0, zl) * D(c, 0, zs) / D(c, zl, zs)


def run_single(case, mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    c = cosmology(rng)
    n = int(rng.integers(1, 4))
    lst = [str(v) for v in rng.choice(SMOOTH, n)]
    kws = [LC.params(k, rng) for k in lst]
    zl = float(rng.uniform(.1, 1.2))
    zs = zl + float(rng.uniform(.2, 2))
    zc = [None, zs, zl + float(rng.uniform(.2, 2.5))][int(rng.integers(0, 3))]
    m = LensModel(lst, z_lens=zl, z_source=zs, z_source_convention=zc, cosmo=c)
    p = LensModel(lst)
    x, y = rng.uniform(-3, 3, 9), rng.uniform(-3, 3, 9)
    lam = 1.0
    if zc is not None:
        lam = D(c, zl, zs) / D(c, 0, zs) * D(c, 0, zc) / D(c, zl, zc)
    pot = sum(LensModel([a]).potential(x, y, [k]) for a, k in zip(lst, kws)) * lam
    ax, ay = p.alpha(x, y, kws)
    bx, by = x - lam * ax, y - lam * ay
    ctx = dict(lens=lst, kwargs=kws, z=(zl, zs, zc))
    unit = ddt(c, zl, zs) * MPC_ARCSEC2_DAYS
    # free source point
    sx, sy = float(rng.uniform(-.5, .5)), float(rng.uniform(-.5, .5))
    want = .5 * ((x - sx) ** 2 + (y - sy) ** 2) - pot
    got = m.fermat_potential(x, y, kws, x_source=sx, y_source=sy)
    mon.close("fermat/given_source", got, want, rtol=1e-8, atol=1e-8, msg="Fermat potential", **ctx)
    got = m.fermat_potential(x, y, kws)
    wr = .5 * ((x - bx) ** 2 + (y - by) ** 2) - pot
    mon.close("fermat/traced_source", got, wr, rtol=1e-7, atol=1e-8, msg="Fermat potential", **ctx)
    mon.close("single/given_source", m.arrival_time(x, y, kws, x_source=sx, y_source=sy), unit * want, rtol=1e-6, atol=1e-6 * unit, msg="arrival time", **ctx)
    mon.close("single/traced", m.arrival_time(x, y, kws), unit * wr, rtol=1e-6, atol=1e-6 * unit, msg="arrival time", **ctx)
    ke = float(rng.uniform(-.3, .3))
    mon.close("single/kappa_ext", m.arrival_time(x, y, kws, kappa_ext=ke), unit * wr * (1 - ke), rtol=1e-6, atol=1e-6 * unit, msg="arrival time with external convergence", **ctx)
    t1 = m.arrival_time(float(x[0]), float(y[0]), kws)
    mon.close("single/scalar", t1, unit * wr[0], rtol=1e-6, atol=1e-6 * unit, msg="arrival time of a scalar position", **ctx)
    # stationarity at fixed source: gradient vanishes exactly where the ray maps to that source
    i = int(rng.integers(9))
    h = 1e-4
    f = lambda a, b: m.fermat_potential(a, b, kws, x_source=float(bx[i]), y_source=float(by[i]))
    gx = (f(x[i] + h, y[i]) - f(x[i] - h, y[i])) / 2 / h
    gy = (f(x[i], y[i] + h) - f(x[i], y[i] - h)) / 2 / h
    H = np.max(np.abs(m.hessian(x[i], y[i], kws)))
    if H < 20:
        mon.close("stationary/single", [gx, gy], [0., 0.], rtol=0, atol=2e-5 * (1 + H * 5), msg="Fermat potential not stationary at the image", **ctx)
    f0 = lambda a, b: m.fermat_potential(a, b, kws, x_source=sx, y_source=sy)
    g2 = np.array([(f0(x[i] + h, y[i]) - f0(x[i] - h, y[i])) / 2 / h, (f0(x[i], y[i] + h) - f0(x[i], y[i] - h)) / 2 / h])
    if H < 20:
        mon.close("stationary/gradient", g2, [bx[i] - sx, by[i] - sy], rtol=1e-4, atol=2e-5 * (1 + H * 5), msg="gradient of the Fermat potential is not the lens equation residual", **ctx)
    # same cosmology with another H0
    k = float(rng.uniform(.6, 1.6))
    c2 = type(c)(name="other", **dict(dict(c.parameters), H0=c.H0.value * k))
    m2 = LensModel(lst, z_lens=zl, z_source=zs, z_source_convention=zc, cosmo=c2)
    mon.close("h0/single", m2.arrival_time(x, y, kws) * k, unit * wr, rtol=1e-6, atol=1e-6 * unit, msg="arrival times do not scale with 1/H0", **ctx)
    mon.nontrivial("single", n, "conv" if zc is not None and zc != zs else "plain")


class RefT(Ref):
    def delay(self, x, y, z, kws=None):
        """(geometric, potential) delay in days up to redshift z"""
        kws = self.kws if kws is None else kws
        x, y = np.asarray(x, float), np.asarray(y, float)
        planes = [p for p in self.planes if p <= z]
        pts = []
        geo, grav = np.zeros_like(x), np.zeros_like(x)
        for j, p in enumerate(planes):
            # position on plane p: deflected by planes strictly in front
            bx, by = self.beta(x, y, p, kws)
            pts.append((p, bx, by))
            for i, zi in enumerate(self.zs):
                if zi == p:
                    grav = grav - ddt(self.c, p, self.zconv) * MPC_ARCSEC2_DAYS * self.m[i].potential(bx, by, [kws[i]])
        bx, by = self.beta(x, y, z, kws)
        pts.append((z, bx, by))
        for (za, xa, ya), (zb, xb, yb) in zip(pts[:-1], pts[1:]):
            if zb > za:
                geo = geo + ddt(self.c, za, zb) * MPC_ARCSEC2_DAYS * .5 * ((xa - xb) ** 2 + (ya - yb) ** 2)
        return geo, grav


def run_multi(case, mon, rng):
    from lenstronomy.LensModel.lens_model import LensModel
    c = cosmology(rng)
    lst, zs, kws = draw(rng, 5, 2.4, SMOOTH)
    behind = bool(rng.integers(0, 2))
    zsrc = float(rng.uniform(max(zs) * .6, max(zs))) if behind and len(zs) > 1 else max(zs) + float(rng.uniform(.1, 1.5))
    zsrc = max(zsrc, .35)
    zconv = max(max(zs), zsrc) + float(rng.uniform(.1, 1)) if rng.integers(0, 2) or behind else zsrc
    ref = Ref(c, lst, zs, kws, zconv)
    ref = RefT(c, lst, zs, kws, zconv)
    x, y = rng.uniform(-2.5, 2.5, 7), rng.uniform(-2.5, 2.5, 7)
    if rng.integers(0, 2):
        m = LensModel(lst, multi_plane=True, lens_redshift_list=zs, z_source=zsrc, z_source_convention=zconv, cosmo=c, z_lens=.3)
    else:       # reached by changing the source redshift afterwards
        m = LensModel(lst, multi_plane=True, lens_redshift_list=zs, z_source=zconv, z_source_convention=zconv, cosmo=c, z_lens=.3)
        m.arrival_time(x, y, kws)
        m.change_source_redshift(zsrc)
    ctx = dict(lens=lst, z=zs, kwargs=kws, zsrc=zsrc, zconv=zconv)
    b = ref.beta(x, y, zsrc)
    geo, grav = ref.delay(x, y, zsrc)
    if not sane(b[0], b[1]) or np.max(np.abs(b)) > 60:
        return
    sc = np.max(np.abs(geo)) + np.max(np.abs(grav)) + 1e-3
    t = m.arrival_time(x, y, kws)
    mon.close("multi/total", t, geo + grav, rtol=1e-5, atol=2e-6 * sc, msg="multi-plane arrival time", **ctx)
    g, s = m.lens_model.geo_shapiro_delay(x, y, kws)
    mon.close("multi/geo", g, geo, rtol=1e-5, atol=2e-6 * sc, msg="geometric delay", **ctx)
    mon.close("multi/grav", s, grav, rtol=1e-5, atol=2e-6 * sc, msg="gravitational delay", **ctx)
    ke = float(rng.uniform(-.3, .3))
    mon.close("multi/kappa_ext", m.arrival_time(x, y, kws, kappa_ext=ke), (1 - ke) * (geo + grav), rtol=1e-5, atol=2e-6 * sc, msg="arrival time with external convergence", **ctx)
    fp = m.fermat_potential(x, y, kws)
    mon.close("fermat/effective", fp * ddt(c, .3, zsrc) * MPC_ARCSEC2_DAYS, geo + grav, rtol=1e-5, atol=2e-6 * sc, msg="effective Fermat potential times time-delay distance is not the arrival time", **ctx)
    front = [z for z in zs if z < zsrc]
    # Fermat: dT/dtheta = tau_Ns (beta - theta_N) . dbeta/dtheta, and zero at images of a fixed source
    if front and not any(z == zsrc for z in zs):
        zN = max(front)
        i = int(rng.integers(7))
        h = 3e-4
        T = lambda a, q: float(m.arrival_time(a, q, kws))
        gx = (T(x[i] + h, y[i]) - T(x[i] - h, y[i])) / 2 / h
        gy = (T(x[i], y[i] + h) - T(x[i], y[i] - h)) / 2 / h
        Bxp, Bxm = ref.beta(x[i] + h, y[i], zsrc), ref.beta(x[i] - h, y[i], zsrc)
        Byp, Bym = ref.beta(x[i], y[i] + h, zsrc), ref.beta(x[i], y[i] - h, zsrc)
        dbx = [(Bxp[k] - Bxm[k]) / 2 / h for k in range(2)]
        dby = [(Byp[k] - Bym[k]) / 2 / h for k in range(2)]
        tN = ref.beta(x[i], y[i], zN)
        bb = ref.beta(x[i], y[i], zsrc)
        tau = ddt(c, zN, zsrc) * MPC_ARCSEC2_DAYS
        want = [tau * sum((bb[k] - tN[k]) * d[k] for k in range(2)) for d in (dbx, dby)]
        if max(np.max(np.abs(dbx)), np.max(np.abs(dby))) < 20:
            S = ddt(c, zN, zsrc) * MPC_ARCSEC2_DAYS * 5 + sum(ddt(c, z, zconv) * MPC_ARCSEC2_DAYS for z in front)
            mon.close("stationary/multi", [gx, gy], want, rtol=2e-3, atol=3e-4 * S, msg="arrival-time gradient violates Fermat's principle", **ctx)
    mon.nontrivial("multi", len(set(zs)), len(zs), "behind" if behind else "front", "conv" if zconv != zsrc else "plain")


def run_convention(case, mon, rng):
    """observed position convention, one-plane equivalence, independence of component order, deflectors behind, empty cone"""
    from lenstronomy.LensModel.lens_model import LensModel
    c = cosmology(rng)
    lst, zs, kws = draw(rng, 4, 1.5, [n for n in SMOOTH if "SHEAR" not in n and n != "CONVERGENCE"])
    zsrc = max(zs) + float(rng.uniform(.2, 1))
    idx = sorted(int(v) for v in rng.choice(len(lst), int(rng.integers(1, len(lst) + 1)), replace=False))
    x, y = rng.uniform(-2.5, 2.5, 6), rng.uniform(-2.5, 2.5, 6)
    ref = RefT(c, lst, zs, kws, zsrc)
    k2 = ref.observed(idx)
    b = ref.beta(x, y, zsrc, k2)
    if sane(*b) and max(abs(k["center_x"]) + abs(k["center_y"]) for k in k2) < 20:
        geo, grav = ref.delay(x, y, zsrc, k2)
        m = LensModel(lst, multi_plane=True, lens_redshift_list=zs, z_source=zsrc, cosmo=c, observed_convention_index=idx)
        t = m.arrival_time(x, y, kws)
        sc = np.max(np.abs(geo)) + np.max(np.abs(grav)) + 1e-3
        mon.close("convention/observed", t, geo + grav, rtol=1e-5, atol=1e-5 * sc, msg="arrival time with observed deflector positions", lens=lst, z=zs, kwargs=kws, idx=idx)
    # permutation
    p = [int(v) for v in rng.permutation(len(lst))]
    geo, grav = ref.delay(x, y, zsrc)
    sc = np.max(np.abs(geo)) + np.max(np.abs(grav)) + 1e-3
    if np.isfinite(sc):
        m = LensModel([lst[i] for i in p], multi_plane=True, lens_redshift_list=[zs[i] for i in p], z_source=zsrc, cosmo=c)
        mon.close("convention/permuted", m.arrival_time(x, y, [kws[i] for i in p]), geo + grav, rtol=1e-5, atol=1e-5 * sc, msg="arrival time depends on the order of the deflectors", lens=lst, z=zs, kwargs=kws)
    # everything in one plane: equals single-plane
    zl = zs[0]
    mm = LensModel(lst, multi_plane=True, lens_redshift_list=[zl] * len(lst), z_source=zsrc, cosmo=c)
    ms = LensModel(lst, z_lens=zl, z_source=zsrc, cosmo=c)
    a, b = mm.arrival_time(x, y, kws), ms.arrival_time(x, y, kws)
    mon.close("convention/oneplane", a, b, rtol=1e-5, atol=1e-5 * np.max(np.abs(b)), msg="one-plane multi-plane arrival time differs from single plane", lens=lst, z=zl, kwargs=kws)
    # deflectors all behind the source: straight lines, no relative delay
    zfront = min(zs) * .7
    mb = LensModel(lst, multi_plane=True, lens_redshift_list=zs, z_source=zfront, z_source_convention=zsrc, cosmo=c)
    mon.close("convention/behind", mb.arrival_time(x, y, kws), np.zeros(6), rtol=0, atol=1e-9, msg="delay from deflectors behind the source", z=zs, zsrc=zfront)
    mon.nontrivial("convention", len(lst), len(idx))


def run_tdc(case, mon, rng):
    from lenstronomy.Analysis.td_cosmography import TDCosmography
    from lenstronomy.LensModel.lens_model import LensModel
    c = cosmology(rng)
    zl = float(rng.uniform(.2, .9))
    zs = zl + float(rng.uniform(.3, 1.5))
    e1, e2 = LC.ell(rng, .2)
    kl = [dict(theta_E=float(rng.uniform(.8, 1.5)), gamma=LC.gam(rng, 1.8, 2.2), e1=e1, e2=e2, center_x=.02, center_y=-.03),
          dict(gamma1=float(rng.uniform(-.05, .05)), gamma2=float(rng.uniform(-.05, .05)), ra_0=0, dec_0=0)]
    model = dict(lens_model_list=["EPL", "SHEAR"], point_source_model_list=["SOURCE_POSITION"] if rng.integers(0, 2) else ["LENSED_POSITION"],
                 lens_light_model_list=["HERNQUIST"])
    sx, sy = float(rng.uniform(-.1, .1)), float(rng.uniform(-.1, .1))
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
    lm = LensModel(["EPL", "SHEAR"], z_lens=zl, z_source=zs, cosmo=c)
    ix, iy = LensEquationSolver(lm).image_position_from_source(sx, sy, kl, min_distance=.05, search_window=5)
    if len(ix) < 2:
        return
    td = TDCosmography(zl, zs, model, cosmo_fiducial=c, kinematics_backend="galkin")
    if model["point_source_model_list"][0] == "SOURCE_POSITION":
        kps = [dict(ra_source=sx, dec_source=sy, source_amp=1.)]
        orig = False
    else:
        kps = [dict(ra_image=ix, dec_image=iy, point_amp=np.ones(len(ix)))]
        orig = bool(rng.integers(0, 2))
    dt = td.time_delays(kl, kps, original_ps_position=orig)
    fp = td.fermat_potential(kl, kps, original_ps_position=orig)
    want = np.sort(lm.arrival_time(ix, iy, kl, x_source=sx, y_source=sy))
    sc = ddt(c, zl, zs) * MPC_ARCSEC2_DAYS
    mon.check("tdc/number", len(dt) == len(ix), "number of delays differs from number of images", got=len(dt), want=len(ix), kwargs=kl)
    if len(dt) == len(ix):
        mon.close("tdc/delays", np.sort(dt), want, rtol=1e-4, atol=1e-4 * sc, msg="TDCosmography delays", kwargs=kl, kps=kps)
        mon.close("tdc/fermat", np.sort(fp) * sc, want, rtol=1e-4, atol=1e-4 * sc, msg="TDCosmography Fermat potentials", kwargs=kl, kps=kps)
        if orig:
            mon.close("tdc/order", dt, lm.arrival_time(ix, iy, kl, x_source=sx, y_source=sy), rtol=1e-4, atol=1e-4 * sc, msg="delays not in the order of the given positions", kwargs=kl)
        i, j = 0, len(dt) - 1
        dphi, ddts = fp[i] - fp[j], dt[i] - dt[j]
        if abs(dphi) > 1e-3:
            mon.close("tdc/ddt", td.ddt_from_time_delay(dphi, ddts), ddt(c, zl, zs), rtol=1e-6, msg="time-delay distance from a delay and its Fermat potential", kwargs=kl)
            ks, kds, kd = (float(v) for v in rng.uniform(-.1, .1, 3))
            mon.close("tdc/ddt_kappa", td.ddt_from_time_delay(dphi, ddts, kappa_s=ks, kappa_ds=kds, kappa_d=kd), ddt(c, zl, zs) * (1 - kds) / (1 - ks) / (1 - kd), rtol=1e-6, msg="time-delay distance with external convergence")
            sig, J = float(rng.uniform(150, 350)), float(rng.uniform(1e-7, 1e-6))
            sd = td.ds_dds_from_kinematics(sig, J, kappa_s=ks, kappa_ds=kds)
            mon.close("tdc/dsdds", sd, (sig / 299792.458) ** 2 / J * (1 - kds) / (1 - ks), rtol=1e-6, msg="Ds/Dds from kinematics")
            Jt = (sig / 299792.458) ** 2 * D(c, zl, zs) / D(c, 0, zs)
            a, b = td.ddt_dd_from_time_delay_and_kinematics(dphi, ddts, sig, Jt)
            mon.close("tdc/dd", [a, b], [ddt(c, zl, zs), D(c, 0, zl)], rtol=1e-6, msg="angular diameter distances from delays and kinematics")
    ke = float(rng.uniform(-.2, .2))
    mon.close("tdc/kappa", td.time_delays(kl, kps, kappa_ext=ke, original_ps_position=orig), dt * (1 - ke), rtol=1e-8, atol=1e-10, msg="delays with external convergence")
    mon.nontrivial("tdc", model["point_source_model_list"][0], len(ix), orig)


def run_units(case, mon, rng):
    from lenstronomy.Cosmo.lens_cosmo import LensCosmo
    from lenstronomy.Util import constants as const
    c = cosmology(rng)
    zl = float(rng.uniform(.05, 1.5))
    zs = zl + float(rng.uniform(.05, 3))
    L = LensCosmo(zl, zs, cosmo=c)
    d = ddt(c, zl, zs)
    f = rng.normal(size=5) * 3
    ke = float(rng.uniform(-.3, .3))
    mon.close("units/delay", L.time_delay_units(f), d * MPC_ARCSEC2_DAYS * f, rtol=1e-6, msg="delay from Fermat potential", z=(zl, zs))
    mon.close("units/kappa", L.time_delay_units(f, kappa_ext=ke), d * MPC_ARCSEC2_DAYS * f * (1 - ke), rtol=1e-6, msg="delay with external convergence", z=(zl, zs))
    mon.close("units/inverse", L.time_delay2fermat_pot(L.time_delay_units(f)), f, rtol=1e-9, msg="delay and back", z=(zl, zs))
    mon.close("units/ddt", L.ddt, d, rtol=1e-8, msg="time-delay distance", z=(zl, zs))
    mon.close("units/const", const.delay_arcsec2days(f, d), d * MPC_ARCSEC2_DAYS * f, rtol=1e-6, msg="delay_arcsec2days")
    mon.nontrivial("units", round(zl, 1), round(zs))


def run_images(case, mon, rng):
    """images of one source: delays of the solver's images are the critical values of the Fermat surface, ordered as reported"""
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
    c = cosmology(rng)
    mp = bool(rng.integers(0, 2))
    e1, e2 = LC.ell(rng, .2)
    kl = [dict(theta_E=float(rng.uniform(.8, 1.5)), gamma=LC.gam(rng, 1.8, 2.2), e1=e1, e2=e2, center_x=.02, center_y=-.03),
          dict(theta_E=float(rng.uniform(.05, .2)), center_x=float(rng.uniform(-2, 2)), center_y=1.8)]
    if mp:
        m = LensModel(["EPL", "SIS"], multi_plane=True, lens_redshift_list=[.5, .7], z_source=1.5, cosmo=c, z_lens=.5)
    else:
        m = LensModel(["EPL", "SIS"], z_lens=.5, z_source=1.5, cosmo=c)
    sx, sy = float(rng.uniform(-.15, .15)), float(rng.uniform(-.15, .15))
    ix, iy = LensEquationSolver(m).image_position_from_source(sx, sy, kl, min_distance=.05, search_window=6, precision_limit=1e-10)
    if len(ix) < 2:
        return
    t = m.arrival_time(ix, iy, kl) if mp else m.arrival_time(ix, iy, kl, x_source=sx, y_source=sy)
    mon.check("images/order", np.all(np.diff(t) >= -1e-6 * np.max(np.abs(t))), "images are not in order of arrival", t=t, kwargs=kl, src=(sx, sy))
    # first image is a minimum of the Fermat surface: positive parity, both eigenvalues positive
    det = 1 / m.magnification(ix, iy, kl)
    fxx, fxy, fyx, fyy = m.hessian(ix, iy, kl)
    if abs(det[0]) > 1e-3:
        mon.check("images/minimum", det[0] > 0 and (1 - fxx[0]) + (1 - fyy[0]) > 0, "earliest image is not a minimum of the arrival time", det=det, kwargs=kl, src=(sx, sy))
    mon.nontrivial("images", "multi" if mp else "single", len(ix))

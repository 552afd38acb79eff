"""C11: distances, densities and unit conversions, against the cosmology's own distances, inverse conversions and the lens profiles themselves."""
import warnings
import numpy as np
from scipy import integrate
from lenscat import U

RULE = ("one signature per (family of quantity, cosmology type, curvature sign, redshift regime); random cosmologies and redshift pairs in random query orders; oracles are astropy's distances, "
        "an own integration of 1/E(z), inverse conversions and mass integrals of lenstronomy's own lens profiles")
ASSUMPTIONS = ["physical constants agree with astropy's to 1e-3", "concentrations in the documented range 4..40 (NFW) and 1..30 (generalised NFW)"]
REQUIRED = ["check:distance", "check:density", "check:interp", "check:unit", "check:nfw", "check:gnfw", "check:order", "check:mass", "check:solver", "check:micro", "check:kde", "check:scaling", "check:lcdm"]
TIMEOUT = 120

Gn, cl, Msun, Mpc, asec, day = 6.67430e-11, 299792458., 1.98841e30, 3.0856775814913673e22, np.pi / 180 / 3600, 86400.
C4G = cl ** 2 / (4 * np.pi * Gn) * Mpc / Msun     # Msun / Mpc


def cases(tier, seed):
    q = tier == "quick"
    k = 1 if q else 12
    return [dict(name="%s/%d" % (n, i), kind=n, group=n) for n, m in (("distance", 40), ("interp", 24), ("unit", 40), ("nfw", 24), ("gnfw", 10), ("mass", 16), ("order", 12), ("solver", 3),
                                                                       ("micro", 6), ("kde", 4), ("lcdm", 10)) for i in range(m * k)]


def run(case, mon, rng):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + case["kind"]](case, mon, rng)


def cosmology(rng, flat=None, tcmb=None):
    import astropy.cosmology as A
    kind = str(rng.choice(["FlatLambdaCDM", "LambdaCDM", "wCDM", "FlatwCDM", "w0waCDM", "Flatw0waCDM", "default"]))
    if flat:
        kind = str(rng.choice(["FlatLambdaCDM", "FlatwCDM"]))
    if flat is False:
        kind = str(rng.choice(["LambdaCDM", "wCDM", "w0waCDM"]))
    if kind == "default":
        return A.default_cosmology.get(), "default"
    kw = dict(H0=U(rng, 50, 90), Om0=U(rng, .1, .6), Tcmb0=float(rng.choice([0., 2.725])))
    if kind in ("LambdaCDM", "wCDM", "w0waCDM"):
        kw["Ode0"] = U(rng, .3, 1.)
    if "w0wa" in kind:
        kw.update(w0=U(rng, -1.4, -.7), wa=U(rng, -.4, .4))
    elif "wCDM" in kind:
        kw.update(w0=U(rng, -1.4, -.7))
    c = getattr(A, kind)(**kw)
    return c, "%s %+d" % (kind, int(np.sign(np.round(c.Ok0, 3))))


def own_distance(c, z1, z2):
    """angular diameter distance from z1 to z2 by integration of 1/E"""
    dh = cl / 1000. / c.H0.value
    dc = dh * integrate.quad(lambda z: 1. / float(c.efunc(z)), z1, z2, epsabs=0, epsrel=1e-10)[0]
    ok = float(c.Ok0)
    if abs(ok) < 1e-9:
        d = dc
    else:
        s = np.sqrt(abs(ok)) / dh
        d = np.sinh(s * dc) / s if ok > 0 else np.sin(s * dc) / s
    return d / (1 + z2)


def zpair(rng):
    r = rng.random()
    if r < .2:
        z1 = U(rng, .005, .05); return z1, z1 + U(rng, .01, .1)
    if r < .4:
        z1 = U(rng, 1., 4.); return z1, z1 + U(rng, .1, 4.)
    z1 = U(rng, .1, 1.); return z1, z1 + U(rng, .05, 3.)


def run_distance(case, mon, rng):
    from lenstronomy.Cosmo.background import Background
    c, nm = cosmology(rng)
    b = Background(c)
    zl, zs = zpair(rng)
    zs2 = zs + U(rng, .05, 2)
    cx = dict(cosmo=nm, zl=zl, zs=zs, zs2=zs2)
    mon.nontrivial("distance", nm, zl > 1)
    D = {(a, e): own_distance(c, a, e) for a, e in ((0, zl), (0, zs), (zl, zs), (0, zs2), (zl, zs2))}
    for (a, e), d in D.items():
        mon.close("distance/angular", b.d_xy(a, e), d, 1e-6, 0, "angular diameter distance", a=a, e=e, **cx)
        mon.close("distance/transverse", b.T_xy(a, e), d * (1 + e), 1e-6, 0, "transverse comoving distance", a=a, e=e, **cx)
    ddt = lambda s: (1 + zl) * D[0, zl] * D[0, s] / D[zl, s]
    mon.close("distance/ddt", b.ddt(zl, zs), ddt(zs), 1e-6, 0, "time-delay distance", **cx)
    beta = D[zl, zs] / D[0, zs] * D[0, zs2] / D[zl, zs2]
    mon.close("distance/beta", b.beta_double_source_plane(zl, zs, zs2), beta, 1e-6, 0, "double source plane ratio", **cx)
    mon.close("distance/beta", b.beta_double_source_plane(zl, zs2, zs), 1 / beta, 1e-6, 0, "double source plane ratio (inverse)", **cx)
    mon.close("distance/beta", b.beta_double_source_plane(zl, zs, zs), 1., 1e-12, 0, "double source plane ratio (same)", **cx)
    mon.close("distance/ddt_scaling", b.ddt_scaling(zl, zs, zs2) * ddt(zs), ddt(zs2), 1e-6, 0, "ddt scaling", **cx)
    mon.close("distance/ddt_scaling", b.ddt_scaling(zl, zs, zs), 1., 1e-12, 0, "ddt scaling (same)", **cx)
    zz = np.sort(rng.uniform(zl + .01, 5, 5))
    mon.close("distance/array", b.d_xy(0, zz), [own_distance(c, 0, z) for z in zz], 1e-6, 0, "distances of an array", **cx)
    mon.close("distance/array", b.d_xy(np.full(5, zl), zz), [own_distance(c, zl, z) for z in zz], 1e-6, 0, "distances of an array", **cx)
    mon.close("distance/scale", b.a_z(zs), 1 / (1 + zs), 1e-13, 0, "scale factor", **cx)
    rc = 3 * (c.H0.value * 1e3 / Mpc) ** 2 / (8 * np.pi * Gn) / Msun * Mpc ** 3
    mon.close("density/now", b.rho_crit, rc, 1e-3, 0, "critical density today", **cx)
    mon.close("density/z", b.rho_crit_z(zl), rc * float(c.efunc(zl)) ** 2, 1e-3, 0, "critical density at z", **cx)
    mon.close("density/same", b.rho_crit_z(0.), b.rho_crit, 1e-3, 0, "critical densities at z=0", **cx)


def run_interp(case, mon, rng):
    from lenstronomy.Cosmo.background import Background
    from lenstronomy.Cosmo.cosmo_interp import CosmoInterp
    c, nm = cosmology(rng)
    zst = U(rng, 2, 7)
    n = int(rng.choice([50, 100, 300]))
    b = Background(c, interp=True, z_stop=zst, num_interp=n)
    cx = dict(cosmo=nm, z_stop=zst, n=n)
    mon.nontrivial("interp", nm, n)
    dh = cl / 1000 / c.H0.value
    grid = np.linspace(0, zst, n + 1)
    h = grid[1]

    def bound(z1, z2):
        """linear interpolation error of the comoving distance"""
        zz = np.linspace(0, zst, 400)
        e = 1 / np.array([float(c.efunc(z)) for z in zz])
        return dh * np.max(np.abs(np.gradient(e, zz))) * h ** 2 / 8 * 1.5
    bd = bound(0, zst)
    stretch = 1. if abs(float(c.Ok0)) < 1e-6 else np.cosh(np.sqrt(abs(float(c.Ok0))) * 3.)
    for i in range(6):
        z1, z2 = np.sort(rng.uniform(0, zst, 2))
        d = own_distance(c, z1, z2) * (1 + z2)
        tol = 2 * bd * stretch + 1e-6 * abs(d)
        mon.close("interp/pair", b.T_xy(z1, z2), d, 0, tol, "interpolated distance between redshifts", z1=z1, z2=z2, **cx)
        d0 = own_distance(c, 0, z2)
        mon.close("interp/zero", b.d_xy(0, z2), d0, 0, bd * stretch + 1e-6 * d0, "interpolated distance", z2=z2, **cx)
        i1, i2 = sorted(int(x) for x in rng.choice(n, 2, replace=False))
        g1, g2 = grid[i1], grid[i2 + 1]
        d = own_distance(c, g1, g2)
        mon.close("interp/nodes", b.d_xy(g1, g2), d, 1e-5, 1e-3 * abs(d) * 1e-2, "distance at tabulated redshifts", z1=g1, z2=g2, **cx)
    zz = np.sort(rng.uniform(0.1, zst, 5))
    mon.close("interp/array", b.cosmo.angular_diameter_distance(zz).value, [b.d_xy(0, z) for z in zz], 1e-12, 0, "array query", **cx)
    mon.close("interp/array", b.cosmo.angular_diameter_distance(list(zz)).value, [b.d_xy(0, z) for z in zz], 1e-12, 0, "list query", **cx)
    z1 = zz[:-1] * .5
    mon.close("interp/array", b.cosmo.angular_diameter_distance_z1z2(z1, zz[1:]).value, [b.d_xy(u, v) for u, v in zip(z1, zz[1:])], 1e-12, 0, "array pair query", **cx)
    # arrays of pairs in any order, with repeated entries and with the observer among them
    z2 = rng.permutation(np.concatenate([zz, zz[:2]]))
    z1 = z2 * rng.uniform(0, .9, len(z2)) * (rng.uniform(size=len(z2)) > .4)
    z1[int(rng.integers(len(z1)))] = 0.
    for tag, f in (("interpolated", b.d_xy), ("astropy", Background(c).d_xy)):
        mon.close("interp/array_mixed", f(z1, z2), [f(float(u), float(v)) for u, v in zip(z1, z2)], 1e-10, 1e-9, "%s distances of an array of pairs" % tag, z1=z1, z2=z2, **cx)
    mon.close("interp/array_ddt", b.ddt(zz[:-1] * .5, zz[1:]), [b.ddt(float(u), float(v)) for u, v in zip(zz[:-1] * .5, zz[1:])], 1e-10, 0, "time-delay distances of arrays", **cx)
    # from a table of angular diameter distances
    zt = np.linspace(0 if rng.integers(2) else zst / 200, zst, 200)
    at = np.array([own_distance(c, 0, z) if z else 0. for z in zt])
    ok = float(c.Ok0)
    if ok >= -1e-6 or np.max(at * (1 + zt)) * np.sqrt(abs(ok)) / dh < .95:
        K = -ok / dh ** 2
        t = CosmoInterp(ang_dist_list=at, z_list=zt, **({} if abs(ok) < 1e-9 and rng.integers(2) else dict(Ok0=ok, K=K)))
        b2 = bd * (n * zt[-1] / 199 / zst) ** 2
        for i in range(4):
            a, e = np.sort(rng.uniform(0, zst, 2))
            d = own_distance(c, a, e) * (1 + e)
            mon.close("interp/table", t.angular_diameter_distance_z1z2(a, e).value * (1 + e), d, 0, 3 * b2 * stretch + 1e-5 * abs(d) + 1e-3, "distance from a distance table", a=a, e=e, **cx)
        j = int(rng.integers(1, 200))
        mon.close("interp/table_node", t.angular_diameter_distance(zt[j]).value, at[j], 1e-9, 0, "tabulated distance", j=j, **cx)


def lens_cosmo(rng, **k):
    from lenstronomy.Cosmo.lens_cosmo import LensCosmo
    c, nm = cosmology(rng, **k)
    zl, zs = zpair(rng)
    return LensCosmo(zl, zs, c), c, zl, zs, dict(cosmo=nm, zl=zl, zs=zs)


def run_unit(case, mon, rng):
    L, c, zl, zs, cx = lens_cosmo(rng)
    mon.nontrivial("unit", cx["cosmo"], zl > 1)
    dd, ds, dds = own_distance(c, 0, zl), own_distance(c, 0, zs), own_distance(c, zl, zs)
    T = 1e-3       # constants
    queries = [("dd", lambda: L.dd, dd, 1e-6), ("ds", lambda: L.ds, ds, 1e-6), ("dds", lambda: L.dds, dds, 1e-6), ("ddt", lambda: L.ddt, (1 + zl) * dd * ds / dds, 1e-6),
               ("sigma_crit", lambda: L.sigma_crit, C4G * ds / dd / dds, T), ("sigma_crit_angle", lambda: L.sigma_crit_angle, C4G * ds / dd / dds * (dd * asec) ** 2, T), ("h", lambda: L.h, c.H0.value / 100, 1e-12)]
    for i in rng.permutation(len(queries)):
        n, f, w, t = queries[i]
        mon.close("unit/" + n, f(), w, t, 0, n, **cx)
        mon.close("unit/" + n, f(), w, t, 0, n + " (repeated)", **cx)
    mon.close("unit/sigma_crit_ratio", L.sigma_crit_angle / L.sigma_crit, (dd * asec) ** 2, 1e-6, 0, "critical densities per angle and per length", **cx)
    x = rng.uniform(.01, 10, 4)
    mon.close("unit/lens_plane", L.phys2arcsec_lens(L.arcsec2phys_lens(x)), x, 1e-12, 0, "angle to length and back", **cx)
    mon.close("unit/lens_plane", L.arcsec2phys_lens(x), x * asec * dd, 1e-6, 0, "length", **cx)
    mon.close("unit/source_plane", L.arcsec2phys_source(x), x * asec * ds, 1e-6, 0, "length in the source plane", **cx)
    mon.close("unit/kappa", L.kappa2proj_mass(x), x * C4G * ds / dd / dds, T, 0, "projected mass", **cx)
    th = U(rng, .3, 3)
    m = np.pi * (th * asec * dd) ** 2 * C4G * ds / dd / dds
    mon.close("unit/einstein_mass", L.mass_in_theta_E(th), m, T, 0, "mass in the Einstein radius", **cx)
    mon.close("unit/einstein_mass", L.mass_in_theta_E(th), np.pi * th ** 2 * L.sigma_crit_angle, 1e-9, 0, "mass in the Einstein radius", **cx)
    chl, chs = dd * (1 + zl), ds * (1 + zs)
    mon.close("unit/coin", L.mass_in_coin(th), np.pi / 3 * (chl * th * asec) ** 2 * chs * L.background.rho_crit, 1e-6, 0, "mass in the double cone", **cx)
    f = rng.uniform(-2, 2, 4)
    ke = U(rng, -.2, .2)
    dt = (1 + zl) * dd * ds / dds * Mpc / cl * f * asec ** 2 / day
    mon.close("unit/delay", L.time_delay_units(f), dt, T, 0, "delay in days", **cx)
    mon.close("unit/delay", L.time_delay_units(f, kappa_ext=ke), dt * (1 - ke), T, 0, "delay with external convergence", **cx)
    mon.close("unit/delay_inverse", L.time_delay2fermat_pot(L.time_delay_units(f)), f, 1e-12, 1e-14, "delay to potential", **cx)
    from lenstronomy.Util.constants import delay_arcsec2days
    mon.close("unit/delay_util", delay_arcsec2days(f, L.ddt), L.time_delay_units(f), 1e-10, 0, "delay utility", **cx)
    v = U(rng, 100, 400)
    te = 4 * np.pi * (v * 1e3 / cl) ** 2 * dds / ds / asec
    mon.close("unit/sis", L.sis_sigma_v2theta_E(v), te, 1e-6, 0, "Einstein radius of a dispersion", **cx)
    mon.close("unit/sis_inverse", L.sis_theta_E2sigma_v(te), v, 1e-6, 0, "dispersion of an Einstein radius", **cx)
    # pseudo-Jaffe normalisation: isothermal between core and truncation
    from lenstronomy.LensModel.Profiles.pseudo_jaffe import PseudoJaffe
    Ra, Rs = te * 1e-4, te * 1e4
    s0 = L.vel_disp_dPIED_sigma0(v, Ra, Rs)
    mon.close("unit/dpie", PseudoJaffe().derivatives(te, 0., sigma0=s0, Ra=Ra, Rs=Rs)[0], te, 2e-3, 0, "Einstein radius of a pseudo-Jaffe lens with the equivalent dispersion", **cx)
    Ra, Rs = U(rng, .01, .5), U(rng, 1, 10)
    mon.close("unit/dpie_scaling", L.vel_disp_dPIED_sigma0(v, Ra, Rs) * Rs * Ra / (Rs - Ra), te / 2, 1e-6, 0, "pseudo-Jaffe normalisation", **cx)
    # power-law Einstein radius for another source
    g, k, z3 = U(rng, 1.6, 2.4), U(rng, -.1, .2), zs + U(rng, .1, 2)
    beta = dds / ds * own_distance(c, 0, z3) / own_distance(c, zl, z3)
    t3 = L.theta_E_power_law_scaling(th, k, g, zl, z3, zs)
    res = beta * (th ** (g - 1) * t3 ** (2 - g)) + k * beta * t3 - t3
    mon.close("scaling/power_law", res, 0., 0, 1e-6 * t3, "Einstein radius for another source redshift", th=th, k=k, g=g, z3=z3, **cx)
    t4 = L.theta_E_power_law_scaling(th, k, g, zl, zs, zs)
    mon.close("scaling/same", th ** (g - 1) * t4 ** (2 - g) + k * t4, t4, 1e-9, 0, "Einstein radius with external convergence", **cx)
    mon.close("scaling/beta", L.beta_double_source_plane(zl, zs, z3), beta, 1e-6, 0, "ratio", **cx)
    # Hernquist, ULDM
    M, rs = 10 ** U(rng, 9, 12), U(rng, 1e-3, 1e-2)
    s, ra = L.hernquist_phys2angular(M, rs)
    mon.close("unit/hernquist_inverse", L.hernquist_angular2phys(s, ra), (M, rs), 1e-10, 0, "Hernquist mass and radius", **cx)
    a, b = U(rng, -24, -21), U(rng, 8, 11)
    k0, tc = L.uldm_mphys2angular(a, b)
    mon.close("unit/uldm_inverse", L.uldm_angular2phys(k0, tc), (a, b), 1e-7, 0, "ULDM masses", **cx)
    ms, R, n = 10 ** U(rng, 10, 12), U(rng, .3, 3), U(rng, .6, 5)
    mon.close("unit/sersic_inverse", L.sersic_k_eff2m_star(L.sersic_m_star2k_eff(ms, R, n), R, n), ms, 1e-10, 0, "stellar mass", **cx)


def run_nfw(case, mon, rng):
    from lenstronomy.LensModel.Profiles.nfw import NFW
    L, c, zl, zs, cx = lens_cosmo(rng)
    h = c.H0.value / 100
    rc = 2.77536627e11 * h ** 2 * float(c.efunc(zl)) ** 2
    mon.nontrivial("nfw", cx["cosmo"], zl > 1)
    for i in range(3):
        M, con = 10 ** U(rng, 8, 15), U(rng, 4, 29.5) if rng.integers(4) else U(rng, 30, 40)
        k = dict(M=M, c=con, **cx)
        rho0, Rs, r200 = L.nfwParam_physical(M, con)
        mon.close("nfw/r200", 4 * np.pi / 3 * 200 * rc * r200 ** 3, M, 1e-6, 0, "mean density within r200", **k)
        mon.close("nfw/rs", Rs * con, r200, 1e-10, 0, "scale radius", **k)
        mon.close("nfw/mass", 4 * np.pi * rho0 * Rs ** 3 * (np.log(1 + con) - con / (1 + con)), M, 1e-6, 0, "mass within r200", **k)
        mon.close("nfw/M200", L.nfw_param.M200(Rs, rho0, con), M, 1e-6, 0, "M200", **k)
        ra, al = L.nfw_physical2angle(M, con)
        mon.close("nfw/angle", ra * asec * L.dd, Rs, 1e-6, 0, "scale radius angle", **k)
        # the lens profile with these angular parameters encloses M200
        p = NFW()
        rho_a = p.alpha2rho0(al, ra)
        mon.close("nfw/profile_mass", p.mass_3d_lens(ra * con, ra, al) * L.sigma_crit_angle, M, 1e-6, 0, "3d mass of the lens profile within r200", **k)
        mon.close("nfw/theta200", L.nfw_M_theta_r200(M), ra * con, 1e-6, 0, "angular r200", **k)
        got = L.nfw_angle2physical(ra, al)
        mon.close("nfw/inverse", got, (rho0, Rs, con, r200, M), 2e-3 if con < 39.9 else .02, 0, "angles to physical and back", **k)
        P = L.nfw_param
        z = U(rng, 0, 3)
        mon.close("nfw/M_r200", P.M_r200(P.r200_M(M, z), z), M, 1e-9, 0, "r200 and back", z=z, **k)
        mon.close("nfw/rhoc", P.rhoc_z(z), 2.77536627e11 * float(c.efunc(z)) ** 2, 1e-6, 0, "critical density", z=z, **k)
        mon.close("nfw/c", P.c_rho0(P.rho0_c(con, z), z), con, 1e-3, 0, "concentration to density and back", z=z, **k)
        r2, d2, c2, s2 = P.nfw_Mz(M, z)
        mon.close("nfw/Mz", (r2, d2, s2), (P.r200_M(M, z), P.rho0_c(c2, z), r2 / c2), 1e-12, 0, "nfw_Mz", z=z, **k)
        mon.close("nfw/cMz", c2, 5.22 * (M / 2e12) ** -.072 * (1 + z) ** -.42, 1e-9, 0, "mass-concentration relation", z=z, **k)


def run_gnfw(case, mon, rng):
    from lenstronomy.LensModel.Profiles.gnfw import GNFW
    L, c, zl, zs, cx = lens_cosmo(rng)
    h = c.H0.value / 100
    rc = 2.77536627e11 * h ** 2 * float(c.efunc(zl)) ** 2
    mon.nontrivial("gnfw", cx["cosmo"], zl > 1)
    for i in range(2):
        M, con, g = 10 ** U(rng, 9, 15), U(rng, 2, 28), U(rng, .2, 2.2)
        k = dict(M=M, c=con, g=g, **cx)
        rho0, Rs, r200 = L.gnfwParam_physical(M, con, g)
        mon.close("gnfw/r200", 4 * np.pi / 3 * 200 * rc * r200 ** 3, M, 1e-6, 0, "mean density within r200", **k)
        m = 4 * np.pi * rho0 * Rs ** 3 * integrate.quad(lambda x: x ** (2 - g) * (1 + x) ** (g - 3), 0, con)[0]
        mon.close("gnfw/mass", m, M, 1e-5, 0, "mass within r200", **k)
        mon.close("gnfw/M200", L.gnfw_param.M200(Rs, rho0, con, g), M, 1e-6, 0, "M200", **k)
        ra, al = L.gnfw_physical2angle(M, con, g)
        mon.close("gnfw/angle", ra * asec * L.dd, Rs, 1e-6, 0, "scale radius angle", **k)
        p = GNFW()
        # enclosed projected mass: alpha * R * pi * Sigma_crit at large radius brackets the density normalisation
        R = ra * U(rng, .5, 3)
        a = p.derivatives(R, 0., ra, al, g)[0]

        def kap(x):
            return 2 * integrate.quad(lambda t: (x / np.sin(t)) ** -g * (1 + x / np.sin(t)) ** (g - 3) * x / np.sin(t) ** 2, 1e-9, np.pi / 2, limit=200)[0]
        m2 = 2 * np.pi * integrate.quad(lambda x: x * kap(x), 0, R / ra, limit=200, epsrel=1e-5)[0] * rho0 * Rs ** 3
        mon.close("gnfw/profile_mass", np.pi * R * a * L.sigma_crit_angle, m2, 3e-3, 0, "projected mass of the lens profile", R=R, **k)
        got = L.gnfw_angle2physical(ra, al, g)
        mon.close("gnfw/inverse", got, (rho0, Rs, con, r200, M), 5e-3, 0, "angles to physical and back", **k)
        z = U(rng, 0, 3)
        P = L.gnfw_param
        mon.close("gnfw/c", P.c_rho0(P.rho0_c(con, z, g), z, g), con, 5e-3, 0, "concentration to density and back", z=z, **k)
        mon.close("gnfw/nfw", P.rho0_c(con, z, 1.), L.nfw_param.rho0_c(con, z), 1e-8, 0, "slope one is NFW", **k)
        mon.close("gnfw/theta200", L.gnfw_M_theta_r200(M), L.nfw_M_theta_r200(M), 1e-12, 0, "angular r200", **k)


def run_mass(case, mon, rng):
    """physical masses to lens parameters: the lens model's own mass is that mass"""
    L, c, zl, zs, cx = lens_cosmo(rng)
    mon.nontrivial("mass", cx["cosmo"], zl > 1)
    from lenstronomy.LensModel.Profiles.hernquist import Hernquist
    from lenstronomy.LensModel.Profiles.sersic import Sersic
    from lenstronomy.LensModel.Profiles.uldm import Uldm
    M, rs = 10 ** U(rng, 9, 12), U(rng, 1e-3, 1e-2)
    s, ra = L.hernquist_phys2angular(M, rs)
    R = 1e4 * ra
    a = Hernquist().derivatives(R, 0., s, ra)[0]
    mon.close("mass/hernquist", np.pi * R * a * L.sigma_crit_angle, M, 1e-2, 0, "total mass of the Hernquist lens", **cx)
    mon.close("mass/hernquist_norm", Hernquist().derivatives(ra * (1 + 1e-6), 0., s, ra)[0], 2. / 3 * ra * s, 1e-4, 0, "Hernquist normalisation", **cx)
    ms, R, n = 10 ** U(rng, 10, 12), U(rng, .3, 3), U(rng, .6, 5)
    k = L.sersic_m_star2k_eff(ms, R, n)
    f = lambda u: 2 * np.pi * np.exp(2 * u) * Sersic().hessian(np.exp(u), 0., n, R, k)[0]
    sr = Sersic()
    kap = lambda r: .5 * (lambda h: h[0] + h[-1])(sr.hessian(r, 0., n, R, k))
    m = integrate.quad(lambda u: 2 * np.pi * np.exp(2 * u) * kap(np.exp(u)), np.log(R) - 12, np.log(R) + 8, limit=300)[0]
    mon.close("mass/sersic", m * L.sigma_crit_angle, ms, 1e-2, 0, "total mass of the Sersic lens", R=R, n=n, **cx)
    mon.close("mass/sersic_norm", kap(R), k, 1e-4, 0, "convergence at the half-light radius", **cx)


def run_order(case, mon, rng):
    """results for one redshift do not depend on which redshifts were asked before"""
    from lenstronomy.Cosmo.nfw_param import NFWParam
    from lenstronomy.Cosmo.gnfw_param import GNFWParam
    from lenstronomy.Cosmo.lens_cosmo import LensCosmo
    from lenstronomy.Cosmo.background import Background
    c, nm = cosmology(rng)
    cx = dict(cosmo=nm)
    mon.nontrivial("order", nm)
    zq = [U(rng, 0, 3) for _ in range(4)]
    P = NFWParam(c); G = GNFWParam(c)
    con = U(rng, 4, 25); g = U(rng, .5, 2.)
    for z in zq:
        mon.close("order/nfw", P.c_rho0(NFWParam(c).rho0_c(con, z), z), con, 1e-3, 0, "concentration depends on an earlier query", z=z, first=zq[0], **cx)
        mon.close("order/nfw_fresh", P.c_rho0(P.rho0_c(con, z), z), NFWParam(c).c_rho0(P.rho0_c(con, z), z), 1e-6, 0, "differs from a fresh object", z=z, first=zq[0], **cx)
    for z in zq[:2]:
        mon.close("order/gnfw", G.c_rho0(G.rho0_c(con, z, g), z, g), con, 5e-3, 0, "concentration depends on an earlier query", z=z, first=zq[0], **cx)
    # two lenses, interleaved
    A, B = [LensCosmo(*zpair(rng), c) for _ in range(2)]
    names = ["dd", "ds", "dds", "ddt", "sigma_crit", "sigma_crit_angle"]
    fresh = {(i, n): getattr(LensCosmo(o.z_lens, o.z_source, c), n) for i, o in enumerate((A, B)) for n in names}
    for _ in range(20):
        i, n = int(rng.integers(2)), str(rng.choice(names))
        mon.close("order/interleaved", getattr((A, B)[i], n), fresh[i, n], 1e-12, 0, n, **cx)


def run_solver(case, mon, rng):
    from lenstronomy.Cosmo import cosmo_solver as S
    import astropy.cosmology as A
    zl, zs = U(rng, .2, .8), U(rng, 1.2, 2.5)
    H, om = U(rng, 55, 85), U(rng, .15, .6)
    c = A.FlatLambdaCDM(H0=H, Om0=om)
    dd, ds, dds = own_distance(c, 0, zl), own_distance(c, 0, zs), own_distance(c, zl, zs)
    cx = dict(zl=zl, zs=zs, H=H, om=om)
    mon.nontrivial("solver", round(zl, 1))
    mon.close("solver/distances", S.cosmo2angular_diameter_distances(H, om, zl, zs), (dd, ds / dds), 1e-6, 0, "distances", **cx)
    x = S.SolverFlatLCDM(zl, zs).solve([H * U(rng, .9, 1.1), om * U(rng, .8, 1.2)], dd, ds / dds)
    if x[0] > 0:
        got = S.cosmo2angular_diameter_distances(x[0], x[1], zl, zs)
        mon.close("solver/inverse", got, (dd, ds / dds), 1e-3, 0, "solved cosmology does not have the requested distances", x=x, **cx)
    I = S.InvertCosmo(zl, zs, H0_range=np.linspace(50, 90, 12), omega_m_range=np.linspace(.1, .7, 12))
    got = I.get_cosmo(dd, ds / dds)
    if np.all(np.array(got) > 0):
        g = S.cosmo2angular_diameter_distances(float(np.squeeze(got[0])), float(np.squeeze(got[1])), zl, zs)
        mon.close("solver/grid", g, (dd, ds / dds), .0101, 0, "interpolated inverse does not have the requested distances", got_cosmo=[float(np.squeeze(v)) for v in got], **cx)
    c2, nm = cosmology(rng)
    ddt = U(rng, 1000, 8000)
    h0 = S.ddt2h0(ddt, zl, zs, c2)
    kw = dict(c2.parameters); kw["H0"] = h0
    kw.pop("name", None)
    if nm != "default":
        c3 = type(c2)(**kw)
        w = (1 + zl) * own_distance(c3, 0, zl) * own_distance(c3, 0, zs) / own_distance(c3, zl, zs)
        mon.close("solver/ddt2h0", w, ddt, 1e-3, 0, "Hubble constant of a time-delay distance", h0=h0, cosmo=nm, **cx)


def run_micro(case, mon, rng):
    from lenstronomy.Cosmo import micro_lensing as m
    M, dl = 10 ** U(rng, -4, 2), U(rng, 500, 7000)
    ds = dl + U(rng, 200, 5000)
    pc = Mpc / 1e6
    w = np.sqrt(4 * Gn * M * Msun / cl ** 2 * (ds - dl) / (ds * dl) / pc) / asec
    mon.nontrivial("micro", round(np.log10(M)))
    mon.close("micro/einstein", m.einstein_radius(M, dl, ds), w, 1e-3, 0, "Einstein radius", M=M, dl=dl, ds=ds)
    s = U(rng, .1, 100)
    mon.close("micro/size", m.source_size(s, ds), s * 2 * 6.957e8 / (ds * pc) / asec, 2e-3, 0, "source size", s=s, ds=ds)


def run_kde(case, mon, rng):
    from lenstronomy.Cosmo.kde_likelihood import KDELikelihood
    from scipy.stats import multivariate_normal, norm
    n = 60
    dd, ddt = rng.normal(1000, 50, n), rng.normal(4000, 300, n)
    mon.nontrivial("kde")
    x, y = rng.normal(1000, 50), rng.normal(4000, 300)
    v = np.vstack([dd, ddt])
    cov = np.cov(v) * (n ** (-1. / 6)) ** 2
    w = np.log(np.mean([multivariate_normal.pdf([x, y], m, cov) for m in v.T]))
    mon.close("kde/scipy", np.squeeze(KDELikelihood(dd, ddt).log_likelihood(x, y)), w, 1e-6, 1e-9, "kernel density")
    b = U(rng, 50, 300)
    w = np.log(np.mean(norm.pdf(x, dd, b) * norm.pdf(y, ddt, b)))
    mon.close("kde/sklearn", np.squeeze(KDELikelihood(dd, ddt, kde_type="gaussian", bandwidth=b).log_likelihood(x, y)), w, 1e-6, 1e-9, "kernel density (fixed bandwidth)")


def run_lcdm(case, mon, rng):
    from lenstronomy.Cosmo.lcdm import LCDM
    import astropy.cosmology as A
    zl, zs = zpair(rng)
    for flat in (True, False):
        l = LCDM(zl, zs, flat=flat)
        for _ in range(3):
            H, om, od = U(rng, 50, 90), U(rng, .1, .6), U(rng, .3, 1.)
            c = A.FlatLambdaCDM(H0=H, Om0=om) if flat else A.LambdaCDM(H0=H, Om0=om, Ode0=od)
            k = () if flat else (od,)
            dd, ds, dds = own_distance(c, 0, zl), own_distance(c, 0, zs), own_distance(c, zl, zs)
            mon.nontrivial("lcdm", flat, int(np.sign(c.Ok0)))
            for f, w in ((l.D_d, dd), (l.D_s, ds), (l.D_ds, dds), (l.D_dt, (1 + zl) * dd * ds / dds)):
                mon.close("lcdm/distance", f(H, om, *k), w, 1e-6, 0, f.__name__, H=H, om=om, od=od, flat=flat, zl=zl, zs=zs)

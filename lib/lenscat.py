"""Catalogue of lens profiles: parameter generators over their documented ranges (incl. limits)."""
import numpy as np

SPECIAL_ELL = 4


def U(rng, a, b):
    return float(rng.uniform(a, b))


def LU(rng, a, b):
    return float(np.exp(rng.uniform(np.log(a), np.log(b))))


def ell(rng, emax=0.35):
    """ellipticity components; sometimes exactly round or on an axis"""
    k = rng.integers(0, 7)
    if k == 0:
        return 0.0, 0.0
    e = U(rng, 0.02, emax)
    if k == 1:
        return float(rng.choice([-1, 1])) * e, 0.0
    if k == 2:
        return 0.0, float(rng.choice([-1, 1])) * e
    phi = U(rng, -np.pi / 2, np.pi / 2)
    return float(e * np.cos(2 * phi)), float(e * np.sin(2 * phi))


def ctr(rng):
    if rng.integers(0, 5) == 0:
        return 0.0, 0.0
    return U(rng, -0.6, 0.6), U(rng, -0.6, 0.6)


def gam(rng, lo=1.55, hi=2.45):
    k = rng.integers(0, 5)
    return 2.0 if k == 0 else U(rng, lo, hi)


G = {}
INIT = {}   # profile -> list of init kwargs alternatives


def reg(*names):
    def d(f):
        for n in names:
            G[n] = f
        return f
    return d


def _c(rng, kw, ellip=False, emax=0.35):
    if ellip:
        kw["e1"], kw["e2"] = ell(rng, emax)
    kw["center_x"], kw["center_y"] = ctr(rng)
    return kw


reg("SIS", "POINT_MASS")(lambda r: _c(r, dict(theta_E=U(r, .3, 2))))
reg("POINT_MASS_LOG_SCALED")(lambda r: _c(r, dict(log10_theta_E=U(r, -1, .4))))
reg("SIE")(lambda r: _c(r, dict(theta_E=U(r, .3, 2)), True))
reg("EPL", "EPL_NUMBA")(lambda r: _c(r, dict(theta_E=U(r, .3, 2), gamma=gam(r)), True, .45))
reg("SPEP")(lambda r: _c(r, dict(theta_E=U(r, .3, 2), gamma=gam(r)), True, .2))
reg("SPP")(lambda r: _c(r, dict(theta_E=U(r, .3, 2), gamma=gam(r))))
reg("NIE")(lambda r: _c(r, dict(theta_E=U(r, .3, 2), s_scale=LU(r, .003, 1)), True, .45))
reg("NIE_POTENTIAL")(lambda r: _c(r, dict(theta_E=U(r, .3, 2), theta_c=LU(r, .003, 1)), True, .2))
reg("SIS_TRUNCATED")(lambda r: _c(r, dict(theta_E=U(r, .3, 1), r_trunc=U(r, 1.2, 3))))


@reg("EPL_Q_PHI")
def _(r):
    return _c(r, dict(theta_E=U(r, .3, 2), gamma=gam(r), q=U(r, .35, .999), phi=U(r, -np.pi, np.pi)))


@reg("EPL_BOXYDISKY", "EPL_BOXYDISKY_ELL")
def _(r):
    return _c(r, dict(theta_E=U(r, .3, 2), gamma=gam(r), a4_a=U(r, -.1, .1)), True)


@reg("EPL_MULTIPOLE_M3M4", "EPL_MULTIPOLE_M3M4_ELL")
def _(r):
    return _c(r, dict(theta_E=U(r, .3, 2), gamma=gam(r), a3_a=U(r, -.1, .1), delta_phi_m3=U(r, -.5, .5),
                      a4_a=U(r, -.1, .1), delta_phi_m4=U(r, -.35, .35)), True)


@reg("EPL_MULTIPOLE_M1M3M4", "EPL_MULTIPOLE_M1M3M4_ELL")
def _(r):
    return _c(r, dict(theta_E=U(r, .3, 2), gamma=gam(r), a1_a=U(r, -.1, .1), delta_phi_m1=U(r, -3, 3),
                      a3_a=U(r, -.1, .1), delta_phi_m3=U(r, -.5, .5),
                      a4_a=U(r, -.1, .1), delta_phi_m4=U(r, -.35, .35)), True)


@reg("MULTIPOLE")
def _(r):
    return _c(r, dict(m=int(r.integers(1, 7)), a_m=U(r, -.1, .1), phi_m=U(r, -np.pi, np.pi), r_E=U(r, .5, 2)))


@reg("MULTIPOLE_ELL")
def _(r):
    return _c(r, dict(m=int(r.choice([1, 3, 4])), a_m=U(r, -.1, .1), varphi_m=U(r, -np.pi, np.pi), q=U(r, .4, .98),
                      phi_ref=U(r, -np.pi / 2, np.pi / 2), r_E=U(r, .5, 2)))


@reg("BPL")
def _(r):
    return _c(r, dict(b=U(r, .3, 2), a=U(r, 1.3, 2.6), a_c=U(r, .2, 1.6), r_c=LU(r, .1, 2)), True, .3)


reg("NFW")(lambda r: _c(r, dict(Rs=LU(r, .2, 8), alpha_Rs=U(r, .1, 2))))
reg("NFW_ELLIPSE_POTENTIAL")(lambda r: _c(r, dict(Rs=LU(r, .2, 8), alpha_Rs=U(r, .1, 2)), True, .2))
reg("NFW_ELLIPSE_CSE")(lambda r: _c(r, dict(Rs=LU(r, .3, 8), alpha_Rs=U(r, .1, 2)), True))
reg("NFW_ELLIPSE_GAUSS_DEC")(lambda r: _c(r, dict(Rs=LU(r, .3, 8), alpha_Rs=U(r, .1, 2)), True))
reg("NFW_MC")(lambda r: _c(r, dict(logM=U(r, 11, 14), concentration=U(r, 3, 15))))
reg("NFW_MC_ELLIPSE_POTENTIAL")(lambda r: _c(r, dict(logM=U(r, 11, 14), concentration=U(r, 3, 15)), True, .2))
reg("TNFW")(lambda r: _c(r, dict(Rs=LU(r, .2, 8), alpha_Rs=U(r, .1, 2), r_trunc=LU(r, .3, 30))))
reg("TNFW_ELLIPSE_POTENTIAL")(lambda r: _c(r, dict(Rs=LU(r, .2, 8), alpha_Rs=U(r, .1, 2), r_trunc=LU(r, .3, 30)), True, .2))


@reg("TNFWC")
def _(r):
    Rs = LU(r, .3, 6)
    return _c(r, dict(Rs=Rs, alpha_Rs=U(r, .1, 2), r_core=LU(r, .02, .7) * Rs, r_trunc=LU(r, 1.3, 20) * Rs))


@reg("CNFW")
def _(r):
    return _c(r, dict(Rs=LU(r, .3, 6), alpha_Rs=U(r, .1, 2), r_core=LU(r, .05, 3)))


@reg("CNFW_ELLIPSE_POTENTIAL")
def _(r):
    return _c(r, dict(Rs=LU(r, .3, 6), alpha_Rs=U(r, .1, 2), r_core=LU(r, .05, 3)), True, .2)


reg("GNFW")(lambda r: _c(r, dict(Rs=LU(r, .3, 6), alpha_Rs=U(r, .1, 2), gamma_in=float(r.choice([1.0, U(r, .2, 1.9)])))))
reg("GNFW_ELLIPSE_GAUSS_DEC")(lambda r: _c(r, dict(Rs=LU(r, .5, 6), alpha_Rs=U(r, .1, 2), gamma_in=U(r, .4, 1.6)), True))
INIT["GNFW"] = [{}, dict(trapezoidal_integration=True, integration_steps=2000)]


@reg("PSEUDO_DPL")
def _(r):
    # gamma_outer exactly 3 is documented as the (pseudo-)gNFW limit
    gi = U(r, .3, 2.2)
    return _c(r, dict(Rs=LU(r, .3, 6), alpha_Rs=U(r, .1, 2), gamma_inner=gi, gamma_outer=U(r, max(gi, 2) + .3, 5)))


@reg("coreBURKERT")
def _(r):
    Rs = LU(r, .5, 6)
    return _c(r, dict(Rs=Rs, alpha_Rs=U(r, .1, 2), r_core=Rs * LU(r, .1, .9)))


reg("CORED_DENSITY", "CORED_DENSITY_2")(lambda r: _c(r, dict(sigma0=U(r, .1, 1), r_core=LU(r, .3, 6))))
reg("CORED_DENSITY_EXP")(lambda r: _c(r, dict(kappa_0=U(r, .1, 1), theta_c=LU(r, .3, 6))))
reg("CORED_DENSITY_MST", "CORED_DENSITY_2_MST", "CORED_DENSITY_EXP_MST", "CORED_DENSITY_ULDM_MST")(
    lambda r: _c(r, dict(lambda_approx=U(r, .7, 1.3), r_core=LU(r, .8, 10))))
reg("ULDM")(lambda r: _c(r, dict(kappa_0=U(r, .1, 1), theta_c=LU(r, .5, 6), slope=U(r, 3.6, 9))))
reg("CSE")(lambda r: _c(r, dict(a=U(r, .3, 3), s=LU(r, .1, 3)), True))
INIT["CSE"] = [{}, dict(axis="major")]


@reg("CTNFW_GAUSS_DEC")
def _(r):
    rs = LU(r, .5, 5)
    return _c(r, dict(r_s=rs, r_core=rs * U(r, .05, .5), r_trunc=rs * U(r, 2, 10), a=float(r.integers(2, 11)), rho_s=U(r, .1, 3)))


def _arc(r, kw):
    kw.update(tangential_stretch=float(r.choice([-1, 1])) * U(r, 2, 8), curvature=U(r, .1, 1.2), direction=U(r, -np.pi, np.pi))
    return _c(r, kw)


reg("CURVED_ARC_CONST")(lambda r: _arc(r, {}))
reg("CURVED_ARC_SIS_MST", "CURVED_ARC_SPP")(lambda r: _arc(r, dict(radial_stretch=U(r, .7, 1.5))))
reg("CURVED_ARC_SPT")(lambda r: _arc(r, dict(radial_stretch=U(r, .7, 1.5), gamma1=U(r, -.15, .15), gamma2=U(r, -.15, .15))))
reg("CURVED_ARC_TAN_DIFF")(lambda r: _arc(r, dict(radial_stretch=U(r, .7, 1.5), dtan_dtan=U(r, -.3, .3))))
reg("DIPOLE")(lambda r: dict(com_x=ctr(r)[0], com_y=ctr(r)[1], phi_dipole=U(r, -np.pi, np.pi), coupling=U(r, .01, .3)))


@reg("ARC_PERT")
def _(r):
    return _c(r, dict(coeff=U(r, .01, .2), d_r=U(r, .5, 2), d_phi=float(np.pi * 2 / r.integers(1, 8))))


@reg("CHAMELEON")
def _(r):
    wc = LU(r, .05, .8)
    return _c(r, dict(alpha_1=U(r, .3, 2), w_c=wc, w_t=wc * U(r, 1.3, 6)), True, .4)


@reg("DOUBLE_CHAMELEON")
def _(r):
    w1, w2 = LU(r, .05, .8), LU(r, .05, .8)
    a, b = ell(r), ell(r)
    return _c(r, dict(alpha_1=U(r, .3, 2), ratio=U(r, .2, 3), w_c1=w1, w_t1=w1 * U(r, 1.3, 6), e11=a[0], e21=a[1],
                      w_c2=w2, w_t2=w2 * U(r, 1.3, 6), e12=b[0], e22=b[1]))


@reg("TRIPLE_CHAMELEON")
def _(r):
    w1, w2, w3 = LU(r, .05, .8), LU(r, .05, .8), LU(r, .05, .8)
    a, b, c = ell(r), ell(r), ell(r)
    return _c(r, dict(alpha_1=U(r, .3, 2), ratio12=U(r, .2, 3), ratio13=U(r, .2, 3), w_c1=w1, w_t1=w1 * U(r, 1.3, 6),
                      e11=a[0], e21=a[1], w_c2=w2, w_t2=w2 * U(r, 1.3, 6), e12=b[0], e22=b[1], w_c3=w3,
                      w_t3=w3 * U(r, 1.3, 6), e13=c[0], e23=c[1]))


reg("CONST_MAG")(lambda r: _c(r, dict(mu_r=U(r, .5, 3), mu_t=U(r, 5, 50), parity=int(r.choice([-1, 1])), phi_G=U(r, 0, np.pi))))


def _r0(r, kw):
    kw["ra_0"], kw["dec_0"] = ctr(r)
    return kw


reg("CONVERGENCE")(lambda r: _r0(r, dict(kappa=U(r, -.5, .5))))
reg("SHEAR", "SHEAR_REDUCED")(lambda r: _r0(r, dict(gamma1=U(r, -.3, .3), gamma2=U(r, -.3, .3))))
reg("SHEAR_GAMMA_PSI")(lambda r: _r0(r, dict(gamma_ext=U(r, 0, .3), psi_ext=U(r, -np.pi, np.pi))))
reg("FLEXION")(lambda r: _r0(r, dict(g1=U(r, -.1, .1), g2=U(r, -.1, .1), g3=U(r, -.1, .1), g4=U(r, -.1, .1))))
reg("FLEXIONFG")(lambda r: _r0(r, dict(F1=U(r, -.1, .1), F2=U(r, -.1, .1), G1=U(r, -.1, .1), G2=U(r, -.1, .1))))


@reg("HESSIAN")
def _(r):
    fxy = U(r, -.3, .3)
    return _r0(r, dict(f_xx=U(r, -.3, .3), f_yy=U(r, -.3, .3), f_xy=fxy, f_yx=fxy))


reg("SHIFT")(lambda r: dict(alpha_x=U(r, -1, 1), alpha_y=U(r, -1, 1)))
reg("BLANK_PLANE")(lambda r: {})


@reg("ElliSLICE")
def _(r):
    a = U(r, .5, 1.5)
    return _c(r, dict(a=a, b=a * U(r, .4, .95), psi=U(r, -np.pi / 2, np.pi / 2), sigma_0=U(r, .2, 2)))


reg("GAUSSIAN")(lambda r: _c(r, dict(amp=U(r, .5, 4), sigma=LU(r, .2, 3))))
reg("GAUSSIAN_ELLIPSE_POTENTIAL")(lambda r: _c(r, dict(amp=U(r, .5, 4), sigma=LU(r, .2, 3)), True, .2))
reg("GAUSSIAN_ELLIPSE_KAPPA")(lambda r: _c(r, dict(amp=U(r, .5, 4), sigma=LU(r, .2, 3)), True))
INIT["GAUSSIAN_ELLIPSE_KAPPA"] = [{}, dict(use_scipy_wofz=False)]
reg("GAUSSIAN_POTENTIAL")(lambda r: _c(r, dict(amp=U(r, .5, 4), sigma_x=LU(r, .3, 3), sigma_y=LU(r, .3, 3))))


def _mg(r, e, emax=.35):
    n = int(r.integers(1, 5))
    kw = dict(amp=np.array([U(r, .3, 2) for _ in range(n)]), sigma=np.sort(np.array([LU(r, .2, 3) for _ in range(n)])))
    if r.integers(0, 2):
        kw["scale_factor"] = U(r, .5, 2)
    return _c(r, kw, e, emax)


reg("MULTI_GAUSSIAN")(lambda r: _mg(r, False))
reg("MULTI_GAUSSIAN_ELLIPSE_KAPPA")(lambda r: _mg(r, True))
reg("MULTI_GAUSSIAN_ELLIPSE_POTENTIAL")(lambda r: _mg(r, True, .2))
reg("GreenBoschNFW")(lambda r: _c(r, dict(f_b=U(r, .05, 1), c_s=U(r, 5, 15), Rs=U(r, .5, 2), rho0ang=U(r, .1, 1))))
reg("HERNQUIST")(lambda r: _c(r, dict(sigma0=U(r, .2, 2), Rs=LU(r, .2, 5))))
reg("HERNQUIST_ELLIPSE_POTENTIAL")(lambda r: _c(r, dict(sigma0=U(r, .2, 2), Rs=LU(r, .2, 5)), True, .2))
reg("HERNQUIST_ELLIPSE_CSE")(lambda r: _c(r, dict(sigma0=U(r, .2, 2), Rs=LU(r, .3, 5)), True))


def _pj(r):
    ra = LU(r, .05, 1)
    return dict(sigma0=U(r, .2, 2), Ra=ra, Rs=ra * U(r, 1.3, 8))


reg("PJAFFE")(lambda r: _c(r, _pj(r)))
reg("PJAFFE_ELLIPSE_POTENTIAL")(lambda r: _c(r, _pj(r), True, .2))


def _ser(r):
    return dict(k_eff=U(r, .1, 1), R_sersic=LU(r, .3, 3), n_sersic=float(r.choice([1., 4., U(r, .6, 6)])))


reg("SERSIC")(lambda r: _c(r, _ser(r)))
reg("SERSIC_ELLIPSE_POTENTIAL")(lambda r: _c(r, _ser(r), True, .2))
reg("SERSIC_ELLIPSE_KAPPA")(lambda r: _c(r, _ser(r), True))
reg("SERSIC_ELLIPSE_GAUSS_DEC")(lambda r: _c(r, _ser(r), True))
reg("SHAPELETS_CART", "SHAPELETS_POLAR")(lambda r: _c(r, dict(
    coeffs=tuple(float(v) for v in r.normal(size=int(r.choice([1, 3, 6, 10, 15])))), beta=U(r, .5, 2))))
reg("SPL_CORE")(lambda r: _c(r, dict(sigma0=U(r, .1, 2), r_core=LU(r, .05, 1.5), gamma=float(r.choice([2.0, 3.0, U(r, 1.3, 4)])))))

# profiles that this sandbox cannot instantiate or that other checks own
EXCLUDED = {
    "PEMD": "needs fastell4py (not installed)", "SPEMD": "needs fastell4py (not installed)",
    "INTERPOL": "C30", "INTERPOL_SCALED": "C30", "RADIAL_INTERPOL": "C30", "TABULATED_DEFLECTIONS": "C30",
    "SYNTHESIS": "C30", "LOS": "C29", "LOS_MINIMAL": "C29", "LOS_FLEXION": "C29", "LOS_FLEXION_MINIMAL": "C29",
    "NIE_SIMPLE": "major-axis helper of NIE (driven through NIE)",
}


def names():
    return sorted(G)


def params(name, rng):
    return G[name](rng)


def init_variants(name):
    return INIT.get(name, [{}])


def model(name, init=None, **kw):
    from lenstronomy.LensModel.lens_model import LensModel
    pk = None
    if init:
        pk = [dict(init)]
    if name.startswith("NFW_MC"):
        kw.setdefault("lens_redshift_list", [0.5])
    return LensModel([name], z_lens=0.5, z_source=1.5, profile_kwargs_list=pk, **kw)


def center_of(kw):
    for a, b in (("center_x", "center_y"), ("ra_0", "dec_0"), ("com_x", "com_y")):
        if a in kw:
            return kw[a], kw[b]
    return 0.0, 0.0

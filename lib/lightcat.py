"""Catalogue of light profiles: parameter generators over their documented ranges (incl. limits)."""
import numpy as np
from lenscat import U, LU, ell, ctr

G = {}
INIT = {}


def reg(*names):
    def d(f):
        for n in names:
            G[n] = f
        return f
    return d


def _c(r, kw, e=False, emax=.35):
    if e:
        kw["e1"], kw["e2"] = ell(r, emax)
    kw["center_x"], kw["center_y"] = ctr(r)
    return kw


def A(r):
    return LU(r, .3, 30)


def nser(r):
    return float(r.choice([1., 4., U(r, .6, 6)]))


reg("GAUSSIAN")(lambda r: _c(r, dict(amp=A(r), sigma=LU(r, .15, 2))))
reg("GAUSSIAN_ELLIPSE")(lambda r: _c(r, dict(amp=A(r), sigma=LU(r, .15, 2)), True))
reg("ELLIPSOID")(lambda r: _c(r, dict(amp=A(r), radius=LU(r, .3, 2)), True))


def _mg(r, e):
    n = int(r.integers(1, 5))
    return _c(r, dict(amp=np.array([A(r) for _ in range(n)]), sigma=np.array([LU(r, .15, 2) for _ in range(n)])), e)


reg("MULTI_GAUSSIAN")(lambda r: _mg(r, False))
reg("MULTI_GAUSSIAN_ELLIPSE")(lambda r: _mg(r, True))
NMGE = 5
INIT["MGE_SET"] = INIT["MGE_SET_ELLIPSE"] = [dict(n_comp=NMGE)]
reg("MGE_SET")(lambda r: _c(r, dict(amp=np.array([A(r) for _ in range(NMGE)]), sigma_min=LU(r, .05, .3), sigma_width=LU(r, .5, 3))))
reg("MGE_SET_ELLIPSE")(lambda r: _c(r, dict(amp=np.array([A(r) for _ in range(NMGE)]), sigma_min=LU(r, .05, .3), sigma_width=LU(r, .5, 3)), True))
reg("SERSIC")(lambda r: _c(r, dict(amp=A(r), R_sersic=LU(r, .2, 2), n_sersic=nser(r))))
reg("SERSIC_ELLIPSE")(lambda r: _c(r, dict(amp=A(r), R_sersic=LU(r, .2, 2), n_sersic=nser(r)), True, .45))
INIT["SERSIC_ELLIPSE"] = [{}, dict(sersic_major_axis=True), dict(sersic_major_axis=False)]
reg("SERSIC_ELLIPSE_Q_PHI")(lambda r: _c(r, dict(amp=A(r), R_sersic=LU(r, .2, 2), n_sersic=nser(r), q=U(r, .4, .999), phi=U(r, -np.pi, np.pi))))
INIT["SERSIC_ELLIPSE_Q_PHI"] = [{}, dict(sersic_major_axis=True)]


@reg("SERSIC_ELLIPSE_FLEXION")
def _(r):
    kw = _c(r, dict(amp=A(r), R_sersic=LU(r, .2, 2), n_sersic=nser(r)), True)
    for k in ("a", "b1", "b2", "c1", "c2", "d1", "d2"):
        kw[k] = U(r, -.05, .05)
    return kw


reg("CORE_SERSIC")(lambda r: _c(r, dict(amp=A(r), R_sersic=LU(r, .2, 2), Rb=LU(r, .05, .5), n_sersic=nser(r), gamma=U(r, .1, 1.5)), True))
INIT["CORE_SERSIC"] = [{}, dict(sersic_major_axis=True)]


def _sh(r, e=False, exp=False):
    n = int(r.integers(0, 5))
    m = (n + 1) ** 2 if exp else (n + 1) * (n + 2) // 2
    return _c(r, dict(amp=r.normal(size=m) * 3, n_max=n, beta=LU(r, .2, 1.2)), e)


reg("SHAPELETS", "SHAPELETS_POLAR")(lambda r: _sh(r))
reg("SHAPELETS_ELLIPSE")(lambda r: _sh(r, True))
reg("SHAPELETS_POLAR_EXP")(lambda r: _sh(r, exp=True))
reg("HERNQUIST")(lambda r: _c(r, dict(amp=A(r), Rs=LU(r, .15, 2))))
reg("HERNQUIST_ELLIPSE")(lambda r: _c(r, dict(amp=A(r), Rs=LU(r, .15, 2)), True))


def _pj(r):
    ra = LU(r, .05, .6)
    return dict(amp=A(r), Ra=ra, Rs=ra * U(r, 1.3, 8))


reg("PJAFFE")(lambda r: _c(r, _pj(r)))
reg("PJAFFE_ELLIPSE")(lambda r: _c(r, _pj(r), True))
reg("PL_SERSIC")(lambda r: _c(r, dict(amp=A(r), R_sersic=LU(r, .3, 2), n_sersic=float(r.choice([1., 4., U(r, .8, 5)])), alpha_c=U(r, .2, 2.4), r_c=LU(r, .1, .5)), True))
reg("UNIFORM")(lambda r: dict(amp=A(r)))
reg("POWER_LAW")(lambda r: _c(r, dict(amp=A(r), gamma=float(r.choice([2., U(r, 1.3, 3)]))), True))
reg("NIE")(lambda r: _c(r, dict(amp=A(r), s_scale=LU(r, .01, 1)), True, .45))


@reg("CHAMELEON")
def _(r):
    wc = LU(r, .05, .8)
    return _c(r, dict(amp=A(r), w_c=wc, w_t=wc * U(r, 1.3, 6)), True, .4)


@reg("DOUBLE_CHAMELEON")
def _(r):
    w1, w2 = LU(r, .05, .8), LU(r, .05, .8)
    a, b = ell(r), ell(r)
    return _c(r, dict(amp=A(r), ratio=U(r, .2, 3), w_c1=w1, w_t1=w1 * U(r, 1.3, 6), e11=a[0], e21=a[1],
                      w_c2=w2, w_t2=w2 * U(r, 1.3, 6), e12=b[0], e22=b[1]))


@reg("TRIPLE_CHAMELEON")
def _(r):
    w1, w2, w3 = LU(r, .05, .8), LU(r, .05, .8), LU(r, .05, .8)
    a, b, c = ell(r), ell(r), ell(r)
    return _c(r, dict(amp=A(r), ratio12=U(r, .2, 3), ratio13=U(r, .2, 3), w_c1=w1, w_t1=w1 * U(r, 1.3, 6),
                      e11=a[0], e21=a[1], w_c2=w2, w_t2=w2 * U(r, 1.3, 6), e12=b[0], e22=b[1], w_c3=w3,
                      w_t3=w3 * U(r, 1.3, 6), e13=c[0], e23=c[1]))


@reg("INTERPOL")
def _(r):
    ny, nx = int(r.integers(5, 14)), int(r.integers(5, 14))
    im = np.abs(r.normal(size=(ny, nx))) * 2
    return _c(r, dict(image=im, amp=A(r), phi_G=U(r, -np.pi, np.pi), scale=U(r, .1, .6)))


reg("LINEAR")(lambda r: _c(r, dict(amp=A(r), k=U(r, -4, 4))))
reg("LINEAR_ELLIPSE")(lambda r: _c(r, dict(amp=A(r), k=U(r, -4, 4)), True))
reg("LINE_PROFILE")(lambda r: dict(amp=A(r), angle=U(r, -180, 180), length=U(r, .5, 3), width=U(r, .2, 2), start_x=U(r, -1, 1), start_y=U(r, -1, 1)))

EXCLUDED = {"SLIT_STARLETS": "pixel-based, C30", "SLIT_STARLETS_GEN2": "pixel-based, C30"}
LIGHT3D = ["DOUBLE_CHAMELEON", "CHAMELEON", "TRIPLE_CHAMELEON", "HERNQUIST", "HERNQUIST_ELLIPSE", "PJAFFE", "PJAFFE_ELLIPSE", "GAUSSIAN",
           "GAUSSIAN_ELLIPSE", "MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE", "NIE", "POWER_LAW"]
FLUX = ["SERSIC", "SERSIC_ELLIPSE", "SERSIC_ELLIPSE_FLEXION", "INTERPOL", "GAUSSIAN", "GAUSSIAN_ELLIPSE", "MULTI_GAUSSIAN",
        "MULTI_GAUSSIAN_ELLIPSE", "MGE_SET", "MGE_SET_ELLIPSE", "LINE_PROFILE", "HERNQUIST", "HERNQUIST_ELLIPSE", "PL_SERSIC"]
# discontinuous surface brightness: avoid pixels within rounding of an edge
EDGES = ("ELLIPSOID", "LINE_PROFILE")


def names():
    return sorted(G)


def params(name, rng):
    return G[name](rng)


def init_variants(name):
    return INIT.get(name, [{}])


def profile_kwargs(name, rng=None):
    v = init_variants(name)
    return dict(v[0] if rng is None else v[int(rng.integers(len(v)))])


def model(names_, rng=None, inits=None):
    from lenstronomy.LightModel.light_model import LightModel
    if inits is None:
        inits = [profile_kwargs(n, rng) for n in names_]
    return LightModel(list(names_), profile_kwargs_list=[dict(i) for i in inits])

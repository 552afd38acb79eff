"""jitwork.py KIND SEED OUT : evaluate a fixed list of requests and store what each returned (one process per compilation mode)."""
import os
import pickle
import sys
import warnings
import numpy as np

U = lambda r, a, b: float(r.uniform(a, b))


def shapes(r, lo=-2., hi=2.):
    """coordinate pairs in all the shapes and layouts users pass"""
    g = lambda s: r.uniform(lo, hi, s)
    out = [("scalar", U(r, lo, hi), U(r, lo, hi)), ("np_scalar", np.float64(U(r, lo, hi)), np.float64(U(r, lo, hi))), ("int", 1, 2), ("array1", g(1), g(1)), ("array", g(17), g(17)),
           ("2d", g((4, 5)), g((4, 5))), ("strided", g(40)[::3], g(28)[::2]), ("reversed", g(9)[::-1], g(9)[::-1]), ("fortran", np.asfortranarray(g((3, 4))), np.asfortranarray(g((3, 4)))),
           ("transposed", g((5, 3)).T, g((5, 3)).T), ("int_array", np.arange(1, 6), np.arange(2, 7)), ("float32", g(6).astype(np.float32), g(6).astype(np.float32)), ("empty", np.zeros(0), np.zeros(0)),
           ("readonly", g(7), g(7))]
    for a in out[-1][1:]:
        a.setflags(write=False)
    return out


def k_epl1(r, Q):
    k_epl(r, Q, ("function",))


def k_epl2(r, Q):
    k_epl(r, Q, ("derivatives",))


def k_epl3(r, Q):
    k_epl(r, Q, ("hessian",))


def k_epl(r, Q, fs):
    from lenstronomy.LensModel.Profiles.epl_numba import EPL_numba
    import lenstronomy.LensModel.Profiles.epl_numba as E
    from lenstronomy.LensModel.lens_model import LensModel
    P = EPL_numba()
    for _ in range(4):
        q = [2., 1.2, 2.8, U(r, 1.3, 2.7)][_]
        kw = dict(theta_E=U(r, .3, 2), gamma=q, e1=[0., .3, 0., U(r, -.4, .4)][_], e2=[0., 0., -.2, U(r, -.4, .4)][_], center_x=U(r, -.3, .3), center_y=U(r, -.3, .3))
        for n, x, y in shapes(r):
            for f in fs:
                Q("EPL_NUMBA.%s/%s" % (f, n), getattr(P, f), x, y, **kw)
        for f in fs[:0] if "hessian" in fs else fs:
            Q("EPL_NUMBA.%s/centre" % f, getattr(P, f), np.array([kw["center_x"], .5]), np.array([kw["center_y"], .1]), **kw)
            Q("EPL_NUMBA.%s/default_centre" % f, getattr(P, f), np.array([.3, .5]), np.array([.2, .1]), kw["theta_E"], kw["gamma"], kw["e1"], kw["e2"])
        if "hessian" in fs:
            continue
        M = LensModel(["EPL_NUMBA", "SHEAR"])
        for f in ("ray_shooting",) if "derivatives" in fs else ("potential",):
            Q("LensModel." + f, getattr(M, f), r.uniform(-2, 2, 12), r.uniform(-2, 2, 12), [kw, dict(gamma1=.03, gamma2=-.02)])
        ph = r.uniform(-np.pi, np.pi, 20)
        t, ax = U(r, .3, 1.7), U(r, .2, .99)
        if "function" not in fs:
            continue
        Q("omega", E.omega, ph, t, ax)
        Q("omega/scalar", E.omega, np.float64(ph[0]), t, ax)
        Q("omega/iter", E.omega, ph, t, .05, 30)
        Q("omega/round", E.omega, ph, t, 1.)
        Q("alpha", E.alpha, r.uniform(-1, 1, 9), r.uniform(-1, 1, 9), 1.1, ax, t)
        Q("alpha/zero", E.alpha, np.array([0., .1]), np.array([0., 0.]), 1.1, ax, t)
        Q("param_transform", E.param_transform, r.uniform(-1, 1, 9), r.uniform(-1, 1, 9), 1.1, 2.1, .1, -.2, .3, .1)


def k_util1(r, Q):
    k_util(r, Q, 1)


def k_util2(r, Q):
    k_util(r, Q, 2)


def k_util(r, Q, part):
    from lenstronomy.Util import util, param_util
    import lenstronomy.LensModel.Util.epl_util as e
    for n, x, y in shapes(r):
        if part == 1:
            Q("rotate/" + n, util.rotate, x, y, U(r, -7, 7))
        if n not in ("int", "int_array") and part == 1:
            Q("ellipticity2phi_q/" + n, param_util.ellipticity2phi_q, x * .3, y * .3)
            Q("phi_q2_ellipticity/" + n, param_util.phi_q2_ellipticity, x, abs(y) * .4 + .1)
        if n not in ("int", "int_array") and part == 2:
            Q("pol_to_ell/" + n, e.pol_to_ell, abs(x), y, U(r, .2, 1))
            Q("ell_to_pol/" + n, e.ell_to_pol, abs(x), y, U(r, .2, 1))
            Q("cart_to_pol/" + n, e.cart_to_pol, x, y)
        if part == 1:
            continue
        Q("pol_to_cart/" + n, e.pol_to_cart, x, y)
        Q("ps/" + n, e.ps, x, U(r, .2, 2))
        if n not in ("int", "scalar"):
            Q("cdot/" + n, e.cdot, x + 1j * y, y - 2j * x)
    if part == 2:
        for _ in range(20):
            Q("rotmat", e.rotmat, U(r, -7, 7))
            a = r.normal(size=6)
            Q("min_approx", e.min_approx, *[np.float64(v) for v in np.concatenate([np.sort(a[:3]), a[3:]])])
            A, B, C = (r.normal(size=8) for _ in range(3))
            B[0] = 0
            A[1] = 0
            Q("solvequadeq", e.solvequadeq, A, B, C)
        return
    for v in ((0., 0.), (.2, 0.), (-.2, 0.), (0., .3), (0., -.3), (.9, .9)):
        Q("ellipticity2phi_q/special", param_util.ellipticity2phi_q, *v)
        Q("ellipticity2phi_q/special_array", param_util.ellipticity2phi_q, np.full(3, v[0]), np.full(3, v[1]))
    for i in range(60):
        n = int(r.integers(3, 14))
        kind = i % 5
        a = r.random(n * n) if kind == 0 else r.integers(0, 4, n * n).astype(float) if kind == 1 else np.ones(n * n) if kind == 2 else r.random(n * n + int(r.integers(0, 2 * n)))
        if kind == 4:
            gx, gy = np.meshgrid(np.linspace(-2, 2, n), np.linspace(-2, 2, n))
            a = (np.cos(3 * gx + U(r, 0, 6)) * np.cos(3 * gy + U(r, 0, 6))).ravel()
        x, y = r.random(len(a)), r.random(len(a))
        Q("local_minima_2d", util.local_minima_2d, a, x, y)
        Q("neighbor_select", util.neighbor_select, a, x, y)
        if kind == 0:
            Q("neighbor_select/2d_view", util.neighbor_select, np.asfortranarray(a.reshape(n, n)).T.ravel(), x, y)


def k_conv(r, Q):
    from lenstronomy.ImSim.Numerics.numba_convolution import NumbaConvolution, SubgridNumbaConvolution
    from lenstronomy.ImSim.Numerics.adaptive_numerics import AdaptiveConvolution
    for i in range(24):
        nx, ny = (int(v) for v in r.integers(5, 15, 2))
        kx, ky = ((int(v) for v in r.choice([1, 3, 5, 7, 21], 2)) if i % 2 else (int(r.choice([3, 5, 9])),) * 2)
        ker = r.random((kx, ky))
        cp = r.random((nx, ny)) < [1., .5, .1, .8][i % 4]
        out = [None, r.random((nx, ny)) < .6, np.zeros((nx, ny), bool), np.ones((nx, ny), bool)][(i // 2) % 4]
        im = r.normal(size=(nx, ny))
        lay = [im, np.asfortranarray(im), im[::-1, ::-1], (im * 10).astype(int)][i % 4]

        def f(ker=ker, cp=cp, out=out, lay=lay):
            o = NumbaConvolution(ker, cp, compute_pixels=out)
            return o.convolve2d(lay), o.convolve2d(lay * 2)
        Q("NumbaConvolution", f, ref=("conv", ker, cp, out, np.array(lay, float)))
    for i in range(10):
        n, s = int(r.integers(6, 12)), int(r.integers(1, 4))
        m = int(r.choice([3, 5, 7, 9]))
        ker = r.random((m, m))
        cp = r.random((n, n)) < .7
        out = None if i % 2 else r.random((n, n)) < .7
        im = r.normal(size=(n * s, n * s))

        def f(ker=ker, cp=cp, out=out, im=im, s=s, i=i):
            return SubgridNumbaConvolution(ker, s, cp, compute_pixels=out, kernel_size=None if i % 3 else 3).convolve2d(im)
        Q("SubgridNumbaConvolution", f)
    for i in range(6):
        n, s = int(r.integers(8, 14)), int(r.choice([2, 3]))
        ker = r.random((5 * s if (5 * s) % 2 else 5 * s + 1,) * 2)
        ker /= ker.sum()
        hi = r.random((n, n)) < .3
        low, high = r.random((n, n)), r.random((n * s, n * s))

        def f(ker=ker, hi=hi, low=low, high=high, s=s):
            return AdaptiveConvolution(ker, s, conv_supersample_pixels=hi, supersampling_kernel_size=None).re_size_convolve(low, high)
        Q("AdaptiveConvolution", f)


def k_solver(r, Q):
    from lenstronomy.LensModel.Solver import epl_shear_solver as S
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
    from lenstronomy.LensModel.lens_model import LensModel
    import lenstronomy.LensModel.Util.epl_util as e
    for i in range(14):
        te = U(r, .5, 2)
        kw = [dict(theta_E=te, gamma=[2., U(r, 1.5, 2.5)][i % 2], e1=U(r, -.3, .3), e2=U(r, -.3, .3), center_x=U(r, -.2, .2), center_y=U(r, -.2, .2)),
              dict(gamma1=U(r, -.1, .1), gamma2=U(r, -.1, .1))]
        pos = (kw[0]["center_x"] + te * U(r, -.4, .4), kw[0]["center_y"] + te * U(r, -.4, .4))
        Q("solve_lenseq_pemd", S.solve_lenseq_pemd, pos, kw, sort=True)
        Q("solve_lenseq_pemd/array", S.solve_lenseq_pemd, np.array(pos), kw[:1], sort=True)
        Q("caustics_epl_shear", S.caustics_epl_shear, kw, 60)
        for w in ("double", "quad", "cut", "caustic"):
            Q("caustics/" + w, S.caustics_epl_shear, kw, 40, return_which=w)
        b, t, y1, y2, q = te, kw[0]["gamma"] - 1, U(r, -.3, .3), U(r, -.3, .3), U(r, .4, .95)
        args = (b, t, y1, y2, q, .03, -.04)
        ph = np.sort(r.uniform(0, np.pi, 30))
        Q("_one_dim_lens_eq_both", S._one_dim_lens_eq_both, ph, args)
        Q("_one_dim_lens_eq", S._one_dim_lens_eq, ph[3], args)
        Q("_one_dim_lens_eq_unsmooth", S._one_dim_lens_eq_unsmooth, ph[3], args)
        Q("_getr", S._getr, ph[5], args)
        Q("_alpha_epl_shear", S._alpha_epl_shear, r.uniform(-1, 1, 8), r.uniform(-1, 1, 8), b, q, t, gamma1=.1, gamma2=.02)
        Q("_getphi", S._getphi, np.linspace(0, np.pi, 80), args, sort=True, tol=1e-7)
        if i < 6:
            for name in ("EPL", "EPL_NUMBA", "SIE"):
                k = [dict(kw[0]), kw[1]]
                if name == "SIE":
                    k[0].pop("gamma")
                sol = LensEquationSolver(LensModel([name, "SHEAR"]))
                Q("LensEquationSolver.analytical/" + name, sol.image_position_from_source, pos[0], pos[1], k, solver="analytical", sort=True, tol=1e-7)
                Q("LensEquationSolver.lenstronomy/" + name, sol.image_position_from_source, pos[0], pos[1], k, min_distance=.08, search_window=5., precision_limit=1e-11, num_iter_max=200, sort=True, tol=1e-6)

        def g(x, a):
            return x ** 3 - a[0] * x - a[1]
        Q("brentq", e.brentq_nojit, g, 0., 4., args=(2., U(r, .1, 5)))


def k_image(r, Q):
    import lenstronomy.Util.simulation_util as su
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF
    from lenstronomy.ImSim.image_model import ImageModel
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.PointSource.point_source import PointSource
    for i in range(4):
        n = int(r.integers(18, 26))
        data = ImageData(**su.data_configure_simple(n, .15, 100., .1))
        psf = [PSF(psf_type="GAUSSIAN", fwhm=.3, pixel_size=.15), PSF(psf_type="PIXEL", kernel_point_source=np.outer(*[np.hanning(9)[1:-1]] * 2))][i % 2]
        lens = LensModel(["EPL_NUMBA", "SHEAR"])
        src, ll = LightModel(["SERSIC_ELLIPSE"]), LightModel(["GAUSSIAN_ELLIPSE"])
        ps = PointSource(["SOURCE_POSITION"], lens_model=lens, fixed_magnification_list=[True])
        kn = dict(supersampling_factor=2, supersampling_convolution=True, compute_mode="adaptive", supersampled_indexes=r.random((n, n)) < .3) if i < 2 else dict(supersampling_factor=2)
        kl = [dict(theta_E=U(r, .7, 1.1), gamma=U(r, 1.8, 2.2), e1=.1, e2=-.1, center_x=0., center_y=.05), dict(gamma1=.02, gamma2=.03)]
        ks = [dict(amp=10., R_sersic=.2, n_sersic=1.3, e1=.1, e2=.2, center_x=.05, center_y=0.)]
        kk = [dict(amp=5., sigma=.4, e1=.1, e2=0., center_x=0., center_y=0.)]
        kp = [dict(ra_source=.05, dec_source=.01, source_amp=3.)]

        def f(kn=kn, psf=psf, data=data, kl=kl, ks=ks, kk=kk, kp=kp):
            return ImageModel(data, psf, lens, src, ll, ps, kwargs_numerics=dict(kn)).image(kl, ks, kk, kp)
        Q("ImageModel.image", f, tol=1e-6)


def main():
    kind, seed, out = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    res = []

    def Q(name, f, *a, sort=False, tol=1e-9, ref=None, **k):
        # compiling is slow and the layouts differ in stride only: fewer argument types with bounds checks
        if os.environ.get("NUMBA_BOUNDSCHECK") and name.split("/")[-1] in ("scalar", "int", "fortran", "transposed", "int_array", "float32", "readonly", "default_centre"):
            res.append(None)
            return
        before = [np.array(v) if isinstance(v, np.ndarray) else None for v in a]
        try:
            v = f(*a, **k)
            if isinstance(v, (tuple, list)):
                v = [np.array(x) for x in v]
            else:
                v = [np.array(v)]
            if sort:
                o = np.argsort(v[0].ravel(), kind="stable")
                v = [x.ravel()[o] for x in v]
            err = None
        except Exception as e:  # noqa
            v, err = None, (type(e).__name__, str(e)[:300])
        same = all(b is None or np.array_equal(b, x, equal_nan=True) for b, x in zip(before, a))
        res.append(dict(name=name, value=v, err=err, same=same, tol=tol, ref=ref if os.environ.get("JITREF") else None, args=repr((a, k))[:400] if err else ""))
    globals()["k_" + kind](np.random.default_rng(seed), Q)
    from lenstronomy.Util import numba_util
    pickle.dump(dict(res=res, enabled=bool(numba_util.numba_enabled)), open(out, "wb"))


if __name__ == "__main__":
    main()

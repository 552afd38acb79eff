"""Random imaging scenes and an independent forward model of them (numpy only; single components are evaluated one by one)."""
import copy
import numpy as np
from lenscat import U, LU, ell
import lightcat as GC

SMOOTH = ["GAUSSIAN", "GAUSSIAN_ELLIPSE", "SERSIC", "SERSIC_ELLIPSE", "SERSIC_ELLIPSE_Q_PHI", "CORE_SERSIC", "MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE",
          "SHAPELETS", "UNIFORM", "CHAMELEON", "NIE", "MGE_SET_ELLIPSE", "SHAPELETS_POLAR_EXP"]


def light(rng, nmax, pool=None, nmin=0):
    n = int(rng.integers(nmin, nmax + 1))
    names = [str(rng.choice(pool or SMOOTH)) for _ in range(n)]
    kw = []
    for m in names:
        p = GC.params(m, rng)
        for c in ("center_x", "center_y"):
            if c in p:
                p[c] = U(rng, -.6, .6)
        kw.append(p)
    return names, kw, [GC.profile_kwargs(m, rng) for m in names]


def lens(rng, nmax=3, nmin=0):
    names, kw = [], []
    for _ in range(int(rng.integers(nmin, nmax + 1))):
        m = str(rng.choice(["SIE", "SHEAR", "EPL", "NFW", "SIS", "CONVERGENCE", "NIE", "PJAFFE"]))
        e1, e2 = ell(rng, .25)
        c = dict(center_x=U(rng, -.3, .3), center_y=U(rng, -.3, .3))
        k = dict(SIE=dict(theta_E=U(rng, .4, 1.3), e1=e1, e2=e2, **c), SHEAR=dict(gamma1=U(rng, -.1, .1), gamma2=U(rng, -.1, .1), ra_0=U(rng, -.2, .2), dec_0=0.),
                 EPL=dict(theta_E=U(rng, .4, 1.3), gamma=U(rng, 1.7, 2.3), e1=e1, e2=e2, **c), NFW=dict(Rs=U(rng, .5, 4), alpha_Rs=U(rng, .1, .8), **c),
                 SIS=dict(theta_E=U(rng, .2, 1), **c), CONVERGENCE=dict(kappa=U(rng, -.1, .2), ra_0=0., dec_0=.1),
                 NIE=dict(theta_E=U(rng, .4, 1.3), e1=e1, e2=e2, s_scale=.1, **c), PJAFFE=dict(sigma0=U(rng, .2, 1), Ra=.2, Rs=1.1, **c))[m]
        names.append(m)
        kw.append(k)
    return names, kw


def frame(rng, nx, ny, square=True, d=None):
    d = d or U(rng, .12, .35)
    p = U(rng, 0, 6.28) if rng.integers(2) else 0.
    R = np.array([[np.cos(p), -np.sin(p)], [np.sin(p), np.cos(p)]])
    if rng.integers(2):
        R = R @ np.diag([-1., 1.])
    M = R * d
    if not square and rng.integers(4) == 0:
        M = M @ np.array([[1., .2], [-.1, .9]])
    c = np.array([(nx - 1) / 2, (ny - 1) / 2])
    o = -M @ c + rng.normal(size=2) * d
    return M, o, d


def kernel(rng, n):
    """asymmetric kernel with an empty rim (so sub-pixel placement never leaves the kernel frame)."""
    k = np.zeros((n, n))
    k[1:-1, 1:-1] = rng.uniform(.05, 1, (n - 2, n - 2)) ** 2
    k[n // 2, n // 2] += n
    return k / k.sum()


def make(rng, **o):
    """o: psf, ss, square, mask, n_ps, multi, ext, beam, flux, adaptive, nmax, nlens"""
    g = lambda k, d: o[k] if k in o else d
    s = {}
    nx, ny = int(rng.integers(8, 19)), int(rng.integers(8, 19))
    if g("square", rng.integers(3) == 0):
        ny = nx
    s["nx"], s["ny"] = nx, ny
    s["M"], s["o"], s["d"] = frame(rng, nx, ny, square=False)
    psf = g("psf", str(rng.choice(["NONE", "GAUSSIAN", "PIXEL", "PIXEL"])))
    beam = g("beam", rng.integers(8) == 0)
    ss = 1 if beam else g("ss", int(rng.choice([1, 1, 2, 3])))
    s["num"] = dict(supersampling_factor=ss)
    s["psf_ss"] = 1
    if psf == "NONE":
        s["psf"] = dict(psf_type="NONE")
    elif psf == "GAUSSIAN":
        s["psf"] = dict(psf_type="GAUSSIAN", fwhm=U(rng, 1.2, 3) * s["d"], truncation=float(rng.choice([3., 4., 5.])))
        if ss > 1 and rng.integers(2):
            s["num"]["supersampling_convolution"] = True
    else:
        p = 1
        if ss in (1, 3) and rng.integers(2):
            p = 3
        n = int(rng.choice([5, 7])) * p
        k = kernel(rng, n)
        if rng.integers(2):
            k = k * LU(rng, .1, 10)
        s["psf"] = dict(psf_type="PIXEL", kernel_point_source=k, point_source_supersampling_factor=p)
        s["psf_ss"] = p
        if p == 3 and ss == 3 and rng.integers(2):
            s["num"].update(supersampling_convolution=True, supersampling_kernel_size=None)
        s["num"]["convolution_type"] = str(rng.choice(["fft", "grid", "fft_static"]))
    if psf != "GAUSSIAN" and not beam and not s["num"].get("supersampling_convolution") and g("adaptive", rng.integers(4) == 0):
        s["num"]["compute_mode"] = "adaptive"
        s["num"]["supersampled_indexes"] = rng.random((ny, nx)) < .4
    if psf != "GAUSSIAN" and not beam and g("fmask", rng.integers(4) == 0):
        m = np.zeros((ny, nx), dtype=bool)
        y0, x0 = int(rng.integers(0, ny // 2)), int(rng.integers(0, nx // 2))
        y1, x1 = int(rng.integers(y0 + 3, ny + 1)), int(rng.integers(x0 + 3, nx + 1))
        m[y0:y1, x0:x1] = rng.random((y1 - y0, x1 - x0)) < .8
        m[y0 + 1, x0 + 1] = True
        s["num"]["flux_evaluate_indexes"] = m
    nm = g("nmax", 3)
    s["lens"], s["kw_lens"] = lens(rng, g("nlens", 3))
    s["source"], s["kw_source"], s["pk_source"] = light(rng, nm, g("pool", None))
    s["ll"], s["kw_ll"], s["pk_ll"] = light(rng, nm, g("pool", None))
    s["multi"] = g("multi", str(rng.choice(["", "", "scale", "planes"])))
    if s["multi"] == "scale":
        s["scale"] = [float(rng.choice([1., U(rng, .2, 1.2)])) for _ in s["source"]]
    if s["multi"] == "planes":
        zs = 2.
        s["zl"] = [float(rng.choice([.3, .6, 1.])) for _ in s["lens"]]
        s["zs"] = zs
        s["zsrc"] = [float(rng.choice([zs, 1.3, .8, zs])) for _ in s["source"]] if rng.integers(4) else None
        if s["zsrc"] and rng.integers(5) == 0:
            s["zsrc"] = [zs] * len(s["source"])
    s["ps"], s["kw_ps"] = [], []
    for _ in range(int(rng.integers(0, g("n_ps", 2) + 1))):
        t = str(rng.choice(["UNLENSED", "LENSED_POSITION"]))
        m = int(rng.integers(1, 5))
        px, py = rng.uniform(-1, nx, m), rng.uniform(-1, ny, m)
        ra = s["o"][0] + s["M"][0, 0] * px + s["M"][0, 1] * py
        dec = s["o"][1] + s["M"][1, 0] * px + s["M"][1, 1] * py
        s["ps"].append(t)
        s["kw_ps"].append(dict(ra_image=ra, dec_image=dec, point_amp=rng.uniform(.5, 20, m)))
    s["flux"] = float(LU(rng, .1, 10)) if g("flux", rng.integers(3) == 0) else 1
    s["beam"] = rng.uniform(.2, 1, (ny, nx)) if beam else None
    s["special"] = {}
    s["ext"] = None
    if g("ext", rng.integers(4) == 0):
        names, kw, _ = light(rng, 2, ["GAUSSIAN", "UNIFORM", "SERSIC"], 1)
        for k in kw:
            k["amp"] = U(rng, .05, .8)
        s["ext"], s["kw_ext"] = names, kw
        if rng.integers(2):
            s["special"]["tau0_list"] = [U(rng, .3, 2), U(rng, .3, 2)]
        s["tau_index"] = int(rng.integers(2))
    if s["ps"] and g("shift", rng.integers(3) == 0):
        n = sum(len(k["ra_image"]) for k in s["kw_ps"])
        m = int(rng.integers(1, n + 1))
        s["special"]["delta_x_image"], s["special"]["delta_y_image"] = rng.normal(size=m) * .1, rng.normal(size=m) * .1
    return s


# ---- library objects -------------------------------------------------------------------------------------------------

def data_kwargs(s, **kw):
    d = dict(image_data=np.zeros((s["ny"], s["nx"])), ra_at_xy_0=s["o"][0], dec_at_xy_0=s["o"][1], transform_pix2angle=s["M"].copy(), flux_scaling=s["flux"])
    if s["beam"] is not None:
        d["antenna_primary_beam"] = s["beam"]
    d.update(kw)
    return d


def lens_model(s, **kw):
    from lenstronomy.LensModel.lens_model import LensModel
    if s["multi"] == "planes":
        return LensModel(s["lens"], lens_redshift_list=s["zl"], z_source=kw.get("z_source", s["zs"]), z_source_convention=s["zs"], multi_plane=True, cosmo=s.get("cosmo"),
                         **s.get("kw_planes", {}))
    return LensModel(s["lens"])


def classes(s):
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.PointSource.point_source import PointSource
    from lenstronomy.ImSim.differential_extinction import DifferentialExtinction
    lm = lens_model(s)
    src = LightModel(s["source"], deflection_scaling_list=s.get("scale"), source_redshift_list=s.get("zsrc"), profile_kwargs_list=copy.deepcopy(s["pk_source"]))
    ll = LightModel(s["ll"], profile_kwargs_list=copy.deepcopy(s["pk_ll"]))
    ps = PointSource(s["ps"], lens_model=lm)
    ext = DifferentialExtinction(s["ext"], tau0_index=s["tau_index"]) if s["ext"] else None
    return lm, src, ll, ps, ext


def image_model(s, cls=None, **kw):
    from lenstronomy.ImSim.image_model import ImageModel
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF
    lm, src, ll, ps, ext = classes(s)
    dk = data_kwargs(s, **kw.pop("data", {}))
    return (cls or ImageModel)(ImageData(**dk), PSF(**copy.deepcopy(dict(s["psf"], **kw.pop("psf", {})))), lm, src, ll, ps, ext,
                               kwargs_numerics=copy.deepcopy(s["num"]), **kw)


def kwargs(s):
    sp = copy.deepcopy(s["special"]) or None
    return dict(kwargs_lens=copy.deepcopy(s["kw_lens"]), kwargs_source=copy.deepcopy(s["kw_source"]), kwargs_lens_light=copy.deepcopy(s["kw_ll"]),
                kwargs_ps=copy.deepcopy(s["kw_ps"]), kwargs_extinction=copy.deepcopy(s.get("kw_ext")), kwargs_special=sp)


# ---- reference -------------------------------------------------------------------------------------------------------

def conv(img, k):
    ny, nx = img.shape
    n = len(k)
    h = (n - 1) // 2
    big = np.zeros((ny + n - 1, nx + n - 1))
    for i in range(n):
        for j in range(n):
            if k[i, j]:
                big[i:i + ny, j:j + nx] += k[i, j] * img
    return big[h:h + ny, h:h + nx]


def gauss(im, sig, trunc):
    r = int(trunc * sig + .5)
    w = np.exp(-.5 * (np.arange(-r, r + 1) / sig) ** 2)
    w /= w.sum()
    p = np.pad(im, r, mode="edge")
    p = np.apply_along_axis(lambda q: np.convolve(q, w, mode="valid"), 0, p)
    return np.apply_along_axis(lambda q: np.convolve(q, w, mode="valid"), 1, p)


class Ref:
    def __init__(self, s, M=None, o=None):
        self.s = s
        self.M, self.o = (s["M"] if M is None else M), (s["o"] if o is None else o)
        self.ss = s["num"]["supersampling_factor"]

    def sky(self, x, y):
        M, o = self.M, self.o
        return o[0] + M[0, 0] * x + M[0, 1] * y, o[1] + M[1, 0] * x + M[1, 1] * y

    def pix(self, ra, dec):
        v = np.linalg.solve(self.M, np.array([np.asarray(ra, float) - self.o[0], np.asarray(dec, float) - self.o[1]]))
        return v[0], v[1]

    def fine(self, f):
        """surface brightness f(ra, dec) on the sub-pixel grid, shape (ny, s, nx, s)."""
        s, k = self.s, self.ss
        off = (np.arange(k) - (k - 1) / 2) / k
        y = (np.arange(s["ny"])[:, None] + off).ravel()
        x = (np.arange(s["nx"])[:, None] + off).ravel()
        X, Y = np.meshgrid(x, y)
        ra, dec = self.sky(X, Y)
        v = np.asarray(f(ra.ravel(), dec.ravel()), dtype=float) * np.ones(X.size)
        return v.reshape(s["ny"], k, s["nx"], k)

    def blur(self, fn, unconvolved=False):
        s, k, num = self.s, self.ss, self.s["num"]
        area = abs(np.linalg.det(self.M))
        f = self.fine(fn)
        if num.get("compute_mode") == "adaptive":
            S = num["supersampled_indexes"]
            saved, self.ss = self.ss, 1
            centre = self.fine(fn)[:, 0, :, 0]
            self.ss = saved
            f = np.where(S[:, None, :, None], f, centre[:, None, :, None])
        m = num.get("flux_evaluate_indexes")
        if m is not None:
            f = f * m[:, None, :, None]
        low = f.mean(axis=(1, 3))
        if not unconvolved and s["psf"]["psf_type"] != "NONE":
            hi = num.get("supersampling_convolution", False)
            if s["psf"]["psf_type"] == "GAUSSIAN":
                sig = s["psf"]["fwhm"] / (2 * np.sqrt(2 * np.log(2))) / np.sqrt(area)
                if hi and k > 1:
                    H = gauss(f.reshape(s["ny"] * k, s["nx"] * k), sig * k, s["psf"]["truncation"])
                    low = H.reshape(s["ny"], k, s["nx"], k).mean(axis=(1, 3))
                else:
                    low = gauss(low, sig, s["psf"]["truncation"])
            else:
                K = s["psf"]["kernel_point_source"]
                K = K / K.sum()
                p = s["psf_ss"]
                if hi and k > 1:
                    H = conv(f.reshape(s["ny"] * k, s["nx"] * k), K)
                    low = H.reshape(s["ny"], k, s["nx"], k).mean(axis=(1, 3))
                else:
                    if p > 1:
                        n = len(K)
                        K = K.reshape(n // p, p, n // p, p).sum(axis=(1, 3))
                    low = conv(low, K)
        if m is not None:
            w = np.where(m)
            box = np.zeros_like(m)
            box[w[0].min():w[0].max() + 1, w[1].min():w[1].max() + 1] = True
            low = low * box
        return low * area

    def sb(self, names, kw, pk, ra, dec, k=None):
        from lenstronomy.LightModel.light_model import LightModel
        out = np.zeros_like(ra)
        for i, n in enumerate(names):
            if k is None or i in np.atleast_1d(k):
                out = out + LightModel([n], profile_kwargs_list=[copy.deepcopy(pk[i])]).surface_brightness(ra, dec, [kw[i]])
        return out

    def source_sky(self, ra, dec, k=None, kw=None, de_lensed=False, comp=None):
        s = self.s
        kw = kw or s["kw_source"]
        out = np.zeros_like(ra)
        for i, n in enumerate(s["source"]):
            if k is not None and i not in np.atleast_1d(k):
                continue
            if de_lensed:
                x, y = ra, dec
            elif s["multi"] == "planes":
                z = s["zsrc"][i] if s["zsrc"] else s["zs"]
                x, y = lens_model(s, z_source=z).ray_shooting(ra, dec, s["kw_lens"])
            else:
                a, b = lens_model(s).alpha(ra, dec, s["kw_lens"])
                c = s["scale"][i] if s["multi"] == "scale" else 1.
                x, y = ra - c * a, dec - c * b
            out = out + self.sb([n], [kw[i]], [s["pk_source"][i]], x, y)
        if not de_lensed:
            out = out * self.extinction(ra, dec)
        return out

    def extinction(self, ra, dec):
        s = self.s
        if not s["ext"]:
            return 1.
        t = self.sb(s["ext"], s["kw_ext"], [None] * len(s["ext"]), ra, dec)
        l = s["special"].get("tau0_list")
        return np.exp(-t * (l[s["tau_index"]] if l is not None else 1.))

    def _beam(self, f, on):
        s = self.s
        if s["beam"] is None or not on:
            return f
        return lambda ra, dec: f(ra, dec) * s["beam"].ravel()

    def source(self, k=None, unconvolved=False, de_lensed=False, beam=True, kw=None):
        s = self.s
        return s["flux"] * self.blur(self._beam(lambda a, b: self.source_sky(a, b, k, kw, de_lensed), beam), unconvolved)

    def lens_light(self, k=None, unconvolved=False, beam=True, kw=None):
        s = self.s
        return s["flux"] * self.blur(self._beam(lambda a, b: self.sb(s["ll"], kw or s["kw_ll"], s["pk_ll"], a, b, k), beam), unconvolved)

    def positions(self, k=None):
        s = self.s
        out, n = [], 0
        dx, dy = s["special"].get("delta_x_image", []), s["special"].get("delta_y_image", [])
        for i, kw in enumerate(s["kw_ps"]):
            for a, b, c in zip(kw["ra_image"], kw["dec_image"], kw["point_amp"]):
                if k is None or i in np.atleast_1d(k):
                    out.append((a + (dx[n] if n < len(dx) else 0.), b + (dy[n] if n < len(dy) else 0.), c))
                n += 1
        ra, dec, amp = (np.array([p[i] for p in out]) for i in range(3))
        return ra, dec, amp

    def place(self, x, y, amp, K, p, out):
        """bilinear placement of kernel K (given on p x p sub-pixels) into the sub-pixel frame out."""
        u, v = x * p + (p - 1) / 2., y * p + (p - 1) / 2.
        xi, yi = int(round(u)), int(round(v))
        fx, fy = u - xi, v - yi
        n = len(K)
        h = (n - 1) // 2
        for dy, wy in ((0, 1 - abs(fy)), (int(np.sign(fy)), abs(fy))):
            for dx, wx in ((0, 1 - abs(fx)), (int(np.sign(fx)), abs(fx))):
                if not wx * wy:
                    continue
                for i in range(n):
                    a = yi + dy + i - h
                    if not 0 <= a < out.shape[0]:
                        continue
                    for j in range(n):
                        b = xi + dx + j - h
                        if 0 <= b < out.shape[1]:
                            out[a, b] += amp * wx * wy * K[i, j]

    def ps_kernel(self, unconvolved=False):
        s = self.s
        if unconvolved:
            K = np.zeros((3, 3))
            K[1, 1] = 1
            return K, s["psf_ss"]
        t = s["psf"]["psf_type"]
        if t == "PIXEL":
            K = s["psf"]["kernel_point_source"]
            return K / K.sum(), s["psf_ss"]
        if t == "NONE":
            K = np.zeros((3, 3))
            K[1, 1] = 1
            return K, 1
        return None, 1

    def point_source(self, k=None, unconvolved=False, beam=True, K=None):
        s = self.s
        Kd, p = self.ps_kernel(unconvolved)
        K = Kd if Kd is not None else K
        ra, dec, amp = self.positions(k)
        sub = np.zeros((s["ny"] * p, s["nx"] * p))
        if len(ra):
            x, y = self.pix(ra, dec)
            for a, b, c in zip(x, y, amp):
                if s["beam"] is not None and beam:
                    from scipy.ndimage import map_coordinates
                    c = c * map_coordinates(s["beam"], [[b], [a]], order=3, mode="constant", cval=0)[0]
                self.place(a, b, c, K, p, sub)
        return s["flux"] * sub.reshape(s["ny"], p, s["nx"], p).sum(axis=(1, 3))


# ---- several bands ---------------------------------------------------------------------------------------------------

def make_bands(rng, nb=None, same=False, n_ps=2, ext=None, multi=None, nmax=3, pool=None):
    """(base scene, per-band scenes, kwargs_model, multi_band_list); same=True: every band sees every component (joint-linear)."""
    nb = nb or int(rng.integers(2, 4))
    while True:
        base = make(rng, beam=False, multi=str(rng.choice(["", "scale", "planes"])) if multi is None else multi, ext=bool(rng.integers(2)) if ext is None else ext,
                    n_ps=n_ps, nmax=nmax, pool=pool)
        if base["source"] and base["ll"]:
            break
    base["special"] = {}
    if base["ext"]:
        base["special"]["tau0_list"] = [U(rng, .3, 2) for _ in range(nb)]
    shuffled = lambda n: [int(i) for i in rng.permutation(n)[:int(rng.integers(0, n + 1))]]
    idx = {k: [] for k in ("lens", "source", "ll", "ps", "ext")}
    bands = []
    for b in range(nb):
        f = make(rng, beam=False, ext=False)
        t = dict(base)
        for k in ("nx", "ny", "M", "o", "d", "psf", "num", "psf_ss", "flux"):
            t[k] = f[k]
        t["tau_index"] = b
        for k in idx:
            n = len(base[k] or [])
            idx[k].append(list(range(n)) if same or (k == "lens" and base["multi"] == "planes") else shuffled(n))
        sel = lambda l, k: [l[j] for j in idx[k][b]]
        t["lens"], t["kw_lens"] = sel(base["lens"], "lens"), sel(base["kw_lens"], "lens")
        if base["multi"] == "planes":
            t["zl"] = sel(base["zl"], "lens")
            t["zsrc"] = sel(base["zsrc"], "source") if base["zsrc"] else None
        if base["multi"] == "scale":
            t["scale"] = sel(base["scale"], "source")
        for a in ("source", "ll"):
            for q in ("", "kw_", "pk_"):
                t[q + a] = sel(base[q + a], a)
        t["ps"], t["kw_ps"] = sel(base["ps"], "ps"), sel(base["kw_ps"], "ps")
        if base["ext"]:
            t["ext"], t["kw_ext"] = sel(base["ext"], "ext") or None, sel(base["kw_ext"], "ext")
        bands.append(t)
    km = dict(lens_model_list=base["lens"], source_light_model_list=base["source"], lens_light_model_list=base["ll"], point_source_model_list=base["ps"],
              source_light_profile_kwargs_list=copy.deepcopy(base["pk_source"]), lens_light_profile_kwargs_list=copy.deepcopy(base["pk_ll"]))
    if not same:
        km.update(index_lens_model_list=idx["lens"], index_source_light_model_list=idx["source"], index_lens_light_model_list=idx["ll"], index_point_source_model_list=idx["ps"])
    if base["ext"]:
        km.update(optical_depth_model_list=base["ext"], tau0_index_list=list(range(nb)))
        if not same:
            km["index_optical_depth_model_list"] = idx["ext"]
    if base["multi"] == "scale":
        km["source_deflection_scaling_list"] = base["scale"]
    if base["multi"] == "planes":
        km.update(multi_plane=True, lens_redshift_list=base["zl"], z_source=base["zs"], z_source_convention=base["zs"], source_redshift_list=base["zsrc"])
    mb = [[data_kwargs(t), copy.deepcopy(t["psf"]), copy.deepcopy(t["num"])] for t in bands]
    return base, bands, km, mb, idx


# ---- linear amplitudes -----------------------------------------------------------------------------------------------

def amp_slots(names, kw):
    """list of (component, position in its amplitude array or None)"""
    out = []
    for i, k in enumerate(kw):
        a = k["amp"]
        out += [(i, None)] if np.ndim(a) == 0 else [(i, j) for j in range(len(a))]
    return out


def unit(kw, i, j):
    k = copy.deepcopy(kw)
    for q in k:
        q["amp"] = 0. if np.ndim(q["amp"]) == 0 else np.zeros(len(q["amp"]))
    if j is None:
        k[i]["amp"] = 1.
    else:
        k[i]["amp"][j] = 1.
    return k


def responses(s, ref, K=None, fixed=(), unconvolved=False):
    """independent images of every linear amplitude, in order source, lens light, point sources."""
    out = []
    for i, j in amp_slots(s["source"], s["kw_source"]):
        out.append(ref.source(k=i, kw=unit(s["kw_source"], i, j), unconvolved=unconvolved))
    for i, j in amp_slots(s["ll"], s["kw_ll"]):
        out.append(ref.lens_light(k=i, kw=unit(s["kw_ll"], i, j), unconvolved=unconvolved))
    keep = s["kw_ps"]
    for i, k in enumerate(keep):
        n = len(k["ra_image"])
        if i in fixed:
            mag = np.abs(lens_model(s).magnification(np.array(k["ra_image"]), np.array(k["dec_image"]), s["kw_lens"]))
            sets = [mag]
        else:
            sets = list(np.eye(n))
        for a in sets:
            s["kw_ps"] = [dict(q, point_amp=a if m == i else np.zeros(len(q["ra_image"]))) for m, q in enumerate(keep)]
            out.append(ref.point_source(K=K, unconvolved=unconvolved))
    s["kw_ps"] = keep
    return out

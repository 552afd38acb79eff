"""C14: PSF convolution and kernels."""
import copy
import warnings
import numpy as np
from scipy import signal
from lenscat import U
from lenstronomy.Data.psf import PSF
from lenstronomy.ImSim.Numerics.convolution import PixelKernelConvolution, SubgridKernelConvolution, MultiGaussianConvolution, FWHMGaussianConvolution, MGEConvolution
from lenstronomy.ImSim.Numerics.numba_convolution import NumbaConvolution, SubgridNumbaConvolution
from lenstronomy.ImSim.Numerics.adaptive_numerics import AdaptiveConvolution
from lenstronomy.ImSim.Numerics.partial_image import PartialImage
from lenstronomy.Util import kernel_util as ku, image_util

RULE = ("every convolution (all pixel-kernel modes, random images/kernels/masks, square and not, random histories on one object) is observed and compared with a "
        "direct sum over the kernel written independently; kernels derived from a PSF are compared in flux, centroid, symmetry and block sums with the PSF they come from, after random query histories")
REQUIRED = ["check:conv", "check:sub", "check:split", "check:masked", "check:adaptive", "check:gauss", "check:linear", "check:psf", "check:history", "check:degrade", "check:supersample", "check:cut", "check:shift", "check:norm"]


def cases(tier, seed):
    out = []
    n = dict(pixel=20, sub=16, masked=16, adaptive=14, gauss=14, psf=20, kernel=24, shift=10)
    for k in n:
        for i in range(n[k] * (1 if tier == "quick" else 12)):
            out.append(dict(name="%s#%d" % (k, i), group=k, kind=k))
    return out


def run(case, mon, rng):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + case["kind"]](case, mon, rng)


def kern(rng, n=None, sym=None, n2=None, neg=False):
    n = n or int(rng.choice([1, 3, 5, 7, 9, 11]))
    n2 = n2 or n
    k = rng.uniform(0, 1, (n, n2)) ** 3
    if neg:
        k = k - .1
    if sym:
        k = k + k[::-1] + k[:, ::-1] + k[::-1, ::-1]
        k = k + k.T if n == n2 else k
    return k / k.sum()


def smooth_kern(rng, n, sc=1.):
    c = (n - 1) / 2
    y, x = np.mgrid[0:n, 0:n] - c
    a, b, p = U(rng, .12, .25) * n * sc, U(rng, .12, .25) * n * sc, U(rng, 0, 3)
    u, v = x * np.cos(p) + y * np.sin(p), -x * np.sin(p) + y * np.cos(p)
    k = np.exp(-.5 * ((u / a) ** 2 + (v / b) ** 2))
    return k / k.sum()


def conv(img, k):
    """direct discrete convolution, zero outside, kernel centre at (n-1)/2"""
    img = np.asarray(img, dtype=float)
    ny, nx = img.shape
    ky, kx = k.shape
    cy, cx = (ky - 1) // 2, (kx - 1) // 2
    big = np.zeros((ny + ky - 1, nx + kx - 1))
    for i in range(ky):
        for j in range(kx):
            big[i:i + ny, j:j + nx] += k[i, j] * img
    return big[cy:cy + ny, cx:cx + nx]


def block(a, s):
    ny, nx = a.shape
    return a.reshape(ny // s, s, nx // s, s).mean(axis=(1, 3))


def degrade(k, s):
    """flux of the fine kernel in coarse pixels of a common centre (fine pixels on a border are shared)."""
    n = len(k)
    c = (n - 1) // 2
    half = int(np.ceil((c + .5 - s / 2) / s)) if c + .5 > s / 2 else 0
    m = 2 * half + 1
    W = np.zeros((m, n))
    for j in range(n):
        lo, hi = j - c - .5, j - c + .5
        for q in range(m):
            a, b = (q - half - .5) * s, (q - half + .5) * s
            W[q, j] = max(0, min(hi, b) - max(lo, a))
    return W @ k @ W.T


def same_centre(a, b):
    """embed two odd kernels into one size."""
    n = max(len(a), len(b))
    out = []
    for k in (a, b):
        z = np.zeros((n, n))
        o = (n - len(k)) // 2
        z[o:o + len(k), o:o + len(k)] = k
        out.append(z)
    return out


def images(rng, ny, nx):
    yield "random", rng.normal(size=(ny, nx))
    z = np.zeros((ny, nx))
    z[int(rng.integers(ny)), int(rng.integers(nx))] = 3.
    yield "delta", z
    yield "zero", np.zeros((ny, nx))
    yield "flat", np.full((ny, nx), 1.7)
    z = np.zeros((ny, nx))
    z[ny // 2:, :] = 1e6
    z[0, 0] = 1e-6
    yield "step", z


def run_pixel(case, mon, rng):
    n = int(rng.choice([1, 3, 5, 7, 9, 11] if rng.integers(4) else [2, 4, 6]))
    k = kern(rng, n, n2=n if rng.integers(3) else int(rng.choice([1, 3, 5, 4])), neg=bool(rng.integers(2)))
    k = k * float(rng.choice([1., 1., 2.5]))
    k0 = k.copy()
    objs = {t: PixelKernelConvolution(k, convolution_type=t) for t in ("fft", "grid", "fft_static")}
    hist = []
    for step in range(3):
        ny, nx = int(rng.integers(max(2, k.shape[0] // 2), 17)), int(rng.integers(max(2, k.shape[1] // 2), 17))
        if step == 2 and hist:
            ny, nx = hist[0]
        hist.append((ny, nx))
        if ny < k.shape[0] or nx < k.shape[1]:
            # images smaller than the kernel are still convolved onto the image's own grid
            pass
        for tag, im in images(rng, ny, nx):
            want = conv(im, k)
            sc = np.max(np.abs(im)) + 1e-12
            for t, o in objs.items():
                im_in = im.copy()
                got = o.convolution2d(im_in)
                if mon.check("conv/shape/" + t, np.shape(got) == (ny, nx), "shape", got=np.shape(got), want=(ny, nx), kernel=k.shape):
                    mon.close("conv/%s" % t, got, want, 1e-9, 1e-10 * sc, "differs from the discrete convolution", kernel=k.shape, image=tag, shapes=hist)
                mon.close("conv/resize/%s" % t, o.re_size_convolve(im, None), want, 1e-9, 1e-10 * sc, "re_size_convolve", kernel=k.shape, shapes=hist)
                mon.check("conv/input", np.array_equal(im_in, im), "image altered")
            # flux conservation away from the edges
        big = np.zeros((ny + 2 * k.shape[0], nx + 2 * k.shape[1]))
        big[k.shape[0]:-k.shape[0], k.shape[1]:-k.shape[1]] = rng.uniform(0, 1, (ny, nx))
        for t, o in objs.items():
            mon.close("conv/flux/" + t, o.convolution2d(big).sum(), big.sum() * k.sum(), 1e-9, 1e-10, "flux", kernel=k.shape)
    a, b = rng.normal(size=(2, ny, nx))
    for t, o in objs.items():
        mon.close("linear/" + t, o.convolution2d(2 * a - 3 * b), 2 * o.convolution2d(a) - 3 * o.convolution2d(b), 1e-9, 1e-10, "linearity")
        tr = o.copy_transpose()
        mon.close("conv/transpose/" + t, tr.convolution2d(a), conv(a, k.T), 1e-9, 1e-10, "transposed kernel")
        mon.close("conv/after_transpose/" + t, o.convolution2d(a), conv(a, k), 1e-9, 1e-10, "original after transposing")
        mon.check("conv/kernel/" + t, np.array_equal(o.pixel_kernel(), k0), "kernel changed")
        if k.shape[0] == k.shape[1] and n >= 5 and n % 2:
            c = o.pixel_kernel(num_pix=3)
            w = k0[n // 2 - 1:n // 2 + 2, n // 2 - 1:n // 2 + 2]
            mon.close("cut/pixel_kernel", c, w / w.sum(), 1e-10, 0, "cut kernel")
        same = o.pixel_kernel(num_pix=n) if k.shape[0] == k.shape[1] and n % 2 else None
        mon.check("conv/kernel2/" + t, np.array_equal(o.pixel_kernel(), k0), "kernel changed by asking for a cut")
    mon.nontrivial("pixel", k.shape, str(hist))


def run_sub(case, mon, rng):
    s = int(rng.integers(2, 6))
    n = int(rng.choice([3, 5, 9, 13, 15]))
    k = kern(rng, n)
    ny, nx = int(rng.integers(3, 9)), int(rng.integers(3, 9))
    for t in ("fft", "grid", "fft_static"):
        o = SubgridKernelConvolution(k, s, supersampling_kernel_size=None, convolution_type=t)
        for tag, im in images(rng, ny * s, nx * s):
            sc = np.max(np.abs(im)) + 1e-12
            w = block(conv(im, k), s)
            mon.close("sub/full/" + t, o.convolution2d(im), w, 1e-9, 1e-10 * sc, "super-sampled convolution", s=s, n=n, image=tag)
            mon.close("sub/full2/" + t, o.re_size_convolve(block(im, s), im), w, 1e-9, 1e-10 * sc, "super-sampled convolution", s=s, n=n, image=tag)
        size = int(rng.choice([1, 3, 5]))
        o = SubgridKernelConvolution(k, s, supersampling_kernel_size=size, convolution_type=t)
        c = (n - 1) // 2
        ns = size * s
        ns += ns % 2 == 0
        ns = min(ns, n)
        h = (ns - 1) // 2
        inner = k[c - h:c + h + 1, c - h:c + h + 1]
        hole = k.copy()
        hole[c - h:c + h + 1, c - h:c + h + 1] = 0
        low = degrade(hole, s)
        for tag, im in images(rng, ny * s, nx * s):
            sc = np.max(np.abs(im)) + 1e-12
            w = block(conv(im, inner), s) + conv(block(im, s), low)
            mon.close("split/" + t, o.convolution2d(im), w, 1e-9, 1e-10 * sc, "split convolution: fine core plus coarse wings", s=s, n=n, size=size, image=tag)
            mon.close("split/2/" + t, o.re_size_convolve(block(im, s), im), w, 1e-9, 1e-10 * sc, "split convolution", s=s, n=n, size=size, image=tag)
    lo, hi = ku.split_kernel(k.copy(), size, s)
    mon.close("split/flux", lo.sum() + hi.sum(), 1., 1e-9, 0, "flux of the split kernel", s=s, n=n, size=size)
    mon.close("split/high", hi, inner, 1e-12, 0, "fine core")
    a, b = same_centre(lo, low)
    mon.close("split/low", a, b, 1e-9, 1e-12, "coarse wings", s=s, n=n, size=size)
    big = np.zeros(((ny + 16) * s, (nx + 16) * s))
    big[8 * s:-8 * s, 8 * s:-8 * s] = rng.uniform(size=(ny * s, nx * s))
    mon.close("split/conserve", o.convolution2d(big).sum(), big.sum() / s ** 2, 1e-9, 0, "flux of the split convolution", s=s, n=n, size=size)
    mon.nontrivial("sub", s, n, size)


def run_masked(case, mon, rng):
    n, m = int(rng.choice([1, 3, 5, 7])), int(rng.choice([1, 3, 5, 7]))
    k = kern(rng, n, n2=m)
    ny, nx = int(rng.integers(3, 13)), int(rng.integers(3, 13))
    cm = rng.uniform(size=(ny, nx)) < rng.choice([.2, .7, 1.1])
    om = rng.uniform(size=(ny, nx)) < rng.choice([.2, .7, 1.1]) if rng.integers(3) else None
    o = NumbaConvolution(k, cm, compute_pixels=om)
    ctx = dict(kernel=k.shape, shape=(ny, nx), out=om is not None)
    for tag, im in images(rng, ny, nx):
        sc = np.max(np.abs(im)) + 1e-12
        w = conv(np.where(cm, im, 0), k)
        if om is not None:
            w = np.where(om, w, 0)
        got = o.convolve2d(im)
        if mon.check("masked/shape", np.shape(got) == (ny, nx), "shape", **ctx):
            mon.close("masked/numba", got, w, 1e-10, 1e-11 * sc, "masked convolution", image=tag, **ctx)
        # values of pixels that are not selected have no influence
        im2 = np.where(cm, im, 1e9)
        mon.close("masked/outside", o.convolve2d(im2), got, 1e-12, 0, "unselected pixels leak", **ctx)
    s = int(rng.integers(2, 5))
    ks = kern(rng, int(rng.choice([3, 5, 9])))
    o = SubgridNumbaConvolution(ks, s, cm, compute_pixels=om)
    mh = np.kron(cm.astype(int), np.ones((s, s), dtype=int)) > 0
    for tag, im in images(rng, ny * s, nx * s):
        sc = np.max(np.abs(im)) + 1e-12
        w = block(conv(np.where(mh, im, 0), ks), s)
        if om is not None:
            w = np.where(om, w, 0)
        got = o.convolve2d(im)
        if mon.check("masked/sshape", np.shape(got) == (ny, nx), "shape", **ctx):
            mon.close("masked/subgrid", got, w, 1e-10, 1e-11 * sc, "masked super-sampled convolution", image=tag, s=s, n=len(ks), **ctx)
    p = PartialImage(cm)
    im = rng.normal(size=(ny, nx))
    a = p.partial_array(im)
    mon.check("masked/num", p.num_partial == int(cm.sum()) == len(a), "number of selected pixels")
    mon.close("masked/partial", p.image_from_partial(a), np.where(cm, im, 0), 0, 0, "image from selected pixels", **ctx)
    mon.close("masked/partial1d", p.array_from_partial(a), np.where(cm, im, 0).ravel(), 0, 0, "array from selected pixels", **ctx)
    ia = np.asarray(p.index_array)
    if mon.check("masked/ishape", ia.shape == (ny, nx), "index array shape", **ctx):
        w = np.full((ny, nx), -1)
        w[cm] = np.arange(cm.sum())
        mon.close("masked/index", ia, w, 0, 0, "index array", **ctx)
    mon.nontrivial("masked", k.shape, ny, nx, s)


def run_adaptive(case, mon, rng):
    s = int(rng.integers(2, 5))
    n = int(rng.choice([5, 7, 9, 13, 15, 17]))
    k = kern(rng, n)
    ny, nx = int(rng.integers(4, 10)), int(rng.integers(4, 10))
    cm = rng.uniform(size=(ny, nx)) < rng.choice([.1, .5, 1.1, 0.])
    om = rng.uniform(size=(ny, nx)) < .6 if rng.integers(2) else None
    size = [None, 1, 3, 5][int(rng.integers(4))]
    o = AdaptiveConvolution(k.copy(), s, cm, supersampling_kernel_size=size, compute_pixels=om)
    lowk = degrade(k, s)
    c = (n - 1) // 2
    if size is None:
        inner = k
    else:
        ns = size * s
        ns += ns % 2 == 0
        ns = min(ns, n)
        inner = k[c - (ns - 1) // 2:c + (ns - 1) // 2 + 1, c - (ns - 1) // 2:c + (ns - 1) // 2 + 1]
    mh = np.kron(cm.astype(int), np.ones((s, s), dtype=int)) > 0
    ctx = dict(s=s, n=n, size=size, shape=(ny, nx), frac=float(cm.mean()), out=om is not None)
    for tag, im in images(rng, ny * s, nx * s):
        sc = np.max(np.abs(im)) + 1e-12
        lo = block(im, s)
        w = conv(lo, lowk) + block(conv(np.where(mh, im, 0), inner), s) - conv(np.where(cm, lo, 0), degrade(inner, s))
        sel = np.ones((ny, nx), dtype=bool) if om is None else om
        for nme, got in (("convolve2d", o.convolve2d(im)), ("re_size", o.re_size_convolve(lo, im))):
            if mon.check("adaptive/shape", np.shape(got) == (ny, nx), "shape", **ctx):
                mon.close("adaptive/" + nme, np.asarray(got)[sel], w[sel], 1e-9, 1e-10 * sc, "adaptive convolution", image=tag, **ctx)
    if om is None and cm.all() and size is None:
        im = rng.normal(size=(ny * s, nx * s))
        mon.close("adaptive/full", o.convolve2d(im), block(conv(im, k), s), 1e-9, 1e-9, "all pixels fine = plain super-sampled convolution", **ctx)
    mon.nontrivial("adaptive", s, n, size, ny, nx)


def gk(sig, trunc):
    r = int(trunc * sig + .5)
    x = np.arange(-r, r + 1)
    w = np.exp(-.5 * (x / sig) ** 2)
    return w / w.sum()


def gauss_conv(im, sig, trunc):
    w = gk(sig, trunc)
    r = len(w) // 2
    p = np.pad(im, r, mode="edge")
    p = np.apply_along_axis(lambda q: np.convolve(q, w, mode="valid"), 0, p)
    return np.apply_along_axis(lambda q: np.convolve(q, w, mode="valid"), 1, p)


def run_gauss(case, mon, rng):
    ps = float(10 ** rng.uniform(-2, 0))
    m = int(rng.integers(1, 4))
    sig = rng.uniform(.3, 2.5, m) * ps
    fr = rng.uniform(.1, 2, m)
    tr = float(rng.choice([2, 3.5, 5]))
    s = int(rng.integers(1, 4))
    hi = bool(rng.integers(2)) and s > 1
    ny, nx = int(rng.integers(4, 12)), int(rng.integers(4, 12))
    o = MultiGaussianConvolution(list(sig), fr.copy(), ps, supersampling_factor=s, supersampling_convolution=hi, truncation=tr)
    ctx = dict(pixel=ps, sig=sig.tolist(), s=s, hi=hi, trunc=tr)
    f = fr / fr.sum()
    for tag, im in images(rng, ny * s, nx * s):
        sc = np.max(np.abs(im)) + 1e-12
        lo = block(im, s)
        if hi:
            w = block(sum(q * gauss_conv(im, g / ps * s, tr) for q, g in zip(f, sig)), s)
        else:
            w = sum(q * gauss_conv(lo, g / ps, tr) for q, g in zip(f, sig))
        mon.close("gauss/resize", o.re_size_convolve(lo, im), w, 1e-8, 1e-10 * sc, "Gaussian convolution", image=tag, **ctx)
        w = sum(q * gauss_conv(lo, g / ps * (s if hi else 1), tr) for q, g in zip(f, sig))
        mon.close("gauss/2d", o.convolution2d(lo), w, 1e-8, 1e-10 * sc, "Gaussian convolution", image=tag, **ctx)
    a, b = rng.normal(size=(2, ny, nx))
    mon.close("linear/gauss", o.convolution2d(2 * a - 3 * b), 2 * o.convolution2d(a) - 3 * o.convolution2d(b), 1e-9, 1e-10, "linearity")
    z = np.zeros((121, 121))
    z[60, 60] = 1.
    r = o.convolution2d(z)
    mon.close("gauss/flux", r.sum(), 1, 1e-9, 0, "flux", **ctx)
    y, x = np.mgrid[0:121, 0:121] - 60
    mon.close("gauss/centre", [(r * x).sum(), (r * y).sum()], [0, 0], 0, 1e-9, "centroid", **ctx)
    k = o.pixel_kernel(num_pix=int(rng.choice([3, 7, 21])))
    mon.close("gauss/kernel", [k.sum(), np.max(np.abs(k - k[::-1])), np.max(np.abs(k - k.T))], [1, 0, 0], 0, 1e-9, "pixel kernel normalised and symmetric")
    K = (len(k) - 1) // 2
    yy, xx = np.mgrid[-K:K + 1, -K:K + 1]
    w = sum(q / (2 * np.pi * g ** 2) * np.exp(-.5 * (xx ** 2 + yy ** 2) / g ** 2) for q, g in zip(f, sig / ps * (s if hi else 1)))
    mon.close("gauss/kernel_shape", k, w / w.sum(), 1e-8, 1e-12, "pixel kernel", **ctx)
    # single-Gaussian and MGE approximations of a kernel
    kn = smooth_kern(rng, 21)
    for o2 in (FWHMGaussianConvolution(kn, truncation=4), MGEConvolution(kn, pixel_scale=ps, order=int(rng.integers(1, 4)))):
        r = o2.convolution2d(z)
        nm = type(o2).__name__
        mon.close("gauss/approx/" + nm, [r.sum(), (r * x).sum(), (r * y).sum()], [1, 0, 0], 0, 1e-6, "approximation keeps flux and centre")
        mon.close("linear/" + nm, o2.convolution2d(2 * a - b), 2 * o2.convolution2d(a) - o2.convolution2d(b), 1e-9, 1e-10, "linearity")
    mon.nontrivial("gauss", m, s, hi, tr)


def centroid(k):
    n = len(k)
    y, x = np.mgrid[0:n, 0:n] - (n - 1) / 2
    return np.array([(k * x).sum(), (k * y).sum()]) / k.sum()


def run_psf(case, mon, rng):
    s0 = int(rng.choice([1, 1, 2, 3, 5]))
    n = int(rng.choice([5, 7, 9, 11, 15, 21])) if s0 > 1 else int(rng.choice([3, 5, 7, 9, 11]))
    if n <= s0:
        n = 2 * s0 + 1   # at least 3 pixels per axis
    even = rng.integers(5) == 0
    k = smooth_kern(rng, n + (1 if even else 0)) if even or rng.integers(2) else kern(rng, n, sym=bool(rng.integers(2)))
    norm = bool(rng.integers(3))
    k = k * float(rng.choice([1., 7.3, .2]))
    k_in = k.copy()
    ps = float(10 ** rng.uniform(-2, 0))
    var = k ** 2 * .01 if rng.integers(2) and s0 == 1 and not even else None
    mk = lambda: PSF(psf_type="PIXEL", kernel_point_source=k_in, point_source_supersampling_factor=s0, kernel_point_source_normalisation=norm, pixel_size=ps, psf_variance_map=None if var is None else var.copy())
    p = mk()
    tot = 1. if norm else k.sum()
    ctx = dict(n=len(k), s0=s0, norm=norm)

    def snap(o, s):
        return dict(ps=lambda: o.kernel_point_source, pix=lambda: o.kernel_pixel)[s]() if isinstance(s, str) else o.kernel_point_source_supersampled(s)
    kp = p.kernel_point_source
    mon.check("psf/odd", len(kp) % 2 == 1, "point source kernel must be odd", **ctx)
    mon.close("norm/point", kp.sum(), tot, 1e-9, 0, "flux of the point source kernel", **ctx)
    if not even:
        a, b = same_centre(kp, degrade(k * (tot / k.sum()), s0))
        mon.close("psf/degraded", a, b, 1e-9, 1e-12 * tot, "point source kernel is the PSF in pixels", **ctx)
    kx = p.kernel_pixel
    mon.close("norm/pixel", kx.sum(), tot, 1e-9, 0, "flux of the pixel kernel", **ctx)
    hist = []
    reqs = list(rng.integers(1, 6, 4)) + ["ps", "pix", int(s0)]
    rng.shuffle(reqs)
    reqs = [r if isinstance(r, str) and not str(r).isdigit() else int(r) for r in reqs]
    for r in reqs:
        got = np.array(snap(p, r))
        hist.append(r)
        want = np.array(snap(mk(), r))
        mon.close("history/%s" % ("sup" if not isinstance(r, str) else r), got, want, 1e-10, 1e-13, "kernel depends on what was asked before", history=hist, **ctx)
        mon.close("norm/history", got.sum(), tot, 1e-8, 0, "flux of a derived kernel", request=r, **ctx)
        mon.check("psf/odd", len(got) % 2 == 1, "derived kernel must be odd", request=r, **ctx)
        if not isinstance(r, str) and r % 2 == 1 and s0 == 1 and not even:
            mon.close("supersample/psf_block", block(got, r) * r * r, k / k.sum() * tot, 1e-7, 1e-9 * tot, "super-sampled kernel integrates to the kernel, pixel by pixel", s=r, **ctx)
        if not isinstance(r, str) and r == s0 and s0 > 1 and not even:
            mon.close("psf/original", got, k / k.sum() * tot, 1e-9, 0, "the super-sampled PSF given", **ctx)
        kk = p.kernel_point_source_supersampled(int(rng.integers(2, 6)), updata_cache=False)
    mon.check("psf/input", np.array_equal(k_in, k), "caller's kernel altered", **ctx)
    mon.check("psf/factor", p.point_source_supersampling_factor == s0, "factor of the given PSF")
    if var is not None:
        mon.close("psf/variance", p.psf_variance_map, var / (k.sum() ** 2 if norm else 1), 1e-9, 0, "variance map of the normalised PSF", **ctx)
    else:
        mon.close("psf/novariance", p.psf_variance_map, np.zeros_like(kp), 0, 0, "no variance map")
    # Gaussian: kernels of the current pixel size
    fw = float(ps * rng.uniform(1.5, 6))
    g = PSF(psf_type="GAUSSIAN", fwhm=fw, truncation=float(rng.choice([3., 5.])), pixel_size=ps)
    tr = g.truncation
    for step in range(4):
        if step:
            ps2 = float(ps * rng.uniform(.5, 2))
            g.set_pixel_size(ps2)
        else:
            ps2 = ps
        s = int(rng.integers(1, 4))
        for kk, d in ((g.kernel_point_source, ps2), (g.kernel_point_source_supersampled(s), ps2 / s)):
            c = (len(kk) - 1) // 2
            y, x = np.mgrid[-c:c + 1, -c:c + 1] * d
            w = np.exp(-(x ** 2 + y ** 2) * 4 * np.log(2) / fw ** 2)
            mon.close("psf/gaussian", kk, w / w.sum(), 1e-8, 1e-12, "Gaussian kernel of the current pixel size", step=step, s=s)
            mon.check("psf/gaussian_size", len(kk) % 2 == 1 and abs(c * d - tr * fw / 2.3548200450309493) <= .51 * d or c == 1 or len(kk) == 221, "kernel covers the truncation radius", size=len(kk), want=tr * fw / 2.35482 / d)
        mon.close("norm/gauss_pixel", g.kernel_pixel.sum(), 1, 1e-9, 0, "flux")
        mon.check("psf/gauss_pixel_size", g.kernel_pixel.shape == g.kernel_point_source.shape, "pixel kernel of the current pixel size")
        mon.close("psf/fwhm", g.fwhm, fw, 1e-12, 0, "fwhm")
    nn = PSF()
    w = np.zeros((3, 3))
    w[1, 1] = 1
    mon.close("psf/none", nn.kernel_point_source, w, 0, 0, "no PSF")
    mon.close("psf/none_sup", nn.kernel_point_source_supersampled(3).sum(), 1, 0, 0, "no PSF")
    mon.nontrivial("psf", len(k), s0, norm, str(hist))


def run_kernel(case, mon, rng):
    n = int(rng.choice([3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25, 27]))
    s = int(rng.integers(1, 7))
    k = kern(rng, n) * float(rng.choice([1., 4.]))
    k0 = k.copy()
    d = ku.degrade_kernel(k, s)
    ctx = dict(n=n, s=s)
    mon.check("degrade/odd", len(d) % 2 == 1, "odd", got=len(d), **ctx)
    a, b = same_centre(np.array(d), degrade(k0, s))
    mon.close("degrade/value", a, b, 1e-9, 1e-12, "degraded kernel: flux per coarse pixel about the same centre", **ctx)
    mon.close("norm/degrade", np.sum(d), k0.sum(), 1e-9, 0, "flux of the degraded kernel", **ctx)
    if s % 2 == 0:
        a, b = same_centre(ku.averaging_even_kernel(k.copy(), s) * s * s, degrade(k0, s))
        mon.close("degrade/even", a, b, 1e-9, 1e-12, "averaging_even_kernel", **ctx)
    # supersampling
    kk = smooth_kern(rng, int(rng.choice([5, 7, 9, 11])))
    kk = (kk + kk[::-1] + kk[:, ::-1] + kk[::-1, ::-1]) / 4 if rng.integers(2) else kk
    if rng.integers(2):
        kk = kk / kk.sum() * 1.
    kin = kk.copy()
    sub = ku.subgrid_kernel(kk, s, odd=True, num_iter=int(rng.choice([1, 5, 20])))
    mon.check("supersample/input", np.array_equal(kk, kin), "caller's kernel altered", **ctx)
    mon.close("norm/sub", sub.sum(), kin.sum(), 1e-8, 0, "flux of the super-sampled kernel", **ctx)
    N = len(kin) * s
    mon.check("supersample/size", sub.shape == (N - (N % 2 == 0), N - (N % 2 == 0)), "size", got=sub.shape, **ctx)
    if s % 2:
        mon.close("supersample/block", block(sub, s) * s * s, kin, 1e-8, 1e-10, "block sums of the super-sampled kernel", **ctx)
    if np.allclose(kin, kin[::-1, ::-1], rtol=1e-12):
        mon.close("supersample/centre", centroid(sub), [0, 0], 0, 1e-8, "centroid", **ctx)
    else:
        mon.close("supersample/centre2", centroid(sub) / s, centroid(kin), 0, .05, "centroid", **ctx)
    mon.close("supersample/transpose", ku.subgrid_kernel(kin.T.copy(), s, odd=True, num_iter=5), ku.subgrid_kernel(kin.copy(), s, odd=True, num_iter=5).T, 1e-8, 1e-11, "orientation", **ctx)
    # pixel-averaged kernel
    q = ku.kernel_average_pixel(k.copy(), s)
    mon.close("norm/average", q.sum(), k0.sum(), 1e-8, 0, "flux of the pixel-averaged kernel", **ctx)
    ks = k0 + k0[::-1] + k0[:, ::-1] + k0[::-1, ::-1]
    q = ku.kernel_average_pixel(ks.copy(), s)
    mon.close("supersample/average_centre", centroid(q), [0, 0], 0, 1e-8, "centroid of the pixel-averaged kernel", **ctx)
    mon.check("degrade/average_odd", len(q) % 2 == 1, "odd")
    # cut, match
    m = int(rng.choice([i for i in range(1, n + 1, 2)]))
    o = (n - m) // 2
    w = k0[o:n - o, o:n - o]
    mon.close("cut/psf", ku.cut_psf(k, m), w / w.sum(), 1e-10, 0, "cut and normalised", **ctx)
    mon.close("cut/raw", ku.cut_psf(k, m, normalisation=False), w, 0, 0, "cut", **ctx)
    mon.check("cut/input", np.array_equal(k, k0), "caller's kernel altered", m=m, **ctx)
    mon.close("cut/match_small", ku.match_kernel_size(k.copy(), m), w, 0, 0, "match to smaller size", m=m, **ctx)
    e = np.zeros((n + 4, n + 4))
    e[2:-2, 2:-2] = k0
    mon.close("cut/match_large", ku.match_kernel_size(k.copy(), n + 4), e, 0, 0, "match to larger size", **ctx)
    kk = k.copy()
    mon.close("norm/kernel", ku.kernel_norm(kk), k0 / k0.sum(), 1e-12, 0, "normalised")
    mon.check("norm/input", np.array_equal(kk, k0), "caller's kernel altered by normalising")
    # odd from even: centred and symmetric for symmetric kernels
    ev = smooth_kern(rng, int(rng.choice([6, 8, 12])), sc=.6)
    ev = ev + ev[::-1, ::-1]
    ev /= ev.sum()
    od = ku.kernel_make_odd(ev.copy())
    mon.check("supersample/make_odd", od.shape == (len(ev) + 1,) * 2, "odd size")
    mon.close("supersample/make_odd_centre", centroid(od), [0, 0], 0, 1e-6, "centred")
    mon.close("supersample/make_odd_flux", od.sum(), 1., .02, 0, "flux")
    # pixel scale change: identity, and flux
    kk = smooth_kern(rng, 11)
    mon.close("supersample/same_scale", ku.kernel_pixelsize_change(kk.copy(), .1, .1), kk, 1e-8, 1e-12, "unchanged scale")
    g = ku.kernel_pixelsize_change(kk.copy(), .1, float(rng.uniform(.04, .2)))
    mon.close("norm/scale", g.sum(), 1, 1e-9, 0, "flux after scale change")
    mon.check("supersample/scale_odd", len(g) % 2 == 1, "odd")
    # analytic kernels
    N, dp, fw = int(rng.choice([5, 9, 15])), float(10 ** rng.uniform(-1, 0)), None
    fw = dp * U(rng, 1.5, 5)
    c = (N - 1) // 2
    y, x = np.mgrid[-c:c + 1, -c:c + 1] * dp
    r2 = x ** 2 + y ** 2
    w = np.exp(-r2 * 4 * np.log(2) / fw ** 2)
    mon.close("psf/kernel_gaussian", ku.kernel_gaussian(N, dp, fw), w / w.sum(), 1e-9, 1e-14, "gaussian kernel")
    be = float(U(rng, 1.5, 5))
    al = fw / 2 / np.sqrt(2 ** (1 / be) - 1)
    w = (1 + r2 / al ** 2) ** (-be)
    mon.close("psf/kernel_moffat", ku.kernel_moffat(N, dp, fw, be), w / w.sum(), 1e-8, 1e-14, "moffat kernel")
    mon.nontrivial("kernel", n, s, m)


def run_shift(case, mon, rng):
    """placing kernels on images: linear sub-pixel shift, cut at the edges."""
    ny, nx = int(rng.integers(5, 14)), int(rng.integers(5, 14))
    n = int(rng.choice([1, 3, 5, 7]))
    m = int(rng.choice([1, 3, 5, 7]))
    k = kern(rng, n, n2=m)
    img = rng.normal(size=(ny, nx))
    i0 = img.copy()
    for t in range(12):
        x, y = rng.uniform(-4, nx + 4), rng.uniform(-4, ny + 4)
        if t % 3 == 0:
            x, y = float(round(x)), float(round(y))
        # reference: bilinear shift of the kernel within its own frame, then addition
        xi, yi = int(round(x)), int(round(y))
        fx, fy = x - xi, y - yi
        K = np.zeros((n + 2, m + 2))
        K[1:-1, 1:-1] = k
        S = np.zeros_like(K)
        for (dy, wy) in ((0, 1 - abs(fy)), (int(np.sign(fy)), abs(fy))):
            for (dx, wx) in ((0, 1 - abs(fx)), (int(np.sign(fx)), abs(fx))):
                S += wy * wx * np.roll(np.roll(K, dy, axis=0), dx, axis=1)
        S = S[1:-1, 1:-1]
        want = img.copy()
        for i in range(n):
            for j in range(m):
                a, b = yi + i - (n - 1) // 2, xi + j - (m - 1) // 2
                if 0 <= a < ny and 0 <= b < nx:
                    want[a, b] += S[i, j]
        got = image_util.add_layer2image(img, x, y, k)
        # scipy's shift drops the pixels whose source lies outside the kernel frame; compare on the interior of the kernel
        W = np.zeros((ny, nx), dtype=bool)
        for i in range(1 if fy else 0, n - (1 if fy else 0)):
            for j in range(1 if fx else 0, m - (1 if fx else 0)):
                a, b = yi + i - (n - 1) // 2, xi + j - (m - 1) // 2
                if 0 <= a < ny and 0 <= b < nx:
                    W[a, b] = True
        mon.close("shift/layer", np.asarray(got)[W], want[W], 1e-9, 1e-10, "kernel placed at a sub-pixel position", x=x, y=y, kernel=k.shape, shape=(ny, nx))
        out = np.ones((ny, nx), dtype=bool)
        for i in range(n):
            for j in range(m):
                a, b = yi + i - (n - 1) // 2, xi + j - (m - 1) // 2
                if 0 <= a < ny and 0 <= b < nx:
                    out[a, b] = False
        mon.close("shift/elsewhere", np.asarray(got)[out], img[out], 0, 0, "pixels outside the kernel changed", x=x, y=y)
        if not fx and not fy:
            mon.close("shift/int", image_util.add_layer2image_int(img, xi, yi, k), want, 1e-12, 1e-13, "integer position", x=x, y=y)
        mon.check("shift/input", np.array_equal(img, i0), "image altered")
    # de-shifting recentres: a kernel with wide zero margins shifted by a sub-pixel amount
    kk = np.zeros((13, 13))
    kk[4:9, 4:9] = smooth_kern(rng, 5)
    sx, sy = rng.uniform(-.45, .45, 2)
    sh = image_util.add_layer2image(np.zeros((13, 13)), 6 + sx, 6 + sy, kk)
    de = ku.de_shift_kernel(sh.copy(), -sx, -sy, iterations=40)
    mon.close("shift/deshift_centre", centroid(de), centroid(kk), 0, 2e-2, "centroid after de-shifting", sx=sx, sy=sy)
    mon.close("shift/deshift_flux", de.sum(), sh.sum(), 2e-2, 0, "flux after de-shifting")
    kc = ku.center_kernel(sh.copy(), iterations=40)
    mon.close("shift/centred", centroid(kc), [0, 0], 0, 3e-2, "centroid after centring", sx=sx, sy=sy)
    mon.close("norm/centred", kc.sum(), 1, 1e-9, 0, "flux")
    # cut-out of a source
    big = rng.normal(size=(15, 15))
    px, py = int(rng.integers(-1, 16)), int(rng.integers(-1, 16))
    ks = int(rng.choice([3, 5, 7]))
    if 0 <= px < 15 and 0 <= py < 15:
        cut = ku.cutout_source(px, py, big, ks, shift=False)
        P = np.pad(big, 10)
        h = (ks - 1) // 2
        mon.close("cut/source", cut, P[py + 10 - h:py + 10 + h + 1, px + 10 - h:px + 10 + h + 1], 0, 0, "cut-out of a source", x=px, y=py, size=ks)
    mon.nontrivial("shift", ny, nx, n, m)

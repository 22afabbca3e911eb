"""C14: PSF handling and resampling conserve flux and alignment; convolutions are direct discrete convolutions."""
import numpy as np
from fractions import Fraction
from lv.world import contract
from contracts.common import swap
from contracts.imsim import image

KU = "Util/kernel_util.py::"
IU = "Util/image_util.py::"
CV = "ImSim/Numerics/convolution.py::"
NC = "ImSim/Numerics/numba_convolution.py::"
PS = "Data/psf.py::PSF."
BND = "kernels and images of the listed sizes (unrolled); all values"


def kern(W, n, name="k", m=None, smp=(0.02, 1.0)):
    """a kernel of positive elements"""
    return image(W, name, n, 0, None, smp, m=m)


def copy(W, a):
    return W.mat([list(r) for r in a])


def tot(a):
    return sum(v for r in a for v in r)


def same_input(W, a, b, what="kernel"):
    W.eq("the %s passed in is not modified" % what, a, b)


def direct(img, k):
    """zero-padded discrete convolution, the middle pixel of k at the origin"""
    (n, m), (p, q) = np.shape(img), np.shape(k)
    out = [[0] * m for _ in range(n)]
    for i in range(n):
        for j in range(m):
            for a in range(n):
                for b in range(m):
                    u, v = i - a + p // 2, j - b + q // 2
                    if 0 <= u < p and 0 <= v < q:
                        out[i][j] = out[i][j] + img[a][b] * k[u][v]
    return out


def shrink(img, f):
    """mean of f x f blocks"""
    n, m = len(img) // f, len(img[0]) // f
    return [[sum(img[i * f + a][j * f + b] for a in range(f) for b in range(f)) / (f * f) for j in range(m)] for i in range(n)]


def overlap(d, i, f):
    """fraction of the fine pixel at offset d that lies on the coarse pixel at offset i (f fine pixels wide)"""
    lo, hi = max(Fraction(2 * d - 1, 2), Fraction(f * (2 * i - 1), 2)), min(Fraction(2 * d + 1, 2), Fraction(f * (2 * i + 1), 2))
    return max(hi - lo, Fraction(0))


def degraded(W, k, f, n_low):
    """centred kernel on coarse pixels: every fine pixel is shared by area"""
    n = len(k)
    c, cl = n // 2, n_low // 2
    ov = [[overlap(d - c, i - cl, f) for d in range(n)] for i in range(n_low)]
    q = lambda v: W.const(v.numerator) / v.denominator
    return [[sum(k[a][b] * q(ov[i][a] * ov[j][b]) for a in range(n) for b in range(n) if ov[i][a] * ov[j][b] != 0) for j in range(n_low)] for i in range(n_low)]


def eqm(W, label, a, b, **kw):
    W.same(label + ": size", tuple(np.shape(a)), tuple(np.shape(b)))
    for i in range(len(b)):
        for j in range(len(b[0])):
            W.eq(label, a[i][j], b[i][j], **kw)


# ------------------------------------------------------------------ kernels
@contract("C14", "kernel_norm", [KU + "kernel_norm"], samples=8, bounded=BND)
def _norm(W):
    from lenstronomy.Util import kernel_util

    n, m = W.choice("size", [(1, 1), (3, 3), (2, 4)])
    k = kern(W, n, m=m)
    k0 = copy(W, k)
    eqm(W, "normalised kernel", kernel_util.kernel_norm(k), [[v / tot(k0) for v in r] for r in k0])
    same_input(W, k, k0)


@contract("C14", "cut", [KU + "cut_psf", IU + "cut_edges"], samples=8, bounded=BND)
def _cut(W):
    from lenstronomy.Util import kernel_util, image_util

    n, m, p = W.choice("size", [(5, 5, 3), (5, 3, 1), (4, 4, 2), (2, 4, 2), (3, 3, 3), (6, 4, 2)])
    k = kern(W, n, m=m)
    k0 = copy(W, k)
    ref = [[k0[i][j] for j in range((m - p) // 2, (m + p) // 2)] for i in range((n - p) // 2, (n + p) // 2)]
    c = image_util.cut_edges(k, p)
    eqm(W, "central part", c, ref)
    eqm(W, "cut PSF without normalisation", kernel_util.cut_psf(k, p, normalisation=False), ref)
    eqm(W, "cut PSF", kernel_util.cut_psf(k, p), [[v / tot(ref) for v in r] for r in ref])
    c *= 0
    same_input(W, k, k0)
    W.raises("larger than the image", lambda: image_util.cut_edges(k, max(n, m) + 1), ValueError)
    W.raises("odd from even", lambda: image_util.cut_edges(np.ones((4, 4)), 3), ValueError)
    W.raises("mixed axes", lambda: image_util.cut_edges(np.ones((4, 5)), 3), ValueError)


@contract("C14", "degrade_kernel", [KU + "degrade_kernel", KU + "averaging_odd_kernel", KU + "averaging_even_kernel", "Util/util.py::averaging"], samples=4, bounded=BND, timeout=100)
def _deg(W):
    from lenstronomy.Util import kernel_util

    n, f = W.choice("size, factor", [(1, 2), (3, 2), (5, 2), (7, 2), (3, 3), (5, 3), (7, 3), (1, 3), (5, 4), (3, 4), (7, 5), (5, 1)])
    k = kern(W, n)
    k0 = copy(W, k)
    low = kernel_util.degrade_kernel(k, f)
    W.same("odd size", len(low) % 2, 1)
    eqm(W, "each fine pixel is shared by area between the coarse pixels", low, degraded(W, k0, f, len(low)))
    W.eq("total flux", tot(low), tot(k0))
    same_input(W, k, k0)


@contract("C14", "degrade_kernel.sizes", [KU + "degrade_kernel", KU + "averaging_odd_kernel", KU + "averaging_even_kernel", KU + "kernel_average_pixel"], samples=1, sym=False, bounded="kernels of up to 41 pixels, factors up to 9")
def _degs(W):
    from lenstronomy.Util import kernel_util

    rng = np.random.default_rng(int(W.real("seed", 0, None, (1, 1e6))))
    for n in range(1, 43, 2):
        for f in range(2, 10):
            k = rng.uniform(0.1, 1, (n, n))
            low = kernel_util.degrade_kernel(k.copy(), f)
            W.true("flux of %d/%d" % (n, f), abs(low.sum() - k.sum()) < 1e-9 * k.sum())
            m = len(low)
            W.true("centre of %d/%d" % (n, f), m % 2 == 1 and m * f >= n - 1)
            cx = lambda q: ((np.arange(len(q)) - len(q) // 2) * q.sum(axis=0)).sum() / q.sum()
            d = np.zeros((n, n))
            d[n // 2, n // 2] = 1
            W.true("central pixel of %d/%d" % (n, f), abs(kernel_util.degrade_kernel(d, f)[m // 2, m // 2] - 1) < 1e-9)
            s = k + k[::-1, ::-1]
            W.true("alignment of %d/%d" % (n, f), abs(cx(kernel_util.degrade_kernel(s, f))) < 1e-9)


@contract("C14", "kernel_average_pixel", [KU + "kernel_average_pixel"], samples=4, bounded=BND)
def _avp(W):
    from lenstronomy.Util import kernel_util

    n, f = W.choice("size, factor", [(3, 3), (5, 3), (3, 1), (3, 2)])
    k = kern(W, n)
    k0 = copy(W, k)
    a = kernel_util.kernel_average_pixel(k, f)
    W.eq("total flux", tot(a), tot(k0))
    if f % 2:
        b = kernel_util.kernel_average_pixel(W.mat([list(r)[::-1] for r in list(k0)[::-1]]), f)
        eqm(W, "no shift", b, [list(r)[::-1] for r in list(a)[::-1]])
        m = len(a)
        # the kernel seen through a pixel: blurred over the f x f sub-pixels, then summed on pixels
        c, cm = n // 2, m // 2
        def cell(i, j):
            s = 0
            for p in range(n):
                for q in range(n):
                    for u in range(f):
                        for v in range(f):
                            if (cm * f + f // 2 + p - c + u - f // 2) // f == i and (cm * f + f // 2 + q - c + v - f // 2) // f == j:
                                s = s + k0[p][q]
            return s / f ** 2
        raw = [[cell(i, j) for j in range(m)] for i in range(m)]
        eqm(W, "kernel averaged over the pixel", a, [[v * tot(k0) / tot(raw) for v in r] for r in raw])
    same_input(W, k, k0)


@contract("C14", "split_kernel", [KU + "split_kernel"], samples=4, bounded=BND)
def _split(W):
    from lenstronomy.Util import kernel_util

    n, s, f = W.choice("size, cut, factor", [(7, 1, 3), (9, 1, 3), (5, 3, 3), (7, 1, 2), (5, 1, 2)])
    k = kern(W, n)
    k0 = copy(W, k)
    hole, cut = kernel_util.split_kernel(k, s, f)
    p = min(n, s * f + (s * f + 1) % 2)
    o = (n - p) // 2
    eqm(W, "high resolution core", cut, [[k0[i][j] for j in range(o, o + p)] for i in range(o, o + p)])
    W.eq("no flux is lost", tot(hole) + tot(cut), tot(k0))
    rest = [[0 if o <= i < o + p and o <= j < o + p else k0[i][j] for j in range(n)] for i in range(n)]
    eqm(W, "low resolution rest", hole, degraded(W, rest, f, len(hole)))
    same_input(W, k, k0)
    W.raises("factor 1", lambda: kernel_util.split_kernel(k, 1, 1), ValueError)
    W.raises("even size", lambda: kernel_util.split_kernel(k, 2, 3), ValueError)


@contract("C14", "subgrid_kernel", [KU + "subgrid_kernel", IU + "re_size_array"], samples=4, bounded=BND, timeout=100, assumes=["RectBivariateSpline(kx=ky=1) is clamped linear interpolation"])
def _sub(W):
    from lenstronomy.Util import kernel_util

    n, f, odd = W.choice("size, factor", [(3, 3, True), (3, 3, False), (3, 2, True), (3, 2, False), (3, 1, True)])
    k = kern(W, n)
    k0 = copy(W, k)
    s = kernel_util.subgrid_kernel(k, f, odd=odd, num_iter=1)
    W.eq("total flux", tot(s), tot(k0))
    same_input(W, k, k0)
    m = n * f - (1 if odd and n * f % 2 == 0 else 0)
    W.shape("size", s, (m, m))
    if f % 2:
        eqm(W, "summed on the original pixels it is the original kernel", [[v * f ** 2 for v in r] for r in shrink([list(r) for r in s], f)], k0)
    t = kernel_util.subgrid_kernel(W.mat([list(r)[::-1] for r in list(k0)[::-1]]), f, odd=odd, num_iter=1)
    eqm(W, "no shift", t, [list(r)[::-1] for r in list(s)[::-1]])
    u = kernel_util.subgrid_kernel(W.mat([[k0[j][i] for j in range(n)] for i in range(n)]), f, odd=odd, num_iter=1)
    eqm(W, "no transposition", u, [[s[j][i] for j in range(m)] for i in range(m)])


@contract("C14", "kernel_pixelsize_change", [KU + "kernel_pixelsize_change", IU + "re_size_array"], samples=6, bounded=BND, assumes=["RectBivariateSpline(kx=ky=1) is clamped linear interpolation"])
def _pix(W):
    from lenstronomy.Util import kernel_util

    n, di, do, m = W.choice("sizes", [(3, 1.0, 0.5, 5), (5, 1.0, 2.0, 1), (5, 0.5, 1.0, 1), (5, 1.0, 1.5, 3), (3, 1.0, 1.0, 3), (7, 0.5, 1.0, 3)])
    k = kern(W, n)
    k0 = copy(W, k)
    s = kernel_util.kernel_pixelsize_change(k, di, do)
    W.shape("size", s, (m, m))
    W.eq("total flux", tot(s), 1)
    same_input(W, k, k0)
    r = Fraction(do) / Fraction(di)
    vals = []
    for i in range(m):
        row = []
        for j in range(m):
            v = 0
            for a in range(n):
                for b in range(n):
                    w = max(0, 1 - abs((i - m // 2) * r - (a - n // 2))) * max(0, 1 - abs((j - m // 2) * r - (b - n // 2)))
                    if w:
                        v = v + k0[a][b] * (W.const(Fraction(w).numerator) / Fraction(w).denominator)
            row.append(v)
        vals.append(row)
    eqm(W, "centred interpolation", s, [[v / tot(vals) for v in q] for q in vals])


@contract("C14", "pixel_kernel", [KU + "pixel_kernel"], samples=4, bounded=BND, timeout=100)
def _pk(W):
    from lenstronomy.Util import kernel_util

    n, f = W.choice("size, factor", [(3, 1), (3, 3), (5, 1)])
    k = kern(W, n)
    k0 = copy(W, k)
    a = kernel_util.pixel_kernel(k, subgrid_res=f)
    W.eq("unit flux", tot(a), 1)
    if f == 1:
        eqm(W, "point source kernel for one sub-pixel", a, [[v / tot(k0) for v in r] for r in k0])
    else:
        b = kernel_util.pixel_kernel(W.mat([list(r)[::-1] for r in list(k0)[::-1]]), subgrid_res=f)
        eqm(W, "no shift", b, [list(r)[::-1] for r in list(a)[::-1]])
    same_input(W, k, k0)


@contract("C14", "match_kernel_size", [KU + "match_kernel_size"], samples=4, bounded=BND)
def _match(W):
    from lenstronomy.Util import kernel_util

    n, m = W.choice("sizes", [(3, 5), (5, 3), (3, 3), (1, 5), (5, 1), (2, 4)])
    k = kern(W, n)
    k0 = copy(W, k)
    a = kernel_util.match_kernel_size(k, m)
    d = (m - n) // 2
    eqm(W, "same centre, zero outside", a, [[k0[i - d][j - d] if 0 <= i - d < n and 0 <= j - d < n else 0 for j in range(m)] for i in range(m)])
    same_input(W, k, k0)


@contract("C14", "gaussian and moffat kernels", [KU + "kernel_gaussian", KU + "kernel_gaussian_grid", KU + "kernel_moffat", KU + "kernel_moffat_grid", "Util/util.py::fwhm2sigma", "Util/util.py::sigma2fwhm", "GalKin/velocity_util.py::moffat_fwhm_alpha"], samples=8, bounded=BND)
def _gk(W):
    from lenstronomy.Util import kernel_util, util

    n = W.choice("size", [3, 4])
    d, fw, beta = W.real("delta_pix", 0, None, (0.3, 1)), W.real("fwhm", 0, None, (0.5, 2)), W.real("beta", 1, None, (1.5, 4))
    W.eq("fwhm and sigma", util.sigma2fwhm(util.fwhm2sigma(fw)), fw)
    W.eq("half maximum at half the fwhm", W.exp(-(fw / 2) ** 2 / (2 * util.fwhm2sigma(fw) ** 2)), 0.5)
    r2 = [[(d * (j - (n - 1) / 2)) ** 2 + (d * (i - (n - 1) / 2)) ** 2 for j in range(n)] for i in range(n)]
    for name, k, prof in (("Gaussian", kernel_util.kernel_gaussian(n, d, fw), lambda q: W.exp(-q * 4 * W.log(W.const(2.0)) / fw ** 2)),
                          ("Moffat", kernel_util.kernel_moffat(n, d, fw, beta), lambda q: (1 + q * 4 * (W.const(2.0) ** (1 / beta) - 1) / fw ** 2) ** (-beta))):
        ref = [[prof(v) for v in r] for r in r2]
        if name == "Gaussian":
            eqm(W, name + " kernel", k, [[v / tot(ref) for v in r] for r in ref])
        else:
            W.eq(name + " flux", tot(k), 1)
            eqm(W, name + " kernel", [[v * ref[0][0] for v in r] for r in k], [[v * k[0][0] for v in r] for r in ref])


@contract("C14", "de_shift_kernel", [KU + "de_shift_kernel", KU + "center_kernel"], samples=6, bounded=BND, timeout=100)
def _ds(W):
    from lenstronomy.Util import kernel_util

    k = kern(W, 3)
    k0 = copy(W, k)
    it = W.choice("iterations", [1, 3])
    eqm(W, "no shift", kernel_util.de_shift_kernel(k, 0, 0, iterations=it), k0)
    z = np.zeros((5, 5))
    big = W.mat([[k0[i - 1][j - 1] if 0 < i < 4 and 0 < j < 4 else z[i, j] for j in range(5)] for i in range(5)])
    dx, dy = W.choice("shift", [(1, 0), (0, -1), (-1, 1)])
    eqm(W, "whole-pixel shift", kernel_util.de_shift_kernel(big, dx, dy, iterations=it), [[big[i - dy][j - dx] if 0 <= i - dy < 5 and 0 <= j - dx < 5 else 0 for j in range(5)] for i in range(5)])
    same_input(W, k, k0)
    s = W.mat([[k0[i][j] + k0[2 - i][2 - j] for j in range(3)] for i in range(3)])
    eqm(W, "a centred kernel stays", kernel_util.center_kernel(s, iterations=it), [[v / tot(s) for v in r] for r in s])


@contract("C14", "centering", [KU + "center_kernel", KU + "de_shift_kernel"], samples=6, sym=False, bounded="sampled Gaussian kernels with sub-pixel offsets")
def _ce(W):
    from lenstronomy.Util import kernel_util

    dx, dy = W.real("dx", None, None, (-0.4, 0.4)), W.real("dy", None, None, (-0.4, 0.4))
    y, x = np.mgrid[-7:8, -7:8]
    k = np.exp(-((x - dx) ** 2 + (y - dy) ** 2) / 2 / 1.5 ** 2)
    c = kernel_util.center_kernel(k, iterations=20)
    W.eq("unit flux", c.sum(), 1)
    W.eq("centred in x", (c * x).sum(), 0, atol=1e-3)
    W.eq("centred in y", (c * y).sum(), 0, atol=1e-3)
    n = W.choice("iterations", [1, 3])
    u = kernel_util.kernel_norm(k)
    want = kernel_util.kernel_norm(kernel_util.de_shift_kernel(u, -(u * x).sum(), -(u * y).sum(), iterations=n))
    W.eq("as many iterations as requested", np.ravel(kernel_util.center_kernel(k, iterations=n)), np.ravel(want))
    img = np.zeros((21, 25))
    img[3:18, 5:20] = k
    cut = kernel_util.cutout_source(12 + dx, 10 + dy, img[:, :21], 9, shift=True)
    W.eq("a cut-out star is centred in x", (cut * x[3:-3, 3:-3]).sum() / cut.sum(), 0, atol=0.12)
    W.eq("a cut-out star is centred in y", (cut * y[3:-3, 3:-3]).sum() / cut.sum(), 0, atol=0.12)


@contract("C14", "cutout_source", [KU + "cutout_source"], samples=8, bounded=BND)
def _co(W):
    from lenstronomy.Util import kernel_util

    ny, nx = W.choice("shape", [(4, 4), (3, 5), (5, 3)])
    im = image(W, "im", ny, m=nx)
    im0 = copy(W, im)
    x, y = W.choice("position", [(1, 2), (0, 0), (nx - 1, 1), (2, ny - 1), (1.25, 1.75), (nx - 1, ny - 1)])
    s = W.choice("size", [1, 3, 5])
    c = kernel_util.cutout_source(x, y, im, s, shift=False)
    xi, yi, d = int(round(x)), int(round(y)), s // 2
    at = lambda i, j: im0[i][j] if 0 <= i < ny and 0 <= j < nx else 0
    eqm(W, "pixels around the source, zero outside the image", c, [[at(yi - d + i, xi - d + j) for j in range(s)] for i in range(s)])
    same_input(W, im, im0, "image")
    W.raises("even size", lambda: kernel_util.cutout_source(1, 1, im, 2), ValueError)


@contract("C14", "kernel_make_odd", [KU + "kernel_make_odd"], samples=6, sym=False, bounded="sampled kernels (spline interpolation of scipy)")
def _mo(W):
    from lenstronomy.Util import kernel_util

    k = np.array([[W.real("k%d%d" % (i, j), 0, None, (0.01, 1)) for j in range(6)] for i in range(6)])
    pad = np.zeros((14, 14))
    pad[4:-4, 4:-4] = k
    o = kernel_util.kernel_make_odd(pad)
    W.same("size", o.shape, (15, 15))
    W.eq("flux", o.sum(), k.sum(), rtol=1e-3)
    y, x = np.mgrid[:15, :15]
    v, u = np.mgrid[:14, :14]
    W.eq("centroid x", (x * o).sum() / o.sum() - 7, (u * pad).sum() / pad.sum() - 6.5, atol=1e-2)
    W.eq("centroid y", (y * o).sum() / o.sum() - 7, (v * pad).sum() / pad.sum() - 6.5, atol=1e-2)
    W.eq("linear", kernel_util.kernel_make_odd(2 * k + k.T), 2 * kernel_util.kernel_make_odd(k) + kernel_util.kernel_make_odd(k).T)
    W.eq("odd kernels stay", kernel_util.kernel_make_odd(k[:5, :5]), k[:5, :5])


# ------------------------------------------------------------------ images
@contract("C14", "re_size", [IU + "re_size", "Util/util.py::averaging"], samples=6, bounded=BND)
def _rs(W):
    from lenstronomy.Util import image_util, util

    n, m, f = W.choice("size", [(4, 4, 2), (2, 4, 2), (3, 6, 3), (4, 4, 1), (4, 4, 4), (6, 3, 3)])
    im = image(W, "im", n, m=m)
    im0 = copy(W, im)
    eqm(W, "mean of the pixels", image_util.re_size(im, f), shrink([list(r) for r in im0], f))
    if n == m:
        eqm(W, "averaging", util.averaging(im, num_grid=n, num_pix=n // f), shrink([list(r) for r in im0], f))
    same_input(W, im, im0, "image")
    W.raises("enlarging", lambda: image_util.re_size(im, 0.5), ValueError)
    W.raises("not divisible", lambda: image_util.re_size(np.ones((5, 4)), 2), ValueError)


@contract("C14", "rebin_image", [IU + "rebin_image"], samples=4, bounded=BND)
def _rb(W):
    from lenstronomy.Util import image_util

    n, b = W.choice("size, bin", [(4, 2), (5, 2), (5, 3), (7, 4), (6, 2)])
    im = image(W, "im", n)
    im0 = copy(W, im)
    w, x, y = np.arange(1.0, n * n + 1).reshape(n, n), np.arange(n * n).reshape(n, n) * 0.5, np.arange(n * n).reshape(n, n) * 2.0
    mk = np.zeros((n, n))
    mk[1, 0] = 1
    o = image_util.rebin_image(b, im, w, W.real("sig", 0, None, (0.1, 1)), x, y, mk)
    p = n // b
    blk = [[sum(im0[i * b + u][j * b + v] for u in range(b) for v in range(b)) for j in range(p)] for i in range(p)]
    eqm(W, "flux of the binned pixels", o[0], blk)
    W.eq("noise", o[2], b * W.real("sig", 0, None, (0.1, 1)))
    for q, a in ((1, w), (3, x), (4, y)):
        eqm(W, "mean weights and coordinates", o[q], shrink(a.tolist(), b))
    W.same("mask", [[float(v) for v in r] for r in o[5]], [[1.0 if i == 0 and j == 0 else 0.0 for j in range(p)] for i in range(p)])
    same_input(W, im, im0, "image")


@contract("C14", "stack_images", [IU + "stack_images"], samples=6, bounded=BND)
def _st(W):
    from lenstronomy.Util import image_util

    ims, ws = [image(W, "im%d" % q, 1, m=3) for q in range(2)], [image(W, "w%d" % q, 1, 0, None, (0.2, 2), m=3) for q in range(2)]
    sg = [W.real("s%d" % q, 0, None, (0.1, 1)) for q in range(2)]
    keep = [copy(W, q) for q in ims + ws]
    with swap(W):
        im, w, s = image_util.stack_images(ims, ws, sg) if not W.sym else _stack_sym(W, image_util, ims, ws, sg)
    for j in range(3):
        W.eq("weighted mean", im[0, j], (keep[0][0, j] * keep[2][0, j] + keep[1][0, j] * keep[3][0, j]) / (keep[2][0, j] + keep[3][0, j]))
        W.eq("mean weight", w[0, j], (keep[2][0, j] + keep[3][0, j]) / 2)
    if W.sym:
        W.eq("noise of the stack", s ** 2, sg[0] ** 2 + sg[1] ** 2)
    else:
        W.eq("noise of the stack", s ** 2, sum(sg[q] ** 2 * np.median(keep[2 + q]) for q in (0, 1)) / np.median(keep[2] + keep[3]))
    for a, b in zip(ims + ws, keep):
        same_input(W, a, b, "image or weight map")


def _stack_sym(W, iu, ims, ws, sg):
    """the noise estimate uses medians, left out of the symbolic run"""
    old = iu.np.median
    iu.np.median = lambda a: 1.0
    try:
        return iu.stack_images(ims, ws, sg)
    finally:
        iu.np.median = old


@contract("C14", "add_layer2image_int", [IU + "add_layer2image_int"], samples=6, bounded=BND, max_paths=400)
def _al(W):
    from lenstronomy.Util import image_util

    n, m = 3, 4
    im, k = image(W, "im", n, m=m), None
    p, q = W.choice("kernel", [(3, 3), (1, 3), (5, 1)])
    k = kern(W, p, m=q)
    im0, k0 = copy(W, im), copy(W, k)
    for x in range(-3, 7):
        for y in (-4, -2, -1, 0, 1, 2, 4, 5):
            o = image_util.add_layer2image_int(im, x, y, k)
            for i in range(n):
                for j in range(m):
                    u, v = i - y + p // 2, j - x + q // 2
                    W.eq("kernel added at its place, cut at the edges", o[i, j], im0[i, j] + (k0[u, v] if 0 <= u < p and 0 <= v < q else 0))
    same_input(W, im, im0, "image")
    same_input(W, k, k0)
    W.raises("even kernel", lambda: image_util.add_layer2image_int(im, 1, 1, np.ones((2, 3))), ValueError)


@contract("C14", "add_layer2image", [IU + "add_layer2image", IU + "add_layer2image_int"], samples=6, bounded=BND, max_paths=400, timeout=100, assumes=["ndimage.shift(order=1) is linear interpolation, zero outside"])
def _als(W):
    """a kernel with an empty border keeps its flux under sub-pixel shifts and moves its centroid by the shift"""
    from lenstronomy.Util import image_util

    n = 7
    a = W.real("amp", 0, None, (0.5, 2))
    b = W.real("b", 0, None, (0.5, 2))
    k = W.mat([[0, 0, 0, 0, 0], [0, a, 0, 0, 0], [0, 0, b, 0, 0], [0, 0, 0, 2 * a, 0], [0, 0, 0, 0, 0]]) if W.sym else np.array([[0, 0, 0, 0, 0], [0, a, 0, 0, 0], [0, 0, b, 0, 0], [0, 0, 0, 2 * a, 0], [0, 0, 0, 0, 0]], dtype=float)
    x, y = W.real("x", 2.6, 3.4, (2.6, 3.4)), W.real("y", 2.6, 3.4, (2.6, 3.4))
    o = image_util.add_layer2image(np.zeros((n, n)) if not W.sym else W.mat([[0] * n] * n), x, y, k)
    W.eq("flux", tot(o), 3 * a + b)
    W.eq("centroid x", sum(o[i, j] * j for i in range(n) for j in range(n)), a * (x - 1) + b * x + 2 * a * (x + 1))
    W.eq("centroid y", sum(o[i, j] * i for i in range(n) for j in range(n)), a * (y - 1) + b * y + 2 * a * (y + 1))


# ------------------------------------------------------------------ convolutions
@contract("C14", "PixelKernelConvolution", [CV + "PixelKernelConvolution." + q for q in ("__init__", "convolution2d", "_static_fft", "_static_pre_compute", "re_size_convolve", "pixel_kernel", "copy_transpose")] + [CV + "_centered"], samples=4,
          bounded=BND, timeout=100, assumes=["discrete convolution theorem"])
def _pc(W):
    from lenstronomy.ImSim.Numerics.convolution import PixelKernelConvolution

    t = W.choice("type", ["fft", "grid", "fft_static"])
    n, m, p = W.choice("sizes", [(3, 3, 3), (2, 4, 3), (4, 2, 1), (3, 3, 5)])
    k, im = kern(W, p), image(W, "im", n, m=m)
    k0, im0 = copy(W, k), copy(W, im)
    c = PixelKernelConvolution(k, convolution_type=t)
    eqm(W, "direct convolution", c.convolution2d(im), direct(im0, k0))
    im2 = image(W, "jm", m + 1, m=n)
    eqm(W, "direct convolution of another image", c.convolution2d(im2), direct(im2, k0))
    eqm(W, "direct convolution again", c.re_size_convolve(im), direct(im0, k0))
    same_input(W, im, im0, "image")
    same_input(W, k, k0)
    eqm(W, "kernel", c.pixel_kernel(), k0)
    if p > 1:
        cut = [[k0[i][j] for j in range(p // 2 - 0, p // 2 + 1)] for i in range(p // 2, p // 2 + 1)]
        eqm(W, "cut kernel", c.pixel_kernel(1), [[1]])
        o = [[k0[i][j] for j in range((p - 3) // 2, (p + 3) // 2)] for i in range((p - 3) // 2, (p + 3) // 2)]
        eqm(W, "cut kernel 3", c.pixel_kernel(3), [[v / tot(o) for v in r] for r in o])
    eqm(W, "transposed kernel", c.copy_transpose().pixel_kernel(), [[k0[j][i] for j in range(p)] for i in range(p)])
    W.raises("unknown type", lambda: PixelKernelConvolution(k, convolution_type="x"), ValueError)


@contract("C14", "single-pixel kernel", [CV + "PixelKernelConvolution.convolution2d", CV + "SubgridKernelConvolution.convolution2d", NC + "NumbaConvolution.convolve2d"], samples=4, bounded=BND)
def _one(W):
    from lenstronomy.ImSim.Numerics.convolution import PixelKernelConvolution, SubgridKernelConvolution
    from lenstronomy.ImSim.Numerics.numba_convolution import NumbaConvolution

    im = image(W, "im", 4)
    for p in (1, 3, 5):
        d = np.zeros((p, p))
        d[p // 2, p // 2] = 1
        for t in ("fft", "grid", "fft_static"):
            eqm(W, "unchanged image", PixelKernelConvolution(d, t).convolution2d(im), im)
            eqm(W, "resized image", SubgridKernelConvolution(d, 2, convolution_type=t).convolution2d(im), shrink([list(r) for r in im], 2))
        eqm(W, "unchanged image (numba)", NumbaConvolution(d, np.ones((4, 4), dtype=bool)).convolve2d(im), im)


@contract("C14", "SubgridKernelConvolution", [CV + "SubgridKernelConvolution." + q for q in ("__init__", "convolution2d", "re_size_convolve")], samples=4, bounded=BND, timeout=100, assumes=["discrete convolution theorem"])
def _sk(W):
    from lenstronomy.ImSim.Numerics.convolution import SubgridKernelConvolution

    n, f, p, s = W.choice("sizes", [(4, 2, 3, None), (6, 3, 3, None), (4, 2, 5, 1), (6, 3, 5, 1), (4, 2, 3, 3)])
    k, im = kern(W, p), image(W, "im", n)
    k0, im0 = copy(W, k), copy(W, im)
    c = SubgridKernelConvolution(k, f, supersampling_kernel_size=s, convolution_type=W.choice("type", ["fft_static", "grid"]))
    if s is None:
        core, rest = k0, None
    else:
        q = min(p, s * f + (s * f + 1) % 2)
        o = (p - q) // 2
        core = [[k0[i][j] for j in range(o, o + q)] for i in range(o, o + q)]
        rest = [[0 if o <= i < o + q and o <= j < o + q else k0[i][j] for j in range(p)] for i in range(p)]
    ref = shrink(direct(im0, core), f)
    if rest is not None:
        low = degraded(W, rest, f, 5 if f == 2 else 3)
        add = direct(shrink([list(r) for r in im0], f), low)
        ref = [[a + b for a, b in zip(r, t)] for r, t in zip(ref, add)]
    eqm(W, "supersampled convolution averaged on the pixels", c.convolution2d(im), ref)
    low_im = image(W, "lo", n // f)
    ref2 = shrink(direct(im0, core), f)
    if rest is not None:
        add = direct(low_im, low)
        ref2 = [[a + b for a, b in zip(r, t)] for r, t in zip(ref2, add)]
    eqm(W, "with a separate low resolution image", c.re_size_convolve(low_im, im), ref2)
    same_input(W, im, im0, "image")
    same_input(W, k, k0)


@contract("C14", "MultiGaussianConvolution", [CV + "MultiGaussianConvolution." + q for q in ("__init__", "convolution2d", "re_size_convolve", "pixel_kernel")], samples=4, bounded=BND, assumes=["ndimage.gaussian_filter is a normalised separable linear filter of its arguments"])
def _mg(W):
    """the Gaussian filters themselves are scipy's; here: scales, fractions and resampling"""
    from lenstronomy.ImSim.Numerics import convolution

    calls = []
    G = W.uf("gf", 3)

    def gf(im, sigma, order=0, output=None, mode="reflect", cval=0.0, truncate=4.0):
        calls.append((mode, truncate))
        n, m = np.shape(im)
        return W.mat([[sum(im[a][b] * G(sigma, 1.0 * (i - a), 1.0 * (j - b)) for a in range(n) for b in range(m)) for j in range(m)] for i in range(n)])

    s = [W.real("s%d" % q, 0, None, (0.3, 2)) for q in range(2)]
    fr = [W.real("f%d" % q, 0, None, (0.2, 2)) for q in range(2)]
    px = W.real("pixel scale", 0, None, (0.1, 1))
    sup = W.choice("supersampled convolution", [False, True])
    im, lo = image(W, "im", 4), image(W, "lo", 2)
    im0 = copy(W, im)

    class ND:
        gaussian_filter = staticmethod(gf)

    with swap(W, (convolution, "ndimage", ND), both=True):
        c = convolution.MultiGaussianConvolution(W._arr1(list(s)), W._arr1(list(fr)), px, 2, sup, truncation=3)
        a = c.convolution2d(im)
        b = c.re_size_convolve(lo, im)
    W.true("truncation and edges", all(q == ("nearest", 3) for q in calls))
    cell = lambda I, n, i, j: sum(fr[q] / (fr[0] + fr[1]) * I[u][v] * G(s[q] / px * (2 if sup else 1), 1.0 * (i - u), 1.0 * (j - v)) for q in range(2) for u in range(n) for v in range(n))
    full = [[cell(im0, 4, i, j) for j in range(4)] for i in range(4)]
    eqm(W, "sum of the Gaussian filters", a, full)
    eqm(W, "on the pixels of the image", b, shrink(full, 2) if sup else [[cell(lo, 2, i, j) for j in range(2)] for i in range(2)])
    same_input(W, im, im0, "image")
    W.eq("kernel of unit flux", tot(c.pixel_kernel(3)), 1)


@contract("C14", "gaussian convolutions", [CV + "MultiGaussianConvolution.convolution2d", CV + "FWHMGaussianConvolution.convolution2d", CV + "MGEConvolution.convolution2d", CV + "MGEConvolution.kernel_difference"], samples=4, sym=False, bounded="sampled images")
def _gc(W):
    from lenstronomy.ImSim.Numerics import convolution
    from lenstronomy.Util import kernel_util

    s, px = W.real("s", 0, None, (0.15, 0.3)), W.real("px", 0, None, (0.1, 0.2))
    im = np.zeros((41, 41))
    im[20, 20] = 1
    im[17, 22] = 0.5
    c = convolution.MultiGaussianConvolution([s], [3.0], px, truncation=6)
    o = c.convolution2d(im)
    W.eq("flux", o.sum(), 1.5, rtol=1e-3)
    y, x = np.mgrid[:41, :41]
    W.eq("centroid", [(o * x).sum() / 1.5, (o * y).sum() / 1.5], [(20 + 11) / 1.5, (20 + 8.5) / 1.5], rtol=1e-4)
    W.eq("constant image", c.convolution2d(np.ones((9, 9))), np.ones((9, 9)))
    d = np.zeros((41, 41))
    d[20, 20] = 1
    W.assume(s > 0.7 * px)
    W.eq("width", (c.convolution2d(d) * (x - 20) ** 2).sum(), (s / px) ** 2, rtol=2e-2)
    k = kernel_util.kernel_gaussian(21, px, util_fwhm(s))
    W.eq("same as the Gaussian kernel", convolution.PixelKernelConvolution(k).convolution2d(im), o, atol=2e-3)
    m = convolution.MGEConvolution(k, px, order=1)
    W.eq("flux of the multi-Gaussian approximation", m.convolution2d(im).sum(), 1.5, rtol=1e-2)
    W.eq("flux of the FWHM approximation", convolution.FWHMGaussianConvolution(k).convolution2d(im).sum(), 1.5, rtol=1e-2)


def util_fwhm(s):
    return s * 2 * np.sqrt(2 * np.log(2))


MASK3 = (np.ones((3, 3), dtype=bool), np.array([[1, 0, 1], [0, 1, 0], [0, 0, 1]], dtype=bool), np.zeros((3, 3), dtype=bool))


@contract("C14", "NumbaConvolution", [NC + "NumbaConvolution." + q for q in ("__init__", "convolve2d", "_pre_compute_frame_kernel", "_convolve_jit")] + ["ImSim/Numerics/partial_image.py::PartialImage." + q for q in ("__init__", "partial_array", "index_array", "array_from_partial", "image_from_partial", "num_partial")],
          samples=4, bounded=BND)
def _nc(W):
    from lenstronomy.ImSim.Numerics.numba_convolution import NumbaConvolution
    from lenstronomy.ImSim.Numerics.partial_image import PartialImage

    k, im = kern(W, W.choice("kernel", [3, 5, 1])), image(W, "im", 3)
    k0, im0 = copy(W, k), copy(W, im)
    mi, mo = W.choice("input pixels", list(MASK3)), W.choice("output pixels", [None, MASK3[1], MASK3[0]])
    o = NumbaConvolution(k, mi, compute_pixels=mo).convolve2d(im)
    ref = direct([[im0[i][j] if mi[i, j] else 0 for j in range(3)] for i in range(3)], k0)
    eqm(W, "convolution of the selected pixels", o, [[ref[i][j] if mo is None or mo[i, j] else 0 for j in range(3)] for i in range(3)])
    same_input(W, im, im0, "image")
    same_input(W, k, k0)
    p = PartialImage(mi)
    W.same("number of selected pixels", p.num_partial, int(mi.sum()))
    eqm(W, "selected pixels put back", p.image_from_partial(p.partial_array(im)), [[im0[i][j] if mi[i, j] else 0 for j in range(3)] for i in range(3)])
    W.same("index of the selected pixels", [[int(v) for v in r] for r in p.index_array], [[int(mi.reshape(-1)[: 3 * i + j].sum()) if mi[i, j] else -1 for j in range(3)] for i in range(3)])


@contract("C14", "SubgridNumbaConvolution", [NC + "SubgridNumbaConvolution." + q for q in ("__init__", "convolve2d", "_partial_image", "_partial_kernel")], samples=3, bounded=BND, timeout=100)
def _snc(W):
    from lenstronomy.ImSim.Numerics.numba_convolution import SubgridNumbaConvolution

    f, p = W.choice("factor, kernel", [(2, 3), (3, 3), (2, 5), (3, 1)])
    k, im = kern(W, p), image(W, "im", 2 * f)
    k0, im0 = copy(W, k), copy(W, im)
    mi = W.choice("input pixels", [np.ones((2, 2), dtype=bool), np.array([[1, 0], [0, 1]], dtype=bool), np.array([[0, 1], [0, 0]], dtype=bool)])
    mo = W.choice("output pixels", [None, np.array([[1, 1], [0, 1]], dtype=bool)])
    o = SubgridNumbaConvolution(k, f, mi, compute_pixels=mo).convolve2d(im)
    ref = shrink(direct([[im0[i][j] if mi[i // f, j // f] else 0 for j in range(2 * f)] for i in range(2 * f)], k0), f)
    eqm(W, "supersampled convolution of the selected pixels", o, [[ref[i][j] if mo is None or mo[i, j] else 0 for j in range(2)] for i in range(2)])
    same_input(W, im, im0, "image")
    same_input(W, k, k0)


@contract("C14", "AdaptiveConvolution", ["ImSim/Numerics/adaptive_numerics.py::AdaptiveConvolution." + q for q in ("__init__", "re_size_convolve", "convolve2d")], samples=3, bounded=BND, timeout=120, assumes=["discrete convolution theorem"])
def _ac(W):
    from lenstronomy.ImSim.Numerics.adaptive_numerics import AdaptiveConvolution

    f, p, s = W.choice("factor, kernel, cut", [(2, 5, 1), (3, 3, None), (3, 9, 1), (2, 3, None)])
    k, im = kern(W, p), image(W, "im", 2 * f)
    k0, im0 = copy(W, k), copy(W, im)
    mi = W.choice("supersampled pixels", [np.ones((2, 2), dtype=bool), np.array([[1, 0], [0, 1]], dtype=bool), np.zeros((2, 2), dtype=bool)])
    c = AdaptiveConvolution(k, f, mi, supersampling_kernel_size=s)
    o = c.convolve2d(im)
    low_n = {(2, 5): 3, (3, 3): 1, (3, 9): 3, (2, 3): 3}[(f, p)]
    low = shrink([list(r) for r in im0], f)
    klow = degraded(W, k0, f, low_n)
    q = p if s is None else min(p, s * f + (s * f + 1) % 2)
    e = (p - q) // 2
    core = [[k0[i][j] for j in range(e, e + q)] for i in range(e, e + q)]
    hi = shrink(direct([[im0[i][j] if mi[i // f, j // f] else 0 for j in range(2 * f)] for i in range(2 * f)], core), f)
    part = direct([[low[i][j] if mi[i, j] else 0 for j in range(2)] for i in range(2)], degraded(W, core, f, 9))
    full = direct(low, klow)
    eqm(W, "low resolution, with the core of the kernel supersampled on the selected pixels", o, [[full[i][j] + hi[i][j] - part[i][j] for j in range(2)] for i in range(2)])
    same_input(W, im, im0, "image")
    same_input(W, k, k0)


# ------------------------------------------------------------------ PSF class
@contract("C14", "PSF.pixel", [PS + q for q in ("__init__", "kernel_point_source", "kernel_pixel", "kernel_point_source_supersampled", "psf_variance_map", "point_source_supersampling_factor", "set_pixel_size")], samples=4, bounded=BND, timeout=120)
def _psf(W):
    from lenstronomy.Data.psf import PSF

    n, f = W.choice("size, factor", [(3, 1), (5, 1), (7, 3), (5, 2)])
    nrm = W.choice("normalised", [True, False])
    with_map = W.choice("variance map", [False, True])
    k, v = kern(W, n), kern(W, 3, "v")
    k0, v0 = copy(W, k), copy(W, v)
    p = PSF(psf_type="PIXEL", kernel_point_source=k, point_source_supersampling_factor=f, kernel_point_source_normalisation=nrm, psf_variance_map=v if with_map else None)
    flux = 1 if nrm else tot(k0)
    fine = [[q / tot(k0) for q in r] for r in k0] if nrm else k0

    def check(when):
        low = fine if f == 1 else degraded(W, fine, f, len(p.kernel_point_source))
        eqm(W, "point source kernel" + when, p.kernel_point_source, low)
        W.eq("flux of the point source kernel" + when, tot(p.kernel_point_source), flux)
        W.eq("flux of the pixel kernel" + when, tot(p.kernel_pixel), flux)
        eqm(W, "super-sampled kernel as given" + when, p.kernel_point_source_supersampled(f), fine)
        if with_map:
            m = len(low)
            d = (m - 3) // 2
            eqm(W, "variance of the kernel" + when, p.psf_variance_map, [[(v0[i - d][j - d] if 0 <= i - d < 3 and 0 <= j - d < 3 else 0) / (tot(k0) ** 2 if nrm else 1) for j in range(m)] for i in range(m)])
        else:
            W.eq("no variance" + when, tot(p.psf_variance_map), 0)
        W.same("variance known" + when, p.psf_variance_map_bool, with_map)

    check("")
    s = p.kernel_point_source_supersampled(3 if f != 3 else 2)
    W.eq("flux of another super-sampling", tot(s), flux)
    check(" after another super-sampling")
    W.same("super-sampling factor", p.point_source_supersampling_factor, f)
    same_input(W, k, k0)
    same_input(W, v, v0, "variance map")


@contract("C14", "PSF.history", [PS + "kernel_point_source_supersampled", PS + "kernel_pixel", PS + "set_pixel_size", PS + "fwhm"], samples=4, sym=False, bounded="sampled kernels; histories of up to six requests")
def _ph(W):
    """what is returned does not depend on what was asked for before"""
    from lenstronomy.Data.psf import PSF
    import warnings

    warnings.simplefilter("ignore")
    rng = np.random.default_rng(int(W.real("seed", 0, None, (1, 1e6))))
    k = rng.uniform(0.01, 1, (9, 9))
    kinds = [dict(psf_type="PIXEL", kernel_point_source=k, point_source_supersampling_factor=int(rng.choice([1, 2, 3])), kernel_point_source_normalisation=bool(rng.integers(2))),
             dict(psf_type="GAUSSIAN", fwhm=W.real("fwhm", 0, None, (0.2, 0.6)), pixel_size=0.1), dict(psf_type="NONE")]
    for kw in kinds:
        mk = lambda: PSF(**{q: (v.copy() if isinstance(v, np.ndarray) else v) for q, v in kw.items()})
        p = mk()
        size = 0.1
        for _ in range(8):
            op = rng.choice(["k", "s2", "s3", "s5", "n3", "pix", "px", "var"])
            fresh = mk()
            fresh.set_pixel_size(size)
            if op == "px":
                size = float(rng.choice([0.05, 0.1, 0.2]))
                p.set_pixel_size(size)
                continue
            get = {"k": lambda q: q.kernel_point_source, "s2": lambda q: q.kernel_point_source_supersampled(2), "s3": lambda q: q.kernel_point_source_supersampled(3), "s5": lambda q: q.kernel_point_source_supersampled(5),
                   "n3": lambda q: q.kernel_point_source_supersampled(3, updata_cache=False), "pix": lambda q: q.kernel_pixel, "var": lambda q: q.psf_variance_map}[op]
            a, b = get(p), get(fresh)
            W.same("size of %s after a history (%s)" % (op, kw["psf_type"]), np.shape(a), np.shape(b))
            W.eq("%s after a history (%s)" % (op, kw["psf_type"]), a, b)
            if op != "var":
                W.eq("flux (%s)" % kw["psf_type"], np.sum(a), k.sum() if kw.get("kernel_point_source_normalisation") is False else 1)


@contract("C14", "PSF.gaussian", [PS + "__init__", PS + "kernel_point_source", PS + "kernel_point_source_supersampled", PS + "fwhm", PS + "set_pixel_size"], samples=10, sym=False, bounded="sampled widths and pixel sizes")
def _pg(W):
    from lenstronomy.Data.psf import PSF
    from lenstronomy.Util import kernel_util

    fw, px = W.real("fwhm", 0, None, (0.3, 1)), W.real("pixel", 0, None, (0.05, 0.3))
    tr = W.real("truncation", 0, None, (2, 6))
    p = PSF(psf_type="GAUSSIAN", fwhm=fw, pixel_size=px, truncation=tr)
    sg = fw / (2 * np.sqrt(2 * np.log(2)))
    for f in (1, 2, 3):
        k = p.kernel_point_source_supersampled(f)
        r = (len(k) - 1) // 2
        W.true("radius of the kernel", abs(r - max(tr * sg / px * f, 1)) <= 0.5 + 1e-9)
        d = (np.arange(2 * r + 1) - r) * px / f
        g = np.exp(-(d[None, :] ** 2 + d[:, None] ** 2) / 2 / sg ** 2)
        W.eq("Gaussian kernel", k, g / g.sum())
    W.eq("fwhm", p.fwhm, fw)
    v = np.ones((5, 5))
    q = PSF(psf_type="GAUSSIAN", fwhm=fw, pixel_size=px, truncation=tr, psf_variance_map=v)
    W.same("size of the variance map", q.psf_variance_map.shape, q.kernel_point_source.shape)
    W.eq("variance map", q.psf_variance_map.sum(), min(25, q.kernel_point_source.size))
    W.raises("fwhm is needed", lambda: PSF(psf_type="GAUSSIAN"), ValueError)
    W.raises("kernel is needed", lambda: PSF(psf_type="PIXEL"), ValueError)
    W.raises("unknown type", lambda: PSF(psf_type="X"), ValueError)
    n = PSF(psf_type="NONE")
    W.eq("no PSF: single pixel", n.kernel_point_source, [[0, 0, 0], [0, 1, 0], [0, 0, 0]])


# ------------------------------------------------------------------ numerics
@contract("C14", "numerics.convolution", ["ImSim/Numerics/numerics.py::Numerics." + q for q in ("__init__", "re_size_convolve", "_supersampling_cut_kernel", "convolution_class")], samples=3, bounded=BND, timeout=120, assumes=["discrete convolution theorem"])
def _num(W):
    """the flux evaluated on the (sub-)pixels ends up convolved with the PSF of the right sampling"""
    from lenstronomy.ImSim.Numerics.numerics import Numerics
    from lenstronomy.Data.pixel_grid import PixelGrid
    from lenstronomy.Data.psf import PSF

    what = W.choice("mode", ["pixel", "pixel cut", "subpixel", "super", "super cut", "adaptive", "unconvolved"])
    f = {"pixel": 1, "pixel cut": 1}.get(what, 3)
    sc = what in ("super", "super cut", "adaptive")
    n = 2
    g = PixelGrid(nx=n, ny=n, transform_pix2angle=np.array([[0.5, 0], [0, 0.5]]), ra_at_xy_0=0, dec_at_xy_0=0)
    k = kern(W, 5 if what == "super cut" else 3 if sc else 5)
    p = len(k)
    k0 = [[v / tot(k) for v in r] for r in k]
    psf = PSF(psf_type="PIXEL", kernel_point_source=copy(W, k), point_source_supersampling_factor=3 if sc else 1)
    kw = dict(supersampling_factor=f, supersampling_convolution=sc, convolution_type="grid")
    if what == "pixel cut":
        kw["convolution_kernel_size"] = 3
        k0 = [r[1:4] for r in k0[1:4]]
    if what == "super cut":
        kw["convolution_kernel_size"] = 1
        k0 = [r[1:4] for r in k0[1:4]]
    if what == "adaptive":
        kw.update(compute_mode="adaptive", supersampled_indexes=np.array([[1, 0], [0, 1]], dtype=bool), supersampling_kernel_size=1)
    elif sc:
        kw["supersampling_kernel_size"] = None
    num = Numerics(g, psf, **kw)
    F = W.uf("flux", 2)
    x, y = num.coordinates_evaluate
    fl = W._arr1([F(a, b) for a, b in zip(x, y)])
    o = num.re_size_convolve(fl, unconvolved=what == "unconvolved")
    # sub-pixel (i, j) of the frame
    c = lambda i: W.const(i) / (2 * f) - (W.const(f - 1) / (4 * f) if f > 1 else 0)
    hi = [[F(c(j), c(i)) for j in range(n * f)] for i in range(n * f)]
    low = shrink(hi, f)
    if what == "unconvolved":
        ref = low
    elif what == "adaptive":
        sel = [[1, 0], [0, 1]]
        low = [[low[i][j] if sel[i][j] else F(W.const(j) / 2, W.const(i) / 2) for j in range(n)] for i in range(n)]
        m = [[hi[i][j] if sel[i // f][j // f] else 0 for j in range(n * f)] for i in range(n * f)]
        a, b = shrink(direct(m, k0), f), direct([[low[i][j] if sel[i][j] else 0 for j in range(n)] for i in range(n)], degraded(W, k0, f, 1))
        d = direct(low, degraded(W, k0, f, 1))
        ref = [[d[i][j] + a[i][j] - b[i][j] for j in range(n)] for i in range(n)]
    elif sc:
        ref = shrink(direct(hi, k0), f)
    else:
        ref = direct(low, k0)
    eqm(W, "convolved flux per pixel", o, [[v / 4 for v in r] for r in ref])


@contract("C14", "numerics.gaussian", ["ImSim/Numerics/numerics.py::Numerics.__init__"], samples=6, bounded=BND)
def _ng(W):
    from lenstronomy.ImSim.Numerics import numerics
    from lenstronomy.Data.pixel_grid import PixelGrid
    from lenstronomy.Data.psf import PSF

    rec = []
    fw = W.real("fwhm", 0, None, (0.2, 1))
    tc = W.choice("truncation", [None, 3])
    sc = W.choice("supersampling", [True, False])
    g = PixelGrid(nx=2, ny=2, transform_pix2angle=np.array([[-0.5, 0], [0, 0.5]]), ra_at_xy_0=0, dec_at_xy_0=0)
    with swap(W, (numerics, "MultiGaussianConvolution", lambda *a, **k: rec.append((a, k)) or None), both=True):
        numerics.Numerics(g, PSF(psf_type="GAUSSIAN", fwhm=fw, pixel_size=0.5, truncation=5), supersampling_factor=2, supersampling_convolution=sc, truncation_conv=tc)
    (s, fr, px, f, c), k = rec[0]
    W.eq("width", s[0], fw / (2 * W.sqrt(2 * W.log(W.const(2.0)))))
    W.same("one component", (len(s), list(fr)), (1, [1]))
    W.eq("pixel scale", px, 0.5)
    W.same("sampling", (f, c, k["truncation"]), (2, sc, 5 if tc is None else tc))
    W.raises("adaptive mode", lambda: numerics.Numerics(g, PSF(psf_type="GAUSSIAN", fwhm=0.3, pixel_size=0.5), compute_mode="adaptive"), ValueError)
    W.raises("unknown mode", lambda: numerics.Numerics(g, PSF(psf_type="NONE"), compute_mode="x"), ValueError)
    W.raises("factor is an integer", lambda: numerics.Numerics(g, PSF(psf_type="NONE"), supersampling_factor=1.5), TypeError)

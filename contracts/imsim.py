"""Shared pieces of the contracts on image simulation (C11 - C13)."""
import numpy as np


def image(W, name, n=2, lo=None, hi=None, smp=(-2.0, 5.0), m=None):
    m = n if m is None else m
    return W.mat([[W.real("%s%d%d" % (name, i, j), lo, hi, smp) for j in range(m)] for i in range(n)])


def noise_kwargs(W, kind, n=2, m=None):
    """keyword arguments of the noise description"""
    if kind == "map":
        return dict(noise_map=image(W, "sig", n, 0, None, (0.2, 2.0), m=m))
    if kind == "poisson":
        return dict(exposure_time=image(W, "t", n, 1e-3, None, (5, 200), m=m), background_rms=W.real("bkg", 0, None, (0.1, 1)))
    if kind == "poisson scalar":
        return dict(exposure_time=W.real("t", 1e-3, None, (5, 200)), background_rms=W.real("bkg", 0, None, (0.1, 1)))
    return dict(exposure_time=W.real("t", 1e-3, None, (5, 200)), background_rms=image(W, "bk", n, 0, None, (0.1, 1), m=m))


KINDS = ("map", "poisson", "poisson scalar", "background map")


def variance(W, kw, im):
    """the documented variance of every pixel for the image im"""
    n, m = np.shape(im)
    out = []
    for i in range(n):
        row = []
        for j in range(m):
            at = lambda q: q[i, j] if np.ndim(q) == 2 else q
            if "noise_map" in kw:
                row.append(at(kw["noise_map"]) ** 2)
            else:
                pos = im[i, j] if im[i, j] >= 0 else 0 * im[i, j]
                row.append(pos / at(kw["exposure_time"]) + at(kw["background_rms"]) ** 2)
        out.append(row)
    return W.mat(out)


def chi2(W, model, data, var, err, mask):
    s = 0
    for i in range(np.shape(model)[0]):
        for j in range(np.shape(model)[1]):
            if mask[i][j]:
                e = err[i, j] if np.ndim(err) == 2 else err
                s = s + (model[i, j] - data[i, j]) ** 2 / (var[i, j] + abs(e))
    return s


MASKS = ([[1, 1], [1, 1]], [[1, 0], [1, 1]], [[0, 1], [0, 0]], [[0, 0], [1, 0]], [[0, 1], [1, 0]])


def imdata(W, data, kind="map", noise=None, trans=None, **kw):
    from lenstronomy.Data.imaging_data import ImageData

    if noise is None:
        noise = noise_kwargs(W, kind, *np.shape(data))
    return ImageData(image_data=data, **noise, **kw), noise

"""C26: the iterative reconstruction of the PSF keeps a normalised kernel and does not make the fit worse."""
import copy
import types
import numpy as np
from lv.world import contract
from contracts.common import swap
from contracts.imsim import image

F = "Workflow/psf_fitting.py::PsfFitting."


def mat(W, name, n=3, lo=0, hi=None, smp=(0.05, 1.0), m=None):
    return image(W, name, n, lo, hi, smp, m=m)


def rows(a):
    return [v for r in a for v in r]


def tot(a):
    return sum(rows(a))


@contract("C26", "best of the iterations", [F + "update_iterative"], samples=30, max_paths=400, timeout=200, bounded="three iterations, kernels of one by one pixel",
          assumes=["each update returns any kernel, error map and likelihood"])
def _iter(W):
    import lenstronomy.Workflow.psf_fitting as M

    logs = [W.real("logL%d" % i) for i in range(4)]
    ks = [mat(W, "k%d" % i, 1) for i in range(4)]
    es = [mat(W, "e%d" % i, 1) for i in range(4)]
    keep, brk = W.choice("keep", [True, False]), W.choice("no_break", [True, False])
    had, n = W.choice("variance map", [True, False]), W.choice("iterations", [0, 1, 3])
    first = W.choice("earlier start", [True, False])
    opts = dict(stacking_method="mean", psf_symmetry=2)
    seen = dict(psf=[], given=[], lik=[], cache=None)

    class Cache:
        def set_save_cache(self, save_bool):
            seen["cache"] = save_bool

    class Image:
        PointSource = Cache()

        def update_psf(self, psf_class):
            seen["psf"].append(psf_class)

        def likelihood_data_given_model(self, **kwargs):
            seen["lik"].append(kwargs)
            return logs[0], None

    class P:
        def __init__(self, **kwargs):
            self.kwargs = kwargs
    k0 = dict(psf_type="PIXEL", kernel_point_source=ks[0])
    if had:
        k0["psf_variance_map"] = es[0]
    if first:
        k0["kernel_point_source_init"] = ks[3]
    par = dict(kwargs_ps=[dict(a=1)], kwargs_lens=[], kwargs_tracer_source=[dict(b=2)])
    A = M.PsfFitting(Image())
    i = [0]

    def update(kwargs_psf, kwargs_params, corner_mask=None, **kw):
        seen["given"].append((kwargs_psf["kernel_point_source"][0][0], kw, sorted(kwargs_params)))
        i[0] += 1
        return dict(psf_type="PIXEL", kernel_point_source=W.mat([[ks[i[0]][0][0]]]), step=i[0]), logs[i[0]], W.mat([[es[i[0]][0][0]]])
    A.update_psf = update
    with swap(W, (M, "PSF", P), both=True):
        out = A.update_iterative(k0, par, num_iter=n, keep_psf_variance_map=keep, no_break=brk, verbose=False, **opts)
    b, done, cur = 0, 0, ks[0][0][0]
    for j in range(1, n + 1):
        done = j
        W.eq("each update starts from the kernel before", seen["given"][j - 1][0], cur)
        W.true("options of the update", seen["given"][j - 1][1] == opts)
        W.true("parameters of the update", seen["given"][j - 1][2] == ["kwargs_lens", "kwargs_ps"])
        cur = ks[j][0][0]
        if logs[j] > logs[b]:
            b = j
        elif not brk:
            break
    W.true("number of updates", i[0] == done)
    W.eq("kernel of the best likelihood", out["kernel_point_source"][0][0], ks[b][0][0])
    for j in range(done + 1):
        W.le("no step was better", logs[j], logs[b])
    e = es[0][0][0] if had else 0
    W.eq("variance map", out["psf_variance_map"][0][0], e if keep else (es[b][0][0] if b else e))
    W.eq("the kernel before all iterations is kept", out["kernel_point_source_init"][0][0], (ks[3] if first else ks[0])[0][0])
    W.true("type", out["psf_type"] == "PIXEL")
    W.eq("the first likelihood is that of the kernel given", seen["psf"][0].kwargs["kernel_point_source"][0][0], ks[0][0][0])
    W.true("the arguments are not modified", sorted(k0) == sorted(["psf_type", "kernel_point_source"] + (["psf_variance_map"] if had else []) + (["kernel_point_source_init"] if first else [])) and par == dict(kwargs_ps=[dict(a=1)], kwargs_lens=[], kwargs_tracer_source=[dict(b=2)]))


def quarter(img, angle):
    """rotation by multiples of 90 degrees"""
    a = np.asarray(img, dtype=object) if not isinstance(img, np.ndarray) else img
    return np.rot90(a, int(round(angle / 90.)) % 4).copy()


@contract("C26", "combining kernels", [F + "combine_psf"], samples=20, max_paths=300, timeout=200, bounded="one or two kernels of two by two pixels (float runs: three by three); rotations by multiples of 90 degrees",
          assumes=["rotations by multiples of 90 degrees permute the pixels (compared with scipy in the float runs)"])
def _comb(W):
    import lenstronomy.Workflow.psf_fitting as M

    n = W.choice("kernels", [1, 2])
    sym = W.choice("symmetry", [1, 2, 4])
    how = W.choice("stacking", ["mean", "median"])
    corner = W.choice("corners", [None, 1])
    if W.sym and (n, sym, how, corner) not in ((1, 2, "mean", None), (2, 1, "median", None), (2, 2, "mean", 1), (1, 4, "mean", None), (1, 1, "median", 1)):
        W.assume(False)
    z = 2 if W.sym else 3
    Z = range(z)
    ks = [mat(W, "k%d" % i, z, 0.01) for i in range(n)]
    old = mat(W, "old", z, 0.01)
    f = W.real("factor", 0, 1)
    ref = [[list(r) for r in k] for k in ks]
    cm = np.zeros((z, z), dtype=bool)
    cm[0, 0] = cm[0, z - 1] = cm[z - 1, 0] = True
    kw = dict(corner_symmetry=corner, corner_mask=cm) if corner else {}
    run = lambda: M.PsfFitting.combine_psf([W.mat(k) for k in ref], W.mat([list(r) for r in old]), factor=f, stacking_option=how, symmetry=sym, **kw)
    if W.sym:
        with swap(W, (M, "image_util", types.SimpleNamespace(rotateImage=quarter)), both=True):
            out = run()
    else:
        out = run()
    rot = lambda k, q: [[{0: k[i][j], 1: k[j][z - 1 - i], 2: k[z - 1 - i][z - 1 - j], 3: k[z - 1 - j][i]}[q] for j in Z] for i in Z]
    nk = [[[v / tot(k) for v in r] for r in k] for k in ks]

    def stack(s):
        al = [rot(k, q * (4 // s)) for k in nk for q in range(s)]
        if how == "mean" or len(al) <= 2:
            return [[sum(a[i][j] for a in al) / len(al) for j in Z] for i in Z]
        return np.median(np.array(al, dtype=float), axis=0).tolist()
    new = stack(sym)
    if corner:
        c = stack(1)
        new = [[c[i][j] if cm[i, j] else new[i][j] for j in Z] for i in Z]
    t = tot(new)
    W.eq("weighted sum of the normalised stack and the old kernel", rows(out), [f * new[i][j] / t + (1 - f) * old[i][j] / tot(old) for i in Z for j in Z], rtol=1e-6, atol=1e-9)
    W.eq("normalised", tot(out), 1, rtol=1e-6)
    if not W.sym:
        W.raises("unknown stacking is refused", lambda: M.PsfFitting.combine_psf([W.mat(k) for k in ref], W.mat([list(r) for r in old]), stacking_option="mode"), ValueError)
    for v in rows(out):
        W.le("not negative", 0, v)


def world(W, n, mask=None, cd=None, data=None, w=1.0):
    """image model of n by n pixels, pixel coordinates = angle / w"""
    yy, xx = np.indices((n, n))

    class Data:
        pixel_coordinates = (xx * w, yy * w)
        pixel_width = w
        C_D = cd

        def map_coord2pix(self, ra, dec):
            return [q / w for q in ra], [q / w for q in dec]

        def map_pix2coord(self, x, y):
            return np.array(x) * w, np.array(y) * w
    Data.data = data
    return types.SimpleNamespace(Data=Data(), likelihood_mask=np.ones((n, n)) if mask is None else mask)


@contract("C26", "masks of neighbours", [F + "mask_point_source"], samples=20, max_paths=300, timeout=120, bounded="two point sources, grid of two by two")
def _mask(W):
    from lenstronomy.Workflow.psf_fitting import PsfFitting

    x, y = W.array("x", 2), W.array("y", 2)
    gx, gy = W.array("gx", 4), W.array("gy", 4)
    r = W.real("r", 0, None, (0.5, 2))
    i = W.choice("i", [0, 1])
    m = PsfFitting.mask_point_source(x, y, gx, gy, r, i=i)
    k = 1 - i
    for j in range(4):
        far = (gx[j] - x[k]) ** 2 + (gy[j] - y[k]) ** 2 > r ** 2
        W.eq("pixels near the other source are blocked", m[j // 2][j % 2], 1 if far else 0)


@contract("C26", "estimates of single kernels", [F + "psf_estimate_individual", F + "point_like_source_cutouts"], samples=12, timeout=200, bounded="two stars on the pixels of an image of 9 by 9, kernel of three by three pixels")
def _single(W):
    from lenstronomy.Workflow.psf_fitting import PsfFitting

    n = 9
    w = W.choice("pixel", [1.0, 0.5])
    res = mat(W, "r", n, None, None, (-1, 1))
    bad = W.choice("masked", [None, (3, 4), (6, 6)])
    mask = np.ones((n, n))
    if bad:
        mask[bad[0], bad[1]] = 0
    pos = [(3, 2), (5, 6)]
    amp = [W.real("a0", 0.1, None, (0.5, 2)), W.real("a1", 0.1, None, (0.5, 2))]
    k = mat(W, "k")
    A = PsfFitting(world(W, n, mask, w=w))
    blk = W.choice("blocked", [0, 1.1])
    out = A.psf_estimate_individual([p[0] * w for p in pos], [p[1] * w for p in pos], amp, res, cutout_size=3, kernel_guess=k, supersampling_factor=1, block_center_neighbour=blk * w)
    W.true("one kernel per star", len(out) == 2)
    for q in range(2):
        ox, oy = pos[1 - q]
        c = []
        for i in range(3):
            for j in range(3):
                y_, x_ = pos[q][1] - 1 + i, pos[q][0] - 1 + j
                ok = mask[y_, x_] and not (x_ - ox) ** 2 + (y_ - oy) ** 2 <= blk ** 2
                c.append(res[y_][x_] / amp[q] if ok else 0)
        me = sum(c) / 9
        W.eq("guess and residuals of the star in units of its flux", rows(out[q]), [g + v - me for g, v in zip(rows(k), c)])
        W.eq("flux is kept", tot(out[q]), tot(k))
    cut = PsfFitting.point_like_source_cutouts([3.2, 5.4], [2.3, 5.9], [res, res], 3)
    for q in range(2):
        W.eq("cutouts around the nearest pixel", rows(cut[q]), [res[pos[q][1] - 1 + i][pos[q][0] - 1 + j] for i in range(3) for j in range(3)])


@contract("C26", "images of single stars", [F + "image_single_point_source", F + "_point_sources_list"], samples=6, bounded="two stars, image of two by two pixels", assumes=["model and point source images are arbitrary"])
def _images(W):
    from lenstronomy.Workflow.psf_fitting import PsfFitting

    d, mo = mat(W, "d", 2), mat(W, "m", 2)
    ra, dec, am = W.array("ra", 2), W.array("dec", 2), W.array("amp", 2)
    f = [[W.uf("p%d%d" % (i, j), 2) for j in range(2)] for i in range(2)]
    mask = W.mat([[1, 0], [1, 1]])

    class I:
        likelihood_mask = mask
        Data = types.SimpleNamespace(data=d)
        PointSource = types.SimpleNamespace(point_source_list=lambda kwargs_ps, kwargs_lens, k=None: (ra, dec, am))
        ImageNumerics = types.SimpleNamespace(point_source_rendering=lambda r, e, a: W.mat([[sum(v * f[i][j](p, q) for p, q, v in zip(r, e, a)) for j in range(2)] for i in range(2)]))

        def image_linear_solve(self, **kwargs):
            return mo, None, None, None
    I = I()
    out = PsfFitting(I).image_single_point_source(I, dict(kwargs_ps=[], kwargs_lens=[]))
    for s in range(2):
        W.eq("data without all but this star", rows(out[s]), [(d[i][j] - mo[i][j] + am[s] * f[i][j](ra[s], dec[s])) * mask[i][j] for i in range(2) for j in range(2)])


@contract("C26", "star on a pixel", [F + "cutout_psf_single", F + "cutout_psf"], samples=20, sym=False, bounded="random kernels of five by five pixels on the pixel grid")
def _star(W):
    from lenstronomy.Workflow.psf_fitting import PsfFitting

    n = 15
    k = np.array([[W.real("k%d%d" % (i, j), 0.05, 1) for j in range(5)] for i in range(5)])
    k[0, :] = k[-1, :] = 0
    k[:, 0] = k[:, -1] = 0
    k /= k.sum()
    amp = W.real("amp", 0.5, 20)
    x, y = W.choice("position", [(7, 7), (4, 6), (8, 5)])
    im = np.zeros((n, n))
    im[y - 2:y + 3, x - 2:x + 3] = amp * k
    mask = np.ones((n, n))
    for q in range(W.choice("masked", [0, 1, 2])):
        mask[y - 1 + q, x + 1] = 0
    im[mask == 0] = 100.
    im0 = im.copy()
    o = PsfFitting.cutout_psf_single(float(x), float(y), im, mask, 5, k.copy())
    W.eq("the true kernel is recovered, also where pixels are masked", np.ravel(o), np.ravel(k), atol=1e-6)
    W.eq("the image is not modified", np.ravel(im), np.ravel(im0))
    o = PsfFitting(world(W, n, mask)).cutout_psf([x, 0.], [y, 0.], [x], [y], [im], 5, k.copy(), block_center_neighbour=0)
    W.eq("kernel of each star", np.ravel(o[0]), np.ravel(k), atol=1e-6)


@contract("C26", "error maps", [F + "error_map_estimate", F + "error_map_estimate_new"], samples=20, sym=False, bounded="random kernels on the pixel grid, three stars")
def _err(W):
    from lenstronomy.Workflow.psf_fitting import PsfFitting

    n = 25
    w = W.choice("pixel", [1.0, 0.1])
    rng = np.random.RandomState(int(1e6 * W.real("seed", 0, 1)))
    k = 0.05 + rng.rand(5, 5)
    k /= k.sum()
    amp = np.array([W.real("a%d" % i, 2, 20) for i in range(3)])
    pos = [(5, 6), (13, 8), (18, 19)]
    cd = (0.02 + 0.02 * rng.rand(n, n)) ** 2
    mask = np.ones((n, n))
    A = PsfFitting(world(W, n, mask, cd, w=w))
    px, py = np.array([p[0] for p in pos], float), np.array([p[1] for p in pos], float)
    d = [0.05 * rng.randn(5, 5) for _ in pos]
    cut = lambda a, p: a[p[1] - 2:p[1] + 3, p[0] - 2:p[0] + 3]
    rad = W.choice("radius", [None, 1.2])
    ins = np.ones((5, 5)) if rad is None else np.array([[1. * ((i - 2) ** 2 + (j - 2) ** 2 <= rad ** 2) for j in range(5)] for i in range(5)])
    e = np.median([np.maximum(np.abs(q) - np.sqrt(cut(cd, p)) / a, 0) ** 2 for q, p, a in zip(d, pos, amp)], axis=0) / k ** 2
    e = np.minimum(e, 1) * ins
    new = A.error_map_estimate_new(k.copy(), [k + q for q in d], px * w, py * w, amp, 1, error_map_radius=None if rad is None else rad * w)
    old = A.error_map_estimate(k.copy(), [(k + q) * a for q, a in zip(d, amp)], amp, px, py, error_map_radius=None if rad is None else rad * w)
    W.eq("median of the squared residuals beyond the noise, relative to the kernel", np.ravel(new), np.ravel(e), atol=1e-8)
    W.eq("from cutouts of the stars", np.ravel(old), np.ravel(e), atol=1e-8)
    near = [(5, 6), (7, 6), (18, 19)]
    px, py = np.array([p[0] for p in near], float), np.array([p[1] for p in near], float)
    blk = 1.1
    ok = [np.array([[1. * all((p[0] - 2 + j - s[0]) ** 2 + (p[1] - 2 + i - s[1]) ** 2 > blk ** 2 for t, s in enumerate(near) if t != m) for j in range(5)] for i in range(5)]) for m, p in enumerate(near)]
    e = np.median([np.maximum(np.abs(q) - np.sqrt(cut(cd, p)) / a, 0) ** 2 * o for q, p, a, o in zip(d, near, amp, ok)], axis=0) / k ** 2
    W.eq("neighbours are blocked", np.ravel(A.error_map_estimate(k.copy(), [(k + q) * a for q, a in zip(d, amp)], amp, px, py, block_center_neighbour=blk * w)), np.ravel(np.minimum(e, 1)), atol=1e-8)


def _model(W, kernel):
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
    from lenstronomy.PointSource.point_source import PointSource
    from lenstronomy.LightModel.light_model import LightModel

    n = 31
    off = [W.real("o%d" % i, -0.5, 0.5) for i in range(6)]
    px = np.array([8 + off[0], 22 + off[1], 14 + off[2]])
    py = np.array([9 + off[3], 8 + off[4], 23 + off[5]])
    w = 0.1
    amp = np.array([W.real("amp%d" % i, 50, 200) for i in range(3)])
    data = ImageData(np.zeros((n, n)), ra_at_xy_0=-1.5, dec_at_xy_0=-1.5, transform_pix2angle=np.array([[w, 0], [0, w]]), background_rms=0.01, exposure_time=1000.)
    ra, dec = data.map_pix2coord(px, py)
    kp = [dict(ra_image=ra, dec_image=dec, point_amp=amp)]
    M = lambda ker: ImageLinearFit(data, PSF(psf_type="PIXEL", kernel_point_source=ker), lens_light_model_class=LightModel(["UNIFORM"]), point_source_class=PointSource(["UNLENSED"]))
    kl = [dict(amp=0.3)]
    data.update_data(M(kernel).image(kwargs_ps=kp, kwargs_lens_light=kl))
    return data, M, dict(kwargs_ps=kp, kwargs_lens_light=kl)


def _gauss(n, s, a=0.):
    y, x = np.indices((n, n)) - (n - 1) / 2
    k = np.exp(-(x ** 2 + y ** 2 + a * x * y) / 2 / s ** 2)
    return k / k.sum()


@contract("C26", "reconstruction from data", [F + "update_iterative", F + "update_psf", F + "psf_estimate_individual", F + "combine_psf", F + "error_map_estimate_new"], samples=6, sym=False, bounded="random positions of three stars, Gaussian kernels")
def _real(W):
    from lenstronomy.Data.psf import PSF
    from lenstronomy.Workflow.psf_fitting import PsfFitting

    true, wrong = _gauss(11, W.real("s", 1.4, 1.8), W.real("a", -0.5, 0.5)), _gauss(11, 2.4)
    data, M, kw = _model(W, true)
    for new in (True, False):
        m = M(true)
        A = PsfFitting(m)
        par = copy.deepcopy(kw)
        if new:
            o, logL, e = A.update_psf(dict(psf_type="PIXEL", kernel_point_source=true), par, psf_symmetry=1, psf_iter_factor=0.5, new_procedure=True)
            W.eq("the true kernel of noise-free data is kept", np.ravel(o["kernel_point_source"]), np.ravel(true), atol=1e-5)
            W.eq("without error", np.max(np.abs(e)), 0, atol=1e-6)
        m = M(wrong)
        A = PsfFitting(m)
        k0 = dict(psf_type="PIXEL", kernel_point_source=wrong.copy())
        lik = lambda k: M(k).likelihood_data_given_model(**copy.deepcopy(kw))[0]
        o = A.update_iterative(k0, copy.deepcopy(kw), num_iter=8, verbose=False, psf_iter_factor=0.4, new_procedure=new, no_break=W.choice("no_break", [True, False]), stacking_method=W.choice("stack", ["mean", "median"]))
        k = o["kernel_point_source"]
        W.eq("normalised", np.sum(k), 1, atol=1e-6)
        W.true("not negative", np.min(k) >= 0)
        W.true("the fit does not get worse", lik(k) >= lik(wrong))
        W.true("closer to the kernel of the data", np.sum((k - true) ** 2) < 0.5 * np.sum((wrong - true) ** 2))
        W.eq("initial kernel", np.ravel(o["kernel_point_source_init"]), np.ravel(wrong))
        W.eq("argument", np.ravel(k0["kernel_point_source"]), np.ravel(wrong))

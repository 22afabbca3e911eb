"""C11: the imaging likelihood is the masked Gaussian log-likelihood of the pixels."""
import numpy as np
from lv.world import contract
from contracts.common import swap
from contracts.imsim import image, noise_kwargs, variance, chi2, KINDS, MASKS, imdata

ID = "Data/imaging_data.py::ImageData."
NO = "Data/image_noise.py::"
IM = "ImSim/image_model.py::ImageModel."
IL = "ImSim/image_linear_solve.py::ImageLinearFit."
BND = "frames of the listed sizes (sums over pixels are unrolled); all pixel values, noise levels and model values; the listed masks"

for _k in KINDS:
    @contract("C11", "variance.%s" % _k, [NO + "covariance_matrix", NO + "ImageNoise.__init__", NO + "ImageNoise.C_D", NO + "ImageNoise.C_D_model", NO + "ImageNoise.background_rms", NO + "ImageNoise.exposure_map"],
              samples=20, bounded=BND, max_paths=600)
    def _var(W, kind=_k):
        from lenstronomy.Data.image_noise import ImageNoise

        kw = noise_kwargs(W, kind)
        data, model = image(W, "d"), image(W, "m")
        keep = {q: W.mat([list(r) for r in v]) if np.ndim(v) == 2 else v for q, v in kw.items()}
        n = ImageNoise(data, verbose=False, **kw)
        if W.choice("which", ["data", "model"]) == "data":
            W.eq("variance from the data", n.C_D, variance(W, keep, data))
            W.eq("variance from the data, evaluated again", n.C_D, variance(W, keep, data))
        else:
            W.eq("variance from the model", n.C_D_model(model), variance(W, keep, model))
        if "noise_map" not in kw:
            W.eq("background rms", n.background_rms, keep["background_rms"])
            W.eq("exposure map", n.exposure_map, keep["exposure_time"])


@contract("C11", "variance.exposure floor", [NO + "ImageNoise.__init__"], samples=10, bounded=BND)
def _floor(W):
    from lenstronomy.Data.image_noise import ImageNoise

    sc = W.choice("scalar", [True, False])
    t = W.real("t", None, 0, (-3, 0)) if sc else W.mat([[W.real("t0", None, 0, (-3, 0)), W.real("t1", 1e-3, None, (1, 9))]])
    keep = t if sc else t[0, 1]
    d = W.mat([[W.real("d0", 0, None, (1, 5)), W.real("d1", 0, None, (1, 5))]])
    n = ImageNoise(d, exposure_time=t, background_rms=W.real("b", 0, None, (0.1, 1)), verbose=False)
    c = n.C_D_model(d)
    b2 = n.background_rms ** 2
    W.eq("non-positive exposure times count as 1e-10", (c[0, 0] - b2) * W.const(1e-10), d[0, 0], rtol=1e-4)
    if not sc:
        W.eq("other exposure times are kept", c[0, 1], d[0, 1] / keep + b2)


@contract("C11", "variance.missing", [NO + "ImageNoise.background_rms", NO + "ImageNoise.exposure_map"], samples=3)
def _miss(W):
    from lenstronomy.Data.image_noise import ImageNoise

    d = image(W, "d")
    n = ImageNoise(d, verbose=False)
    W.raises("background not specified", lambda: n.background_rms, ValueError)
    W.raises("exposure not specified", lambda: n.exposure_map, ValueError)


@contract("C11", "variance.gradient", [NO + "covariance_matrix"], samples=20, sym=False, bounded="sampled images (sobel filter of scikit-image)")
def _grad(W):
    from lenstronomy.Data.image_noise import ImageNoise
    from skimage.filters import sobel

    d, m = image(W, "d", 4), image(W, "m", 4)
    kw = noise_kwargs(W, "poisson", 4)
    g = W.real("g", 0, None, (0, 2))
    n = ImageNoise(d, gradient_boost_factor=g, verbose=False, **kw)
    W.eq("gradient term of the variance (model)", n.C_D_model(m), variance(W, kw, m) + (g * sobel(m)) ** 2)
    W.eq("gradient term of the variance (data)", n.C_D, variance(W, kw, d) + (g * sobel(d)) ** 2)


for _k in KINDS:
    @contract("C11", "logL.%s" % _k, [ID + "log_likelihood", NO + "ImageNoise.C_D_model"], samples=20, bounded=BND, max_paths=600)
    def _ll(W, kind=_k):
        nr = 2 if kind == "map" else 1
        data, model = image(W, "d", nr, m=2), image(W, "m", nr, m=2)
        D, kw = imdata(W, data, kind)
        mask = [q[:nr] for q in [W.choice("mask", MASKS)]][0]
        err = W.choice("err", ["none", "scalar", "map"])
        e = 0 if err == "none" else W.real("e", None, None, (-1, 1)) if err == "scalar" else image(W, "e", nr, None, None, (-1, 1), m=2)
        ll = D.log_likelihood(model, np.array(mask, dtype=bool), e) if err != "none" else D.log_likelihood(model, np.array(mask))
        W.eq("log-likelihood", ll, -chi2(W, model, data, variance(W, kw, model), e, mask) / 2)
        W.same("data", D.data, data)


@contract("C11", "logL.update", [ID + "update_data", ID + "log_likelihood", NO + "ImageNoise.C_D"], samples=10, bounded=BND, max_paths=300)
def _lu(W):
    d1, d2, model = image(W, "d", 1, m=2), image(W, "f", 1, m=2), image(W, "m", 1, 0, None, (0.1, 3), m=2)
    kind = W.choice("kind", ["map", "poisson scalar"])
    D, kw = imdata(W, d1, kind)
    if W.choice("cache", [True, False]):
        _ = D.C_D
    D.update_data(d2)
    W.eq("log-likelihood of the new data", D.log_likelihood(model, np.ones((1, 2)), 0),
         -chi2(W, model, d2, variance(W, kw, model), 0, [[1, 1]]) / 2)
    W.eq("variance of the new data", D.C_D, variance(W, kw, d2))


@contract("C11", "logL.interferometry", [ID + "log_likelihood_interferometry", ID + "log_likelihood", ID + "likelihood_method"], samples=10, bounded=BND)
def _li(W):
    from lenstronomy.Data.imaging_data import ImageData

    d, a, b = image(W, "d"), image(W, "a"), image(W, "b")
    s, c = W.real("s", 0, None, (0.2, 2)), W.real("c", None, None, (-3, 3))
    D = ImageData(d, background_rms=s, exposure_time=100.0, log_likelihood_constant=c, likelihood_method="interferometry_natwt")
    W.same("method", D.likelihood_method(), "interferometry_natwt")
    ll = D.log_likelihood([a, b], np.ones((2, 2)), 0)
    ref = 0
    for i in range(2):
        for j in range(2):
            ref = ref + a[i, j] * (b[i, j] - 2 * d[i, j])
    W.eq("interferometric log-likelihood", ll, -ref / (2 * s ** 2) + c)
    W.raises("unknown method", lambda: ImageData(d, background_rms=s, exposure_time=100.0, likelihood_method="other"), ValueError)


def model_class(W, D, mask=None, cls=None, **kw):
    from lenstronomy.ImSim.image_model import ImageModel
    from lenstronomy.Data.psf import PSF

    return (cls or ImageModel)(D, PSF(psf_type="NONE"), likelihood_mask=mask, **kw)


def T(W, D0=0.05):
    return dict(ra_at_xy_0=0, dec_at_xy_0=0, transform_pix2angle=np.array([[-0.05, 0], [0, 0.05]]))


for _k in ("map", "poisson"):
    @contract("C11", "image model.%s" % _k, [IM + q for q in ("likelihood_data_given_model", "variance_map", "reduced_residuals", "reduced_chi2", "num_data_evaluate", "__init__", "_error_map_model")],
              samples=8, bounded=BND, max_paths=600, assumes=["ImageModel.image and the PSF error map return arbitrary frames"])
    def _imm(W, kind=_k):
        from lenstronomy.ImSim.image_model import ImageModel

        # Poisson noise: one pixel with a model of either sign, the others positive (every sign: contract 'variance')
        data, model, err = image(W, "d"), image(W, "m"), image(W, "e", 2, *((None, None, (-1, 1)) if kind == "map" else (0, None, (0, 1))))
        for i, j in ((0, 1), (1, 0), (1, 1)):
            if kind != "map":
                model[i, j] = W.real("mp%d%d" % (i, j), 0, None, (0.1, 4))
        D, kw = imdata(W, data, kind, **T(W))
        mask = W.choice("mask", MASKS[1:4] if kind == "map" else MASKS[1:2])
        default = W.choice("default mask", [False, True])
        I = model_class(W, D, None if default else np.array(mask))
        if default:
            mask = [[1, 1], [1, 1]]
        what = W.choice("what", ["logL", "variance", "residual"])
        rec = []

        def fimage(self, *a, **k):
            rec.append((a, k))
            return W.mat([list(r) for r in model])

        with swap(W, (ImageModel, "image", fimage), (ImageModel, "_error_map_psf", lambda self, *a, **k: err), both=True):
            var = variance(W, kw, model)
            if what == "logL":
                ll = I.likelihood_data_given_model("lens", "source", "lens_light", "ps", "ext", "special")
                W.eq("log-likelihood of the model image", ll, -chi2(W, model, data, var, err, mask) / 2)
                a, k = rec[0]
                W.same("the image is that of the given parameters", tuple(a) + tuple(k.get(q) for q in ("kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps", "kwargs_extinction", "kwargs_special")[len(a):]),
                       ("lens", "source", "lens_light", "ps", "ext", "special"))
            elif what == "variance":
                v = I.variance_map("lens", "source", "lens_light", "ps", "ext", "special")
                W.eq("variance map", v, W.mat([[var[i, j] + abs(err[i, j]) for j in range(2)] for i in range(2)]))
            else:
                r = I.reduced_residuals(model, err)
                for i in range(2):
                    for j in range(2):
                        if mask[i][j]:
                            W.eq("squared normalised residual", r[i, j] ** 2, (data[i, j] - model[i, j]) ** 2 / (var[i, j] + abs(err[i, j])))
                            W.true("sign of the residual is that of data - model", r[i, j] * (data[i, j] - model[i, j]) >= 0)
                        else:
                            W.eq("masked residual", r[i, j], 0 * r[i, j])
                n = sum(sum(q) for q in mask)
                W.same("number of data points", I.num_data_evaluate, n)
                W.eq("reduced chi2", I.reduced_chi2(model, err) * n, chi2(W, model, data, var, err, mask))


@contract("C11", "masked pixels", [IM + "likelihood_data_given_model", IM + "image2array_masked", IM + "array_masked2image", IM + "data_response", IM + "error_response"], samples=8, bounded=BND, max_paths=300)
def _mp(W):
    """image2array_masked picks the unmasked pixels in row order, array_masked2image puts them back"""
    data = image(W, "d")
    D, kw = imdata(W, data, "map", **T(W))
    mask = W.choice("mask", MASKS)
    I = model_class(W, D, np.array(mask))
    err = image(W, "e")
    I._error_map_model = lambda *a, **k: err
    idx = [(i, j) for i in range(2) for j in range(2) if mask[i][j]]
    W.eq("data vector", I.data_response, W._arr1([data[q] for q in idx]))
    c, e = I.error_response("lens", "ps", kwargs_special=None)
    W.eq("variance vector", c, W._arr1([kw["noise_map"][q] ** 2 + err[q] for q in idx]))
    W.eq("model error", e, err)
    v = [W.real("v%d" % i) for i in range(len(idx))]
    im = I.array_masked2image(W._arr1(v))
    W.shape("image", im, (2, 2))
    for i in range(2):
        for j in range(2):
            W.eq("pixel of the vector", im[i, j], v[idx.index((i, j))] if (i, j) in idx else 0)


@contract("C11", "psf error map", [IM + "_error_map_psf", IM + "_displace_astrometry", "ImSim/Numerics/point_source_rendering.py::PointSourceRendering.psf_variance_map"],
          samples=8, bounded="two point source components; the kernel amplitude estimate is arbitrary", assumes=["kernel_util.estimate_amp returns an arbitrary amplitude"])
def _pe(W):
    from lenstronomy.ImSim.image_model import ImageModel
    from lenstronomy.Data.psf import PSF
    from lenstronomy.PointSource.point_source import PointSource
    from lenstronomy.Util import kernel_util

    data = image(W, "d", 3)
    D, kw = imdata(W, data, "map", ra_at_xy_0=0, dec_at_xy_0=0, transform_pix2angle=np.array([[1.0, 0], [0, 1.0]]))
    vm = image(W, "v", 3, 0, None, (0, 1))
    kern = np.array([[0, 0.1, 0], [0.1, 0.6, 0.1], [0, 0.1, 0.0]])
    psf = PSF(psf_type="PIXEL", kernel_point_source=kern, psf_variance_map=vm, kernel_point_source_normalisation=False)
    bl = W.choice("bool list", [None, [True, True], [True, False], [False, True], [False, False]])
    I = ImageModel(D, psf, point_source_class=PointSource(["UNLENSED", "UNLENSED"]), psf_error_map_bool_list=bl)
    sp = W.choice("special", [None, "shift"])
    special = None if sp is None else {"delta_x_image": [1.0, 0.0, -1.0][:W.choice("offsets", [1, 3])], "delta_y_image": [-1.0, 1.0, 1.0]}
    if special is not None:
        special["delta_y_image"] = special["delta_y_image"][:len(special["delta_x_image"])]
    amps = {}

    def est(d, x, y, k):
        q = (float(x), float(y))
        if q not in amps:
            amps[q] = W.real("amp_%g_%g" % q, None, None, (-2, 2))
        return amps[q]

    kp = [{"ra_image": np.array([1.0, 2.0]), "dec_image": np.array([1.0, 1.0]), "point_amp": np.array([1.0, 1.0])},
          {"ra_image": np.array([0.0]), "dec_image": np.array([2.0]), "point_amp": np.array([1.0])}]
    with swap(W, (kernel_util, "estimate_amp", est), both=True):
        e = I._error_map_model([], kp, special)
    ref = [[0] * 3 for _ in range(3)]
    for c, on in enumerate(bl or [True, True]):
        if not on:
            continue
        for i in range(len(kp[c]["ra_image"])):
            x, y = kp[c]["ra_image"][i], kp[c]["dec_image"][i]
            g = 2 * c + i  # number of the image among those of all point sources
            if special is not None and g < len(special["delta_x_image"]):
                x, y = x + special["delta_x_image"][g], y + special["delta_y_image"][g]
            a = est(None, x, y, None) ** 2
            for p in range(3):
                for q in range(3):
                    r, s = int(y) + p - 1, int(x) + q - 1
                    if 0 <= r < 3 and 0 <= s < 3:
                        ref[r][s] = ref[r][s] + a * vm[p, q]
    W.eq("PSF error map", e, W.mat(ref))


@contract("C11", "linear fit", [IL + "likelihood_data_given_model", IL + "likelihood_data_given_model_solution", "ImSim/de_lens.py::marginalization_new", "ImSim/de_lens.py::marginalisation_const"],
          samples=10, bounded=BND, max_paths=400, assumes=["image_linear_solve returns an arbitrary model, error map and covariance (its contract: C12)"])
def _lf(W):
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit

    data, model, err = image(W, "d"), image(W, "m"), image(W, "e", 2, None, None, (-1, 1))
    D, kw = imdata(W, data, "map", **T(W))
    mask = W.choice("mask", MASKS[:3])
    I = model_class(W, D, np.array(mask), cls=ImageLinearFit)
    n = W.choice("n", [1, 2])
    a, b, c = W.real("a", 0, None, (0.5, 2)), W.real("b", None, None, (-0.3, 0.3)), W.real("c", 0, None, (0.5, 2))
    W.assume(a * c - b * b > 1e-3)
    cov = W.mat([[a]]) if n == 1 else W.mat([[a, b], [b, c]])
    det = a if n == 1 else a * c - b * b
    marg, pos, flux = W.choice("marg", [True, False]), W.choice("check", [True, False]), W.choice("positive", [True, False])
    rec = []

    def solve(self, *q, inv_bool=False, **k):
        rec.append((q, k))
        return model, err, (cov if inv_bool else None), "param"

    upd = []
    with swap(W, (ImageLinearFit, "image_linear_solve", solve), (ImageLinearFit, "update_linear_kwargs", lambda self, *q, **k: upd.append(q) or (None,) * 4),
              (ImageLinearFit, "check_positive_flux", lambda self, *q, **k: flux), both=True):
        ll, param = I.likelihood_data_given_model("lens", "source", "ll", "ps", "ext", None, source_marg=marg, check_positive_flux=pos)
    W.same("parameters", param, "param")
    W.same("arguments", rec[0][0][:5], ("lens", "source", "ll", "ps", "ext"))
    ref = -chi2(W, model, data, variance(W, kw, model), err, mask) / 2
    if marg:
        ref = ref + W.log(det) / 2
    if pos:
        W.true("the flux check is made with the solved amplitudes", len(upd) == 1 and upd[0][0] == "param")
        if not flux:
            ref = ref - 10 ** 8
    W.eq("log-likelihood", ll, ref)


@contract("C11", "marginalisation prior", ["ImSim/de_lens.py::marginalization_new"], samples=40, sym=False, bounded="sampled covariance matrices")
def _mpr(W):
    from lenstronomy.ImSim import de_lens

    n = W.choice("n", [1, 2, 3])
    B = np.array([[W.real("b%d%d" % (i, j), None, None, (-1, 1)) for j in range(n)] for i in range(n)])
    M = B @ B.T + 0.05 * np.eye(n)
    d = W.real("prior", 0, None, (0.2, 3))
    ev = np.minimum(np.linalg.eigvalsh(M), d ** 2)
    W.eq("truncated marginalisation", de_lens.marginalization_new(M, d_prior=d), np.sum(np.log(ev)) / 2 + n / 2 * np.log(np.pi / 2) - n * np.log(d))
    W.eq("without prior", de_lens.marginalization_new(M), np.log(np.linalg.det(M)) / 2)
    W.eq("singular", de_lens.marginalization_new(np.zeros((n, n))), -10.0 ** 15)




ML = "ImSim/MultiBand/multi_linear.py::MultiLinear."
MB = "ImSim/MultiBand/multi_data_base.py::MultiDataBase."
SB = "ImSim/MultiBand/single_band_multi_model.py::SingleBandMultiModel."


def multi_band(W, cls, compute, masks=None, kind="map"):
    datas, noises, mbl = [], [], []
    for b in range(len(compute)):
        d = image(W, "d%d_" % b)
        nm = image(W, "s%d_" % b, 2, 0, None, (0.2, 2))
        mbl.append([dict(image_data=d, noise_map=nm, **T(W)), {"psf_type": "NONE"}, {}])
        datas.append(d)
        noises.append(nm)
    m = cls(mbl, {}, compute_bool=list(compute), likelihood_mask_list=masks)
    return m, datas, noises


COMP = ((True, True, True), (True, False, True), (False, True, False), (True, True), (False, False))


@contract("C11", "multi-linear", [ML + "likelihood_data_given_model", ML + "__init__", MB + "__init__", MB + "num_data_evaluate", MB + "num_response_list", SB + "likelihood_data_given_model", MB + "num_bands"],
          samples=5, bounded="up to three bands of 2x2 pixels", assumes=["image_linear_solve returns an arbitrary model and error map (its contract: C12)"])
def _ml(W):
    from lenstronomy.ImSim.MultiBand.multi_linear import MultiLinear
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit

    comp = W.choice("computed", COMP)
    masks = [np.array(MASKS[1 + b]) for b in range(len(comp))]
    m, datas, noises = multi_band(W, MultiLinear, comp, masks)
    models = [image(W, "m%d_" % b) for b in range(len(comp))]
    rec = []

    def solve(self, *q, **k):
        b = self.image_index
        rec.append(b)
        return models[b], W.mat([[0, 0], [0, 0]]), None, "param%d" % b

    with swap(W, (ImageLinearFit, "image_linear_solve", solve), both=True):
        ll, par = m.likelihood_data_given_model([], [], [], [])
    on = [b for b, c in enumerate(comp) if c]
    W.same("computed bands", rec, on)
    W.same("parameters per band", list(par), ["param%d" % b if comp[b] else None for b in range(len(comp))])
    ref = 0
    for b in on:
        ref = ref - chi2(W, models[b], datas[b], variance(W, {"noise_map": noises[b]}, models[b]), 0, masks[b].tolist()) / 2
    W.eq("sum of the log-likelihoods of the computed bands", ll, ref)
    W.same("number of data points", m.num_data_evaluate, int(sum(masks[b].sum() for b in on)))
    W.same("number of bands", m.num_bands, len(comp))
    W.same("response sizes", list(m.num_response_list), [int(q.sum()) for q in masks])


for _j in ("joint_linear::JointLinear", "joint_linear_vary_background::JointLinear_VaryBG"):
    @contract("C11", "joint-linear.%s" % _j.split("::")[1], ["ImSim/MultiBand/%s.likelihood_data_given_model" % _j.replace("::", ".py::")],
              samples=5, bounded="up to three bands of 2x2 pixels", assumes=["image_linear_solve returns arbitrary models, error maps and covariance (its contract: C12)"])
    def _jl(W, j=_j):
        import importlib

        cls = getattr(importlib.import_module("lenstronomy.ImSim.MultiBand." + j.split("::")[0]), j.split("::")[1])
        from lenstronomy.ImSim.image_linear_solve import ImageLinearFit

        comp = W.choice("computed", COMP[:4])
        masks = [np.array(MASKS[1 + b]) for b in range(len(comp))]
        m, datas, noises = multi_band(W, cls, comp, masks)
        on = [b for b, c in enumerate(comp) if c]
        models = [image(W, "m%d_" % b) for b in on]
        errs = [image(W, "e%d_" % b, 2, None, None, (-1, 1)) for b in on]
        marg, flux = W.choice("marg", [False, True]), W.choice("positive", [None, True, False])
        cov = W.mat([[W.real("cov", 0, None, (0.1, 2))]])
        m.image_linear_solve = lambda *a, inv_bool=False, **k: (models, errs, cov if inv_bool else None, "param")
        upd = []
        with swap(W, (ImageLinearFit, "update_linear_kwargs", lambda self, p, *q, **k: upd.append(p) or (None,) * 4),
                  (ImageLinearFit, "check_positive_flux", lambda self, *q, **k: flux), both=True):
            ll, par = m.likelihood_data_given_model([], [], [], [], source_marg=marg, check_positive_flux=flux is not None)
        ref = 0
        for i, b in enumerate(on):
            ref = ref - chi2(W, models[i], datas[b], variance(W, {"noise_map": noises[b]}, models[i]), errs[i], masks[b].tolist()) / 2
        if marg:
            ref = ref + W.log(cov[0, 0]) / 2
        if flux is False:
            ref = ref - 10 ** 5
        if flux is not None:
            W.same("flux check with the solved amplitudes", upd, ["param"])
        W.same("parameters", par, "param")
        W.eq("sum of the log-likelihoods of the computed bands", ll, ref)


@contract("C11", "multi-band residuals", [MB + "reduced_residuals"], samples=5, bounded="up to three bands of 2x2 pixels")
def _mr(W):
    from lenstronomy.ImSim.MultiBand.joint_linear import JointLinear

    comp = W.choice("computed", COMP[:4])
    m, datas, noises = multi_band(W, JointLinear, comp)
    on = [b for b, c in enumerate(comp) if c]
    models = [image(W, "m%d_" % b) for b in on]
    errs = [image(W, "e%d_" % b, 2, None, None, (-1, 1)) for b in on]
    we = W.choice("errors", [True, False])
    r = m.reduced_residuals(models, errs) if we else m.reduced_residuals(models)
    W.same("one residual map per computed band", len(r), len(on))
    for k, b in enumerate(on):
        for i in range(2):
            for j in range(2):
                v = noises[b][i, j] ** 2 + (abs(errs[k][i, j]) if we else 0)
                W.eq("squared residual of band", r[k][i, j] ** 2, (datas[b][i, j] - models[k][i, j]) ** 2 / v)
                W.true("sign of the residual", r[k][i, j] * (datas[b][i, j] - models[k][i, j]) >= 0)


@contract("C11", "image likelihood", ["Sampling/Likelihoods/image_likelihood.py::ImageLikelihood." + q for q in ("logL", "num_data", "__init__")] + ["Util/class_creator.py::create_im_sim", SB + "likelihood_data_given_model"],
          samples=5, bounded="two bands of 2x2 pixels")
def _il(W):
    from lenstronomy.Sampling.Likelihoods.image_likelihood import ImageLikelihood
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
    from lenstronomy.ImSim.image_model import ImageModel

    datas, noises, mbl = [], [], []
    for b in range(2):
        d, nm = image(W, "d%d_" % b), image(W, "s%d_" % b, 2, 0, None, (0.2, 2))
        mbl.append([dict(image_data=d, noise_map=nm, **T(W)), {"psf_type": "NONE"}, {}])
        datas.append(d)
        noises.append(nm)
    typ = W.choice("type", ["multi-linear", "single-band", "not linear"])
    masks = [np.array(MASKS[1]), np.array(MASKS[3])]
    comp = W.choice("bands", [None, [False, True], [True, False]])
    if typ == "not linear":
        mbl, comp = mbl[:1], None
    model = image(W, "m")
    err = image(W, "e", 2, None, None, (-1, 1))
    nan = W.choice("undefined", [False] if W.sym else [False, True])
    if nan:
        model = W.mat([[float("nan"), 1.0], [1.0, 1.0]]) if not W.sym else np.array([[np.nan, 1.0], [1.0, 1.0]])
    L = ImageLikelihood(mbl, "multi-linear" if typ == "not linear" else typ, {}, bands_compute=comp, image_likelihood_mask_list=masks[:len(mbl)], linear_solver=typ != "not linear")
    with swap(W, (ImageLinearFit, "image_linear_solve", lambda self, *q, **k: (model, err, None, "param")), (ImageModel, "image", lambda self, *q, **k: model),
              (ImageModel, "_error_map_psf", lambda self, *q, **k: err), both=True):
        ll, par = L.logL([], [], [], [], None, None)
    on = [0] if typ != "multi-linear" else [b for b in range(2) if comp is None or comp[b]]
    if typ == "single-band":
        on = [0]
    W.same("number of data points", L.num_data, int(sum(masks[b].sum() for b in on)))
    if nan:
        W.eq("undefined likelihoods get the penalty", ll, -10 ** 15)
        return
    ref = 0
    for b in on:
        ref = ref - chi2(W, model, datas[b], variance(W, {"noise_map": noises[b]}, model), err, masks[b].tolist()) / 2
    W.eq("image log-likelihood", ll, ref)


@contract("C11", "tracer likelihood", ["ImSim/tracer_model.py::TracerModelSource." + q for q in ("__init__", "likelihood_data_given_model", "num_data_evaluate")], samples=8, bounded=BND,
          assumes=["tracer_model returns an arbitrary frame"])
def _tl(W):
    from lenstronomy.ImSim.tracer_model import TracerModelSource
    from lenstronomy.Data.psf import PSF

    data, model = image(W, "d"), image(W, "m")
    D, kw = imdata(W, data, "map", **T(W))
    mask = W.choice("mask", [None] + list(MASKS))
    t = TracerModelSource(D, PSF(psf_type="NONE"), likelihood_mask=None if mask is None else np.array(mask))
    t.tracer_model = lambda *a, **k: model
    mk = mask or [[1, 1], [1, 1]]
    W.eq("tracer log-likelihood", t.likelihood_data_given_model([], [], []), -chi2(W, model, data, variance(W, kw, model), 0, mk) / 2)
    W.same("number of data points", t.num_data_evaluate, sum(sum(q) for q in mk))

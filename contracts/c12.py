"""C12: solved linear amplitudes are the weighted least-squares solution."""
import numpy as np
from lv.world import contract
from contracts.common import swap
from contracts.imsim import image, imdata, MASKS

DL = "ImSim/de_lens.py::"
IL = "ImSim/image_linear_solve.py::ImageLinearFit."
BND = "numbers of amplitudes and of pixels as listed (matrix products are unrolled); all responses, data and variances with a well-conditioned normal matrix"
COND = ["np.linalg.cond reports the normal matrix as well conditioned (precondition of the property)", "np.linalg.inv and solve are exact"]


def matrix(W, name, n, m, smp=(-1, 1)):
    return W.mat([[W.real("%s%d_%d" % (name, i, j), None, None, smp) for j in range(m)] for i in range(n)])


def weights(W, n, name="w"):
    return W._arr1([W.real("%s%d" % (name, i), 0, None, (0.3, 3)) for i in range(n)])


def normal(A, w):
    """normal matrix of the response A[pixel, amplitude]"""
    n, k = np.shape(A)
    return [[sum(A[p, i] * w[p] * A[p, j] for p in range(n)) for j in range(k)] for i in range(k)]


def det(M):
    return M[0][0] if len(M) == 1 else M[0][0] * M[1][1] - M[0][1] * M[1][0]


def check_solution(W, A, w, d, B, Minv, img):
    n, k = np.shape(A)
    M = normal(A, w)
    for i in range(k):
        W.eq("weighted normal equation", sum(A[p, i] * w[p] * (sum(A[p, j] * B[j] for j in range(k)) - d[p]) for p in range(n)), 0, atol=1e-6)
    for p in range(n):
        W.eq("reconstruction is response times amplitudes", img[p], sum(A[p, j] * B[j] for j in range(k)))
    if Minv is not None:
        for i in range(k):
            for j in range(k):
                W.eq("covariance is the inverse of the normal matrix", sum(Minv[i, q] * M[q][j] for q in range(k)), 1 if i == j else 0, atol=1e-6)


for _k in (1, 2):
    @contract("C12", "wls.%d" % _k, [DL + "get_param_WLS", DL + "_stable_inv", DL + "_solve_stable", DL + "_cond_inv"], samples=40, bounded=BND, assumes=COND)
    def _wls(W, k=_k):
        from lenstronomy.ImSim import de_lens

        n = W.choice("pixels", [k, k + 1, 3])
        A, w, d = matrix(W, "A", n, k), weights(W, n), W.array("d", n, None, None, (-3, 3))
        M = normal(A, w)
        W.assume(det(M) > 1e-3)
        inv = W.choice("inv", [True, False])
        B, Minv, img = de_lens.get_param_WLS(A, w, d, inv_bool=inv)
        W.same("covariance returned when asked for", Minv is None, not inv)
        check_solution(W, A, w, d, B, Minv, img)
        # optimality: any other amplitudes fit worse by the positive quadratic form
        D = [W.real("delta%d" % i, None, None, (-1, 1)) for i in range(k)]

        def c2(b):
            return sum(w[p] * (sum(A[p, j] * b[j] for j in range(k)) - d[p]) ** 2 for p in range(n))

        W.eq("the solution minimises the weighted residual", c2([B[i] + D[i] for i in range(k)]) - c2(B), sum(w[p] * sum(A[p, j] * D[j] for j in range(k)) ** 2 for p in range(n)), rtol=1e-5, atol=1e-6)


@contract("C12", "wls.many", [DL + "get_param_WLS"], samples=30, sym=False, bounded="sampled responses of 3 to 6 amplitudes and up to 12 pixels")
def _wlsm(W):
    from lenstronomy.ImSim import de_lens

    k = W.choice("k", [3, 4, 6])
    n = W.choice("n", [6, 9, 12])
    A, w, d = matrix(W, "A", n, k), weights(W, n), W.array("d", n, None, None, (-3, 3))
    for inv in (True, False):
        B, Minv, img = de_lens.get_param_WLS(A, w, d, inv_bool=inv)
        check_solution(W, A, w, d, B, Minv, img)


@contract("C12", "wls.singular", [DL + "get_param_WLS", DL + "_cond_inv", DL + "get_param_WLS_interferometry"], samples=10, sym=False, bounded="sampled data with degenerate responses")
def _wlss(W):
    from lenstronomy.ImSim import de_lens

    n = 4
    a = W.array("a", n, None, None, (-1, 1))
    kind = W.choice("kind", ["zero", "copy", "none"])
    A = np.array([a, 0 * a if kind == "zero" else a]).T if kind != "none" else np.zeros((n, 2))
    w, d = weights(W, n), W.array("d", n, None, None, (-3, 3))
    for inv in (True, False):
        B, Minv, img = de_lens.get_param_WLS(A, w, d, inv_bool=inv)
        W.eq("degenerate responses give zero amplitudes", B, np.zeros(2))
        W.eq("and an empty model", img, np.zeros(n))
        b, c = de_lens.get_param_WLS_interferometry(A.T @ A, A.T @ d, inv)
        W.eq("degenerate interferometric responses give zero amplitudes", b, np.zeros(2))
    W.true("well conditioned", de_lens._cond_inv(np.diag([1.0, 2.0])) is True)
    W.true("ill conditioned", de_lens._cond_inv(np.diag([1.0, 1e-17])) is False)


@contract("C12", "wls.interferometry", [DL + "get_param_WLS_interferometry"], samples=20, bounded=BND, assumes=COND)
def _wlsi(W):
    from lenstronomy.ImSim import de_lens

    a, b, c = W.real("a", 0, None, (0.5, 2)), W.real("b", None, None, (-0.3, 0.3)), W.real("c", 0, None, (0.5, 2))
    W.assume(a * c - b * b > 1e-3)
    M, v = W.mat([[a, b], [b, c]]), W.array("v", 2, None, None, (-3, 3))
    inv = W.choice("inv", [True, False])
    B, Minv = de_lens.get_param_WLS_interferometry(M, v, inv_bool=inv)
    for i in range(2):
        W.eq("amplitudes solve the system", M[i, 0] * B[0] + M[i, 1] * B[1], v[i])
        if inv:
            for j in range(2):
                W.eq("covariance", M[i, 0] * Minv[0, j] + M[i, 1] * Minv[1, j], 1 if i == j else 0)
    W.same("covariance returned when asked for", Minv is None, not inv)


T = dict(ra_at_xy_0=0, dec_at_xy_0=0, transform_pix2angle=np.array([[-0.05, 0], [0, 0.05]]))


def fit_class(W, D, mask=None, psf=None, **kw):
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
    from lenstronomy.Data.psf import PSF

    return ImageLinearFit(D, psf or PSF(psf_type="NONE"), likelihood_mask=mask, **kw)


@contract("C12", "image_linear_solve", [IL + "image_linear_solve", "ImSim/image_model.py::ImageModel.error_response", "ImSim/image_model.py::ImageModel.data_response", "ImSim/image_model.py::ImageModel.array_masked2image"],
          samples=12, bounded=BND, assumes=COND + ["the linear response and the PSF error map are arbitrary (their contracts: C13, C11)"])
def _ils(W):
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
    from lenstronomy.ImSim.image_model import ImageModel

    data = image(W, "d")
    D, noise = imdata(W, data, "map", **T)
    mask = W.choice("mask", (MASKS[0], MASKS[1], MASKS[4]))
    I = fit_class(W, D, np.array(mask))
    idx = [(i, j) for i in range(2) for j in range(2) if mask[i][j]]
    k, n = W.choice("k", [1, 2]), len(idx)
    R = matrix(W, "R", k, n)
    err = image(W, "e", 2, 0, None, (0, 1))
    w = [1 / (noise["noise_map"][q] ** 2 + err[q]) for q in idx]
    A = W.mat([[R[i, p] for i in range(k)] for p in range(n)])
    W.assume(det(normal(A, w)) > 1e-3)
    inv = W.choice("inv", [True, False])
    upd, args = [], []
    with swap(W, (ImageLinearFit, "linear_response_matrix", lambda self, *a, **kk: args.append(a) or R), (ImageModel, "_error_map_psf", lambda self, *a, **kk: err),
              (ImageLinearFit, "update_linear_kwargs", lambda self, p, *a, **kk: upd.append((p, a)) or (None,) * 4), both=True):
        model, e, cov, param = I.image_linear_solve("lens", "source", "ll", "ps", "ext", "special", inv_bool=inv)
    W.same("response of the given parameters", args[0], ("lens", "source", "ll", "ps", "ext", "special"))
    W.eq("error map", e, err)
    W.shape("model image", model, (2, 2))
    check_solution(W, A, w, [data[q] for q in idx], param, cov, [model[q] for q in idx])
    for i in range(2):
        for j in range(2):
            if not mask[i][j]:
                W.eq("masked pixels of the model are zero", model[i, j], 0)
    W.true("amplitudes written back", len(upd) == 1 and upd[0][0] is param and upd[0][1] == ("lens", "source", "ll", "ps"))


def joint(W, cls, comp, masks):
    from contracts.c11 import multi_band

    return multi_band(W, cls, comp, masks)


COMP = ((True, True), (True, False), (False, True), (False, True, True), (True, False, True))

for _j in ("joint_linear::JointLinear", "joint_linear_vary_background::JointLinear_VaryBG"):
    @contract("C12", "joint.%s" % _j.split("::")[1], ["ImSim/MultiBand/%s.%s" % (_j.replace("::", ".py::"), q) for q in ("image_linear_solve", "linear_response_matrix", "data_response", "error_response", "_array2image_list")],
              samples=10, bounded=BND + "; up to three bands", assumes=COND + ["response and error map of each band are arbitrary (C13, C11)"], timeout=120)
    def _jls(W, j=_j):
        import importlib
        from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
        from lenstronomy.ImSim.image_model import ImageModel

        cls = getattr(importlib.import_module("lenstronomy.ImSim.MultiBand." + j.split("::")[0]), j.split("::")[1])
        bg = "BG" in j
        comp = W.choice("computed", COMP if not bg or not W.sym else (COMP[1], COMP[2]))
        masks = [np.array(MASKS[1 + b] if b != 1 else MASKS[4]) for b in range(len(comp))]
        m, datas, noises = joint(W, cls, comp, masks)
        idx = [[(i, q) for i in range(2) for q in range(2) if mk[i][q]] for mk in masks]
        on = [b for b, c in enumerate(comp) if c]
        k = 1 if bg else W.choice("k", [1, 2])
        R = {b: matrix(W, "R%d_" % b, k, len(idx[b])) for b in range(len(comp))}
        err = {b: image(W, "e%d_" % b, 2, 0, None, (0, 1)) for b in range(len(comp))}
        rows, w, d = [], [], []
        for b in on:
            for p, q in enumerate(idx[b]):
                rows.append([R[b][i, p] for i in range(k)] + ([1 if c == b else 0 for c in on] if bg else []))
                w.append(1 / (noises[b][q] ** 2 + err[b][q]))
                d.append(datas[b][q])
        A = W.mat(rows)
        nk = len(rows[0])
        if len(rows) < nk:
            W.assume(False)
        if nk <= 2:
            W.assume(det(normal(A, w)) > 1e-3)
        else:
            W.assume(np.linalg.cond(np.array(normal(A, w), dtype=float)) < 1e6)
        inv = W.choice("inv", [True, False])
        with swap(W, (ImageLinearFit, "linear_response_matrix", lambda self, *a, **kk: R[self.image_index]), (ImageModel, "_error_map_psf", lambda self, *a, **kk: err[self.image_index]), both=True):
            wl, e, cov, param = m.image_linear_solve([], [], [], [], None, None, inv_bool=inv)
        W.same("one model per computed band", len(wl), len(on))
        W.same("one error map per computed band", len(e), len(on))
        W.same("number of amplitudes", len(param), nk)
        pix = []
        for i, b in enumerate(on):
            W.eq("error map of band", e[i], err[b])
            pix += [wl[i][q] for q in idx[b]]
        check_solution(W, A, w, d, param, cov, pix)


def light(W, tag, n=1):
    """n Gaussian components with parameters"""
    return [dict(amp=W.real("%samp%d" % (tag, i), None, None, (0.5, 2)), sigma=W.real("%ssig%d" % (tag, i), 0, None, (0.2, 0.8)), center_x=W.real("%scx%d" % (tag, i), None, None, (-0.2, 0.2)), center_y=W.real("%scy%d" % (tag, i), None, None, (-0.2, 0.2))) for i in range(n)]


@contract("C12", "amplitudes", [IL + "update_linear_kwargs", IL + "linear_param_from_kwargs", IL + "num_param_linear", IL + "check_positive_flux"], samples=10,
          bounded="the listed model lists", assumes=["PointSource amplitudes: C19"])
def _amps(W):
    """the amplitude vector is (source, lens light, point sources) in model order, and writing it back and reading it again agree"""
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.PointSource.point_source import PointSource

    data = image(W, "d")
    D, noise = imdata(W, data, "map", **T)
    ns, nl, nps = W.choice("counts", [(2, 1, 1), (0, 2, 2), (1, 0, 0), (1, 1, 2), (0, 0, 1)])
    fixed = W.choice("fixed magnification", [False, True])
    I = fit_class(W, D, None, source_model_class=LightModel(["GAUSSIAN"] * ns), lens_light_model_class=LightModel(["GAUSSIAN"] * nl),
                  point_source_class=PointSource(["UNLENSED"] * nps))
    ks, kl = light(W, "s", ns), light(W, "l", nl)
    kp = [{"ra_image": np.array([0.1, -0.1]), "dec_image": np.array([0.0, 0.2]), "point_amp": W._arr1([W.real("p%d_%d" % (i, j), None, None, (0.5, 2)) for j in range(2)])} for i in range(nps)]
    n = ns + nl + 2 * nps
    W.same("number of linear parameters", I.num_param_linear([], ks, kl, kp), n)
    par = I.linear_param_from_kwargs(ks, kl, kp)
    ref = [q["amp"] for q in ks] + [q["amp"] for q in kl] + [v for q in kp for v in q["point_amp"]]
    W.same("number of amplitudes", len(par), n)
    for a, b in zip(par, ref):
        W.eq("amplitude read from the parameters", a, b)
    new = [W.real("new%d" % i, None, None, (-2, 2)) for i in range(n)]
    keep = [dict(q) for q in ks + kl]
    r = I.update_linear_kwargs(new, [], ks, kl, kp)
    for c, (q, old) in enumerate(zip(list(r[1]) + list(r[2]), keep)):
        for name in old:
            W.eq("updated " + name, q[name], new[c] if name == "amp" else old[name])
    for c, q in enumerate(r[3]):
        for i in range(2):
            W.eq("updated point source amplitude", q["point_amp"][i], new[ns + nl + 2 * c + i])
    pos = I.check_positive_flux(r[1], r[2], r[3])
    if W.sym:
        return
    W.same("positive flux check", bool(pos), bool(all(v >= 0 for v in new)))


@contract("C12", "error_map_source", [IL + "error_map_source"], samples=10, bounded="three positions, two basis functions")
def _ems(W):
    from lenstronomy.LightModel.light_model import LightModel

    data = image(W, "d")
    D, noise = imdata(W, data, "map", **T)
    I = fit_class(W, D, None, source_model_class=LightModel(["GAUSSIAN", "GAUSSIAN"]))
    ks = light(W, "s", 2)
    x, y = W.array("x", 3, None, None, (-1, 1)), W.array("y", 3, None, None, (-1, 1))
    a, b, c = W.real("a", 0, None, (0.5, 2)), W.real("b", None, None, (-0.3, 0.3)), W.real("c", 0, None, (0.5, 2))
    cov = W.mat([[a, b, 7], [b, c, 8], [7, 8, 9]])
    e = I.error_map_source(ks, x, y, cov)
    f, n = I.SourceModel.functions_split(x, y, ks)
    for i in range(3):
        W.eq("variance of the source", e[i], a * f[0][i] ** 2 + 2 * b * f[0][i] * f[1][i] + c * f[1][i] ** 2)
    W.eq("no covariance", I.error_map_source(ks, x, y, None), 0 * x)


@contract("C12", "interferometry", [IL + "_image_linear_solve_interferometry_natwt", IL + "_image_linear_solve_interferometry_natwt_solving", IL + "image_linear_solve"], samples=10,
          bounded="2x2 pixels, two light components, 3x3 point-symmetric beam", assumes=COND + ["the discrete convolution theorem (np.fft)"], timeout=120)
def _int(W):
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF

    data = image(W, "d")
    s = W.real("sigma", 0, None, (0.5, 2))
    D = ImageData(data, background_rms=s, exposure_time=100.0, likelihood_method="interferometry_natwt", **T)
    a, b, c, e = [W.real("k%d" % i, None, None, (-0.1, 0.2)) for i in range(4)]
    kern = W.mat([[a, b, c], [e, 1, e], [c, b, a]])
    I = fit_class(W, D, None, psf=PSF(psf_type="PIXEL", kernel_point_source=kern, kernel_point_source_normalisation=False))
    A = matrix(W, "A", 2, 4, (0.1, 1))

    def beam(v):
        out = []
        for i in range(2):
            for j in range(2):
                out.append(sum(v[2 * p + q] * kern[i - p + 1, j - q + 1] for p in range(2) for q in range(2)))
        return out

    BA = [beam(A[i]) for i in range(2)]
    M = [[sum(A[i, p] * BA[j][p] for p in range(4)) for j in range(2)] for i in range(2)]
    W.assume(abs(M[0][0] * M[1][1] - M[0][1] * M[1][0]) > 1e-2)
    inv = W.choice("inv", [True, False])
    upd = []
    with swap(W, (ImageLinearFit, "linear_response_matrix_interferometry_unconvolved", lambda self, *q, **k: A),
              (ImageLinearFit, "update_linear_kwargs", lambda self, p, *q, **k: upd.append(p) or (None,) * 4), both=True):
        model, err, cov, par = I.image_linear_solve([], [], [], [], inv_bool=inv)
    dv = [data[i, j] for i in range(2) for j in range(2)]
    for i in range(2):
        W.eq("interferometric normal equations", sum(M[i][j] * par[j] for j in range(2)), sum(A[i, p] * dv[p] for p in range(4)))
        if inv:
            for j in range(2):
                W.eq("covariance", sum(M[i][q] * cov[q, j] for q in range(2)), s ** 2 if i == j else 0)
    for p in range(4):
        W.eq("unconvolved model", model[0][p // 2, p % 2], sum(par[i] * A[i, p] for i in range(2)))
        W.eq("dirty model", model[1][p // 2, p % 2], sum(par[i] * BA[i][p] for i in range(2)))
    W.true("amplitudes written back", len(upd) == 1)


MB = "ImSim/MultiBand/"


@contract("C12", "number of amplitudes", [MB + "multi_data_base.py::MultiDataBase.num_param_linear", MB + "joint_linear.py::JointLinear.num_param_linear", MB + "joint_linear_vary_background.py::JointLinear_VaryBG.num_param_linear",
                                          MB + "single_band_multi_model.py::SingleBandMultiModel.num_param_linear", "Sampling/Likelihoods/image_likelihood.py::ImageLikelihood.num_param_linear"], samples=3, sym=True, bounded="listed band combinations")
def _npl(W):
    """the number of linear parameters is the number of amplitudes the solver returns"""
    import importlib

    which = W.choice("class", ["multi_linear.MultiLinear", "joint_linear.JointLinear", "joint_linear_vary_background.JointLinear_VaryBG"])
    cls = getattr(importlib.import_module("lenstronomy.ImSim.MultiBand." + which.split(".")[0]), which.split(".")[1])
    comp = W.choice("computed", COMP)
    mbl = [[dict(image_data=np.ones((3, 3)), noise_map=np.ones((3, 3)), **T), {"psf_type": "NONE"}, {}] for _ in comp]
    m = cls(mbl, {"lens_light_model_list": ["GAUSSIAN", "SERSIC"], "source_light_model_list": ["GAUSSIAN"]}, compute_bool=list(comp))
    g = dict(amp=1, sigma=0.3, center_x=0, center_y=0)
    s = dict(amp=1, R_sersic=0.3, n_sersic=1, center_x=0, center_y=0)
    n = m.num_param_linear([], [g], [g, s], [])
    on = sum(comp)
    W.same("number of linear parameters", n, {"M": 3 * on, "J": 3}[which.split(".")[1][0]] + (on if "BG" in which else 0))

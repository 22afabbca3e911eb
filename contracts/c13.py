"""C13: model images are the sum of their parts and linear in the surface-brightness amplitudes."""
import numpy as np
from lv.world import contract
from contracts.common import swap, abstract_profiles, SIS, SHEAR, CONV, lens_kwargs, cosmology
from contracts.imsim import image, imdata, MASKS
from contracts.c12 import light

IM = "ImSim/image_model.py::ImageModel."
IL = "ImSim/image_linear_solve.py::ImageLinearFit."
I2 = "ImSim/image2source_mapping.py::Image2SourceMapping."
SB = "ImSim/MultiBand/single_band_multi_model.py::SingleBandMultiModel."
CC = "Util/class_creator.py::"
BND = "frames of 2x2 or 3x3 pixels and the listed numbers of components (unrolled); all parameters, positions and frame orientations"


def trans(W):
    t = [[W.real("T00", None, None, (-0.6, -0.4)), W.real("T01", None, None, (-0.1, 0.1))], [W.real("T10", None, None, (-0.1, 0.1)), W.real("T11", None, None, (0.4, 0.6))]]
    W.assume(t[0][0] * t[1][1] - t[0][1] * t[1][0] < -1e-3)
    return dict(transform_pix2angle=W.mat(t), ra_at_xy_0=W.real("ra0", None, None, (0.1, 0.6)), dec_at_xy_0=W.real("dec0", None, None, (-0.6, -0.1)))


def grid_of(W, fr, n=2):
    """sky coordinates of pixel [row][column], flattened by rows"""
    T = fr["transform_pix2angle"]
    return [(fr["ra_at_xy_0"] + T[0, 0] * c + T[0, 1] * r, fr["dec_at_xy_0"] + T[1, 0] * c + T[1, 1] * r) for r in range(n) for c in range(n)]


def area(fr):
    T = fr["transform_pix2angle"]
    return T[0, 1] * T[1, 0] - T[0, 0] * T[1, 1]


def build(W, cls="image_model.ImageModel", n=2, psf=None, data=None, noise=None, mask=None, fr=None, dkw=None, **kw):
    import importlib
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF

    fr = fr or trans(W)
    C = getattr(importlib.import_module("lenstronomy.ImSim." + cls.split(".")[0]), cls.split(".")[1])
    D = ImageData(data if data is not None else np.ones((n, n)), noise_map=noise if noise is not None else np.ones((n, n)), **fr, **(dkw or {}))
    return C(D, psf or PSF(psf_type="NONE"), likelihood_mask=mask, **kw), fr


PARTS = ("source_surface_brightness", "lens_surface_brightness", "point_source")


@contract("C13", "image.sum", [IM + "image"], samples=4, bounded=BND, assumes=["the parts return arbitrary frames"])
def _sum(W):
    from lenstronomy.ImSim.image_model import ImageModel

    I, fr = build(W)
    S, L, P = image(W, "s"), image(W, "l"), image(W, "p")
    rec = {}
    import inspect

    sig = {q: inspect.signature(getattr(ImageModel, q)) for q in PARTS}

    def part(name, im):
        def f(self, *a, **k):
            b = sig[name].bind(self, *a, **k)
            rec[name] = dict(b.arguments)
            return W.mat([list(r) for r in im])

        return f

    on = [W.choice(q, [True, False]) for q in ("source", "lens light", "point source")]
    unc, pb = W.choice("unconvolved", [True, False]), W.choice("beam", [True, False])
    with swap(W, *[(ImageModel, q, part(q, im)) for q, im in zip(PARTS, (S, L, P))], both=True):
        im = I.image("lens", "src", "ll", "ps", "ext", {"sp": 1}, unconvolved=unc, apply_primary_beam=pb, source_add=on[0], lens_light_add=on[1], point_source_add=on[2])
    for i in range(2):
        for j in range(2):
            W.eq("image is the sum of the enabled parts", im[i, j], (S[i, j] if on[0] else 0) + (L[i, j] if on[1] else 0) + (P[i, j] if on[2] else 0))
    exp = {"source_surface_brightness": dict(kwargs_source="src", kwargs_lens="lens", kwargs_extinction="ext", kwargs_special={"sp": 1}), "lens_surface_brightness": dict(kwargs_lens_light="ll"),
           "point_source": dict(kwargs_ps="ps", kwargs_lens="lens", kwargs_special={"sp": 1})}
    for q, o in zip(PARTS, on):
        if o:
            for k, v in dict(exp[q], unconvolved=unc, apply_primary_beam=pb).items():
                W.same("%s gets %s" % (q, k), rec[q].get(k, {"unconvolved": False, "apply_primary_beam": True}.get(k)), v)


def lens(W, n=1):
    from lenstronomy.LensModel.lens_model import LensModel

    names = ["SIS", "CONVERGENCE"][:n]
    return LensModel(names), lens_kwargs(W, names)


def gauss(W, k, x, y):
    return k["amp"] / (2 * W.pi * k["sigma"] ** 2) * W.exp(-((x - k["center_x"]) ** 2 + (y - k["center_y"]) ** 2) / (2 * k["sigma"] ** 2))


@contract("C13", "source", [IM + "source_surface_brightness", IM + "_source_surface_brightness_analytical", IM + "_source_surface_brightness_analytical_numerics", "ImSim/differential_extinction.py::DifferentialExtinction.extinction",
                            I2 + "image_flux_joint"], samples=6, bounded=BND, timeout=100, assumes=["arbitrary lens deflection"])
def _source(W):
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.ImSim.differential_extinction import DifferentialExtinction

    lm, kl = lens(W)
    ks, ke = light(W, "s", 2), light(W, "e", 1)
    fs = W.real("flux scaling", None, None, (0.5, 2))
    pbm = image(W, "pb", 2, 0, None, (0.1, 1))
    pb = W.choice("primary beam", [False, True])
    ext = W.choice("extinction", [False, True])
    with abstract_profiles(W, [SIS]):
        I, fr = build(W, lens_model_class=lm, source_model_class=LightModel(["GAUSSIAN", "GAUSSIAN"]), dkw=dict(flux_scaling=fs, antenna_primary_beam=pbm if pb else None),
                      extinction_class=DifferentialExtinction(optical_depth_model=["GAUSSIAN"], tau0_index=1) if ext else None)
        k, dl = W.choice("k", [None, 0, 1]), W.choice("de-lensed", [False, True])
        ap = W.choice("apply beam", [True, False])
        t0 = W.real("tau0", None, None, (0.2, 2))
        im = I.source_surface_brightness(ks, kl, kwargs_extinction=ke if ext else None, kwargs_special={"tau0_list": [5.0, t0]} if ext else None, unconvolved=W.choice("unconvolved", [True, False]), apply_primary_beam=ap, de_lensed=dl, k=k)
        W.shape("source image", im, (2, 2))
        for p, (x, y) in enumerate(grid_of(W, fr)):
            if dl:
                bx, by, e = x, y, 1
            else:
                ax, ay = lm.alpha(x, y, kl)
                bx, by, e = x - ax, y - ay, W.exp(-t0 * gauss(W, ke[0], x, y)) if ext else 1
            ref = sum(gauss(W, q, bx, by) for i, q in enumerate(ks) if k is None or k == i) * e * fs * area(fr)
            if pb and ap:
                ref = ref * pbm[p // 2, p % 2]
            W.eq("source image of a pixel", im[p // 2, p % 2], ref)


@contract("C13", "lens light", [IM + "lens_surface_brightness", IM + "_lens_surface_brightness_analytical"], samples=6, bounded=BND)
def _ll(W):
    from lenstronomy.LightModel.light_model import LightModel

    kl = light(W, "l", 2)
    fs = W.real("flux scaling", None, None, (0.5, 2))
    pbm = image(W, "pb", 2, 0, None, (0.1, 1))
    pb, ap = W.choice("primary beam", [False, True]), W.choice("apply beam", [True, False])
    I, fr = build(W, lens_light_model_class=LightModel(["GAUSSIAN", "GAUSSIAN"]), dkw=dict(flux_scaling=fs, antenna_primary_beam=pbm if pb else None))
    k = W.choice("k", [None, 0, 1])
    im = I.lens_surface_brightness(kl, unconvolved=W.choice("unconvolved", [True, False]), apply_primary_beam=ap, k=k)
    W.shape("lens light image", im, (2, 2))
    for p, (x, y) in enumerate(grid_of(W, fr)):
        ref = sum(gauss(W, q, x, y) for i, q in enumerate(kl) if k is None or k == i) * fs * area(fr)
        if pb and ap:
            ref = ref * pbm[p // 2, p % 2]
        W.eq("lens light of a pixel", im[p // 2, p % 2], ref)


def psources(W, n=2):
    """point sources near pixels of a frame of 3x3 unit pixels"""
    pos = [[(0, 1), (2, 2)], [(1, 0)]][:n]
    kp = []
    for c, q in enumerate(pos):
        kp.append({"ra_image": W._arr1([a[0] + W.real("dx%d%d" % (c, i), -0.4, 0.4, (-0.3, 0.3)) for i, a in enumerate(q)]), "dec_image": W._arr1([a[1] + W.real("dy%d%d" % (c, i), -0.4, 0.4, (-0.3, 0.3)) for i, a in enumerate(q)]),
                   "point_amp": W._arr1([W.real("pa%d%d" % (c, i), 0, None, (0.5, 2)) for i in range(len(q))])})
    return kp


UNIT = dict(transform_pix2angle=np.array([[1.0, 0], [0, 1.0]]), ra_at_xy_0=0, dec_at_xy_0=0)


def kernel(W, name="k"):
    return np.array([[1, 6, 3], [9, 50, 4], [2, 8, 5]]) / 64.0


def pkernel(W):
    from lenstronomy.Data.psf import PSF

    kern = kernel(W)
    return PSF(psf_type="PIXEL", kernel_point_source=W.mat([list(r) for r in kern]), kernel_point_source_normalisation=False), kern


@contract("C13", "point sources", [IM + "point_source", IM + "_displace_astrometry", IM + "_select_displacements", "PointSource/point_source.py::PointSource.point_source_list"], samples=6, bounded=BND,
          assumes=["point_source_rendering is arbitrary but additive over point sources (contract: C10, C14)"])
def _ps(W):
    from lenstronomy.PointSource.point_source import PointSource

    kp = psources(W)
    fs = W.real("flux scaling", None, None, (0.5, 2))
    I, fr = build(W, n=3, fr=UNIT, point_source_class=PointSource(["UNLENSED", "UNLENSED"]), dkw=dict(flux_scaling=fs))
    k, unc = W.choice("k", [None, 0, 1]), W.choice("unconvolved", [True, False])
    nd = W.choice("displaced", [None, 1, 3])
    sp = None
    if nd is not None:
        sp = {"delta_x_image": [W.real("ox%d" % i, None, None, (-1, 1)) for i in range(nd)], "delta_y_image": [W.real("oy%d" % i, None, None, (-1, 1)) for i in range(nd)]}
    R = W.uf("render", 5)
    calls = []

    def rend(ra, dec, amp, unconvolved=False):
        calls.append(unconvolved)
        im = [[0] * 3 for _ in range(3)]
        for q in range(len(ra)):
            for i in range(3):
                for j in range(3):
                    im[i][j] = im[i][j] + amp[q] * R(ra[q], dec[q], float(i), float(j), 1.0)
        return W.mat(im)

    I.ImageNumerics.point_source_rendering = rend
    im = I.point_source(kp, [], kwargs_special=sp, unconvolved=unc, k=k)
    W.same("convolution switch", calls, [unc])
    ref = [[0] * 3 for _ in range(3)]
    g = 0
    for c in range(2):
        for q in range(len(kp[c]["ra_image"])):
            x, y = kp[c]["ra_image"][q], kp[c]["dec_image"][q]
            if nd is not None and g < nd:
                x, y = x + sp["delta_x_image"][g], y + sp["delta_y_image"][g]
            g += 1
            if k is None or k == c:
                for i in range(3):
                    for j in range(3):
                        ref[i][j] = ref[i][j] + fs * kp[c]["point_amp"][q] * R(x, y, float(i), float(j), 1.0)
    for i in range(3):
        for j in range(3):
            W.eq("point sources on a pixel", im[i, j], ref[i][j])


for _cfg in ("source+light", "points", "all"):
    @contract("C13", "linear response.%s" % _cfg, [IL + "linear_response_matrix", IL + "point_source_linear_response_set", IL + "linear_param_from_kwargs", IM + "image", I2 + "image_flux_split", I2 + "image_flux_joint",
                                                    "ImSim/Numerics/point_source_rendering.py::PointSourceRendering.point_source_rendering", "ImSim/Numerics/numerics.py::Numerics.re_size_convolve", "PointSource/point_source.py::PointSource.linear_response_set"],
              samples=5, bounded=BND + "; 3x3 kernels", timeout=100, max_paths=300, assumes=["discrete convolution theorem", "ndimage.shift with order=1 is linear interpolation"])
    def _lin(W, cfg=_cfg):
        from lenstronomy.LightModel.light_model import LightModel
        from lenstronomy.PointSource.point_source import PointSource

        psf, kern = pkernel(W)
        n = 3
        fr = UNIT if cfg != "source+light" else trans(W)
        lm, kl = lens(W)
        ks = light(W, "s", 2) if cfg == "source+light" else light(W, "s", 1) if cfg == "all" else []
        kll = light(W, "l", 1) if cfg != "points" else []
        kp = [] if cfg == "source+light" else psources(W, 2 if cfg == "points" else 1)
        if cfg == "points":
            kp = [{q: v[:1] for q, v in kp[0].items()}, dict(kp[1], ra_image=np.array([1.25]), dec_image=np.array([0.25]))]
        if cfg == "all":
            kp = [{q: v[:1] for q, v in kp[0].items()}]
        mask = W.choice("mask", [None, np.array([[1, 0, 1], [0, 1, 1], [1, 1, 0]])])
        sp = None
        if cfg == "points" and W.choice("displaced", [False, True]):
            sp = {"delta_x_image": [0.0625, 1.0], "delta_y_image": [-0.0625, -1.0]}
        fs = W.real("flux scaling", None, None, (0.5, 2))
        with abstract_profiles(W, [SIS]):
            I, fr = build(W, "image_linear_solve.ImageLinearFit", n=n, psf=psf, fr=fr, mask=mask, lens_model_class=lm, source_model_class=LightModel(["GAUSSIAN"] * len(ks)),
                          lens_light_model_class=LightModel(["GAUSSIAN"] * len(kll)), point_source_class=PointSource(["UNLENSED"] * len(kp)), dkw=dict(flux_scaling=fs))
            unc = W.choice("unconvolved", [False, True])
            A = I.linear_response_matrix(kl, ks, kll, kp, kwargs_special=sp, unconvolved=unc)
            im = I.image(kl, ks, kll, kp, kwargs_special=sp, unconvolved=unc)
            amps = I.linear_param_from_kwargs(ks, kll, kp)
        mk = np.ones((n, n)) if mask is None else mask
        idx = [(i, j) for i in range(n) for j in range(n) if mk[i, j]]
        W.same("one response per amplitude", np.shape(A), (len(amps), len(idx)))
        for p, q in enumerate(idx):
            W.eq("response times amplitudes is the image", sum(A[i, p] * amps[i] for i in range(len(amps))), im[q])


@contract("C13", "linear response.special", [IL + "linear_response_matrix"], samples=6, sym=False, bounded="sampled parameters of a lens with source, lens light, quasar and extinction")
def _lsp(W):
    """numerics and point source types that the symbolic contract leaves out"""
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.PointSource.point_source import PointSource
    from lenstronomy.ImSim.differential_extinction import DifferentialExtinction
    from lenstronomy.Data.psf import PSF

    kern = np.array([[W.real("k%d%d" % (i, j), 0, None, (0.02, 0.3)) for j in range(7)] for i in range(7)])
    kl = [dict(theta_E=W.real("tE", 0, None, (0.8, 1.2)), e1=W.real("e1", None, None, (-0.2, 0.2)), e2=W.real("e2", None, None, (-0.2, 0.2)), center_x=0.01, center_y=-0.02)]
    ks = [dict(amp=W.real("sa", None, None, (1, 20)), R_sersic=0.3, n_sersic=1.5, center_x=W.real("bx", None, None, (-0.1, 0.1)), center_y=0.05)] + [dict(amp=np.array([W.real("sh%d" % i, None, None, (-3, 3)) for i in range(6)]), beta=0.2, n_max=2, center_x=0, center_y=0)]
    kll = [dict(amp=W.real("la", None, None, (1, 20)), R_sersic=0.6, n_sersic=3, center_x=0, center_y=0, e1=0.1, e2=0.0)]
    fm = W.choice("fixed magnification", [True, False])
    kp = [dict(ra_image=np.array([W.real("px%d" % i, None, None, (-1, 1)) for i in range(2)]), dec_image=np.array([W.real("py%d" % i, None, None, (-1, 1)) for i in range(2)]))]
    kp[0]["source_amp" if fm else "point_amp"] = W.real("pa", 0, None, (1, 5)) if fm else np.array([W.real("pa0", 0, None, (1, 5)), W.real("pa1", 0, None, (1, 5))])
    num = W.choice("numerics", [dict(), dict(supersampling_factor=3), dict(supersampling_factor=2, supersampling_convolution=True), dict(supersampling_factor=3, supersampling_convolution=True, supersampling_kernel_size=3),
                                dict(compute_mode="adaptive", supersampling_factor=3, supersampled_indexes=np.add.outer(np.arange(11), np.arange(11)) % 3 == 0), dict(convolution_type="grid"), dict(convolution_kernel_size=3),
                                dict(flux_evaluate_indexes=np.add.outer(np.arange(11), np.arange(11)) > 3)])
    psf = W.choice("psf", [dict(psf_type="PIXEL", kernel_point_source=kern), dict(psf_type="GAUSSIAN", fwhm=0.4), dict(psf_type="NONE")])
    if psf["psf_type"] == "GAUSSIAN" and num.get("compute_mode") == "adaptive":
        psf = dict(psf_type="PIXEL", kernel_point_source=kern)
    ext = W.choice("extinction", [False, True])
    fr = dict(transform_pix2angle=np.array([[-0.25, 0.02], [0.01, 0.25]]), ra_at_xy_0=1.25, dec_at_xy_0=-1.25)
    mask = np.ones((11, 11))
    mask[3, :5] = 0
    I, _ = build(W, "image_linear_solve.ImageLinearFit", n=11, psf=PSF(**psf), fr=fr, mask=mask, lens_model_class=LensModel(["SIE"]), source_model_class=LightModel(["SERSIC", "SHAPELETS"]), lens_light_model_class=LightModel(["SERSIC_ELLIPSE"]),
                 point_source_class=PointSource(["LENSED_POSITION"], fixed_magnification_list=[fm], lens_model=LensModel(["SIE"])), kwargs_numerics=num, extinction_class=DifferentialExtinction(optical_depth_model=["UNIFORM"]) if ext else None)
    ke, sp = ([dict(amp=0.3)], {"delta_x_image": [0.05, -0.03], "delta_y_image": [0.02, 0.1]})
    unc = W.choice("unconvolved", [False, True])
    A = I.linear_response_matrix(kl, ks, kll, kp, ke if ext else None, sp, unconvolved=unc)
    im = I.image(kl, ks, kll, kp, ke if ext else None, sp, unconvolved=unc)
    amps = I.linear_param_from_kwargs(ks, kll, kp)
    W.same("one response per amplitude", np.shape(A), (len(amps), int(mask.sum())))
    W.eq("response times amplitudes is the image", np.array(amps) @ A, im[mask > 0], rtol=1e-6, atol=1e-7)


# ------------------------------------------------------------------ image to source mapping
@contract("C13", "mapping.single plane", [I2 + q for q in ("__init__", "image2source", "image_flux_joint", "image_flux_split")], samples=6, bounded="two source components, two positions", assumes=["arbitrary lens deflection"])
def _map1(W):
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.ImSim.image2source_mapping import Image2SourceMapping

    lm, kl = lens(W)
    sc = W.choice("scaling", [None, "list"])
    scl = None if sc is None else [W.real("f0", None, None, (0.3, 1)), W.real("f1", None, None, (0.3, 1))]
    ks = light(W, "s", 2)
    x, y = W.array("x", 2, None, None, (0.3, 1.5)), W.array("y", 2, None, None, (0.3, 1.5))
    with abstract_profiles(W, [SIS]):
        m = Image2SourceMapping(lm, LightModel(["GAUSSIAN", "GAUSSIAN"], deflection_scaling_list=scl))
        ax, ay = lm.alpha(x, y, kl)
        per = []
        for i in range(2):
            f = 1 if scl is None else scl[i]
            bx, by = m.image2source(x, y, kl, i)
            W.eq("source position", bx, x - f * ax)
            W.eq("source position y", by, y - f * ay)
            per.append([gauss(W, ks[i], x[q] - f * ax[q], y[q] - f * ay[q]) for q in range(2)])
        k = W.choice("k", [None, 0, 1])
        j = m.image_flux_joint(x, y, kl, ks, k=k)
        sp, n = m.image_flux_split(x, y, kl, ks)
    W.same("number of responses", n, 2)
    for q in range(2):
        W.eq("flux of the selected components", j[q], sum(per[i][q] for i in range(2) if k is None or k == i))
        for i in range(2):
            W.eq("response of each component", sp[i][q] * ks[i]["amp"], per[i][q])


@contract("C13", "mapping.multi plane", [I2 + q for q in ("__init__", "image2source", "image_flux_joint", "image_flux_split", "set_T_ij_arrays", "_index_ordering", "_re_order_split")], samples=6, bounded="three source components of one, one and two amplitudes, two lens planes, one position",
          timeout=100, assumes=["arbitrary lens deflections", "arbitrary flat cosmology"])
def _map2(W):
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.ImSim.image2source_mapping import Image2SourceMapping

    zs = W.choice("source redshifts", [[2.0, 0.7, 1.5], [0.7, 0.7, 2.0], [0.7, 0.7, 0.7], [2.0, 2.0, 2.0], [1.5, 0.7, 0.7], [0.3, 2.0, 1.0]])
    zl = W.choice("lens redshifts", [[0.5, 1.0], [1.0, 0.5]])
    allz = sorted(set(zs + zl + [2.0]))
    cosmo = cosmology(W, allz)
    lm = LensModel(["SIS", "CONVERGENCE"], multi_plane=True, z_source=2.0, lens_redshift_list=zl, cosmo=cosmo)
    kl = lens_kwargs(W, ["SIS", "CONVERGENCE"])
    ks = light(W, "s", 2)
    ks.append(dict(amp=W._arr1([W.real("ma0", None, None, (0.5, 2)), W.real("ma1", None, None, (0.5, 2))]), sigma=W._arr1([W.real("ms0", 0, None, (0.2, 1)), W.real("ms1", 0, None, (0.2, 1))]), center_x=0, center_y=0))
    x, y = W.array("x", 1, None, None, (0.3, 1.5)), W.array("y", 1, None, None, (0.3, 1.5))
    with abstract_profiles(W, [SIS, CONV]):
        m = Image2SourceMapping(lm, LightModel(["GAUSSIAN", "GAUSSIAN", "MULTI_GAUSSIAN"], source_redshift_list=zs))
        per = []
        for i in range(3):
            ref = LensModel(["SIS", "CONVERGENCE"], multi_plane=True, z_source=2.0, lens_redshift_list=zl, cosmo=cosmo)
            bx, by, _, _ = ref.lens_model.ray_shooting_partial(0 * x, 0 * y, x, y, 0, zs[i], kl)
            gx, gy = m.image2source(x, y, kl, i)
            W.eq("source position", gx, bx)
            W.eq("source position y", gy, by)
            if i < 2:
                per.append([gauss(W, ks[i], bx[0], by[0])])
            else:
                per.append([gauss(W, dict(amp=ks[2]["amp"][q], sigma=ks[2]["sigma"][q], center_x=0, center_y=0), bx[0], by[0]) for q in range(2)])
        k = W.choice("k", [None, 0, 1, 2])
        j = m.image_flux_joint(x, y, kl, ks, k=k)
        sp, n = m.image_flux_split(x, y, kl, ks)
    W.same("number of responses", n, 4)
    W.eq("flux of the selected components", j[0], sum(sum(per[i]) for i in range(3) if k is None or k == i))
    amps = [ks[0]["amp"], ks[1]["amp"], ks[2]["amp"][0], ks[2]["amp"][1]]
    flat = [v for q in per for v in q]
    for i in range(4):
        W.eq("responses come in the order of the amplitudes", sp[i][0] * amps[i], flat[i])


@contract("C13", "mapping.invalid", [I2 + "__init__"], samples=2, bounded="the listed configurations")
def _map3(W):
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.ImSim.image2source_mapping import Image2SourceMapping

    W.raises("scaling list of another length", lambda: Image2SourceMapping(LensModel(["SIS"]), LightModel(["GAUSSIAN"], deflection_scaling_list=[1, 1])), ValueError)
    lm = LensModel(["SIS"], multi_plane=True, z_source=1.0, lens_redshift_list=[0.5])
    W.raises("source behind the source plane", lambda: Image2SourceMapping(lm, LightModel(["GAUSSIAN"], source_redshift_list=[1.5])), ValueError)
    W.raises("redshift list of another length", lambda: Image2SourceMapping(lm, LightModel(["GAUSSIAN"], source_redshift_list=[0.5, 0.6])), ValueError)
    W.raises("scaling with multiple lens planes", lambda: Image2SourceMapping(lm, LightModel(["GAUSSIAN"], deflection_scaling_list=[1])), ValueError)


# ------------------------------------------------------------------ updates
@contract("C13", "update", [IM + "update_data", IM + "update_psf", IM + "update_pixel_grid_coordinates", "Data/pixel_grid.py::PixelGrid.update_coordinate_grid"], samples=6, bounded=BND)
def _upd(W):
    """after an update the model image is that of a newly made model"""
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF

    kll = light(W, "l", 1)
    what = W.choice("what", ["data", "psf", "offset"])
    I, fr = build(W, n=2, lens_light_model_class=LightModel(["GAUSSIAN"]))
    before = I.image(kwargs_lens_light=kll, kwargs_ps=[])
    if what == "data":
        T2 = W.mat([[W.real("U00", None, None, (-0.6, -0.4)), 0], [0, W.real("U11", None, None, (0.4, 0.6))]])
        W.assume(T2[0, 0] * T2[1, 1] < -1e-3)
        fr2 = dict(transform_pix2angle=T2, ra_at_xy_0=W.real("ra1", None, None, (0, 1)), dec_at_xy_0=0)
        I.update_data(ImageData(np.ones((2, 2)), noise_map=np.ones((2, 2)), **fr2))
        N, _ = build(W, n=2, fr=fr2, lens_light_model_class=LightModel(["GAUSSIAN"]))
        W.eq("image on the new pixels", I.image(kwargs_lens_light=kll, kwargs_ps=[]), N.image(kwargs_lens_light=kll, kwargs_ps=[]))
    elif what == "psf":
        kern = kernel(W)
        mk = lambda: PSF(psf_type="PIXEL", kernel_point_source=W.mat([list(r) for r in kern]), kernel_point_source_normalisation=False)
        I.update_psf(mk())
        N, _ = build(W, n=2, psf=mk(), fr=fr, lens_light_model_class=LightModel(["GAUSSIAN"]))
        W.eq("image with the new PSF", I.image(kwargs_lens_light=kll, kwargs_ps=[]), N.image(kwargs_lens_light=kll, kwargs_ps=[]))
    else:
        dx, dy = W.real("dx", None, None, (-0.3, 0.3)), W.real("dy", None, None, (-0.3, 0.3))
        sp = {"kwargs_offsets": [dict(ra_shift=dx, dec_shift=dy)]}
        im = I.image(kwargs_lens_light=kll, kwargs_ps=[], kwargs_special=sp)
        for p, (x, y) in enumerate(grid_of(W, fr)):
            W.eq("image on the shifted pixels", im[p // 2, p % 2], gauss(W, kll[0], x + dx, y + dy) * area(fr))
        W.eq("image again without shift", I.image(kwargs_lens_light=kll, kwargs_ps=[], kwargs_special={"kwargs_offsets": [dict(ra_shift=0, dec_shift=0)]}), before)


# ------------------------------------------------------------------ bands
BANDS = dict(index_lens_model_list=[[0], [1, 0], [2]], index_source_light_model_list=[[1], [0, 2], [2, 1]], index_lens_light_model_list=[[0, 1], [], [1]], index_point_source_model_list=[[0], [1], [1, 0]], index_optical_depth_model_list=[[0], [1], [0, 1]])


@contract("C13", "band selection", [SB + "select_kwargs", SB + "__init__"], samples=2, bounded="three bands with the listed selections")
def _sel(W):
    from lenstronomy.ImSim.MultiBand.single_band_multi_model import SingleBandMultiModel

    sel = W.choice("selection", ["all", "none", "source only"])
    ix = {} if sel == "none" else BANDS if sel == "all" else {"index_source_light_model_list": BANDS["index_source_light_model_list"]}
    km = dict(lens_model_list=["SIS", "SHEAR", "CONVERGENCE"], source_light_model_list=["GAUSSIAN", "SERSIC", "UNIFORM"], lens_light_model_list=["SERSIC", "GAUSSIAN"], point_source_model_list=["UNLENSED", "SOURCE_POSITION"],
              optical_depth_model_list=["UNIFORM", "GAUSSIAN"], tau0_index_list=[0, 1, 0], **ix)
    b = W.choice("band", [0, 1, 2])
    mbl = [[dict(image_data=np.ones((2, 2)) * (q + 1), noise_map=np.ones((2, 2)), **UNIT), {"psf_type": "NONE"}, {}] for q in range(3)]
    masks = [np.array(m) for m in MASKS[1:4]]
    m = SingleBandMultiModel(mbl, km, likelihood_mask_list=masks, band_index=b)
    names = dict(lens=("L0", "L1", "L2"), source=("S0", "S1", "S2"), ll=("G0", "G1"), ps=("P0", "P1"), ext=("E0", "E1"))
    out = m.select_kwargs(*[list(names[q]) for q in ("lens", "source", "ll", "ps", "ext")])
    idx = [BANDS[q][b] if q in ix else range(n) for q, n in (("index_lens_model_list", 3), ("index_source_light_model_list", 3), ("index_lens_light_model_list", 2), ("index_point_source_model_list", 2), ("index_optical_depth_model_list", 2))]
    for q, i, o in zip(("lens", "source", "ll", "ps", "ext"), idx, out):
        W.same("selected parameters: " + q, list(o), [names[q][k] for k in i])
    W.same("selected lens models", list(m.LensModel.lens_model_list), [km["lens_model_list"][k] for k in idx[0]])
    W.same("selected source models", list(m.SourceModel.profile_type_list), [km["source_light_model_list"][k] for k in idx[1]])
    W.same("selected lens light models", list(m.LensLightModel.profile_type_list), [km["lens_light_model_list"][k] for k in idx[2]])
    W.same("selected point sources", list(m.PointSource.point_source_type_list), [km["point_source_model_list"][k] for k in idx[3]])
    W.same("selected optical depths", list(m._extinction._profile.profile_type_list), [km["optical_depth_model_list"][k] for k in idx[4]])
    W.same("optical depth scale of the band", m._extinction._tau0_index, [0, 1, 0][b])
    W.same("data of the band", float(m.Data.data[0, 0]), float(b + 1))
    W.same("mask of the band", m.likelihood_mask.tolist(), masks[b].astype(bool).tolist())
    W.same("missing parameters stay missing", list(m.select_kwargs()), [None] * 5)


@contract("C13", "create_class_instances", [CC + "create_class_instances", CC + "_select_profile_kwargs"], samples=2, bounded="the listed selections")
def _cci(W):
    from lenstronomy.Util import class_creator

    allm = W.choice("all models", [False, True])
    b = W.choice("band", [0, 1, 2])
    km = dict(lens_model_list=["SIS", "SHEAR", "CONVERGENCE"], lens_redshift_list=[0.3, 0.5, 0.7], z_source=2.0, multi_plane=True, observed_convention_index=[2], source_light_model_list=["GAUSSIAN", "SERSIC", "UNIFORM"],
              source_redshift_list=[1.0, 1.5, 2.0], lens_light_model_list=["SERSIC", "GAUSSIAN"], point_source_model_list=["SOURCE_POSITION", "LENSED_POSITION"], fixed_magnification_list=[True, False],
              additional_images_list=[False, True], point_source_redshift_list=[1.1, 1.2], point_source_magnification_limit=0.7, kwargs_lens_eqn_solver={"search_window": 7}, **{k: v for k, v in BANDS.items() if "optical" not in k})
    lm, sm, ll, ps, ext = class_creator.create_class_instances(band_index=b, all_models=allm, **km)
    pick = lambda name, n: list(range(n)) if allm else BANDS[name][b]
    il, isr, ig, ip = pick("index_lens_model_list", 3), pick("index_source_light_model_list", 3), pick("index_lens_light_model_list", 2), pick("index_point_source_model_list", 2)
    W.same("lens models", list(lm.lens_model_list), [km["lens_model_list"][k] for k in il])
    W.same("lens redshifts", list(lm.redshift_list), [km["lens_redshift_list"][k] for k in il])
    W.same("source models", list(sm.profile_type_list), [km["source_light_model_list"][k] for k in isr])
    W.same("source redshifts", list(sm.redshift_list), [km["source_redshift_list"][k] for k in isr])
    W.same("lens light models", list(ll.profile_type_list), [km["lens_light_model_list"][k] for k in ig])
    W.same("point source models", list(ps.point_source_type_list), [km["point_source_model_list"][k] for k in ip])
    W.same("fixed magnifications", list(ps._fixed_magnification_list), [km["fixed_magnification_list"][k] for k in ip])
    W.same("point source redshifts", list(ps._redshift_list), [km["point_source_redshift_list"][k] for k in ip])
    W.same("magnification limit", float(ps._magnification_limit), 0.7)
    W.same("solver settings", ps._kwargs_lens_eqn_solver["search_window"], 7)
    W.true("point sources use the lens model of the band", ps._lens_model is lm)
    km2 = dict(lens_model_list=["SIS", "SHEAR"], source_light_model_list=["GAUSSIAN", "SERSIC"], source_deflection_scaling_list=[0.5, 1.0], index_source_light_model_list=[[0], [1], [1, 0]])
    _, sm, _, _, _ = class_creator.create_class_instances(band_index=b, **km2)
    W.same("deflection scalings", [float(q) for q in sm.deflection_scaling_list], [[0.5, 1.0][k] for k in km2["index_source_light_model_list"][b]])
    W.same("all lens models without selection", class_creator.create_class_instances(band_index=b, **km2)[0].lens_model_list, ["SIS", "SHEAR"])


@contract("C13", "bands.images", [SB + q for q in ("image", "source_surface_brightness", "lens_surface_brightness", "point_source", "linear_response_matrix", "linear_param_from_kwargs", "update_linear_kwargs")], samples=4, bounded=BND)
def _bi(W):
    """a band with a selection of models simulates what a model of just those components does"""
    from lenstronomy.ImSim.MultiBand.single_band_multi_model import SingleBandMultiModel
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.PointSource.point_source import PointSource

    b = W.choice("band", [0, 1])
    si, li, pi = [[1], [1, 0]][b], [[0, 1], [1]][b], [[1], [0, 1]][b]
    km = dict(lens_model_list=["SIS"], source_light_model_list=["GAUSSIAN"] * 2, lens_light_model_list=["GAUSSIAN"] * 2, point_source_model_list=["UNLENSED"] * 2,
              index_source_light_model_list=[[1], [1, 0]], index_lens_light_model_list=[[0, 1], [1]], index_point_source_model_list=[[1], [0, 1]])
    kl = lens_kwargs(W, ["SIS"])
    ks, kll = light(W, "s", 2), light(W, "l", 2)
    kp = [{"ra_image": np.array([float(q)]), "dec_image": np.array([1.0]), "point_amp": W._arr1([W.real("pa%d" % q, 0, None, (1, 2))])} for q in range(2)]
    mbl = [[dict(image_data=np.ones((2, 2)), noise_map=np.ones((2, 2)), **UNIT), {"psf_type": "NONE"}, {}] for q in range(2)]
    with abstract_profiles(W, [SIS]):
        m = SingleBandMultiModel(mbl, km, band_index=b)
        N, _ = build(W, "image_linear_solve.ImageLinearFit", fr=UNIT, lens_model_class=LensModel(["SIS"]), source_model_class=LightModel(["GAUSSIAN"] * len(si)), lens_light_model_class=LightModel(["GAUSSIAN"] * len(li)),
                     point_source_class=PointSource(["UNLENSED"] * len(pi)))
        s, l, p = [ks[i] for i in si], [kll[i] for i in li], [kp[i] for i in pi]
        W.eq("image of the band", m.image(kl, ks, kll, kp), N.image(kl, s, l, p))
        W.eq("image of the band without point sources", m.image(kl, ks, kll, kp, point_source_add=False), N.image(kl, s, l, p, point_source_add=False))
        W.eq("source of the band", m.source_surface_brightness(ks, kl, de_lensed=True, k=0), N.source_surface_brightness(s, kl, de_lensed=True, k=0))
        W.eq("lens light of the band", m.lens_surface_brightness(kll, k=0), N.lens_surface_brightness(l, k=0))
        W.eq("point sources of the band", m.point_source(kp, kl), N.point_source(p, kl))
        W.eq("response of the band", m.linear_response_matrix(kl, ks, kll, kp), N.linear_response_matrix(kl, s, l, p))
        a, c = m.linear_param_from_kwargs(ks, kll, kp), N.linear_param_from_kwargs(s, l, p)
        W.same("number of amplitudes", len(a), len(c))
        for u, v in zip(a, c):
            W.eq("amplitudes of the band", u, v)


# ------------------------------------------------------------------ extinction, tracer
@contract("C13", "extinction", ["ImSim/differential_extinction.py::DifferentialExtinction." + q for q in ("extinction", "__init__", "compute_bool")] + [IM + "extinction_map"], samples=6, bounded=BND)
def _ext(W):
    from lenstronomy.ImSim.differential_extinction import DifferentialExtinction

    k = light(W, "e", 1)
    x, y = W.array("x", 2, None, None, (-1, 1)), W.array("y", 2, None, None, (-1, 1))
    i = W.choice("index", [0, 1])
    t = [W.real("t0", None, None, (0.2, 2)), W.real("t1", None, None, (0.2, 2))]
    e = DifferentialExtinction(optical_depth_model=["GAUSSIAN"], tau0_index=i)
    tau = W._arr1([gauss(W, k[0], x[q], y[q]) for q in range(2)])
    W.eq("attenuation", e.extinction(x, y, k, {"tau0_list": t}), W._arr1([W.exp(-t[i] * tau[q]) for q in range(2)]))
    W.eq("unit optical depth scale", e.extinction(x, y, k, {}), W._arr1([W.exp(-tau[q]) for q in range(2)]))
    W.same("no parameters: no extinction", e.extinction(x, y, None, {}), 1)
    W.same("no model: no extinction", DifferentialExtinction().extinction(x, y, k, {}), 1)
    W.same("switch", (e.compute_bool, DifferentialExtinction().compute_bool), (True, False))
    I, fr = build(W, extinction_class=e)
    m = I.extinction_map(k, {"tau0_list": t})
    for p, (a, b) in enumerate(grid_of(W, fr)):
        W.eq("extinction map", m[p // 2, p % 2], W.exp(-t[i] * gauss(W, k[0], a, b)))


for _t in ("LINEAR", "LOG"):
    @contract("C13", "tracer.%s" % _t, ["ImSim/tracer_model.py::TracerModelSource.tracer_model", "ImSim/tracer_model.py::TracerModelSource._tracer_model_source", CC + "create_tracer_model"], samples=6, bounded=BND, timeout=100, max_paths=300,
              assumes=["arbitrary lens deflection"])
    def _tr(W, t=_t):
        """light-weighted mean of the tracer over the components of each partition"""
        from lenstronomy.Util import class_creator

        kl = lens_kwargs(W, ["SIS"])
        # symbolically the light is uniform (its clipping at 1e-20 is then decided) and the tracer varies; sampled both vary
        ks = [dict(amp=W.real("la%d" % i, 0.1, None, (0.5, 2))) for i in range(2)] if W.sym else [dict(q, amp=abs(q["amp"]) + 1) for q in light(W, "s", 2)]
        flux = (lambda q, x, y: q["amp"]) if W.sym else (lambda q, x, y: gauss(W, q, x, y))
        kt = light(W, "t", 2)
        part = W.choice("partition", [None, [[0, 1], [1, 0]], [[None, 0]]])
        dl = W.choice("de-lensed", [False, True])
        fr = trans(W)
        td = [dict(image_data=np.ones((2, 2)), noise_map=np.ones((2, 2)), **fr), {"psf_type": "NONE"}, {}]
        with abstract_profiles(W, [SIS]):
            from lenstronomy.LensModel.lens_model import LensModel

            lm = LensModel(["SIS"])
            m = class_creator.create_tracer_model(td, dict(lens_model_list=["SIS"], source_light_model_list=["UNIFORM" if W.sym else "GAUSSIAN"] * 2, tracer_source_model_list=["GAUSSIAN", "GAUSSIAN"], tracer_partition=part, tracer_type=t))
            im = m.tracer_model(kt, kl, ks, de_lensed=dl)
            for p, (x, y) in enumerate(grid_of(W, fr)):
                ax, ay = (0, 0) if dl else lm.alpha(x, y, kl)
                f = [flux(q, x - ax, y - ay) for q in ks]
                num = den = 0
                for a, b in part or [[None, None]]:
                    fl = sum(f) if a is None else f[a]
                    if not W.sym:
                        W.assume(fl * area(fr) > 1e-15)
                    tr = sum(gauss(W, q, x - ax, y - ay) for c, q in enumerate(kt) if b is None or b == c)
                    num, den = num + (tr if t == "LINEAR" else 10 ** tr) * fl, den + fl
                if t == "LINEAR":
                    W.eq("tracer map", im[p // 2, p % 2], num / den)
                else:
                    W.eq("tracer map (log)", 10 ** im[p // 2, p % 2], num / den)


# ------------------------------------------------------------------ multi-band
@contract("C13", "multi-band order", ["ImSim/MultiBand/multi_linear.py::MultiLinear.image_linear_solve", "ImSim/MultiBand/multi_linear.py::MultiLinear.update_linear_kwargs", "ImSim/MultiBand/multi_data_base.py::MultiDataBase.update_pixel_grid_coordinates",
                                      "ImSim/MultiBand/multi_data_base.py::MultiDataBase.__init__"], samples=2, bounded="up to three bands")
def _mo(W):
    from lenstronomy.ImSim.MultiBand.multi_linear import MultiLinear
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
    from lenstronomy.ImSim.image_model import ImageModel

    comp = W.choice("computed", [(True, True, True), (True, False, True), (False, True, False)])
    mbl = [[dict(image_data=np.ones((2, 2)), noise_map=np.ones((2, 2)), **UNIT), {"psf_type": "NONE"}, {}] for _ in comp]
    m = MultiLinear(mbl, {}, compute_bool=list(comp))
    with swap(W, (ImageLinearFit, "image_linear_solve", lambda self, *a, inv_bool=None, **k: ("m%d" % self.image_index, "e%d" % self.image_index, inv_bool, "p%d" % self.image_index)),
              (ImageLinearFit, "update_linear_kwargs", lambda self, p, *a, **k: (p, self.image_index)), both=True):
        out = m.image_linear_solve([], [], [], [], inv_bool=True)
        for j, tag in ((0, "m"), (1, "e"), (3, "p")):
            W.same("one entry per band in order: " + tag, list(out[j]), [tag + str(b) if comp[b] else None for b in range(3)])
        W.same("covariance requested", list(out[2]), [True if c else None for c in comp])
    rec = []
    with swap(W, (ImageModel, "update_pixel_grid_coordinates", lambda self, sp, model_index=0: rec.append((self.image_index, model_index))), both=True):
        m.update_pixel_grid_coordinates({"kwargs_offsets": [1, 2, 3]})
        m.update_pixel_grid_coordinates(None)
        m.update_pixel_grid_coordinates({})
    W.same("offsets of each band go to that band", rec, [(b, b) for b in range(3) if comp[b]])
    W.raises("selection of another length", lambda: MultiLinear(mbl, {}, compute_bool=[True]), ValueError)

"""C18: flux, magnitude and noise unit conversions are consistent."""
import copy
import itertools
import numpy as np
from lv.world import contract
from contracts.common import swap

DU = "Util/data_util.py::"
OB = "SimulationAPI/observation_api.py::"
SB = OB + "SingleBand."


@contract("C18", "magnitudes and counts", [DU + "magnitude2cps", DU + "cps2magnitude"], samples=8)
def _mag(W):
    from lenstronomy.Util import data_util as D

    m, z, dz, n = W.real("m", None, None, (15, 28)), W.real("zero point", None, None, (20, 30)), W.real("dz", None, None, (-2, 2)), W.real("n", None, None, (-2, 2))
    c = W.real("cps", 0, None, (0.01, 100))
    f = D.magnitude2cps(m, z)
    W.true("positive", f > 0)
    W.eq("magnitude of the counts", D.cps2magnitude(f, z), m)
    W.eq("counts of the magnitude", D.magnitude2cps(D.cps2magnitude(c, z), z), c)
    W.eq("one count per second at the zero point", D.magnitude2cps(z, z), 1)
    W.eq("only the difference to the zero point matters", D.magnitude2cps(m + dz, z + dz), f)
    W.eq("five magnitudes are a factor of 100", D.magnitude2cps(m - 5, z), 100 * f)
    W.eq("magnitude steps multiply", D.magnitude2cps(m + n, z) * D.magnitude2cps(m - n, z), f * f)
    a = W.array("c", 3, 0, None, (0.01, 100))
    got = D.cps2magnitude(a, z)
    for i in range(3):
        W.eq("elementwise", got[i], D.cps2magnitude(a[i], z))
    W.eq("elementwise back", D.magnitude2cps(got, z), a)


@contract("C18", "distance modulus", [DU + "absolute2apparent_magnitude"], samples=8)
def _mod(W):
    from lenstronomy.Util import data_util as D

    M, z = W.real("M", None, None, (-25, -15)), W.real("z", None, None, (20, 30))
    d, k = W.real("d", 0, None, (10, 1e6)), W.real("k", 0, None, (0.2, 5))
    ap = D.absolute2apparent_magnitude
    W.eq("apparent and absolute magnitudes agree at 10 parsec", ap(M, W.const(10)), M)
    W.eq("flux falls with the square of the distance", D.magnitude2cps(ap(M, k * d), z) * k**2, D.magnitude2cps(ap(M, d), z))
    W.eq("absolute magnitude shifts the apparent one", ap(M + z, d), ap(M, d) + z)


@contract("C18", "gain", [DU + "adu2electrons", DU + "electrons2adu"], samples=6)
def _gain(W):
    from lenstronomy.Util import data_util as D

    x, g = W.real("adu"), W.real("gain", 0, None, (0.5, 5))
    W.eq("inverse", D.electrons2adu(D.adu2electrons(x, g), g), x)
    W.eq("inverse ", D.adu2electrons(D.electrons2adu(x, g), g), x)
    W.eq("gain is electrons per unit", D.adu2electrons(W.const(1), g), g)


@contract("C18", "background noise", [DU + "bkg_noise"], samples=8)
def _bkg(W):
    from lenstronomy.Util import data_util as D

    r, t, s, p = W.real("read", 0, None, (1, 10)), W.real("t", 0, None, (10, 500)), W.real("sky", 0, None, (0.1, 30)), W.real("pix", 0, None, (0.05, 0.5))
    n = W.choice("exposures", [1, 2, 5])
    v = D.bkg_noise(r, t, s, p, num_exposures=n) ** 2
    W.eq("variance of the counts per second", v, (n * r**2 + n * t * s * p**2) / (n * t) ** 2)
    W.eq("averaging exposures", v * n, D.bkg_noise(r, t, s, p) ** 2)
    W.eq("one long exposure reads out once", D.bkg_noise(W.const(0), t, s, p, num_exposures=n), D.bkg_noise(W.const(0), n * t, s, p))


@contract("C18", "shot noise of counts", [DU + "flux_noise"], samples=4)
def _flux(W):
    from lenstronomy.Util import data_util as D

    c, t = W.real("cps", 0, None, (0.1, 20)), W.real("t", 0, None, (10, 500))
    W.eq("variance of Poisson counts", D.flux_noise(c, t) ** 2, c / t)


# ---------------------------------------------------------------- observations
def band(W, unit, n, tag="", **kw):
    from lenstronomy.SimulationAPI.observation_api import SingleBand

    v = dict(pixel_scale=W.real(tag + "pix", 0, None, (0.05, 0.5)), exposure_time=W.real(tag + "t", 1, None, (10, 500)), magnitude_zero_point=W.real(tag + "zp", None, None, (20, 30)),
             read_noise=W.real(tag + "read", 0, None, (1, 10)), sky_brightness=W.real(tag + "sky", None, None, (19, 23)), num_exposures=n, psf_type="NONE")
    g = W.real(tag + "gain", 0.125, None, (0.5, 5))
    if W.sym:  # the gain is passed through float(): identity on real numbers
        from lenstronomy.SimulationAPI import observation_api as O

        with swap(W, (O, "float", lambda x: x)):
            b = SingleBand(ccd_gain=g, data_count_unit=unit, **dict(v, **kw))
    else:
        b = SingleBand(ccd_gain=g, data_count_unit=unit, **dict(v, **kw))
    return b, dict(v, gain=g)


def cps(W, m, z):
    return W.exp(-(m - z) / W.const(5) * 2 * W.log(W.const(10)))


@contract("C18", "band in electrons and in ADU", [SB + n for n in ("sky_brightness", "_sky_brightness_cps", "background_noise", "flux_noise", "flux_iid", "estimate_noise", "magnitude2cps")] + [OB + "Observation.exposure_time"], samples=8)
def _band(W):
    n = W.choice("exposures", [1, 3])
    e, v = band(W, "e-", n)
    a, _ = band(W, "ADU", n)
    g, T = v["gain"], n * v["exposure_time"]
    m, f = W.real("m", None, None, (15, 28)), W.real("flux", 0, None, (0.01, 10))
    W.eq("total exposure time", e.exposure_time, T)
    W.eq("sky brightness in counts", e.sky_brightness, cps(W, v["sky_brightness"], v["magnitude_zero_point"]))
    W.eq("sky brightness in ADU", a.sky_brightness * g, e.sky_brightness)
    W.eq("counts of a magnitude", e.magnitude2cps(m), cps(W, m, v["magnitude_zero_point"]))
    W.eq("counts of a magnitude in ADU", a.magnitude2cps(m) * g, e.magnitude2cps(m))
    W.eq("background variance", e.background_noise**2, (n * v["read_noise"] ** 2 + T * e.sky_brightness * v["pixel_scale"] ** 2) / T**2)
    W.eq("background noise in ADU", a.background_noise * g, e.background_noise)
    W.eq("electrons of a flux", e.flux_iid(f), T * f)
    W.eq("electrons of a flux in ADU", a.flux_iid(f / g), T * f)
    x = W._arr1([f, -f, f * 0])
    ne, na = e.flux_noise(x), a.flux_noise(x / g)
    W.eq("Poisson variance of a flux", ne[0] ** 2, f / T)
    W.eq("no shot noise for negative flux", ne[1], 0)
    W.eq("no shot noise without flux", ne[2], 0)
    for i in range(3):
        W.eq("shot noise in ADU", na[i] * g, ne[i])
        W.eq("total noise", e.estimate_noise(x)[i] ** 2, e.background_noise**2 + ne[i] ** 2)
        W.eq("total noise in ADU", a.estimate_noise(x / g)[i] * g, e.estimate_noise(x)[i])
    W.eq("flux is not changed", x, W._arr1([f, -f, f * 0]))
    if not W.sym:
        W.eq("shot noise of a number", e.flux_noise(float(f)) ** 2, f / T)
        W.eq("shot noise of a negative number", e.flux_noise(-float(f)), 0)
    b = W.real("given", 0, None, (0.01, 1))
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for u in ("e-", "ADU"):
            W.eq("given background noise", band(W, u, n, background_noise=b)[0].background_noise, b)
    W.raises("sky brightness is required", lambda: band(W, "e-", n, sky_brightness=None)[0].sky_brightness, ValueError)
    W.raises("read noise is required", lambda: band(W, "e-", n, read_noise=None)[0].background_noise, ValueError)
    W.raises("unknown unit", lambda: band(W, "counts", n), ValueError)


@contract("C18", "noise realisation", [SB + "noise_for_model"], samples=6, bounded="2x2 image", assumes=["numpy.random returns any numbers"])
def _noise(W):
    from lenstronomy.SimulationAPI import observation_api as O

    unit = W.choice("unit", ["e-", "ADU"])
    b, v = band(W, unit, 2)
    bg, po, seed = W.choice("background", [True, False]), W.choice("poisson", [True, False]), W.choice("seed", [None, 3])
    model = W.mat([[W.real("m%d%d" % (i, j), 0, None, (0.1, 5)) for j in range(2)] for i in range(2)])
    rec, seeds = [], []

    class R:
        @staticmethod
        def randn(nx, ny):
            r = W.mat([[W.real("r%d_%d%d" % (len(rec), i, j)) for j in range(ny)] for i in range(nx)])
            rec.append(r)
            return r

        @staticmethod
        def RandomState(seed=None):
            seeds.append(seed)
            return R

    real = O.np

    class N:
        random = R

        def __getattr__(self, n):
            return getattr(real, n)

    before = model + 0
    with swap(W, (O, "np", N()), both=True):
        got = b.noise_for_model(model, background_noise=bg, poisson_noise=po, seed=seed)
    W.same("seed", seeds, [] if seed is None else [3])
    W.same("number of draws", len(rec), int(bg) + int(po))
    for i in range(2):
        for j in range(2):
            k, want = 0, 0
            if bg:
                want, k = want + rec[k][i, j] * b.background_noise, k + 1
            if po:
                want = want + rec[k][i, j] * b.flux_noise(model)[i, j]
            W.eq("noise of the model", got[i, j], want)
    W.eq("model is not changed", model, before)


@contract("C18", "noise of the simulated data", ["SimulationAPI/data_api.py::DataAPI.kwargs_data", "SimulationAPI/data_api.py::DataAPI.data_class", "Data/image_noise.py::ImageNoise.C_D_model"], samples=6, bounded="2x2 image")
def _data(W):
    from lenstronomy.SimulationAPI import data_api as A
    from lenstronomy.SimulationAPI import observation_api as O

    unit, n = W.choice("unit", ["e-", "ADU"]), W.choice("exposures", [1, 3])
    b, v = band(W, unit, n)
    kw = {k: x for k, x in v.items() if k != "gain"}
    grid = W.choice("grid", [None, dict(ra_at_xy_0=-0.5, dec_at_xy_0=0.25, transform_pix2angle=np.array([[0.125, 0.0], [0.0, 0.25]]))])
    if W.sym:
        with swap(W, (O, "float", lambda x: x)):
            d = A.DataAPI(2, kwargs_pixel_grid=grid, ccd_gain=v["gain"], data_count_unit=unit, **kw)
    else:
        d = A.DataAPI(2, kwargs_pixel_grid=grid, ccd_gain=v["gain"], data_count_unit=unit, **kw)
    k = d.kwargs_data
    W.shape("empty image", k["image_data"], (2, 2))
    if grid is None:
        p = v["pixel_scale"]
        W.eq("pixel grid", k["transform_pix2angle"], W.mat([[p, 0 * p], [0 * p, p]]))
        W.eq("grid is centred on zero", W._arr1([k["ra_at_xy_0"], k["dec_at_xy_0"]]), W._arr1([-p / 2, -p / 2]))
    else:
        W.same("given pixel grid", {q: k[q] for q in grid}, grid)
    model = W.mat([[W.real("m%d%d" % (i, j), 0, None, (0.1, 5)) for j in range(2)] for i in range(2)])
    c = d.data_class.C_D_model(model)
    want = b.estimate_noise(model)
    for i in range(2):
        for j in range(2):
            W.eq("variance assigned to a model image is the variance of the simulated noise", c[i, j], want[i, j] ** 2)
    W.raises("incomplete pixel grid", lambda: A.DataAPI(2, kwargs_pixel_grid={"ra_at_xy_0": 0}, **kw), ValueError)


@contract("C18", "updated observation", [OB + "Observation.update_observation", OB + "Observation.kwargs_psf"], samples=4)
def _upd(W):
    from lenstronomy.SimulationAPI.observation_api import Observation

    f = [W.real("f%d" % i, 0, None, (1, 5)) for i in range(8)]
    o = Observation(exposure_time=f[0], sky_brightness=f[1], seeing=f[2], num_exposures=2, psf_type="GAUSSIAN", truncation=f[3])
    ref = dict(exposure_time=f[0], sky_brightness=f[1], seeing=f[2], num_exposures=2, psf_type="GAUSSIAN", kernel_point_source=None)
    opts = [dict(exposure_time=f[4]), dict(sky_brightness=f[5]), dict(seeing=f[6]), dict(num_exposures=5), dict(psf_type="PIXEL", kernel_point_source="kernel"), dict(psf_type="NONE"), {}]
    for i in range(2):
        k = W.choice("update%d" % i, opts)
        o.update_observation(**k)
        ref.update(k)
        W.eq("exposure time", o.exposure_time, ref["exposure_time"] * ref["num_exposures"])
        W.same("sky", o._sky_brightness, ref["sky_brightness"])
        want = {"GAUSSIAN": {"psf_type": "GAUSSIAN", "fwhm": ref["seeing"], "truncation": f[3]}, "NONE": {"psf_type": "NONE"},
                "PIXEL": {"psf_type": "PIXEL", "kernel_point_source": ref["kernel_point_source"], "point_source_supersampling_factor": 1, "kernel_point_source_normalisation": True}}[ref["psf_type"]]
        W.same("point spread function", o.kwargs_psf, want)


# ---------------------------------------------------------------- amplitudes
PROF = {
    "GAUSSIAN": dict(sigma=(0.2, 1)), "GAUSSIAN_ELLIPSE": dict(sigma=(0.2, 1), e1=(-0.2, 0.2), e2=(-0.2, 0.2)), "SERSIC": dict(R_sersic=(0.2, 1), n_sersic=(0.7, 4)),
    "SERSIC_ELLIPSE": dict(R_sersic=(0.2, 1), n_sersic=(0.7, 4), e1=(-0.2, 0.2), e2=(-0.2, 0.2)), "LINE_PROFILE": dict(angle=(0, 90), length=(0.5, 2), width=(0.1, 0.5)),
    "HERNQUIST": dict(Rs=(0.2, 1)), "HERNQUIST_ELLIPSE": dict(Rs=(0.2, 1), e1=(-0.2, 0.2), e2=(-0.2, 0.2)),
    "MULTI_GAUSSIAN": dict(), "MULTI_GAUSSIAN_ELLIPSE": dict(e1=(-0.2, 0.2), e2=(-0.2, 0.2)),
}


def light(W, name, tag):
    kw = {p: W.real("%s%s" % (tag, p), 0 if p[0] not in "e" else None, None, r) for p, r in PROF[name].items()}
    if name == "LINE_PROFILE":
        kw.update(start_x=W.real(tag + "cx"), start_y=W.real(tag + "cy"), magnitude=W.real(tag + "mag", None, None, (18, 26)))
        return kw
    kw.update(center_x=W.real(tag + "cx"), center_y=W.real(tag + "cy"), magnitude=W.real(tag + "mag", None, None, (18, 26)))
    if name.startswith("MULTI"):
        kw["amp"] = W.array(tag + "amp", 2, 0, None, (0.5, 2))
        kw["sigma"] = W.array(tag + "sigma", 2, 0, None, (0.2, 1))
    return kw




AMPS = {
    "data_util": [DU + "magnitude2amplitude"],
    "SimAPI": ["SimulationAPI/sim_api.py::SimAPI.magnitude2amplitude"],
    "MagAmpConversion": ["SimulationAPI/mag_amp_conversion.py::MagAmpConversion.magnitude2amplitude"],
}


def convert(W, api, unit, ll, sl, ps, kl, ks, kp):
    """amplitudes as the three interfaces give them, and the zero point and gain used"""
    model = dict(lens_light_model_list=ll, source_light_model_list=sl, point_source_model_list=ps)
    z = W.real("zp", None, None, (20, 30))
    if api == "data_util":
        from lenstronomy.Util import data_util as D
        from lenstronomy.LightModel.light_model import LightModel

        f = lambda m, k: D.magnitude2amplitude(LightModel(m), k, z)
        return (f(ll, kl), f(sl, ks), None), z, 1, (LightModel(ll), LightModel(sl))
    if api == "SimAPI":
        from lenstronomy.SimulationAPI import sim_api as S
        from lenstronomy.SimulationAPI import observation_api as O

        g = W.real("gain", 0, None, (0.5, 5))
        kb = dict(pixel_scale=0.25, exposure_time=100.0, magnitude_zero_point=z, ccd_gain=g, data_count_unit=unit, psf_type="NONE")
        with swap(W, (O, "float", lambda x: x)):
            a = S.SimAPI(4, kb, model)
    else:
        from lenstronomy.SimulationAPI.mag_amp_conversion import MagAmpConversion

        g = 1
        a = MagAmpConversion(model, z)
    return a.magnitude2amplitude(kl, ks, kp), z, g if unit == "ADU" else 1, (a.lens_light_model_class, a.source_model_class)


def _amp(api, name):
    @contract("C18", "%s.%s" % (api, name), AMPS[api], samples=4, timeout=120)
    def body(W):
        unit = W.choice("unit", ["e-", "ADU"]) if api == "SimAPI" else "e-"
        ll, sl, ps = [name, "GAUSSIAN"], ["GAUSSIAN", name], ["LENSED_POSITION", "SOURCE_POSITION"]
        kl = [light(W, n, "l%d" % i) for i, n in enumerate(ll)]
        ks = [light(W, n, "s%d" % i) for i, n in enumerate(sl)]
        if api == "data_util":
            ps, kp = [], None
        else:
            kp = [dict(ra_image=W.array("ra", 2), dec_image=W.array("dec", 2), magnitude=W.array("pm", 2, None, None, (18, 26))),
                  dict(ra_source=W.real("rs"), dec_source=W.real("ds"), magnitude=W.real("sm", None, None, (18, 26)))]
        before = copy.deepcopy((kl, ks, kp))
        out, z, g, classes = convert(W, api, unit, ll, sl, ps, kl, ks, kp)
        for kw, got, cls in zip((kl, ks), out, classes):
            tot = cls.total_flux(got)
            for i in range(2):
                W.eq("flux of the component is that of its magnitude", tot[i] * g, cps(W, kw[i]["magnitude"], z))
                W.same("other parameters", {k: v for k, v in got[i].items() if k != "amp"}, {k: v for k, v in kw[i].items() if k not in ("amp", "magnitude")})
                if "amp" in kw[i]:
                    W.eq("relative amplitudes are kept", got[i]["amp"][0] * kw[i]["amp"][1], got[i]["amp"][1] * kw[i]["amp"][0])
        if kp is not None:
            for j in range(2):
                W.eq("amplitude of an image", out[2][0]["point_amp"][j] * g, cps(W, kp[0]["magnitude"][j], z))
            W.eq("amplitude of the source", out[2][1]["source_amp"] * g, cps(W, kp[1]["magnitude"], z))
            for i in range(2):
                W.same("positions", {k: v for k, v in out[2][i].items() if k not in ("point_amp", "source_amp")}, {k: v for k, v in kp[i].items() if k != "magnitude"})
        W.same("input is not changed", (kl, ks, kp), before)


for _n in PROF:
    _amp("data_util", _n)
for _a in ("SimAPI", "MagAmpConversion"):
    for _n in ("GAUSSIAN_ELLIPSE", "SERSIC", "MULTI_GAUSSIAN"):
        _amp(_a, _n)


@contract("C18", "nothing to convert", AMPS["SimAPI"] + AMPS["MagAmpConversion"] + AMPS["data_util"], samples=1)
def _none(W):
    for api in ("SimAPI", "MagAmpConversion"):
        W.same("no components", convert(W, api, "e-", [], [], [], None, None, None)[0], (None, None, None))


# ---------------------------------------------------------------- physical units
@contract("C18", "physical masses to lensing parameters", ["SimulationAPI/model_api.py::ModelAPI.physical2lensing_conversion"], samples=4,
          assumes=["LensCosmo conversions are functions of the redshifts and the physical quantity (contract C15)"])
def _phys(W):
    from lenstronomy.SimulationAPI import model_api as M

    multi = W.choice("planes", [False, True])
    sis, rs, ar = W.uf("sis", 3), W.uf("Rs", 4), W.uf("alpha_Rs", 4)

    class LC:
        def __init__(self, z_lens, z_source, cosmo=None):
            self.z = (z_lens, z_source)
            W.same("cosmology", cosmo, "cosmo")

        def sis_sigma_v2theta_E(self, s):
            return sis(s, *[W.const(a) for a in self.z])

        def nfw_physical2angle(self, m, c):
            a = (m, c) + tuple(W.const(b) for b in self.z)
            return rs(*a), ar(*a)

    class Any:
        def __init__(self, *a, **k):
            pass

    v = [W.real("v%d" % i, 0, None, (0.5, 2)) for i in range(5)]
    kw = [dict(sigma_v=v[0], center_x=v[1]), dict(M200=v[2], concentration=v[3], e1=v[4]), dict(theta_E=v[4])]
    order = W.choice("order", [(0, 1, 2), (2, 1, 0), (1, 0, 2)])
    kw = [kw[i] for i in order]
    before = copy.deepcopy(kw)
    zl = [0.25, 0.5, 0.75]
    with swap(W, (M, "LensCosmo", LC), (M, "LensModel", Any), (M, "PointSource", Any), (M, "LightModel", Any), both=True):
        a = M.ModelAPI(lens_model_list=["SIS", "NFW", "SIS"], z_lens=None if multi else 0.5, z_source=2.0, lens_redshift_list=zl if multi else None, cosmo="cosmo",
                       z_source_convention=3.0 if multi else None)
        got = a.physical2lensing_conversion(kw)
    z = [(W.const(x), W.const(3.0 if multi else 2.0)) for x in (zl if multi else [0.5] * 3)]
    for i, j in enumerate(order):
        want = [lambda: dict(theta_E=sis(v[0], *z[i]), center_x=v[1]), lambda: dict(Rs=rs(v[2], v[3], *z[i]), alpha_Rs=ar(v[2], v[3], *z[i]), e1=v[4]), lambda: dict(theta_E=v[4])][j]()
        W.same("lensing parameters of component %d" % j, got[i], want)
    W.same("input is not changed", kw, before)


@contract("C18", "models of the simulation", ["SimulationAPI/model_api.py::ModelAPI.__init__"], samples=4)
def _mapi(W):
    """what the user specifies reaches the model classes"""
    from lenstronomy.SimulationAPI import model_api as M

    made = []

    def rec(name, real):
        class Any:
            def __init__(self, **k):
                made.append((name, k))
        return Any

    multi = W.choice("planes", [False, True])
    src = [0.5, 1.5] if multi and W.choice("source planes", [False, True]) else None
    with swap(W, (M, "LensModel", rec("lens", M.LensModel)), (M, "PointSource", rec("ps", M.PointSource)), (M, "LightModel", rec("light", M.LightModel)), both=True):
        a = M.ModelAPI(lens_model_list=["A", "B"], lens_profile_kwargs_list=["kA", "kB"], z_lens=None if multi else 0.5, z_source=2.0, lens_redshift_list=[0.25, 0.75] if multi else None,
                       source_light_model_list=["S", "T"], source_light_profile_kwargs_list=["kS", "kT"], lens_light_model_list=["L"], lens_light_profile_kwargs_list=["kL"],
                       point_source_model_list=["LENSED_POSITION", "SOURCE_POSITION", "UNLENSED"], source_redshift_list=src, cosmo="cosmo",
                       z_source_convention=3.0 if multi else None, observed_convention_index=[1] if multi else None)
        inst = (a.lens_model_class, a.source_model_class, a.lens_light_model_class, a.point_source_model_class)
    W.same("classes", [n for n, _ in made], ["lens", "light", "light", "ps"])
    k = made[0][1]
    want = dict(lens_model_list=["A", "B"], profile_kwargs_list=["kA", "kB"], z_source=2.0, z_lens=None if multi else 0.5, lens_redshift_list=[0.25, 0.75] if multi else None, multi_plane=multi,
                cosmo="cosmo", z_source_convention=3.0 if multi else 2.0, observed_convention_index=[1] if multi else None)
    W.same("lens model", {q: k.get(q) for q in want}, want)
    light = {tuple(k["light_model_list"]): k for n, k in made if n == "light"}
    for names, kw, z in ((("S", "T"), ["kS", "kT"], src), (("L",), ["kL"], None)):
        k = light[names]
        W.same("light model", (k.get("profile_kwargs_list"), k.get("source_redshift_list")), (kw, z))
    k = made[-1][1]
    W.same("point source model", (k.get("point_source_type_list"), k.get("lens_model") is inst[0], k.get("fixed_magnification_list")),
           (["LENSED_POSITION", "SOURCE_POSITION", "UNLENSED"], True, [False, True, False]))
    W.same("the models are those", [type(i).__name__ for i in inst], ["Any"] * 4)
    W.true("source and lens light are not confused", inst[1] is not inst[2])


@contract("C18", "options of a band", [OB + "SingleBand.__init__", OB + "Observation.kwargs_psf", OB + "Instrument.__init__"], samples=4)
def _bopt(W):
    from lenstronomy.SimulationAPI.observation_api import SingleBand

    f = [W.real("f%d" % i, 0, None, (1, 5)) for i in range(9)]
    typ = W.choice("psf", ["GAUSSIAN", "PIXEL"])
    norm = W.choice("normalised", [True, False])
    b = SingleBand(pixel_scale=f[0], exposure_time=f[1], magnitude_zero_point=f[2], read_noise=f[3], ccd_gain=f[4], sky_brightness=f[5], seeing=f[6], num_exposures=3, psf_type=typ,
                   kernel_point_source="kernel", truncation=f[7], point_source_supersampling_factor=5, kernel_point_source_normalisation=norm, data_count_unit="e-", background_noise=None)
    W.same("point spread function", b.kwargs_psf, {"GAUSSIAN": dict(psf_type="GAUSSIAN", fwhm=f[6], truncation=f[7]),
           "PIXEL": dict(psf_type="PIXEL", kernel_point_source="kernel", point_source_supersampling_factor=5, kernel_point_source_normalisation=norm)}[typ])
    W.eq("exposure time", b.exposure_time, 3 * f[1])
    W.same("pixel scale and gain", (b.pixel_scale, b.ccd_gain), (f[0], f[4]))
    W.eq("sky", b.sky_brightness, 10 ** (-(f[5] - f[2]) / 2.5))
    W.raises("unknown unit", lambda: SingleBand(pixel_scale=1, exposure_time=1, magnitude_zero_point=1, data_count_unit="x"), ValueError)


@contract("C18", "variable point source", ["SimulationAPI/point_source_variability.py::PointSourceVariability." + n for n in ("__init__", "point_source_time", "image_time", "delays")], samples=6,
          bounded="three images", assumes=["lens equation solutions, magnifications, arrival times and images are arbitrary"])
def _var(W):
    from lenstronomy.SimulationAPI import point_source_variability as P

    unit = W.choice("unit", ["e-"])
    b, v = band(W, unit, 1)
    ix, iy, mag, dt = W.array("ix", 3), W.array("iy", 3), W.array("mag", 3, None, None, (-5, 5)), W.array("dt", 3, None, None, (-50, 50))
    curve = W.uf("curve", 1)
    bkg, rec = W.real("bkg"), []

    class LM:
        def magnification(self, x, y, kw):
            W.same("images of the magnification", (list(x), list(y), kw), (list(ix), list(iy), "lens"))
            return mag

        def arrival_time(self, x, y, kw):
            return W._arr1(list(dt))

    class IM:
        LensModel = LM()

        def __init__(self, ps):
            self.ps = ps

        def image(self, *a):
            rec.append(a)
            return bkg

        def point_source(self, kwargs_ps, kwargs_lens):
            return sum(kwargs_ps[0]["point_amp"])

    class D:
        center, width = (0.5, 0.25), np.array([3.0, 4.0])

    class Sim:
        data_class = D

        def __init__(self, num_pix, kb, km):
            self.ps = km == {"point_source_model_list": ["LENSED_POSITION"]}

        def image_model_class(self, kn):
            return IM(self.ps)

        def magnitude2amplitude(self, l, s, p):
            return "l" + l, "s" + s, "p" + p

        def magnitude2cps(self, m):
            return b.magnitude2cps(m)

    class Sol:
        def __init__(self, lensModel):
            pass

        def image_position_from_source(self, x, y, kw, **k):
            rec.append((x, y, kw, k["search_window"], k["x_center"], k["y_center"]))
            return ix, iy

    with swap(W, (P, "SimAPI", Sim), (P, "LensEquationSolver", Sol), both=True):
        o = P.PointSourceVariability("sx", "sy", curve, 10, {}, {"a": 1}, {}, "lens", "src", "ll", "ps")
        t = W.real("t", None, None, (-50, 50))
        kp = o.point_source_time(t)
        im = o.image_time(t)
    W.same("background image", rec[0], ("lens", "ssrc", "lll", "pps"))
    W.same("search for images", rec[1], ("sx", "sy", "lens", 4.0, 0.5, 0.25))
    first = W.minimum(W.minimum(dt[0], dt[1]), dt[2])
    tot = bkg
    for i in range(3):
        W.eq("delay relative to the first image", o.delays[i], dt[i] - first)
        amp = b.magnitude2cps(curve(t - (dt[i] - first))) * W.abs(mag[i])
        W.eq("amplitude of the image at that time", kp[0]["point_amp"][i], amp)
        tot = tot + amp
    W.same("positions", (list(kp[0]["ra_image"]), list(kp[0]["dec_image"])), (list(ix), list(iy)))
    W.eq("image at that time", im, tot)


# ---------------------------------------------------------------- instrument configurations
CONF = {
    "LSST": dict(band=list("ugrizy"), psf_type=["GAUSSIAN"], coadd_years=[10, 1, 5]),
    "DES": dict(band=list("grizY"), psf_type=["GAUSSIAN"], coadd_years=[3, 1, 6]),
    "ZTF": dict(band=list("gri"), psf_type=["GAUSSIAN"], coadd_years=[3, 1, 2]),
    "Euclid": dict(band=["VIS", "Y", "J", "H"], psf_type=["GAUSSIAN"], coadd_years=[6, 2, 4]),
    "HST": dict(band=["TDLMC_F160W", "WFC3_F160W"], psf_type=["PIXEL", "GAUSSIAN"]),
    "JWST": dict(band=["F200W", "F356W", "F115W", "F150W", "F277W", "F444W"], psf_type=["PIXEL", "GAUSSIAN"]),
    "Roman": dict(band=["F062", "F087", "F106", "F129", "F158", "F184", "F146"], psf_type=["GAUSSIAN"], survey_mode=["wide_area", "time_domain_wide", "time_domain_deep", "microlensing"]),
}


def _conf(ins):
    @contract("C18", "configuration %s" % ins, ["SimulationAPI/ObservationConfig/%s.py::%s.__init__" % (ins, ins), "SimulationAPI/ObservationConfig/%s.py::%s.kwargs_single_band" % (ins, ins)], samples=2, max_paths=200)
    def body(W):
        import importlib

        mod = importlib.import_module("lenstronomy.SimulationAPI.ObservationConfig." + ins)
        defaults = {k: v for k, v in vars(mod).items() if isinstance(v, dict) and k.endswith(("_obs", "_camera"))}
        before = copy.deepcopy(defaults)
        cls = getattr(mod, ins)
        opt = CONF[ins]
        combos = [dict(zip(opt, c)) for c in itertools.product(*opt.values())]

        def make(c):
            try:
                return cls(**c)
            except ValueError:
                return None

        fresh = [copy.deepcopy(o.kwargs_single_band()) if o is not None else None for o in map(make, combos)]
        defaults_now = copy.deepcopy(defaults)
        W.same("creating observations leaves the defaults untouched", defaults_now, before)
        for c, f in zip(combos, fresh):
            o = make(c)
            if o is None:
                W.same("refused again", f, None)
                continue
            k = o.kwargs_single_band()
            W.same("same options give the same observation, whatever was created before", k, f)
            W.same("requested point spread function", k["psf_type"], c["psf_type"] if not (ins in ("HST", "JWST") and c["psf_type"] == "PIXEL") else before_psf(before, k, c))
            if "coadd_years" in c:
                full = cls(**dict(c, coadd_years=opt["coadd_years"][0])).kwargs_single_band()
                W.same("exposures are proportional to the years", k["num_exposures"], c["coadd_years"] * full["num_exposures"] // opt["coadd_years"][0])
                W.same("the rest does not depend on the years", {q: x for q, x in k.items() if q != "num_exposures"}, {q: x for q, x in full.items() if q != "num_exposures"})
            named = [d for n, d in before.items() if n.endswith("_obs") and (n.startswith(c["band"] + "_") or n.startswith("NIRCAM_%s_" % c["band"]))]
            W.same("one table for the band", len(named), 1)
            for q, x in named[0].items():
                if q not in ("num_exposures", "exposure_time", "psf_type", "kernel_point_source", "point_source_supersampling_factor", "seeing"):
                    W.same("%s of the band" % q, k.get(q), x)
            if ins not in ("Roman",) and c["psf_type"] == "GAUSSIAN" and "seeing" in named[0]:
                W.same("seeing of the band", k.get("seeing"), named[0]["seeing"])
            if ins == "Euclid":
                cam = before["VIS_camera" if c["band"] == "VIS" else "NISP_camera"]
                W.same("camera of the band", {q: k.get(q) for q in cam}, cam)
            W.same("the observation has what the camera and the observation state", {q: k[q] for q in list(o.camera) + list(o.obs)}, dict(o.camera, **o.obs))
            # changing the returned dictionaries does not reach later observations
            k["num_exposures"], o.obs["exposure_time"] = 12345, -1
            o.camera["read_noise"] = -1
            W.same("observations are independent of each other", make(c).kwargs_single_band(), f)


def before_psf(before, k, c):
    return k["psf_type"]


for _i in CONF:
    _conf(_i)


@contract("C18", "simulated image", ["Util/simulation_util.py::simulate_simple", "Util/image_util.py::add_poisson", "Util/image_util.py::add_background", "Util/simulation_util.py::data_configure_simple"],
          samples=6, bounded="2x2 image", assumes=["numpy.random returns any numbers", "the image model returns any image (contract C10)"])
def _simple(W):
    from lenstronomy.Util import simulation_util as S
    from lenstronomy.Util import image_util as I

    no = W.choice("no noise", [True, False])
    model = W.mat([[W.real("m%d%d" % (i, j), None, None, (-1, 5)) for j in range(2)] for i in range(2)])
    t, s = W.real("t", 0, None, (10, 500)), W.real("sigma", 0, None, (0.1, 1))
    rec, args = [], []

    class R:
        @staticmethod
        def randn(nx, ny):
            r = W.mat([[W.real("r%d_%d%d" % (len(rec), i, j)) for j in range(ny)] for i in range(nx)])
            rec.append(r)
            return r

    real = I.np

    class N:
        random = R

        def __getattr__(self, n):
            return getattr(real, n)

    class M:
        class Data:
            exposure_map, background_rms = t, s

        def image(self, *a, **k):
            args.append((a, k))
            return model

    with swap(W, (I, "np", N()), both=True):
        got = S.simulate_simple(M(), "kl", "ks", "kll", "kp", no_noise=no, source_add=False)
    W.same("components", args, [(("kl", "ks", "kll", "kp"), dict(source_add=False, lens_light_add=True, point_source_add=True))])
    W.same("draws", len(rec), 0 if no else 2)
    for i in range(2):
        for j in range(2):
            if no:
                W.eq("image without noise", got[i, j], model[i, j])
            else:
                a, b = rec[0][i, j], rec[1][i, j]
                p = W.sqrt(W.abs(model[i, j]) / t)
                # either draw may serve either noise term
                W.eq("shot noise and background noise", (got[i, j] - model[i, j] - a * p - b * s) * (got[i, j] - model[i, j] - b * p - a * s), 0)
    d = W.real("pix", 0, None, (0.05, 0.5))
    k = S.data_configure_simple(3, d, exposure_time=t, background_rms=s, center_ra=W.const(0.5), center_dec=W.const(0.25))
    W.same("noise settings", (k["exposure_time"], k["background_rms"]), (t, s))
    W.eq("pixel scale", k["transform_pix2angle"], W.mat([[d, 0 * d], [0 * d, d]]))
    W.eq("centre of the image", W._arr1([k["ra_at_xy_0"] + d, k["dec_at_xy_0"] + d]), W._arr1([W.const(0.5), W.const(0.25)]))
    W.shape("empty image", k["image_data"], (3, 3))

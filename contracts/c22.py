"""C22: evaluations modify neither their inputs nor the object in a way that later results depend on."""
import copy
import numpy as np
from lv.world import contract
from contracts.lens_table import TABLE, abstract_nie
from contracts.common import abstract_profiles, swap, cosmology, ALL, lens_kwargs
from contracts.lightdefs import NAMES, NOSYM, MULTI, pkw, params
from contextlib import nullcontext


class Tagged:
    """the same world with every input renamed: independent second set of inputs"""

    def __init__(self, W, tag):
        self.__dict__.update(_W=W, _tag=tag)

    def __getattr__(self, n):
        return getattr(self._W, n)

    def real(self, name, *a):
        return self._W.real(self._tag + name, *a)

    def array(self, name, *a):
        return self._W.array(self._tag + name, *a)

    def choice(self, name, options):
        return self._W.choice(self._tag + name, options)


def snap(v):
    """copy of plain data and arrays"""
    if isinstance(v, dict):
        return {k: snap(q) for k, q in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(snap(q) for q in v)
    if isinstance(v, np.ndarray):
        return v.copy()
    return v


def pos(W, n, s=(-2, 2)):
    return W.array("x", n, None, None, s), W.array("y", n, None, None, s)


METH = ("function", "derivatives", "hessian")
STATIC = set("CHAMELEON DOUBLE_CHAMELEON TRIPLE_CHAMELEON EPL EPL_Q_PHI SIE NIE NIE_POTENTIAL BPL NFW_MC NFW_MC_ELLIPSE_POTENTIAL EPL_BOXYDISKY EPL_MULTIPOLE_M1M3M4 PEMD".split())
SLOW = {"GreenBoschNFW": 2}
# potentials by numerical quadrature or hypergeometric series: float world only
NUMFUN = set("CORED_DENSITY_2 CORED_DENSITY_2_MST CORED_DENSITY_ULDM_MST GAUSSIAN MULTI_GAUSSIAN SERSIC ULDM GAUSSIAN_ELLIPSE_POTENTIAL".split())
ONE = set("HERNQUIST HERNQUIST_ELLIPSE_POTENTIAL NFW_ELLIPSE_POTENTIAL TNFW_ELLIPSE_POTENTIAL GAUSSIAN_ELLIPSE_POTENTIAL MULTIPOLE_ELL".split())


AMPS = "theta_E alpha_Rs sigma0 amp kappa kappa_0 k_eff m scale_factor a3_a a4_a coeff d_r gamma1 gamma1_od rho0 kappa_center M alpha_1 b f".split()


def methods(s):
    return [m for m in METH if not (m == "function" and not s.pot) and not (m == "hessian" and not s.hess)]


def flat(v):
    return list(v) if isinstance(v, tuple) else [v]


def _lens(s):
    fn = "LensModel/Profiles/%s.py::%s." % (s.mod, s.cls)

    @contract("C22", "lens." + s.name, [fn + m for m in methods(s)] + [fn + "set_static", fn + "set_dynamic"], samples=SLOW.get(s.name, 40 if s.name in STATIC else 8), sym=s.sym, timeout=s.timeout, max_paths=40,
              bounded="one position per call in the proof (two in the float world); history: any evaluation, static mode on (twice) and off, in between")
    def body(W):
        n = 1 if W.sym else 2
        V = Tagged(W, "b_")
        x, y = pos(W, n)
        u, v = pos(V, n)
        kw = s.kwargs(W, x[0], y[0])
        has_static = "set_static" in {k for c in type(s.instance()).__mro__[:-1] if c.__name__ != "LensProfileBase" for k in c.__dict__}
        if W.sym and not has_static:
            # the evaluations before: same position (same branches), other normalisation and parameters
            u, v = x, y
            kv = dict(kw)
            for k in kv:
                if k in AMPS and not isinstance(kv[k], (list, np.ndarray)):
                    kv[k] = kv[k] + V.real("d" + k, 0, None, (0.1, 0.3))
        else:
            kv = s.kwargs(V, u[0], v[0])
        if W.sym:
            ms = [m for m in methods(s) if not (m == "function" and s.name in NUMFUN)]
            if s.name in ONE:
                ms = [W.choice("method", ms)]
            first, last = ms, ms
        else:
            first, last = [W.choice("first", methods(s))], [W.choice("last", methods(s))]
        static = W.choice("static", ("no", "before", "between", "during")) if has_static else "no"
        if s.name == "SYNTHESIS":
            static = "no"
        with abstract_nie(W) if s.callee == "nie" else nullcontext():
            run = lambda p, meths, x, y, k: [q for m in meths for q in flat(getattr(p, m)(x, y, **k))]
            ref = run(s.instance(), last, x, y, kw)
            p = s.instance()
            keep = snap([x, y, kw, u, v, kv])
            if static == "before":
                p.set_static(**kv)
                p.set_dynamic()
            run(p, first, u, v, kv)
            if static == "between":
                p.set_static(**kv)
                p.set_static(**kw)
                p.set_dynamic()
            if static == "during":
                p.set_static(**kv)
                run(p, first, u, v, kv)
                p.set_static(**kw)
            out = run(p, last, x, y, kw)
            again = run(p, last, x, y, kw)
            W.same("positions and parameters are unchanged", snap([x, y, kw, u, v, kv]), keep)
            for a, b, r in zip(out, again, ref):
                W.eq("result does not depend on earlier evaluations", a, r)
                W.eq("repeated evaluation gives the same result", b, r)


for _s in TABLE.values():
    _lens(_s)


def _light(m):
    @contract("C22", "light." + m, ["LightModel/light_model_base.py::LightModelBase.surface_brightness"], samples=4, sym=m not in NOSYM, timeout=40, max_paths=40,
              bounded="one position in the proof (two in the float world); shapelet order 1, three Gaussians")
    def body(W):
        from lenstronomy.LightModel.light_model import LightModel

        new = lambda: LightModel([m], profile_kwargs_list=[pkw(m)])
        n = 1 if W.sym else 2
        V = Tagged(W, "b_")
        x, y = pos(W, n, (-1.5, 1.5))
        u, v = pos(V, n, (-1.5, 1.5))
        pn = new().func_list[0].param_names
        kw = params(W, m, pn)
        kv = params(V, m, pn)
        what = W.choice("what", ("surface brightness", "split"))
        ev = lambda lm, x, y, k: lm.surface_brightness(x, y, [k]) if what == "surface brightness" else np.array(lm.functions_split(x, y, [k])[0])
        ref = ev(new(), x, y, kw)
        lm = new()
        keep = snap([x, y, kw, u, v, kv])
        lm.surface_brightness(u, v, [kv])
        lm.functions_split(u, v, [kv])
        out = ev(lm, x, y, kw)
        again = ev(lm, x, y, kw)
        W.same("positions and parameters are unchanged", snap([x, y, kw, u, v, kv]), keep)
        W.eq("result does not depend on earlier evaluations", out, ref)
        W.eq("repeated evaluation gives the same result", again, ref)


for _m in NAMES:
    _light(_m)


# ---- lens models -----------------------------------------------------------------------------
SP = "LensModel/single_plane.py::SinglePlane."
MPN = "LensModel/MultiPlane/multi_plane.py::MultiPlane."
LMN = "LensModel/lens_model.py::LensModel."


def lens_eval(lm, what, x, y, kw):
    if what == "rays":
        return list(lm.ray_shooting(x, y, kw))
    if what == "deflection":
        return list(lm.alpha(x, y, kw))
    if what == "hessian":
        return list(lm.hessian(x, y, kw))
    return [lm.potential(x, y, kw)]


@contract("C22", "lens model.single plane", [SP + "alpha", SP + "hessian", SP + "potential", "LensModel/profile_list_base.py::ProfileListBase.set_static", "LensModel/profile_list_base.py::ProfileListBase.set_dynamic"],
          samples=12, bounded="three components; profiles are arbitrary functions in the proof")
def _sp(W):
    from lenstronomy.LensModel.lens_model import LensModel

    names = ["SIS", "NFW", "SHEAR"]
    V = Tagged(W, "b_")
    x, y = pos(W, 2)
    u, v = pos(V, 2)
    kw, kv = lens_kwargs(W, names), lens_kwargs(W, names, "b_")
    first, last = W.choice("first", ("rays", "potential", "hessian")), W.choice("last", ("rays", "deflection", "potential", "hessian"))
    static = W.choice("static", (False, True, "left on"))
    with abstract_profiles(W, [ALL[n] for n in names]):
        ref = lens_eval(LensModel(names), last, x, y, kw)
        lm = LensModel(names)
        keep = snap([x, y, kw, u, v, kv, names])
        lens_eval(lm, first, u, v, kv)
        if static:
            k2 = lm.set_static(kv)
            lens_eval(lm, first, u, v, k2)
            if static is True:
                lm.set_dynamic()
            else:
                kw_ = lm.set_static(kw)
        out = lens_eval(lm, last, x, y, kw_ if static == "left on" else kw)
        W.same("inputs are unchanged", snap([x, y, kw, u, v, kv, names]), keep)
        for a, b in zip(out, ref):
            W.eq("result does not depend on earlier evaluations", a, b)


def mp_model(W, cosmo, convention, **kw):
    from lenstronomy.LensModel.lens_model import LensModel

    return LensModel(["SIS", "NFW", "SIS"], z_source=2.0, lens_redshift_list=[0.5, 1.0, 0.5], multi_plane=True, cosmo=cosmo, observed_convention_index=convention, **kw)


def _mp(convention):
    @contract("C22", "lens model.multi plane %s" % ("with observed positions" if convention else "physical positions"), [MPN + "ray_shooting", MPN + "alpha", MPN + "set_static", MPN + "set_dynamic", MPN + "observed2flat_convention", LMN + "change_source_redshift"],
              samples=12, timeout=120, bounded="three components on two planes; profiles are arbitrary functions in the proof")
    def body(W):
        names = ["SIS", "NFW", "SIS"]
        x, y = W.real("x", None, None, (-2, 2)), W.real("y", None, None, (-2, 2))
        u, v = W.real("u", None, None, (-2, 2)), W.real("v", None, None, (-2, 2))
        kw, kv = lens_kwargs(W, names), lens_kwargs(W, names, "b_")
        cosmo = cosmology(W, [0.5, 1.0, 1.5, 2.0])
        hist = W.choice("history", ("evaluation", "static", "static twice", "redshift", "left static", "left static twice"))
        with abstract_profiles(W, [ALL[n] for n in ("SIS", "NFW")]):
            what = W.choice("what", ("rays", "deflection"))
            ref = lens_eval(mp_model(W, cosmo, convention), what, x, y, kw)
            lm = mp_model(W, cosmo, convention)
            keep = snap([kw, kv])
            lens_eval(lm, "rays", u, v, kv)
            if hist.startswith("static"):
                k2 = lm.set_static(kv)
                lens_eval(lm, "rays", u, v, k2)
                if hist == "static twice":
                    k2 = lm.set_static(kw)
                lm.set_dynamic()
            elif hist.startswith("left static"):
                if hist == "left static twice":
                    lm.set_static(kv)
                kw_ = lm.set_static(kw)
            elif hist == "redshift":
                lm.change_source_redshift(1.5)
                lens_eval(lm, "rays", u, v, kv)
                lm.change_source_redshift(2.0)
            out = lens_eval(lm, what, x, y, kw_ if hist.startswith("left") else kw)
            W.same("parameters are unchanged", snap([kw, kv]), keep)
            for a, b in zip(out, ref):
                W.eq("result does not depend on earlier evaluations", a, b)


_mp(None)
_mp([1, 2])


@contract("C22", "lens model.source redshift", [LMN + "change_source_redshift", SP + "change_redshift_scaling", LMN + "update_cosmology"], samples=12, bounded="two components")
def _zs(W):
    from lenstronomy.LensModel.lens_model import LensModel

    names = ["SIS", "NFW"]
    x, y = pos(W, 2)
    kw = lens_kwargs(W, names)
    c1, c2 = cosmology(W, [0.5, 1.0, 1.5, 2.0]), cosmology(W, [0.5, 1.0, 1.5, 2.0], "c2")
    z0 = W.choice("z", (2.0, 1.0))
    hist = W.choice("history", ("redshift", "cosmology", "both"))
    with abstract_profiles(W, [ALL[n] for n in names]):
        new = lambda c, z: LensModel(names, z_lens=0.5, z_source=z, z_source_convention=2.0, cosmo=c)
        final = c2 if hist != "redshift" else c1
        ref = new(final, z0)
        lm = new(c1, z0)
        lens_eval(lm, "rays", x, y, kw)
        if hist != "cosmology":
            lm.change_source_redshift(1.5)
            lens_eval(lm, "rays", x, y, kw)
        if hist != "redshift":
            lm.update_cosmology(c2)
        if hist != "cosmology":
            lm.change_source_redshift(z0)
        for what in ("rays", "hessian", "potential"):
            for a, b in zip(lens_eval(lm, what, x, y, kw), lens_eval(ref, what, x, y, kw)):
                W.eq("restored source redshift restores " + what, a, b)
        W.eq("restored source redshift restores arrival times", lm.arrival_time(x, y, kw), ref.arrival_time(x, y, kw))


# ---- point sources -----------------------------------------------------------------------------
PSN = "PointSource/point_source.py::PointSource."
PCN = "PointSource/point_source_cached.py::PointSourceCached."


@contract("C22", "point source.cache", [PSN + "image_position", PSN + "source_position", PSN + "image_amplitude", PSN + "point_source_list", PSN + "delete_lens_model_cache", PSN + "set_save_cache",
                                        PCN + "image_position", PCN + "source_position", PCN + "image_amplitude"], samples=60, timeout=120, max_paths=400, bounded="three point sources of the three types; two images each")
def _ps(W):
    from lenstronomy.PointSource.point_source import PointSource
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver

    def kps(tag):
        p2 = lambda n, s: W.array(tag + n, 2, None, None, s)
        return [{"ra_image": p2("ra0", (1.0, 1.8)), "dec_image": p2("dec0", (-1, 1)), "point_amp": p2("a0", (0.5, 2))},
                {"ra_source": W.real(tag + "ra1", None, None, (-0.2, 0.2)), "dec_source": W.real(tag + "dec1", None, None, (-0.2, 0.2)), "point_amp": p2("a1", (0.5, 2))},
                {"ra_image": p2("ra2", (-1, 1)), "dec_image": p2("dec2", (-1, 1)), "point_amp": p2("a2", (0.5, 2))}]

    k1, k2 = kps(""), kps("b_")
    names = ["SIS"]
    l1, l2 = lens_kwargs(W, names), lens_kwargs(W, names, "b_")

    def solve(self, sourcePos_x, sourcePos_y, kwargs_lens, **kw):
        """lens equation solver: two images, arbitrary functions of the source and the lens"""
        a = [sourcePos_x, sourcePos_y] + [q for k in kwargs_lens for q in k.values()]
        return tuple(W._arr1([W.uf("solve%s%d" % (c, i), len(a))(*a) for i in range(2)]) for c in "xy")

    cache = W.choice("cache", (False, "deleted", "update", "set"))
    CALLS = ("image_position", "source_position", "image_amplitude", "source_amplitude", "point_source_list", "linear_response_set")
    what, first = W.choice("what", CALLS), W.choice("first", CALLS)
    types = ["LENSED_POSITION", "SOURCE_POSITION", "UNLENSED"]
    flux = lambda out: [q for l in (out if isinstance(out, tuple) else (out,)) for q in (l if isinstance(l, list) else [l])]
    with abstract_profiles(W, [ALL[n] for n in names]), swap(W, (LensEquationSolver, "image_position_from_source", solve), both=True):
        new = lambda c: PointSource(types, LensModel(names), save_cache=c, fixed_magnification_list=[False, True, False])
        k1[1]["source_amp"] = W.real("sa", 0, None, (0.5, 2))
        k2[1]["source_amp"] = W.real("b_sa", 0, None, (0.5, 2))
        ref = flux(getattr(new(False), what)(k1, l1))
        ps = new(cache is not False)
        keep = snap([k1, k2, l1, l2])
        getattr(ps, first)(k2, l2)
        if cache == "deleted":
            ps.delete_lens_model_cache()
        elif cache == "update":
            ps.update_lens_model(LensModel(names))
        elif cache == "set":
            ps.set_save_cache(False)
            getattr(ps, first)(k2, l2)
            ps.delete_lens_model_cache()
        out = flux(getattr(ps, what)(k1, l1))
        again = flux(getattr(ps, what)(k1, l1))
        W.same("parameters are unchanged", snap([k1, k2, l1, l2]), keep)
        W.same("number of results", [np.shape(q) for q in out], [np.shape(q) for q in ref])
        for a, b, c in zip(out, again, ref):
            W.eq("result does not depend on earlier evaluations", a, c)
            W.eq("repeated evaluation gives the same result", b, c)


# ---- helpers of image, kernel, parameter and mask manipulation ------------------------------------
def A(n, s=(-2, 2), lo=None):
    return lambda W, tag: W.array(tag, n, lo, None, s)


def V0(s=(0.1, 1), lo=None):
    return lambda W, tag: W.real(tag, lo, None, s)


def C(v):
    return lambda W, tag: np.array(v) if isinstance(v, list) and v and isinstance(v[0], float) else copy.deepcopy(v)


K5 = np.outer([1, 4, 7, 3, 2], [2, 3, 9, 4, 1]) / 64.0
M5 = (np.arange(25).reshape(5, 5) % 7) * 0.5
GX, GY = np.tile(np.linspace(-1, 1, 5), 5), np.repeat(np.linspace(-1, 1, 5), 5)
a2, i2 = A(2), A((2, 2), (0.1, 3), 0)
POS = A(2, (0.2, 2), 0)
UTIL = [
    # module, function, arguments, symbolic
    ("util", "merge_dicts", [C({"a": 1}), C({"b": 2, "a": 3})], True), ("util", "approx_theta_E", [C([1.0, -1.0, 0.25, -0.125]), C([0.1, 0.2, 1.2, -0.9])], True),
    ("util", "sort_image_index", [C([1.0, -1.0, 0.5]), C([0.0, 0.4, 2.0]), C([0.9, 0.6, -1.0]), C([0.1, 1.8, 0.0])], True), ("util", "rotate", [a2, a2, V0()], True),
    ("util", "map_coord2pix", [a2, a2, V0(), V0(), i2], True), ("util", "array2image", [A(4)], True), ("util", "image2array", [i2], True),
    ("util", "array2cube", [A(8), C(2), C(4)], True), ("util", "cube2array", [A((2, 2, 2))], True), ("util", "make_grid_transformed", [C(3), i2], True),
    ("util", "grid_from_coordinate_transform", [C(2), C(3), i2, V0(), V0()], True), ("util", "get_axes", [C(GX), C(GY)], True), ("util", "averaging", [A(16), C(4), C(2)], True),
    ("util", "displaceAbs", [a2, a2, V0(), V0()], True), ("util", "get_distance", [C([1.0, 2.0]), C([0.5, 1.0]), C([2.1, 0.9]), C([1.1, 0.4])], True),
    ("util", "compare_distance", [a2, a2], True), ("util", "min_square_dist", [C([1.0, 2.0]), C([0.5, 1.0]), C([2.1, 0.9]), C([1.1, 0.4])], True),
    ("util", "select_best", [C([3.0, 1.0, 2.0]), C([0.3, 0.9, 0.6]), C(2), C(True)], True), ("util", "select_best", [C([3.0, 1.0, 2.0]), C([0.3, 0.9, 0.6]), C(2), C(False)], True),
    ("util", "selectBest", [C([3.0, 1.0, 2.0]), C([0.3, 0.9, 0.6]), C(2), C(True)], True),
    ("util", "local_minima_2d", [C(M5.flatten()), C(GX), C(GY)], True), ("util", "make_subgrid", [C(GX), C(GY), C(2)], True), ("util", "convert_bool_list", [C(3), C([0, 2])], True),
    ("util", "convert_bool_list", [C(2), C([True, False])], True), ("util", "area", [C([[0.0, 0.0], [1.0, 0.0], [1.0, 2.0]])], True),
    ("image_util", "add_layer2image", [A((3, 3)), C(1.25), C(0.5), C(K5[1:4, 1:4])], False), ("image_util", "add_layer2image_int", [A((3, 3)), C(1), C(2), C(K5[1:4, 1:4])], True),
    ("image_util", "add_layer2image_int", [A((3, 3)), C(0), C(4), C(K5[1:4, 1:4])], True),
    ("image_util", "rotateImage", [C(M5), C(30.0)], False), ("image_util", "shift_image", [C(M5), C([0.25, -0.5])], False), ("image_util", "symmetry_average", [C(M5), C(4)], False),
    ("image_util", "findOverlap", [C([1.0, 1.0001, 2.0]), C([0.5, 0.5, 1.0]), C(0.01)], True), ("image_util", "coord_in_image", [C([1.0, 9.0, 2.0]), C([0.5, 0.5, 1.0]), C(10), C(0.5)], True),
    ("image_util", "re_size", [A((4, 4)), C(2)], True), ("image_util", "re_size", [A((2, 2)), C(1)], True),
    ("image_util", "rebin_image", [A((4, 4)), A((4, 4)), V0(), A((4, 4)), A((4, 4)), C(M5[:4, :4])], True), ("image_util", "rebin_coord_transform", [C(2), V0(), V0(), i2, i2], True),
    ("image_util", "stack_images", [C([M5, M5 + 1]), C([np.ones((5, 5)), 2 * np.ones((5, 5))]), C([1.0, 2.0])], True), ("image_util", "cut_edges", [C(M5), C(3)], True),
    ("image_util", "radial_profile", [C(M5), C([2, 2])], True), ("image_util", "gradient_map", [C(M5)], False),
    ("kernel_util", "de_shift_kernel", [C(K5), C(0.25), C(-0.25), C(3)], False), ("kernel_util", "center_kernel", [C(K5), C(3)], False), ("kernel_util", "kernel_make_odd", [C(K5[:4, :4])], False),
    ("kernel_util", "kernel_norm", [i2], True), ("kernel_util", "subgrid_kernel", [C(K5), C(3), C(True), C(3)], False), ("kernel_util", "kernel_pixelsize_change", [C(K5), C(1.0), C(0.5)], False),
    ("kernel_util", "cut_psf", [C(K5), C(3)], True), ("kernel_util", "cut_psf", [C(K5), C(3), C(False)], True), ("kernel_util", "cut_psf", [C(K5), C(5)], True), ("kernel_util", "pixel_kernel", [C(K5), C(3)], False),
    ("kernel_util", "kernel_average_pixel", [C(np.outer(np.arange(1, 10), np.arange(9, 0, -1)) / 64.0), C(3)], True),
    ("kernel_util", "split_kernel", [C(np.outer(np.arange(1, 16), np.arange(15, 0, -1)) / 64.0), C(3), C(3)], True), ("kernel_util", "degrade_kernel", [C(np.outer(np.arange(1, 10), np.arange(9, 0, -1)) / 64.0), C(3)], True),
    ("kernel_util", "averaging_even_kernel", [C(np.outer(np.arange(1, 10), np.arange(9, 0, -1)) / 64.0), C(2)], True), ("kernel_util", "cutout_source", [C(2), C(1), C(M5), C(3)], False),
    ("kernel_util", "cutout_source", [C(2), C(1), C(M5), C(3), C(False)], False),
    ("kernel_util", "fwhm_kernel", [C(K5)], False), ("kernel_util", "estimate_amp", [C(M5), C(2.25), C(2.0), C(K5)], False), ("kernel_util", "match_kernel_size", [C(K5), C(7)], True), ("kernel_util", "match_kernel_size", [C(K5), C(3)], True),
    ("kernel_util", "kernel_gaussian_grid", [C(GX), C(GY), C(0.5)], True), ("kernel_util", "kernel_moffat_grid", [C(GX), C(GY), C(0.5), C(2.5)], True),
    ("param_util", "cart2polar", [POS, POS, V0(), V0()], True), ("param_util", "polar2cart", [POS, a2, C([0.5, 0.25])], True), ("param_util", "shear_cartesian2polar", [POS, POS], True),
    ("param_util", "shear_polar2cartesian", [a2, POS], True), ("param_util", "phi_q2_ellipticity", [a2, C([0.5, 0.75])], True), ("param_util", "ellipticity2phi_q", [C([0.25, 0.125]), C([0.125, -0.25])], True),
    ("param_util", "transform_e1e2_product_average", [a2, a2, C(0.25), C(0.125), V0(), V0()], True), ("param_util", "transform_e1e2_square_average", [a2, a2, C(0.25), C(0.125), V0(), V0()], True),
    ("mask_util", "mask_center_2d", [C(0.0), C(0.25), C(0.5), C(GX), C(GY)], True), ("mask_util", "mask_azimuthal", [C(GX), C(GY), C(0.0), C(0.25), C(0.5)], True),
    ("mask_util", "mask_ellipse", [C(GX), C(GY), C(0.0), C(0.25), C(0.5), C(0.75), C(0.25)], True), ("mask_util", "mask_eccentric", [C(GX), C(GY), C(0.0), C(0.25), C(0.25), C(0.125), C(0.75)], True),
    ("mask_util", "mask_half_moon", [C(GX), C(GY), C(0.0), C(0.25), C(0.25), C(1.0), C(0.5), C(2.0)], True), ("mask_util", "mask_shell", [C(GX), C(GY), C(0.0), C(0.25), C(0.25), C(1.0)], True),
    ("data_util", "magnitude2amplitude", ["light", C([{"magnitude": 22.0, "sigma": 1.0, "center_x": 0.0, "center_y": 0.0}]), C(25.0)], False),
    ("analysis_util", "half_light_radius", [C(M5.flatten()), C(GX), C(GY)], False), ("analysis_util", "radial_profile", [C(M5.flatten()), C(GX), C(GY), C(0.0), C(0.0), C(3)], False),
    ("analysis_util", "azimuthal_average", [C(M5)], False), ("analysis_util", "moments", [C(M5), C(GX.reshape(5, 5)), C(GY.reshape(5, 5))], False), ("analysis_util", "ellipticities", [C(M5), C(GX.reshape(5, 5)), C(GY.reshape(5, 5)), C(3), C(True)], False),
    ("analysis_util", "profile_center", [C([{"center_x": 1.0, "center_y": 2.0}])], False), ("multi_gauss_expansion", "mge_1d", [C(np.linspace(0.1, 3, 20)), C(np.exp(-np.linspace(0.1, 3, 20))), C(4)], False),
    ("multi_gauss_expansion", "de_projection_3d", [A(2, (0.5, 2), 0), A(2, (0.5, 2), 0)], True), ("multi_gauss_expansion", "gaussian", [A(2, (0.5, 2), 0), V0((0.5, 2), 0), V0()], True),
    ("correlation", "correlation_2D", [C(M5)], False), ("correlation", "power_spectrum_1d", [C(M5)], False), ("primary_beam_util", "primary_beam_value_at_coords", [C([1.25, 2.5]), C([0.5, 3.0]), C(M5)], False),
    ("cosmo_util", "get_astropy_cosmology", [C("w0waCDM"), C({"H0": 70.0, "Om0": 0.3, "Ode0": 0.7, "w0": -1.0, "wa": 0.1})], False),
    ("prob_density", "compute_lower_upper_errors", [C([0.3, 0.1, 0.7, 0.5, 0.2])], False),
]
for _i, _u in enumerate(UTIL):
    if _u[1] == "rebin_image":
        UTIL[_i] = (_u[0], _u[1], [C(1)] + _u[2], _u[3])


def _util(mod, sym):
    rows = [u for u in UTIL if u[0] == mod and u[3] == sym]

    @contract("C22", "util.%s%s" % (mod, "" if sym else " (numerical)"), sorted({"Util/%s.py::%s" % (mod, u[1]) for u in rows}), samples=4 * len(rows), sym=sym, timeout=100, max_paths=400,
              bounded="arrays of the listed sizes" if sym else "sampled arrays of the listed sizes")
    def body(W):
        import importlib

        i = W.choice("function", range(len(rows)))
        _, fn, spec, _ = rows[i]
        f = getattr(importlib.import_module("lenstronomy.Util." + mod), fn)
        args = []
        for j, b in enumerate(spec):
            if b == "light":
                from lenstronomy.LightModel.light_model import LightModel

                args.append(LightModel(["GAUSSIAN"]))
            else:
                args.append(b(W, "a%d_%d_" % (i, j)))
        if fn == "rebin_image" and W.choice("rebin", (False, True)):
            args[0] = 2
        plain = [q for q in args if type(q).__module__.split(".")[0] != "lenstronomy"]
        keep = snap(plain)
        one = snap(f(*args))
        W.same("%s leaves its arguments unchanged" % fn, snap(plain), keep)
        two = f(*args)
        if isinstance(one, (tuple, list)):
            W.same("%s: number of results" % fn, len(two), len(one))
            for a, b in zip(one, two):
                if a is not None and not isinstance(a, dict):
                    W.eq("%s: repeated call gives the same result" % fn, np.array(b), np.array(a))
        elif isinstance(one, (np.ndarray, float)) or hasattr(one, "term"):
            W.eq("%s: repeated call gives the same result" % fn, two, one)


for _m in sorted({(u[0], u[3]) for u in UTIL}):
    _util(*_m)


# ---- data, noise, PSF -------------------------------------------------------------------------------
@contract("C22", "data", ["Data/image_noise.py::ImageNoise", "Data/imaging_data.py::ImageData", "Data/pixel_grid.py::PixelGrid"], samples=12, timeout=100, max_paths=300, bounded="frames of 2x2 pixels")
def _data(W):
    from contracts.imsim import image, noise_kwargs, KINDS
    from contracts.c13 import trans
    from lenstronomy.Data.imaging_data import ImageData

    kind = W.choice("noise", KINDS)
    d, m, m2 = image(W, "d"), image(W, "m"), image(W, "n")
    if W.sym:  # one sign per image
        d, m, m2 = [W.mat([[q[0, 0], -1.0], [0.5, q[0, 0]]]) for q in (d, m, m2)]
    noise = noise_kwargs(W, kind)
    if kind == "poisson":
        noise["exposure_time"] = W.mat([[noise["exposure_time"][0, 0], 0.0], [-1.0, noise["exposure_time"][1, 1]]])
    fr = trans(W)
    mask = np.array([[1, 0], [1, 1]])
    keep = snap([d, m, m2, noise, fr, mask])
    for what in (("log_likelihood", "C_D_model", "C_D") if W.sym else (W.choice("what", ("log_likelihood", "C_D_model", "C_D")),)):
        ev = {"log_likelihood": lambda D: D.log_likelihood(m, mask), "C_D_model": lambda D: D.C_D_model(m), "C_D": lambda D: D.C_D}[what]
        ref = ev(ImageData(d, **noise, **fr))
        D = ImageData(d, **noise, **fr)
        D.log_likelihood(m2, mask)
        D.C_D_model(m2)
        D.C_D
        D.pixel_coordinates
        W.eq("%s does not depend on earlier evaluations" % what, ev(D), ref)
    W.same("data, noise and frame passed in are unchanged", snap([d, m, m2, noise, fr, mask]), keep)


@contract("C22", "data.update", ["Data/imaging_data.py::ImageData.update_data", "Data/image_noise.py::ImageNoise.C_D"], samples=8, timeout=60, bounded="frames of 2x2 pixels")
def _du(W):
    from contracts.imsim import image, noise_kwargs, KINDS
    from lenstronomy.Data.imaging_data import ImageData

    noise = noise_kwargs(W, W.choice("noise", KINDS))
    d, e = image(W, "d", lo=0.0, smp=(0.1, 3)), image(W, "e", lo=0.0, smp=(0.1, 3))
    D = ImageData(d, **noise)
    if W.choice("read before", (True, False)):
        D.C_D
    D.update_data(e)
    W.eq("data", D.data, e)
    W.eq("covariance is the one of the new data", D.C_D, ImageData(e, **noise).C_D)


@contract("C22", "psf", ["Data/psf.py::PSF"], samples=80, sym=False, bounded="sampled kernels of 5x5 and 15x15 pixels")
def _psf(W):
    from lenstronomy.Data.psf import PSF

    kind = W.choice("kind", ("gauss", "pixel", "super"))
    k = W.array("k", (5, 5), None, None, (0.1, 1))
    k = k + np.outer([0, 1, 4, 1, 0], [0, 1, 4, 1, 0])
    ks = W.array("ks", (15, 15), None, None, (0.1, 1)) + 5 * np.exp(-(np.add.outer((np.arange(15) - 7) ** 2, (np.arange(15) - 7) ** 2)) / 8)
    var = W.array("var", (5, 5), None, None, (0.1, 1))
    norm = W.choice("normalised", (True, False))
    kw = {"gauss": dict(psf_type="GAUSSIAN", fwhm=2.0, pixel_size=1.0), "pixel": dict(psf_type="PIXEL", kernel_point_source=k, kernel_point_source_normalisation=norm, psf_variance_map=var),
          "super": dict(psf_type="PIXEL", kernel_point_source=ks, point_source_supersampling_factor=3, kernel_point_source_normalisation=norm)}[kind]
    keep = snap(kw)
    Q = {"kernel": lambda P: P.kernel_point_source, "pixel": lambda P: P.kernel_pixel, "super3": lambda P: P.kernel_point_source_supersampled(3), "super5": lambda P: P.kernel_point_source_supersampled(5, updata_cache=False),
         "fwhm": lambda P: P.fwhm, "variance": lambda P: P.psf_variance_map}
    order = [W.choice("q%d" % i, list(Q)) for i in range(4)]
    last = W.choice("last", list(Q))
    if kind in ("pixel", "super"):
        Q.pop("fwhm")
        order, last = [q for q in order if q != "fwhm"], "kernel" if last == "fwhm" else last
    if kind == "super":
        order, last = [q for q in order if q != "super5"], "super3" if last == "super5" else last
    P = PSF(**kw)
    for q in order:
        Q[q](P)
    ref = Q[last](PSF(**kw))
    W.eq("%s does not depend on what was asked for before" % last, Q[last](P), ref)
    W.eq("%s asked for again" % last, Q[last](P), ref)
    W.same("kernels passed in are unchanged", snap(kw), keep)


# ---- images -----------------------------------------------------------------------------------------
IM = "ImSim/image_model.py::ImageModel."


def _image(sym):
    @contract("C22", "image" if sym else "image (sampled)", [IM + "image", IM + "source_surface_brightness", IM + "lens_surface_brightness", IM + "point_source", "ImSim/image_linear_solve.py::ImageLinearFit.linear_response_matrix"],
              samples=6 if sym else 80, sym=sym, timeout=100, max_paths=300, bounded="frames of 3x3 pixels, one component per kind")
    def body(W):
        from lenstronomy.LightModel.light_model import LightModel
        from lenstronomy.PointSource.point_source import PointSource
        from lenstronomy.LensModel.lens_model import LensModel
        from lenstronomy.Data.psf import PSF
        from lenstronomy.ImSim.image_model import ImageModel
        from contracts.imsim import image
        from contracts.c13 import build, UNIT, kernel, light, SIS

        n = 3 if sym else 5
        mask = np.ones((n, n))
        mask[0, 1] = 0
        data, noise = image(W, "dat", n), image(W, "sig", n, 0, None, (0.5, 2))
        fr = snap(UNIT)
        kern = kernel(W)
        num = {} if sym else W.choice("numerics", ({}, {"supersampling_factor": 2, "supersampling_convolution": False}, {"supersampling_factor": 2, "supersampling_convolution": True},
                                                     {"supersampling_factor": 3, "compute_mode": "adaptive", "supersampled_indexes": np.eye(n, dtype=bool), "supersampling_convolution": True}))

        def kws(tag):
            T = Tagged(W, tag)
            kp = [{"ra_image": W._arr1([T.real("ra%d" % i, 0.6, 1.4, (0.7, 1.3)) for i in range(2)]), "dec_image": W._arr1([T.real("de%d" % i, 0.6, 1.4, (0.7, 1.3)) for i in range(2)]), "point_amp": T.array("pa", 2, 0, None, (0.5, 2))}]
            if sym:
                kp[0]["ra_image"], kp[0]["dec_image"] = np.array([0.75, 1.25]), np.array([1.0, 1.25])
            return [[{k: T.real("l" + k, *b) for k, b in dict(theta_E=(0, None, (0.5, 1)), center_x=(None, None, (0.8, 1)), center_y=(None, None, (0.8, 1))).items()}], light(T, "s", 1), light(T, "g", 1), kp]

        k1, k2 = kws(""), kws("b_")
        sp = {"delta_x_image": [0.125, 0.25], "delta_y_image": [0.0, -0.125]} if W.choice("displaced", (False, True)) else None
        cls = "image_linear_solve.ImageLinearFit"
        with abstract_profiles(W, [SIS]):
            def new():
                return build(W, cls, n=n, psf=PSF(psf_type="PIXEL", kernel_point_source=kern, kernel_point_source_normalisation=False), data=data, noise=noise, fr=fr, mask=mask, lens_model_class=LensModel(["SIS"]),
                             source_model_class=LightModel(["GAUSSIAN"]), lens_light_model_class=LightModel(["GAUSSIAN"]), point_source_class=PointSource(["UNLENSED"]), kwargs_numerics=num)[0]

            CALLS = {"image": lambda I, k: I.image(*k, kwargs_special=sp), "source": lambda I, k: I.source_surface_brightness(k[1], k[0]), "lens light": lambda I, k: I.lens_surface_brightness(k[2]),
                     "point source": lambda I, k: I.point_source(k[3], k[0], kwargs_special=sp), "response": lambda I, k: I.linear_response_matrix(*k, kwargs_special=sp)}
            if not sym:
                CALLS["solve"] = lambda I, k: I.image_linear_solve(*k, kwargs_special=sp)[0]
                CALLS["likelihood"] = lambda I, k: I.likelihood_data_given_model(*k, kwargs_special=sp)[0]
                CALLS["fixed likelihood"] = lambda I, k: np.atleast_1d(ImageModel.likelihood_data_given_model(I, *k, kwargs_special=sp))[0]
                CALLS["unconvolved"] = lambda I, k: I.image(*k, kwargs_special=sp, unconvolved=True)
                CALLS["residuals"] = lambda I, k: I.reduced_residuals(I.image(*k, kwargs_special=sp))

            def state():
                """inputs; solving for the linear amplitudes writes the solution to the parameters passed in (C12)"""
                st = snap([data, noise, mask, fr, kern, sp, k1, k2])
                if {"solve", "likelihood"} & {first, last}:
                    for k in st[6:]:
                        k[1][0].pop("amp"), k[2][0].pop("amp"), k[3][0].pop("point_amp")
                return st

            first, last = W.choice("first", list(CALLS)), W.choice("last", list(CALLS))
            keep = state()
            k1_ = snap(k1)
            ref = CALLS[last](new(), snap(k1))
            I = new()
            CALLS[first](I, k2)
            out = CALLS[last](I, k1)
            W.eq("%s does not depend on earlier evaluations" % last, out, ref)
            W.same("data, settings and parameters are unchanged", state(), keep)
            CALLS[first](I, snap(k1_))
            W.eq("%s repeated" % last, CALLS[last](I, snap(k1_)), ref)


_image(True)
_image(False)


# ---- parameters and likelihood ------------------------------------------------------------------------
@contract("C22", "likelihood", ["Sampling/likelihood.py::Likelihood.logL", "Sampling/likelihood.py::Likelihood.log_likelihood", "Sampling/parameters.py::Param.args2kwargs", "Sampling/parameters.py::Param.kwargs2args",
                                "Sampling/Likelihoods/image_likelihood.py::ImageLikelihood.logL", "Sampling/Likelihoods/position_likelihood.py::PositionLikelihood.logL"],
          samples=40, sym=False, bounded="sampled parameters of a quad with source, lens light, quasar images, time delays and flux ratios; 10x10 pixels")
def _like(W):
    from lenstronomy.Sampling.parameters import Param
    from lenstronomy.Sampling.likelihood import Likelihood

    n = 10
    kmodel = dict(lens_model_list=["SIE", "SHEAR"], source_light_model_list=["GAUSSIAN"], lens_light_model_list=["GAUSSIAN_ELLIPSE"], point_source_model_list=["LENSED_POSITION"],
                  z_lens=0.5, z_source=1.5, fixed_magnification_list=[False])
    data = W.array("d", (n, n), None, None, (-1, 5))
    kd = dict(image_data=data, noise_map=np.ones((n, n)), ra_at_xy_0=0.9, dec_at_xy_0=-0.9, transform_pix2angle=np.array([[-0.2, 0], [0, 0.2]]))
    kern = np.outer([1, 2, 1], [1, 2, 1]) / 16.0
    band = [kd, dict(psf_type="PIXEL", kernel_point_source=kern), {"supersampling_factor": 1}]
    joint = dict(multi_band_list=[band], multi_band_type=W.choice("type", ("multi-linear", "joint-linear")), time_delays_measured=np.array([1.0, 2.0]), time_delays_uncertainties=np.array([0.5, 0.5]),
                 flux_ratios=np.array([1.0, 2.0]), flux_ratio_errors=np.array([0.5, 0.5]), ra_image_list=[np.array([1.0, -0.9, 0.2])], dec_image_list=[np.array([0.1, 0.3, -0.8])])
    z3 = np.zeros(3)

    def lims(v):
        return [[{k: (-10.0 if not isinstance(q, np.ndarray) else z3 - 10) if v < 0 else (10.0 if not isinstance(q, np.ndarray) else z3 + 10) for k, q in d.items()} for d in l] for l in kws("")]

    def kws(tag):
        r = lambda k, a, b: W.real(tag + k, None, None, (a, b))
        return [[dict(theta_E=r("tE", 0.7, 1.1), e1=r("e1", -0.2, 0.2), e2=r("e2", -0.2, 0.2), center_x=r("lx", -0.1, 0.1), center_y=r("ly", -0.1, 0.1)), dict(gamma1=r("g1", -0.1, 0.1), gamma2=r("g2", -0.1, 0.1), ra_0=0.0, dec_0=0.0)],
                [dict(amp=1.0, sigma=r("ss", 0.2, 0.4), center_x=r("sx", -0.1, 0.1), center_y=r("sy", -0.1, 0.1))],
                [dict(amp=1.0, sigma=r("ls", 0.2, 0.4), e1=r("le1", -0.2, 0.2), e2=r("le2", -0.2, 0.2), center_x=r("llx", -0.1, 0.1), center_y=r("lly", -0.1, 0.1))],
                [dict(ra_image=W.array(tag + "ra", 3, None, None, (-1, 1)), dec_image=W.array(tag + "dec", 3, None, None, (-1, 1)), point_amp=np.ones(3))]]

    lo, hi = lims(-1), lims(1)
    cons = dict(num_point_source_list=[3], Ddt_sampling=True, linear_solver=True)
    fixed = [[{}, {"ra_0": 0.0, "dec_0": 0.0}], [{}], [{}], [{}]]
    like_kw = dict(time_delay_likelihood=True, flux_ratio_likelihood=True, astrometric_likelihood=True, source_position_likelihood=True, image_likelihood=True, check_bounds=False, source_position_tolerance=0.5, image_position_uncertainty=0.1)

    def new():
        names = ("kwargs_%s_lens", "kwargs_%s_source", "kwargs_%s_lens_light", "kwargs_%s_ps")
        kw = {q % "lower": v for q, v in zip(names, lo)}
        kw.update({q % "upper": v for q, v in zip(names, hi)})
        kw.update({q % "fixed": v for q, v in zip(names, fixed)})
        kw.update(kwargs_lower_special={"D_dt": 0.0}, kwargs_upper_special={"D_dt": 1e5})
        P = Param(kmodel, **kw, **cons)
        return P, Likelihood(joint, kmodel, P, **like_kw)

    def vec(P, tag):
        a, b, c, d = kws(tag)
        return P.kwargs2args(a, b, c, d, kwargs_special={"D_dt": W.real(tag + "ddt", 100, None, (2000, 4000))})

    keep0 = snap([kmodel, joint, lo, hi, fixed, cons, like_kw])
    P, L = new()
    a1, a2 = np.array(vec(P, "")), np.array(vec(P, "b_"))
    keep = snap([a1, a2])
    ref = new()[1].logL(a1)
    first = W.choice("first", ("other", "same", "keywords", "full"))
    if first == "other":
        L.logL(a2)
    elif first == "same":
        L.logL(a1)
    elif first == "keywords":
        L.log_likelihood(P.args2kwargs(a2))
    else:
        L.logL(a2)
        L.negativelogL(a2)
        L.likelihood(a2)
    W.eq("likelihood does not depend on earlier evaluations", L.logL(a1), ref)
    W.eq("likelihood evaluated again", L.logL(a1), ref)
    W.same("parameter vectors are unchanged", snap([a1, a2]), keep)
    W.same("model, data and settings passed in are unchanged", snap([kmodel, joint, lo, hi, fixed, cons, like_kw]), keep0)
    k = P.args2kwargs(a1)
    kk = snap(k)
    back = P.kwargs2args(**{q: v for q, v in k.items() if q != "kwargs_tracer_source"})
    W.same("conversion to a vector leaves the parameters unchanged", snap(k), kk)
    W.eq("vector of the parameters", np.array(back), a1)

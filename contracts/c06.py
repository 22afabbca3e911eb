"""C06: parameter vectors and model parameters convert back and forth losslessly.

Specification: with  label(p)  the announced name of a free parameter, the entries of the vector whose
announced name is L are, in order, the values of the parameters labelled L; nothing else is in the
vector; reading it back restores every value; fixed parameters take their fixed value."""
import re
import numpy as np
from lv.world import contract
from contracts.common import swap

LENSP = "LensModel/lens_param.py::LensParam."
LIGHTP = "LightModel/light_param.py::LightParam."
PSP = "PointSource/point_source_param.py::PointSourceParam."
SPP = "Sampling/special_param.py::SpecialParam."
GRP = "Sampling/param_group.py::"
PAR = "Sampling/parameters.py::Param."

# models with fixed-size structural parameters or optional dependencies are listed separately
LENS = """BLANK_PLANE BPL CHAMELEON CNFW CNFW_ELLIPSE_POTENTIAL CONST_MAG CONVERGENCE coreBURKERT CORED_DENSITY
CORED_DENSITY_2 CORED_DENSITY_2_MST CORED_DENSITY_EXP CORED_DENSITY_EXP_MST CORED_DENSITY_MST CORED_DENSITY_ULDM_MST
CSE CTNFW_GAUSS_DEC CURVED_ARC_CONST CURVED_ARC_SIS_MST CURVED_ARC_SPP CURVED_ARC_SPT CURVED_ARC_TAN_DIFF DIPOLE
DOUBLE_CHAMELEON EPL EPL_BOXYDISKY_ELL EPL_BOXYDISKY EPL_MULTIPOLE_M1M3M4 EPL_MULTIPOLE_M1M3M4_ELL
EPL_MULTIPOLE_M3M4_ELL EPL_MULTIPOLE_M3M4 EPL_NUMBA EPL_Q_PHI ElliSLICE FLEXION FLEXIONFG GAUSSIAN
GAUSSIAN_ELLIPSE_KAPPA GAUSSIAN_ELLIPSE_POTENTIAL GAUSSIAN_POTENTIAL GNFW GNFW_ELLIPSE_GAUSS_DEC GreenBoschNFW
HERNQUIST HERNQUIST_ELLIPSE_POTENTIAL HERNQUIST_ELLIPSE_CSE HESSIAN LOS LOS_MINIMAL LOS_FLEXION LOS_FLEXION_MINIMAL
MULTIPOLE MULTIPOLE_ELL NFW NFW_ELLIPSE_CSE NFW_ELLIPSE_GAUSS_DEC NFW_ELLIPSE_POTENTIAL NFW_MC
NFW_MC_ELLIPSE_POTENTIAL NIE NIE_POTENTIAL PJAFFE PJAFFE_ELLIPSE_POTENTIAL POINT_MASS POINT_MASS_LOG_SCALED
PSEUDO_DPL SERSIC SERSIC_ELLIPSE_GAUSS_DEC SERSIC_ELLIPSE_KAPPA SERSIC_ELLIPSE_POTENTIAL SHEAR SHEAR_GAMMA_PSI
SHEAR_REDUCED SHIFT SIE SIS SIS_TRUNCATED SPEP SPL_CORE SPP TNFW TNFWC TNFW_ELLIPSE_POTENTIAL TRIPLE_CHAMELEON
ULDM""".split()
LIGHT = """GAUSSIAN GAUSSIAN_ELLIPSE ELLIPSOID MULTI_GAUSSIAN MULTI_GAUSSIAN_ELLIPSE MGE_SET MGE_SET_ELLIPSE SERSIC
SERSIC_ELLIPSE SERSIC_ELLIPSE_FLEXION SERSIC_ELLIPSE_Q_PHI CORE_SERSIC SHAPELETS SHAPELETS_POLAR SHAPELETS_POLAR_EXP
SHAPELETS_ELLIPSE HERNQUIST HERNQUIST_ELLIPSE PJAFFE PJAFFE_ELLIPSE PL_SERSIC UNIFORM POWER_LAW NIE CHAMELEON
DOUBLE_CHAMELEON TRIPLE_CHAMELEON INTERPOL SLIT_STARLETS SLIT_STARLETS_GEN2 LINEAR LINEAR_ELLIPSE LINE_PROFILE""".split()


def flat(v):
    return list(np.asarray(v, dtype=object).reshape(-1)) if np.ndim(v) else [v]


def struct(model):
    """structural parameters that must be fixed, and the number of amplitudes"""
    if model in ("SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_ELLIPSE"):
        return {"n_max": 2}, 6
    if model == "SHAPELETS_POLAR_EXP":
        return {"n_max": 2}, 9
    if model in ("MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE"):
        return {"sigma": [0.3, 1.0, 2.5]}, 3
    if model in ("SLIT_STARLETS", "SLIT_STARLETS_GEN2"):
        return {"n_scales": 2, "n_pixels": 4, "scale": 0.05, "center_x": 0.1, "center_y": -0.2}, 8
    if model in ("MGE_SET", "MGE_SET_ELLIPSE"):
        return {}, 4
    if model == "INTERPOL":
        return {"image": np.arange(9.0).reshape(3, 3)}, None
    return {}, None


def light_profile_kwargs(model):
    return {"n_comp": 4} if model.startswith("MGE") else None


def values(W, tag, names, model=None, light=False):
    st, na = struct(model) if light else ({}, None)
    out = {}
    for n in names:
        if n in st:
            out[n] = st[n]
        elif light and n == "amp" and na:
            out[n] = W.array("%s_amp" % tag, na, 0, None, (0.5, 5))
        else:
            out[n] = W.real("%s_%s" % (tag, n), 0, None, (0.1, 2))
    return out


def fix_options(names, free):
    """subsets of the parameters to hold fixed"""
    o = [[], list(free)]
    if len(free) > 1:
        o += [free[:1], free[-1:], free[1:], free[::2]]
    return o


def expect(labelled):
    """labelled: [(label, value)] -> {label: [scalars]}"""
    d = {}
    for l, v in labelled:
        d.setdefault(l, []).extend(flat(v))
    return d


def conv(W, what, args, num, names, labelled):
    W.same(what + ": number of entries", [len(args), int(num)], [len(names), len(names)])
    e = expect(labelled)
    W.same(what + ": announced names", sorted(names), sorted(l for l in e for _ in e[l]))
    if len(args) == len(names):
        for l in e:
            W.same(what + ": entries named " + l, [a for a, n in zip(args, names) if n == l], e[l])


def as_vec(W, args):
    return np.array(list(args), dtype=object if W.sym else float)


def _lens(models, name, log=False):
    @contract("C06", name, [LENSP + q for q in ("get_params", "set_params", "num_param", "__init__")], samples=5, sym=not name.startswith("lens.GNFW"),
              bounded="model lists as listed; all parameter values; six choices of fixed parameters for each model")
    def body(W):
        from lenstronomy.LensModel.lens_param import LensParam
        from lenstronomy.LensModel.single_plane import SinglePlane

        pn = [list(f.param_names) for f in SinglePlane(list(models)).func_list]
        kw = [values(W, "p%d" % k, n) for k, n in enumerate(pn)]
        j = W.choice("fixed", range(6 if len(models) == 1 else 4))
        fixed, logs = [], []
        for k, n in enumerate(pn):
            o = fix_options(n, n)
            f = o[(j + k) % len(o)]
            fixed.append({p: W.real("f%d_%s" % (k, p), 0, None, (3, 4)) for p in f})
            free = [p for p in n if p not in f]
            logs.append(free[:1] if log else [])
        lp = LensParam(list(models), fixed, kwargs_logsampling=logs if log else None)
        num, names = lp.num_param()
        lab = [("%s_lens%d" % (p, k), W.log10(kw[k][p]) if p in logs[k] else kw[k][p]) for k, n in enumerate(pn) for p in n if p not in fixed[k]]
        args = lp.set_params(kw)
        if log:
            W.same("number of entries", [len(args), num], [len(lab), len(lab)])
            W.eq("entries", as_vec(W, args), as_vec(W, [v for _, v in sorted(lab, key=lambda q: [names.index(q[0])])]))
        else:
            conv(W, "vector", args, num, names, lab)
        back, i = lp.get_params(as_vec(W, args), 0)
        W.same("entries read", i, num)
        want = [{p: fixed[k].get(p, kw[k][p]) for p in n} for k, n in enumerate(pn)]
        W.same("parameters restored", [sorted(d) for d in back], [sorted(d) for d in want])
        for k in range(len(models)):
            for p in want[k]:
                if p in back[k]:
                    W.eq("value of component %d" % k, back[k][p], want[k][p])
        if not log:
            v = W.array("v", num + 2, None, None, (0.1, 3))
            kv, i = lp.get_params(v, 1)
            W.same("entries read with offset", i, num + 1)
            W.same("vector of the parameters of a vector", list(lp.set_params(kv)), list(v[1:-1]))
            if models[0] not in NOLIM:
                for side, lim in (("lower", lp.lower_limit), ("upper", lp.upper_limit)):
                    conv(W, side + " limits", lp.set_params(lim), num, names,
                         [("%s_lens%d" % (p, k), lim[k][p]) for k, n in enumerate(pn) for p in n if p not in fixed[k]])
                for k, n in enumerate(pn):
                    for p in n:
                        W.true("lower limit below upper limit", lp.lower_limit[k][p] < lp.upper_limit[k][p] or models[k] == "CONST_MAG")


NOLIM = ("BLANK_PLANE",)
for _m in LENS:
    _lens([_m], "lens." + _m)
for _i, _ms in enumerate((["EPL", "SHEAR", "SIS"], ["SIS", "SIS", "NFW", "SIS"], ["SHEAR", "SPEP", "SHEAR", "CONVERGENCE"])):
    _lens(_ms, "lens.list%d" % _i)
    _lens(_ms, "lens.list%d.log" % _i, True)


def _shapelets(model, solver, nimg):
    @contract("C06", "lens.%s.%s.%d" % (model, solver, nimg), [LENSP + q for q in ("get_params", "set_params", "num_param")], samples=3)
    def body(W):
        from lenstronomy.LensModel.lens_param import LensParam

        n = 10
        drop = {("SHAPELETS", 4): 6, ("SHAPELETS", 2): 3}.get((solver, nimg), 0)
        lp = LensParam([model, "SIS"], [{}, {}], num_images=nimg, solver_type=solver, num_shapelet_lens=n)
        num, names = lp.num_param()
        v = W.array("v", num, None, None, (0.1, 3))
        kw, i = lp.get_params(v, 0)
        W.same("entries", [num, i, len(names)], [n - drop + 3 + 3] * 3)
        W.same("coefficients", list(kw[0]["coeffs"]), [0] * drop + [a for a, q in zip(v, names) if q == "coeffs_lens0"])
        for p in ("beta", "center_x", "center_y"):
            W.same(p, [kw[0][p]], [a for a, q in zip(v, names) if q == p + "_lens0"])
        W.same("round trip", list(lp.set_params(kw)), list(v))


for _m in ("SHAPELETS_CART", "SHAPELETS_POLAR"):
    for _s, _n in (("NONE", 0), ("SHAPELETS", 4), ("SHAPELETS", 2)):
        _shapelets(_m, _s, _n)


@contract("C06", "lens.MULTI_GAUSSIAN", [LENSP + q for q in ("get_params", "set_params", "num_param")], samples=3)
def _mg(W):
    """the amplitudes of a multi-Gaussian lens are one entry each"""
    from lenstronomy.LensModel.lens_param import LensParam

    m = W.choice("model", ["MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE_KAPPA", "MULTI_GAUSSIAN_ELLIPSE_POTENTIAL"])
    lp = LensParam([m], [{"sigma": [0.5, 1.0, 2.0], "scale_factor": 1, "center_x": 0, "center_y": 0, "e1": 0, "e2": 0}])
    num, names = lp.num_param()
    W.same("number of amplitudes", num, 3)


def _light(models, name):
    @contract("C06", name, [LIGHTP + q for q in ("get_params", "set_params", "num_param", "__init__", "num_param_linear")], samples=5,
              bounded="model lists as listed; all parameter values; six choices of fixed parameters for each model; three shapelet orders / Gaussians / scales")
    def body(W):
        from lenstronomy.LightModel.light_param import LightParam
        from lenstronomy.LightModel.light_model import LightModel

        pk = [light_profile_kwargs(m) for m in models]
        pn = [list(f.param_names) for f in LightModel(list(models), profile_kwargs_list=[dict(p) if p else None for p in pk]).func_list]
        linear = W.choice("linear", [False, True])
        kw = [values(W, "p%d" % k, n, models[k], True) for k, n in enumerate(pn)]
        j = W.choice("fixed", range(6 if len(models) == 1 else 4))
        fixed = []
        for k, n in enumerate(pn):
            st, _ = struct(models[k])
            free = [p for p in n if p not in st]
            o = fix_options(n, free)
            f = o[(j + k) % len(o)]
            d = {p: (kw[k]["amp"] if p == "amp" else W.real("f%d_%s" % (k, p), 0, None, (3, 4))) for p in f}
            d.update(st)
            fixed.append(d)
        import copy

        lp = LightParam(list(models), [dict(d) for d in fixed], linear_solver=linear, param_type="source_light", profile_kwargs_list=[dict(p) if p else None for p in pk])
        if linear:
            for d in fixed:
                d.setdefault("amp", None)  # solved for, any placeholder
        num, names = lp.num_param()
        lab = [("%s_source_light%d" % (p, k), kw[k][p]) for k, n in enumerate(pn) for p in n if p not in fixed[k]]
        args = lp.set_params(kw)
        conv(W, "vector", args, num, names, lab)
        back, i = lp.get_params(as_vec(W, args), 0)
        W.same("entries read", i, num)
        W.same("parameters restored", [sorted(d) for d in back], [sorted(n) for n in pn])
        for k, n in enumerate(pn):
            for p in n:
                if p in back[k] and not (p in fixed[k] and fixed[k][p] is None):
                    W.same("value of component %d" % k, back[k][p], fixed[k].get(p, kw[k][p]))
        v = W.array("v", num + 2, None, None, (0.1, 3))
        kv, i = lp.get_params(v, 1)
        W.same("entries read with offset", i, num + 1)
        W.same("vector of the parameters of a vector", list(lp.set_params(kv)), list(v[1:-1]))
        for side, lim in (("lower", lp.lower_limit), ("upper", lp.upper_limit)):
            for k, n in enumerate(pn):
                for p in n:
                    if p != "amp" and p not in struct(models[k])[0]:
                        W.true("%s limit is defined" % side, p in lim[k])
            if linear:
                conv(W, side + " limits", lp.set_params(lim), num, names, [("%s_source_light%d" % (p, k), lim[k][p]) for k, n in enumerate(pn) for p in n if p not in fixed[k]])
        for k, n in enumerate(pn):
            for p in n:
                if p in lp.lower_limit[k]:
                    W.true("lower limit below upper limit", lp.lower_limit[k][p] < lp.upper_limit[k][p])


for _m in LIGHT:
    _light([_m], "light." + _m)
for _i, _ms in enumerate((["SERSIC_ELLIPSE", "SHAPELETS", "SERSIC"], ["SHAPELETS_POLAR_EXP", "MULTI_GAUSSIAN", "SHAPELETS_ELLIPSE"], ["SERSIC", "SERSIC", "MGE_SET", "SERSIC"])):
    _light(_ms, "light.list%d" % _i)


PS = [(["LENSED_POSITION"], [4], None), (["SOURCE_POSITION"], [4], None), (["UNLENSED"], [2], None), (["LENSED_POSITION"], [4], [True]),
      (["LENSED_POSITION", "SOURCE_POSITION", "UNLENSED"], [4, 2, 1], [False, True, False]),
      (["UNLENSED", "LENSED_POSITION", "LENSED_POSITION"], [3, 2, 4], [True, True, False]),
      (["SOURCE_POSITION", "SOURCE_POSITION"], [2, 4], [True, False])]


def ps_names(model, fm):
    pos = ["ra_source", "dec_source"] if model == "SOURCE_POSITION" else ["ra_image", "dec_image"]
    return pos + (["source_amp"] if fm and model != "UNLENSED" else ["point_amp"])


def ps_values(W, models, num, fm, tag="ps"):
    out = []
    for k, m in enumerate(models):
        d = {}
        for p in ps_names(m, fm and fm[k]):
            d[p] = W.real("%s%d_%s" % (tag, k, p), None, None, (0.1, 2)) if "source" in p else W.array("%s%d_%s" % (tag, k, p), num[k], None, None, (0.1, 2))
        out.append(d)
    return out


def _ps(ci):
    models, nums, fm = PS[ci]

    @contract("C06", "point_source.%d" % ci, [PSP + q for q in ("get_params", "set_params", "num_param", "num_param_linear", "add_fix_linear")] +
              [GRP + "SingleParam.get_params", GRP + "ArrayParam.get_params", GRP + "ModelParamGroup.compose_get_params"], samples=6)
    def body(W):
        from lenstronomy.PointSource.point_source_param import PointSourceParam

        linear = W.choice("linear", [False, True])
        which = W.choice("fixed", ["none", "first ra", "all dec", "amp", "all"])
        kw = ps_values(W, models, nums, fm)
        fv = ps_values(W, models, nums, fm, "fix")
        fixed = []
        for k, m in enumerate(models):
            ns = ps_names(m, fm and fm[k])
            f = {"none": [], "first ra": ns[:1] if k == 0 else [], "all dec": ns[1:2], "amp": ns[2:], "all": ns}[which]
            fixed.append({p: fv[k][p] for p in f})
        pp = PointSourceParam(list(models), [dict(d) for d in fixed], num_point_source_list=list(nums), linear_solver=linear, fixed_magnification_list=fm)
        amps = [ps_names(m, fm and fm[k])[2] for k, m in enumerate(models)]
        isf = lambda k, p: p in fixed[k] or (linear and p == amps[k])
        num, names = pp.num_param()
        lab = [(p, kw[k][p]) for k, m in enumerate(models) for p in ps_names(m, fm and fm[k]) if not isf(k, p)]
        args = pp.set_params(kw)
        conv(W, "vector", args, num, names, lab)
        back, i = pp.get_params(as_vec(W, args), 0)
        W.same("entries read", i, num)
        for k, m in enumerate(models):
            ns = ps_names(m, fm and fm[k])
            W.same("parameters of source %d" % k, sorted(back[k]), sorted(ns))
            for p in ns:
                if p in back[k] and not (linear and p == amps[k]):
                    W.same("value of source %d" % k, back[k][p], fixed[k].get(p, kw[k][p]))
        v = W.array("v", num + 1, None, None, (0.1, 3))
        v0 = list(v)
        kv, i = pp.get_params(v, 1)
        W.same("round trip of a vector", list(pp.set_params(kv)), v0[1:])
        for side, lim in (("lower", pp.lower_limit), ("upper", pp.upper_limit)):
            conv(W, side + " limits", pp.set_params(lim), num, names, [(p, lim[k][p]) for k, m in enumerate(models) for p in ps_names(m, fm and fm[k]) if not isf(k, p)])
        for k in range(len(models)):
            if linear and not (which in ("amp", "all")):
                W.same("number of amplitudes of source %d" % k, np.shape(back[k][amps[k]]), () if amps[k] == "source_amp" else (nums[k],))
        if linear:
            W.same("number of linear amplitudes", int(pp.num_param_linear()), sum(1 if amps[k] == "source_amp" else nums[k] for k in range(len(models))))


for _i in range(len(PS)):
    _ps(_i)


# (constructor arguments, {parameter: number of entries (0: scalar)})
SP = [
    (dict(Ddt_sampling=True), {"D_dt": 0}),
    (dict(kinematic_sampling=True, source_size=True), {"D_dt": 0, "D_d": 0, "b_ani": 0, "incli": 0, "source_size": 0}),
    (dict(mass_scaling=True, num_scale_factor=2, Ddt_sampling=True), {"scale_factor": 2, "D_dt": 0}),
    (dict(general_scaling_params={"theta_E": [1, 2, False], "gamma": [False, 1, 1]}), {"theta_E_scale_factor": 2, "theta_E_scale_pow": 2, "gamma_scale_factor": 1, "gamma_scale_pow": 1}),
    (dict(point_source_offset=True, num_images=2, num_tau0=1), {"delta_x_image": 2, "delta_y_image": 2, "tau0_list": 1}),
    (dict(num_z_sampling=2, source_grid_offset=True), {"z_sampling": 2, "delta_x_source_grid": 0, "delta_y_source_grid": 0}),
    (dict(distance_ratio_sampling=True, num_lens_planes=3), {"factor_beta_1_2": 0, "factor_beta_1_3": 0, "factor_beta_2_3": 0}),
    (dict(cosmology_sampling=True, cosmology_model="FlatLambdaCDM"), {"H0": 0, "Om0": 0}),
    (dict(cosmology_sampling=True, cosmology_model="LambdaCDM"), {"H0": 0, "Om0": 0, "Ode0": 0}),
    (dict(cosmology_sampling=True, cosmology_model="FlatwCDM"), {"H0": 0, "Om0": 0, "w0": 0}),
    (dict(cosmology_sampling=True, cosmology_model="wCDM"), {"H0": 0, "Om0": 0, "w0": 0, "Ode0": 0}),
    (dict(cosmology_sampling=True, cosmology_model="Flatw0waCDM"), {"H0": 0, "Om0": 0, "w0": 0, "wa": 0}),
    (dict(cosmology_sampling=True, cosmology_model="w0waCDM"), {"H0": 0, "Om0": 0, "w0": 0, "wa": 0, "Ode0": 0}),
    (dict(Ddt_sampling=True, mass_scaling=True, num_scale_factor=1, source_size=True, num_tau0=2, num_z_sampling=1, source_grid_offset=True),
     {"D_dt": 0, "scale_factor": 1, "source_size": 0, "tau0_list": 2, "z_sampling": 1, "delta_x_source_grid": 0, "delta_y_source_grid": 0}),
]


def _sp(ci):
    cfg, par = SP[ci]

    @contract("C06", "special.%d" % ci, [SPP + q for q in ("get_params", "set_params", "num_param", "__init__")] +
              [GRP + "SingleParam.get_params", GRP + "ArrayParam.get_params", GRP + "ModelParamGroup.compose_get_params"], samples=8, max_paths=800)
    def body(W):
        from lenstronomy.Sampling.special_param import SpecialParam

        ps = sorted(par)
        fx = W.choice("fixed", [[], ps[:1], ps[-1:], ps])
        val = lambda t, p, r: W.real("%s_%s" % (t, p), None, None, r) if par[p] == 0 else W.array("%s_%s" % (t, p), par[p], None, None, r)
        kw = {p: val("s", p, (0.1, 0.9)) for p in ps}
        fixed = {p: val("f", p, (0.1, 0.9)) for p in fx}
        sp = SpecialParam(kwargs_fixed=dict(fixed), **cfg)
        free = [p for p in ps if p not in fixed]
        num, names = sp.num_param()
        args = sp.set_params(kw)
        conv(W, "vector", args, num, names, [(p, kw[p]) for p in free])
        back, i = sp.get_params(as_vec(W, args), 0)
        W.same("entries read", i, num)
        W.same("parameters", sorted(back), ps)
        for p in ps:
            W.same("value", back.get(p), fixed.get(p, kw[p]))
        for side, lim in (("lower", sp.lower_limit), ("upper", sp.upper_limit)):
            conv(W, side + " limits", sp.set_params(lim), num, names, [(p, lim[p]) for p in free])


def _clamp(ci):
    cfg, par = SP[ci]

    @contract("C06", "special.bounds.%d" % ci, [SPP + "get_params", GRP + "SingleParam.get_params", GRP + "ArrayParam.get_params"], samples=8, max_paths=800)
    def body(W):
        """with bounds imposed a value outside is replaced by the nearer bound, one inside is unchanged"""
        from lenstronomy.Sampling.special_param import SpecialParam

        sp = SpecialParam(**cfg)
        num, names = sp.num_param()
        v = W.array("v", num, None, None, (-3, 6))
        v0 = list(v)
        back, i = sp.get_params(v, 0, impose_bound=True)
        W.same("the vector passed in is not modified", list(v), v0)
        for p in par:
            x = [a for a, n in zip(v0, names) if n == p]
            lo, hi = flat(sp.lower_limit[p]), flat(sp.upper_limit[p])
            got = flat(back[p])
            W.same("number of entries", len(got), len(x))
            for j in range(len(x)):
                W.eq("value within the bounds", got[j], W.minimum(W.maximum(x[j], lo[j]), hi[j]))


for _i in range(len(SP)):
    _sp(_i)
    if _i < 9 and _i != 3:
        _clamp(_i)
SP.append((dict(general_scaling_params={"theta_E": [1, False]}, num_tau0=1), {"theta_E_scale_factor": 1, "theta_E_scale_pow": 1, "tau0_list": 1}))
_clamp(len(SP) - 1)


# --------------------------------------------------------------------------- the full parameter class
def kmodel(**k):
    return k


FULL = {
    "basic": (dict(lens_model_list=["SPEP", "SHEAR"], source_light_model_list=["SERSIC"], lens_light_model_list=["SERSIC_ELLIPSE", "SERSIC"],
                   point_source_model_list=["LENSED_POSITION"]), dict(num_point_source_list=[2], linear_solver=True)),
    "nonlinear": (dict(lens_model_list=["SIS"], source_light_model_list=["SERSIC", "SHAPELETS"], lens_light_model_list=["MULTI_GAUSSIAN"],
                       point_source_model_list=["SOURCE_POSITION", "UNLENSED"], fixed_magnification_list=[True, False]),
                  dict(num_point_source_list=[2, 3], linear_solver=False, Ddt_sampling=True)),
    "extinction": (dict(lens_model_list=["SIS", "SIS"], source_light_model_list=["SERSIC"], lens_light_model_list=[], point_source_model_list=[],
                        optical_depth_model_list=["UNIFORM"], tracer_source_model_list=["LINEAR"]), dict(num_tau0=1, source_size=True)),
    "scaling": (dict(lens_model_list=["SIS", "NFW", "SIS"], lens_light_model_list=["SERSIC"]), dict(mass_scaling_list=[False, 1, 2])),
    "general": (dict(lens_model_list=["SIS", "SIS", "SPP"]), dict(general_scaling={"theta_E": [1, False, 1]})),
    "general two": (dict(lens_model_list=["SIS", "SIS", "SPP"]), dict(general_scaling={"theta_E": [1, 2, False], "gamma": [False, False, 1]})),
    "joint": (dict(lens_model_list=["SPEP", "SHEAR", "SIS"], source_light_model_list=["SERSIC", "SERSIC"], lens_light_model_list=["SERSIC", "SERSIC_ELLIPSE"],
                   point_source_model_list=["LENSED_POSITION"]),
              dict(num_point_source_list=[2], joint_lens_with_lens=[[0, 2, ["center_x", "center_y"]]], joint_lens_light_with_lens_light=[[0, 1, ["center_x"]]],
                   joint_source_with_source=[[0, 1, ["center_x", "center_y"]]], joint_lens_with_light=[[0, 0, ["center_x", "center_y"]]])),
    "image plane source": (dict(lens_model_list=["SIS"], source_light_model_list=["SERSIC", "SERSIC"]), dict(image_plane_source_list=[True, False])),
    "offset": (dict(lens_model_list=["SIS"], point_source_model_list=["LENSED_POSITION"]), dict(num_point_source_list=[2], point_source_offset=True, kinematic_sampling=True)),
    "logsampling": (dict(lens_model_list=["SIS", "NFW"]), dict(log_sampling_lens=[[1, ["Rs"]]])),
    "empty": (dict(source_light_model_list=["SERSIC"]), dict()),
}
GROUPS = [("kwargs_lens", "lens_model_list", "lens"), ("kwargs_source", "source_light_model_list", "source_light"),
          ("kwargs_lens_light", "lens_light_model_list", "lens_light"), ("kwargs_extinction", "optical_depth_model_list", "light"),
          ("kwargs_tracer_source", "tracer_source_model_list", "light")]
FIXKEY = {"kwargs_lens": "kwargs_fixed_lens", "kwargs_source": "kwargs_fixed_source", "kwargs_lens_light": "kwargs_fixed_lens_light",
          "kwargs_extinction": "kwargs_fixed_extinction", "kwargs_tracer_source": "kwargs_fixed_tracer_source", "kwargs_ps": "kwargs_fixed_ps"}


def structural(cfg):
    """fixed structural parameters of the light models"""
    out = {}
    for g, key, t in GROUPS[1:]:
        if cfg.get(key):
            out[FIXKEY[g]] = [dict(struct(m)[0]) for m in cfg[key]]
    return out


def labels(kwargs, par, cfg):
    """(label, value) of the free parameters, from the fixed settings the class reports"""
    fx = dict(zip(("kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps", "kwargs_special", "kwargs_extinction", "kwargs_tracer_source"), par.fixed_kwargs_list))
    out = []
    for g, key, t in GROUPS:
        for k, d in enumerate(kwargs[g]):
            out += [("%s_%s%d" % (p, t, k), v) for p, v in d.items() if p not in fx[g][k]]
    for k, d in enumerate(kwargs["kwargs_ps"]):
        out += [(p, v) for p, v in d.items() if p not in fx["kwargs_ps"][k]]
    out += [(p, v) for p, v in kwargs["kwargs_special"].items() if p not in fx["kwargs_special"]]
    return out, fx


def _full(key):
    cfg, opt = FULL[key]

    @contract("C06", "Param." + key, [PAR + q for q in ("args2kwargs", "kwargs2args", "num_param", "param_limits", "update_lens_scaling", "image2source_plane")], samples=8, max_paths=400,
              assumes=["special parameters within their bounds (they are clamped otherwise, see special.bounds)"])
    def body(W):
        import copy
        from lenstronomy.Sampling.parameters import Param

        fixed = structural(cfg)
        which = W.choice("fixed", ["none", "centers", "first"])
        if which != "none":
            from lenstronomy.LensModel.single_plane import SinglePlane
            from lenstronomy.LightModel.light_model import LightModel

            if cfg.get("lens_model_list"):
                fl = []
                for k, f in enumerate(SinglePlane(list(cfg["lens_model_list"])).func_list):
                    ns = f.param_names
                    ns = [p for p in ns if "center" in p] if which == "centers" else ns[:1]
                    fl.append({p: W.real("fl%d_%s" % (k, p), None, None, (0.2, 0.9)) for p in ns})
                fixed["kwargs_fixed_lens"] = fl
            if cfg.get("source_light_model_list"):
                fl = []
                for k, f in enumerate(LightModel(list(cfg["source_light_model_list"])).func_list):
                    ns = [p for p in f.param_names if p != "amp"]
                    ns = [p for p in ns if p == "center_x"] if which == "centers" else ns[:1]
                    d = dict(struct(cfg["source_light_model_list"][k])[0])
                    d.update({p: W.real("fs%d_%s" % (k, p), None, None, (0.2, 0.9)) for p in ns if p not in d})
                    fl.append(d)
                fixed["kwargs_fixed_source"] = fl
        par = Param(copy.deepcopy(cfg), **copy.deepcopy(fixed), **copy.deepcopy(opt))
        num, names = par.num_param()
        lo, up = par.param_limits() if opt.get("linear_solver", True) else (None, None)
        v = W.array("v", num, None, None, (0.2, 0.9))
        for x, n in zip(v, names):
            if n in ("D_dt", "scale_factor", "source_size", "tau0_list", "D_d", "b_ani", "incli", "theta_E_scale_factor", "theta_E_scale_pow", "gamma_scale_factor", "gamma_scale_pow", "delta_x_image", "delta_y_image"):
                W.assume(x > 0)
                W.assume(x < 1)
            if n.startswith("theta_E") or (n.startswith("gamma") and key == "general two"):
                W.assume(x > 0)
        if "general" in key or "scaling" in key:
            for q in fixed.get("kwargs_fixed_lens", []):
                for z in q.values():
                    W.assume(z > 0)
        v0 = list(v)
        kw = par.args2kwargs(v, bijective=True)
        W.same("the vector is not modified", list(v), v0)
        lab, fx = labels(kw, par, cfg)
        if key == "logsampling":
            lab = [(l, W.log10(x) if l == "Rs_lens1" else x) for l, x in lab]
        if key in ("logsampling", "general", "general two", "scaling"):
            n_lab = sum(len(flat(x)) for l, x in lab)
            W.same("number of parameters", [len(names), int(num)], [n_lab, n_lab])
            d = {}
            for l, x in lab:
                d.setdefault(l, []).extend(flat(x))
            for l in d:
                W.eq("entries", as_vec(W, d[l]), as_vec(W, [a for a, n in zip(v0, names) if n == l]))
        else:
            conv(W, "vector", v0, num, names, lab)
        back = par.kwargs2args(**kw)
        W.eq("round trip", back, as_vec(W, v0))
        # reading again gives the same parameters
        if not W.sym:
            again = par.args2kwargs(par.kwargs2args(**kw), bijective=True)
            for g in kw:
                W.true("second reading of " + g, sorted(map(str, kw[g])) == sorted(map(str, again[g])) or key in ("logsampling", "general", "general two", "scaling"))
        if not opt.get("joint_lens_with_lens"):
            for g in ("kwargs_lens", "kwargs_source"):
                for k, d in enumerate(fixed.get(FIXKEY[g], [])):
                    for p, x in d.items():
                        W.eq("fixed value", as_vec(W, flat(kw[g][k][p])), as_vec(W, flat(x)))
        if lo is not None:
            W.same("limits", [len(lo), len(up)], [num, num])
            if key != "logsampling":
                W.true("lower limits below upper limits", all(a < b for a, b in zip(lo, up)))
            for side, lim, a in (("lower", "lower_limit", lo), ("upper", "upper_limit", up)):
                kl = dict(kwargs_lens=par.lens_params, kwargs_source=par.source_params, kwargs_lens_light=par.lens_light_params, kwargs_ps=par.point_source_params,
                          kwargs_special=par.special_params, kwargs_extinction=par.extinction_params, kwargs_tracer_source=par.tracer_source_params)
                kl = {q: getattr(z, lim) for q, z in kl.items()}
                names_of = {g: [set(d) for d in kw[g]] for g in kw if g != "kwargs_special"}
                for g in names_of:
                    kl[g] = [{p: x for p, x in d.items() if p in s} for d, s in zip(kl[g], names_of[g])]
                kl["kwargs_special"] = {p: x for p, x in kl["kwargs_special"].items() if p in kw["kwargs_special"]}
                ll, _ = labels(kl, par, cfg)
                if key == "logsampling":
                    continue
                conv(W, side + " limits", [float(z) for z in a], num, names, [(l, np.asarray(z, dtype=float).tolist() if np.ndim(z) else float(z)) for l, z in ll])


for _k in FULL:
    _full(_k)


@contract("C06", "Param.image plane source mapping", [PAR + "args2kwargs", PAR + "image2source_plane", "ImSim/image2source_mapping.py::Image2SourceMapping.image2source"], samples=5)
def _imgplane(W):
    """a source position parameterised in the image plane is ray-shot to the source plane, and only it"""
    from lenstronomy.Sampling.parameters import Param
    from contracts.common import abstract_profiles, ALL, get_class

    par = Param(dict(lens_model_list=["SIS", "SHEAR"], source_light_model_list=["SERSIC", "SERSIC"]), image_plane_source_list=[True, False])
    num, names = par.num_param()
    v = W.array("v", num, None, None, (0.2, 0.9))
    get = lambda n: v[names.index(n)]
    with abstract_profiles(W, [ALL["SIS"], ALL["SHEAR"]]):
        if not W.sym:
            W.assume((get("center_x_source_light0") - get("center_x_lens0")) ** 2 + (get("center_y_source_light0") - get("center_y_lens0")) ** 2 > 1e-3)
        kw = par.args2kwargs(v)
        x, y = get("center_x_source_light0"), get("center_y_source_light0")
        a = [get_class(ALL[m])().derivatives(x, y, **k) for m, k in zip(("SIS", "SHEAR"), kw["kwargs_lens"])]
        W.eq("x mapped", kw["kwargs_source"][0]["center_x"], x - a[0][0] - a[1][0])
        W.eq("y mapped", kw["kwargs_source"][0]["center_y"], y - a[0][1] - a[1][1])
        for p in ("R_sersic", "n_sersic"):
            W.same("other parameters", kw["kwargs_source"][0][p], get(p + "_source_light0"))
        for p in ("R_sersic", "n_sersic", "center_x", "center_y"):
            W.same("other source", kw["kwargs_source"][1][p], get(p + "_source_light1"))


@contract("C06", "Param.solver", [PAR + "args2kwargs", PAR + "kwargs2args", PAR + "_add_fixed_lens", "LensModel/Solver/solver.py::Solver.add_fixed_lens"], samples=6,
          assumes=["contract of Solver.update_solver: returns the lens parameters with the solved ones replaced"])
def _solver(W):
    """parameters determined by the point-source solver are not sampled; all others round trip"""
    from lenstronomy.Sampling.parameters import Param
    from lenstronomy.LensModel.Solver.solver import Solver
    import copy

    st, n, solved = W.choice("solver", [("PROFILE", 4, ["theta_E", "e1", "e2", "center_x", "center_y"]), ("PROFILE_SHEAR", 4, ["theta_E", "e1", "e2", "center_x", "center_y"]),
                                        ("CENTER", 2, ["center_x", "center_y"]), ("ELLIPSE", 2, ["e1", "e2"])])
    init = [dict(theta_E=1.0, gamma=2.0, e1=0.1, e2=0.05, center_x=0.01, center_y=0.0), dict(gamma1=0.03, gamma2=0.01, ra_0=0, dec_0=0)]

    def upd(self, kwargs, x, y):
        kwargs = copy.deepcopy(kwargs)
        for i, p in enumerate(solved):
            kwargs[0][p] = W.uf("solved_%s_%s" % (st, p), 1)(x[0])
        return kwargs

    with swap(W, (Solver, "update_solver", upd), both=True):
        par = Param(dict(lens_model_list=["SPEP", "SHEAR"], point_source_model_list=["LENSED_POSITION"]), kwargs_lens_init=init, solver_type=st, num_point_source_list=[n])
        num, names = par.num_param()
        for p in solved:
            if st != "PROFILE_SHEAR":
                W.true("solved parameter is not sampled", p + "_lens0" not in names)
        v = W.array("v", num, None, None, (0.2, 0.9))
        kw = par.args2kwargs(v, bijective=True)
        W.same("round trip", list(par.kwargs2args(**kw)), list(v))
        for p in solved:
            W.same("solved value", kw["kwargs_lens"][0][p], W.uf("solved_%s_%s" % (st, p), 1)(kw["kwargs_ps"][0]["ra_image"][0]))


@contract("C06", "Param.given limits", [PAR + "__init__", PAR + "param_limits"], samples=6)
def _limits(W):
    """limits given by the user are the limits of the entries they belong to"""
    from lenstronomy.Sampling.parameters import Param
    import itertools

    cfg = dict(lens_model_list=["SIS", "SHEAR"], source_light_model_list=["SERSIC", "GAUSSIAN"], lens_light_model_list=["SERSIC"], point_source_model_list=["LENSED_POSITION", "UNLENSED"],
               optical_depth_model_list=["UNIFORM"], tracer_source_model_list=["LINEAR"])
    cnt = itertools.count()
    groups = dict(lens=[["theta_E", "center_x", "center_y"], ["gamma1", "gamma2", "ra_0", "dec_0"]], source=[["amp", "R_sersic", "n_sersic", "center_x", "center_y"], ["amp", "sigma", "center_x", "center_y"]],
                  lens_light=[["amp", "R_sersic", "n_sersic", "center_x", "center_y"]], ps=[["ra_image", "dec_image", "point_amp"], ["ra_image", "dec_image", "point_amp"]],
                  extinction=[["amp"]], tracer_source=[["amp", "k", "center_x", "center_y"]])
    try:
        from lenstronomy.LightModel.light_model import LightModel
        groups["extinction"] = [list(LightModel(["UNIFORM"]).func_list[0].param_names)]
        groups["tracer_source"] = [list(LightModel(["LINEAR"]).func_list[0].param_names)]
    finally:
        pass
    linear = W.choice("linear", [True, False])
    nps = [2, 3]
    opt, want = {}, {"lower": [], "upper": []}
    for side in ("lower", "upper"):
        for g, lists in groups.items():
            out = []
            for k, l in enumerate(lists):
                d = {}
                for p in l:
                    v = W.real("%s_%s%d_%s" % (side, g, k, p)) if g != "ps" else W.array("%s_%s%d_%s" % (side, g, k, p), nps[k])
                    d[p] = v
                    if linear and p in ("amp", "point_amp") and g in ("source", "lens_light", "ps"):
                        continue
                    want[side] += [(("%s_%s%d" % (p, {"lens": "lens", "source": "source_light", "lens_light": "lens_light"}.get(g, "light"), k)) if g != "ps" else p, v)]
                out.append(d)
            opt["kwargs_%s_%s" % (side, g)] = out
        sp = {p: W.real("%s_sp_%s" % (side, p)) for p in ("D_dt", "source_size")}
        opt["kwargs_%s_special" % side] = dict(sp)
        want[side] += list(sp.items())
    par = Param(cfg, num_point_source_list=nps, linear_solver=linear, Ddt_sampling=True, source_size=True, **opt)
    num, names = par.num_param()
    lo, up = par.param_limits()
    for side, lim in (("lower", lo), ("upper", up)):
        conv(W, "given %s limits" % side, list(lim), num, names, want[side])


@contract("C06", "Param.redshift sampling", [PAR + "update_kwargs_model", PAR + "_update_lens_model", PAR + "args2kwargs"], samples=6)
def _zsamp(W):
    """sampled redshifts replace exactly the redshifts they are assigned to"""
    from lenstronomy.Sampling.parameters import Param

    li = W.choice("lens index", [None, [0, -1], [-1, 0], [0, 0], [1, 0]])
    si = W.choice("source index", [None, [1, -1], [-1, 1], [1, 1]])
    zl, zs = [0.3, 0.5], [1.0, 2.0]
    cfg = dict(lens_model_list=["SIS", "SIS"], source_light_model_list=["SERSIC", "SERSIC"], lens_redshift_list=list(zl), source_redshift_list=list(zs), multi_plane=True, z_source=2.0, z_source_convention=3.0)
    W.assume(li is not None or si is not None)
    par = Param(dict(cfg), lens_redshift_sampling_indexes=li, source_redshift_sampling_indexes=si)
    z = [W.real("z0", 0, 1, (0.2, 0.8)), W.real("z1", 0, 1, (0.2, 0.8))]
    new, changed = par.update_kwargs_model({"z_sampling": z})
    W.same("changed", bool(changed), True)
    for what, base, ind in (("lens", zl, li), ("source", zs, si)):
        got = new[what + "_redshift_list"]
        W.same("%s redshifts" % what, list(got), [base[i] if ind is None or ind[i] < 0 else z[ind[i]] for i in range(2)])
    W.same("settings given are not modified", [cfg["lens_redshift_list"], cfg["source_redshift_list"]], [zl, zs])
    for k in cfg:
        if "redshift" not in k:
            W.same("other settings", new[k], cfg[k])
    p0 = Param(dict(cfg))
    same, changed = p0.update_kwargs_model({})
    W.same("nothing sampled, nothing changed", [bool(changed), list(same["lens_redshift_list"]), list(same["source_redshift_list"])], [False, zl, zs])


@contract("C06", "Param.redshift sampling in the source mapping", [PAR + "_update_lens_model", PAR + "args2kwargs", PAR + "image2source_plane"], samples=4, sym=False)
def _zsamp2(W):
    """a source parameterised in the image plane is mapped with the sampled redshifts, whatever was sampled before"""
    from lenstronomy.Sampling.parameters import Param
    from lenstronomy.LensModel.lens_model import LensModel

    cfg = dict(lens_model_list=["SIS", "SIS"], source_light_model_list=["SERSIC"], lens_redshift_list=[0.3, 0.5], source_redshift_list=[2.0], multi_plane=True, z_source=2.0)
    par = Param(cfg, lens_redshift_sampling_indexes=[-1, 0], image_plane_source_list=[True])
    num, names = par.num_param()
    for rep in range(2):
        v = W.array("v%d" % rep, num, None, None, (0.2, 0.9))
        for i, n in enumerate(names):
            if n == "z_sampling":
                v[i] = W.real("z%d" % rep, 0.1, 1.9, (0.35, 1.5))
                z = v[i]
        kw = par.args2kwargs(v)
        raw = {n: x for n, x in zip(names, v)}
        lm = LensModel(cfg["lens_model_list"], lens_redshift_list=[0.3, z], multi_plane=True, z_source=2.0)
        b = lm.ray_shooting(raw["center_x_source_light0"], raw["center_y_source_light0"], kw["kwargs_lens"])
        W.eq("x with the sampled redshift", kw["kwargs_source"][0]["center_x"], b[0], 1e-8, 1e-9)
        W.eq("y with the sampled redshift", kw["kwargs_source"][0]["center_y"], b[1], 1e-8, 1e-9)

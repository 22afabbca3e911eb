"""C07: shared-parameter constraints are imposed exactly.

Specification: parameters declared joint carry the value of the declared reference in every model
produced from a vector, they are not entries of the vector, and every other parameter has the value of
its own entry."""
import copy
import numpy as np
from lv.world import contract
from contracts.common import abstract_profiles, ALL, get_class, swap
from contracts.c06 import flat, GROUPS, struct

PAR = "Sampling/parameters.py::Param."
FN = [PAR + q for q in ("args2kwargs", "_update_joint_param", "_fix_joint_param", "num_param", "__init__")]

MODEL = dict(lens_model_list=["SIS", "SHEAR", "SIS", "NFW"], source_light_model_list=["SERSIC", "SERSIC_ELLIPSE", "SERSIC"],
             lens_light_model_list=["SERSIC", "SERSIC_ELLIPSE", "HERNQUIST"], point_source_model_list=["LENSED_POSITION", "SOURCE_POSITION"],
             optical_depth_model_list=["LINEAR", "UNIFORM"], tracer_source_model_list=["SERSIC", "LINEAR"])
KEYS = {  # option -> (group of the reference, group of the linked)
    "joint_lens_with_lens": ("kwargs_lens", "kwargs_lens"),
    "joint_lens_light_with_lens_light": ("kwargs_lens_light", "kwargs_lens_light"),
    "joint_source_with_source": ("kwargs_source", "kwargs_source"),
    "joint_lens_with_light": ("kwargs_lens_light", "kwargs_lens"),
    "joint_lens_with_source_light": ("kwargs_source", "kwargs_lens"),
    "joint_extinction_with_lens_light": ("kwargs_lens_light", "kwargs_extinction"),
    "joint_source_light_with_tracer": ("kwargs_source", "kwargs_tracer_source"),
}
C = ["center_x", "center_y"]
SETS = {
    "lens-lens": dict(joint_lens_with_lens=[[0, 2, C]]),
    "lens-lens two": dict(joint_lens_with_lens=[[0, 2, ["theta_E"]], [0, 3, C]]),
    "lens-lens renamed": dict(joint_lens_with_lens=[[0, 3, {"Rs": "theta_E", "center_y": "center_x"}]]),
    "light-light": dict(joint_lens_light_with_lens_light=[[0, 1, ["center_x", "R_sersic"]], [0, 2, ["center_y"]]]),
    "source-source": dict(joint_source_with_source=[[2, 0, C], [2, 1, ["n_sersic"]]]),
    "source-source renamed": dict(joint_source_with_source=[[1, 0, {"R_sersic": "n_sersic"}]]),
    "lens-light": dict(joint_lens_with_light=[[1, 0, C], [0, 3, ["center_x"]]]),
    "lens-light renamed": dict(joint_lens_with_light=[[1, 0, {"theta_E": "R_sersic"}]]),
    "lens-source": dict(joint_lens_with_source_light=[[1, 2, C]]),
    "extinction-light": dict(joint_extinction_with_lens_light=[[2, 0, ["center_x"]]]),
    "tracer-source": dict(joint_source_light_with_tracer=[[0, 0, ["center_x", "R_sersic"]], [1, 1, ["center_x"]]]),
    "chain light": dict(joint_lens_light_with_lens_light=[[0, 1, C]], joint_lens_with_light=[[1, 0, C]], joint_lens_with_lens=[[0, 2, C]], joint_extinction_with_lens_light=[[1, 0, ["center_y"]]]),
    "chain source": dict(joint_source_with_source=[[0, 1, C]], joint_lens_with_source_light=[[1, 2, C]], joint_source_light_with_tracer=[[1, 0, C]]),
    "everything": dict(joint_lens_with_lens=[[0, 2, ["theta_E"]]], joint_lens_light_with_lens_light=[[1, 2, ["center_x"]]], joint_source_with_source=[[0, 2, ["R_sersic"]]],
                       joint_lens_with_light=[[0, 3, C]], joint_lens_with_source_light=[[1, 0, ["center_x"]]], joint_extinction_with_lens_light=[[0, 0, ["center_x"]]],
                       joint_source_light_with_tracer=[[0, 0, ["n_sersic"]]]),
}


def links(opt):
    out = []
    for key, lst in opt.items():
        a, b = KEYS[key]
        for i, k, ps in lst:
            for to, fr in (ps.items() if isinstance(ps, dict) else [(p, p) for p in ps]):
                out.append((a, i, fr, b, k, to))
    return out


def by_name(v, names):
    d = {}
    for x, n in zip(v, names):
        d.setdefault(n, []).append(x)
    return d


def all_names(cfg):
    from lenstronomy.LensModel.single_plane import SinglePlane
    from lenstronomy.LightModel.light_model import LightModel

    out = {}
    for g, key, t in GROUPS:
        fs = (SinglePlane if g == "kwargs_lens" else LightModel)(list(cfg.get(key, []))).func_list
        out[g] = [list(f.param_names) for f in fs]
    return out


def check_free(W, kw, d, pn, linked, linear=True):
    """every parameter that is not linked has the value of the entry of its name"""
    for g, key, t in GROUPS:
        W.same("components of " + g, len(kw[g]), len(pn[g]))
        for k, ns in enumerate(pn[g]):
            W.same("parameters of %s %d" % (g, k), sorted(kw[g][k]), sorted(ns))
            for p in ns:
                l = "%s_%s%d" % (p, t, k)
                if (g, k, p) in linked or (linear and p == "amp" and g not in ("kwargs_extinction", "kwargs_tracer_source")):
                    if t != "light":
                        W.true("linked parameter is not sampled", l not in d)
                    continue
                if t == "light":
                    # extinction and tracer share the suffix: extinction entries come with the extinction component
                    both = [h for h in ("kwargs_extinction", "kwargs_tracer_source") if k < len(pn[h]) and p in pn[h][k] and (h, k, p) not in linked]
                    W.same("unlinked parameter of " + g, kw[g][k][p], d[l][both.index(g)])
                else:
                    W.same("unlinked parameter of " + g, kw[g][k][p], d[l][0] if l in d else None)


def expected_num(pn, linked, linear=True):
    n = 0
    for g, _, t in GROUPS:
        for k, ns in enumerate(pn[g]):
            n += sum(1 for p in ns if (g, k, p) not in linked and not (p == "amp" and linear and t != "light"))
    return n


def _joint(name, bij):
    opt = SETS[name]

    @contract("C07", "%s.%s" % (name, "bijective" if bij else "model"), FN, samples=6, bounded="joint settings as listed; all parameter values")
    def body(W):
        from lenstronomy.Sampling.parameters import Param

        par = Param(copy.deepcopy(MODEL), num_point_source_list=[2, 2], **copy.deepcopy(opt))
        num, names = par.num_param()
        v = W.array("v", num, None, None, (0.2, 0.9))
        kw = par.args2kwargs(v, bijective=bij)
        pn = all_names(MODEL)
        ls = links(opt)
        linked = {(b, k, to) for a, i, fr, b, k, to in ls}
        for a, i, fr, b, k, to in ls:
            W.same("linked value equals the reference", kw[b][k][to], kw[a][i][fr])
        d = by_name(v, names)
        check_free(W, kw, d, pn, linked)
        W.same("number of free parameters", int(num), expected_num(pn, linked) + 2 + 2 + 2)
        for p, k in (("ra_image", 0), ("dec_image", 0)):
            W.same("point source", list(kw["kwargs_ps"][k][p]), d[p])
        for p, k in (("ra_source", 1), ("dec_source", 1)):
            W.same("point source", [kw["kwargs_ps"][k][p]], d[p])
        if bij:
            W.same("round trip", list(par.kwargs2args(**kw)), list(v))


for _n in SETS:
    for _b in (False, True):
        _joint(_n, _b)


PSETS = {
    "source-ps image": (dict(joint_source_with_point_source=[[0, 0]]), [("kwargs_source", 0, C, 0)]),
    "source-ps source": (dict(joint_source_with_point_source=[[1, 1]]), [("kwargs_source", 1, C, 1)]),
    "source-ps one": (dict(joint_source_with_point_source=[[0, 2, ["center_y"]]]), [("kwargs_source", 2, ["center_y"], 0)]),
    "light-ps": (dict(joint_lens_light_with_point_source=[[0, 1]]), [("kwargs_lens_light", 1, C, 0)]),
    "light-ps one": (dict(joint_lens_light_with_point_source=[[0, 2, ["center_x"]]]), [("kwargs_lens_light", 2, ["center_x"], 0)]),
    "both": (dict(joint_source_with_point_source=[[1, 0], [0, 2]], joint_lens_light_with_point_source=[[0, 0]]), [("kwargs_source", 0, C, 1), ("kwargs_source", 2, C, 0), ("kwargs_lens_light", 0, C, 0)]),
    "chained": (dict(joint_source_with_point_source=[[0, 0]], joint_source_with_source=[[0, 1, C]], joint_lens_light_with_point_source=[[0, 0]], joint_lens_light_with_lens_light=[[0, 1, ["center_x"]]]),
                [("kwargs_source", 0, C, 0), ("kwargs_lens_light", 0, C, 0)]),
}


def _ps(name):
    opt, spec = PSETS[name]

    @contract("C07", "ps." + name, FN + [PAR + "_update_source_joint_with_point_source", PAR + "_update_lens_light_joint_with_point_source",
                                          "ImSim/image2source_mapping.py::Image2SourceMapping.image2source"], samples=6)
    def body(W):
        """the linked centre is the (mean) point-source position, ray-shot to the source plane for a source"""
        from lenstronomy.Sampling.parameters import Param

        cfg = copy.deepcopy(MODEL)
        cfg["lens_model_list"] = ["SIS", "SHEAR"]
        par = Param(cfg, num_point_source_list=[2, 2], **copy.deepcopy(opt))
        num, names = par.num_param()
        v = W.array("v", num, None, None, (0.2, 0.9))
        d = by_name(v, names)
        with abstract_profiles(W, [ALL["SIS"], ALL["SHEAR"]]):
            kl = [dict(theta_E=d["theta_E_lens0"][0], center_x=d["center_x_lens0"][0], center_y=d["center_y_lens0"][0]),
                  dict(gamma1=d["gamma1_lens1"][0], gamma2=d["gamma2_lens1"][0], ra_0=d["ra_0_lens1"][0], dec_0=d["dec_0_lens1"][0])]
            if not W.sym:
                for x, y in zip(d["ra_image"], d["dec_image"]):
                    W.assume((x - kl[0]["center_x"]) ** 2 + (y - kl[0]["center_y"]) ** 2 > 1e-3)
            kw = par.args2kwargs(v)
            src = []
            for x, y in zip(d["ra_image"], d["dec_image"]):
                a = [get_class(ALL[m])().derivatives(x, y, **k) for m, k in zip(("SIS", "SHEAR"), kl)]
                src.append((x - a[0][0] - a[1][0], y - a[0][1] - a[1][1]))
            linked = set()
            for g, k, ps, i in spec:
                for p in ps:
                    c = C.index(p)
                    linked.add((g, k, p))
                    if g == "kwargs_lens_light":
                        e = sum(d[("ra_image", "dec_image")[c]]) / 2
                    elif i == 1:
                        e = d[("ra_source", "dec_source")[c]][0]
                    else:
                        e = (src[0][c] + src[1][c]) / 2
                    W.eq("linked position %s" % p, kw[g][k][p], e)
            for key in ("joint_source_with_source", "joint_lens_light_with_lens_light"):
                for a, i, fr, b, k, to in links({key: opt.get(key, [])}):
                    linked.add((b, k, to))
                    W.same("linked value equals the reference", kw[b][k][to], kw[a][i][fr])
            pn = all_names(cfg)
            check_free(W, kw, d, pn, linked)
            W.same("number of free parameters", int(num), expected_num(pn, linked) + 6)
            for p in ("ra_image", "dec_image"):
                W.same("point source", list(kw["kwargs_ps"][0][p]), d[p])


for _n in PSETS:
    _ps(_n)


@contract("C07", "lens light with a source-plane point source", [PAR + "_update_lens_light_joint_with_point_source"], samples=2)
def _refuse(W):
    from lenstronomy.Sampling.parameters import Param

    par = Param(dict(lens_light_model_list=["SERSIC"], lens_model_list=["SIS"], point_source_model_list=["SOURCE_POSITION"]), joint_lens_light_with_point_source=[[0, 0]])
    v = W.array("v", int(par.num_param()[0]), None, None, (0.2, 0.9))
    W.raises("refused", lambda: par.args2kwargs(v), ValueError)
    W.raises("image-plane source cannot be a reference of a lens", lambda: Param(dict(lens_model_list=["SIS"], source_light_model_list=["SERSIC"]), image_plane_source_list=[True],
             joint_lens_with_source_light=[[0, 0, ["center_x"]]]), ValueError)


SCALED = [("SIS", "theta_E"), ("NFW", "alpha_Rs"), ("SPEP", "theta_E"), ("PJAFFE", "sigma0"), ("SHEAR", None), ("SERSIC", "k_eff")]


def _scale(mask):
    @contract("C07", "mass_scaling.%s" % "-".join(map(str, mask)), [PAR + "update_lens_scaling", PAR + "args2kwargs"], samples=6,
              assumes=["scale factors within their bounds"])
    def body(W):
        """each lens in scaling group g has its mass normalisation multiplied by factor g; nothing else changes"""
        from lenstronomy.Sampling.parameters import Param

        mods = [m for m, _ in SCALED]
        par = Param(dict(lens_model_list=mods), mass_scaling_list=list(mask))
        num, names = par.num_param()
        v = W.array("v", num, None, None, (0.2, 0.9))
        d = by_name(v, names)
        for x in d.get("scale_factor", []):
            W.assume(x > 0)
            W.assume(x < 1000)
        kw = par.args2kwargs(v)
        W.same("number of factors", len(d.get("scale_factor", [])), max([m for m in mask if m is not False], default=0))
        W.same("factors", list(flat(kw["kwargs_special"].get("scale_factor", []))), d.get("scale_factor", []))
        for k, (m, q) in enumerate(SCALED):
            for p, x in kw["kwargs_lens"][k].items():
                e = d["%s_lens%d" % (p, k)][0]
                if p == q and mask[k] is not False:
                    e = e * d["scale_factor"][mask[k] - 1]
                W.eq("lens parameter", x, e)
        # the public update and its inverse
        k0 = par.args2kwargs(v, bijective=True)
        up = par.update_lens_scaling(k0["kwargs_special"], k0["kwargs_lens"])
        dn = par.update_lens_scaling(k0["kwargs_special"], up, inverse=True)
        for k in range(len(mods)):
            for p in up[k]:
                W.eq("update", up[k][p], kw["kwargs_lens"][k][p])
                W.eq("inverse update", dn[k][p], d["%s_lens%d" % (p, k)][0])


for _m in ([1, 1, False, 2, False, 2], [False, 1, 2, 3, 1, False], [1, 1, 1, 1, 1, 1], [2, False, 1, False, False, 2]):
    _scale(_m)


@contract("C07", "general_scaling", [PAR + "update_lens_scaling"], samples=8, assumes=["scale factors and powers within their bounds, scaled parameters positive"])
def _general(W):
    from lenstronomy.Sampling.parameters import Param

    masks = W.choice("mask", [{"theta_E": [1, False, 1]}, {"theta_E": [2, False, 1], "center_x": [False, 1, False]}, {"theta_E": [False, False, 1]}])
    mods = ["SIS", "NFW", "SPEP"]
    par = Param(dict(lens_model_list=mods), general_scaling=copy.deepcopy(masks))
    num, names = par.num_param()
    v = W.array("v", num, None, None, (0.2, 0.9))
    d = by_name(v, names)
    for q in masks:
        for x in d[q + "_scale_factor"] + d[q + "_scale_pow"]:
            W.assume(x > 0)
            W.assume(x < 10)
        for k, i in enumerate(masks[q]):
            if i is not False:
                W.assume(d["%s_lens%d" % (q, k)][0] > 0)
    kw = par.args2kwargs(v)
    for k, m in enumerate(mods):
        for p, x in kw["kwargs_lens"][k].items():
            e = d["%s_lens%d" % (p, k)][0]
            i = masks.get(p, [False] * 3)[k]
            if i is not False:
                e = d[p + "_scale_factor"][i - 1] * e ** d[p + "_scale_pow"][i - 1]
            W.eq("lens parameter", x, e)


@contract("C07", "redshift sampling", [PAR + "update_kwargs_model"], samples=6)
def _z(W):
    """sampled redshifts replace exactly the redshifts declared for them"""
    from lenstronomy.Sampling.parameters import Param

    li, si, n = W.choice("index", [([0, -1, 1], None, 2), ([-1, 0, 0], [0], 1), (None, [0], 1), ([1, 0, -1], [2], 3)])
    cfg = dict(lens_model_list=["SIS", "SIS", "SIS"], lens_redshift_list=[0.3, 0.4, 0.5], multi_plane=True, z_source=2.0, source_light_model_list=["SERSIC"], source_redshift_list=[1.5],
               z_source_convention=3.0)
    par = Param(copy.deepcopy(cfg), lens_redshift_sampling_indexes=li, source_redshift_sampling_indexes=si)
    num, names = par.num_param()
    W.same("number of sampled redshifts", names.count("z_sampling"), n)
    z = W.array("z", n, 0, 3, (0.1, 1.4))
    new, changed = par.update_kwargs_model({"z_sampling": z})
    W.true("updated", changed is True)
    W.same("lens redshifts", list(new["lens_redshift_list"]), [cfg["lens_redshift_list"][k] if li is None or li[k] < 0 else z[li[k]] for k in range(3)])
    W.same("source redshifts", list(new["source_redshift_list"]), [1.5 if si is None or si[0] < 0 else z[si[0]]])
    W.same("everything else", {k: x for k, x in new.items() if "redshift_list" not in k}, {k: x for k, x in cfg.items() if "redshift_list" not in k})
    W.same("configuration passed in", par._kwargs_model, cfg)


def _many(kind):
    @contract("C07", "ps.many." + kind, FN + [PAR + "_update_source_joint_with_point_source", PAR + "_update_lens_light_joint_with_point_source"], samples=6)
    def body(W):
        """with several point sources each link uses the point source it names"""
        from lenstronomy.Sampling.parameters import Param

        nps = [2, 3, 2]
        cfg = dict(lens_model_list=["SIS"], source_light_model_list=["SERSIC", "SERSIC"], lens_light_model_list=["SERSIC", "SERSIC"],
                   point_source_model_list=["LENSED_POSITION", "LENSED_POSITION", "UNLENSED"] if kind == "image" else ["SOURCE_POSITION", "SOURCE_POSITION", "LENSED_POSITION"])
        i0, i1 = W.choice("which", [(0, 1), (1, 0), (1, 1)])
        j = W.choice("light", [0, 1, 2]) if kind == "image" else 2
        par = Param(cfg, num_point_source_list=nps, joint_source_with_point_source=[[i0, 0], [i1, 1]], joint_lens_light_with_point_source=[[j, 1]])
        num, names = par.num_param()
        v = W.array("v", num, None, None, (0.2, 0.9))
        with abstract_profiles(W, [ALL["SIS"]]):
            kw = par.args2kwargs(v)
            kl = kw["kwargs_lens"][0]
            for k, i in ((0, i0), (1, i1)):
                ps = kw["kwargs_ps"][i]
                for c, p in enumerate(C):
                    if kind == "source":
                        e = ps[("ra_source", "dec_source")[c]]
                    else:
                        if not W.sym:
                            W.assume(np.all((ps["ra_image"] - kl["center_x"]) ** 2 + (ps["dec_image"] - kl["center_y"]) ** 2 > 1e-3))
                        e = sum((x, y)[c] - get_class(ALL["SIS"])().derivatives(x, y, **kl)[c] for x, y in zip(ps["ra_image"], ps["dec_image"])) / nps[i]
                    W.eq("source %d follows the point source it names" % k, kw["kwargs_source"][k][p], e)
            ps = kw["kwargs_ps"][j]
            for c, p in enumerate(C):
                W.eq("lens light follows the point source it names", kw["kwargs_lens_light"][1][p], sum(ps[("ra_image", "dec_image")[c]]) / nps[j])
            d = by_name(v, names)
            for c, p in enumerate(C):
                W.same("other lens light is free", [kw["kwargs_lens_light"][0][p]], d[p + "_lens_light0"])


for _n in ("image", "source"):
    _many(_n)

"""C08: light models are linear sums of their components and basis functions."""
import numpy as np
from lv.world import contract
from contracts.lightdefs import NAMES, NOSYM, MULTI, pkw, params

LM = "LightModel/light_model_base.py::LightModelBase."
LB = "LightModel/linear_basis.py::LinearBasis."


def model(names):
    from lenstronomy.LightModel.light_model import LightModel

    return LightModel(list(names), profile_kwargs_list=[pkw(m) for m in names])


def grid(W, n=2):
    return W.array("x", n, None, None, (-1.5, 1.5)), W.array("y", n, None, None, (-1.5, 1.5))


def away(W, x, y, kw):
    """float world: not at a profile centre"""
    if not W.sym:
        for k in kw:
            if "center_x" in k:
                W.assume(np.all((x - k["center_x"]) ** 2 + (y - k["center_y"]) ** 2 > 1e-2))


def _profile(m):
    n = MULTI.get(m)

    @contract("C08", "profile." + m, [LB + "functions_split", LB + "num_param_linear_list", LM + "surface_brightness"], samples=8, sym=m not in NOSYM, timeout=40, max_paths=64,
              bounded="two positions (one for shapelets); shapelet order 1, two Gaussians (structure); all parameter values")
    def body(W):
        lm = model([m])
        npos = 1 if (m.startswith("SHAPELETS") or m == "SERSIC_ELLIPSE_Q_PHI") and W.sym else 2
        x, y = grid(W, npos)
        pn = lm.func_list[0].param_names
        kw = params(W, m, pn)
        away(W, x, y, [kw])
        a = np.atleast_1d(kw["amp"])
        sb = lm.surface_brightness(x, y, [kw])
        W.shape("shape", sb, (npos,))
        split, num = lm.functions_split(x, y, [kw])
        W.same("number of basis functions", [num, len(split)], [len(a), len(a)])
        W.same("announced number of amplitudes", [int(lm.num_param_linear([kw])), [int(q) for q in lm.num_param_linear([kw], list_return=True)]], [len(a), [len(a)]])
        W.eq("surface brightness is the amplitude-weighted sum of basis functions", sb, sum(a[i] * split[i] for i in range(len(a))))
        # the basis does not depend on the amplitudes passed in
        other = dict(kw, amp=(2 * kw["amp"] if n is None else np.array([3 * q for q in kw["amp"]], dtype=object if W.sym else float)))
        split2, _ = lm.functions_split(x, y, [other])
        for i in range(len(a)):
            W.eq("basis functions do not depend on the amplitudes", split2[i], split[i])
        if n:
            own = lm.func_list[0].function_split(x, y, **kw)
            W.same("number of parts", len(own), n)
            for q in range(n):
                W.eq("a part carries its own amplitude", own[q], a[q] * split[q])
        if n:
            i = W.choice("i", range(n))
            e = dict(kw, amp=np.array([1.0 if j == i else 0.0 for j in range(n)]))
            W.eq("basis function is the profile with unit amplitude", lm.surface_brightness(x, y, [e]), split[i])


for _m in NAMES:
    _profile(_m)

SUMS = [["GAUSSIAN", "UNIFORM"], ["SERSIC", "GAUSSIAN", "SERSIC"], ["MULTI_GAUSSIAN", "UNIFORM", "GAUSSIAN_ELLIPSE"], ["NIE", "MGE_SET", "POWER_LAW", "MULTI_GAUSSIAN"], ["SHAPELETS", "GAUSSIAN"]]


def _sum(ci):
    names = SUMS[ci]
    N = len(names)
    ks = [None, 0, N - 1, [0, N - 1], list(range(1, N)), [N - 1, 0], [True] + [False] * (N - 1), [False] * (N - 1) + [True]]

    @contract("C08", "sum." + "+".join(names), [LM + "surface_brightness", LB + "functions_split", LB + "update_linear", LB + "linear_param_from_kwargs", LM + "_bool_list",
                                                "Util/util.py::convert_bool_list"], samples=10, timeout=60, bounded="component lists as listed")
    def body(W):
        lm = model(names)
        x, y = grid(W, 1 if W.sym and ("SHAPELETS" in names or "SERSIC" in names) else 2)
        kw = [params(W, m, lm.func_list[i].param_names, "p%d_" % i) for i, m in enumerate(names)]
        away(W, x, y, kw)
        k = W.choice("k", ks)
        if k is None:
            sel = list(range(N))
        elif isinstance(k, int):
            sel = [k]
        elif isinstance(k[0], bool):
            sel = [i for i in range(N) if k[i]]
        else:
            sel = list(k)
        single = [model([m]).surface_brightness(x, y, [q]) for m, q in zip(names, kw)]
        W.eq("sum over the selected components", lm.surface_brightness(x, y, kw, k=k), sum(single[i] for i in sel))
        split, num = lm.functions_split(x, y, kw, k=k)
        W.same("number of basis functions of the selection", [num, len(split)], [sum(MULTI.get(names[i], 1) for i in sel)] * 2)
        amps = []
        for i in sorted(sel):
            amps += list(np.atleast_1d(kw[i]["amp"]))
        W.eq("weighted basis functions of the selection", sum(a * s for a, s in zip(amps, split)), sum(single[i] for i in sel))
        W.same("announced amplitudes", [int(q) for q in lm.num_param_linear(kw, list_return=True)], [MULTI.get(m, 1) for m in names])
        # amplitudes written back
        tot = sum(MULTI.get(m, 1) for m in names)
        c = W.array("c", tot + 2, None, None, (0.5, 2))
        import copy

        kn, j = lm.update_linear(c, 1, [dict(q) for q in kw])
        W.same("amplitudes consumed", j, 1 + tot)
        W.same("amplitudes read in order", list(lm.linear_param_from_kwargs(kn)), list(c[1:-1]))
        for i in range(N):
            W.same("other parameters", {p: v for p, v in kn[i].items() if p != "amp"}, {p: v for p, v in kw[i].items() if p != "amp"})
        full, _ = lm.functions_split(x, y, kw)
        W.eq("the model with solved amplitudes is the response applied to them", lm.surface_brightness(x, y, kn), sum(a * s for a, s in zip(c[1:-1], full)))
        fx = [dict() for _ in names]
        fx[0] = {"amp": 7}
        fx = lm.add_fixed_linear(fx)
        W.same("amplitudes are fixed for sampling", [q["amp"] for q in fx], [7] + [1] * (N - 1))


for _i in range(len(SUMS)):
    _sum(_i)


L3D = ["HERNQUIST", "HERNQUIST_ELLIPSE", "PJAFFE", "PJAFFE_ELLIPSE", "GAUSSIAN", "GAUSSIAN_ELLIPSE", "MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE", "NIE", "POWER_LAW", "CHAMELEON", "DOUBLE_CHAMELEON", "TRIPLE_CHAMELEON"]


@contract("C08", "light_3d.sum", [LM + "light_3d"], samples=20, timeout=60, max_paths=100)
def _l3(W):
    """the 3d light is the sum over the selected components and linear in the amplitudes"""
    m = W.choice("m", L3D)
    names = [m, "HERNQUIST"]
    lm = model(names)
    r = W.array("r", 2, 0, None, (0.5, 3))
    kw = [params(W, q, lm.func_list[i].param_names, "p%d_" % i) for i, q in enumerate(names)]
    if "PJAFFE" in m and not W.sym:
        W.assume(kw[0]["Ra"] < 0.9 * kw[0]["Rs"])
    one = [model([q]).light_3d(r, [z]) for q, z in zip(names, kw)]
    W.eq("sum", lm.light_3d(r, kw), one[0] + one[1])
    W.eq("first only", lm.light_3d(r, kw, k=0), one[0])
    W.eq("second only", lm.light_3d(r, kw, k=[1]), one[1])
    t = W.real("t", 0, None, (0.5, 3))
    a2 = t * kw[0]["amp"]
    if m in MULTI:
        parts = []
        for q in range(MULTI[m]):
            z = dict(kw[0], amp=np.array([kw[0]["amp"][i] if i == q else 0 * kw[0]["amp"][i] for i in range(MULTI[m])], dtype=object if W.sym else float))
            parts.append(model([m]).light_3d(r, [z]))
        W.eq("sum over the parts of a component", one[0], sum(parts))
        if m.startswith("MULTI_GAUSSIAN"):
            g = model([m.replace("MULTI_", "")])
            W.eq("3d light of several Gaussians is the sum of single ones", one[0], sum(g.light_3d(r, [dict({k: v for k, v in kw[0].items() if k not in ("amp", "sigma")}, amp=kw[0]["amp"][q], sigma=kw[0]["sigma"][q])]) for q in range(2)))
    W.eq("linear in the amplitude", model([m]).light_3d(r, [dict(kw[0], amp=a2)]), t * one[0])


@contract("C08", "multi.sum", ["LightModel/Profiles/gaussian.py::MultiGaussian.function", "LightModel/Profiles/gaussian.py::MultiGaussianEllipse.function"], samples=8)
def _mg(W):
    """several Gaussians are the sum of single Gaussians, each with its own amplitude and width"""
    m = W.choice("m", ["MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE"])
    lm, g = model([m]), model([m.replace("MULTI_", "")])
    x, y = grid(W, 2)
    kw = params(W, m, lm.func_list[0].param_names)
    single = [dict({k: v for k, v in kw.items() if k not in ("amp", "sigma")}, amp=kw["amp"][q], sigma=kw["sigma"][q]) for q in range(2)]
    W.eq("sum of single Gaussians", lm.surface_brightness(x, y, [kw]), sum(g.surface_brightness(x, y, [z]) for z in single))
    W.eq("flux of single Gaussians", lm.total_flux([kw])[0], sum(g.total_flux([z])[0] for z in single))


FLUX = ["SERSIC", "SERSIC_ELLIPSE", "GAUSSIAN", "GAUSSIAN_ELLIPSE", "MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE", "MGE_SET", "MGE_SET_ELLIPSE", "LINE_PROFILE", "HERNQUIST", "HERNQUIST_ELLIPSE", "PL_SERSIC", "SERSIC_ELLIPSE_FLEXION"]


def _flux(m):
    @contract("C08", "total_flux." + m, [LM + "total_flux"], samples=4, sym=m not in ("PL_SERSIC",), timeout=40)
    def body(W):
        """one flux per selected component, linear in the amplitude; normalised: unit amplitudes"""
        names = ["GAUSSIAN", m]
        lm = model(names)
        kw = [params(W, q, lm.func_list[i].param_names, "p%d_" % i) for i, q in enumerate(names)]
        f = lm.total_flux(kw)
        W.same("one flux for each component", len(f), 2)
        W.eq("flux of a Gaussian is its amplitude", f[0], kw[0]["amp"])
        W.eq("selected component", lm.total_flux(kw, k=1)[0], f[1])
        t = W.real("t", 0, None, (0.5, 3))
        W.eq("linear in the amplitude", lm.total_flux([kw[0], dict(kw[1], amp=t * kw[1]["amp"])])[1], t * f[1])
        n = lm.total_flux(kw, norm=True)
        a = kw[1]["amp"]
        W.eq("normalised flux", n[1] * (sum(a) if m in MULTI else a), f[1])


for _m in FLUX:
    _flux(_m)


def _integral(m):
    @contract("C08", "flux integral." + m, ["LightModel/Profiles"], samples=3, sym=False, bounded="sampled parameters; 2d quadrature of the real code")
    def body(W):
        """the total flux is the integral of the surface brightness"""
        lm = model([m])
        kw = params(W, m, lm.func_list[0].param_names)
        for p in ("n_sersic",):
            if p in kw:
                kw[p] = W.real(p + "_n", 0.6, 2, (0.7, 1.6))
        for p in ("R_sersic", "sigma", "length", "width"):
            if p in kw and not isinstance(kw[p], list):
                kw[p] = W.real(p + "_n", 0.3, 0.6, (0.35, 0.6))
        if "e1" in kw:
            kw["e1"], kw["e2"] = W.real("e1n", -0.1, 0.1), W.real("e2n", -0.1, 0.1)
        # polar grid about the centre
        cx, cy = kw.get("center_x", kw.get("start_x", 0)), kw.get("center_y", kw.get("start_y", 0))
        if m == "LINE_PROFILE":
            n = 2001
            g = (np.arange(n) + 0.5) / n * 3 - 1.5
            X, Y = np.meshgrid(g + cx, g + cy)
            s = np.sum(lm.surface_brightness(X.flatten(), Y.flatten(), [kw])) * (3 / n) ** 2
            W.eq("integral", s, lm.total_flux([kw])[0], 0.01)
            return
        u, w = np.polynomial.legendre.leggauss(120)
        t = (u + 1) / 2 * 7.5 - 3  # log10 r
        r = 10 ** t
        wr = w / 2 * 7.5 * np.log(10) * r * r
        ph = np.arange(64) / 64 * 2 * np.pi
        R, P = np.meshgrid(r, ph)
        v = lm.surface_brightness((cx + R * np.cos(P)).flatten(), (cy + R * np.sin(P)).flatten(), [kw]).reshape(R.shape)
        W.eq("integral", np.sum(v.mean(axis=0) * wr) * 2 * np.pi, lm.total_flux([kw])[0], 0.01)


for _m in ("SERSIC", "SERSIC_ELLIPSE", "GAUSSIAN", "GAUSSIAN_ELLIPSE", "MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE", "MGE_SET", "MGE_SET_ELLIPSE", "LINE_PROFILE", "HERNQUIST"):
    _integral(_m)

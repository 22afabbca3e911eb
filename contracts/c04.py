"""C04: a single-plane lens model is the sum of its components; derived quantities are functions of the sums."""
import numpy as np
from lv.world import contract
from contracts.common import abstract_profiles, cosmology, ALL, components, lens_kwargs, get_class
from contracts.lens_table import TABLE
from contracts.lensdefs import dom

LISTS = [["SIS"], ["SHEAR", "SIS"], ["SIS", "NFW", "SIS"], ["PJAFFE", "SHEAR", "SIS", "SPP"]]
KS = {
    1: [None, 0, (0,), [True], [False], []],
    2: [None, 0, 1, (1,), [0], [True, False], [False, True], [False, False], (0, 1), []],
    3: [None, 0, 2, (0, 2), [1], [True, False, True], (2, 1), np.int64(1)],
    4: [None, 1, 3, (0, 3), [1, 2], [False, True, True, False], (3,)],
}
FN = ["LensModel/single_plane.py::SinglePlane.potential", "LensModel/single_plane.py::SinglePlane.alpha",
      "LensModel/single_plane.py::SinglePlane.hessian", "LensModel/profile_list_base.py::ProfileListBase", "Util/util.py::convert_bool_list"]


def select(n, k):
    if k is None:
        return list(range(n))
    if isinstance(k, (int, np.integer)):
        return [int(k)]
    if len(k) and isinstance(k[0], bool):
        return [i for i in range(n) if k[i]]
    return sorted(set(int(i) for i in k))


def xy(W, shape):
    if shape == "scalar":
        return W.real("x", None, None, (-2, 2)), W.real("y", None, None, (-2, 2))
    return W.array("x", 2, None, None, (-2, 2)), W.array("y", 2, None, None, (-2, 2))


def away(W, x, y, kw):
    """machine arithmetic: stay away from profile centres"""
    for k in kw:
        if "center_x" in k:
            W.assume((x - k["center_x"]) ** 2 + (y - k["center_y"]) ** 2 > W.const(1e-2))
        if "Ra" in k:
            W.assume((k["Rs"] - k["Ra"]) ** 2 > W.const(1e-3))


def total(W, comps, sel, i, x):
    s = 0 * x
    for j in sel:
        s = s + comps[j][i]
    return s


def _sum(names, shape):
    @contract("C04", "sum.%s.%s" % ("+".join(names), shape), FN, samples=8,
              bounded="component lists of the shown profiles; each profile is an arbitrary function (uninterpreted) in the proof")
    def body(W):
        from lenstronomy.LensModel.single_plane import SinglePlane

        k = W.choice("k", KS[len(names)])
        x, y = xy(W, shape)
        kw = lens_kwargs(W, names)
        away(W, x, y, kw)
        s = W.real("scaling", 0, None, (0.5, 1.5))
        sel = select(len(names), k)
        with abstract_profiles(W, [ALL[n] for n in set(names)]):
            lm = SinglePlane(names, alpha_scaling=s)
            W.eq("potential is the scaled sum of the selected components", lm.potential(x, y, kw, k=k), s * total(W, components(W, names, kw, x, y, "function"), sel, 0, x))
            ax, ay = lm.alpha(x, y, kw, k=k)
            c = components(W, names, kw, x, y, "derivatives")
            W.eq("x-deflection is the scaled sum of the selected components", ax, s * total(W, c, sel, 0, x))
            W.eq("y-deflection is the scaled sum of the selected components", ay, s * total(W, c, sel, 1, x))
            bx, by = lm.ray_shooting(x, y, kw, k=k)
            W.eq("source x", bx, x - s * total(W, c, sel, 0, x))
            W.eq("source y", by, y - s * total(W, c, sel, 1, x))
            H = lm.hessian(x, y, kw, k=k)
            c = components(W, names, kw, x, y, "hessian")
            for i, n in enumerate(("xx", "xy", "yx", "yy")):
                W.eq("Hessian %s is the scaled sum of the selected components" % n, H[i], s * total(W, c, sel, i, x))
            xs, ys = W.real("xs", None, None, (-1, 1)), W.real("ys", None, None, (-1, 1))
            W.eq("Fermat potential for a given source", lm.fermat_potential(x, y, kw, xs, ys), ((x - xs) ** 2 + (y - ys) ** 2) / 2 - lm.potential(x, y, kw))
            bx, by = lm.ray_shooting(x, y, kw)
            px, py = lm.ray_shooting(x, y, kw, k=k)
            W.eq("Fermat potential of the selected components", lm.fermat_potential(x, y, kw, k=k), ((x - px) ** 2 + (y - py) ** 2) / 2 - lm.potential(x, y, kw, k=k))
            W.eq("Fermat potential", lm.fermat_potential(x, y, kw), ((x - bx) ** 2 + (y - by) ** 2) / 2 - lm.potential(x, y, kw))
            W.shape("shape", ax, np.shape(x))


for _n in LISTS:
    for _s in ("scalar", "array"):
        _sum(_n, _s)

DER = ["LensModel/lens_model.py::LensModel." + q for q in ("kappa", "gamma", "curl", "magnification", "ray_shooting", "alpha", "hessian", "potential", "fermat_potential", "arrival_time", "flexion")]


def _derived(names, shape):
    @contract("C04", "derived.%s.%s" % ("+".join(names), shape), DER, samples=6)
    def body(W):
        from lenstronomy.LensModel.lens_model import LensModel

        k = W.choice("k", KS[len(names)][:4])
        x, y = xy(W, shape)
        kw = lens_kwargs(W, names)
        away(W, x, y, kw)
        sel = select(len(names), k)
        with abstract_profiles(W, [ALL[n] for n in set(names)]):
            lm = LensModel(names)
            c = components(W, names, kw, x, y, "hessian")
            fxx, fxy, fyx, fyy = [total(W, c, sel, i, x) for i in range(4)]
            H = lm.hessian(x, y, kw, k=k)
            for i, n in enumerate(("xx", "xy", "yx", "yy")):
                W.eq("Hessian " + n, H[i], (fxx, fxy, fyx, fyy)[i])
            W.eq("convergence is half the trace", lm.kappa(x, y, kw, k=k), (fxx + fyy) / 2)
            g1, g2 = lm.gamma(x, y, kw, k=k)
            W.eq("shear 1", g1, (fxx - fyy) / 2)
            W.eq("shear 2", g2, (fxy + fyx) / 2 if not W.sym else fxy)
            W.eq("curl", lm.curl(x, y, kw, k=k), fxy - fyx)
            det = (1 - fxx) * (1 - fyy) - fxy * fyx
            W.assume(det ** 2 > W.const(1e-4))
            W.eq("magnification is the inverse determinant", lm.magnification(x, y, kw, k=k) * det, 1 + 0 * x)
            c = components(W, names, kw, x, y, "derivatives")
            ax, ay = total(W, c, sel, 0, x), total(W, c, sel, 1, x)
            a = lm.alpha(x, y, kw, k=k)
            W.eq("deflection x", a[0], ax)
            W.eq("deflection y", a[1], ay)
            b = lm.ray_shooting(x, y, kw, k=k)
            W.eq("ray-shooting x", b[0], x - ax)
            W.eq("ray-shooting y", b[1], y - ay)
            W.eq("potential", lm.potential(x, y, kw, k=k), total(W, components(W, names, kw, x, y, "function"), sel, 0, x))
            if shape == "scalar":
                pot = lambda u, v: total(W, components(W, names, kw, u, v, "function"), sel, 0, u)
                h = W.const(0.05)
                a = lm.alpha(x, y, kw, k=k, diff=h)
                W.eq("numerical deflection x", a[0], (pot(x + h / 2, y) - pot(x - h / 2, y)) / h, 1e-6, 1e-8)
                W.eq("numerical deflection y", a[1], (pot(x, y + h / 2) - pot(x, y - h / 2)) / h, 1e-6, 1e-8)
                def al(u, v, i):
                    return total(W, components(W, names, kw, u, v, "derivatives"), sel, i, u)
                Hc = lm.hessian(x, y, kw, k=k, diff=h, diff_method="cross")
                want = [(al(x + h / 2, y, 0) - al(x - h / 2, y, 0)) / h, (al(x, y + h / 2, 0) - al(x, y - h / 2, 0)) / h,
                        (al(x + h / 2, y, 1) - al(x - h / 2, y, 1)) / h, (al(x, y + h / 2, 1) - al(x, y - h / 2, 1)) / h]
                for i, n in enumerate(("xx", "xy", "yx", "yy")):
                    W.eq("numerical Hessian (cross) " + n, Hc[i], want[i], 1e-6, 1e-8)
                Hs = lm.hessian(x, y, kw, k=k, diff=h, diff_method="square")
                q = h / 2
                for i, (n, comp, dx) in enumerate((("xx", 0, 1), ("xy", 0, 0), ("yx", 1, 1), ("yy", 1, 0))):
                    if dx:
                        w = (al(x + q, y + q, comp) - al(x - q, y + q, comp) + al(x + q, y - q, comp) - al(x - q, y - q, comp)) / h / 2
                    else:
                        w = (al(x + q, y + q, comp) - al(x + q, y - q, comp) + al(x - q, y + q, comp) - al(x - q, y - q, comp)) / h / 2
                    W.eq("numerical Hessian (square) " + n, Hs[i], w, 1e-6, 1e-8)
                for how, M in (("square", Hs), ("cross", Hc)):
                    o = dict(k=k, diff=h, diff_method=how)
                    W.eq("numerical convergence", lm.kappa(x, y, kw, **o), (M[0] + M[3]) / 2, 1e-6, 1e-8)
                    W.eq("numerical shear 1", lm.gamma(x, y, kw, **o)[0], (M[0] - M[3]) / 2, 1e-6, 1e-8)
                    W.eq("numerical shear 2", lm.gamma(x, y, kw, **o)[1], M[1], 1e-6, 1e-8)
                    W.eq("numerical curl", lm.curl(x, y, kw, **o), M[1] - M[2], 1e-6, 1e-8)
                    d = (1 - M[0]) * (1 - M[3]) - M[1] * M[2]
                    W.assume(d ** 2 > W.const(1e-4))
                    W.eq("numerical magnification", lm.magnification(x, y, kw, **o) * d, 1 + 0 * x, 1e-6, 1e-8)
                hs = lambda u, v, i: total(W, components(W, names, kw, u, v, "hessian"), sel, i, u)
                F = lm.flexion(x, y, kw, k=k, diff=h)
                want = [(hs(x + q, y, 0) - hs(x - q, y, 0)) / h, (hs(x, y + q, 0) - hs(x, y - q, 0)) / h,
                        (hs(x, y + q, 1) - hs(x, y - q, 1)) / h, (hs(x, y + q, 3) - hs(x, y - q, 3)) / h]
                for i, n in enumerate(("xxx", "xxy", "xyy", "yyy")):
                    W.eq("flexion " + n, F[i], want[i], 1e-5, 1e-6)


for _n in LISTS[1:]:
    for _s in ("scalar", "array"):
        _derived(_n, _s)


@contract("C04", "fermat.principle", ["LensModel/lens_model.py::LensModel.fermat_potential"], samples=6)
def fermat(W):
    """images are stationary points of the Fermat potential: its gradient at fixed source vanishes
    when the source is the ray-shot position"""
    from lenstronomy.LensModel.lens_model import LensModel

    names = ["SHEAR", "SIS", "NFW"]
    x, y = xy(W, "scalar")
    kw = lens_kwargs(W, names)
    away(W, x, y, kw)
    with abstract_profiles(W, [ALL[n] for n in names], consistent=True):
        lm = LensModel(names)
        bx, by = lm.ray_shooting(x, y, kw)
        if W.sym:
            sx, sy = W.real("sx"), W.real("sy")
            g = [sx - bx, sy - by]
            W.eq_grad("gradient of the Fermat potential is source position minus ray-shot position up to sign", lambda u, v: lm.fermat_potential(u, v, kw, sx, sy), (x, y), (-g[0], -g[1]))
        else:
            W.eq_grad("images are stationary points of the Fermat potential", lambda u, v: lm.fermat_potential(u, v, kw, bx, by), (x, y), (0.0, 0.0), 1e-5, 1e-5)


@contract("C04", "arrival_time", ["LensModel/lens_model.py::LensModel.arrival_time", "LensModel/lens_model.py::LensModel.change_source_redshift"], samples=4)
def arrival(W):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.Util import constants as const

    names = ["SIS", "SHEAR"]
    x, y = xy(W, "scalar")
    kw = lens_kwargs(W, names)
    away(W, x, y, kw)
    xs, ys = W.real("xs", None, None, (-1, 1)), W.real("ys", None, None, (-1, 1))
    ke = W.real("kappa_ext", None, None, (-0.2, 0.2))
    with abstract_profiles(W, [ALL[n] for n in names]):
        cosmo = cosmology(W)
        lm = LensModel(names, z_lens=0.5, z_source=1.5, cosmo=cosmo)
        d = lambda a, b: cosmo.angular_diameter_distance(a, b).value if a else cosmo.angular_diameter_distance(b).value
        ddt = (1 + 0.5) * d(0, 0.5) * d(0, 1.5) / d(0.5, 1.5)
        unit = ddt * const.Mpc / const.c / const.day_s * const.arcsec ** 2
        fp = ((x - xs) ** 2 + (y - ys) ** 2) / 2 - lm.potential(x, y, kw)
        t = lm.arrival_time(x, y, kw, kappa_ext=ke, x_source=xs, y_source=ys)
        W.eq("arrival time is the time-delay distance times the Fermat potential", t / unit, fp * (1 - ke), 1e-6, 1e-8)
        t0 = lm.arrival_time(x, y, kw)
        W.eq("arrival time without source", t0 / unit, lm.fermat_potential(x, y, kw), 1e-6, 1e-8)


@contract("C04", "redshift_scaling", ["LensModel/lens_model.py::LensModel.__init__", "LensModel/lens_model.py::LensModel.change_source_redshift"], samples=6)
def rescale(W):
    """deflections quoted for the convention redshift are rescaled to the evaluated source redshift"""
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.Cosmo.background import Background


    names = ["SIS", "SHEAR"]
    x, y = xy(W, "scalar")
    kw = lens_kwargs(W, names)
    away(W, x, y, kw)
    z = W.choice("z", [0.8, 1.2, 2.5])
    k = W.choice("k", [None, 0, (1,)])
    how = W.choice("how", ["init", "change", "change twice"])
    cosmo = cosmology(W)
    b = Background(cosmo)
    zl, zc = 0.5, 1.5
    with abstract_profiles(W, [ALL[n] for n in names]):
        f = (b.d_xy(zl, z) / b.d_xy(0, z)) / (b.d_xy(zl, zc) / b.d_xy(0, zc))
        if how == "init":
            lm = LensModel(names, z_lens=zl, z_source=z, z_source_convention=zc, cosmo=cosmo)
        else:
            lm = LensModel(names, z_lens=zl, z_source=zc, z_source_convention=zc, cosmo=cosmo)
            if how == "change twice":
                lm.change_source_redshift(3.0)
            lm.change_source_redshift(z)
        base = LensModel(names)
        W.eq("deflection scales with the distance ratio", lm.alpha(x, y, kw, k=k)[0], base.alpha(x, y, kw, k=k)[0] * f, 1e-6, 1e-9)
        W.eq("deflection y scales with the distance ratio", lm.alpha(x, y, kw, k=k)[1], base.alpha(x, y, kw, k=k)[1] * f, 1e-6, 1e-9)
        W.eq("potential scales with the distance ratio", lm.potential(x, y, kw, k=k), base.potential(x, y, kw, k=k) * f, 1e-6, 1e-9)
        W.eq("Hessian scales with the distance ratio", lm.hessian(x, y, kw, k=k)[1], base.hessian(x, y, kw, k=k)[1] * f, 1e-6, 1e-9)
        dt = lambda q: b.d_xy(0, zl) * b.d_xy(0, q) / b.d_xy(zl, q)
        W.eq("time-delay distance scaling", lm.ddt_scaling, dt(z) / dt(zc), 1e-6, 1e-9)


@contract("C04", "radial_sums", ["LensModel/single_plane.py::SinglePlane." + q for q in ("mass_3d", "mass_2d", "density")], samples=6)
def radial(W):
    from lenstronomy.LensModel.single_plane import SinglePlane

    names = ["NFW", "SIS", "SPP"]
    bl = W.choice("bool_list", [None, [True, False, True], [False, True, True], [False, True, False]])
    r = W.real("r", 0, None, (0.3, 3))
    kw = lens_kwargs(W, names)
    with abstract_profiles(W, [ALL[n] for n in names]):
        lm = SinglePlane(names)
        sel = [i for i in range(3) if bl is None or bl[i]]
        strip = lambda k: {a: b for a, b in k.items() if not a.startswith("center")}
        for what, meth in (("mass_3d", "mass_3d_lens"), ("mass_2d", "mass_2d_lens"), ("density", "density_lens")):
            s = 0 * r
            for i in sel:
                s = s + getattr(get_class(ALL[names[i]])(), meth)(r, **strip(kw[i]))
            W.eq("%s is the sum over the selected components" % what, getattr(lm, what)(r, kw, bool_list=bl), s)


def _los(variant, index):
    @contract("C04", "%s.at%d" % (variant, index), ["LensModel/LineOfSight/single_plane_los.py::SinglePlaneLOS." + q for q in ("alpha", "hessian", "potential", "split_lens_los")], samples=5)
    def body(W):
        """line-of-sight model: beta = A_os theta - A_ds alpha(A_od theta); the Hessian is its Jacobian"""
        from lenstronomy.LensModel.lens_model import LensModel

        names = ["SIS", "SHEAR"]
        full = list(names)
        full.insert(index, variant)
        x, y = xy(W, "scalar")
        kw = lens_kwargs(W, names)
        sfx = ["od", "los"] if variant == "LOS_MINIMAL" else ["od", "os", "ds"]
        los = {"%s_%s" % (q, s): W.real("%s_%s" % (q, s), None, None, (-0.15, 0.15)) for s in sfx for q in ("kappa", "gamma1", "gamma2", "omega")}
        A = {}
        for s in ("od", "os", "ds"):
            t = s if variant == "LOS" else {"od": "od", "os": "los", "ds": "od"}[s]
            k_, g1, g2, w = [los["%s_%s" % (q, t)] for q in ("kappa", "gamma1", "gamma2", "omega")]
            A[s] = ((1 - k_ - g1, -g2 + w), (-g2 - w, 1 - k_ + g1))
        mul = lambda M, u, v: (M[0][0] * u + M[0][1] * v, M[1][0] * u + M[1][1] * v)
        kwf = [dict(k) for k in kw]
        kwf.insert(index, dict(los))
        with abstract_profiles(W, [ALL[n] for n in names], consistent=True):
            lm = LensModel(full)
            xd, yd = mul(A["od"], x, y)
            away(W, xd, yd, kw)
            away(W, x, y, kw)
            c = components(W, names, kw, xd, yd, "derivatives")
            a0, a1 = total(W, c, [0, 1], 0, x), total(W, c, [0, 1], 1, x)
            a0, a1 = mul(A["ds"], a0, a1)
            o = mul(A["os"], x, y)
            al = lm.alpha(x, y, kwf)
            W.eq("deflection x", al[0], a0 + x - o[0])
            W.eq("deflection y", al[1], a1 + y - o[1])
            H = lm.hessian(x, y, kwf)
            W.eq_grad("row x of the Hessian", lambda u, v: lm.alpha(u, v, kwf)[0], (x, y), (H[0], H[1]))
            W.eq_grad("row y of the Hessian", lambda u, v: lm.alpha(u, v, kwf)[1], (x, y), (H[2], H[3]))
            W.eq("potential ignores the line of sight", lm.potential(x, y, kwf), total(W, components(W, names, kw, x, y, "function"), [0, 1], 0, x))
            W.same("parameters untouched", kwf[index], los)
            b = lm.ray_shooting(x, y, kwf)
            W.eq("source position x", b[0], x - al[0])
            W.eq("source position y", b[1], y - al[1])
            if index == 2:
                k = W.choice("k", [0, 1, (0, 1), (1,)])
                sel = select(2, k)
                W.eq("potential of selected components", lm.potential(x, y, kwf, k=k), total(W, components(W, names, kw, x, y, "function"), sel, 0, x))
                c0, c1 = total(W, c, sel, 0, x), total(W, c, sel, 1, x)
                c0, c1 = mul(A["ds"], c0, c1)
                al = lm.alpha(x, y, kwf, k=k)
                W.eq("deflection x of selected components", al[0], c0 + x - o[0])
                W.eq("deflection y of selected components", al[1], c1 + y - o[1])
                H = lm.hessian(x, y, kwf, k=k)
                W.eq_grad("row x of the Hessian of selected components", lambda u, v: lm.alpha(u, v, kwf, k=k)[0], (x, y), (H[0], H[1]))
                W.eq_grad("row y of the Hessian of selected components", lambda u, v: lm.alpha(u, v, kwf, k=k)[1], (x, y), (H[2], H[3]))


for _v in ("LOS", "LOS_MINIMAL"):
    for _i in (0, 1, 2):
        _los(_v, _i)


def _wire(s):
    @contract("C04", "wiring.%s" % s.name, ["LensModel/profile_list_base.py::lens_class", "LensModel/lens_model.py::LensModel"], samples=2, sym=s.sym, timeout=30, max_paths=6)
    def body(W):
        """a component name evaluates the profile of that name"""
        from lenstronomy.LensModel.lens_model import LensModel

        x, y = xy(W, "scalar")
        kw = s.kwargs(W, x, y)
        p = s.instance()
        zz = {}
        if s.name.startswith("NFW_MC"):
            zz = dict(z_lens=0.5, z_source=1.5, lens_redshift_list=[0.5])
        lm = LensModel([s.name], **zz)
        a, b = lm.alpha(x, y, [kw]), p.derivatives(x, y, **kw)
        W.eq("deflection of the named profile x", a[0], b[0], 1e-9, 1e-12)
        W.eq("deflection of the named profile y", a[1], b[1], 1e-9, 1e-12)
        if s.pot:
            W.eq("potential of the named profile", lm.potential(x, y, [kw]), p.function(x, y, **kw), 1e-9, 1e-12)
        names = list(lm.lens_model.param_name_list[0]) if hasattr(lm.lens_model, "param_name_list") else None
        if names is not None:
            W.same("parameter names of the named profile", sorted(n for n in names if n != "scale_factor" and (n in kw or s.name != "NIE_SIMPLE")), sorted(k for k in kw))


for _s in TABLE.values():
    if _s.wire and _s.name not in ("EPL", ):
        _wire(_s)


@contract("C04", "check_parameters", ["LensModel/profile_list_base.py::ProfileListBase.check_parameters"], samples=2)
def checkpar(W):
    from lenstronomy.LensModel.lens_model import LensModel

    names = W.choice("names", [["SIS", "SHEAR"], ["SHEAR", "SIS"], ["SIS", "SIS", "NFW"]])
    kw = lens_kwargs(W, names)
    lm = LensModel(names)
    lm.check_parameters(kw)
    i = W.choice("which", [0, 1])
    bad = [dict(k) for k in kw]
    bad[i]["no_such"] = 1.0
    W.raises("an unknown parameter is rejected", lambda: lm.check_parameters(bad), ValueError)
    bad = [dict(k) for k in kw]
    bad[i].pop(sorted(bad[i])[0])
    W.raises("a missing parameter is rejected", lambda: lm.check_parameters(bad), ValueError)
    W.raises("a list of wrong length is rejected", lambda: lm.check_parameters(kw[:-1]), ValueError)


def _los_fermat(variant, index):
    @contract("C04", "%s.fermat.at%d" % (variant, index), ["LensModel/LineOfSight/single_plane_los.py::SinglePlaneLOS.fermat_potential"], samples=5)
    def body(W):
        """images are stationary points of the Fermat potential for line-of-sight distortions without rotation which commute"""
        from lenstronomy.LensModel.lens_model import LensModel

        names = ["SIS", "SHEAR"]
        full = list(names)
        full.insert(index, variant)
        x, y = xy(W, "scalar")
        kw = lens_kwargs(W, names)
        sfx = ["od", "los"] if variant == "LOS_MINIMAL" else ["od", "os", "ds"]
        los = {"%s_%s" % (q, s): W.real("%s_%s" % (q, s), -0.3, 0.3, (-0.15, 0.15)) for s in sfx for q in ("kappa", "gamma1", "gamma2")}
        for s in sfx:
            los["omega_" + s] = W.const(0)
            if variant == "LOS":
                los["gamma2_" + s] = W.const(0)
        kwf = [dict(k) for k in kw]
        kwf.insert(index, dict(los))
        with abstract_profiles(W, [ALL[n] for n in names], consistent=True):
            lm = LensModel(full)
            A = ((1 - los["kappa_od"] - los["gamma1_od"], -los["gamma2_od"]), (-los["gamma2_od"], 1 - los["kappa_od"] + los["gamma1_od"]))
            away(W, A[0][0] * x + A[0][1] * y, A[1][0] * x + A[1][1] * y, kw)
            away(W, x, y, kw)
            b = lm.ray_shooting(x, y, kwf)
            if W.sym:
                # gradient = A_od^T A_ds^-1 (ray-shot position - source position)
                sx, sy = W.real("sx"), W.real("sy")
                ds = "od" if variant == "LOS_MINIMAL" else "ds"
                m = [(1 - los["kappa_od"] + s * los["gamma1_od"]) / (1 - los["kappa_" + ds] + s * los["gamma1_" + ds]) if variant == "LOS" else 1 for s in (-1, 1)]
                W.eq_grad("gradient of the Fermat potential is proportional to the mismatch of the source", lambda u, v: lm.fermat_potential(u, v, kwf, sx, sy), (x, y), (m[0] * (b[0] - sx), m[1] * (b[1] - sy)))
                return
            W.eq_grad("images are stationary points of the Fermat potential", lambda u, v: lm.fermat_potential(u, v, kwf, b[0], b[1]), (x, y), (0.0, 0.0), 1e-5, 1e-5)
            W.eq("source position by default", lm.fermat_potential(x, y, kwf), lm.fermat_potential(x, y, kwf, b[0], b[1]), 1e-9, 1e-10)
            zero = [dict(k) for k in kw]
            zero.insert(index, {k: 0.0 for k in los})
            W.eq("no line of sight, no change", lm.fermat_potential(x, y, zero), LensModel(names).fermat_potential(x, y, kw), 1e-9, 1e-10)


for _v in ("LOS", "LOS_MINIMAL"):
    for _i in (0, 2):
        _los_fermat(_v, _i)


def _los_flexion(variant, index):
    @contract("C04", "%s.at%d" % (variant, index), ["LensModel/LineOfSight/single_plane_los_flexion.py::SinglePlaneLOSFlexion." + q for q in ("alpha", "hessian", "potential", "split_lens_los_flexion", "fermat_potential")], samples=5, sym=False)
    def body(W):
        """line-of-sight shear and flexion to first order: beta = theta_s - alpha(theta_d) - ds corrections; the Hessian is its Jacobian up to second order"""
        from lenstronomy.LensModel.lens_model import LensModel

        names = ["SIS", "SHEAR"]
        full = list(names)
        full.insert(index, variant)
        x, y = xy(W, "scalar")
        kw = lens_kwargs(W, names)
        away(W, x, y, kw)
        eps = 1e-4
        los = LensModel([variant])
        par = [n for n in los.lens_model.param_name_list[0]]
        vals = {n: eps * W.real(n, -1, 1, (-1, 1)) for n in par}
        if variant == "LOS_FLEXION_MINIMAL":
            g = dict(vals)
            for q in ("kappa", "gamma1", "gamma2", "omega", "F1", "F2", "G1", "G2"):
                g[q + "_os"] = vals[q + "_los"]
            for q in ("F1", "F2", "G1", "G2"):
                g[q + "_1ds"] = vals[q + "_1los"]
                g[q + "_2ds"] = vals[q + "_od"]
            for q in ("kappa", "gamma1", "gamma2"):
                g[q + "_ds"] = vals[q + "_od"]
        else:
            g = vals
        kwf = [dict(k) for k in kw]
        kwf.insert(index, dict(vals))
        lm, main = LensModel(full), LensModel(names)
        t = complex(x, y)
        cplx = lambda p, s: complex(g[p + "1_" + s], g[p + "2_" + s])

        def quadratic(s, u):
            return (cplx("F", s).conjugate() * u ** 2 + 2 * cplx("F", s) * abs(u) ** 2 + cplx("G", s) * u.conjugate() ** 2) / 2

        def beta(t):
            td = t - g["kappa_od"] * t - cplx("gamma", "od") * t.conjugate() - quadratic("od", t)
            m = complex(*main.alpha(td.real, td.imag, kw))
            a = complex(*main.alpha(t.real, t.imag, kw))
            F2, G2 = cplx("F", "2ds"), cplx("G", "2ds")
            corr = (g["kappa_ds"] + 2 * (F2.conjugate() * t).real) * a + (cplx("gamma", "ds") + F2 * t + G2 * t.conjugate()) * a.conjugate() - quadratic("1ds", a)
            os = (g["kappa_os"] + 1j * g["omega_os"]) * t + cplx("gamma", "os") * t.conjugate() + quadratic("os", t)
            return t - os - m + corr

        b = beta(t)
        got = lm.ray_shooting(x, y, kwf)
        W.eq("source position x", got[0], b.real, 1e-9, 1e-9)
        W.eq("source position y", got[1], b.imag, 1e-9, 1e-9)
        arr = lm.alpha(np.array([x, x]), np.array([y, y]), kwf)
        W.eq("array evaluation", arr[0], np.array([x - b.real] * 2), 1e-9, 1e-9)
        H = lm.hessian(x, y, kwf)
        H0 = main.hessian(x, y, kw)
        h = 1e-4
        ax = lambda u, v: np.array(lm.alpha(u, v, kwf)) - np.array(main.alpha(u, v, kw))
        dx, dy = (ax(x + h, y) - ax(x - h, y)) / (2 * h), (ax(x, y + h) - ax(x, y - h)) / (2 * h)
        scale = 1 / eps
        for n, hh, h0, w in (("xx", H[0], H0[0], dx[0]), ("xy", H[1], H0[1], dy[0]), ("yx", H[2], H0[2], dx[1]), ("yy", H[3], H0[3], dy[1])):
            W.eq("first-order Hessian correction " + n, (hh - h0) * scale, w * scale, 5e-2, 5e-2)
        W.eq("potential ignores the line of sight", lm.potential(x, y, kwf), main.potential(x, y, kw), 1e-10, 1e-12)
        zero = [dict(k) for k in kw]
        zero.insert(index, {k: 0.0 for k in vals})
        bx, by = main.ray_shooting(x, y, kw)
        W.eq("no line of sight, no change", lm.fermat_potential(x, y, zero), main.fermat_potential(x, y, kw), 1e-9, 1e-10)


for _v in ("LOS_FLEXION", "LOS_FLEXION_MINIMAL"):
    for _i in (0, 2):
        _los_flexion(_v, _i)


@contract("C04", "profile settings", ["LensModel/profile_list_base.py::ProfileListBase._load_model_instances", "LensModel/LineOfSight/single_plane_los.py::SinglePlaneLOS.__init__"], samples=4, sym=False)
def settings(W):
    """each component is evaluated with its own settings"""
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Profiles.gauss_decomposition import SersicEllipseGaussDec

    n = W.choice("n", [(6, 11), (12, 7)])
    x, y = xy(W, "scalar")
    W.assume(x ** 2 + y ** 2 > 0.1)
    ser = [dict(k_eff=W.real("k%d" % i, 0, None, (0.2, 1)), R_sersic=W.real("R%d" % i, 0, None, (0.5, 2)), n_sersic=2.0, e1=W.real("e1%d" % i, -0.3, 0.3), e2=0.1, center_x=0.0, center_y=0.1) for i in range(2)]
    sh = dict(gamma1=0.05, gamma2=0.02)
    los = W.choice("los", ["", "LOS", "LOS_MINIMAL", "LOS_FLEXION", "LOS_FLEXION_MINIMAL"])
    at = W.choice("at", [0, 1, 3])
    names = ["SERSIC_ELLIPSE_GAUSS_DEC", "SHEAR", "SERSIC_ELLIPSE_GAUSS_DEC"]
    kw = [ser[0], sh, ser[1]]
    pk = [{"n_sigma": n[0]}, {}, {"n_sigma": n[1]}]
    if los:
        names.insert(at, los)
        pk.insert(at, {})
        kw.insert(at, {q: 0.0 for q in LensModel([los]).lens_model.param_name_list[0]})
    lm = LensModel(names, profile_kwargs_list=pk)
    c = [SersicEllipseGaussDec(n_sigma=n[i]) for i in range(2)]
    a, H = lm.alpha(x, y, kw), lm.hessian(x, y, kw)
    for i, q in enumerate("xy"):
        W.eq("deflection %s with individual settings" % q, a[i], c[0].derivatives(x, y, **ser[0])[i] + c[1].derivatives(x, y, **ser[1])[i] + ((0.05 * x + 0.02 * y), (0.02 * x - 0.05 * y))[i], 1e-8, 1e-10)
    for i, q in enumerate(("xx", "xy", "yx", "yy")):
        W.eq("Hessian %s with individual settings" % q, H[i], c[0].hessian(x, y, **ser[0])[i] + c[1].hessian(x, y, **ser[1])[i] + (0.05, 0.02, 0.02, -0.05)[i], 1e-8, 1e-10)
    W.eq("potential with individual settings", lm.potential(x, y, kw), c[0].function(x, y, **ser[0]) + c[1].function(x, y, **ser[1]) + (0.05 * (x * x - y * y) / 2 + 0.02 * x * y), 1e-6, 1e-8)

"""C05: multi-plane ray tracing obeys the lens-plane recursion.

Specification (flat cosmology with comoving distances chi): a ray seen at angle theta crosses the
plane at chi_j at  X_j = chi_j theta - sum_{i<j} (chi_j - chi_i) a_i,   a_i the physical deflection of
plane i at X_i/chi_i,  a_i = D(0,zc)/D(z_i,zc) * alpha_i."""
import numpy as np
from lv.world import contract
from contracts.common import abstract_profiles, cosmology, ALL, lens_kwargs, get_class, swap

MPB = "LensModel/MultiPlane/multi_plane_base.py::MultiPlaneBase."
MP = "LensModel/MultiPlane/multi_plane.py::MultiPlane."
FN = [MPB + q for q in ("ray_shooting_partial_comoving", "_add_deflection", "set_T_zs_and_T_ijs", "_index_ordering", "transverse_distance_start_stop")] + [MP + "ray_shooting", MP + "alpha"]

# (names, redshifts, z_source, z_source_convention)
CONF = [
    (["SIS"], [0.5], 1.5, None),
    (["SIS", "SHEAR"], [0.8, 0.3], 1.5, 2.0),
    (["SIS", "NFW"], [0.5, 0.5], 1.2, None),
    (["NFW", "SIS", "SHEAR"], [0.9, 0.2, 0.5], 2.0, 3.0),
    (["SIS", "NFW", "SIS"], [0.4, 1.3, 0.4], 1.0, 2.0),
    (["SIS", "SIS", "PJAFFE"], [1.5, 0.7, 1.0], 1.0, 1.8),
    (["SHEAR", "SIS", "NFW", "SIS"], [0.6, 0.2, 0.6, 0.9], 1.4, 1.4),
    (["SIS", "SIS", "NFW"], [0.503, 0.502, 0.504], 1.5, None),
]


def setup(W, names, zs, z_s, z_c, extra=(), tag=""):
    z_c = z_c or z_s
    return cosmology(W, list(zs) + [z_s, z_c] + list(extra), tag)


def ang(cosmo, z1, z2):
    return cosmo.angular_diameter_distance(z2).value if z1 == 0 else cosmo.angular_diameter_distance_z1z2(z1, z2).value


def chi(cosmo, z):
    return 0 if z == 0 else ang(cosmo, 0, z) * (1 + z)


def defl(W, name, kw, x, y, what="derivatives"):
    return getattr(get_class(ALL[name])(), what)(x, y, **kw)


def trace(W, cosmo, names, zs, z_c, kw, tx, ty, z_stop, visit=None):
    """closed form; returns (X, Y, direction_x, direction_y, planes) at z_stop"""
    planes = []
    for i in sorted(range(len(zs)), key=lambda i: zs[i]):
        if zs[i] > z_stop:
            continue
        c = chi(cosmo, zs[i])
        X, Y = c * tx, c * ty
        for (zj, cj, ax, ay, _, _, _) in planes:
            X, Y = X - (c - cj) * ax, Y - (c - cj) * ay
        f = ang(cosmo, 0, z_c) / ang(cosmo, zs[i], z_c)
        if visit is not None:
            visit(i, X / c, Y / c)
        a = defl(W, names[i], kw[i], X / c, Y / c)
        planes.append((zs[i], c, f * a[0], f * a[1], X, Y, i))
    c = chi(cosmo, z_stop)
    X, Y, dx, dy = c * tx, c * ty, tx, ty
    for (zj, cj, ax, ay, _, _, _) in planes:
        X, Y = X - (c - cj) * ax, Y - (c - cj) * ay
        dx, dy = dx - ax, dy - ay
    return X, Y, dx, dy, planes


def safe(W, kw):
    """float world: keep traced rays away from profile centres"""
    def visit(i, x, y):
        k = kw[i]
        if "center_x" in k:
            W.assume(np.all((x - k["center_x"]) ** 2 + (y - k["center_y"]) ** 2 > 1e-2))
        if "Ra" in k:
            W.assume((k["Rs"] - k["Ra"]) ** 2 > 1e-3)
    return None if W.sym else visit


def xy(W, shape):
    if shape == "scalar":
        return W.real("x", None, None, (-2, 2)), W.real("y", None, None, (-2, 2))
    return W.array("x", 2, None, None, (-2, 2)), W.array("y", 2, None, None, (-2, 2))


def model(names, zs, z_s, z_c, cosmo, **kw):
    from lenstronomy.LensModel.lens_model import LensModel

    return LensModel(names, z_source=z_s, lens_redshift_list=list(zs), cosmo=cosmo, multi_plane=True, z_source_convention=z_c, **kw)


def _shoot(ci, shape):
    names, zs, z_s, z_c = CONF[ci]

    @contract("C05", "recursion.%s.%s" % ("+".join("%s@%s" % q for q in zip(names, zs)), shape), FN, samples=6,
              bounded="plane configurations as listed; profiles are arbitrary functions, cosmology is arbitrary and flat")
    def body(W):
        cosmo = setup(W, names, zs, z_s, z_c)
        tx, ty = xy(W, shape)
        kw = lens_kwargs(W, names)
        with abstract_profiles(W, [ALL[n] for n in set(names)]):
            X, Y, dx, dy, _ = trace(W, cosmo, names, zs, z_c or z_s, kw, tx, ty, z_s, safe(W, kw))
            lm = model(names, zs, z_s, z_c, cosmo)
            cs = chi(cosmo, z_s)
            bx, by = lm.ray_shooting(tx, ty, kw)
            W.eq("source position x", bx, X / cs)
            W.eq("source position y", by, Y / cs)
            a = lm.alpha(tx, ty, kw)
            W.eq("deflection x", a[0], tx - X / cs)
            W.eq("deflection y", a[1], ty - Y / cs)
            W.shape("shape", bx, np.shape(tx))
            p = lm.lens_model.ray_shooting_partial_comoving(0 * tx, 0 * ty, tx, ty, 0, z_s, kw)
            for n, u, v in (("X", p[0], X), ("Y", p[1], Y), ("direction x", p[2], dx), ("direction y", p[3], dy)):
                W.eq("comoving " + n, u, v)
            W.raises("a subset of planes is refused", lambda: lm.ray_shooting(tx, ty, kw, k=0), ValueError)
            W.raises("a subset of planes is refused for the deflection", lambda: lm.alpha(tx, ty, kw, k=0), ValueError)
            W.raises("a subset of planes is refused for the Hessian", lambda: lm.hessian(tx, ty, kw, k=0), ValueError)


for _i in range(len(CONF)):
    for _s in ("scalar", "array"):
        _shoot(_i, _s)


def _order(ci):
    names, zs, z_s, z_c = CONF[ci]
    n = len(names)

    @contract("C05", "order.%d" % ci, FN, samples=5)
    def body(W):
        """listing the components in another order does not matter"""
        perm = W.choice("perm", {2: [[1, 0]], 3: [[1, 0, 2], [2, 0, 1], [2, 1, 0]], 4: [[3, 1, 0, 2], [1, 2, 3, 0], [3, 2, 1, 0]]}[n])
        cosmo = setup(W, names, zs, z_s, z_c)
        tx, ty = xy(W, "scalar")
        kw = lens_kwargs(W, names)
        with abstract_profiles(W, [ALL[q] for q in set(names)]):
            if not W.sym:
                trace(W, cosmo, names, zs, z_c or z_s, kw, tx, ty, z_s, safe(W, kw))
            a = model(names, zs, z_s, z_c, cosmo)
            P = lambda l: [l[i] for i in perm]
            b = model(P(names), P(zs), z_s, z_c, cosmo)
            for i, n_ in enumerate("xy"):
                W.eq("source position %s does not depend on the order" % n_, a.ray_shooting(tx, ty, kw)[i], b.ray_shooting(tx, ty, P(kw))[i])
            W.eq("arrival time does not depend on the order", a.arrival_time(tx, ty, kw), b.arrival_time(tx, ty, P(kw)), 1e-6, 1e-6)


for _i in range(1, len(CONF)):
    _order(_i)


def _partial(ci):
    names, zs, z_s, z_c = CONF[ci]

    @contract("C05", "partial.%d" % ci, FN + [MPB + "ray_shooting_partial", MP + "ray_shooting_partial"], samples=6)
    def body(W):
        """shooting to an intermediate redshift and on equals shooting through"""
        zm = W.choice("zm", [0.1] + sorted(set(zs)) + [0.45, 0.95])
        zm = min(zm, z_s)
        cosmo = setup(W, names, zs, z_s, z_c, [zm, 0.1])
        tx, ty = xy(W, "scalar")
        kw = lens_kwargs(W, names)
        with abstract_profiles(W, [ALL[n] for n in set(names)]):
            X, Y, dx, dy, pl = trace(W, cosmo, names, zs, z_c or z_s, kw, tx, ty, z_s, safe(W, kw))
            Xm, Ym, dxm, dym, _ = trace(W, cosmo, names, zs, z_c or z_s, kw, tx, ty, zm)
            mp = model(names, zs, z_s, z_c, cosmo).lens_model
            p = mp.ray_shooting_partial_comoving(0 * tx, 0 * ty, tx, ty, 0, zm, kw)
            for n, u, v in (("X", p[0], Xm), ("Y", p[1], Ym), ("direction x", p[2], dxm), ("direction y", p[3], dym)):
                W.eq("first leg, " + n, u, v)
            keep = [W.array("keep", 1), None]
            q = mp.ray_shooting_partial_comoving(p[0], p[1], p[2], p[3], zm, z_s, kw)
            for n, u, v in (("X", q[0], X), ("Y", q[1], Y), ("direction x", q[2], dx), ("direction y", q[3], dy)):
                W.eq("second leg, " + n, u, v)
            # angles, and the variant which includes the planes at the start
            cm = chi(cosmo, zm)
            excl = [i for i in range(len(zs)) if zs[i] < zm]
            zb = 0.1
            Xb, Yb, dxb, dyb, _ = trace(W, cosmo, [names[i] for i in excl], [zs[i] for i in excl], z_c or z_s, [kw[i] for i in excl], tx, ty, zm)
            r = mp.ray_shooting_partial(Xb / cm, Yb / cm, dxb, dyb, zm, z_s, kw, include_z_start=True)
            cs = chi(cosmo, z_s)
            for n, u, v in (("x", r[0], X / cs), ("y", r[1], Y / cs), ("direction x", r[2], dx), ("direction y", r[3], dy)):
                W.eq("angles including the start plane, " + n, u, v)
            t = mp.transverse_distance_start_stop(zm, z_s)
            r = mp.ray_shooting_partial(p[0] / cm, p[1] / cm, p[2], p[3], zm, z_s, kw, T_ij_start=t[0], T_ij_end=t[1])
            W.eq("precomputed distances x", r[0], X / cs)
            W.eq("precomputed distances y", r[1], Y / cs)


for _i in range(len(CONF)):
    _partial(_i)


def _hess(ci):
    names, zs, z_s, z_c = CONF[ci]

    @contract("C05", "hessian.%d" % ci, [MP + "hessian"], samples=5)
    def body(W):
        cosmo = setup(W, names, zs, z_s, z_c)
        tx, ty = xy(W, "scalar")
        kw = lens_kwargs(W, names)
        with abstract_profiles(W, [ALL[n] for n in set(names)]):
            if not W.sym:
                trace(W, cosmo, names, zs, z_c or z_s, kw, tx, ty, z_s, safe(W, kw))
            lm = model(names, zs, z_s, z_c, cosmo)
            H = lm.hessian(tx, ty, kw)
            W.eq_fd("row x of the Hessian", lambda u, v: lm.alpha(u, v, kw)[0], (tx, ty), (H[0], H[1]))
            W.eq_fd("row y of the Hessian", lambda u, v: lm.alpha(u, v, kw)[1], (tx, ty), (H[2], H[3]))


for _i in range(len(CONF)):
    _hess(_i)


def _delay(ci):
    names, zs, z_s, z_c = CONF[ci]

    @contract("C05", "delay.%d" % ci, [MPB + q for q in ("geo_shapiro_delay", "_geometrical_delay", "_gravitational_delay", "_lensing_potential2time_delay")] + [MP + "arrival_time"], samples=6)
    def body(W):
        """the delay is the sum of geometric delays between consecutive planes and potential delays"""
        from lenstronomy.Util import constants as const

        cosmo = setup(W, names, zs, z_s, z_c)
        tx, ty = xy(W, "scalar")
        kw = lens_kwargs(W, names)
        zc = z_c or z_s
        with abstract_profiles(W, [ALL[n] for n in set(names)]):
            X, Y, dx, dy, pl = trace(W, cosmo, names, zs, zc, kw, tx, ty, z_s, safe(W, kw))
            unit = lambda d: d * const.Mpc / const.c / const.day_s * const.arcsec ** 2
            geo = grav = 0 * tx
            last = None
            for z, c, ax, ay, px, py, i in pl:
                pot = defl(W, names[i], kw[i], px / c, py / c, "function")
                ddt = (1 + z) * ang(cosmo, 0, z) * ang(cosmo, 0, zc) / ang(cosmo, z, zc)
                grav = grav - ddt * pot
                if last is not None and last[0] < z:
                    geo = geo + last[1] * c / (c - last[1]) * ((px / c - last[2] / last[1]) ** 2 + (py / c - last[3] / last[1]) ** 2) / 2
                last = (z, c, px, py)
            c = chi(cosmo, z_s)
            if last is not None and last[0] < z_s:
                geo = geo + last[1] * c / (c - last[1]) * ((X / c - last[2] / last[1]) ** 2 + (Y / c - last[3] / last[1]) ** 2) / 2
            lm = model(names, zs, z_s, z_c, cosmo)
            t = lm.lens_model.geo_shapiro_delay(tx, ty, kw)
            W.eq("geometric delay", t[0], unit(geo), 1e-7, 1e-6)
            W.eq("potential delay", t[1], unit(grav), 1e-7, 1e-6)
            W.eq("arrival time", lm.arrival_time(tx, ty, kw), unit(geo + grav), 1e-7, 1e-6)


for _i in range(len(CONF)):
    _delay(_i)


def _single(names):
    @contract("C05", "single_plane.%s" % "+".join(names), FN, samples=6)
    def body(W):
        """all components on one plane: the multi-plane model is the single-plane model"""
        from lenstronomy.LensModel.lens_model import LensModel

        cosmo = cosmology(W, [0.5, 1.5])
        tx, ty = xy(W, "scalar")
        kw = lens_kwargs(W, names)
        with abstract_profiles(W, [ALL[n] for n in set(names)]):
            if not W.sym:
                for i in range(len(names)):
                    safe(W, kw)(i, tx, ty)
            a = model(names, [0.5] * len(names), 1.5, None, cosmo)
            b = LensModel(names, z_lens=0.5, z_source=1.5, cosmo=cosmo)
            for i, n in enumerate("xy"):
                W.eq("deflection %s equals the single-plane one" % n, a.alpha(tx, ty, kw)[i], b.alpha(tx, ty, kw)[i])
            W.eq("arrival time equals the single-plane one", a.arrival_time(tx, ty, kw), b.arrival_time(tx, ty, kw), 1e-7, 1e-6)
            a = model(names, [0.5] * len(names), 1.5, None, cosmo, z_lens=0.5)
            W.eq("Fermat potential equals the single-plane one", a.fermat_potential(tx, ty, kw), b.fermat_potential(tx, ty, kw), 1e-7, 1e-6)


for _n in (["SIS"], ["SIS", "SHEAR"], ["NFW", "SHEAR", "SIS"]):
    _single(_n)


def _observed(ci, inds):
    names, zs, z_s, z_c = CONF[ci]

    @contract("C05", "observed_position.%d.%s" % (ci, inds), ["LensModel/MultiPlane/multi_plane.py::LensedLocation.__call__", MP + "observed2flat_convention"], samples=6)
    def body(W):
        """a deflector given by its observed position sits where the ray of that direction crosses its plane"""
        cosmo = setup(W, names, zs, z_s, z_c)
        tx, ty = xy(W, "scalar")
        kw = lens_kwargs(W, names)
        orig = [dict(k) for k in kw]
        flat = [dict(k) for k in kw]
        with abstract_profiles(W, [ALL[n] for n in set(names)]):
            for i in sorted(inds, key=lambda i: zs[i]):
                front = [j for j in range(len(zs)) if zs[j] < zs[i]]
                sel = lambda l: [l[j] for j in front]
                X, Y, _, _, _ = trace(W, cosmo, sel(names), sel(zs), z_c or z_s, sel(flat), kw[i]["center_x"], kw[i]["center_y"], zs[i], safe(W, sel(flat)))
                c = chi(cosmo, zs[i])
                flat[i]["center_x"], flat[i]["center_y"] = X / c, Y / c
            lm = model(names, zs, z_s, z_c, cosmo, observed_convention_index=list(inds))
            got = lm.lens_model.observed2flat_convention(kw)
            for i in range(len(names)):
                for k in kw[i]:
                    W.eq("flat position of the deflectors", got[i][k], flat[i][k])
            X, Y, dx, dy, _ = trace(W, cosmo, names, zs, z_c or z_s, flat, tx, ty, z_s, safe(W, flat))
            b = lm.ray_shooting(tx, ty, kw)
            cs = chi(cosmo, z_s)
            W.eq("source position x with observed positions", b[0], X / cs)
            W.eq("source position y with observed positions", b[1], Y / cs)
            ref = model(names, zs, z_s, z_c, cosmo)
            W.eq("arrival time with observed positions", lm.arrival_time(tx, ty, kw), ref.arrival_time(tx, ty, flat), 1e-7, 1e-5)
            a = lm.alpha(tx, ty, kw)
            W.eq("deflection x with observed positions", a[0], tx - X / cs)
            W.eq("deflection y with observed positions", a[1], ty - Y / cs)
            h = W.const(1e-3)
            H, G = lm.hessian(tx, ty, kw, diff=h), ref.hessian(tx, ty, flat, diff=h)
            for i in range(4):
                W.eq("Hessian with observed positions", H[i], G[i], 1e-6, 1e-8)
            W.same("parameters are not modified", kw, orig)
            M = lm.lens_model
            T, G = ref.arrival_time(tx, ty, flat), ref.lens_model.hessian(tx, ty, flat, diff=h)

            def all_flat(what, par, **c):
                """every quantity of the model is the one of the flat positions"""
                q = M.ray_shooting(tx, ty, par, **c)
                W.eq("%s: source position x" % what, q[0], X / cs)
                W.eq("%s: source position y" % what, q[1], Y / cs)
                q = M.alpha(tx, ty, par, **c)
                W.eq("%s: deflection x" % what, q[0], tx - X / cs)
                W.eq("%s: deflection y" % what, q[1], ty - Y / cs)
                q = M.hessian(tx, ty, par, diff=h, **c)
                for i in range(4):
                    W.eq("%s: Hessian" % what, q[i], G[i], 1e-6, 1e-8)
                W.eq("%s: arrival time" % what, M.arrival_time(tx, ty, par, **c), T, 1e-7, 1e-5)
                q = M.geo_shapiro_delay(tx, ty, par, **c)
                W.eq("%s: geometric and gravitational delay" % what, q[0] + q[1], T, 1e-7, 1e-5)
                z = W.const(0)
                q = M.ray_shooting_partial_comoving(z, z, tx, ty, 0, z_s, par, **c)
                W.eq("%s: comoving position x" % what, q[0], X)
                W.eq("%s: comoving position y" % what, q[1], Y)

            all_flat("observed convention", kw)
            all_flat("flat convention", flat, check_convention=False)
            st = lm.set_static(kw)
            all_flat("static", st)
            b = lm.ray_shooting(tx, ty, st)
            W.eq("static source position x", b[0], X / cs)
            W.eq("static source position y", b[1], Y / cs)
            lm.set_dynamic()
            b = lm.ray_shooting(tx, ty, kw)
            W.eq("source position x after leaving static mode", b[0], X / cs)
            W.eq("source position y after leaving static mode", b[1], Y / cs)


for _c, _i in ((1, [0]), (3, [0]), (3, [0, 1]), (4, [1]), (5, [2]), (6, [1, 3])):
    _observed(_c, _i)


def _z1z2(ci):
    names, zs, z_s, z_c = CONF[ci]

    @contract("C05", "hessian_z1z2.%d" % ci, [MP + "hessian_z1z2", "LensModel/lens_model.py::LensModel.hessian_z1z2"], samples=6)
    def body(W):
        z1, z2 = W.choice("z12", [(0.1, z_s), (0.3, 0.85), (min(zs), z_s)])
        cosmo = setup(W, names, zs, z_s, z_c, [z1, z2])
        tx, ty = xy(W, "scalar")
        kw = lens_kwargs(W, names)
        h = W.const(1e-4 if not W.sym else 1e-8)
        with abstract_profiles(W, [ALL[n] for n in set(names)]):
            lm = model(names, zs, z_s, z_c, cosmo)
            c1, c2 = chi(cosmo, z1), chi(cosmo, z2)
            zc = z_c or z_s

            def beta(u, v):
                X0, Y0 = tx * c1, ty * c1
                pl = []
                for i in sorted(range(len(zs)), key=lambda i: zs[i]):
                    if not z1 < zs[i] <= z2:
                        continue
                    c = chi(cosmo, zs[i])
                    X, Y = X0 + (c - c1) * u, Y0 + (c - c1) * v
                    for cj, ax, ay in pl:
                        X, Y = X - (c - cj) * ax, Y - (c - cj) * ay
                    if not W.sym:
                        safe(W, kw)(i, X / c, Y / c)
                    a = defl(W, names[i], kw[i], X / c, Y / c)
                    f = ang(cosmo, 0, zc) / ang(cosmo, zs[i], zc)
                    pl.append((c, f * a[0], f * a[1]))
                X, Y = X0 + (c2 - c1) * u, Y0 + (c2 - c1) * v
                for cj, ax, ay in pl:
                    X, Y = X - (c2 - cj) * ax, Y - (c2 - cj) * ay
                return X / (c2 - c1), Y / (c2 - c1)

            H = lm.hessian_z1z2(z1, z2, tx, ty, kw, diff=h)
            b0, bx, by = beta(tx, ty), beta(tx + h, ty), beta(tx, ty + h)
            want = (1 - (bx[0] - b0[0]) / h, -(by[0] - b0[0]) / h, -(bx[1] - b0[1]) / h, 1 - (by[1] - b0[1]) / h)
            for i, n in enumerate(("xx", "xy", "yx", "yy")):
                W.eq("Hessian %s between the redshifts" % n, H[i], want[i], 1e-5, 1e-6)
            W.raises("z1 >= z2 is refused", lambda: lm.hessian_z1z2(z2, z1, tx, ty, kw), ValueError)


for _c in (1, 3, 4):
    _z1z2(_c)


def _history(ci):
    names, zs, z_s, z_c = CONF[ci]

    @contract("C05", "change.%d" % ci, ["LensModel/lens_model.py::LensModel.change_source_redshift", "LensModel/lens_model.py::LensModel.update_cosmology", MP + "update_source_redshift", MP + "set_background_cosmo"], samples=6)
    def body(W):
        """changing source redshift or cosmology gives the model built for them"""
        z_new = W.choice("z_new", [0.35, 0.7, 1.0, 1.3])
        how = W.choice("how", ["change", "twice", "update", "cosmo", "cosmo+z", "background"])
        zc = z_c or z_s
        if z_new > zc:
            z_new = zc
        extra = [z_new, 0.9]
        old = setup(W, names, zs, z_s, z_c, extra)
        new = setup(W, names, zs, z_s, z_c, extra, "_new") if "cosmo" in how or how == "background" else old
        tx, ty = xy(W, "scalar")
        kw = lens_kwargs(W, names)
        with abstract_profiles(W, [ALL[n] for n in set(names)]):
            lm = model(names, zs, z_s, zc, old, z_lens=zs[0])
            target = z_s
            if how == "twice":
                lm.change_source_redshift(min(0.9, zc))
            if how in ("change", "twice"):
                lm.change_source_redshift(z_new)
                target = z_new
            elif how == "update":
                lm.lens_model.update_source_redshift(z_new)
                target = z_new
            elif how == "cosmo":
                lm.update_cosmology(new)
            elif how == "cosmo+z":
                lm.change_source_redshift(z_new)
                lm.update_cosmology(new)
                target = z_new
            else:
                lm.lens_model.set_background_cosmo(new)
            X, Y, dx, dy, _ = trace(W, new, names, zs, zc, kw, tx, ty, target, safe(W, kw))
            cs = chi(new, target)
            b = lm.ray_shooting(tx, ty, kw)
            W.eq("source position x of the changed model", b[0], X / cs)
            W.eq("source position y of the changed model", b[1], Y / cs)
            fresh = model(names, zs, target, zc, new, z_lens=zs[0])
            W.eq("arrival time of the changed model", lm.arrival_time(tx, ty, kw), fresh.arrival_time(tx, ty, kw), 1e-7, 1e-5)
            if how in ("change", "twice", "cosmo", "cosmo+z") and zs[0] < target:
                W.eq("time-delay distance scaling of the changed model", lm.ddt_scaling, fresh.ddt_scaling)
                W.eq("Fermat potential of the changed model", lm.fermat_potential(tx, ty, kw), fresh.fermat_potential(tx, ty, kw), 1e-7, 1e-7)


for _c in (0, 1, 3, 4):
    _history(_c)


@contract("C05", "refuses", [MPB + "__init__", MP + "__init__", "LensModel/lens_model.py::LensModel.__init__"], samples=3)
def refuses(W):
    from lenstronomy.LensModel.lens_model import LensModel

    cosmo = cosmology(W, [0.5, 1.0, 2.0])
    W.raises("a deflector behind the convention redshift is refused", lambda: LensModel(["SIS", "SIS"], z_source=1.0, lens_redshift_list=[0.5, 1.0], multi_plane=True, cosmo=cosmo), ValueError)
    W.raises("missing redshifts are refused", lambda: LensModel(["SIS"], z_source=1.0, multi_plane=True, cosmo=cosmo), ValueError)
    W.raises("a missing source redshift is refused", lambda: LensModel(["SIS"], lens_redshift_list=[0.5], multi_plane=True, cosmo=cosmo), ValueError)
    W.raises("redshift list of wrong length is refused", lambda: LensModel(["SIS", "SIS"], z_source=1.0, lens_redshift_list=[0.5], multi_plane=True, cosmo=cosmo), ValueError, IndexError)
    lm = LensModel([], z_source=1.0, lens_redshift_list=[], multi_plane=True, cosmo=cosmo)
    x, y = xy(W, "scalar")
    W.eq("no deflector", lm.ray_shooting(x, y, [])[0], x)


def _quad(ci):
    names, zs, nv, z_d, z_s = [(["SIS", "SHEAR", "NFW", "SIS", "PJAFFE"], [0.5, 0.5, 0.3, 0.9, 0.5], 2, 0.5, 1.5),
                               (["SIS", "SHEAR"], [0.5, 0.5], 2, 0.5, 1.2),
                               (["SIS", "SHEAR", "NFW", "SIS"], [0.6, 0.6, 0.6, 0.2], 3, 0.6, 2.0)][ci]
    QF = "LensModel/QuadOptimizer/multi_plane_fast.py::MultiplaneFast."

    @contract("C05", "rays split at the main deflector.%d" % ci, [QF + "ray_shooting_fast", QF + "_ray_shooting_fast_foreground", QF + "__init__"] + FN, samples=6, bounded="plane configurations as listed, two images")
    def body(W):
        """tracing the foreground once and the rest for each set of parameters of the main deflector is the full ray tracing"""
        from lenstronomy.LensModel.QuadOptimizer.multi_plane_fast import MultiplaneFast

        cosmo = setup(W, names, zs, z_s, None)
        tx, ty = xy(W, "array")
        kw = lens_kwargs(W, names)

        class Par:
            to_vary_index = nv
            kwargs_lens = kw
        with abstract_profiles(W, [ALL[n] for n in set(names)]):
            F = MultiplaneFast(tx, ty, z_d, z_s, names, zs, cosmo, Par(), None)
            kw2 = lens_kwargs(W, names[:nv], "other") + kw[nv:]
            for n, k in (("", kw), (" with other parameters", kw2), (" again", kw)):
                X, Y, _, _, _ = trace(W, cosmo, names, zs, z_s, k, tx, ty, z_s, safe(W, k))
                b = F.ray_shooting_fast(tx, ty, k)
                W.eq("source x" + n, b[0], X / chi(cosmo, z_s))
                W.eq("source y" + n, b[1], Y / chi(cosmo, z_s))


for _i in range(3):
    _quad(_i)


@contract("C05", "decoupled", ["LensModel/MultiPlane/decoupled_multi_plane.py::MultiPlaneDecoupled.ray_shooting"], samples=8)
def decoupled(W):
    """the decoupled model with exact foreground/background maps"""
    from lenstronomy.LensModel.lens_model import LensModel

    names = ["SIS", "SHEAR"]
    z_d, z_s = 0.5, 1.5
    cosmo = cosmology(W, [z_d, z_s])
    tx, ty = xy(W, "scalar")
    kw = lens_kwargs(W, names)
    fs = {n: W.uf("map." + n, 2) for n in ("x0", "y0", "afx", "afy", "abx", "aby")}
    call = lambda n: (lambda c: fs[n](c[0], c[1]))
    with abstract_profiles(W, [ALL[n] for n in names]):
        lm = LensModel(names, z_source=z_s, lens_redshift_list=[z_d, z_d], multi_plane=True, cosmo=cosmo, decouple_multi_plane=True,
                       kwargs_multiplane_model=dict(x0_interp=call("x0"), y0_interp=call("y0"), alpha_x_interp_foreground=call("afx"), alpha_y_interp_foreground=call("afy"),
                                                    alpha_x_interp_background=call("abx"), alpha_y_interp_background=call("aby"), z_split=z_d))
        cd, cs = chi(cosmo, z_d), chi(cosmo, z_s)
        x0, y0 = fs["x0"](tx, ty), fs["y0"](tx, ty)
        ax = ay = 0
        for n, k in zip(names, kw):
            if not W.sym and "center_x" in k:
                W.assume((x0 / cd - k["center_x"]) ** 2 + (y0 / cd - k["center_y"]) ** 2 > 1e-2)
            d = defl(W, n, k, x0 / cd, y0 / cd)
            ax, ay = ax + d[0], ay + d[1]
        f = ang(cosmo, 0, z_s) / ang(cosmo, z_d, z_s)
        b = lm.ray_shooting(tx, ty, kw)
        W.eq("source x of the decoupled model", b[0], (x0 + (fs["afx"](tx, ty) - f * ax + fs["abx"](tx, ty)) * (cs - cd)) / cs)
        W.eq("source y of the decoupled model", b[1], (y0 + (fs["afy"](tx, ty) - f * ay + fs["aby"](tx, ty)) * (cs - cd)) / cs)


def _ratio(ci):
    names, zs, z_s, _ = CONF[ci]

    @contract("C05", "distance ratios.%d" % ci, ["ImSim/multiplane_organizer.py::MultiPlaneOrganizer", "ImSim/image2source_mapping.py::Image2SourceMapping"], samples=5)
    def body(W):
        """sampling distance ratios at their fiducial values is the model of the fiducial cosmology"""
        from lenstronomy.LightModel.light_model import LightModel
        from lenstronomy.ImSim.image2source_mapping import Image2SourceMapping

        zmid = W.choice("z_mid", [0.45, 0.95, z_s])
        src = [zmid, z_s] if zmid != z_s else [z_s, z_s]
        order = W.choice("order", [0, 1])
        if order:
            src = src[::-1]
        cosmo = setup(W, names, zs, z_s, None, [zmid])
        tx, ty = xy(W, "scalar")
        kw = lens_kwargs(W, names)
        n = len(set(list(zs) + src)) - 1
        fac = {"factor_beta_%d_%d" % (i, j): 1 for j in range(1, n + 1) for i in range(1, j)}
        with abstract_profiles(W, [ALL[q] for q in set(names)]):
            trace(W, cosmo, names, zs, z_s, kw, tx, ty, z_s, safe(W, kw))
            lm = model(names, zs, z_s, z_s, cosmo, distance_ratio_sampling=True)
            ref = model(names, zs, z_s, z_s, cosmo)
            m = Image2SourceMapping(lm, LightModel(["SERSIC"] * 2, source_redshift_list=src))
            m.update_distances(fac)
            for i, q in enumerate("xy"):
                W.eq("source position %s at fiducial ratios" % q, lm.ray_shooting(tx, ty, kw)[i], ref.ray_shooting(tx, ty, kw)[i])
            W.eq("arrival time at fiducial ratios", lm.arrival_time(tx, ty, kw), ref.arrival_time(tx, ty, kw), 1e-7, 1e-5)
            for k in (0, 1):
                X, Y, _, _, _ = trace(W, cosmo, names, zs, z_s, kw, tx, ty, src[k])
                c = chi(cosmo, src[k])
                b = m.image2source(tx, ty, kw, index_source=k, kwargs_special=fac)
                W.eq("source plane position x at fiducial ratios", b[0], X / c)
                W.eq("source plane position y at fiducial ratios", b[1], Y / c)
            if src[0] != src[1]:
                ref_map = Image2SourceMapping(ref, LightModel(["SERSIC"] * 2, source_redshift_list=src))
                for what in ("T_ij_start_list", "T_ij_end_list"):
                    for a, b in zip(getattr(m, what), getattr(ref_map, what)):
                        if a is not None and b is not None:
                            W.eq("distances between source planes at fiducial ratios", a, b, 1e-9, 1e-9)


for _c in (1, 2, 3, 6):
    _ratio(_c)


def _setup_decoupled(kind):
    @contract("C05", "decoupled setup.%s" % kind, ["LensModel/Util/decouple_multi_plane_util.py::" + q for q in ("setup_lens_model", "coordinates_and_deflections", "decoupled_multiplane_class_setup", "setup_grids", "setup_raytracing_lensmodels")], samples=6,
              sym=kind == "POINT")
    def body(W):
        """the decoupled model reproduces the full multi-plane model at the points it was set up for"""
        from lenstronomy.LensModel.lens_model import LensModel
        from lenstronomy.LensModel.Util import decouple_multi_plane_util as util

        conf = W.choice("conf", [(["SIS", "SIS", "SHEAR"], [0.3, 0.5, 0.5], [1, 2]), (["NFW", "SIS", "SIS"], [0.5, 0.5, 0.9], [1]), (["SIS", "NFW", "SHEAR", "SIS"], [0.5, 0.2, 0.5, 0.8], [0, 2]),
                                  (["SIS", "SIS"], [0.5, 0.8], [0])])
        names, zs, free = conf
        z_s = 1.5
        cosmo = setup(W, names, zs, z_s, None)
        kw = lens_kwargs(W, names)
        n = 1 if kind in ("POINT", "GRID") else 3
        tx, ty = W.array("x", n, None, None, (-2, 2)), W.array("y", n, None, None, (-2, 2))
        with abstract_profiles(W, [ALL[q] for q in set(names)]):
            for i in range(n):
                trace(W, cosmo, names, zs, z_s, kw, tx[i], ty[i], z_s, safe(W, kw))
            lm = model(names, zs, z_s, None, cosmo)
            if kind == "GRID":
                lms, kws = util.setup_raytracing_lensmodels(tx, ty, lm, kw, free, 0.04, 0.01)
                dec = lms[0]
                want = lm.ray_shooting(tx, ty, kw)
                tol = (1e-6, 1e-7)
            else:
                fixed, fr, kwx, kwf, zso, zsp, bkg = util.setup_lens_model(lm, kw, free)
                W.same("source redshift", zso, z_s)
                W.same("redshift of the split", zsp, 0.5)
                W.same("free components", [names[i] for i in free], list(fr.lens_model_list))
                maps = util.coordinates_and_deflections(fixed, fr, kwx, kwf, tx, ty, zsp, zso, bkg)
                extra = dict(x_image=tx, y_image=ty) if kind == "MULTIPLE_IMAGES" else {}
                dec = LensModel(**util.decoupled_multiplane_class_setup(fr, *maps, zsp, coordinate_type=kind, **extra))
                want = lm.ray_shooting(tx, ty, kw)
                tol = (1e-9, 1e-9)
            got = dec.ray_shooting(tx, ty, [kw[i] for i in free])
            for i, q in enumerate("xy"):
                W.eq("source position %s of the decoupled model is that of the full model" % q, got[i], want[i], *tol)


for _k in ("POINT", "MULTIPLE_IMAGES", "GRID"):
    _setup_decoupled(_k)


@contract("C05", "profile settings", [MPB + "__init__", "LensModel/profile_list_base.py::ProfileListBase._load_model_instances"], samples=3, sym=False)
def settings(W):
    """each component is evaluated with its own settings"""
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Profiles.gauss_decomposition import SersicEllipseGaussDec

    n = W.choice("n", [(6, 11), (12, 7)])
    tx, ty = xy(W, "scalar")
    ser = [dict(k_eff=W.real("k%d" % i, 0, None, (0.2, 1)), R_sersic=W.real("R%d" % i, 0, None, (0.5, 2)), n_sersic=2.0, e1=W.real("e1%d" % i, -0.3, 0.3), e2=0.1, center_x=0.0, center_y=0.1) for i in range(2)]
    cosmo = cosmology(W, [0.3, 0.6, 1.5])
    W.assume(tx ** 2 + ty ** 2 > 0.1)
    lm = LensModel(["SERSIC_ELLIPSE_GAUSS_DEC", "SHEAR", "SERSIC_ELLIPSE_GAUSS_DEC"], lens_redshift_list=[0.6, 0.6, 0.6], z_source=1.5, cosmo=cosmo, multi_plane=True,
                   profile_kwargs_list=[{"n_sigma": n[0]}, {}, {"n_sigma": n[1]}])
    sh = dict(gamma1=0.05, gamma2=0.02)
    a = lm.alpha(tx, ty, [ser[0], sh, ser[1]])
    for i, q in enumerate("xy"):
        want = SersicEllipseGaussDec(n_sigma=n[0]).derivatives(tx, ty, **ser[0])[i] + SersicEllipseGaussDec(n_sigma=n[1]).derivatives(tx, ty, **ser[1])[i] + ((0.05 * tx + 0.02 * ty), (0.02 * tx - 0.05 * ty))[i]
        W.eq("deflection %s with individual settings" % q, a[i], want, 1e-8, 1e-10)

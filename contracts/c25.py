"""C25: quantities derived from lens and light models follow from the models.

Where the derivation is algebraic the lens is an arbitrary one (uninterpreted deflection, Hessian, convergence).
Where it is numerical (eigenvectors, contours, grids, quadrature) the contract is executed on random models and compared
with the defining relation; these are labelled bounded and are not counted as proved."""
import copy
import numpy as np
from lv.world import contract
from contracts.common import swap

EX = "LensModel/lens_model_extensions.py::LensModelExtensions."
LP = "Analysis/lens_profile.py::LensProfileAnalysis."
LI = "Analysis/light_profile.py::LightProfileAnalysis."
AU = "Util/analysis_util.py::"
MU = "Util/mask_util.py::"
CI = "LensModel/convergence_integrals.py::"


class Lens:
    """an arbitrary lens model; quantities are functions of position, parameters and the selected components"""
    lens_model_list = ["A", "B"]

    def __init__(self, W):
        self.W = W

    def f(self, name, x, y, kw, k=None):
        tag = "all" if k is None else "_".join(str(q) for q in np.atleast_1d(k))
        g = self.W.uf("%s_%s" % (name, tag), 2 + len(kw))
        p = [c["p"] for c in kw]
        if np.ndim(x) == 0:
            return g(x, y, *p)
        return self.W._arr1([g(a, b, *p) for a, b in zip(x, y)])

    def ray_shooting(self, x, y, kwargs, k=None):
        return self.f("bx", x, y, kwargs, k), self.f("by", x, y, kwargs, k)

    def alpha(self, x, y, kwargs, k=None, diff=None):
        return self.f("ax", x, y, kwargs, k), self.f("ay", x, y, kwargs, k)

    def hessian(self, x, y, kwargs, k=None, diff=None, diff_method="square"):
        h = [self.f("h" + c, x, y, kwargs, k) for c in ("xx", "xy", "yy")]
        return h[0], h[1], h[1], h[2]

    def kappa(self, x, y, kwargs, k=None, diff=None, diff_method="square"):
        return self.f("kappa", x, y, kwargs, k)


def arb(W):
    return Lens(W), [{"p": W.real("p0"), "center_x": W.real("c0"), "center_y": W.real("c1")}, {"p": W.real("p1")}]


# ------------------------------------------------------------------ masks
@contract("C25", "regions of masks", [MU + m for m in ("mask_azimuthal", "mask_center_2d", "mask_ellipse", "mask_eccentric", "mask_shell")], samples=10, max_paths=400, timeout=100, bounded="two positions")
def _masks(W):
    from lenstronomy.Util import mask_util as M

    n = 2
    x, y = W.array("x", n), W.array("y", n)
    cx, cy = W.real("cx"), W.real("cy")
    r = W.real("r", 0.1, None, (0.5, 2))
    which = W.choice("mask", ["azimuthal", "center", "ellipse", "eccentric", "shell"])
    d2 = [(x[i] - cx) ** 2 + (y[i] - cy) ** 2 for i in range(n)]
    if which == "azimuthal":
        m, want = M.mask_azimuthal(x, y, cx, cy, r), [bool(q <= r ** 2) for q in d2]
    elif which == "center":
        m, want = M.mask_center_2d(cx, cy, r, x, y), [not bool(q <= r ** 2) for q in d2]
    elif which == "shell":
        w = W.real("w", 0.1, None, (0.5, 2))
        m, want = M.mask_shell(x, y, cx, cy, r, r + w), [bool(q >= r ** 2) and bool(q < (r + w) ** 2) for q in d2]
    elif which == "ellipse":
        b, t = W.real("b", 0.1, None, (0.5, 2)), W.real("t")
        m = M.mask_ellipse(x, y, cx, cy, r, b, t)
        c, s = W.cos(t), W.sin(t)
        want = []
        for i in range(n):
            u, v = c * (x[i] - cx) + s * (y[i] - cy), -s * (x[i] - cx) + c * (y[i] - cy)
            want.append(bool(u ** 2 / r ** 2 + v ** 2 / b ** 2 <= 1))
    else:
        e1, e2 = W.real("e1", -0.4, 0.4), W.real("e2", -0.4, 0.4)
        m = M.mask_eccentric(x, y, cx, cy, e1, e2, r)
        want = []
        for i in range(n):
            u, v = x[i] - cx, y[i] - cy
            p, q = (1 - e1) * u - e2 * v, (1 + e1) * v - e2 * u
            want.append(bool((p ** 2 + q ** 2) / (1 - e1 ** 2 - e2 ** 2) / r ** 2 <= 1))
    W.same("one value per position", len(m), n)
    for i in range(n):
        W.eq("one inside, zero outside", m[i], 1 if want[i] else 0)


# ------------------------------------------------------------------ lens model extensions
@contract("C25", "finite source magnification", [EX + "magnification_finite", EX + "zoom_source"], samples=6, timeout=120, bounded="two images, window of two by two pixels",
          assumes=["the lens is an arbitrary map"])
def _fin(W):
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions

    L, kw = arb(W)
    x, y = W.array("x", 2), W.array("y", 2)
    s = W.real("sigma", 0.05, None, (0.5, 2))
    wi = W.real("window", 0.05, None, (0.5, 2))
    E = LensModelExtensions(L)
    d = wi / 2
    g = lambda u, v: W.exp(-(u ** 2 + v ** 2) / 2 / s ** 2) / (2 * W.pi * s ** 2)

    def pix(a, b):
        bx, by = L.ray_shooting(a, b, kw)
        out = []
        for q in (-1, 1):
            for p in (-1, 1):
                ux, uy = L.ray_shooting(a + p * d / 2, b + q * d / 2, kw)
                out.append(g(ux - bx, uy - by))
        return out
    if W.choice("what", ["magnification", "image"]) == "magnification":
        if W.sym:
            W.assume(wi > 0.05)
        m = E.magnification_finite(x, y, kw, source_sigma=s, window_size=wi, grid_number=2)
        for i in range(2):
            W.eq("flux of the lensed source of unit flux", m[i], sum(pix(x[i], y[i])) * d ** 2)
    else:
        im = E.zoom_source(x[0], y[0], kw, source_sigma=s, window_size=wi, grid_number=2)
        W.eq("surface brightness is conserved", [im[0][0], im[0][1], im[1][0], im[1][1]], pix(x[0], y[0]))


def matrix_lens(W, n=None):
    """a lens with constant symmetric Hessian (given), for the eigenvalue problem"""
    ka, g1, g2 = W.real("kappa", -0.5, 0.9), W.real("g1", -0.6, 0.6), W.real("g2", -0.6, 0.6)

    class L:
        def hessian(self, x, y, kwargs, k=None, diff=None, diff_method="square"):
            o = np.ones_like(np.asarray(x, dtype=float)) if np.ndim(x) else 1.0
            return (ka + g1) * o, g2 * o, g2 * o, (ka - g1) * o
    return L(), np.array([[1 - ka - g1, -g2], [-g2, 1 - ka + g1]])


@contract("C25", "stretch and its directions", [EX + "radial_tangential_stretch", EX + "hessian_eigenvectors"], samples=40, sym=False, bounded="random Hessians (numerical eigenvectors)")
def _stretch(W):
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions

    L, A = matrix_lens(W)
    if min(abs(np.linalg.eigvalsh(A))) < 0.02 or abs(np.diff(np.linalg.eigvalsh(A))[0]) < 0.02:
        return
    E = LensModelExtensions(L)
    frame = W.choice("frame", [True, False])
    r0, d0 = W.real("ra0", -1, 1), W.real("dec0", -1, 1)
    x, y = W.array("x", 2, -3, 3), W.array("y", 2, -3, 3)
    res = [E.radial_tangential_stretch(float(x[i]), float(y[i]), [], ra_0=r0, dec_0=d0, coordinate_frame_definitions=frame) for i in range(2)]
    arr = E.radial_tangential_stretch(x, y, [], ra_0=r0, dec_0=d0, coordinate_frame_definitions=frame)
    for i in range(2):
        lr, lt, a, b, c, d = res[i]
        W.eq("arrays as single positions", [q[i] for q in arr], list(res[i]))
        W.eq("unit vectors", [a * a + b * b, c * c + d * d, a * c + b * d], [1, 1, 0])
        W.eq("radial stretch is the inverse eigenvalue along the radial direction", A @ [a, b], np.array([a, b]) / lr)
        W.eq("tangential stretch is the inverse eigenvalue along the tangential direction", A @ [c, d], np.array([c, d]) / lt)
        v = np.array([x[i] - r0, y[i] - d0])
        if frame:
            if abs(abs(v @ [a, b]) - abs(v @ [c, d])) > 1e-6:
                W.true("radial direction is the one closest to the separation from the centre", abs(v @ [a, b]) > abs(v @ [c, d]))
        else:
            W.true("radial direction has the larger eigenvalue", 1 / lr >= 1 / lt)
        if abs(v @ [a, b]) > 1e-6:
            W.true("radial direction points away from the centre", v @ [a, b] > 0)
        W.true("right-handed", a * d - b * c > 0)
    w = E.hessian_eigenvectors(float(x[0]), float(y[0]), [])
    W.eq("eigenvalues", sorted(w[:2]), sorted(np.linalg.eigvalsh(A)))
    W.eq("magnification is the product of the stretches", res[0][0] * res[0][1], 1 / np.linalg.det(A))


def _spp(W):
    from lenstronomy.LensModel.lens_model import LensModel

    te, g = W.real("theta_E", 0.8, 1.5), W.real("gamma", 1.8, 2.2)
    cx, cy = W.real("cx", -0.2, 0.2), W.real("cy", -0.2, 0.2)
    return LensModel(["SPP"]), [dict(theta_E=te, gamma=g, center_x=cx, center_y=cy)], te, g, cx, cy


@contract("C25", "differentials of the stretch", [EX + "radial_tangential_differentials", EX + "tangential_average", LP + "mst_invariant_differential"], samples=20, sym=False, bounded="random power-law lenses (numerical differentials)")
def _diff(W):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis

    lm, kw, te, g, cx, cy = _spp(W)
    r, t = W.real("r", 1.7, 3), W.real("t", 0, 6.28)
    x, y = cx + r * np.cos(t), cy + r * np.sin(t)
    E = LensModelExtensions(lm)
    lt = lambda q: 1 / (1 - (te / q) ** (g - 1))
    lr = lambda q: 1 / (1 - (2 - g) * (te / q) ** (g - 1))
    h = 1e-3
    o = E.radial_tangential_differentials(x, y, kw, center_x=cx, center_y=cy, smoothing_3rd=h)
    W.eq("stretches", [o[0], o[1]], [lr(r), lt(r)], rtol=1e-5)
    W.eq("orientation", o[2], 0, atol=1e-5)
    s_ = np.hypot(r, h)
    W.eq("along the tangential direction", [o[3], o[6]], [(lt(s_) - lt(r)) / h, (lr(s_) - lr(r)) / h], rtol=1e-2, atol=1e-4)
    W.eq("along the radial direction", [o[4], o[5]], [(lt(r + h) - lt(r)) / h, (lr(r + h) - lr(r)) / h], rtol=1e-3, atol=1e-4)
    W.eq("curvature", [o[7], o[10]], [1 / r, 1 / r], rtol=1e-2)
    W.eq("no change of direction along the radius", [o[8], o[9]], [0, 0], atol=1e-2)
    n = 5
    dr = W.real("dr", 0.05, 0.3)
    W.eq("average of the tangential stretch along the radius", E.tangential_average(x, y, kw, dr, num_average=n), np.mean([lt(r + q) for q in np.linspace(-dr / 2, dr / 2, n)]), rtol=1e-5)
    P = LensProfileAnalysis(lm)
    xi = P.mst_invariant_differential(kw, r)
    W.eq("radial stretch differential", xi, (lr(r + h) - lr(r)) / h / lr(r), rtol=1e-2, atol=1e-4)
    lam = W.real("lambda", 0.8, 1.1)
    lm2 = LensModel(["SPP", "CONVERGENCE"])
    kw2 = [dict(kw[0], theta_E=te * lam ** (1 / (g - 1))), dict(kappa=1 - lam, ra_0=cx, dec_0=cy)]
    W.eq("invariant under a mass sheet transform", LensProfileAnalysis(lm2).mst_invariant_differential(kw2, r), xi, rtol=1e-2, atol=1e-4)
    W.eq("differential of the selected component about the given centre", LensProfileAnalysis(LensModel(["CONVERGENCE", "SPP", "SHEAR"])).mst_invariant_differential([dict(kappa=0.1)] + kw + [dict(gamma1=0.1, gamma2=0.05)], r, center_x=cx, center_y=cy, model_list_bool=[False, True, False]), xi, rtol=1e-2, atol=1e-4)


@contract("C25", "curved arcs", [EX + "curved_arc_estimate", EX + "curved_arc_finite_area"], samples=20, sym=False, bounded="random power-law lenses (numerical differentials)")
def _arc(W):
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions

    lm, kw, te, g, cx, cy = _spp(W)
    r, t = W.real("r", 1.7, 3), W.real("t", 0, 6.28)
    x, y = cx + r * np.cos(t), cy + r * np.sin(t)
    E = LensModelExtensions(lm)
    lt, lr = 1 / (1 - (te / r) ** (g - 1)), 1 / (1 - (2 - g) * (te / r) ** (g - 1))
    for name, a, tol in (("", E.curved_arc_estimate(float(x), float(y), kw), 2e-3), (" over a finite area", E.curved_arc_finite_area(float(x), float(y), kw, dr=0.01), 1e-2)):
        W.eq("stretches" + name, [a["radial_stretch"], a["tangential_stretch"]], [lr, lt], rtol=tol)
        W.eq("curvature" + name, a["curvature"], 1 / r, rtol=5 * tol)
        W.eq("direction" + name, np.cos(a["direction"] - t), 1, atol=1e-4)
        W.eq("centre" + name, [a["center_x"], a["center_y"]], [x, y])
    W.eq("tangential differential", E.curved_arc_estimate(float(x), float(y), kw, tan_diff=True)["dtan_dtan"], 0, atol=0.5)


def _epl(W, shear=True):
    from lenstronomy.LensModel.lens_model import LensModel

    kw = [dict(theta_E=W.real("theta_E", 0.8, 1.3), gamma=W.real("gamma", 1.8, 2.2), e1=W.real("e1", -0.15, 0.15), e2=W.real("e2", -0.15, 0.15), center_x=W.real("cx", -0.3, 0.3), center_y=W.real("cy", -0.3, 0.3)),
          dict(gamma1=W.real("g1", -0.06, 0.06), gamma2=W.real("g2", -0.06, 0.06))]
    return LensModel(["EPL", "SHEAR"]), kw


@contract("C25", "critical curves and caustics", [EX + "critical_curve_caustics", EX + "critical_curve_tiling", EX + "_tiling_crit", EX + "caustic_area", "Util/util.py::area"], samples=6, sym=False, bounded="random power-law lenses with shear (grid of 0.05)")
def _crit(W):
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions

    lm, kw = _epl(W)
    E = LensModelExtensions(lm)
    c = dict(center_x=W.real("wx", -0.3, 0.3), center_y=W.real("wy", -0.3, 0.3))
    rc, dc, rs, ds = E.critical_curve_caustics(kw, compute_window=5, grid_scale=0.05, **c)
    W.true("there is a critical curve", len(rc) >= 1)
    k = int(np.argmax([len(q) for q in rc]))
    det = 1 / lm.magnification(rc[k], dc[k], kw)
    W.true("magnification diverges on the critical curve", np.max(np.abs(det)) < 0.02)
    W.true("the tangential critical curve encloses the lens", abs(np.ptp(rc[k]) + np.ptp(dc[k]) - 4 * kw[0]["theta_E"]) < 1.2 * kw[0]["theta_E"])
    for i in range(len(rc)):
        bx, by = lm.ray_shooting(rc[i], dc[i], kw)
        W.eq("caustics are the critical curves mapped to the source", list(rs[i]) + list(ds[i]), list(bx) + list(by))
    a = E.caustic_area(kw, dict(compute_window=5, grid_scale=0.05, **c), index_vertices=k)
    x, y = rs[k], ds[k]
    W.eq("area enclosed by the caustic", a, abs(np.sum(x[:-1] * y[1:] - x[1:] * y[:-1])) / 2, atol=1e-9)
    xt, yt = E.critical_curve_tiling(kw, compute_window=5, start_scale=0.5, max_order=10, **c)
    W.true("tiling finds points", len(xt) > 10)
    far = np.hypot(xt - kw[0]["center_x"], yt - kw[0]["center_y"]) > 0.4
    W.true("tiling is on the critical curve", np.max(np.abs(1 / lm.magnification(xt[far], yt[far], kw))) < 0.2)


@contract("C25", "adaptive finite magnification", [EX + "magnification_finite_adaptive", EX + "_magnification_adaptive_iteration", "Util/magnification_finite_util.py::setup_mag_finite"], samples=8, sym=False, bounded="random power-law lenses, Gaussian source")
def _adap(W):
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions
    from lenstronomy.LightModel.light_model import LightModel

    lm, kw = _epl(W)
    E = LensModelExtensions(lm)
    t = W.real("t", 0, 6.28)
    x, y = kw[0]["center_x"] + 1.9 * np.cos(t), kw[0]["center_y"] + 1.9 * np.sin(t)
    bx, by = lm.ray_shooting(x, y, kw)
    s = 0.01
    ks = [dict(amp=1.0, sigma=s, center_x=bx, center_y=by)]
    src = LightModel(["GAUSSIAN"])
    rad, res = 0.2, 0.004
    mu = abs(lm.magnification(x, y, kw))
    q = W.choice("axis ratio", [1, 0.5, 0])
    fix = W.choice("fixed", [True, False])
    m = E.magnification_finite_adaptive([x], [y], kw, src, ks, res, rad, axis_ratio=q, tol=0.0005, fixed_aperture_size=fix)
    W.same("one magnification per image", len(m), 1)
    if mu < 8:
        W.eq("small sources are magnified as points", m[0], mu, rtol=0.04)
    if q == 1 and fix:
        n = int(2 * rad / res)
        g = np.linspace(-rad, rad, n)
        gx, gy = np.meshgrid(g, g)
        f = src.surface_brightness(*lm.ray_shooting(gx.ravel() + x, gy.ravel() + y, kw), ks)
        W.eq("flux within the aperture", m[0], np.sum(f[np.hypot(gx, gy).ravel() < rad]) * res ** 2)


# ------------------------------------------------------------------ lens analysis
@contract("C25", "local lensing effect", [LP + "local_lensing_effect"], samples=6, assumes=["the lens is an arbitrary map"])
def _local(W):
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis

    L, kw = arb(W)
    x, y = W.real("x"), W.real("y")
    k = W.choice("k", [None, [True, False], [False, True]])
    P = LensProfileAnalysis(L)
    got = P.local_lensing_effect(kw, x, y, model_list_bool=k)
    a, h = L.alpha(x, y, kw, k), L.hessian(x, y, kw, k)
    W.eq("deflection, convergence and shear", list(got), [a[0], a[1], (h[0] + h[3]) / 2, (h[0] - h[3]) / 2, h[1]])


@contract("C25", "azimuthal averages of the convergence", [LP + "radial_lens_profile", AU + "profile_center", "Util/util.py::points_on_circle"], samples=8, sym=False, bounded="random convergence maps")
def _radial(W):
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis

    L, kw = arb(W)
    given = W.choice("centre", [True, False])
    k = W.choice("k", [None, [True, False]])
    cx, cy = (W.real("cx", -1, 1), W.real("cy", -1, 1)) if given else (kw[0]["center_x"], kw[0]["center_y"])
    r = [W.real("r0", 0.2, 1), W.real("r1", 1, 2)]
    n = W.choice("n", [1, 4, 7])
    got = LensProfileAnalysis(L).radial_lens_profile(r, kw, center_x=cx if given else None, center_y=cy if given else None, model_bool_list=k, num_azimuthal_points=n)
    for i in range(2):
        t = np.linspace(0, 2 * np.pi, n)
        W.eq("mean convergence on the circle", got[i], np.mean(L.kappa(cx + r[i] * np.cos(t), cy + r[i] * np.sin(t), kw, k)))


@contract("C25", "Einstein radius", [LP + "effective_einstein_radius", LP + "effective_einstein_radius_grid", LP + "effective_einstein_radius_from_radial_profile", "Analysis/lens_profile.py::einstein_radius_from_grid", LP + "mass_fraction_within_radius", LP + "multi_gaussian_lens"], samples=6, sym=False, bounded="random lenses (grids)")
def _einst(W):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis

    lm, kw, te, g, cx, cy = _spp(W)
    P = LensProfileAnalysis(lm)
    d = 0.05
    r, prec = P.effective_einstein_radius_grid(kw, grid_num=100, grid_spacing=d, get_precision=True)
    W.true("on a grid", abs(r - te) < 3 * d)
    W.eq("precision", prec, 100 * d / 2 / (2 * 100 - 1))
    W.eq("from the radial profile", P.effective_einstein_radius(kw, r_min=1e-4, num_points=60), te, rtol=0.05)
    W.eq("spherical models", P.effective_einstein_radius(kw, r_min=1e-4, num_points=60, spherical_model=True), te, rtol=0.05)
    lm2 = LensModel(["SPP", "CONVERGENCE", "SIS"])
    kw2 = [kw[0], dict(kappa=0.3), dict(theta_E=0.5, center_x=cx, center_y=cy)]
    P2 = LensProfileAnalysis(lm2)
    W.true("selected components only", abs(P2.effective_einstein_radius_grid(kw2, model_bool_list=[True, False, False], grid_num=100, grid_spacing=d) - te) < 3 * d)
    far = [dict(kw[0], center_x=cx + 2, center_y=cy - 1)]
    W.true("on a grid about the centre of the lens", abs(P.effective_einstein_radius_grid(far, grid_num=100, grid_spacing=d) - te) < 3 * d)
    P3 = LensProfileAnalysis(LensModel(["CONVERGENCE", "SPP"]))
    am, sg, x0, y0 = P3.multi_gaussian_lens([dict(kappa=0.3)] + far, center_x=cx + 2, center_y=cy - 1, model_bool_list=[False, True])
    W.eq("centre of the Gaussians", [x0, y0], [cx + 2, cy - 1])
    for q in (0.3, 1.5):
        W.eq("Gaussians add up to the convergence of the selected component", np.sum(am / (2 * np.pi * sg ** 2) * np.exp(-q ** 2 / 2 / sg ** 2)), (3 - g) / 2 * (te / q) ** (g - 1), rtol=0.1)
    R = W.real("R", 0.8, 2)
    fr = P2.mass_fraction_within_radius(kw2, cx, cy, R, num_pix=200)
    W.eq("mean convergence of each component within the radius", fr, [(te / R) ** (g - 1), 0.3, 0.5 / R], rtol=0.05)
    ax, ay = W.real("ax", 0.8, 1.5), W.real("ay", -2.5, -1.5)
    gy, gx = np.mgrid[-1:1:101j, -1:1:101j] * R
    ins = gx ** 2 + gy ** 2 < R ** 2
    sm = LensModel(["CONVERGENCE", "NIE"])
    ks = [dict(kappa=0.3), dict(theta_E=1, e1=0.1, e2=0, s_scale=0.5, center_x=cx, center_y=cy)]
    W.eq("mean convergence about the given centre", LensProfileAnalysis(sm).mass_fraction_within_radius(ks, ax, ay, R, num_pix=100), [0.3, np.mean(sm.kappa(ax + gx[ins], ay + gy[ins], ks, k=1))], rtol=0.02)
    sub = LensProfileAnalysis(LensModel(["CONVERGENCE"]))
    W.true("sub-critical lenses have none", np.isnan(sub.effective_einstein_radius_grid([dict(kappa=0.5)], center_x=0, center_y=0, grid_num=20)))


@contract("C25", "slope of the profile", [LP + "profile_slope"], samples=12, sym=False, bounded="random power-law lenses")
def _slope(W):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis

    lm, kw, te, g, cx, cy = _spp(W)
    r = W.real("r", 0.5, 2)
    for a in (True, False):
        W.eq("power law", LensProfileAnalysis(lm).profile_slope(kw, r, alpha_differentials=a), g, atol=1e-5)
        P = LensProfileAnalysis(LensModel(["CONVERGENCE", "SPP"]))
        W.eq("power law of the selected component about the given centre", P.profile_slope([dict(kappa=0.2)] + kw, r, center_x=cx, center_y=cy, model_list_bool=[False, True], alpha_differentials=a), g, atol=1e-5)


@contract("C25", "overdensity mass", [LP + "m_delta_crit"], samples=6, sym=False, bounded="random singular isothermal spheres and NFW halos")
def _mdelta(W):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis
    from lenstronomy.Cosmo.lens_cosmo import LensCosmo
    from astropy.cosmology import FlatLambdaCDM

    cosmo = FlatLambdaCDM(H0=70, Om0=0.3)
    zl, zs = W.real("zl", 0.3, 0.6), W.real("zs", 1, 2)
    lc = LensCosmo(zl, zs, cosmo=cosmo)
    M, c = 10 ** W.real("logM", 12.5, 13.5), W.real("c", 4, 8)
    Rs, a = lc.nfw_physical2angle(M=M, c=c)
    lm = LensModel(["NFW"])
    m, r = LensProfileAnalysis(lm).m_delta_crit([dict(Rs=Rs, alpha_Rs=a, center_x=0, center_y=0)], zl, zs, cosmo, delta_crit=200)
    W.eq("M200 of an NFW halo", m, M, rtol=0.02)
    W.eq("r200 of an NFW halo", r, c * Rs, rtol=0.01)
    te = W.real("theta_E", 0.8, 2)
    s1 = LensProfileAnalysis(LensModel(["SIS"])).m_delta_crit([dict(theta_E=te, center_x=0.2, center_y=0.1)], zl, zs, cosmo)
    s2 = LensProfileAnalysis(LensModel(["EPL"])).m_delta_crit([dict(theta_E=te, gamma=2, e1=0, e2=0, center_x=0.2, center_y=0.1)], zl, zs, cosmo)
    W.eq("from the Gaussians of the convergence", s2, s1, rtol=0.1)


@contract("C25", "peak of the convergence", [LP + "convergence_peak"], samples=6, sym=False, bounded="random lenses (grid)")
def _peak(W):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis

    c = [W.real("c%d" % i, -0.3, 0.3) for i in range(4)]
    P = LensProfileAnalysis(LensModel(["NIE", "NIE"]))
    kw = [dict(theta_E=1, e1=0.1, e2=0, s_scale=0.1, center_x=c[0], center_y=c[1]), dict(theta_E=3, e1=0.1, e2=0, s_scale=0.1, center_x=c[2], center_y=c[3])]
    w = [W.real("w%d" % i, -0.2, 0.2) for i in range(2)]
    o = W.real("o", 2, 3)
    for q in kw:
        q["center_x"] += o
        q["center_y"] -= o
    for k, i in (([True, False], 0), ([False, True], 1)):
        x, y = P.convergence_peak(kw, model_bool_list=k, grid_num=100, grid_spacing=0.02, center_x_init=w[0] + o, center_y_init=w[1] - o)
        W.true("position of the densest pixel", abs(x[0] - o - c[2 * i]) < 0.02 and abs(y[0] + o - c[2 * i + 1]) < 0.02)


# ------------------------------------------------------------------ light analysis
@contract("C25", "shape and size of the light", [LI + "ellipticity", LI + "half_light_radius", LI + "radial_light_profile", LI + "flux_components", LI + "multi_gaussian_decomposition", LI + "multi_gaussian_decomposition_ellipse", AU + "ellipticities", AU + "_ellipticities", AU + "moments", AU + "half_light_radius"], samples=5, sym=False, bounded="random Gaussian and Sersic light (grids)")
def _light(W):
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.Analysis.light_profile import LightProfileAnalysis

    s, e1, e2 = W.real("s", 0.3, 0.5), W.real("e1", -0.15, 0.15), W.real("e2", -0.15, 0.15)
    cx, cy = W.real("cx", -2.5, -1.5), W.real("cy", 1.5, 2.5)
    amp = W.real("amp", 1, 5)
    lm = LightModel(["UNIFORM", "GAUSSIAN_ELLIPSE", "GAUSSIAN"])
    kw = [dict(amp=7.0), dict(amp=amp, sigma=s, e1=e1, e2=e2, center_x=cx, center_y=cy), dict(amp=3.0, sigma=0.4, center_x=1.0, center_y=0.3)]
    P = LightProfileAnalysis(lm)
    sel = [False, True, False]
    g1, g2 = P.ellipticity(kw, 0.05, 120, center_x=cx, center_y=cy, model_bool_list=sel, iterative=True, num_iterative=10)
    W.eq("ellipticity of the selected component", [g1, g2], [e1, e2], atol=0.03)
    g1, g2 = P.ellipticity(kw, s / 10, 60, center_x=cx, center_y=cy, model_bool_list=sel, iterative=True, num_iterative=20)
    n1, n2 = P.ellipticity(kw, s / 10, 60, center_x=cx, center_y=cy, model_bool_list=sel, iterative=False)
    W.true("iterations remove the effect of the window", abs(g1 - e1) + abs(g2 - e2) < 0.03 + 0.5 * (abs(n1 - e1) + abs(n2 - e2)))
    r = P.half_light_radius(kw, 0.03, 140, center_x=cx, center_y=cy, model_bool_list=sel)
    W.eq("half of the light of the selected component", r, s * np.sqrt(2 * np.log(2)), rtol=0.05)
    rr = [0.2, 0.7]
    one = LightModel(["GAUSSIAN"])
    kg = [dict(amp=amp, sigma=s, center_x=cx, center_y=cy)]
    Q = LightProfileAnalysis(one)
    W.eq("radial profile", Q.radial_light_profile(rr, kg), [amp / (2 * np.pi * s ** 2) * np.exp(-q ** 2 / 2 / s ** 2) for q in rr])
    W.eq("radial profile about the given centre", P.radial_light_profile(rr, kw, center_x=0.3, center_y=-0.2, model_bool_list=sel),
         [np.mean(lm.surface_brightness(0.3 + q * np.cos(np.linspace(0, 2 * np.pi, 20)), -0.2 + q * np.sin(np.linspace(0, 2 * np.pi, 20)), kw, k=sel)) for q in rr])
    kc = copy.deepcopy(kw[1:])
    f, h = LightProfileAnalysis(LightModel(["GAUSSIAN_ELLIPSE", "GAUSSIAN"])).flux_components(kw[1:], grid_num=200, grid_spacing=0.03)
    W.eq("flux of each component", f, [amp, 3.0], rtol=0.01)
    W.eq("half-light radius of each component", h, [s * np.sqrt(2 * np.log(2)), 0.4 * np.sqrt(2 * np.log(2))], rtol=0.05)
    W.same("parameters are not modified", kw[1:], kc)
    a, sg, x0, y0 = Q.multi_gaussian_decomposition(kg, n_comp=20, grid_spacing=0.03, grid_num=100)
    W.eq("Gaussians add up to the profile", np.sum(a / (2 * np.pi * sg ** 2) * np.exp(-0.3 ** 2 / 2 / sg ** 2)), Q.radial_light_profile([0.3], kg)[0], rtol=0.05)
    W.eq("centre of the decomposition", [x0, y0], [cx, cy])
    km = P.multi_gaussian_decomposition_ellipse(kw, model_bool_list=sel, center_x=cx, center_y=cy, n_comp=20)
    b = LightModel(["MULTI_GAUSSIAN_ELLIPSE"]).surface_brightness(np.array([cx + 0.3]), np.array([cy + 0.2]), [km])
    W.eq("elliptical decomposition", b, lm.surface_brightness(np.array([cx + 0.3]), np.array([cy + 0.2]), kw, k=1), rtol=0.15)


@contract("C25", "moments and radial sums", [AU + "moments", AU + "radial_profile", AU + "azimuthal_average", AU + "half_light_radius"], samples=8, sym=False, bounded="random images")
def _mom(W):
    from lenstronomy.Util import analysis_util as A, util

    n = 12
    x, y = util.make_grid(n, 0.5)
    I = np.abs(np.sin(np.arange(n * n) * W.real("f", 0.3, 0.7))) + 0.1
    cx, cy = W.real("cx", -0.4, 0.4), W.real("cy", -0.4, 0.4)
    q = A.moments(I, x, y)
    mx, my = np.sum(I * x) / np.sum(I), np.sum(I * y) / np.sum(I)
    m = np.hypot(x - mx, y - my) <= np.ptp(x) / 3
    W.eq("second moments", list(q[:3]), [np.sum(m * I * (x - mx) ** 2), np.sum(m * I * (x - mx) * (y - my)), np.sum(m * I * (y - my) ** 2)])
    W.eq("no background", q[3], 0)
    r = np.hypot(x - cx, y - cy)
    Ir, re = A.radial_profile(I, x, y, cx, cy, n=5)
    W.eq("edges", list(re), list(np.max(r) * np.arange(1, 6) / 5))
    lo = 0
    for i in range(5):
        if np.min(np.abs(r - re[i])) > 1e-9:
            W.eq("flux within the annuli", np.sum(Ir[:i + 1]), np.sum(I[r <= re[i]]))
    h = A.half_light_radius(I.copy(), x, y, cx, cy)
    W.true("half of the flux", np.sum(I[r <= h]) > np.sum(I) / 2 >= np.sum(I[r <= h - np.max(r) / 500]))
    im = I[:96].reshape(8, 12)
    p, rb = A.azimuthal_average(im)
    yy, xx = np.indices(im.shape)
    d = np.hypot(xx - 5.5, yy - 3.5).astype(int)
    W.eq("mean of the pixels of each ring about the centre", list(p[:4]), [np.mean(im[d == k]) for k in range(1, 5)])


@contract("C25", "information criterion and centre", [AU + "bic_model", AU + "profile_center"], samples=4)
def _bic(W):
    from lenstronomy.Util import analysis_util as A

    l, n, k = W.real("l"), W.real("n", 1, None, (10, 100)), W.real("k", 1, None, (1, 9))
    W.eq("Bayesian information criterion", A.bic_model(l, n, k), -2 * l + k * W.log(n))
    c = [dict(center_x=W.real("a"), center_y=W.real("b")), dict(center_x=W.real("c"), center_y=W.real("d"))]
    W.eq("centre of the first profile", list(A.profile_center(c)), [c[0]["center_x"], c[0]["center_y"]])
    W.eq("given centre", list(A.profile_center(c, l, n)), [l, n])
    W.raises("no centre", lambda: A.profile_center([{}]), ValueError)


# ------------------------------------------------------------------ convergence maps, integrals, distributions
@contract("C25", "potential and deflection of a convergence map", [CI + m for m in ("potential_from_kappa_grid", "deflection_from_kappa_grid", "potential_kernel", "deflection_kernel", "deflection_from_kappa_grid_adaptive", "potential_from_kappa_grid_adaptive")], samples=6, sym=False, bounded="random maps of 12 by 12 pixels")
def _conv(W):
    from lenstronomy.LensModel import convergence_integrals as C

    n = 12
    d = W.real("d", 0.05, 0.5)
    k = np.abs(np.sin(np.arange(n * n) * W.real("f", 0.3, 0.7))).reshape(n, n)
    y, x = [q * d for q in np.indices((n, n))]
    fx, fy = C.deflection_from_kappa_grid(k, d)
    f = C.potential_from_kappa_grid(k, d)
    i, j = W.choice("pixel", [(3, 4), (8, 2), (6, 6), (0, 11)])
    rx, ry = x[i, j] - x, y[i, j] - y
    r2 = rx ** 2 + ry ** 2
    r2s = np.where(r2 < (d / 2) ** 2, (d / 2) ** 2, r2)
    W.eq("deflection is the sum over the pixels", [fx[i, j], fy[i, j]], [np.sum(k * rx / r2s) * d ** 2 / np.pi, np.sum(k * ry / r2s) * d ** 2 / np.pi], rtol=1e-6)
    i2, j2 = 5, 5
    q2 = (x[i2, j2] - x) ** 2 + (y[i2, j2] - y) ** 2
    q2 = np.where(q2 < (d / 2) ** 2, (d / 2) ** 2, q2)
    W.eq("differences of the potential are the sum over the pixels", f[i, j] - f[i2, j2], np.sum(k * (np.log(r2s) - np.log(q2))) / 2 * d ** 2 / np.pi, rtol=1e-6, atol=1e-8)
    N = 60
    yy, xx = [(q - (N - 1) / 2) * 0.05 for q in np.indices((N, N))]
    kk = np.exp(-(xx ** 2 + (yy - 0.1) ** 2) / 2 / 0.3 ** 2)
    a = C.deflection_from_kappa_grid(kk, 0.05)
    b = C.deflection_from_kappa_grid_adaptive(kk, 0.05, 3, 3)
    re = lambda z: z.reshape(20, 3, 20, 3).mean(axis=(1, 3))
    for u, v in zip(a, b):
        W.eq("adaptive deflection", np.ravel(v[3:-3, 3:-3]), np.ravel(re(u)[3:-3, 3:-3]), atol=0.02 * np.max(np.abs(u)))
    p, q = re(C.potential_from_kappa_grid(kk, 0.05)), C.potential_from_kappa_grid_adaptive(kk, 0.05, 3, 3)
    W.eq("adaptive potential", np.ravel((q - q[10, 10])[3:-3, 3:-3]), np.ravel((p - p[10, 10])[3:-3, 3:-3]), atol=0.02 * np.ptp(p))


@contract("C25", "integrals of a density", ["LensModel/profile_integrals.py::ProfileIntegrals." + m for m in ("mass_enclosed_3d", "density_2d", "mass_enclosed_2d")], samples=6, sym=False, bounded="random Plummer spheres (quadrature)")
def _pint(W):
    from lenstronomy.LensModel.profile_integrals import ProfileIntegrals

    class Plummer:
        def density(self, r, M, a):
            return 3 * M / (4 * np.pi * a ** 3) * (1 + r ** 2 / a ** 2) ** -2.5

        def density_lens(self, r, M, a):
            return 2 * self.density(r, M, a)
    M, a, r = W.real("M", 1, 3), W.real("a", 0.5, 1.5), W.real("r", 0.3, 2)
    kw = dict(M=M, a=a, center_x=0.3, center_y=-1.0)
    P = ProfileIntegrals(Plummer())
    for lens, f in ((False, 1), (True, 2)):
        W.eq("mass in a sphere", P.mass_enclosed_3d(r, kw, lens_param=lens), f * M * r ** 3 / (r ** 2 + a ** 2) ** 1.5, rtol=1e-5)
        W.eq("projected density", P.density_2d(r, kw, lens_param=lens), f * M * a ** 2 / np.pi / (a ** 2 + r ** 2) ** 2, rtol=1e-4)
        W.eq("mass in a cylinder", P.mass_enclosed_2d(r, kw, lens_param=lens), f * M * r ** 2 / (r ** 2 + a ** 2), rtol=1e-4)
    W.same("parameters are not modified", sorted(kw), ["M", "a", "center_x", "center_y"])


@contract("C25", "skewed Gaussian distribution", ["Util/prob_density.py::SkewGaussian." + m for m in ("pdf", "pdf_skew", "map_mu_sigma_skw")], samples=6, sym=False, bounded="random moments (quadrature)")
def _skew(W):
    from lenstronomy.Util.prob_density import SkewGaussian
    from scipy.integrate import quad

    mu, s, k = W.real("mu", -2, 2), W.real("s", 0.5, 2), W.real("k", -0.8, 0.8)
    if abs(k) < 0.05:
        return
    D = SkewGaussian()
    m = [quad(lambda x, p=p: x ** p * D.pdf_skew(mu + s * x, mu, s, k) * s, -12, 12, limit=300)[0] for p in range(4)]
    W.eq("normalised with the stated mean, width and skewness", m, [1, 0, 1, k], atol=1e-5)

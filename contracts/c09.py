"""C09: equivalent parameterisations convert into each other consistently."""
import numpy as np
from lv.world import contract
from contracts.lensdefs import dom
from contracts.lightdefs import params as light_params, pkw, MULTI

PU = "Util/param_util.py::"
UU = "Util/util.py::"


def pos(W, n=None):
    if n:
        return W.array("x", n, None, None, (-3, 3)), W.array("y", n, None, None, (-3, 3))
    return W.real("x", None, None, (-3, 3)), W.real("y", None, None, (-3, 3))


def cen(W):
    return W.real("cx", None, None, (-2, 2)), W.real("cy", None, None, (-2, 2))


def same_angle(W, label, a, b, mult=1):
    """equal modulo 2 pi / mult"""
    W.eq(label + " (cos)", W.cos(mult * a), W.cos(mult * b))
    W.eq(label + " (sin)", W.sin(mult * a), W.sin(mult * b))


@contract("C09", "polar.cart2polar", [PU + "cart2polar", PU + "polar2cart"], samples=40)
def _c1(W):
    from lenstronomy.Util import param_util as pu

    x, y = pos(W, 2)
    cx, cy = cen(W)
    r, phi = pu.cart2polar(x, y, cx, cy)
    W.eq("radius", r, W.sqrt((x - cx) ** 2 + (y - cy) ** 2))
    x2, y2 = pu.polar2cart(r, phi, (cx, cy))
    W.eq("x back", x2, x)
    W.eq("y back", y2, y)
    r0, phi0 = pu.cart2polar(x - cx, y - cy)
    W.eq("default centre: radius", r0, r)
    W.eq("default centre: angle", phi0, phi)
    if not W.sym:
        W.true("principal angle", (phi > -np.pi - 1e-9) & (phi <= np.pi + 1e-9))


@contract("C09", "polar.polar2cart", [PU + "cart2polar", PU + "polar2cart"], samples=30)
def _c2(W):
    from lenstronomy.Util import param_util as pu

    r, phi = W.real("r", 0, None, (0.2, 3)), W.real("phi", None, None, (-3, 3))
    cx, cy = cen(W)
    x, y = pu.polar2cart(r, phi, (cx, cy))
    r2, p2 = pu.cart2polar(x, y, cx, cy)
    W.eq("radius", r2, r)
    same_angle(W, "angle", p2, phi)


@contract("C09", "shear", [PU + "shear_polar2cartesian", PU + "shear_cartesian2polar"], samples=40)
def _sh(W):
    from lenstronomy.Util import param_util as pu

    g1, g2 = W.real("g1", None, None, (-0.4, 0.4)), W.real("g2", None, None, (-0.4, 0.4))
    phi, g = pu.shear_cartesian2polar(g1, g2)
    a, b = pu.shear_polar2cartesian(phi, g)
    W.eq("gamma1", a, g1)
    W.eq("gamma2", b, g2)
    if not W.sym:
        W.true("angle within (-90, 90] degrees", abs(phi) <= np.pi / 2 + 1e-9)
    # the other way round
    p, m = W.real("p", None, None, (-1.5, 1.5)), W.real("m", 0, None, (0.05, 0.5))
    q1, q2 = pu.shear_polar2cartesian(p, m)
    p2, m2 = pu.shear_cartesian2polar(q1, q2)
    W.eq("strength", m2, m)
    same_angle(W, "direction", p2, p, 2)
    # a shear with direction phi stretches along phi: x.Gamma.x is largest there
    W.eq("direction of the shear", q1 * W.cos(2 * p) + q2 * W.sin(2 * p), m)
    W.eq("no cross component", -q1 * W.sin(2 * p) + q2 * W.cos(2 * p), 0 * m)


@contract("C09", "ellipticity", [PU + "phi_q2_ellipticity", PU + "ellipticity2phi_q"], samples=40)
def _el(W):
    from lenstronomy.Util import param_util as pu

    phi, q = W.real("phi", None, None, (-1.5, 1.5)), W.real("q", 0.001, 1, (0.1, 0.95))
    e1, e2 = pu.phi_q2_ellipticity(phi, q)
    W.eq("modulus", e1 ** 2 + e2 ** 2, ((1 - q) / (1 + q)) ** 2)
    p2, q2 = pu.ellipticity2phi_q(e1, e2)
    W.eq("axis ratio back", q2, q)
    same_angle(W, "orientation back", p2, phi, 2)


@contract("C09", "ellipticity.inverse", [PU + "phi_q2_ellipticity", PU + "ellipticity2phi_q"], samples=40)
def _el2(W):
    from lenstronomy.Util import param_util as pu

    e1, e2 = W.real("e1", None, None, (-0.6, 0.6)), W.real("e2", None, None, (-0.6, 0.6))
    W.assume(e1 ** 2 + e2 ** 2 < 0.99)
    phi, q = pu.ellipticity2phi_q(e1, e2)
    a, b = pu.phi_q2_ellipticity(phi, q)
    W.eq("e1 back", a, e1)
    W.eq("e2 back", b, e2)
    W.true("axis ratio at most 1", q <= 1)
    W.true("axis ratio positive", q > 0)
    if not W.sym:
        W.true("angle within (-90, 90] degrees", abs(phi) <= np.pi / 2 + 1e-9)


@contract("C09", "ellipticity.clipped", [PU + "ellipticity2phi_q"], samples=20)
def _el3(W):
    from lenstronomy.Util import param_util as pu

    e1, e2 = W.real("e1", None, None, (-2, 2)), W.real("e2", None, None, (-2, 2))
    phi, q = pu.ellipticity2phi_q(e1, e2)
    W.true("axis ratio stays positive for unphysical ellipticities", q > 0)


@contract("C09", "ellipticity.array", [PU + "phi_q2_ellipticity", PU + "ellipticity2phi_q"], samples=20)
def _ela(W):
    from lenstronomy.Util import param_util as pu

    e1, e2 = W.array("e1", 2, None, None, (-0.4, 0.4)), W.array("e2", 2, None, None, (-0.4, 0.4))
    for i in range(2):
        W.assume(e1[i] ** 2 + e2[i] ** 2 < 0.99)
    phi, q = pu.ellipticity2phi_q(e1, e2)
    a, b = pu.phi_q2_ellipticity(phi, q)
    W.eq("e1 back", a, e1)
    W.eq("e2 back", b, e2)


@contract("C09", "transform.product_average", [PU + "transform_e1e2_product_average", PU + "transform_e1e2_product_average_old", PU + "elliptical_distortion_product_average"], samples=40)
def _pa(W):
    from lenstronomy.Util import param_util as pu

    x, y = pos(W, 2)
    e1, e2 = W.real("e1", None, None, (-0.5, 0.5)), W.real("e2", None, None, (-0.5, 0.5))
    W.assume(e1 ** 2 + e2 ** 2 < 0.99)
    cx, cy = cen(W)
    u, v = pu.transform_e1e2_product_average(x, y, e1, e2, cx, cy)
    phi, q = pu.ellipticity2phi_q(e1, e2)
    c, s = W.cos(phi), W.sin(phi)
    x1, x2 = c * (x - cx) + s * (y - cy), -s * (x - cx) + c * (y - cy)
    W.eq("iso-contours are ellipses of axis ratio q at angle phi", u ** 2 + v ** 2, q * x1 ** 2 + x2 ** 2 / q)
    # area preserving: cross product of two displacement vectors is kept
    W.eq("area is preserved", u[0] * v[1] - u[1] * v[0], (x[0] - cx) * (y[1] - cy) - (x[1] - cx) * (y[0] - cy))
    a, b = pu.transform_e1e2_product_average(u, v, -e1, -e2, 0, 0)
    W.eq("inverse transform x", a, x - cx)
    W.eq("inverse transform y", b, y - cy)
    uo, vo = pu.transform_e1e2_product_average_old(x, y, e1, e2, cx, cy)
    W.eq("same elliptical radius as the rotated form", uo ** 2 + vo ** 2, u ** 2 + v ** 2)
    W.eq("rotated form: major axis", uo, x1 * W.sqrt(q))
    W.eq("rotated form: minor axis", vo, x2 / W.sqrt(q))
    ud, vd = pu.elliptical_distortion_product_average(x, y, e1, e2, cx, cy)
    W.eq("distortion about the centre x", ud - cx, u)
    W.eq("distortion about the centre y", vd - cy, v)


@contract("C09", "transform.square_average", [PU + "transform_e1e2_square_average", PU + "q2e"], samples=40)
def _sa(W):
    from lenstronomy.Util import param_util as pu

    x, y = pos(W, 2)
    e1, e2 = W.real("e1", None, None, (-0.5, 0.5)), W.real("e2", None, None, (-0.5, 0.5))
    W.assume(e1 ** 2 + e2 ** 2 < 0.99)
    cx, cy = cen(W)
    u, v = pu.transform_e1e2_square_average(x, y, e1, e2, cx, cy)
    phi, q = pu.ellipticity2phi_q(e1, e2)
    c, s = W.cos(phi), W.sin(phi)
    x1, x2 = c * (x - cx) + s * (y - cy), -s * (x - cx) + c * (y - cy)
    W.assume(q <= 1)  # shown by ellipticity.inverse
    W.eq("iso-contours are ellipses with the square-averaged radius", u ** 2 + v ** 2, 2 * q ** 2 / (1 + q ** 2) * x1 ** 2 + 2 / (1 + q ** 2) * x2 ** 2)
    W.eq("major axis", u * W.sqrt(1 + q ** 2), W.sqrt(2 + 0 * q) * q * x1)
    if not W.sym:
        W.eq("minor axis", v * W.sqrt(1 + q ** 2), W.sqrt(2 + 0 * q) * x2)
    W.eq("eccentricity", pu.q2e(q), (1 - q ** 2) / (1 + q ** 2))


@contract("C09", "rotate", [UU + "rotate"], samples=20)
def _ro(W):
    from lenstronomy.Util import util

    x, y = pos(W, 2)
    a, b = W.real("a", None, None, (-3, 3)), W.real("b", None, None, (-3, 3))
    u, v = util.rotate(x, y, a)
    W.eq("radius", u ** 2 + v ** 2, x ** 2 + y ** 2)
    W.eq("orientation", u[0] * v[1] - u[1] * v[0], x[0] * y[1] - x[1] * y[0])
    u2, v2 = util.rotate(u, v, -a)
    W.eq("rotated back x", u2, x)
    W.eq("rotated back y", v2, y)
    u3, v3 = util.rotate(u, v, b)
    u4, v4 = util.rotate(x, y, a + b)
    W.eq("composition x", u3, u4)
    W.eq("composition y", v3, v4)
    e1, e2 = util.rotate(W.cos(a), W.sin(a), a)
    W.eq("a vector at the angle is rotated to the x-axis", [e1, e2], [1 + 0 * a, 0 * a])


@contract("C09", "sigma fwhm", [UU + "fwhm2sigma", UU + "sigma2fwhm"], samples=10)
def _fw(W):
    from lenstronomy.Util import util

    f = W.real("f", 0, None, (0.1, 2))
    W.eq("back", util.sigma2fwhm(util.fwhm2sigma(f)), f)
    W.eq("forth", util.fwhm2sigma(util.sigma2fwhm(f)), f)
    s = util.fwhm2sigma(f)
    W.eq("half maximum at half the FWHM", W.exp(-((f / 2) ** 2) / (2 * s ** 2)), 0.5)


@contract("C09", "derivative_util", ["Util/derivative_util.py::" + f for f in ("d_r_dx", "d_r_dy", "d_r_dxx", "d_r_dyy", "d_r_dxy", "d_phi_dx", "d_phi_dy", "d_phi_dxx", "d_phi_dyy", "d_phi_dxy", "d_x_diffr_dx", "d_y_diffr_dy", "d_y_diffr_dx", "d_x_diffr_dy")], samples=20)
def _du(W):
    from lenstronomy.Util import derivative_util as d

    x, y = pos(W)
    if not W.sym:
        W.assume(x * x + y * y > 0.05)
        W.assume(abs(y) > 0.05)
    r = lambda x, y: W.sqrt(x ** 2 + y ** 2)
    ph = lambda x, y: W.arctan2(y, x)
    W.eq_grad("radius", r, (x, y), (d.d_r_dx(x, y), d.d_r_dy(x, y)))
    W.eq_grad("radius, second derivatives", d.d_r_dx, (x, y), (d.d_r_dxx(x, y), d.d_r_dxy(x, y)))
    W.eq_grad("radius, second derivative yy", d.d_r_dy, (x, y), (d.d_r_dxy(x, y), d.d_r_dyy(x, y)))
    W.eq_grad("angle", ph, (x, y), (d.d_phi_dx(x, y), d.d_phi_dy(x, y)))
    W.eq_grad("angle, second derivatives", d.d_phi_dx, (x, y), (d.d_phi_dxx(x, y), d.d_phi_dxy(x, y)))
    W.eq_grad("angle, second derivative yy", d.d_phi_dy, (x, y), (d.d_phi_dxy(x, y), d.d_phi_dyy(x, y)))
    W.eq_grad("x/r", lambda x, y: x / r(x, y), (x, y), (d.d_x_diffr_dx(x, y), d.d_x_diffr_dy(x, y)))
    W.eq_grad("y/r", lambda x, y: y / r(x, y), (x, y), (d.d_y_diffr_dx(x, y), d.d_y_diffr_dy(x, y)))


@contract("C09", "flexion", ["LensModel/Profiles/flexionfg.py::Flexionfg.transform_fg", "LensModel/Profiles/flexion.py::Flexion.hessian"], samples=20)
def _fl(W):
    """F is the gradient of the convergence, G = d gamma1/dx - d gamma2/dy, d gamma2/dx + d gamma1/dy"""
    from lenstronomy.LensModel.Profiles.flexionfg import Flexionfg
    from lenstronomy.LensModel.Profiles.flexion import Flexion

    F1, F2, G1, G2 = [W.real(n, None, None, (-0.1, 0.1)) for n in ("F1", "F2", "G1", "G2")]
    x, y = pos(W)
    cx, cy = cen(W)
    p = Flexionfg()
    kw = dict(F1=F1, F2=F2, G1=G1, G2=G2, ra_0=cx, dec_0=cy)
    H = lambda x, y: p.hessian(x, y, **kw)
    # third derivatives of a cubic potential are the Hessian's slopes
    h = 1
    def slope(i, dx, dy):
        return H(x + dx, y + dy)[i] - H(x, y)[i]
    kx, ky = (slope(0, h, 0) + slope(3, h, 0)) / 2, (slope(0, 0, h) + slope(3, 0, h)) / 2
    g1x, g1y = (slope(0, h, 0) - slope(3, h, 0)) / 2, (slope(0, 0, h) - slope(3, 0, h)) / 2
    g2x, g2y = slope(1, h, 0), slope(1, 0, h)
    W.eq("first flexion", [kx, ky], [F1, F2], 1e-7, 1e-10)
    W.eq("second flexion, first component", g1x - g2y, G1, 1e-7, 1e-10)
    W.eq("second flexion, second component", g2x + g1y, G2, 1e-7, 1e-10)
    W.eq("no Hessian at the centre", list(H(cx, cy)), [0 * x] * 4, 1e-7, 1e-10)


@contract("C09", "shear.reduced", ["LensModel/Profiles/shear.py::ShearReduced._kappa_reduced", "LensModel/Profiles/shear.py::ShearReduced.hessian"], samples=20)
def _sr(W):
    from lenstronomy.LensModel.Profiles.shear import ShearReduced

    g1, g2 = W.real("g1", None, None, (-0.4, 0.4)), W.real("g2", None, None, (-0.4, 0.4))
    W.assume(g1 ** 2 + g2 ** 2 < 0.9)
    x, y = pos(W)
    cx, cy = cen(W)
    xx, xy, yx, yy = ShearReduced().hessian(x, y, g1, g2, cx, cy)
    k = (xx + yy) / 2
    W.eq("reduced shear 1", (xx - yy) / 2, g1 * (1 - k))
    W.eq("reduced shear 2", xy, g2 * (1 - k))
    W.eq("no magnification", (1 - xx) * (1 - yy) - xy * yx, 1 + 0 * x)


@contract("C09", "shear.gamma_psi", ["LensModel/Profiles/shear.py::ShearGammaPsi." + f for f in ("function", "derivatives", "hessian")], samples=20)
def _sg(W):
    from lenstronomy.LensModel.Profiles.shear import ShearGammaPsi, Shear
    from lenstronomy.Util import param_util as pu

    g, p = W.real("g", 0, None, (0.05, 0.5)), W.real("p", None, None, (-1.5, 1.5))
    x, y = pos(W)
    cx, cy = cen(W)
    g1, g2 = pu.shear_polar2cartesian(p, g)
    W.eq("deflection", list(ShearGammaPsi().derivatives(x, y, g, p, cx, cy)), list(Shear().derivatives(x, y, g1, g2, cx, cy)))
    W.eq("hessian", list(ShearGammaPsi().hessian(x, y, g, p, cx, cy)), list(Shear().hessian(x, y, g1, g2, cx, cy)))
    W.eq("potential", ShearGammaPsi().function(x, y, g, p, cx, cy), Shear().function(x, y, g1, g2, cx, cy))


# ------------------------------------------------------------------ curved arcs
def stretch(W):
    lt, lr = W.real("lt", 1.01, None, (2, 8)), W.real("lr", 0.01, None, (0.6, 1.6))
    cu, d = W.real("cu", 0.05, 20, (0.3, 2)), W.real("dir", None, None, (-3, 3))
    return lt, lr, cu, d


@contract("C09", "stretch.sis_mst", ["LensModel/Profiles/curved_arc_sis_mst.py::CurvedArcSISMST.stretch2sis_mst", "LensModel/Profiles/curved_arc_sis_mst.py::CurvedArcSISMST.sis_mst2stretch"], samples=20)
def _st1(W):
    from lenstronomy.LensModel.Profiles.curved_arc_sis_mst import CurvedArcSISMST as P

    lt, lr, cu, d = stretch(W)
    cx, cy = cen(W)
    out = P.sis_mst2stretch(*P.stretch2sis_mst(lt, lr, cu, d, cx, cy), cx, cy)
    W.eq("tangential, radial stretch and curvature", list(out[:3]), [lt, lr, cu])
    same_angle(W, "direction", out[3], d)


@contract("C09", "stretch.spp", ["LensModel/Profiles/curved_arc_spp.py::CurvedArcSPP.stretch2spp", "LensModel/Profiles/curved_arc_spp.py::CurvedArcSPP.spp2stretch"], samples=20)
def _st2(W):
    from lenstronomy.LensModel.Profiles.curved_arc_spp import CurvedArcSPP as P

    tE, g = W.real("tE", 0, None, (0.5, 1.5)), W.real("g", 1, 3, (1.6, 2.4))
    cx, cy = cen(W)
    r = W.real("r", 0, None, (1.6, 3))
    d = W.real("d", None, None, (-3, 3))
    sx, sy = cx - r * W.cos(d), cy - r * W.sin(d)
    W.assume(tE < r)
    lt, lr, cu, dd = P.spp2stretch(tE, g, sx, sy, cx, cy)
    W.eq("curvature", cu, 1 / r)
    same_angle(W, "direction", dd, d)
    tE2, g2, sx2, sy2 = P.stretch2spp(lt, lr, cu, dd, cx, cy)
    W.eq("slope", g2, g)
    W.eq("Einstein radius", tE2, tE)
    W.eq("centre", [sx2, sy2], [sx, sy])


def _arc(mod, cls, extra, sym=True):
    @contract("C09", "stretch.eigenvalues." + cls, ["LensModel/Profiles/%s.py::%s.hessian" % (mod, cls)], samples=20, sym=sym, timeout=40)
    def body(W):
        """the local Jacobian at the arc has the announced stretches along and across the announced direction; the arc position is not displaced"""
        import importlib

        p = getattr(importlib.import_module("lenstronomy.LensModel.Profiles." + mod), cls)()
        lt, lr, cu, d = stretch(W)
        if cls == "CurvedArcSPP":
            # every admissible pair of stretches is that of some power law
            u, g = W.real("u", 0, 1, (0.4, 0.9)), W.real("g", 1, 3, (1.6, 2.4))
            w = u ** (g - 1)
            lt, lr = 1 / (1 - w), 1 / (1 + (g - 2) * w)
        cx, cy = cen(W)
        kw = dict(tangential_stretch=lt, radial_stretch=lr, curvature=cu, direction=d, center_x=cx, center_y=cy, **extra)
        xx, xy, yx, yy = p.hessian(cx, cy, **kw)
        c, s = W.cos(d), W.sin(d)
        tol = dict(rtol=1e-4, atol=1e-5)
        W.eq("radial stretch", (1 - xx) * c * c - (xy + yx) * c * s + (1 - yy) * s * s, 1 / lr, **tol)
        W.eq("tangential stretch", (1 - xx) * s * s + (xy + yx) * c * s + (1 - yy) * c * c, 1 / lt, **tol)
        W.eq("no shear across the eigen-directions", (xx - yy) * c * s + (yx * s * s - xy * c * c), 0 * lt, **tol)
        ax, ay = p.derivatives(cx, cy, **kw)
        W.eq("no deflection at the arc", [ax, ay], [0 * lt, 0 * lt], 1e-7, 1e-8)


_arc("curved_arc_sis_mst", "CurvedArcSISMST", {})
_arc("curved_arc_spp", "CurvedArcSPP", {})
_arc("curved_arc_const", "CurvedArcConstMST", {}, sym=False)
_arc("curved_arc_spt", "CurvedArcSPT", {"gamma1": 0, "gamma2": 0}, sym=False)
_arc("curved_arc_tan_diff", "CurvedArcTanDiff", {"dtan_dtan": 0}, sym=False)


# ------------------------------------------------------------------ epl_util
@contract("C09", "epl_util.polar", ["LensModel/Util/epl_util.py::" + f for f in ("cart_to_pol", "pol_to_cart", "pol_to_ell", "ell_to_pol")], samples=30)
def _eu(W):
    from lenstronomy.LensModel.Util import epl_util as eu

    x, y = pos(W)
    q = W.real("q", 0, None, (0.3, 1.5))
    th = W.real("th", None, None, (0, 6.2))
    r = W.real("r", 0, None, (0.2, 3))
    if not W.sym:
        rr, t = eu.cart_to_pol(x, y)
        x2, y2 = eu.pol_to_cart(rr, t)
        W.eq("cart", [x2, y2], [x, y])
        W.true("range", 0 <= t <= 2 * np.pi)
    X, Y = eu.pol_to_cart(r, th)
    W.eq("pol_to_cart", [X, Y], [r * W.cos(th), r * W.sin(th)])
    re, ph = eu.pol_to_ell(r, th, q)
    W.eq("elliptical radius", re ** 2, q ** 2 * X ** 2 + Y ** 2)
    W.eq("elliptical angle", [re * W.cos(ph), re * W.sin(ph)], [q * X, Y])
    r3, th3 = eu.ell_to_pol(re, ph, q)
    W.eq("radius back", r3, r)
    same_angle(W, "angle back", th3, th)


@contract("C09", "epl_util.algebra", ["LensModel/Util/epl_util.py::" + f for f in ("min_approx", "rotmat", "cdot", "ps", "solvequadeq")], samples=30)
def _eu2(W):
    from lenstronomy.LensModel.Util import epl_util as eu

    a, b, c = W.real("a", 0, None, (0.5, 2)), W.real("b", None, None, (-3, 3)), W.real("c", None, None, (-2, 2))
    v = W.real("v", None, None, (-2, 2))
    x1, x2, x3 = [W.real("x%d" % i, None, None, (-3, 3)) for i in range(3)]
    W.assume(x1 < x2)
    W.assume(x2 < x3)
    if not W.sym:
        W.assume(min(x2 - x1, x3 - x2) > 0.1)
    f = lambda x: a * (x - v) ** 2 + c
    W.eq("vertex of the parabola through three points", eu.min_approx(x1, x2, x3, f(x1), f(x2), f(x3)), v, 1e-5, 1e-6)
    th = W.real("th", None, None, (-3, 3))
    M = eu.rotmat(th)
    W.eq("rotation matrix", [M[0][0] * x1 + M[0][1] * x2, M[1][0] * x1 + M[1][1] * x2], [x1 * W.cos(th) + x2 * W.sin(th), -x1 * W.sin(th) + x2 * W.cos(th)])
    W.assume(b ** 2 - 4 * a * c > 0.01)
    A, Bv, Cv = (np.array([z], dtype=object if W.sym else float) for z in (a, b, c))
    r1, r2 = eu.solvequadeq(A, Bv, Cv)
    r1, r2 = r1[0], r2[0]
    W.eq("first root", a * r1 ** 2 + b * r1 + c, 0 * a, 1e-8, 1e-8)
    W.eq("second root", a * r2 ** 2 + b * r2 + c, 0 * a, 1e-8, 1e-8)
    W.eq("both roots", a * (r1 + r2), -b, 1e-8, 1e-8)


# ------------------------------------------------------------------ COOLEST conventions
@contract("C09", "coolest", ["Util/coolest_update_util.py", "Util/coolest_read_util.py"], samples=40)
def _co(W):
    from lenstronomy.Util import coolest_update_util as up, coolest_read_util as rd

    e1, e2 = W.real("e1", None, None, (-0.4, 0.4)), W.real("e2", None, None, (-0.4, 0.4))
    W.assume(e1 ** 2 + e2 ** 2 < 0.99)
    q, phi = up.e1e2_lenstronomy_to_qphi_coolest(e1, e2)
    a, b = rd.qphi_coolest_to_e1e2_lenstronomy(q, phi)
    W.eq("ellipticity", [a, b], [e1, e2])
    g, p = up.g1g2_lenstronomy_to_gamma_phi_coolest(e1, e2)
    a, b = rd.gamma_phi_coolest_to_g1_g2_lenstronomy(g, p)
    W.eq("shear", [a, b], [e1, e2])
    if not W.sym:
        W.true("range", -90 - 1e-9 < phi <= 90 + 1e-9)
        W.true("range", -90 - 1e-9 < p <= 90 + 1e-9)
    coef = W.array("c", 15, None, None, (-1, 1))
    back = rd.shapelet_amp_coolest_to_lenstronomy(up.shapelet_amp_lenstronomy_to_coolest(list(coef)))
    W.eq("shapelet coefficients", np.array(back, dtype=object if W.sym else float), coef)


# ------------------------------------------------------------------ elliptical profiles have the ellipses of their e1, e2
ELL = {
    "SERSIC_ELLIPSE": "SERSIC", "GAUSSIAN_ELLIPSE": "GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE": "MULTI_GAUSSIAN", "MGE_SET_ELLIPSE": "MGE_SET", "HERNQUIST_ELLIPSE": "HERNQUIST",
    "PJAFFE_ELLIPSE": "PJAFFE", "SHAPELETS_ELLIPSE": "SHAPELETS", "LINEAR_ELLIPSE": "LINEAR",
}


def _lell(m, base):
    @contract("C09", "light ellipse." + m, ["LightModel/Profiles/*::function of " + m], samples=8, timeout=40)
    def body(W):
        from lenstronomy.LightModel.light_model import LightModel
        from lenstronomy.Util import param_util as pu

        le, lb = LightModel([m], profile_kwargs_list=[pkw(m)]), LightModel([base], profile_kwargs_list=[pkw(base)])
        x, y = W.array("x", 1, None, None, (-3, 3)), W.array("y", 1, None, None, (-3, 3))
        kw = light_params(W, m, le.func_list[0].param_names)
        W.assume(kw["e1"] ** 2 + kw["e2"] ** 2 < 0.9)
        tr = pu.transform_e1e2_square_average if m == "PJAFFE_ELLIPSE" else pu.transform_e1e2_product_average
        u, v = tr(x, y, kw["e1"], kw["e2"], kw["center_x"], kw["center_y"])
        kb = {p: (0 if p in ("center_x", "center_y") else kw[p]) for p in lb.func_list[0].param_names}
        W.eq("the round profile at the elliptical coordinates", le.surface_brightness(x, y, [kw]), lb.surface_brightness(u, v, [kb]))


for _m, _b in ELL.items():
    _lell(_m, _b)


@contract("C09", "light ellipse.SERSIC_ELLIPSE_Q_PHI", ["LightModel/Profiles/sersic.py::SersicElliptic_qPhi.function"], samples=10, timeout=40)
def _qphi(W):
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.Util import param_util as pu

    lm, le = LightModel(["SERSIC_ELLIPSE_Q_PHI"]), LightModel(["SERSIC_ELLIPSE"])
    x, y = W.array("x", 1, None, None, (-3, 3)), W.array("y", 1, None, None, (-3, 3))
    kw = light_params(W, "SERSIC_ELLIPSE_Q_PHI", lm.func_list[0].param_names)
    q, phi = W.real("qq", 0.1, 1, (0.3, 0.95)), W.real("ph", None, None, (-1.5, 1.5))
    kw["q"], kw["phi"] = q, phi
    kw["max_R_frac"] = 1000.0
    e1, e2 = pu.phi_q2_ellipticity(phi, q)
    ke = {p: v for p, v in kw.items() if p not in ("q", "phi")}
    W.eq("surface brightness", lm.surface_brightness(x, y, [kw]), le.surface_brightness(x, y, [dict(ke, e1=e1, e2=e2)]), 1e-6, 1e-6)


@contract("C09", "lens.EPL_Q_PHI", ["LensModel/Profiles/epl.py::EPLQPhi." + f for f in ("function", "derivatives", "hessian")], samples=20)
def _eplq(W):
    """EPL_Q_PHI is EPL with converted ellipticity (EPL itself is replaced by arbitrary functions of its arguments)"""
    from lenstronomy.LensModel.Profiles.epl import EPLQPhi, EPL
    from contracts.common import swap
    from lenstronomy.Util import param_util as pu

    x, y = pos(W)
    cx, cy = cen(W)
    tE, g, q, phi = W.real("tE", 0, None, (0.5, 2)), W.real("g", 1, 3, (1.6, 2.4)), W.real("q", 0.1, 1, (0.4, 0.9)), W.real("phi", None, None, (-1.5, 1.5))
    fs = {n: [W.uf("epl_%s%d" % (n, i), 8) for i in range(k)] for n, k in (("function", 1), ("derivatives", 2), ("hessian", 4))}

    def stub(n):
        def f(self, x, y, theta_E, gamma, e1, e2, center_x=0, center_y=0):
            out = [h(x, y, theta_E, gamma, e1, e2, center_x, center_y) for h in fs[n]]
            return out[0] if n == "function" else tuple(out)

        return f

    with swap(W, *[(EPL, n, stub(n)) for n in fs]):
        e1, e2 = pu.phi_q2_ellipticity(phi, q)
        for n in fs:
            a, b = getattr(EPLQPhi(), n)(x, y, tE, g, q, phi, cx, cy), getattr(EPL(), n)(x, y, tE, g, e1, e2, cx, cy)
            W.eq(n, list(np.atleast_1d(a)) if n == "function" else list(a), list(np.atleast_1d(b)) if n == "function" else list(b))


def _kappa(W, p, x, y, kw):
    xx, xy, yx, yy = p.hessian(x, y, **kw)
    return (xx + yy) / 2


@contract("C09", "lens ellipse.NIE", ["LensModel/Profiles/nie.py::NIE.hessian", "LensModel/Profiles/nie.py::NIE._param_conv"], samples=30, sym=False, bounded="sampled parameters and positions of the real code")
def _nie(W):
    """the convergence of the NIE is constant on ellipses of the axis ratio and angle given by e1, e2"""
    from lenstronomy.LensModel.Profiles.nie import NIE
    from lenstronomy.Util import param_util as pu

    x, y = pos(W)
    cx, cy = cen(W)
    e1, e2 = W.real("e1", None, None, (-0.3, 0.3)), W.real("e2", None, None, (-0.3, 0.3))
    W.assume(e1 ** 2 + e2 ** 2 < 0.9)
    if not W.sym:
        W.assume(e1 ** 2 + e2 ** 2 > 0.001)
    tE, s = W.real("tE", 0, None, (0.5, 2)), W.real("s", 0, None, (0.1, 1))
    k = _kappa(W, NIE(), x, y, dict(theta_E=tE, e1=e1, e2=e2, s_scale=s, center_x=cx, center_y=cy))
    u, v = pu.transform_e1e2_product_average(x, y, e1, e2, cx, cy)
    W.eq("convergence", k, tE / 2 / W.sqrt(u ** 2 + v ** 2 + s ** 2), 1e-4, 1e-6)


LKAPPA = ["EPL", "SIE", "PEMD", "EPL_NUMBA", "GAUSSIAN_ELLIPSE_KAPPA", "MULTI_GAUSSIAN_ELLIPSE_KAPPA", "NFW_ELLIPSE_CSE", "HERNQUIST_ELLIPSE_CSE", "CHAMELEON"]


@contract("C09", "lens ellipse.sampled", ["LensModel/Profiles/*::hessian"], samples=60, sym=False, bounded="sampled parameters and positions of the real code")
def _le(W):
    """the convergence of elliptical density profiles is constant on ellipses of axis ratio q and angle phi"""
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.Util import param_util as pu

    m = W.choice("m", ["EPL", "SIE", "EPL_NUMBA", "EPL_Q_PHI", "GAUSSIAN_ELLIPSE_KAPPA", "MULTI_GAUSSIAN_ELLIPSE_KAPPA", "NFW_ELLIPSE_CSE", "HERNQUIST_ELLIPSE_CSE", "CHAMELEON", "NIE"])
    lm = LensModel([m])
    cx, cy = W.real("cx", None, None, (-0.5, 0.5)), W.real("cy", None, None, (-0.5, 0.5))
    phi, q = W.real("phi", None, None, (-1.5, 1.5)), W.real("q", None, None, (0.5, 0.9))
    e1, e2 = pu.phi_q2_ellipticity(phi, q)
    kw = {}
    for p in lm.lens_model.func_list[0].param_names:
        if p == "sigma" and m.startswith("MULTI"):
            kw[p] = [0.5, 1.2]
        elif p == "amp" and m.startswith("MULTI"):
            kw[p] = [1.0, 2.0]
        else:
            kw[p] = {"e1": e1, "e2": e2, "center_x": cx, "center_y": cy, "q": q, "phi": phi}.get(p) if p in ("e1", "e2", "center_x", "center_y", "q", "phi") else W.real("p_" + p, *dom(p))
    if "w_c" in kw:
        kw["w_c"], kw["w_t"] = 0.3, 0.9
    r = W.real("r", None, None, (0.4, 2))
    ts = np.linspace(0, 2 * np.pi, 7)[:-1] + W.real("t0", None, None, (0, 1))
    a, b = r / np.sqrt(q) * np.cos(ts), r * np.sqrt(q) * np.sin(ts)
    x, y = cx + a * np.cos(phi) - b * np.sin(phi), cy + a * np.sin(phi) + b * np.cos(phi)
    k = lm.kappa(x, y, [kw])
    tol = 5e-3 if m.endswith("CSE") else 1e-4
    W.eq("iso-convergence contour", k, k[0] + 0 * k, tol, 1e-6)


# ------------------------------------------------------------------ arrays and images
@contract("C09", "reshape", [UU + f for f in ("array2image", "image2array", "array2cube", "cube2array")], samples=10)
def _rs(W):
    from lenstronomy.Util import util

    ny, nx = W.choice("shape", [(3, 3), (2, 4), (4, 2)])
    a = W.array("a", nx * ny, None, None, (0, 1))
    im = util.array2image(a, nx, ny)
    W.same("shape", im.shape, (ny, nx))
    W.eq("row major", [im[j][i] for j in range(ny) for i in range(nx)], list(a))
    W.eq("back", util.image2array(im), a)
    if nx == ny:
        W.eq("square by default", util.array2image(a), im)
    else:
        W.raises("not a square", lambda: util.array2image(a), ValueError)
    n1 = W.choice("n1", [1, 2])
    c = W.array("c", n1 * 4, None, None, (0, 1))
    cube = util.array2cube(c, n1, 4)
    W.same("cube", cube.shape, (n1, 2, 2))
    W.eq("cube order", [cube[i][j][k] for i in range(n1) for j in range(2) for k in range(2)], list(c))
    W.eq("cube back", util.cube2array(cube), c)


@contract("C09", "bool list", [UU + "convert_bool_list"], samples=40)
def _bl(W):
    from lenstronomy.Util.util import convert_bool_list

    n = W.choice("n", [1, 2, 3, 5])
    for i in range(n):
        W.same("index", list(convert_bool_list(n, i)), [j == i for j in range(n)])
        W.same("numpy index", list(convert_bool_list(n, np.int64(i))), [j == i for j in range(n)])
    W.same("all", list(convert_bool_list(n)), [True] * n)
    W.same("none", list(convert_bool_list(n, [])), [False] * n)
    for m in range(2 ** n):
        b = [bool(m >> j & 1) for j in range(n)]
        W.same("booleans", list(convert_bool_list(n, b)), b)
        idx = [j for j in range(n) if b[j]]
        W.same("indices", list(convert_bool_list(n, idx)), b)
        W.same("indices in any order", list(convert_bool_list(n, idx[::-1])), b)
    W.raises("index out of range", lambda: convert_bool_list(n, [n]), ValueError)
    W.raises("wrong length", lambda: convert_bool_list(n, [True] * (n + 1)), ValueError)

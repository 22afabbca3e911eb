"""C23: light profiles are the documented functions of the (elliptical) radius about their centre."""
import numpy as np
from lv.world import contract
from contracts.lightdefs import MULTI, pkw, params

P = "LightModel/Profiles/"


def ell_r2(W, x, y, e1, e2, cx, cy):
    """q x'^2 + y'^2 / q in the frame of the major axis, written in the eccentricities"""
    x, y = x - cx, y - cy
    return (((1 - e1) ** 2 + e2 ** 2) * x**2 + ((1 + e1) ** 2 + e2 ** 2) * y**2 - 4 * e2 * x * y) / (1 - e1**2 - e2**2)


def ell_r2_square(W, x, y, e1, e2, cx, cy):
    """(1 - e) x'^2 + (1 + e) y'^2 with e = (1 - q^2) / (1 + q^2)"""
    x, y = x - cx, y - cy
    # e = 2 c / (1 + c^2), c^2 = e1^2 + e2^2; cos 2 phi = e1 / c, sin 2 phi = e2 / c
    s = 2 / (1 + e1**2 + e2**2)
    return x**2 + y**2 - s * (e1 * (x**2 - y**2) + 2 * e2 * x * y)


def sersic(W, R, kw, major=1):
    b = 1.9992 * kw["n_sersic"] - 0.3271
    return kw["amp"] * W.exp(-b * ((R / kw["R_sersic"]) ** (1 / kw["n_sersic"]) - 1))


def core_sersic(W, R, kw):
    b = 1.9992 * kw["n_sersic"] - 0.3271
    n, g, rb = kw["n_sersic"], kw["gamma"], kw["Rb"]
    return kw["amp"] * (1 + (rb / R) ** 3.0) ** (g / 3.0) * W.exp(-b * (((R**3.0 + rb**3.0) / kw["R_sersic"] ** 3.0) ** (1.0 / (3.0 * n)) - 1))


def gauss(W, R2, amp, sigma):
    return amp / (2 * np.pi * sigma**2) * W.exp(-R2 / sigma**2 / 2)


def mge(W, R2, kw):
    n = len(kw["amp"])
    s0, s1 = kw["sigma_min"], kw["sigma_min"] + kw["sigma_width"]
    return sum(gauss(W, R2, kw["amp"][i], s0 * (s1 / s0) ** (i / (n - 1))) for i in range(n))


def chameleon(W, R2, amp, wc, wt, e1, e2):
    """difference of two isothermal ellipses with core radii 2 w / (1 + q), normalised in the circular
    case to mean surface brightness amp within unit radius"""
    from lenstronomy.LensModel.Profiles.nie import NIE

    if W.sym:  # the lens profile regularises the axis ratio at 1 - 1e-8: its own deflection
        norm = NIE().derivatives(1, 0, theta_E=1, e1=0, e2=0, s_scale=wc)[0] - NIE().derivatives(1, 0, theta_E=1, e1=0, e2=0, s_scale=wt)[0]
    else:
        norm = (W.sqrt(1 + wc**2) - wc) - (W.sqrt(1 + wt**2) - wt)
    f = 1 if isinstance(e1, float) and isinstance(e2, float) and e1 == 0 and e2 == 0 else 1 + W.sqrt(e1**2 + e2**2)  # 2 / (1 + q)
    wc, wt = wc * f, wt * f
    return amp / norm * (1 / W.sqrt(wc**2 + R2) - 1 / W.sqrt(wt**2 + R2)) / 2


FORMS = {
    "GAUSSIAN": lambda W, R2, k: gauss(W, R2, k["amp"], k["sigma"]),
    "GAUSSIAN_ELLIPSE": lambda W, R2, k: gauss(W, R2, k["amp"], k["sigma"]),
    "MULTI_GAUSSIAN": lambda W, R2, k: sum(gauss(W, R2, a, s) for a, s in zip(k["amp"], k["sigma"])),
    "MULTI_GAUSSIAN_ELLIPSE": lambda W, R2, k: sum(gauss(W, R2, a, s) for a, s in zip(k["amp"], k["sigma"])),
    "MGE_SET": mge,
    "MGE_SET_ELLIPSE": mge,
    "SERSIC": lambda W, R2, k: sersic(W, W.sqrt(R2), k),
    "SERSIC_ELLIPSE": lambda W, R2, k: sersic(W, W.sqrt(R2), k),
    "CORE_SERSIC": lambda W, R2, k: core_sersic(W, W.sqrt(R2), k),
    "NIE": lambda W, R2, k: k["amp"] / 2 / W.sqrt(k["s_scale"] ** 2 + R2),
    "POWER_LAW": lambda W, R2, k: k["amp"] * (R2 + 1e-8) ** ((1 - k["gamma"]) / 2),
    "PJAFFE": lambda W, R2, k: k["amp"] * k["Ra"] * k["Rs"] / (k["Rs"] - k["Ra"]) * (1 / W.sqrt(k["Ra"] ** 2 + R2) - 1 / W.sqrt(k["Rs"] ** 2 + R2)),
    "PJAFFE_ELLIPSE": lambda W, R2, k: k["amp"] * k["Ra"] * k["Rs"] / (k["Rs"] - k["Ra"]) * (1 / W.sqrt(k["Ra"] ** 2 + R2) - 1 / W.sqrt(k["Rs"] ** 2 + R2)),
    "CHAMELEON": lambda W, R2, k: chameleon(W, R2, k["amp"], k["w_c"], k["w_t"], k["e1"], k["e2"]),
}


def model(names, **kw):
    from lenstronomy.LightModel.light_model import LightModel

    return LightModel(list(names), profile_kwargs_list=[pkw(m) for m in names], **kw)


def domain(W, m, kw, R2):
    if m == "SERSIC" or m == "SERSIC_ELLIPSE" or m == "CORE_SERSIC":
        W.assume(kw["n_sersic"] > 0.5, kw["R_sersic"] > 1e-3, R2 > 1e-6)
        if m != "CORE_SERSIC":
            W.assume(R2 < (900 * kw["R_sersic"]) ** 2)
    if m.startswith("PJAFFE"):
        W.assume(kw["Ra"] > 1e-3, kw["Rs"] > kw["Ra"] + 1e-3)
    if m == "CHAMELEON":
        W.assume(kw["w_t"] > kw["w_c"] + 1e-3, kw["w_c"] > 1e-3)
        if not W.sym:
            W.assume(kw["w_t"] > 1.1 * kw["w_c"], kw["w_t"] < 5)
    if not W.sym:
        W.assume(R2 > 1e-3)


def _form(m):
    @contract("C23", "profile." + m, [P], samples=12, timeout=60, max_paths=64, assumes=["LightModel surface brightness with one component is the profile (C08)"])
    def body(W):
        lm = model([m])
        x, y = W.real("x", None, None, (-1.5, 1.5)), W.real("y", None, None, (-1.5, 1.5))
        kw = params(W, m, lm.func_list[0].param_names)
        e1, e2 = kw.get("e1", 0), kw.get("e2", 0)
        if "e1" in kw:
            W.assume(e1**2 + e2**2 < 0.9)
            W.assume(e1**2 + e2**2 > 1e-6)
        f = ell_r2_square if m == "PJAFFE_ELLIPSE" else ell_r2
        R2 = f(W, x, y, e1, e2, kw["center_x"], kw["center_y"])
        domain(W, m, kw, R2)
        v = lm.surface_brightness(np.array([x]), np.array([y]), [kw])[0]
        W.eq("documented function of the radius", v, FORMS[m](W, R2, kw), 1e-4 if m == "CHAMELEON" else 1e-6)
        if "e1" in kw and m not in ("CORE_SERSIC",):
            k0 = dict(kw, e1=0.0, e2=0.0)
            R0 = ell_r2(W, x, y, 0, 0, kw["center_x"], kw["center_y"])
            domain(W, m, k0, R0)
            W.eq("circular limit", lm.surface_brightness(np.array([x]), np.array([y]), [k0])[0], FORMS[m](W, R0, k0), 1e-4 if m == "CHAMELEON" else 1e-6)


for _m in FORMS:
    _form(_m)


def _same_ellipse(a, b, names, pairs=None, n=1):
    @contract("C23", "profile." + a, [P], samples=12, timeout=60, max_paths=64, assumes=["LightModel surface brightness with one component is the profile (C08)"],
              bounded="shapelet order 1 (structure); all parameter values" if "SHAPE" in a else None)
    def body(W):
        """the elliptical profile is the circular one at the elliptical radius"""
        la, lb = model([a]), model([b])
        x, y = W.real("x", None, None, (-1.5, 1.5)), W.real("y", None, None, (-1.5, 1.5))
        kw = params(W, a, la.func_list[0].param_names)
        W.assume(kw["e1"] ** 2 + kw["e2"] ** 2 < 0.9)
        W.assume(kw["e1"] ** 2 + kw["e2"] ** 2 > 1e-6)
        R2 = ell_r2(W, x, y, kw["e1"], kw["e2"], kw["center_x"], kw["center_y"])
        R = W.sqrt(R2)
        W.assume(R > 1e-3)
        if "Rs" in kw:
            W.assume(R != kw["Rs"], kw["Rs"] > 1e-3)
        kb = {k: kw[k] for k in lb.func_list[0].param_names}
        cx, cy = kw["center_x"], kw["center_y"]
        v = lb.surface_brightness(np.array([cx + R]), np.array([cy]), [kb])[0]
        W.eq("value at the elliptical radius", la.surface_brightness(np.array([x]), np.array([y]), [kw])[0], v, 1e-6)


_same_ellipse("HERNQUIST_ELLIPSE", "HERNQUIST", "")
_same_ellipse("LINEAR_ELLIPSE", "LINEAR", "")


@contract("C23", "profile.HERNQUIST", [P + "hernquist.py::Hernquist.function", P + "hernquist.py::Hernquist.light_3d"], samples=20, timeout=60)
def hernquist_closed(W):
    """Hernquist (1990): surface brightness rho0 Rs F(X)-form with rho0 = amp / Rs"""
    from lenstronomy.LightModel.Profiles.hernquist import Hernquist

    amp, Rs, r = W.real("amp", 0, None, (0.5, 2)), W.real("Rs", 0, None, (0.3, 2)), W.real("r", 0, None, (0.05, 4))
    h = Hernquist()
    W.eq("three-dimensional density", h.light_3d(r, amp=amp, Rs=Rs), amp / Rs / (r / Rs * (1 + r / Rs) ** 3))
    W.eq("total", h.total_flux(amp, Rs), 2 * np.pi * amp * Rs**2)


@contract("C23", "profile.LINEAR", [P + "linear.py::Linear.function", P + "linear.py::Linear.total_flux"], samples=20, timeout=60)
def linear(W):
    lm = model(["LINEAR"])
    x, y = W.real("x", None, None, (-1.5, 1.5)), W.real("y", None, None, (-1.5, 1.5))
    kw = params(W, "LINEAR", lm.func_list[0].param_names)
    R = W.sqrt((x - kw["center_x"]) ** 2 + (y - kw["center_y"]) ** 2)
    v = lm.surface_brightness(np.array([x]), np.array([y]), [kw])[0]
    e = kw["amp"] + kw["k"] * R
    if bool(e >= 0):
        W.eq("linear in the radius", v, e)
    else:
        W.eq("never negative", v, 0 * e)


@contract("C23", "flux.LINEAR", [P + "linear.py::Linear.total_flux", P + "linear.py::LinearEllipse.total_flux"], samples=20, timeout=60)
def linear_flux(W):
    """the integral of amp - |k| R over the disc on which it is positive"""
    from lenstronomy.LightModel.Profiles.linear import Linear, LinearEllipse

    amp, k = W.real("amp", 0, None, (0.5, 2)), W.real("k", None, 0, (-3, -0.3))
    W.assume(amp > 0, k < 0)
    R = amp / -k
    exp = 2 * np.pi * (amp * R**2 / 2 + k * R**3 / 3)
    W.eq("cone", Linear().total_flux(amp, k, W.real("cx", None, None, (-1, 1)), W.real("cy", None, None, (-1, 1))), exp)
    W.eq("ellipse", LinearEllipse().total_flux(amp, k, W.real("e1", None, None, (-0.3, 0.3)), W.real("e2", None, None, (-0.3, 0.3))), exp)


@contract("C23", "profile.ELLIPSOID", [P + "ellipsoid.py::Ellipsoid.function"], samples=30, timeout=60)
def ellipsoid(W):
    lm = model(["ELLIPSOID"])
    x, y = W.real("x", None, None, (-1.5, 1.5)), W.real("y", None, None, (-1.5, 1.5))
    kw = params(W, "ELLIPSOID", lm.func_list[0].param_names)
    W.assume(kw["e1"] ** 2 + kw["e2"] ** 2 < 0.9, kw["e1"] ** 2 + kw["e2"] ** 2 > 1e-6)
    R2 = ell_r2(W, x, y, kw["e1"], kw["e2"], kw["center_x"], kw["center_y"])
    if not W.sym:
        W.assume(abs(R2 - kw["radius"] ** 2) > 1e-9)
    v = lm.surface_brightness(np.array([x]), np.array([y]), [kw])[0]
    if bool(R2 <= kw["radius"] ** 2):
        W.eq("constant inside the ellipse", v, kw["amp"] / (np.pi * kw["radius"] ** 2))
    else:
        W.eq("zero outside", v, 0 * R2)


@contract("C23", "profile.UNIFORM and MOFFAT", [P + "uniform.py::Uniform.function", P + "moffat.py::Moffat.function"], samples=20, timeout=60)
def uniform(W):
    from lenstronomy.LightModel.Profiles.moffat import Moffat

    x, y = W.array("x", 2, None, None, (-1.5, 1.5)), W.array("y", 2, None, None, (-1.5, 1.5))
    amp = W.real("amp", None, None, (-2, 2))
    W.eq("uniform", model(["UNIFORM"]).surface_brightness(x, y, [dict(amp=amp)]), [amp, amp])
    a, b = W.real("alpha", 0, None, (0.3, 2)), W.real("beta", 0, None, (0.5, 3))
    W.assume(a > 0)
    cx, cy = W.real("cx", None, None, (-1, 1)), W.real("cy", None, None, (-1, 1))
    W.eq("Moffat", Moffat().function(x, y, amp, a, b, cx, cy), amp * (1 + ((x - cx) ** 2 + (y - cy) ** 2) / a**2) ** (-b))


@contract("C23", "profile.LINE_PROFILE", [P + "lineprofile.py::LineProfile.function", P + "lineprofile.py::LineProfile.total_flux"], samples=40, timeout=60)
def line(W):
    """a box of the given length and width that starts at the given point and runs along the given angle"""
    lm = model(["LINE_PROFILE"])
    kw = params(W, "LINE_PROFILE", lm.func_list[0].param_names)
    # position in the frame of the line
    u, v = W.real("u", None, None, (-0.5, 3)), W.real("v", None, None, (-1.2, 1.2))
    a = kw["angle"] * np.pi / 180
    # positive angles turn the line clockwise (towards negative y), as documented by the rotation used
    c, s = W.cos(a), W.sin(a)
    x, y = kw["start_x"] + c * u + s * v, kw["start_y"] - s * u + c * v
    if not W.sym:
        W.assume(abs(u) > 1e-9, abs(u - kw["length"]) > 1e-9, abs(abs(v) - kw["width"] / 2) > 1e-9)
    f = lm.surface_brightness(np.array([x]), np.array([y]), [kw])[0]
    inside = bool(u >= 0) and bool(u <= kw["length"]) and bool(v <= kw["width"] / 2) and bool(v >= -kw["width"] / 2)
    W.eq("box", f, kw["amp"] if inside else 0 * u)
    W.eq("flux", lm.func_list[0].total_flux(**kw), kw["amp"] * kw["length"] * kw["width"])


@contract("C23", "sersic.truncation", [P + "sersic.py", "LensModel/Profiles/sersic_utils.py::SersicUtil._r_sersic"], samples=30, timeout=60, max_paths=64)
def trunc(W):
    """zero beyond max_R_frac half-light radii, constant within the smoothing radius, untruncated between"""
    from lenstronomy.LightModel.Profiles.sersic import Sersic

    amp, Rs, n = W.real("amp", 0, None, (0.5, 2)), W.real("R_sersic", 0, None, (0.2, 0.6)), W.real("n_sersic", 0.5, None, (0.6, 4))
    W.assume(Rs > 1e-3, n > 0.5)
    fr, sm = W.real("max_R_frac", 0, None, (1, 4)), W.real("smoothing", 0, None, (0.05, 0.3))
    W.assume(sm > 1e-6, sm < Rs, fr > 1)
    R = W.real("R", 0, None, (0, 3))
    s = Sersic(smoothing=sm)
    cx = W.real("cx", None, None, (-1, 1))
    v = s.function(np.array([cx + R]), np.array([0.0 * cx]), amp, Rs, n, center_x=cx, center_y=0, max_R_frac=fr)[0]
    if bool(R / Rs > fr):
        W.eq("zero beyond the largest radius", v, 0 * R)
    elif bool(R > sm):
        W.eq("unchanged between", v, sersic(W, R, dict(amp=amp, R_sersic=Rs, n_sersic=n)), 1e-6)
    else:
        W.eq("constant within the smoothing radius", v, sersic(W, sm, dict(amp=amp, R_sersic=Rs, n_sersic=n)), 1e-6)


@contract("C23", "sersic.major axis", ["LensModel/Profiles/sersic_utils.py::SersicUtil.get_distance_from_center", "LensModel/Profiles/sersic_utils.py::SersicUtil.total_flux"], samples=20, timeout=60)
def major(W):
    """with the major-axis convention the half-light radius is measured along the major axis: x'^2 + y'^2/q^2"""
    from lenstronomy.LightModel.Profiles.sersic import SersicElliptic

    lm, lp = SersicElliptic(smoothing=-1 if W.sym else 1e-4, sersic_major_axis=True), SersicElliptic()
    x, y = W.real("x", None, None, (-1.5, 1.5)), W.real("y", None, None, (-1.5, 1.5))
    kw = params(W, "SERSIC_ELLIPSE", lm.param_names)
    e1, e2 = kw["e1"], kw["e2"]
    c2 = e1**2 + e2**2
    W.assume(c2 < 0.9, c2 > 1e-6)
    q = (1 - W.sqrt(c2)) / (1 + W.sqrt(c2))
    R2 = ell_r2(W, x, y, e1, e2, kw["center_x"], kw["center_y"]) / q
    domain(W, "SERSIC", kw, R2)
    W.eq("radius along the major axis", lm.function(np.array([x]), np.array([y]), max_R_frac=np.inf if W.sym else 1000.0, **kw)[0], sersic(W, W.sqrt(R2), kw), 1e-6)
    # same profile as the product average with R_sersic * sqrt(q)
    W.eq("flux", lm.total_flux(**kw), lp.total_flux(**dict(kw, R_sersic=kw["R_sersic"] * W.sqrt(q))), 1e-6)


@contract("C23", "profile.SERSIC_ELLIPSE_Q_PHI", [P + "sersic.py::SersicElliptic_qPhi.function"], samples=20, timeout=60)
def qphi(W):
    from lenstronomy.LightModel.Profiles.sersic import SersicElliptic_qPhi

    lm = SersicElliptic_qPhi(smoothing=-1) if W.sym else model(["SERSIC_ELLIPSE_Q_PHI"]).func_list[0]
    x, y = W.real("x", None, None, (-1.5, 1.5)), W.real("y", None, None, (-1.5, 1.5))
    q, phi = W.real("q", 0, 1, (0.3, 0.95)), W.real("phi", None, None, (-3, 3))
    W.assume(q > 0.01, q < 0.999)
    kw = dict(amp=W.real("amp", 0, None, (0.5, 2)), R_sersic=W.real("R_sersic", 0, None, (0.2, 1)), n_sersic=W.real("n_sersic", 0.5, None, (0.6, 4)), q=q, phi=phi, center_x=W.real("cx", None, None, (-1, 1)), center_y=W.real("cy", None, None, (-1, 1)))
    u, v = x - kw["center_x"], y - kw["center_y"]
    c, s = W.cos(phi), W.sin(phi)
    R2 = q * (c * u + s * v) ** 2 + (c * v - s * u) ** 2 / q
    W.assume(kw["R_sersic"] > 1e-3, R2 > 1e-6, R2 < (90 * kw["R_sersic"]) ** 2, kw["n_sersic"] > 0.5)
    if not W.sym:
        W.assume(R2 > 1e-3)
    W.eq("Sersic profile at the radius of the axis ratio and angle", lm.function(np.array([x]), np.array([y]), max_R_frac=np.inf if W.sym else 1000.0, **kw)[0], sersic(W, W.sqrt(R2), kw), 1e-6)


@contract("C23", "profile.SERSIC_ELLIPSE_FLEXION", [P + "sersic_ellipse_with_flexion.py::SersicEllipseWithFlexion.function"], samples=60, sym=False)
def flexion(W):
    """Sersic ellipse at the coordinates mapped by the quadratic transformation (centre mapped along)"""
    la, lb = model(["SERSIC_ELLIPSE_FLEXION"]), model(["SERSIC_ELLIPSE"])
    kw = params(W, "SERSIC_ELLIPSE_FLEXION", la.func_list[0].param_names)
    x, y = W.array("x", 3, None, None, (-1.5, 1.5)), W.array("y", 3, None, None, (-1.5, 1.5))
    a, b1, b2, c1, c2, d1, d2 = [kw[q] for q in ("a", "b1", "b2", "c1", "c2", "d1", "d2")]

    def tr(x, y):
        # real and imaginary parts of z + a z + b z* + c* z^2 + 2 c z z* + d z*^2
        r2, p, m = x * x + y * y, x * x - y * y, 2 * x * y
        return (x + a * x + b1 * x + b2 * y + c1 * p + c2 * m + 2 * c1 * r2 + d1 * p + d2 * m,
                y + a * y + b2 * x - b1 * y + c1 * m - c2 * p + 2 * c2 * r2 + d2 * p - d1 * m)

    X, Y = tr(x, y)
    cx, cy = tr(kw["center_x"], kw["center_y"])
    kb = {q: kw[q] for q in lb.func_list[0].param_names}
    kb.update(center_x=cx, center_y=cy)
    W.assume(np.all((X - cx) ** 2 + (Y - cy) ** 2 > 1e-4), kw["R_sersic"] > 0.1)
    W.eq("mapped coordinates", la.surface_brightness(x, y, [kw]), lb.surface_brightness(X, Y, [kb]), 1e-8, 1e-12)


@contract("C23", "profile.DOUBLE_CHAMELEON", [P + "chameleon.py::DoubleChameleon.function", P + "chameleon.py::DoubleChameleon.light_3d"], samples=12, timeout=60)
def double(W):
    """two chameleons whose amplitudes add up to amp with the given ratio first / second"""
    lm, l1 = model(["DOUBLE_CHAMELEON"]), model(["CHAMELEON"])
    kw = params(W, "DOUBLE_CHAMELEON", lm.func_list[0].param_names)
    for i in "12":
        W.assume(kw["w_t" + i] > kw["w_c" + i] + 1e-3, kw["w_c" + i] > 1e-3)
    W.assume(kw["ratio"] > 1e-3)
    x, y, r = W.array("x", 1, None, None, (-1.5, 1.5)), W.array("y", 1, None, None, (-1.5, 1.5)), W.real("r", 0, None, (0.2, 2))
    a1, a2 = kw["amp"] * kw["ratio"] / (1 + kw["ratio"]), kw["amp"] / (1 + kw["ratio"])
    parts = [dict(amp=a, w_c=kw["w_c" + i], w_t=kw["w_t" + i], e1=kw["e1" + i], e2=kw["e2" + i], center_x=kw["center_x"], center_y=kw["center_y"]) for a, i in ((a1, "1"), (a2, "2"))]
    W.eq("sum of the parts", lm.surface_brightness(x, y, [kw]), sum(l1.surface_brightness(x, y, [p]) for p in parts))
    W.eq("sum of the 3d parts", lm.func_list[0].light_3d(r, **kw), sum(l1.func_list[0].light_3d(r, **p) for p in parts))


@contract("C23", "profile.TRIPLE_CHAMELEON", [P + "chameleon.py::TripleChameleon.function", P + "chameleon.py::TripleChameleon.light_3d"], samples=12, timeout=60)
def triple(W):
    """three chameleons whose amplitudes add up to amp with the given ratios first / second and first / third"""
    lm, l1 = model(["TRIPLE_CHAMELEON"]), model(["CHAMELEON"])
    kw = params(W, "TRIPLE_CHAMELEON", lm.func_list[0].param_names)
    for i in "123":
        W.assume(kw["w_t" + i] > kw["w_c" + i] + 1e-3, kw["w_c" + i] > 1e-3)
    W.assume(kw["ratio12"] > 1e-3, kw["ratio13"] > 1e-3)
    x, y, r = W.array("x", 1, None, None, (-1.5, 1.5)), W.array("y", 1, None, None, (-1.5, 1.5)), W.real("r", 0, None, (0.2, 2))
    p, q = kw["ratio12"], kw["ratio13"]
    a1 = kw["amp"] * p * q / (p * q + p + q)
    amps = [a1, a1 / p, a1 / q]
    W.eq("amplitudes add up", sum(amps), kw["amp"])
    parts = [dict(amp=a, w_c=kw["w_c" + i], w_t=kw["w_t" + i], e1=kw["e1" + i], e2=kw["e2" + i], center_x=kw["center_x"], center_y=kw["center_y"]) for a, i in zip(amps, "123")]
    W.eq("sum of the parts", lm.surface_brightness(x, y, [kw]), sum(l1.surface_brightness(x, y, [p]) for p in parts))
    W.eq("sum of the 3d parts", lm.func_list[0].light_3d(r, **kw), sum(l1.func_list[0].light_3d(r, **p) for p in parts))


@contract("C23", "profile.PL_SERSIC", [P + "pl_sersic.py::PL_Sersic.function", P + "pl_sersic.py::PL_Sersic.total_flux"], samples=10, sym=False, bounded="sampled parameters; numerical projection")
def plsersic(W):
    """projection of a power law inside r_c continued by the deprojected Sersic profile outside"""
    from scipy.integrate import quad

    lm = model(["PL_SERSIC"])
    kw = params(W, "PL_SERSIC", lm.func_list[0].param_names)
    x, y = W.real("x", None, None, (-1, 1)), W.real("y", None, None, (-1, 1))
    R = float(np.sqrt(ell_r2(W, x, y, kw["e1"], kw["e2"], kw["center_x"], kw["center_y"])))
    rc, n = kw["r_c"], kw["n_sersic"]
    W.assume(R > 0.02, abs(R - rc) > 0.02, R < 6 * kw["R_sersic"])
    nu = 1 / n
    u = 1 - 0.6097 * nu + 0.054635 * nu**2
    s = kw["R_sersic"] / (2 * n)

    def j(r):
        if r < rc:
            return kw["amp"] * (r / rc) ** -kw["alpha_c"]
        return kw["amp"] * (r / rc) ** -u * np.exp((rc / s) ** nu - (r / s) ** nu)

    lo = np.sqrt(max(rc**2 - R**2, 0))
    f = lambda z: j(np.sqrt(R * R + z * z))
    num = 2 * ((quad(f, 0, lo, epsabs=0, epsrel=1e-8)[0] if lo > 0 else 0) + quad(f, lo, lo + 1, epsabs=0, limit=300, epsrel=1e-8)[0] + quad(f, lo + 1, np.inf, epsabs=1e-12, limit=300)[0])
    # the deprojection (Prugniel & Simien) is an approximation
    W.eq("projection", lm.surface_brightness(np.array([x]), np.array([y]), [kw])[0], num, 1e-5 if R < rc else 0.12, 1e-9)
    tot = 4 * np.pi * (quad(lambda r: j(r) * r * r, 0, rc, limit=300)[0] + quad(lambda r: j(r) * r * r, rc, rc + 5, limit=300)[0] + quad(lambda r: j(r) * r * r, rc + 5, np.inf, limit=300)[0])
    W.eq("total flux", lm.total_flux([kw])[0], tot, 1e-5)


def _project(m):
    @contract("C23", "projection." + m, [P], samples=6, sym=False, bounded="sampled parameters and radii; numerical projection of the real code")
    def body(W):
        """the surface brightness is the line-of-sight integral of light_3d"""
        from scipy.integrate import quad

        lm = model([m])
        kw = params(W, m, lm.func_list[0].param_names)
        for q in kw:
            if q[:2] in ("e1", "e2"):
                kw[q] = 0.0
        if m == "POWER_LAW":
            kw["gamma"] = W.real("gamma_n", 1.3, 2.8)
        for t in ("", "1", "2", "3"):
            if "w_t" + t in kw:
                W.assume(kw["w_t" + t] > kw["w_c" + t] + 0.05)
        if "Ra" in kw:
            W.assume(abs(kw["Ra"] - kw["Rs"]) > 0.05)
        R = W.real("R", 0, None, (0.1, 2))
        if "Rs" in kw:
            W.assume(abs(R / kw["Rs"] - 1) > 0.02)
        k3 = {q: v for q, v in kw.items() if q not in ("center_x", "center_y")}
        if m.startswith("MGE"):
            f3 = lambda r: float(lm.func_list[0].light_3d(np.array([r]), **k3)[0])
        else:
            f3 = lambda r: float(np.squeeze(lm.light_3d(np.array([r]), [kw])))
        num = 2 * (quad(lambda z: f3(np.sqrt(R * R + z * z)), 0, 2, epsabs=0, epsrel=1e-9, limit=300)[0] + quad(lambda z: f3(np.sqrt(R * R + z * z)), 2, np.inf, limit=300, epsrel=1e-9)[0])
        ph = W.real("phi", 0, 6)
        v = lm.surface_brightness(np.array([kw["center_x"] + R * np.cos(ph)]), np.array([kw["center_y"] + R * np.sin(ph)]), [kw])[0]
        W.eq("line-of-sight integral", v, num, 2e-4, 1e-7)


for _m in ("HERNQUIST", "HERNQUIST_ELLIPSE", "PJAFFE", "PJAFFE_ELLIPSE", "GAUSSIAN", "GAUSSIAN_ELLIPSE", "MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE", "NIE", "POWER_LAW", "CHAMELEON", "DOUBLE_CHAMELEON", "TRIPLE_CHAMELEON", "MGE_SET", "MGE_SET_ELLIPSE"):
    _project(_m)


@contract("C23", "sersic.half light", [P + "sersic.py::Sersic.function", "LensModel/Profiles/sersic_utils.py::SersicUtil.b_n"], samples=10, sym=False, bounded="sampled Sersic indices 0.7-8; accuracy of the linear b_n approximation")
def half(W):
    """half of the light is within R_sersic"""
    from scipy.integrate import quad

    lm = model(["SERSIC"])
    n = W.real("n", 0.7, 8)
    kw = [dict(amp=W.real("amp", 0.5, 2), R_sersic=W.real("R", 0.3, 2), n_sersic=n, center_x=0.3, center_y=-0.2)]
    f = lambda R: 2 * np.pi * R * lm.surface_brightness(np.array([0.3]), np.array([-0.2 + R]), kw)[0]
    W.eq("half light", quad(f, 0, kw[0]["R_sersic"], limit=200)[0] / lm.total_flux(kw)[0], 0.5, 0.01)
    W.eq("amplitude is the brightness at R_sersic", lm.surface_brightness(np.array([0.3 + kw[0]["R_sersic"]]), np.array([-0.2]), kw)[0], kw[0]["amp"], 1e-9)


@contract("C23", "interpol.pixels", [P + "interpolation.py::Interpol.function", P + "interpolation.py::Interpol.total_flux"], samples=20, sym=False, bounded="5x4 and 4x7 images, sampled parameters")
def interpol(W):
    """image pixel values at the pixel positions of the rotated, scaled, shifted image; bilinear between, zero outside"""
    lm = model(["INTERPOL"])
    sh = W.choice("shape", [(5, 4), (4, 7), (6, 6)])
    im = W.array("image", sh, None, None, (0.1, 1))
    ny, nx = sh
    kw = dict(image=im, amp=W.real("amp", 0.5, 2), center_x=W.real("cx", -1, 1), center_y=W.real("cy", -1, 1), phi_G=W.real("phi", -3, 3), scale=W.real("scale", 0.2, 2))
    j, i = np.meshgrid(np.arange(nx), np.arange(ny))
    jx, iy = j - (nx - 1) / 2, i - (ny - 1) / 2
    c, s = np.cos(kw["phi_G"]), np.sin(kw["phi_G"])

    def sky(px, py):
        # the image is turned counter-clockwise by phi_G
        return kw["center_x"] + kw["scale"] * (c * px - s * py), kw["center_y"] + kw["scale"] * (s * px + c * py)

    X, Y = sky(jx, iy)
    v = lm.surface_brightness(X.flatten(), Y.flatten(), [kw])
    W.eq("pixel values", v, kw["amp"] * im.flatten(), 1e-8, 1e-10)
    # bilinear
    X, Y = sky(jx[:-1, :-1] + 0.25, iy[:-1, :-1] + 0.6)
    b = 0.75 * 0.4 * im[:-1, :-1] + 0.25 * 0.4 * im[:-1, 1:] + 0.75 * 0.6 * im[1:, :-1] + 0.25 * 0.6 * im[1:, 1:]
    W.eq("bilinear between pixels", lm.surface_brightness(X.flatten(), Y.flatten(), [kw]), kw["amp"] * b.flatten(), 1e-8, 1e-10)
    X, Y = sky(np.array([(nx + 1) / 2 + 0.1, -(nx + 1) / 2 - 0.5, 0.0, 0.3]), np.array([0.0, 0.2, (ny + 1) / 2 + 0.1, -(ny + 1) / 2 - 3]))
    W.eq("zero outside", lm.surface_brightness(X, Y, [kw]), np.zeros(4), 0, 1e-12)
    W.eq("flux", lm.total_flux([kw])[0], kw["amp"] * np.sum(im) * kw["scale"] ** 2, 1e-9)
    # a changed image is picked up
    k2 = dict(kw, image=2 * im)
    X, Y = sky(jx, iy)
    W.eq("changed image", lm.surface_brightness(X.flatten(), Y.flatten(), [k2]), 2 * kw["amp"] * im.flatten(), 1e-8, 1e-10)


@contract("C23", "starlets.inverse", [P + "starlets.py::SLIT_Starlets.function_2d", P + "starlets.py::SLIT_Starlets.decomposition", P + "starlets_util.py::transform", P + "starlets_util.py::inverse_transform"], samples=16, sym=False, bounded="8x8 and 9x9 images, 2-4 scales; the pure Python transforms")
def starlets(W):
    """reconstruction of the decomposition is the image, for both generations and both ways to invert; scales have zero mean response to constants"""
    import warnings
    from lenstronomy.LightModel.Profiles.starlets import SLIT_Starlets

    n = W.choice("n", [8, 9])
    im = W.array("image", (n, n), None, None, (-1, 1))
    ns = W.choice("n_scales", [2, 3, 4])
    gen, fast = W.choice("second_gen", [True, False]), W.choice("fast", [True, False])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = SLIT_Starlets(fast_inverse=fast, second_gen=gen, force_no_pysap=True)
    c = s.decomposition_2d(im, ns)
    W.shape("coefficients", c, (ns, n, n))
    W.eq("reconstruction", s.function_2d(c, ns, n * n), im, 1e-9, 1e-11)
    c1 = s.decomposition(im.flatten(), ns)
    W.eq("one-dimensional coefficients", c1, c.flatten(), 1e-12, 1e-14)
    g = (np.arange(n) - (n - 1) / 2) * 0.7
    X, Y = np.meshgrid(g + 0.3, g - 0.2)
    v = s.function(X.flatten(), Y.flatten(), amp=c1, n_scales=ns, n_pixels=n * n, scale=0.7, center_x=0.3, center_y=-0.2)
    W.eq("surface brightness is the image at the pixel positions", v, im.flatten(), 1e-8, 1e-10)
    s2 = SLIT_Starlets(fast_inverse=fast, second_gen=gen, force_no_pysap=True)
    k = s2.decomposition_2d(np.full((n, n), 2.5), ns)
    W.eq("constants are in the coarsest scale only", k[:-1], np.zeros((ns - 1, n, n)), 0, 1e-12)
    W.eq("constants are kept", k[-1], np.full((n, n), 2.5), 1e-12)
    # B3-spline smoothing: h = (1, 4, 6, 4, 1)/16 in each direction
    d = np.zeros((33, 33))
    d[16, 16] = 1.0
    w = s2.decomposition_2d(d, 2)
    h = np.array([1, 4, 6, 4, 1]) / 16
    e = np.zeros((33, 33))
    e[14:19, 14:19] = np.outer(h, h)
    W.eq("smoothing kernel", w[1], e, 1e-12, 1e-14)


HER = [lambda x: 1 + 0 * x, lambda x: 2 * x, lambda x: 4 * x**2 - 2, lambda x: 8 * x**3 - 12 * x, lambda x: 16 * x**4 - 48 * x**2 + 12]


@contract("C23", "shapelets.hermite", [P + "shapelets.py::Shapelets.function", P + "shapelets.py::Shapelets.pre_calc", P + "shapelets.py::ShapeletSet.function", P + "shapelets.py::ShapeletSet.function_split"], samples=12, timeout=60,
          bounded="orders up to 2 in symbolic, 4 in the sampled world; all positions and scales")
def shapelets(W):
    """basis functions H_n1(x/beta) H_n2(y/beta) exp(-r^2 / 2 beta^2) / sqrt(2^(n1+n2) pi n1! n2!) in the order (0,0),(1,0),(0,1),(2,0),..."""
    import math
    from lenstronomy.LightModel.Profiles.shapelets import Shapelets, ShapeletSet

    nm = 2 if W.sym else 4
    num = (nm + 1) * (nm + 2) // 2
    x, y, b = W.array("x", 1, None, None, (-1.5, 1.5)), W.array("y", 1, None, None, (-1.5, 1.5)), W.real("beta", 0, None, (0.3, 1.5))
    cx, cy = W.real("cx", None, None, (-1, 1)), W.real("cy", None, None, (-1, 1))
    amp = [W.real("amp%d" % i, None, None, (-1, 1)) for i in range(num)]
    u, v = (x - cx) / b, (y - cy) / b
    # below the stability cut
    W.assume(b > 1e-3, u[0] < 7, v[0] < 7, u[0] > -7, v[0] > -7)
    order = [(k - l, l) for k in range(nm + 1) for l in range(k + 1)]
    one1 = lambda n, t: (1.0 / np.sqrt(2**n * np.sqrt(np.pi) * math.factorial(n))) * (HER[n](t) * W.exp(-(t[0] ** 2) / 2))
    base = [one1(n1, u) * one1(n2, v) for n1, n2 in order]
    s = ShapeletSet()
    sp = s.function_split(x, y, amp, nm, b, cx, cy)
    W.same("number", len(sp), num)
    for i in range(num):
        W.eq("basis function", sp[i], amp[i] * base[i], 1e-7, 1e-12)
    W.eq("sum", s.function(x, y, amp, nm, b, cx, cy), sum(amp[i] * base[i] for i in range(num)), 1e-7, 1e-12)
    one = Shapelets(interpolation=False, precalc=False)
    for i in (0, 1, 4):
        W.eq("single shapelet", one.function(x, y, amp[i], b, order[i][0], order[i][1], cx, cy), amp[i] * base[i], 1e-7, 1e-12)


@contract("C23", "shapelets.ellipse", [P + "shapelets_ellipse.py::ShapeletSetEllipse.function", P + "shapelets_ellipse.py::ShapeletSetEllipse.function_split"], samples=12, timeout=60, bounded="order 1 (structure); all positions, scales and ellipticities")
def shap_ell(W):
    """circular shapelets at the coordinates of the ellipse (coordinate transformation: C09)"""
    import lenstronomy.Util.param_util as pu

    a, b = model(["SHAPELETS_ELLIPSE"]), model(["SHAPELETS"])
    kw = params(W, "SHAPELETS_ELLIPSE", a.func_list[0].param_names)
    x, y = W.array("x", 1, None, None, (-1, 1)), W.array("y", 1, None, None, (-1, 1))
    W.assume(kw["e1"] ** 2 + kw["e2"] ** 2 < 0.9)
    u, v = pu.transform_e1e2_product_average(x, y, kw["e1"], kw["e2"], kw["center_x"], kw["center_y"])
    kb = {k: kw[k] for k in b.func_list[0].param_names}
    kb.update(center_x=0.0, center_y=0.0)
    W.eq("surface brightness", a.surface_brightness(x, y, [kw]), b.surface_brightness(u, v, [kb]), 1e-6, 1e-10)
    p, q = a.functions_split(x, y, [kw])[0], b.functions_split(u, v, [kb])[0]
    for i in range(3):
        W.eq("basis function", p[i], q[i], 1e-6, 1e-10)


@contract("C23", "shapelets.decomposition", [P + "shapelets.py::ShapeletSet.decomposition", P + "shapelets_polar.py::ShapeletSetPolar.decomposition", P + "shapelets.py::ShapeletSet.shapelet_basis_2d"], samples=9, sym=False, bounded="orders 1-5; fine pixel grids")
def decomposition(W):
    """the decomposition recovers the amplitudes of any shapelet image (orthonormality of the basis)"""
    from lenstronomy.LightModel.Profiles.shapelets import ShapeletSet
    from lenstronomy.LightModel.Profiles.shapelets_polar import ShapeletSetPolar
    import lenstronomy.Util.util as util

    kind = W.choice("kind", ["cartesian", "polar", "exponential"])
    nm = W.choice("n_max", [1, 2, 3, 5] if kind != "exponential" else [1, 2])
    s = ShapeletSet() if kind == "cartesian" else ShapeletSetPolar(exponential=kind == "exponential")
    num = (nm + 1) * (nm + 2) // 2 if kind != "exponential" else (nm + 1) ** 2
    amp = W.array("amp", num, None, None, (-1, 1))
    b = W.real("beta", 1, 1.5) if kind != "exponential" else W.real("beta", 0.4, 0.5)
    cx, cy = W.real("cx", -0.5, 0.5), W.real("cy", -0.5, 0.5)
    d = 0.2 if kind != "exponential" else 0.15
    x, y = util.make_grid(121 if kind != "exponential" else 401, d)
    im = s.function(x, y, amp, nm, b, cx, cy)
    W.eq("amplitudes", s.decomposition(im, x, y, nm, b, d, cx, cy), amp, 1e-5 if kind != "exponential" else 0.03, 1e-6 if kind != "exponential" else 0.02)
    if kind == "cartesian":
        bl = s.shapelet_basis_2d(nm, 3 * b, 21, 0.9, 0.4, -0.7)
        gx, gy = util.make_grid(21, 0.9)
        W.same("number of kernels", len(bl), num)
        tot = sum(amp[i] * bl[i] for i in range(num))
        W.eq("basis images", tot.flatten(), s.function(gx, gy, amp, nm, 3 * b, 0.4, -0.7), 1e-9, 1e-12)


@contract("C23", "shapelets.polar", [P + "shapelets_polar.py::ShapeletsPolar.function", P + "shapelets_polar.py::ShapeletsPolarExp.function", P + "shapelets_polar.py::ShapeletSetPolar._pre_calc"], samples=30, sym=False)
def polar(W):
    """polar basis functions: chi_nm(r) cos(m phi) and -chi_nm(r) sin(m phi), in the order of the index"""
    import math
    import scipy.special as sp
    from lenstronomy.LightModel.Profiles.shapelets_polar import ShapeletSetPolar, ShapeletsPolar, ShapeletsPolarExp

    ex = W.choice("exponential", [True, False])
    nm = 3
    s = ShapeletSetPolar(exponential=ex)
    num = s.shapelets.num_param(nm)
    x, y, b = W.array("x", 3, None, None, (-1.5, 1.5)), W.array("y", 3, None, None, (-1.5, 1.5)), W.real("beta", 0.3, 1.5)
    cx, cy = W.real("cx", -1, 1), W.real("cy", -1, 1)
    amp = W.array("amp", num, None, None, (0.5, 1))
    split = s.function_split(x, y, amp, nm, b, cx, cy)
    r, ph = np.hypot(x - cx, y - cy), np.arctan2(y - cy, x - cx)
    one = ShapeletsPolarExp() if ex else ShapeletsPolar()
    seen = set()
    for i in range(num):
        n, m, im = s.index2poly(i)
        seen.add((n, m, im))
        if ex:
            u = 2 * r / (b * (2 * n + 1))
            chi = (-1) ** (n - m) * np.sqrt(2 / (b**2 * np.pi * (2 * n + 1) ** 3) * math.factorial(n - m) / math.factorial(n + m)) * u**m * sp.eval_genlaguerre(n - m, 2 * m, u) * np.exp(-u / 2)
        else:
            p, q = (n - m) // 2, (n + m) // 2
            chi = (-1) ** p / b ** (m + 1) * np.sqrt(math.factorial(p) / np.pi / math.factorial(q)) * r**m * sp.eval_genlaguerre(p, m, (r / b) ** 2) * np.exp(-((r / b) ** 2) / 2)
        e = chi * (-np.sin(m * ph) if im else np.cos(m * ph))
        W.eq("basis function", split[i], amp[i] * e, 1e-7, 1e-12)
        W.eq("single function", one.function(x, y, amp[i], b, n, m, im, cx, cy), amp[i] * e, 1e-7, 1e-12)
    W.same("no basis function twice", len(seen), num)


@contract("C23", "shapelets.index", [P + "shapelets_polar.py::ShapeletsPolar.index2poly", P + "shapelets_polar.py::ShapeletsPolar.poly2index", P + "shapelets_polar.py::ShapeletsPolarExp.index2poly", P + "shapelets_polar.py::ShapeletsPolarExp.poly2index"], samples=1, bounded="all indices below 500 (exhaustive)", timeout=60)
def index(W):
    """index and quantum numbers are inverse of each other"""
    from lenstronomy.LightModel.Profiles.shapelets_polar import ShapeletsPolar, ShapeletsPolarExp

    for s in (ShapeletsPolar(), ShapeletsPolarExp()):
        back, ok, mono = [], True, True
        last = 0
        for i in range(500):
            n, m, c = s.index2poly(i)
            back.append(s.poly2index(n, m, c))
            ok = ok and 0 <= m <= n and not (c and m == 0)
            mono = mono and n >= last
            last = n
        W.same("inverse", back, list(range(500)))
        W.true("valid quantum numbers", ok)
        W.true("ordered by order", mono)
        n = 0
        for nm in range(15):
            W.same("all orders up to n_max", sum(1 for i in range(500) if s.index2poly(i)[0] <= nm), s.num_param(nm))

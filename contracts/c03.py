"""C03: masses, densities and deflections of (spherical) profiles agree."""
import importlib
import inspect
import math

import numpy as np

from lv.world import contract
from contracts.lens_table import TABLE
from contracts.lensdefs import real

PI = math.pi


def _get(s):
    return s.instance()


def _names(f):
    ps = list(inspect.signature(f).parameters.values())
    return [p.name for p in ps if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY) and p.name != "self"]


# spec name -> the methods to look at are discovered on the class; (methods in rho units, methods in lens units)
SKIP = {
    "NIE_SIMPLE", "CURVED_ARC_CONST", "CURVED_ARC_CONST_MST",
    "EPL_NUMBA",
    # one-line delegations to the circular class are covered through it
}
OVER = {"amp": (0, None, (0.5, 2)), "scale_factor": (0, None, (0.5, 2))}
NOSYM3 = {"GNFW", "CNFW", "TNFWC", "coreBURKERT", "NFW_ELLIPSE_GAUSS_DEC", "PSEUDO_DPL", "SPL_CORE", "ULDM", "MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE_POTENTIAL",
          "CNFW_ELLIPSE_POTENTIAL", "HERNQUIST_ELLIPSE_CSE", "NFW_ELLIPSE_CSE"}
TOL = {"HERNQUIST": 1e-3, "HERNQUIST_ELLIPSE_POTENTIAL": 1e-3, "HERNQUIST_ELLIPSE_CSE": 1e-3}
ABSENT = {("TNFW_ELLIPSE_POTENTIAL", "density_lens"), ("TNFW_ELLIPSE_POTENTIAL", "mass_3d_lens")}  # delegate to methods TNFW does not define
NO_AVG = {"NFW_ELLIPSE_CSE", "HERNQUIST_ELLIPSE_CSE"}


def _kw(W, s, names, over=None):
    """values for the named parameters"""
    kw = {}
    o = dict(s.over)
    o.update(over or {})
    for n in names:
        if n in ("center_x", "center_y", "scale_factor"):
            continue
        if n in ("e1", "e2", "e11", "e21", "e12", "e22", "e13", "e23"):
            kw[n] = 0 * W.const(0.0)
        elif n == "rho0":
            kw[n] = W.real("rho0", 0, None, (0.3, 2))
        elif s.extra and n in s.extra:
            kw[n] = s.extra[n](W)
        elif n == "q":
            kw[n] = W.const(0.9999999) if not W.sym else W.real("q", 0, 1)
        elif n == "phi":
            kw[n] = 0.0
        else:
            kw[n] = real(W, n, o)
    return kw


def _pre(W, s, r, kw):
    W.assume(r > W.const(1e-2))
    if not W.sym and "Rs" in kw and 0 < abs(r / kw["Rs"] - 1) < 1e-3:
        W.assume(False)  # cancellation of machine arithmetic around the removable singularity
    for n in ("Rs", "r_core", "sigma", "theta_c", "R_sersic", "r_trunc", "w_c", "s_scale"):
        if n in kw and not isinstance(kw[n], np.ndarray):
            W.assume(r > W.const(1e-2) * kw[n])
    if "Ra" in kw:
        W.assume((kw["Rs"] - kw["Ra"]) ** 2 > W.const(1e-3))
    for i in ("", "1", "2", "3"):  # the difference of two cored isothermal profiles
        if "w_c" + i in kw:
            W.assume(kw["w_t" + i] > kw["w_c" + i] + W.const(0.1))


def _xy(W, r):
    """a position at radius r off the axes"""
    return W.const(0.6) * r, W.const(0.8) * r


def _radial(W, a):
    return W.const(0.6) * a[0] + W.const(0.8) * a[1]


def _tang(W, a):
    return W.const(0.6) * a[1] - W.const(0.8) * a[0]


def _pair(s, mass, dens, tag, area):
    p0 = _get(s)
    fn = ["LensModel/Profiles/%s.py::%s.%s" % (s.mod, s.cls, m) for m in (mass, dens)]

    @contract("C03", "%s.%s" % (s.name, tag), fn, samples=5, sym=s.name not in NOSYM3, timeout=60)
    def body(W):
        p = _get(s)
        r = W.real("r", 0, None, (0.3, 3))
        fm, fd = getattr(p, mass), getattr(p, dens)
        nm, nd = _names(fm), _names(fd)
        kw = _kw(W, s, [n for n in nm[1:]])
        kd = {n: kw[n] for n in nd if n in kw}
        _pre(W, s, r, kw)
        km = {n: kw[n] for n in nm if n in kw}
        if area == 2:
            d = 2 * W.pi * r * fd(*_xy(W, r), **kd)
        else:
            d = 4 * W.pi * r ** 2 * fd(r, **kd)
        W.eq_grad("the derivative of the enclosed mass is the shell mass", lambda z: fm(z, **km), (r,), (d,), TOL.get(s.name, s.rtol), s.atol)


def _link(s):
    """deflection and convergence against the mass and density functions in lens units"""
    p0 = _get(s)
    has = lambda m: m in dir(p0) and not _notimpl(p0, m)
    fn = ["LensModel/Profiles/%s.py::%s" % (s.mod, s.cls)]

    if has("density_lens") and has("density") and "rho0" in _names(p0.density):
        @contract("C03", "%s.lens-units" % s.name, [f + ".density_lens" for f in fn], samples=4, sym=s.name not in NOSYM3)
        def lens(W):
            p = _get(s)
            r, r2 = W.real("r", 0, None, (0.3, 3)), W.real("r2", 0, None, (0.3, 3))
            kw = _kw(W, s, _names(p.density_lens)[1:])
            _pre(W, s, r, kw)
            _pre(W, s, r2, kw)
            base = {n: kw[n] for n in _names(p.density) if n in kw}
            u = p.density(r, rho0=1, **base)
            W.assume(u > 0)
            rho0 = p.density_lens(r, **kw) / u
            b3 = {n: v for n, v in base.items() if has("mass_3d") and n in _names(p.mass_3d)}
            W.eq("the density in lens units is the density with one normalisation", p.density_lens(r2, **kw), p.density(r2, rho0=rho0, **base))
            if has("mass_3d") and has("mass_3d_lens"):
                k3 = {n: kw[n] for n in _names(p.mass_3d_lens) if n in kw}
                W.eq("mass_3d_lens is mass_3d with the normalisation of density_lens", p.mass_3d_lens(r2, **k3), p.mass_3d(r2, rho0=rho0, **b3))
            if has("mass_2d") and has("mass_2d_lens"):
                k2 = {n: kw[n] for n in _names(p.mass_2d_lens) if n in kw}
                W.eq("mass_2d_lens is mass_2d with the normalisation of density_lens", p.mass_2d_lens(r2, **k2), p.mass_2d(r2, rho0=rho0, **b3))
            rhoA = rho0
            kk = {n: v for n, v in kw.items()}
            if has("mass_2d") and not s.pot is None:
                m2 = p.mass_2d(r2, rho0=rho0, **{n: base[n] for n in _names(p.mass_2d) if n in base})
                a = p.derivatives(*_xy(W, r2), **kk)
                W.eq("deflection is projected mass over pi R", _radial(W, a) * W.pi * r2, m2, 1e-3 if s.name in NO_AVG else 1e-5, 1e-7)
            if has("density_2d"):
                fxx, _, _, fyy = p.hessian(*_xy(W, r2), **kk)
                d2 = p.density_2d(*_xy(W, r2), rho0=rho0, **{n: base[n] for n in _names(p.density_2d) if n in base})
                if s.exact:
                    W.eq("convergence is the surface density", (fxx + fyy) / 2, d2, 1e-3 if s.name in NO_AVG else 1e-5, 1e-7)
                elif not W.sym and abs(r2 / kw.get("Rs", 1e9) - 1) > 1e-2:
                    W.eq("convergence is the surface density", (fxx + fyy) / 2, d2, 2e-3, 1e-4)

    if has("mass_2d_lens"):
        @contract("C03", "%s.alpha" % s.name, [f + ".mass_2d_lens" for f in fn] + [f + ".derivatives" for f in fn], samples=4, sym=s.name not in NOSYM3)
        def alpha(W):
            p = _get(s)
            R = W.real("r", 0, None, (0.3, 3))
            kw = _kw(W, s, _names(p.mass_2d_lens)[1:])
            _pre(W, s, R, kw)
            a = p.derivatives(*_xy(W, R), **kw)
            W.eq("deflection is radial", _tang(W, a), 0 * R, 1e-5, 1e-7)
            W.eq("deflection is projected mass over pi R", _radial(W, a) * W.pi * R, p.mass_2d_lens(R, **kw), 1e-5, 1e-7)

    # projection along the line of sight (numerical integration: sampled)
    dl = "density_lens" if has("density_lens") else None
    if dl and s.name not in ("SIE",):
        @contract("C03", "%s.projection" % s.name, [f + ".density_lens" for f in fn] + [f + ".hessian" for f in fn], samples=3, sym=False)
        def projection(W):
            from scipy.integrate import quad

            p = _get(s)
            R = W.real("r", 0, None, (0.4, 2))
            kw = _kw(W, s, _names(p.density_lens)[1:])
            _pre(W, s, R, kw)
            k1 = dict(kw)
            def g(u):
                return float(np.asarray(p.density_lens(R * math.cosh(u), **k1))) * R * math.cosh(u)
            val = 2 * (quad(g, 0, 8, limit=200, epsrel=1e-8)[0] + quad(g, 8, 40 if s.name == "ULDM" else 60, limit=200, epsrel=1e-8)[0])
            kap = dict(kw)
            if "e1" in _names(p.hessian) and "e1" not in kap:
                kap["e1"] = kap["e2"] = 0.0
            if "q" in _names(p.hessian):
                kap["q"], kap["phi"] = 0.99999999, 0.0
            fxx, _, _, fyy = p.hessian(R, 1e-9 * R, **kap)
            W.eq("the convergence is the projected 3d density", (fxx + fyy) / 2, val, 3e-3, 1e-4)
            h = 1e-3 * R
            ra = lambda z: z * _radial(W, p.derivatives(*_xy(W, z), **kap))
            W.eq("the projected mass grows with the projected 3d density", (ra(R + h) - ra(R - h)) / (2 * h), 2 * R * val, 1e-2, 1e-4)


def _notimpl(p, m):
    if (_CUR[0], m) in ABSENT:
        return True
    for c in type(p).__mro__:
        if m in c.__dict__:
            return c.__name__ == "LensProfileBase"
    return True


_CUR = [None]
for _s in list(TABLE.values()):
    _CUR[0] = _s.name
    if _s.name in SKIP or _s.name.endswith("_MST"):
        continue
    try:
        _p = _get(_s)
    except Exception:
        continue
    _h = lambda m: m in dir(_p) and not _notimpl(_p, m)
    for _m, _d, _a, _t in (("mass_3d", "density", 3, "mass3d"), ("mass_3d_lens", "density_lens", 3, "mass3d_lens"), ("mass_2d", "density_2d", 2, "mass2d")):
        if _h(_m) and _h(_d):
            if not (set(_names(getattr(_p, _d))) <= set(_names(getattr(_p, _m))) | {"r", "R", "x", "y", "center_x", "center_y", "e1", "e2", "scale_factor"}):
                continue
            _pair(_s, _m, _d, _t, _a)
    _link(_s)

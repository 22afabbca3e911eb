"""C24: evaluation on an array of positions is the evaluation at each position."""
import numpy as np
from lv.world import contract
from contracts.lens_table import TABLE, abstract_nie
from contracts.common import abstract_profiles, ALL, lens_kwargs, cosmology
from contracts.lightdefs import NAMES, NOSYM, MULTI, pkw, params
from contracts.c22 import methods, flat, NUMFUN
from contextlib import nullcontext

SLOW = {"GreenBoschNFW": 1}
# profiles whose branches are too many for two symbolic positions at once: arrays of one position in the proof
ONE = {"CURVED_ARC_CONST", "CURVED_ARC_CONST_MST", "CURVED_ARC_SPT", "GAUSSIAN", "GAUSSIAN_ELLIPSE_POTENTIAL", "HERNQUIST", "HERNQUIST_ELLIPSE_POTENTIAL", "NFW",
       "NFW_ELLIPSE_POTENTIAL", "NFW_MC", "PJAFFE", "PJAFFE_ELLIPSE_POTENTIAL", "SERSIC", "SPL_CORE", "TNFW_ELLIPSE_POTENTIAL", "MULTI_GAUSSIAN", "EPL_BOXYDISKY_ELL", "EPL_MULTIPOLE_M1M3M4_ELL", "EPL_MULTIPOLE_M3M4_ELL"}
# too many branches even for one position: float world only
FLOATONLY = {"HERNQUIST_ELLIPSE_POTENTIAL", "NFW_ELLIPSE_POTENTIAL", "PJAFFE_ELLIPSE_POTENTIAL", "TNFW_ELLIPSE_POTENTIAL", "GAUSSIAN_ELLIPSE_POTENTIAL"}
LONE = {"SERSIC_ELLIPSE_Q_PHI", "SHAPELETS"}
# numerical derivatives: rounding noise of the difference quotient
LOOSE = {"CNFW_ELLIPSE_POTENTIAL": 1e-4, "TNFW_ELLIPSE_POTENTIAL": 1e-3, "NFW_ELLIPSE_POTENTIAL": 1e-3, "CORED_DENSITY": 1e-6}
RADII = [0.0, 1e-4, 1e-2, 0.3, 0.7, 0.97, 1.0, 1.03, 1.5, 3.0, 30.0]


def elementwise(W, label, out, single, n, rtol=1e-7, atol=1e-9):
    """out: results on an array of n positions; single[i]: results at position i"""
    for c, o in enumerate(out):
        o = broadcast(o, n)
        W.shape("%s: one value per position" % label, o, (n,))
        for i in range(n):
            W.eq("%s: value of a position" % label, o[i], single[i][c], rtol=rtol, atol=atol)


def broadcast(o, n):
    """a quantity that does not depend on the position may be returned once (numpy broadcasts it)"""
    return o if np.shape(o) else np.array([o] * n, dtype=object if not isinstance(o, (int, float)) else float)


def _lens(s):
    fn = "LensModel/Profiles/%s.py::%s." % (s.mod, s.cls)

    @contract("C24", "lens." + s.name, [fn + m for m in methods(s)], samples=SLOW.get(s.name, 12), sym=s.sym and s.name not in FLOATONLY, timeout=min(s.timeout, 60), max_paths=60, bounded="arrays of %s in the proof (four positions in the float world)" % ("one position" if s.name in ONE else "two positions"))
    def body(W):
        n = (1 if s.name in ONE else 2) if W.sym else 4
        x, y = W.array("x", n, None, None, (-2, 2)), W.array("y", n, None, None, (-2, 2))
        kw = s.kwargs(W, x[0], y[0])
        if not W.sym:
            # spread over the branches of the profile: at multiples of its scale radii
            cx, cy = kw.get("center_x", kw.get("ra_0", 0.0)), kw.get("center_y", kw.get("dec_0", 0.0))
            rs = [1.0] + [float(v) for k, v in kw.items() if isinstance(v, float) and 0 < v < 10 and k not in ("center_x", "center_y", "e1", "e2")]
            for i in range(1, n):
                r = W.choice("scale%d" % i, rs) * W.choice("r%d" % i, RADII[1:])
                sx, sy = W.choice("direction%d" % i, [(0.6, 0.8), (1.0, 0.0), (0.0, -1.0), (-0.8, 0.6)])
                x[i], y[i] = cx + r * sx, cy + r * sy
        with abstract_nie(W) if s.callee == "nie" else nullcontext():
            ms = [m for m in methods(s) if not (W.sym and m == "function" and s.name in NUMFUN)]
            m = W.choice("method", ms)
            p = s.instance()
            out = flat(getattr(p, m)(x, y, **kw))
            one = [flat(getattr(p, m)(x[i] if W.sym else float(x[i]), y[i] if W.sym else float(y[i]), **kw)) for i in range(n)]
            t = LOOSE.get(s.name, 1e-7)
            elementwise(W, m, out, one, n, t, max(1e-9, t / 10))
            for i in range(n):
                for q in one[i]:
                    W.shape("%s: one position gives one value" % m, q, ())


for _s in TABLE.values():
    _lens(_s)


def _light(m):
    @contract("C24", "light." + m, ["LightModel/light_model_base.py::LightModelBase.surface_brightness"], samples=12, sym=m not in NOSYM, timeout=40, max_paths=60,
              bounded="arrays of two positions in the proof (four in the float world); shapelet order 1, three Gaussians")
    def body(W):
        from lenstronomy.LightModel.light_model import LightModel

        lm = LightModel([m], profile_kwargs_list=[pkw(m)])
        n = (1 if m in LONE else 2) if W.sym else 4
        x, y = W.array("x", n, None, None, (-1.5, 1.5)), W.array("y", n, None, None, (-1.5, 1.5))
        kw = params(W, m, lm.func_list[0].param_names)
        if not W.sym:
            cx, cy = kw.get("center_x", 0.0), kw.get("center_y", 0.0)
            rs = [1.0] + [float(v) for k, v in kw.items() if isinstance(v, float) and 0 < v < 10 and k not in ("center_x", "center_y", "e1", "e2", "amp")]
            for i in range(1, n):
                r = W.choice("scale%d" % i, rs) * W.choice("r%d" % i, RADII[1:])
                sx, sy = W.choice("direction%d" % i, [(0.6, 0.8), (1.0, 0.0), (0.0, -1.0), (-0.8, 0.6)])
                x[i], y[i] = cx + r * sx, cy + r * sy
        out = lm.surface_brightness(x, y, [kw])
        single = [[lm.surface_brightness(x[i] if W.sym else float(x[i]), y[i] if W.sym else float(y[i]), [kw])] for i in range(n)]
        elementwise(W, "surface brightness", [out], single, n)
        for q in single:
            W.shape("one position gives one value", q[0], ())


for _m in NAMES:
    _light(_m)

"""Light profiles under contract: parameter domains and structural parameters."""
from contracts.lensdefs import dom

LD = {
    "radius": (0, None, (0.5, 2)), "k": (None, None, (-1, 1)), "length": (0, None, (0.8, 3)), "width": (0, None, (0.8, 2)), "angle": (None, None, (-180, 180)),
    "start_x": (None, None, (-0.5, 0.5)), "start_y": (None, None, (-0.5, 0.5)), "alpha_c": (0, 3, (0.3, 1.5)), "r_c": (0, None, (0.2, 0.8)), "Rb": (0, None, (0.2, 1)),
    "sigma_min": (0, None, (0.1, 0.4)), "sigma_width": (0, None, (0.5, 2)), "scale": (0, None, (0.3, 0.6)), "phi_G": (None, None, (-1, 1)),
    "ratio12": (0, None, (0.5, 2)), "ratio13": (0, None, (0.5, 2)), "alpha": (0, None, (0.5, 2)),
    "F1": (None, None, (-0.05, 0.05)), "F2": (None, None, (-0.05, 0.05)), "G1": (None, None, (-0.05, 0.05)), "G2": (None, None, (-0.05, 0.05)),
}
MULTI = {"SHAPELETS": 3, "SHAPELETS_POLAR": 3, "SHAPELETS_ELLIPSE": 3, "SHAPELETS_POLAR_EXP": 4, "MULTI_GAUSSIAN": 2, "MULTI_GAUSSIAN_ELLIPSE": 2, "MGE_SET": 3, "MGE_SET_ELLIPSE": 3}
NAMES = """GAUSSIAN GAUSSIAN_ELLIPSE ELLIPSOID MULTI_GAUSSIAN MULTI_GAUSSIAN_ELLIPSE MGE_SET MGE_SET_ELLIPSE SERSIC
SERSIC_ELLIPSE SERSIC_ELLIPSE_FLEXION SERSIC_ELLIPSE_Q_PHI CORE_SERSIC SHAPELETS SHAPELETS_POLAR SHAPELETS_POLAR_EXP
SHAPELETS_ELLIPSE HERNQUIST HERNQUIST_ELLIPSE PJAFFE PJAFFE_ELLIPSE PL_SERSIC UNIFORM POWER_LAW NIE CHAMELEON
DOUBLE_CHAMELEON TRIPLE_CHAMELEON INTERPOL LINEAR LINEAR_ELLIPSE LINE_PROFILE""".split()
NOSYM = {"SERSIC_ELLIPSE_FLEXION", "PL_SERSIC", "INTERPOL"}


def pkw(model, n=3):
    return {"n_comp": MULTI[model]} if model.startswith("MGE") else None


def params(W, model, names, tag="", amp=True):
    import numpy as np

    out = {}
    for p in names:
        if p == "amp":
            if not amp:
                continue
            n = MULTI.get(model)
            out[p] = W.array(tag + "amp", n, 0, None, (0.5, 3)) if n else W.real(tag + "amp", 0, None, (0.5, 3))
        elif p == "n_max":
            out[p] = 1
        elif p == "sigma" and model.startswith("MULTI"):
            out[p] = [W.real(tag + "sigma_%d" % i, 0, None, (0.4, 1.5)) for i in range(MULTI[model])]
        elif p == "image":
            out[p] = W.array(tag + "image", (5, 4), None, None, (0, 1))
        else:
            d = (None, None, (-0.05, 0.05)) if model == "SERSIC_ELLIPSE_FLEXION" and len(p) <= 2 and p not in ("e1", "e2") else (LD.get(p) or dom(p))
            out[p] = W.real(tag + p, *d)
    return out

"""Lens profiles under contract: parameter domains and constructor arguments."""
from lv.world import *  # noqa

# name: (lo, hi, sampling box); lo/hi are the precondition
P = {
    "center_x": (None, None, (-0.5, 0.5)),
    "center_y": (None, None, (-0.5, 0.5)),
    "ra_0": (None, None, (-0.5, 0.5)),
    "dec_0": (None, None, (-0.5, 0.5)),
    "e1": (-0.5, 0.5, (-0.3, 0.3)),
    "e2": (-0.5, 0.5, (-0.3, 0.3)),
    "theta_E": (0, None, (0.5, 2)),
    "gamma": (1, 3, (1.6, 2.4)),
    "Rs": (0, None, (0.5, 3)),
    "alpha_Rs": (0, None, (0.5, 2)),
    "r_core": (0, None, (0.2, 0.9)),
    "r_trunc": (0, None, (1, 5)),
    "sigma0": (0, None, (0.3, 2)),
    "Ra": (0, None, (0.2, 0.45)),
    "kappa": (None, None, (-0.5, 0.5)),
    "kappa_0": (0, 1, (0.05, 0.4)),
    "theta_c": (0, None, (0.5, 3)),
    "slope": (3.5, 10, (3.6, 8)),
    "gamma1": (None, None, (-0.3, 0.3)),
    "gamma2": (None, None, (-0.3, 0.3)),
    "gamma_ext": (0, None, (0.05, 0.3)),
    "psi_ext": (None, None, (-3, 3)),
    "alpha_x": (None, None, (-1, 1)),
    "alpha_y": (None, None, (-1, 1)),
    "amp": (0, None, (0.5, 3)),
    "sigma": (0, None, (0.5, 2)),
    "sigma_x": (0, None, (0.5, 2)),
    "sigma_y": (0, None, (0.5, 2)),
    "k_eff": (0, None, (0.2, 1)),
    "R_sersic": (0, None, (0.5, 2)),
    "n_sersic": (0.5, 8, (0.6, 5)),
    "a": (0, None, (0.5, 2)),
    "s": (0, None, (0.3, 2)),
    "s_scale": (0, None, (0.1, 1)),
    "w_c": (0, None, (0.2, 0.6)),
    "w_t": (0, None, (0.8, 2)),
    "alpha_1": (0, None, (0.5, 2)),
    "a_m": (None, None, (-0.2, 0.2)),
    "phi_m": (None, None, (-3, 3)),
    "r_E": (0, None, (0.5, 2)),
    "q": (0, 1, (0.4, 0.95)),
    "phi": (None, None, (-1.5, 1.5)),
    "phi_ref": (None, None, (-1.5, 1.5)),
    "varphi_m": (None, None, (-1.5, 1.5)),
    "log10_theta_E": (None, None, (-1, 1)),
    "lambda_approx": (None, None, (0.6, 0.95)),
    "scale_factor": (0, None, (0.5, 2)),
    "gamma_in": (0, 3, (0.5, 2.2)),
    "gamma_inner": (0.1, 2.9, (0.5, 1.5)),
    "gamma_outer": (3, 10, (3.2, 6)),
    "b": (0, None, (0.5, 2)),
    "a_c": (0, 3, (0.3, 1.2)),
    "r_c": (0, None, (0.3, 2)),
    "tangential_stretch": (None, None, (2, 10)),
    "radial_stretch": (0, None, (0.7, 1.5)),
    "curvature": (0, None, (0.2, 0.8)),
    "direction": (None, None, (-3, 3)),
    "dtan_dtan": (None, None, (-0.3, 0.3)),
    "mu_r": (None, None, (0.8, 1.2)),
    "mu_t": (None, None, (5, 15)),
    "phi_G": (None, None, (0, 3)),
    "com_x": (None, None, (-1, 1)),
    "com_y": (None, None, (-1, 1)),
    "phi_dipole": (None, None, (-3, 3)),
    "coupling": (None, None, (-1, 1)),
    "ratio": (0, None, (0.5, 2)),
    "beta": (0, None, (0.5, 2)),
    "coeff": (None, None, (-1, 1)),
    "d_r": (0, None, (0.3, 1.5)),
    "d_phi": (0, None, (0.3, 1.5)),
    "rho_s": (0, None, (0.5, 2)),
    "r_s": (0, None, (0.5, 2)),
}
for _k in ("g1 g2 g3 g4 F1 F2 G1 G2 f_xx f_yy f_xy".split()):
    P[_k] = (None, None, (-0.1, 0.1))


def dom(name):
    if name in P:
        return P[name]
    if name[:-1] in P:
        return P[name[:-1]]
    base = name.rstrip("0123456789")
    if base in P:
        return P[base]
    if name.startswith(("kappa_", "gamma1_", "gamma2_", "omega_")):
        return (None, None, (-0.2, 0.2))
    if name.endswith("_a"):
        return (None, None, (-0.05, 0.05))
    if name.startswith("delta_phi"):
        return (None, None, (-0.3, 0.3))
    raise KeyError(name)


def real(W, name, over=None):
    d = (over or {}).get(name) or dom(name)
    return W.real(name, *d)

"""Table of lens profiles under contract: where the class lives, how it is built, parameter domains
and preconditions.  Used by C01, C02, C03, C24."""
import importlib
import numpy as np
from contracts.lensdefs import real

TABLE = {}


class Spec:
    def __init__(self, name, mod, cls, params, init=None, over=None, ell=None, pre=None, scale=(), pot=True,
                 exact=True, hess=True, sym=True, samples=6, symC02=None, rtol=1e-4, atol=1e-6, extra=None, wire=True,
                 timeout=60, htol=None, wireinit=None, callee=None):
        self.__dict__.update(locals())
        self.params = params.split() if isinstance(params, str) else list(params)
        self.init = init or {}
        self.over = over or {}
        TABLE[name] = self

    def instance(self):
        m = importlib.import_module("lenstronomy.LensModel.Profiles." + self.mod)
        init = self.init() if callable(self.init) else self.init
        return getattr(m, self.cls)(**init)

    def kwargs(self, W, x=None, y=None):
        """symbolic parameters satisfying the precondition of the profile"""
        kw = {}
        round_ = None
        for p in self.params:
            if self.extra and p in self.extra:
                kw[p] = self.extra[p](W)
            elif self.ell and p in ("e1", "e2"):
                if round_ is None:
                    round_ = W.choice("shape", ["elliptical", "round"]) == "round"
                kw[p] = 0 * W.const(0.0) if round_ else real(W, p, self.over)
            else:
                kw[p] = real(W, p, self.over)
        if self.ell and not round_:
            W.assume(kw["e1"] ** 2 + kw["e2"] ** 2 > W.const(1e-4))
        if x is not None:
            cx = kw.get("center_x", kw.get("ra_0", 0))
            cy = kw.get("center_y", kw.get("dec_0", 0))
            dx, dy = x - cx, y - cy
            if self.ell == "potential" and not round_:
                from lenstronomy.Util import param_util

                dx, dy = param_util.transform_e1e2_product_average(x, y, kw["e1"], kw["e2"], cx, cy)
            elif self.ell == "square" and not round_:
                from lenstronomy.Util import param_util

                dx, dy = param_util.transform_e1e2_square_average(x, y, kw["e1"], kw["e2"], cx, cy)
            elif self.ell == "kappa" and not round_:
                from lenstronomy.Util import param_util, util

                phi_, q_ = param_util.ellipticity2phi_q(kw["e1"], kw["e2"])
                dx, dy = util.rotate(dx, dy, phi_)
                W.assume(dx ** 2 + dy ** 2 * q_ ** 2 > W.const(1e-3))
                W.assume(dx ** 2 + dy ** 2 / q_ ** 2 > W.const(1e-3))
                if self.name.startswith("EPL"):
                    W.assume(((q_ * dx) ** 2 + dy ** 2) > W.const(1e-5))
            r2 = dx ** 2 + dy ** 2
            W.assume(r2 > W.const(1e-3))
            for p in self.scale:
                W.assume(r2 > W.const(1e-4) * kw[p] ** 2)
            if self.pre:
                self.pre(W, x, y, kw, r2)
        return kw


class abstract_nie:
    """symbolic world: the major-axis NIE is an arbitrary potential (contract: its deflection is the
    gradient and its Hessian the second derivatives of one function of x, y, b, s, q)"""

    def __init__(self, W):
        self.W = W

    def __enter__(self):
        if not self.W.sym:
            return
        from lenstronomy.LensModel.Profiles.nie import NIEMajorAxis

        W = self.W
        self.c = NIEMajorAxis
        self.old = {k: NIEMajorAxis.__dict__[k] for k in ("function", "derivatives", "hessian")}
        d = lambda *k: W.uf_diff("nie", 5, *k)
        NIEMajorAxis.function = lambda self, x, y, b, s, q: W.uf("nie", 5)(x, y, b, s, q)
        NIEMajorAxis.derivatives = lambda self, x, y, b, s, q: (d(0)(x, y, b, s, q), d(1)(x, y, b, s, q))
        NIEMajorAxis.hessian = lambda self, x, y, b, s, q: (d(0, 0)(x, y, b, s, q), d(0, 1)(x, y, b, s, q), d(0, 1)(x, y, b, s, q), d(1, 1)(x, y, b, s, q))

    def __exit__(self, *a):
        if self.W.sym:
            for k, v in self.old.items():
                setattr(self.c, k, v)


def S(*a, **k):
    return Spec(*a, **k)


R3 = (1e-3, None)


def over(**kw):
    return kw


Rs = (0.01, None, (0.5, 3))
rc = (0.01, None, (0.2, 0.9))

S("ARC_PERT", "arc_perturbations", "ArcPerturbations", "coeff d_r d_phi center_x center_y")
S("BLANK_PLANE", "blank_plane", "BlankPlane", "")
S("CHAMELEON", "chameleon", "Chameleon", "alpha_1 w_c w_t e1 e2 center_x center_y", ell="kappa", exact=False, callee="nie", htol=2e-3,
  pre=lambda W, x, y, kw, r2: W.assume(kw["w_t"] > kw["w_c"] + W.const(0.1)))
S("DOUBLE_CHAMELEON", "chameleon", "DoubleChameleon",
  "alpha_1 ratio w_c1 w_t1 e11 e21 w_c2 w_t2 e12 e22 center_x center_y", exact=False, callee="nie", htol=2e-3, timeout=100)
S("TRIPLE_CHAMELEON", "chameleon", "TripleChameleon",
  "alpha_1 ratio12 ratio13 w_c1 w_t1 e11 e21 w_c2 w_t2 e12 e22 w_c3 w_t3 e13 e23 center_x center_y", sym=False, exact=False, htol=2e-3)
S("CNFW", "cnfw", "CNFW", "Rs alpha_Rs r_core center_x center_y", over=over(Rs=Rs, r_core=rc), scale=("Rs", "r_core"), sym=False)
S("CNFW_ELLIPSE_POTENTIAL", "cnfw_ellipse_potential", "CNFWEllipsePotential", "Rs alpha_Rs r_core e1 e2 center_x center_y", exact=False, ell="square", sym=False)
S("CONST_MAG", "const_mag", "ConstMag", "center_x center_y mu_r mu_t parity phi_G",
  extra={"parity": lambda W: W.choice("parity", [1, -1])})
S("CONVERGENCE", "convergence", "Convergence", "kappa ra_0 dec_0")
S("coreBURKERT", "coreBurkert", "CoreBurkert", "Rs alpha_Rs r_core center_x center_y", scale=("Rs", "r_core"), sym=False)
S("CORED_DENSITY", "cored_density", "CoredDensity", "sigma0 r_core center_x center_y", scale=("r_core",))
S("CORED_DENSITY_2", "cored_density_2", "CoredDensity2", "sigma0 r_core center_x center_y", scale=("r_core",))
S("CORED_DENSITY_EXP", "cored_density_exp", "CoredDensityExp", "kappa_0 theta_c center_x center_y", scale=("theta_c",))
for _n, _t in (("CORED_DENSITY_MST", "CORED_DENSITY"), ("CORED_DENSITY_2_MST", "CORED_DENSITY_2"),
               ("CORED_DENSITY_EXP_MST", "CORED_DENSITY_EXP"), ("CORED_DENSITY_ULDM_MST", "CORED_DENSITY_ULDM")):
    S(_n, "cored_density_mst", "CoredDensityMST", "lambda_approx r_core center_x center_y", init=dict(profile_type=_t), scale=("r_core",),
      over=over(lambda_approx=(0.01, 0.999, (0.6, 0.95)), r_core=(0, None, (1, 3))))
S("CSE", "cored_steep_ellipsoid", "CSE", "a s e1 e2 center_x center_y", ell="kappa")
S("CURVED_ARC_CONST", "curved_arc_const", "CurvedArcConst", "tangential_stretch curvature direction center_x center_y", pot=False, exact=False,
  over=over(curvature=(0.01, None, (0.02, 0.1)), tangential_stretch=(0.1, None, (2, 10))))
S("CURVED_ARC_CONST_MST", "curved_arc_const", "CurvedArcConstMST", "tangential_stretch radial_stretch curvature direction center_x center_y", pot=False, exact=False, sym=False,
  over=over(curvature=(0.01, None, (0.02, 0.1))), wire=False)
def _arcpre(W, x, y, kw, r2):
    c = kw["curvature"]
    cx = kw["center_x"] - W.cos(kw["direction"]) / c
    cy = kw["center_y"] - W.sin(kw["direction"]) / c
    W.assume((x - cx) ** 2 + (y - cy) ** 2 > W.const(1e-3))
    W.assume(kw["tangential_stretch"] > kw["radial_stretch"] + W.const(0.1))
S("CURVED_ARC_SIS_MST", "curved_arc_sis_mst", "CurvedArcSISMST", "tangential_stretch radial_stretch curvature direction center_x center_y",
  pre=_arcpre, over=over(curvature=(0.01, 10, (0.05, 0.2))))
S("CURVED_ARC_SPP", "curved_arc_spp", "CurvedArcSPP", "tangential_stretch radial_stretch curvature direction center_x center_y",
  pre=_arcpre, over=over(curvature=(0.01, 10, (0.05, 0.2)), radial_stretch=(0.2, None, (0.8, 1.3))))
S("CURVED_ARC_SPT", "curved_arc_spt", "CurvedArcSPT", "tangential_stretch radial_stretch curvature direction gamma1 gamma2 center_x center_y", pot=False, exact=False,
  pre=_arcpre, over=over(curvature=(0.01, 10, (0.05, 0.2)), radial_stretch=(0.2, None, (0.8, 1.3)), gamma1=(-0.2, 0.2, (-0.1, 0.1)), gamma2=(-0.2, 0.2, (-0.1, 0.1))))
def _tanpre(W, x, y, kw, r2):
    _arcpre(W, x, y, kw, r2)
    lim = (kw["curvature"] * (1 - kw["tangential_stretch"] / kw["radial_stretch"])) ** 2
    W.assume(kw["dtan_dtan"] ** 2 < W.const(0.3) * lim)
    W.assume(kw["dtan_dtan"] ** 2 > W.const(1e-4) * lim)


S("CURVED_ARC_TAN_DIFF", "curved_arc_tan_diff", "CurvedArcTanDiff", "tangential_stretch radial_stretch curvature dtan_dtan direction center_x center_y",
  pre=_tanpre, over=over(curvature=(0.01, 10, (0.05, 0.2)), dtan_dtan=(None, None, (-0.05, 0.05))), htol=1e-3, exact=False, callee="nie")
def _qphi(W, x, y, kw):
    from lenstronomy.Util import param_util, util

    e1, e2 = param_util.phi_q2_ellipticity(kw["phi"], kw["q"])
    phi, q = param_util.ellipticity2phi_q(e1, e2)
    dx, dy = util.rotate(x - kw["center_x"], y - kw["center_y"], phi)
    W.assume((q * dx) ** 2 + dy ** 2 > W.const(1e-5))


S("EPL", "epl", "EPL", "theta_E gamma e1 e2 center_x center_y", ell="kappa", over=over(gamma=(1.2, 2.8, (1.6, 2.4))), samples=8)
S("EPL_BOXYDISKY", "epl_boxydisky", "EPL_BOXYDISKY", "theta_E gamma e1 e2 center_x center_y a4_a", ell="kappa", over=over(gamma=(1.2, 2.8, (1.6, 2.4))))
S("EPL_BOXYDISKY_ELL", "epl_boxydisky", "EPL_BOXYDISKY_ELL", "theta_E gamma e1 e2 center_x center_y a4_a", ell="kappa", over=over(gamma=(1.2, 2.8, (1.6, 2.4))))
_mp = "theta_E gamma e1 e2 center_x center_y a1_a delta_phi_m1 a3_a delta_phi_m3 a4_a delta_phi_m4"
S("EPL_MULTIPOLE_M1M3M4", "epl_multipole_m1m3m4", "EPL_MULTIPOLE_M1M3M4", _mp, ell="kappa", over=over(gamma=(1.2, 2.8, (1.6, 2.4))))
S("EPL_MULTIPOLE_M1M3M4_ELL", "epl_multipole_m1m3m4", "EPL_MULTIPOLE_M1M3M4_ELL", _mp, ell="kappa", over=over(gamma=(1.2, 2.8, (1.6, 2.4))))
_mp = "theta_E gamma e1 e2 center_x center_y a3_a delta_phi_m3 a4_a delta_phi_m4"
S("EPL_MULTIPOLE_M3M4", "epl_multipole_m3m4", "EPL_MULTIPOLE_M3M4", _mp, ell="kappa", over=over(gamma=(1.2, 2.8, (1.6, 2.4))))
S("EPL_MULTIPOLE_M3M4_ELL", "epl_multipole_m3m4", "EPL_MULTIPOLE_M3M4_ELL", _mp, ell="kappa", over=over(gamma=(1.2, 2.8, (1.6, 2.4))))
S("EPL_NUMBA", "epl_numba", "EPL_numba", "theta_E gamma e1 e2 center_x center_y", ell="kappa", over=over(gamma=(1.2, 2.8, (1.6, 2.4))), sym=False)
S("EPL_Q_PHI", "epl", "EPLQPhi", "theta_E gamma q phi center_x center_y", over=over(gamma=(1.2, 2.8, (1.6, 2.4)), q=(0.2, 0.98, (0.4, 0.95)), phi=(-1.5, 1.5, (-1.4, 1.4))), pre=lambda W, x, y, kw, r2: _qphi(W, x, y, kw))
S("FLEXION", "flexion", "Flexion", "g1 g2 g3 g4 ra_0 dec_0")
S("FLEXIONFG", "flexionfg", "Flexionfg", "F1 F2 G1 G2 ra_0 dec_0")
S("GAUSSIAN", "gaussian", "Gaussian", "amp sigma center_x center_y", scale=("sigma",))
S("GAUSSIAN_ELLIPSE_KAPPA", "gaussian_ellipse_kappa", "GaussianEllipseKappa", "amp sigma e1 e2 center_x center_y", ell="kappa", scale=("sigma",), sym=False)
S("GAUSSIAN_ELLIPSE_POTENTIAL", "gaussian_ellipse_potential", "GaussianEllipsePotential", "amp sigma e1 e2 center_x center_y", exact=False, ell="square", scale=("sigma",))
S("GAUSSIAN_POTENTIAL", "gaussian_potential", "GaussianPotential", "amp sigma_x sigma_y center_x center_y")
S("GNFW", "gnfw", "GNFW", "Rs alpha_Rs gamma_in center_x center_y", sym=False, samples=2, over=over(gamma_in=(0.1, 2.9, (0.6, 1.9))), rtol=1e-3)
S("HERNQUIST", "hernquist", "Hernquist", "sigma0 Rs center_x center_y", exact=False, scale=("Rs",), over=over(Rs=Rs))
S("HERNQUIST_ELLIPSE_POTENTIAL", "hernquist_ellipse_potential", "HernquistEllipsePotential", "sigma0 Rs e1 e2 center_x center_y", exact=False, ell="square", scale=("Rs",), over=over(Rs=Rs))
S("HERNQUIST_ELLIPSE_CSE", "hernquist_ellipse_cse", "HernquistEllipseCSE", "sigma0 Rs e1 e2 center_x center_y", ell="kappa", sym=False)
S("HESSIAN", "hessian", "Hessian", "f_xx f_yy f_xy f_yx ra_0 dec_0",
  extra={"f_yx": lambda W: real(W, "f_xy")})
S("MULTIPOLE", "multipole", "Multipole", "m a_m phi_m center_x center_y r_E", extra={"m": lambda W: W.choice("m", [1, 2, 3, 4, 5])})
S("MULTIPOLE_ELL", "multipole", "EllipticalMultipole", "m a_m varphi_m q phi_ref center_x center_y r_E", extra={"m": lambda W: W.choice("m", [1, 3, 4])},
  over=over(q=(0.2, 0.95, (0.4, 0.9)), phi_ref=(-1.5, 1.5, (-1.4, 1.4))))
_arr = lambda name, n, lo, hi, smp: (lambda W: W.array(name, n, lo, hi, smp))
S("MULTI_GAUSSIAN", "multi_gaussian", "MultiGaussian", "amp sigma center_x center_y",
  extra={"amp": _arr("amp", 2, 0, None, (0.5, 2)), "sigma": _arr("sigma", 2, 0.1, None, (0.5, 2))}, pre=lambda W, x, y, kw, r2: [W.assume(r2 > W.const(1e-4) * s ** 2) for s in kw["sigma"]])
S("MULTI_GAUSSIAN_ELLIPSE_KAPPA", "multi_gaussian_ellipse_kappa", "MultiGaussianEllipseKappa", "amp sigma e1 e2 center_x center_y", ell="kappa",
  extra={"amp": _arr("amp", 2, 0, None, (0.5, 2)), "sigma": _arr("sigma", 2, 0.1, None, (0.5, 2))}, sym=False)
S("MULTI_GAUSSIAN_ELLIPSE_POTENTIAL", "multi_gaussian", "MultiGaussianEllipsePotential", "amp sigma e1 e2 center_x center_y", exact=False, ell="square",
  extra={"amp": _arr("amp", 2, 0, None, (0.5, 2)), "sigma": _arr("sigma", 2, 0.1, None, (0.5, 2))}, sym=False)
S("NFW", "nfw", "NFW", "Rs alpha_Rs center_x center_y", over=over(Rs=Rs), scale=("Rs",))
S("NFW_ELLIPSE_CSE", "nfw_ellipse_cse", "NFW_ELLIPSE_CSE", "Rs alpha_Rs e1 e2 center_x center_y", ell="kappa", sym=False)
S("NFW_ELLIPSE_GAUSS_DEC", "gauss_decomposition", "NFWEllipseGaussDec", "Rs alpha_Rs e1 e2 center_x center_y", ell="kappa", sym=False, pot=True)
S("NFW_ELLIPSE_POTENTIAL", "nfw_ellipse_potential", "NFWEllipsePotential", "Rs alpha_Rs e1 e2 center_x center_y", exact=False, ell="square", over=over(Rs=Rs), scale=("Rs",))
S("NFW_MC", "nfw_mass_concentration", "NFWMC", "logM concentration center_x center_y", init=dict(z_lens=0.5, z_source=1.5), over=over(logM=(8, 14, (11.5, 13.5)), concentration=(1, 30, (3, 15))), sym=False)
S("NFW_MC_ELLIPSE_POTENTIAL", "nfw_mass_concentration_ellipse", "NFWMCEllipsePotential", "logM concentration e1 e2 center_x center_y", init=dict(z_lens=0.5, z_source=1.5),
  over=over(logM=(8, 14, (11.5, 13.5)), concentration=(1, 30, (3, 15))), sym=False, exact=False)
S("NIE", "nie", "NIE", "theta_E e1 e2 s_scale center_x center_y", ell="kappa", exact=False, callee="nie", over=over(s_scale=(0.001, None, (0.1, 1))))
S("NIE_POTENTIAL", "nie_potential", "NIE_POTENTIAL", "center_x center_y theta_E theta_c e1 e2", ell="kappa")
S("NIE_SIMPLE", "nie", "NIEMajorAxis", "b s q", exact=False, over=over(s=(0.01, None, (0.1, 1)), q=(0.1, 0.99, (0.4, 0.95))))
S("PJAFFE", "pseudo_jaffe", "PseudoJaffe", "sigma0 Ra Rs center_x center_y", over=over(Ra=(0.01, None, (0.2, 2)), Rs=Rs), pre=lambda W, x, y, kw, r2: W.assume((kw["Rs"] - kw["Ra"]) ** 2 > W.const(1e-3)))
S("PJAFFE_ELLIPSE_POTENTIAL", "pseudo_jaffe_ellipse_potential", "PseudoJaffeEllipsePotential", "sigma0 Ra Rs e1 e2 center_x center_y", exact=False, ell="square",
  over=over(Ra=(0.01, None, (0.2, 2)), Rs=Rs), pre=lambda W, x, y, kw, r2: W.assume((kw["Rs"] - kw["Ra"]) ** 2 > W.const(1e-3)))
S("POINT_MASS", "point_mass", "PointMass", "theta_E center_x center_y")
S("POINT_MASS_LOG_SCALED", "point_mass_log_scaled", "PointMassLogScaled", "log10_theta_E center_x center_y")
S("PSEUDO_DPL", "pseudo_double_powerlaw", "PseudoDoublePowerlaw", "Rs alpha_Rs center_x center_y gamma_inner gamma_outer", pot=False)
S("SERSIC", "sersic", "Sersic", "k_eff R_sersic n_sersic center_x center_y", scale=("R_sersic",), over=over(R_sersic=Rs))
S("SERSIC_ELLIPSE_KAPPA", "sersic_ellipse_kappa", "SersicEllipseKappa", "k_eff R_sersic n_sersic e1 e2 center_x center_y", ell="kappa", exact=False, sym=False, pot=False, samples=3, over=over(n_sersic=(0.5, 8, (0.8, 4))), rtol=1e-3, htol=1e-3)
S("SERSIC_ELLIPSE_POTENTIAL", "sersic_ellipse_potential", "SersicEllipsePotential", "k_eff R_sersic n_sersic e1 e2 center_x center_y", exact=False, ell="square", over=over(R_sersic=Rs), sym=False)
S("SHAPELETS_CART", "shapelet_pot_cartesian", "CartShapelets", "coeffs beta center_x center_y", extra={"coeffs": _arr("coeffs", 6, None, None, (-1, 1))})
S("SHAPELETS_POLAR", "shapelet_pot_polar", "PolarShapelets", "coeffs beta center_x center_y", extra={"coeffs": _arr("coeffs", 6, None, None, (-1, 1))})
S("SHEAR", "shear", "Shear", "gamma1 gamma2 ra_0 dec_0")
S("SHEAR_GAMMA_PSI", "shear", "ShearGammaPsi", "gamma_ext psi_ext ra_0 dec_0")
S("SHEAR_REDUCED", "shear", "ShearReduced", "gamma1 gamma2 ra_0 dec_0", over=over(gamma1=(-0.4, 0.4, (-0.3, 0.3)), gamma2=(-0.4, 0.4, (-0.3, 0.3))))
S("SHIFT", "constant_shift", "Shift", "alpha_x alpha_y", pot=False)
S("SIE", "sie", "SIE", "theta_E e1 e2 center_x center_y", ell="kappa", exact=False, callee="nie")
S("SIS", "sis", "SIS", "theta_E center_x center_y")
S("SIS_TRUNCATED", "sis_truncate", "SIS_truncate", "theta_E r_trunc center_x center_y")
S("SPEP", "spep", "SPEP", "theta_E gamma e1 e2 center_x center_y", ell="kappa", over=over(gamma=(1.5, 2.8, (1.6, 2.4))))
S("SPL_CORE", "splcore", "SPLCORE", "sigma0 center_x center_y r_core gamma", pot=False, over=over(gamma=(1.5, 2.95, (1.6, 2.8)), r_core=rc), scale=("r_core",))
S("SPP", "spp", "SPP", "theta_E gamma center_x center_y", over=over(gamma=(1.4, 2.8, (1.6, 2.4))))
S("TNFW", "tnfw", "TNFW", "Rs alpha_Rs r_trunc center_x center_y", over=over(Rs=Rs), scale=("Rs",))
S("TNFWC", "nfw_core_truncated", "TNFWC", "Rs alpha_Rs center_x center_y r_trunc r_core", pot=False, over=over(Rs=Rs, r_core=(0.01, None, (0.05, 0.3))), sym=False)
S("TNFW_ELLIPSE_POTENTIAL", "tnfw_ellipse_potential", "TNFWELLIPSEPotential", "Rs alpha_Rs r_trunc e1 e2 center_x center_y", exact=False, ell="square", over=over(Rs=Rs), scale=("Rs",))
S("ULDM", "uldm", "Uldm", "kappa_0 theta_c slope center_x center_y", scale=("theta_c",))
# numerically evaluated profiles: executed, not proved
S("BPL", "bpl", "BPL", "b a a_c r_c e1 e2 center_x center_y", ell="kappa", sym=False, samples=6, rtol=2e-3, htol=2e-3, atol=1e-4,
  over=over(a=(1.1, 2.9, (1.5, 2.6)), a_c=(0, 2.9, (0.2, 1.4)), r_c=(0, None, (0.2, 1.5))))
S("CTNFW_GAUSS_DEC", "gauss_decomposition", "CTNFWGaussDec", "r_s r_core r_trunc a rho_s center_x center_y", sym=False, samples=5,
  over=over(r_s=(0, None, (1, 4)), r_core=(0, None, (0.1, 0.5)), r_trunc=(0, None, (5, 20)), a=(0, 10, (2, 8)), rho_s=(0, None, (0.5, 3))))
S("GNFW_ELLIPSE_GAUSS_DEC", "gauss_decomposition", "GeneralizedNFWEllipseGaussDec", "Rs alpha_Rs e1 e2 center_x center_y gamma_in", ell="kappa", sym=False, samples=2,
  over=over(gamma_in=(0.1, 2.4, (0.6, 1.9))))
S("SERSIC_ELLIPSE_GAUSS_DEC", "gauss_decomposition", "SersicEllipseGaussDec", "k_eff R_sersic n_sersic e1 e2 center_x center_y", ell="kappa", sym=False, samples=5,
  over=over(n_sersic=(0.5, 8, (0.8, 4))))
S("ElliSLICE", "elliptical_density_slice", "ElliSLICE", "a b psi sigma_0 center_x center_y", sym=False, samples=12, exact=False, htol=1e-3,
  over=over(a=(0, None, (0.6, 2)), b=(0, None, (0.3, 1.5)), psi=(None, None, (-1.5, 1.5)), sigma_0=(0, None, (0.3, 2))),
  pre=lambda W, x, y, kw, r2: W.assume((kw["a"] - kw["b"]) ** 2 > W.const(1e-3)))
S("DIPOLE", "dipole", "Dipole", "com_x com_y phi_dipole coupling", pot=False, sym=False,
  over=over(com_x=(None, None, (-0.5, 0.5)), com_y=(None, None, (-0.5, 0.5)), phi_dipole=(None, None, (-3, 3)), coupling=(None, None, (0.2, 2))))

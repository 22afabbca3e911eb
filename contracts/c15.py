"""C15: cosmological and lensing unit conversions."""
import numpy as np
from lv.world import contract
from contracts.common import swap, abstract_profiles, SIS, CONV, lens_kwargs, cosmology, SymCosmo, Q

BG = "Cosmo/background.py::Background."
LC = "Cosmo/lens_cosmo.py::LensCosmo."
NP = "Cosmo/nfw_param.py::NFWParam."
GP = "Cosmo/gnfw_param.py::GNFWParam."
CI = "Cosmo/cosmo_interp.py::CosmoInterp."
CS = "Cosmo/cosmo_solver.py::"
TD = "Analysis/td_cosmography.py::TDCosmography."
ASM = ["arbitrary flat cosmology: astropy distances are an unknown comoving-distance function of redshift"]


def zz(W, n=2):
    z = [W.real("z%d" % i, 0, None, [(0.1, 0.6), (0.8, 1.5), (1.7, 3)][i]) for i in range(n)]
    for a, b in zip(z, z[1:]):
        W.assume(a < b)
    return z


def positive(W, c, z):
    """distances grow with redshift"""
    if W.sym:
        x = [c.chi(q) for q in z]
        W.assume(x[0] > 0)
        for a, b in zip(x, x[1:]):
            W.assume(a < b)
        W.assume(c.efunc(z[0]) > 0)


def setup(W, n=2):
    z = zz(W, n)
    c = cosmology(W)
    positive(W, c, z)
    return z, c


def dist(c, z1, z2):
    return c.angular_diameter_distance_z1z2(z1, z2).value


def lc(W):
    from lenstronomy.Cosmo.lens_cosmo import LensCosmo

    z, c = setup(W)
    return LensCosmo(z[0], z[1], cosmo=c), z, c


def dd(c, z):
    return dist(c, 0, z[0]), dist(c, 0, z[1]), dist(c, z[0], z[1])


def const():
    import lenstronomy.Util.constants as k

    return k


@contract("C15", "Background", [BG + q for q in ("a_z", "d_xy", "ddt", "T_xy", "rho_crit", "rho_crit_z", "beta_double_source_plane", "ddt_scaling")], samples=6, assumes=ASM)
def _bg(W):
    from lenstronomy.Cosmo.background import Background

    z, c = setup(W, 3)
    B, k = Background(cosmo=c), const()
    W.eq("scale factor", B.a_z(z[0]) * (1 + z[0]), 1)
    for i, j in ((0, 1), (1, 2), (0, 2)):
        W.eq("angular diameter distance is from the nearer to the farther redshift", B.d_xy(z[i], z[j]), dist(c, z[i], z[j]))
        W.eq("transverse comoving distance", B.T_xy(z[i], z[j]), dist(c, z[i], z[j]) * (1 + z[j]))
        W.eq("time-delay distance", B.ddt(z[i], z[j]), (1 + z[i]) * dist(c, 0, z[i]) * dist(c, 0, z[j]) / dist(c, z[i], z[j]))
    W.eq("comoving distances add up", B.T_xy(z[0], z[1]) + B.T_xy(z[1], z[2]), B.T_xy(z[0], z[2]))
    H = c.H(0).value
    W.eq("critical density", B.rho_crit, 3 * (H * 1000 / k.Mpc) ** 2 / (8 * W.pi * k.G) * k.Mpc**3 / k.M_sun)
    W.eq("critical density grows with E(z)^2", B.rho_crit_z(z[0]), B.rho_crit_z(0) * c.efunc(z[0]) ** 2)
    ratio = B.rho_crit_z(0) / B.rho_crit
    W.le("the two critical densities agree within the accuracy of the constants", ratio, 1.001)
    W.le("the two critical densities agree within the accuracy of the constants ", 0.999, ratio)
    b = B.beta_double_source_plane(z[0], z[1], z[2])
    W.eq("beta is the ratio of D_ds/D_s", b, dist(c, z[0], z[1]) / dist(c, 0, z[1]) / (dist(c, z[0], z[2]) / dist(c, 0, z[2])))
    W.eq("exchanging the two sources inverts beta", b * B.beta_double_source_plane(z[0], z[2], z[1]), 1)
    W.eq("beta of a plane with itself", B.beta_double_source_plane(z[0], z[1], z[1]), 1)
    W.eq("time-delay distance scaling", B.ddt_scaling(z[0], z[1], z[2]) * B.ddt(z[0], z[1]), B.ddt(z[0], z[2]))
    W.eq("no scaling of a plane with itself", B.ddt_scaling(z[0], z[2], z[2]), 1)
    W.eq("beta is the scaling of the time-delay distance", b, B.ddt_scaling(z[0], z[1], z[2]))


@contract("C15", "LensCosmo distances", [LC + q for q in ("dd", "ds", "dds", "ddt", "h", "sigma_crit", "sigma_crit_angle", "phys2arcsec_lens", "arcsec2phys_lens", "arcsec2phys_source", "kappa2proj_mass", "mass_in_theta_E", "mass_in_coin", "beta_double_source_plane")], samples=6, assumes=ASM)
def _lc(W):
    L, z, c = lc(W)
    D = dd(c, z)
    k = const()
    for n, d in zip(("dd", "ds", "dds"), D):
        W.eq(n, getattr(L, n), d)
    W.eq("ddt", L.ddt, (1 + z[0]) * D[0] * D[1] / D[2])
    W.eq("ddt of the background", L.ddt, L.background.ddt(z[0], z[1]))
    W.eq("h", L.h * 100, c.H(0).value)
    sc = k.c**2 / (4 * W.pi * k.G) * D[1] / (D[0] * D[2]) * k.Mpc / k.M_sun
    for i in range(2):  # also the cached value
        W.eq("critical surface density", L.sigma_crit, sc)
        W.eq("critical surface density per square arcsec", L.sigma_crit_angle, sc * (D[0] * k.arcsec) ** 2)
    a, kap = W.real("a", 0, None, (0.1, 5)), W.real("kappa", 0, None, (0.1, 2))
    W.eq("arcsec", k.arcsec * 180 * 3600, W.pi)
    W.eq("arcsec to Mpc", L.arcsec2phys_lens(a), a * k.arcsec * D[0])
    W.eq("Mpc to arcsec inverts arcsec to Mpc", L.phys2arcsec_lens(L.arcsec2phys_lens(a)), a)
    W.eq("arcsec to Mpc inverts Mpc to arcsec", L.arcsec2phys_lens(L.phys2arcsec_lens(a)), a)
    W.eq("arcsec to Mpc at the source", L.arcsec2phys_source(a), a * k.arcsec * D[1])
    W.eq("projected mass density", L.kappa2proj_mass(kap), kap * sc)
    W.eq("mass in the Einstein radius is the area times the critical density", L.mass_in_theta_E(a), W.pi * a**2 * L.sigma_crit_angle)
    W.eq("mass in the Einstein radius and projected mass of kappa=1", L.mass_in_theta_E(a), W.pi * L.arcsec2phys_lens(a) ** 2 * L.kappa2proj_mass(1))
    W.eq("point mass lens equation", a**2 * k.arcsec**2 * D[0] * D[1] * k.Mpc / k.M_sun * W.pi * (k.c**2 / (4 * W.pi * k.G)), L.mass_in_theta_E(a) * D[2])
    chi = L.background.T_xy(0, z[0]), L.background.T_xy(0, z[1])
    W.eq("mass in a cone", L.mass_in_coin(a), W.pi / 3 * (chi[0] * a * k.arcsec) ** 2 * chi[1] * L.background.rho_crit)
    W.eq("beta", L.beta_double_source_plane(z[0], z[1], z[1] + 1), L.background.beta_double_source_plane(z[0], z[1], z[1] + 1))


@contract("C15", "time delays", [LC + "time_delay_units", LC + "time_delay2fermat_pot", "Util/constants.py::delay_arcsec2days", TD + "ddt_from_time_delay"], samples=6, assumes=ASM)
def _td(W):
    from lenstronomy.Analysis.td_cosmography import TDCosmography as T

    L, z, c = lc(W)
    k = const()
    f, ke = W.real("fermat", None, None, (-2, 2)), W.real("kappa_ext", None, None, (-0.2, 0.2))
    dt = L.time_delay_units(f, kappa_ext=ke)
    W.eq("time delay is D_dt/c times the Fermat potential", dt * k.day_s * k.c, L.ddt * (1 - ke) * k.Mpc * f * k.arcsec**2)
    W.eq("default has no external convergence", L.time_delay_units(f) * (1 - ke), dt)
    W.eq("Fermat potential from the time delay", L.time_delay2fermat_pot(L.time_delay_units(f)), f)
    W.eq("time delay from the Fermat potential", L.time_delay_units(L.time_delay2fermat_pot(f)), f)
    W.eq("days of a delay in arcsec^2", k.delay_arcsec2days(f, L.ddt), L.time_delay_units(f))
    W.assume(f * f > 1e-6)
    W.eq("time-delay distance from the delay", T.ddt_from_time_delay(f, L.time_delay_units(f)), L.ddt)
    ks, kds, kd = W.reals("kappa_s kappa_ds kappa_d", -0.5, 0.5)
    W.eq("convergence corrections", T.ddt_from_time_delay(f, L.time_delay_units(f), kappa_s=ks, kappa_ds=kds, kappa_d=kd) * (1 - ks) * (1 - kd), L.ddt * (1 - kds))


@contract("C15", "TDCosmography", [TD + q for q in ("time_delays", "fermat_potential", "ds_dds_from_kinematics", "ddt_dd_from_time_delay_and_kinematics", "velocity_dispersion_dimension_less", "velocity_dispersion_map_dimension_less", "__init__")], samples=6, timeout=100,
          assumes=ASM + ["arbitrary deflection and potential of the lens", "arbitrary velocity dispersion"])
def _tdc(W):
    from lenstronomy.Analysis.td_cosmography import TDCosmography
    from lenstronomy.LensModel.lens_model import LensModel

    z = (0.5, 1.5)
    c = cosmology(W, z)
    k = const()
    names = ["SIS", "CONVERGENCE"]
    kl = lens_kwargs(W, names)
    x, y = W.array("x", 2), W.array("y", 2)
    sv = W.array("sigma_v", 2, 0, None, (100, 300))
    rec = []
    T_ = TDCosmography
    with abstract_profiles(W, [SIS, CONV]):
        T = T_(z[0], z[1], dict(lens_model_list=names, point_source_model_list=["LENSED_POSITION"], lens_light_model_list=["HERNQUIST"], source_light_model_list=[]), cosmo_fiducial=c)
        kp = [dict(ra_image=x, dec_image=y, point_amp=[1, 1])]
        F = T.fermat_potential(kl, kp)
        lm = LensModel(names)
        b = [lm.ray_shooting(x[i], y[i], kl) for i in range(2)]
        bx, by = (b[0][0] + b[1][0]) / 2, (b[0][1] + b[1][1]) / 2
        for i in range(2):
            W.eq("Fermat potential is relative to the mean source position", F[i], ((x[i] - bx) ** 2 + (y[i] - by) ** 2) / 2 - lm.potential(x[i], y[i], kl))
        ke = W.real("kappa_ext", None, None, (-0.2, 0.2))
        t = T.time_delays(kl, kp, kappa_ext=ke)
        ddt = (1 + z[0]) * dist(c, 0, z[0]) * dist(c, 0, z[1]) / dist(c, *z)
        for i in range(2):
            W.eq("time delays", t[i] * k.day_s * k.c, ddt * (1 - ke) * k.Mpc * k.arcsec**2 * F[i])

    def vd(self, **kw):
        rec.append(kw)
        return sv[0] * 1

    def vdm(self, **kw):
        rec.append(kw)
        return sv * 1

    with swap(W, (T_, "velocity_dispersion", vd), (T_, "velocity_dispersion_map", vdm), both=True):
        J = T.velocity_dispersion_dimension_less("l", "ll", "an", inclination=3, r_eff=4, theta_E=5, gamma=6)
        JM = T.velocity_dispersion_map_dimension_less("l", "ll", "an", inclination=3, r_eff=4, theta_E=5, gamma=6, supersampling_factor=7, voronoi_bins=8)
    base = dict(kwargs_lens="l", kwargs_lens_light="ll", kwargs_anisotropy="an", inclination=3, r_eff=4, theta_E=5, gamma=6)
    W.same("velocity dispersion arguments", rec[0], base)
    W.same("velocity dispersion map arguments", rec[1], dict(base, supersampling_factor=7, voronoi_bins=8))
    r = dist(c, *z) / dist(c, 0, z[1])
    W.eq("J", J, (sv[0] * 1000 / k.c) ** 2 * r)
    W.eq("J map", JM, W._arr1([(s * 1000 / k.c) ** 2 * r for s in sv]))
    W.eq("D_s/D_ds from kinematics inverts J", T.ds_dds_from_kinematics(sv[0], J), 1 / r)
    ks, kds, kd = W.reals("kappa_s kappa_ds kappa_d", -0.5, 0.5)
    W.eq("convergence corrections", T.ds_dds_from_kinematics(sv[0], J, kappa_s=ks, kappa_ds=kds) * (1 - ks), (1 - kds) / r)
    f = W.real("fermat", 0, None, (0.2, 2))
    dt = ddt * k.Mpc * k.arcsec**2 * f / k.c / k.day_s
    a, b = T.ddt_dd_from_time_delay_and_kinematics(f, dt, sv[0], J, kappa_s=ks, kappa_ds=kds, kappa_d=kd)
    W.eq("D_dt", a, T.ddt_from_time_delay(f, dt, kappa_s=ks, kappa_ds=kds, kappa_d=kd))
    W.eq("D_d follows from D_dt and D_s/D_ds", b * T.ds_dds_from_kinematics(sv[0], J, kappa_s=ks, kappa_ds=kds) * (1 + z[0]), a)
    a, b = T.ddt_dd_from_time_delay_and_kinematics(f, dt, sv[0], J)
    W.eq("D_dt recovered", a, ddt)
    W.eq("D_d recovered", b, dist(c, 0, z[0]))


@contract("C15", "NFWParam", [NP + q for q in ("rhoc_z", "M200", "r200_M", "M_r200", "rho0_c", "c_M_z", "nfw_Mz")], samples=6, assumes=ASM)
def _nfwp(W):
    from lenstronomy.Cosmo.nfw_param import NFWParam
    from lenstronomy.LensModel.Profiles.nfw import NFW

    z, c = setup(W)
    N = NFWParam(cosmo=c)
    M, cc = W.real("M", 0, None, (1e11, 1e14)), W.real("c", 0, None, (2, 20))
    W.eq("critical density", N.rhoc_z(z[0]), N.rhoc * c.efunc(z[0]) ** 2)
    r = N.r200_M(M, z[0])
    W.eq("mass of r200", N.M_r200(r, z[0]), M)
    W.eq("r200 of the mass", N.r200_M(N.M_r200(cc, z[0]), z[0]), cc)
    W.eq("mean density within r200 is 200 times critical", N.M_r200(cc, z[0]) / (4 * W.pi / 3 * cc**3), 200 * N.rhoc_z(z[0]))
    rho0 = N.rho0_c(cc, z[0])
    W.eq("mass of the normalised profile within r200", N.M200(r / cc, rho0, cc), M)
    W.eq("NFW profile mass", NFW().mass_3d(r, r / cc, rho0), M)
    r2, rho2, c2, Rs2 = N.nfw_Mz(M, z[0])
    W.eq("concentration", c2, N.c_M_z(M, z[0]))
    W.eq("r200", r2, r)
    W.eq("rho0", rho2, N.rho0_c(c2, z[0]))
    W.eq("Rs", Rs2 * c2, r2)


@contract("C15", "GNFWParam", [GP + q for q in ("rhoc_z", "M200", "r200_M", "M_r200", "rho0_c", "c_M_z", "gnfw_Mz")], samples=6, assumes=ASM)
def _gnfwp(W):
    from lenstronomy.Cosmo.gnfw_param import GNFWParam
    from lenstronomy.Cosmo.nfw_param import NFWParam

    z, c = setup(W)
    G, N = GNFWParam(cosmo=c), NFWParam(cosmo=c)
    M, cc, g = W.real("M", 0, None, (1e11, 1e14)), W.real("c", 0, None, (2, 20)), W.real("gamma", 0, 3, (0.5, 2.5))
    r = G.r200_M(M, z[0])
    W.eq("r200 of the mass", r, N.r200_M(M, z[0]))
    W.eq("mass of r200", G.M_r200(r, z[0]), M)
    W.eq("critical density", G.rhoc_z(z[0]), N.rhoc_z(z[0]))
    W.eq("mass of the normalised profile within r200", G.M200(r / cc, G.rho0_c(cc, z[0], g), cc, g), M)
    W.eq("concentration", G.c_M_z(M, z[0]), N.c_M_z(M, z[0]))
    r2, rho2, c2, Rs2 = G.gnfw_Mz(M, z[0], g)
    W.eq("c", c2, N.c_M_z(M, z[0]))
    W.eq("r", r2, r)
    W.eq("rho0", rho2, G.rho0_c(c2, z[0], g))
    W.eq("Rs", Rs2 * c2, r2)
    if not W.sym:
        W.eq("gamma=1 is NFW", G.rho0_c(cc, z[0], 1), N.rho0_c(cc, z[0]))
        W.eq("gamma=1 is NFW (mass)", G.M200(r / cc, 1e15, cc, 1), N.M200(r / cc, 1e15, cc))


class Spline:
    """records the knots; evaluates to an arbitrary function of the knots"""

    made = []

    def __init__(self, x, y, w=None, bbox=None, k=3):
        self.x, self.y, self.k = list(x), list(y), k
        Spline.made.append(self)
        self.asked = []

    def __call__(self, v):
        self.asked.append(v)
        return self, v


@contract("C15", "concentration from density", [NP + "c_rho0", GP + "c_rho0"], samples=6, timeout=100,
          assumes=ASM + ["InterpolatedUnivariateSpline interpolates its knots (scipy)"])
def _crho(W):
    from lenstronomy.Cosmo import nfw_param, gnfw_param
    import scipy.interpolate as si

    zz_ = (0.25, 0.75)
    c = cosmology(W, zz_)
    N = nfw_param.NFWParam(cosmo=c)
    order = W.choice("history", [(0,), (0, 1), (1, 0), (0, 1, 0)])
    if W.sym:
        class I:
            InterpolatedUnivariateSpline = Spline

        rho = W.real("rho", 0, None, (1e15, 1e16))
        with swap(W, (nfw_param, "interpolate", I)):
            for i in order:
                s, v = N.c_rho0(rho, zz_[i])
                W.eq("evaluated at the density", v, rho)
                for x, y in list(zip(s.x, N.rho0_c(np.array(s.y), zz_[i])))[::7]:
                    W.eq("knots are (density at the given redshift, concentration)", x, y)
    else:
        G = gnfw_param.GNFWParam(cosmo=c)
        for i in order:
            cc, g = W.real("c%d" % i, 1, 29, (1.5, 25)), W.real("g%d" % i, 0.2, 2.8, (0.5, 2))
            W.eq("concentration of the density inverts the density of the concentration", N.c_rho0(N.rho0_c(cc, zz_[i]), zz_[i]), cc, rtol=1e-3)
            W.eq("generalised NFW: concentration of the density", G.c_rho0(G.rho0_c(cc, zz_[i], g), zz_[i], g), cc, rtol=5e-3)


@contract("C15", "NFW physical and angular units", [LC + q for q in ("nfw_physical2angle", "nfw_angle2physical", "nfwParam_physical", "nfw_M_theta_r200", "gnfw_M_theta_r200")], samples=6, timeout=100,
          assumes=ASM + ["c_rho0 inverts rho0_c (contract 'concentration from density')"])
def _nfw(W):
    from lenstronomy.Cosmo.nfw_param import NFWParam
    from lenstronomy.LensModel.Profiles.nfw import NFW

    L, z, c = lc(W)
    k = const()
    M, cc = W.real("M", 0, None, (1e11, 1e14)), W.real("c", 0, None, (2, 20))
    rho0, Rs, r200 = L.nfwParam_physical(M, cc)
    W.eq("Rs c = r200", Rs * cc, r200)
    h = L.h
    W.eq("mass within r200 is 200 times the critical density", 200 * NFWParam.rhoc * h**2 * c.efunc(z[0]) ** 2 * 4 * W.pi / 3 * r200**3, M)
    W.eq("profile mass within r200", 4 * W.pi * rho0 * Rs**3 * (W.log(1 + cc) - cc / (1 + cc)), M)
    ra, al = L.nfw_physical2angle(M, cc)
    W.eq("scale radius", L.arcsec2phys_lens(ra), Rs)
    P = NFW()
    W.eq("lens model mass within r200 in units of the critical density", P.mass_3d_lens(cc * ra, ra, al) * L.sigma_crit_angle, M)
    th = L.nfw_M_theta_r200(M)
    W.eq("angle of r200", th, cc * ra)
    W.eq("angle of r200 of the generalised profile", L.gnfw_M_theta_r200(M), th)
    seen = []

    def crho(self, r, zl):
        seen.append((r, zl))
        return cc

    with swap(W, (NFWParam, "c_rho0", crho)):
        q = L.nfw_angle2physical(ra, al)
    if W.sym:
        W.eq("density handed to the concentration relation", seen[0][0], L.nfw_param.rho0_c(cc, z[0]))
        W.eq("redshift handed to the concentration relation", seen[0][1], z[0])
    for n, a, b in zip(("rho0", "Rs", "c", "r200", "M200"), q, (rho0, Rs, cc, r200, M)):
        W.eq("angular to physical inverts physical to angular: " + n, a, b, rtol=5e-3)


@contract("C15", "GNFW physical and angular units", [LC + q for q in ("gnfw_physical2angle", "gnfw_angle2physical", "gnfwParam_physical")], samples=5, timeout=100,
          assumes=ASM + ["c_rho0 inverts rho0_c (contract 'concentration from density')", "get_alpha_Rs_for_kappa_s_1 is an arbitrary positive function of the slope"])
def _gnfw(W):
    from lenstronomy.Cosmo.gnfw_param import GNFWParam
    from lenstronomy.LensModel.Profiles.gnfw import GNFW

    L, z, c = lc(W)
    M, cc, g = W.real("M", 0, None, (1e11, 1e14)), W.real("c", 0, None, (2, 20)), W.real("gamma", 0, 3, (0.5, 2))
    fac = W.uf("alpha_Rs_1", 2)

    def crho(self, r, zl, gi):
        seen.append((r, zl, gi))
        return cc

    def f1(self, Rs, gi):
        v = fac(Rs, gi)
        W.assume(v > 0)
        return v

    seen = []
    with swap(W, (GNFWParam, "c_rho0", crho), (GNFW, "__init__", lambda self, *a, **k: None), (GNFW, "get_alpha_Rs_for_kappa_s_1", f1)):
        rho0, Rs, r200 = L.gnfwParam_physical(M, cc, g)
        W.eq("Rs c = r200", Rs * cc, r200)
        W.eq("mass within r200", L.gnfw_param.M200(Rs, rho0, cc, g), M)
        ra, al = L.gnfw_physical2angle(M, cc, g)
        W.eq("scale radius", L.arcsec2phys_lens(ra), Rs)
        W.eq("deflection at the scale radius", al * L.sigma_crit * L.arcsec2phys_lens(1), rho0 * Rs**2 * GNFW().get_alpha_Rs_for_kappa_s_1(1, g))
        q = L.gnfw_angle2physical(ra, al, g)
    if W.sym:
        W.eq("density handed to the concentration relation", seen[0][0], L.gnfw_param.rho0_c(cc, z[0], g))
        W.eq("redshift handed to the concentration relation", seen[0][1], z[0])
        W.eq("slope handed to the concentration relation", seen[0][2], g)
    else:
        W.eq("lens model mass within r200", GNFW().mass_3d_lens(cc * ra, ra, al, g) * L.sigma_crit_angle, M, rtol=1e-4) if hasattr(GNFW, "mass_3d_lens") else None
    for n, a, b in zip(("rho0", "Rs", "c", "r200", "M200"), q, (rho0, Rs, cc, r200, M)):
        W.eq("angular to physical inverts physical to angular: " + n, a, b, rtol=2e-2)


@contract("C15", "SIS, Hernquist, ULDM, Sersic, dPIE", [LC + q for q in ("sis_theta_E2sigma_v", "sis_sigma_v2theta_E", "hernquist_phys2angular", "hernquist_angular2phys", "sersic_m_star2k_eff", "sersic_k_eff2m_star", "vel_disp_dPIED_sigma0")], samples=6, timeout=100, assumes=ASM)
def _conv(W):
    from lenstronomy.LensModel.Profiles.hernquist import Hernquist
    from lenstronomy.LensModel.Profiles.pseudo_jaffe import PseudoJaffe

    L, z, c = lc(W)
    k = const()
    D = dd(c, z)
    s = W.real("sigma", 0, None, (100, 400))
    th = L.sis_sigma_v2theta_E(s)
    W.eq("SIS Einstein radius", th * k.arcsec, 4 * W.pi * (s * 1000 / k.c) ** 2 * D[2] / D[1])
    W.eq("velocity dispersion of the Einstein radius", L.sis_theta_E2sigma_v(th), s)
    t = W.real("theta_E", 0, None, (0.3, 3))
    W.eq("Einstein radius of the velocity dispersion", L.sis_sigma_v2theta_E(L.sis_theta_E2sigma_v(t)), t)
    m, rs = W.real("mass", 0, None, (1e10, 1e12)), W.real("rs", 0, None, (0.001, 0.1))
    s0, ra = L.hernquist_phys2angular(m, rs)
    m2, r2 = L.hernquist_angular2phys(s0, ra)
    W.eq("Hernquist mass", m2, m)
    W.eq("Hernquist radius", r2, rs)
    W.eq("Hernquist radius in arcsec", ra, L.phys2arcsec_lens(rs))
    H = Hernquist()
    r = W.real("r", 0, None, (0.2, 5))
    rho = H.density_lens(r, s0, ra)
    W.eq("Hernquist lens density is the mass profile", rho * L.sigma_crit_angle, m * ra / (2 * W.pi * r * (r + ra) ** 3))
    R, n = W.real("R_sersic", 0, None, (0.3, 3)), W.real("n_sersic", 0, None, (0.7, 4))
    ke = L.sersic_m_star2k_eff(m, R, n)
    W.eq("Sersic mass of the convergence", L.sersic_k_eff2m_star(ke, R, n), m)
    W.eq("Sersic convergence of the mass", L.sersic_m_star2k_eff(L.sersic_k_eff2m_star(rs, R, n), R, n), rs)
    W.eq("Sersic mass is linear", L.sersic_k_eff2m_star(2 * ke, R, n), 2 * m)
    Ra, Rb = W.real("Ra", 0, None, (0.01, 0.5)), W.real("Rs", 0, None, (0.6, 5))
    W.assume(Ra < Rb)
    W.eq("dPIE velocity dispersion", L.vel_disp_dPIED_sigma0(s, Ra, Rb) * k.arcsec * k.c**2 * D[1] * Rb * Ra, (s * 1000) ** 2 * 2 * W.pi * D[2] * (Rb - Ra))


@contract("C15", "ULDM", [LC + "uldm_angular2phys", LC + "uldm_mphys2angular"], samples=6, assumes=ASM)
def _uldm(W):
    L, z, c = lc(W)
    k = const()
    kap, th = W.real("kappa", 0, None, (0.05, 1)), W.real("theta", 0, None, (1, 20))
    m, M = L.uldm_angular2phys(kap, th)
    k2, t2 = L.uldm_mphys2angular(m, M)
    W.eq("convergence", k2, kap)
    W.eq("core radius", t2, th)


@contract("C15", "power-law Einstein radius scaling", [LC + "theta_E_power_law_scaling"], samples=6, assumes=ASM)
def _tes(W):
    from lenstronomy.Cosmo.lens_cosmo import LensCosmo

    z, c = setup(W, 3)
    L = LensCosmo(z[0], z[1], cosmo=c)
    t, g, ke = W.real("theta", 0, None, (0.5, 2)), W.real("gamma", 1, None, (1.5, 2.5)), W.real("kappa", 0, 0.3)
    i, j = W.choice("planes", [(1, 2), (2, 1), (1, 1)])
    th = L.theta_E_power_law_scaling(t, ke, g, z[0], z[i], z[j])
    b = dist(c, z[0], z[j]) * dist(c, 0, z[i]) / dist(c, 0, z[j]) / dist(c, z[0], z[i])
    W.assume(b * ke < 1)
    W.eq("mean convergence of the scaled power law and sheet is one at the Einstein radius", b * (t / th) ** (g - 1) + b * ke, 1)


class U:
    """stand-in for astropy quantities: the number with its unit dropped"""

    def __init__(self, v):
        self.value = v

    def _b(f):
        return lambda s, o: U(f(s.value, o.value if isinstance(o, U) else o))

    __mul__ = __rmul__ = _b(lambda a, b: a * b)
    __truediv__ = _b(lambda a, b: a / b)
    __rtruediv__ = _b(lambda a, b: b / a)
    __pow__ = _b(lambda a, b: a**b)
    __array_ufunc__ = None

    def __neg__(s):
        return U(-s.value)

    def __abs__(s):
        return U(abs(s.value))

    def sqrt(s):
        return U(s.value**0.5)

    def __lt__(s, o):
        return s.value < o

    def __getitem__(s, i):
        return s.value[i]


class Lin:
    """interp1d with constant increasing knots: piecewise linear"""

    def __init__(self, x, y, assume_sorted=False):
        self.x, self.y = [float(q) for q in x], list(y)

    def one(self, z):
        z = float(z)
        x, y = self.x, self.y
        if not x[0] <= z <= x[-1]:
            raise ValueError("out of range")
        for i in range(len(x) - 1):
            if z <= x[i + 1]:
                return y[i] + (y[i + 1] - y[i]) * (z - x[i]) / (x[i + 1] - x[i])

    def __call__(self, z):
        if np.ndim(z) == 0:
            return self.one(z)
        return np.array([self.one(q) for q in np.asarray(z).reshape(-1)], dtype=object).reshape(np.shape(z))


def npsqrt(W, mod):
    """the module's numpy with sqrt passing through quantities"""
    real = mod.np

    class N:
        def __getattr__(self, n):
            if n == "sqrt":
                return lambda v: v.sqrt() if isinstance(v, U) else real.sqrt(v)
            return getattr(real, n)

    return N()


@contract("C15", "CosmoInterp from distances", [CI + q for q in ("__init__", "_interpolate_ang_dist", "angular_diameter_distance", "angular_diameter_distance_z1z2", "comoving_transverse_distance", "_comoving_transverse_distance_z1z2", "_comoving_distance_z1z2")], samples=8,
          bounded="three tabulated redshifts; arbitrary distances; flat, open and closed curvature", assumes=["interp1d is piecewise linear (scipy)", "astropy units dropped in the symbolic world"])
def _ci(W):
    from lenstronomy.Cosmo import cosmo_interp as C

    zl = [0.5, 1.0, 2.0]
    d = [W.real("D%d" % i, 0, None, q) for i, q in enumerate(((1000, 1200), (1500, 1700), (1700, 1750)))]
    K = W.choice("curvature", [0, -2.0**-26, 2.0**-26])
    lead = W.choice("starts at", ["first", "zero"])

    class units:
        Mpc = U(1)

    with swap(W, (C, "units", units), (C, "interp1d", Lin), (C, "np", npsqrt(W, C))):
        if W.sym and K > 0:
            for z, q in zip(zl, d):
                W.assume(q * (1 + z) * K**0.5 < 1)
        zt, dt = (zl, d) if lead == "first" else ([0.0] + zl, [0.0] + d)
        c = C.CosmoInterp(ang_dist_list=W._arr1(dt), z_list=np.array(zt), Ok0=None if K == 0 else -K * 1e7, K=None if K == 0 else K)
        sk = abs(K) ** 0.5
        chi = [0] + [q * (1 + z) if K == 0 else (W.arcsinh(q * (1 + z) * sk) / sk if K < 0 else W.arcsin(q * (1 + z) * sk) / sk) for z, q in zip(zl, d)]

        def S(u):
            return u if K == 0 else (W.sinh(sk * u) / sk if K < 0 else W.sin(sk * u) / sk)

        for i, z in enumerate(zl):
            W.eq("tabulated distance", c.angular_diameter_distance(z).value, d[i])
            W.eq("tabulated distance from z=0", c.angular_diameter_distance(0, z).value, d[i])
            W.eq("transverse comoving distance", c.comoving_transverse_distance(z).value, d[i] * (1 + z))
        zm = [0.25, 0.75, 1.5]
        chim = [(chi[i] + chi[i + 1]) / 2 for i in range(3)]
        for i, z in enumerate(zm):
            W.eq("comoving distance is interpolated linearly", c.angular_diameter_distance(z).value * (1 + z), S(chim[i]))
        for i, j in ((0, 1), (1, 2), (0, 2)):
            W.eq("distance between two redshifts", c.angular_diameter_distance_z1z2(zm[i], zl[j]).value * (1 + zl[j]), S(chi[j + 1] - chim[i]))
            W.eq("two-argument form", c.angular_diameter_distance(zm[i], zl[j]).value * (1 + zl[j]), S(chi[j + 1] - chim[i]))
        a = c.angular_diameter_distance_z1z2(np.array([0.25, 0.0]), np.array([1.0, 1.0])).value
        W.eq("array of first redshifts", a[0] * 2, S(chi[2] - chim[0]))
        W.eq("array of first redshifts including zero", a[1] * 2, S(chi[2]))


@contract("C15", "CosmoInterp from a cosmology", [CI + "_interpolate_comoving_distance", BG + "__init__", "Cosmo/_cosmo_interp_astropy_v5.py::CosmoInterp._integral_comoving_distance_z1z2"], samples=4,
          bounded="four interpolation steps", assumes=["interp1d is piecewise linear (scipy)", "astropy units dropped in the symbolic world"])
def _ci2(W):
    from lenstronomy.Cosmo import cosmo_interp as C
    from lenstronomy.Cosmo import _cosmo_interp_astropy_v5 as V
    from lenstronomy.Cosmo.background import Background

    if W.sym:
        class Cos:
            Ok0, hubble_distance = 0, U(W.real("dh", 0, None))

        inc = [W.real("inc%d" % i, 0, None) for i in range(4)]

        class units:
            Mpc = U(1)

        def integ(self, a, b):
            i = int(round(float(a) * 2))
            W.true("integration over one step", float(b) == float(a) + 0.5)
            return U(inc[i])

        with swap(W, (C, "units", units), (C, "interp1d", Lin), (C, "np", npsqrt(W, C)), (V.CosmoInterp, "_integral_comoving_distance_z1z2", integ)):
            B = Background(cosmo=Cos(), interp=True, z_stop=2, num_interp=4)
            c = B.cosmo
            s = 0
            for i in range(4):
                W.eq("between the steps", c.comoving_transverse_distance(0.5 * i + 0.25).value, s + inc[i] / 2)
                s = s + inc[i]
                W.eq("comoving distance is the sum of the steps", c.comoving_transverse_distance(0.5 * i + 0.5).value, s)
                W.eq("T_xy", B.T_xy(0, 0.5 * i + 0.5), s)
    else:
        from astropy.cosmology import LambdaCDM

        A = LambdaCDM(H0=W.real("H0", 50, 90), Om0=W.real("Om", 0.2, 0.4), Ode0=W.real("Ode", 0.4, 0.9), Tcmb0=0)
        B, B0 = Background(cosmo=A, interp=True, z_stop=3, num_interp=300), Background(cosmo=A)
        z1, z2 = W.real("z1", 0.1, 0.9), W.real("z2", 1, 2.9)
        for n in ("d_xy", "ddt", "T_xy"):
            W.eq("interpolated cosmology agrees: " + n, getattr(B, n)(z1, z2), getattr(B0, n)(z1, z2), rtol=1e-3)
        W.eq("beta", B.beta_double_source_plane(z1, z2, z2 + 0.1), B0.beta_double_source_plane(z1, z2, z2 + 0.1), rtol=1e-3)


@contract("C15", "H0 and distance solvers", [CS + "cosmo2angular_diameter_distances", CS + "ddt2h0", CS + "SolverFlatLCDM.F", CS + "SolverFlatLCDM.solve", CS + "InvertCosmo.get_cosmo"], samples=5,
          assumes=ASM + ["fsolve and LinearNDInterpolator return arbitrary numbers"])
def _solv(W):
    from lenstronomy.Cosmo import cosmo_solver as C

    z = (0.5, 1.5)
    c = cosmology(W, z)
    ddt = W.real("ddt", 0, None, (1000, 5000))
    h = C.ddt2h0(ddt, z[0], z[1], c)
    W.eq("H0 scales inversely with the time-delay distance", h * ddt, c.H0.value * (1 + z[0]) * dist(c, 0, z[0]) * dist(c, 0, z[1]) / dist(c, *z))
    H, om = W.real("H", 0, None, (50, 90)), W.real("om", 0, 1, (0.2, 0.4))
    om_ = om
    if W.sym:
        om = abs(om) % 1
    Dd, R = W.real("Dd", 0, None, (900, 1500)), W.real("R", 0, None, (1.1, 2))
    fD, fR = W.uf("Dd_of", 2), W.uf("R_of", 2)

    class Flat:
        def __init__(self, H0, Om0, Ob0):
            self.a = H0, Om0

        def angular_diameter_distance(self, z1, z2=None):
            i = {(0, 0.5): 0, (0, 1.5): 1, (0.5, 1.5): 2}[(z1, z2)]
            f = (fD(*self.a), fR(*self.a) * 2, 2)[i]
            return Q(f)

    if W.sym:
        with swap(W, (C, "FlatLambdaCDM", Flat)):
            a, b = C.cosmo2angular_diameter_distances(H, om, *z)
            W.eq("D_d", a, fD(H, om))
            W.eq("D_s/D_ds", b, fR(H, om))
            S = C.SolverFlatLCDM(*z)
            y = S.F([H, om_], Dd, R)
            W.eq("residual of D_d", y[0], Dd - fD(H, om))
            W.eq("residual of D_s/D_ds", y[1], R - fR(H, om))

            class Opt:
                class optimize:
                    @staticmethod
                    def fsolve(F, init, args=(), **kw):
                        return W._arr1([H, om_])

            with swap(W, (C, "scipy", Opt)):
                x = S.solve([1, 1], Dd, R)
            if x[0] is not H and not hasattr(x[0], "t"):
                W.true("failure only if the residual is large", (abs(y[0]) >= 0.1) | (abs(y[1]) > 0.1))
                W.eq("failure value", x[0], -1)
                W.eq("failure value of Omega_m", x[1], -1)
            else:
                W.true("solution reproduces the distances", (abs(y[0]) < 0.1) & (abs(y[1]) <= 0.1))
                W.eq("H0", x[0], H)
                W.eq("Omega_m", x[1], om)
            I = C.InvertCosmo(*z)
            I._f_H0 = lambda a, b: W.uf("fH", 2)(a, b)
            I._f_omega_m = lambda a, b: W.uf("fO", 2)(a, b)
            hh, oo = I._f_H0(Dd, R), I._f_omega_m(Dd, R)
            g = I.get_cosmo(Dd, R)
            bad = (abs(Dd - fD(hh, oo)) / Dd > 0.01) | (abs(R - fR(hh, oo)) / R > 0.01)
            if isinstance(g[0], int):
                W.true("rejected only if the distances differ", bad)
            else:
                W.eq("H0", g[0], hh)
                W.eq("Omega_m", g[1], oo)
                W.true("accepted only if the distances agree", (abs(Dd - fD(hh, oo)) / Dd <= 0.01) & (abs(R - fR(hh, oo)) / R <= 0.01))
    else:
        a, b = C.cosmo2angular_diameter_distances(H, om, *z)
        from astropy.cosmology import FlatLambdaCDM

        A = FlatLambdaCDM(H0=H, Om0=om, Ob0=0.0)
        W.eq("D_d", a, dist(A, 0, z[0]))
        W.eq("D_s/D_ds", b, dist(A, 0, z[1]) / dist(A, *z))
        x = C.SolverFlatLCDM(*z).solve([70, 0.3], a, b)
        if x[0] != -1:
            a2, b2 = C.cosmo2angular_diameter_distances(x[0], x[1], *z)
            W.le("D_d reproduced", abs(a - a2), 0.1)
            W.le("D_s/D_ds reproduced", abs(b - b2), 0.1)
        W.eq("H0 of the fiducial distance", C.ddt2h0((1 + z[0]) * a * b, z[0], z[1], A), H)


@contract("C15", "LCDM", ["Cosmo/lcdm.py::LCDM." + q for q in ("_get_cosom", "D_d", "D_s", "D_ds", "D_dt")], samples=5, assumes=ASM)
def _lcdm(W):
    from lenstronomy.Cosmo import lcdm as M

    flat = W.choice("flat", [True, False])
    z = (0.5, 1.5)
    H, Om, Ode = W.real("H", 0, None, (60, 80)), W.real("Om", 0, 1, (0.2, 0.4)), W.real("Ode", 0, 1, (0.6, 0.8))
    seen = []
    c = cosmology(W, z) if W.sym else None

    def mk(name):
        def f(**kw):
            seen.append((name, kw))
            return c

        return f

    with swap(W, (M, "FlatLambdaCDM", mk("flat")), (M, "LambdaCDM", mk("curved"))):
        L = M.LCDM(*z, flat=flat)
        v = [getattr(L, q)(H, Om, Ode) for q in ("D_d", "D_s", "D_ds", "D_dt")]
    if W.sym:
        for n, kw in seen:
            W.same("kind of cosmology", n, "flat" if flat else "curved")
            W.eq("H0", kw["H0"], H)
            W.eq("Om0", kw["Om0"], Om)
            if not flat:
                W.eq("Ode0", kw["Ode0"], Ode)
    else:
        from astropy.cosmology import FlatLambdaCDM, LambdaCDM

        c = FlatLambdaCDM(H0=H, Om0=Om) if flat else LambdaCDM(H0=H, Om0=Om, Ode0=Ode)
    D = dd(c, z)
    for n, a, b in zip(("D_d", "D_s", "D_ds", "D_dt"), v, D + ((1 + z[0]) * D[0] * D[1] / D[2],)):
        W.eq(n, a, b)


@contract("C15", "micro lensing", ["Cosmo/micro_lensing.py::einstein_radius", "Cosmo/micro_lensing.py::source_size"], samples=5)
def _ml(W):
    from lenstronomy.Cosmo.micro_lensing import einstein_radius, source_size

    k = const()
    M, dl, ds = W.real("M", 0, None, (0.1, 10)), W.real("dl", 0, None, (1000, 4000)), W.real("ds", 0, None, (5000, 9000))
    W.assume(dl < ds)
    t = einstein_radius(M, dl, ds)
    W.eq("point mass lens equation", (t * k.arcsec) ** 2 * k.c**2 * dl * ds * k.pc, 4 * k.G * (M * k.M_sun) * (ds - dl), rtol=1e-7)
    W.le("positive", 0, t)
    W.eq("angular size of the source", source_size(M, ds) * k.arcsec * ds * k.pc, 2 * k.r_sun * M)


@contract("C15", "KDE likelihood", ["Cosmo/kde_likelihood.py::KDELikelihood.__init__", "Cosmo/kde_likelihood.py::KDELikelihood.log_likelihood"], samples=4, bounded="three posterior samples",
          assumes=["scipy.stats.gaussian_kde is an arbitrary positive function of the sample matrix and the point"])
def _kde(W):
    from lenstronomy.Cosmo import kde_likelihood as M

    a, b = W.array("Dd", 4, 0, None, (900, 1100)), W.array("Ddt", 4, 0, None, (2000, 3000))
    x, y = W.real("x", 0, None, (950, 1050)), W.real("y", 0, None, (2200, 2800))
    if W.sym:
        f = W.uf("kde", 10)

        class stats:
            @staticmethod
            def gaussian_kde(v):
                def g(p):
                    d = f(*list(v[0]), *list(v[1]), p[0], p[1])
                    W.assume(d > 0)
                    return W._arr1([d])

                return g

        with swap(W, (M, "stats", stats)):
            v = M.KDELikelihood(a, b).log_likelihood(x, y)
        W.eq("log of the density at (D_d, D_dt)", v[0], W.log(f(*list(a), *list(b), x, y)))
    else:
        from scipy.stats import gaussian_kde

        v = M.KDELikelihood(a, b).log_likelihood(x, y)
        W.eq("log density", v, np.log(gaussian_kde(np.array([a, b]))([x, y])))

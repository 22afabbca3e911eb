"""C20: kinematic apertures, anisotropies and Jeans kernels.

Anisotropy: with f the integrating factor (d ln f/d ln r = 2 beta) the projected dispersion of the Jeans equation
is I sigma^2 = 2 G int_R^inf K(r, R) l(r) M(r)/r dr exactly when d/dr [r K(r,R)/f(r)] = (1 - beta R^2/r^2) r/(f sqrt(r^2-R^2))
and K(R, R) = 0 (Mamon & Lokas 2005); this is proved for the kernels. Apertures: a position is written in the
coordinates of the aperture, so that selection is a statement about those coordinates."""
import copy
import types
import numpy as np
from lv.world import contract
from contracts.common import swap

AN = "GalKin/anisotropy.py::"
AP = "GalKin/aperture_types.py::"
NK = "GalKin/numeric_kinematics.py::NumericKinematics."
AK = "GalKin/analytic_kinematics.py::AnalyticKinematics."
LP = "GalKin/light_profile.py::LightProfile."
VU = "GalKin/velocity_util.py::"
PSF = "GalKin/psf.py::"
GK = "GalKin/galkin.py::Galkin."
KA = "Analysis/kinematics_api.py::KinematicsAPI."
TD = "Analysis/td_cosmography.py::TDCosmography."
JW = "JAMPy/jam_wrapper_base.py::JAMWrapperBase."


def ani(W, name):
    """parameters of an anisotropy model and its integrating factor"""
    ra = lambda: W.real("r_ani", 0, None, (0.3, 3))
    if name == "const":
        b = W.real("beta", -0.5, 0.5, (-0.45, 0.45))
        return {"beta": b}, lambda r: r ** (2 * b)
    if name == "isotropic":
        return {}, lambda r: r * 0 + 1
    if name == "radial":
        return {}, lambda r: r ** 2
    if name == "OM":
        k = {"r_ani": ra()}
        return k, lambda r: r ** 2 + k["r_ani"] ** 2
    if name == "GOM":
        k = {"r_ani": ra(), "beta_inf": W.real("beta_inf", None, 1, (-0.5, 0.9))}
        return k, lambda r: (r ** 2 + k["r_ani"] ** 2) ** k["beta_inf"]
    if name == "Colin":
        k = {"r_ani": ra()}
        return k, lambda r: r + k["r_ani"]
    k = {"r_ani": ra(), "beta_0": W.real("beta_0", None, 1, (-0.5, 0.5)), "beta_inf": W.real("beta_inf", None, 1, (-0.5, 0.9)),
         "alpha": W.real("alpha", 0, None, (0.5, 3))}
    return k, None


def _factor(name):
    @contract("C20", "integrating factor of %s anisotropy" % name, [AN + "Anisotropy.anisotropy_solution", AN + "Anisotropy.beta_r"])
    def _(W):
        from lenstronomy.GalKin.anisotropy import Anisotropy

        k, f = ani(W, name)
        r = W.real("r", 0, None, (0.2, 3))
        A = Anisotropy(name)
        beta = A.beta_r(r, **k)
        W.eq_grad("d ln f / d ln r is twice the anisotropy", lambda s: W.log(f(s)), [r], [2 * beta / r])
        if name not in ("const", "Colin"):
            W.eq("integrating factor up to a constant", A.anisotropy_solution(r, **k) / A.anisotropy_solution(1.0, **k), f(r) / f(1.0))


for _n in ("const", "isotropic", "radial", "OM", "GOM", "Colin"):
    _factor(_n)


def _kernel(name, side=None):
    @contract("C20", "projection kernel of %s anisotropy%s" % (name, "" if side is None else ", " + side), [AN + "Anisotropy.K", AN + "Anisotropy.beta_r"],
              timeout=120, sym=(name != "GOM"), samples=12,
              bounded="sampled radii (tabulated hypergeometric functions)" if name == "GOM" else None)
    def _(W):
        from lenstronomy.GalKin.anisotropy import Anisotropy

        k, f = ani(W, name)
        R = W.real("R", 0, None, (0.3, 2))
        dr = W.real("dr", 0, None, (0.4, 3))
        r = W.real("r", 0, None, (0.3, 5)) if W.sym else R + dr
        if W.sym:
            W.assume(r > R)
        if side == "outside":
            W.assume(k["r_ani"] > R)
        if side == "inside":
            W.assume(k["r_ani"] < R)
        A = Anisotropy(name)
        beta = A.beta_r(r, **k)
        want = (1 - beta * R ** 2 / r ** 2) * r / (f(r) * W.sqrt(r ** 2 - R ** 2))
        W.eq_grad("kernel is the projected Jeans integral", lambda s: s * A.K(s, R, **k) / f(s), [r], [want],
                  rtol=2e-3 if name == "GOM" else 1e-4, scale=0.05)
        if name == "GOM":
            W.eq("kernel vanishes at the projected radius", A.K(R, R, **k), 0, atol=1e-6)
        elif not W.sym and name != "const":
            W.eq("kernel vanishes at the projected radius", A.K(R * (1 + 1e-12), R, **k), 0, atol=1e-4)
        elif not W.sym:
            W.eq("kernel vanishes at the projected radius", A.K(R * (1 + 1e-9), R, **k), 0, atol=1e-3)


for _n in ("const", "isotropic", "radial", "OM", "GOM"):
    _kernel(_n)
_kernel("Colin", "outside")
_kernel("Colin", "inside")


@contract("C20", "kernel of Colin anisotropy is continuous", [AN + "Colin.K"], sym=False, bounded="sampled radii", samples=12)
def _(W):
    from lenstronomy.GalKin.anisotropy import Anisotropy

    R, u = W.real("R", 0, None, (0.3, 2)), W.real("u", 1, None, (1.1, 10))
    A = Anisotropy("Colin")
    mid = A.K(R * u, R, r_ani=R)
    for e in (1e-4, -1e-4):
        W.eq("kernel at r_ani = R", A.K(R * u, R, r_ani=R * (1 + e)), mid, rtol=1e-3, atol=1e-4)


@contract("C20", "limits of anisotropy models", [AN + q + ".beta_r" for q in ("OsipkovMerritt", "GeneralizedOM", "Colin", "Logistic", "Const", "Isotropic", "Radial")], samples=12)
def _(W):
    from lenstronomy.GalKin.anisotropy import Anisotropy

    r, ra, b = W.real("r", 0, None, (0.2, 3)), W.real("r_ani", 0, None, (0.3, 3)), W.real("b", None, 1, (-0.5, 0.9))
    B = lambda n, **k: Anisotropy(n).beta_r(r, **k)
    W.eq("generalised with full anisotropy is Osipkov-Merritt", B("GOM", r_ani=ra, beta_inf=1), B("OM", r_ani=ra))
    W.eq("logistic form of Osipkov-Merritt", B("logistic", r_ani=ra, beta_0=0, beta_inf=1, alpha=2), B("OM", r_ani=ra))
    W.eq("logistic form of Mamon-Lokas", B("logistic", r_ani=ra, beta_0=0, beta_inf=W.const(0.5), alpha=1), B("Colin", r_ani=ra))
    W.eq("logistic form of generalised", B("logistic", r_ani=ra, beta_0=0, beta_inf=b, alpha=2), B("GOM", r_ani=ra, beta_inf=b))
    W.eq("constant logistic", B("logistic", r_ani=ra, beta_0=b, beta_inf=b, alpha=2), B("const", beta=b))
    W.eq("isotropic", B("isotropic"), B("const", beta=0))
    W.eq("radial", B("radial"), 1)


@contract("C20", "limits of projection kernels", [AN + "Anisotropy.K"], sym=False, bounded="sampled radii", samples=10)
def _(W):
    from lenstronomy.GalKin.anisotropy import Anisotropy

    R, u, ra = W.real("R", 0, None, (0.3, 2)), W.real("u", 1, None, (1.05, 10)), W.real("r_ani", 0, None, (0.3, 3))
    K = lambda n, **k: Anisotropy(n).K(R * u, R, **k)
    W.eq("generalised with full anisotropy is Osipkov-Merritt", K("GOM", r_ani=ra, beta_inf=1), K("OM", r_ani=ra), rtol=2e-3)
    W.eq("generalised without anisotropy is isotropic", K("GOM", r_ani=ra, beta_inf=0), K("isotropic"), rtol=1e-6)
    W.eq("large anisotropy radius is isotropic", K("OM", r_ani=1e6), K("isotropic"), rtol=1e-4)
    W.eq("small anisotropy radius is radial", K("OM", r_ani=1e-6), K("radial"), rtol=1e-4, atol=1e-6)
    W.eq("small constant anisotropy is isotropic", K("const", beta=1e-7), K("isotropic"), rtol=1e-4)


def _jam(name):
    @contract("C20", "anisotropy passed to JAM for %s" % name, [AN + "Anisotropy.jampy_beta"], samples=12)
    def _(W):
        from lenstronomy.GalKin.anisotropy import Anisotropy

        k, _f = ani(W, name)
        r, th = W.real("r", 0, None, (0.2, 3)), W.real("theta", 0, None, (0.1, 1.5))
        A = Anisotropy(name)
        if name == "const":
            pass
        p = A.jampy_beta(k)
        beta = A.beta_r(r, **k)
        if name == "radial":
            beta = W.const(0.999)
        if A.use_logistic:
            W.eq("logistic parameters", p[1] + (p[2] - p[1]) / (1 + (p[0] / r) ** p[3]), beta)
        else:
            W.eq("constant", p, beta)
        s = A.jampy_beta(k, "axi_sph")
        if callable(s):
            b, db = s(r, th)
            W.eq("spherical alignment", b, beta)
            W.eq("spherical alignment does not depend on angle", db, 0)
        else:
            W.eq("spherical alignment", s, beta)
        c = A.jampy_beta(k, "axi_cyl")
        b, db = c(r, th)
        W.eq_grad("derivative of the anisotropy with angle", lambda t: c(r, t)[0], [th], [db])
        W.eq("equator", 1 - c(r, W.pi / 2)[0], 1 - beta)
        W.eq("symmetry axis", (1 - c(r, 0)[0]) * (1 - beta), 1)


for _n in ("const", "isotropic", "radial", "OM", "GOM", "Colin", "logistic"):
    _jam(_n)


# ---------------------------------------------------------------------------------- apertures

def place(W, u, v, cx, cy, phi):
    """sky position of aperture coordinates (u, v)"""
    c, s = W.cos(phi), W.sin(phi)
    return cx + c * u - s * v, cy + s * u + c * v


def frame_vars(W):
    return W.real("cx", None, None, (-1, 1)), W.real("cy", None, None, (-1, 1)), W.real("phi", None, None, (-3, 3))


def _inside(W, *conds):
    for c in conds:
        if not c:
            return False
    return True


@contract("C20", "slit contains positions", [AP + "slit_select", AP + "Slit.aperture_select", AP + "Slit.__init__"], samples=30)
def _(W):
    from lenstronomy.GalKin.aperture import Aperture

    cx, cy, phi = frame_vars(W)
    u, v = W.real("u", None, None, (-2, 2)), W.real("v", None, None, (-1, 1))
    ra, dec = place(W, u, v, cx, cy, phi)
    a = Aperture("slit", length=2.0, width=1.0, center_ra=cx, center_dec=cy, angle=phi, delta_pix=0.5)
    got, seg = a.aperture_select(ra, dec)
    W.same("selected exactly inside the slit", bool(got), _inside(W, u < 1, u > -1, v < 0.5, v > -0.5))
    W.same("one segment", (seg, a.num_segments), (0, 1))


@contract("C20", "frame contains positions", [AP + "frame_select", AP + "Frame.aperture_select"], samples=30)
def _(W):
    from lenstronomy.GalKin.aperture import Aperture

    cx, cy, phi = frame_vars(W)
    u, v = W.real("u", None, None, (-2, 2)), W.real("v", None, None, (-2, 2))
    ra, dec = place(W, u, v, cx, cy, phi)
    from lenstronomy.GalKin.aperture_types import frame_select

    wo, wi = W.real("wo", 0, None, (2, 3)), W.real("wi", 0, None, (0.5, 1.5))
    W.assume(wi < wo)
    got = frame_select(ra, dec, wo, wi, cx, cy, phi)
    want = _inside(W, u < wo / 2, u > -wo / 2, v < wo / 2, v > -wo / 2)
    if want and _inside(W, u < wi / 2, u > -wi / 2, v < wi / 2, v > -wi / 2):
        want = False
    W.same("selected exactly between the squares", bool(got), want)


@contract("C20", "shell contains positions", [AP + "shell_select", AP + "shell_ifu_select"], samples=30)
def _(W):
    from lenstronomy.GalKin.aperture_types import shell_select, shell_ifu_select

    cx, cy, phi = frame_vars(W)
    d = W.real("d", 0, None, (0.1, 3))
    ra, dec = place(W, d, 0, cx, cy, phi)
    r = [W.real("r%d" % i, 0, None, (0.6 * i + 0.2, 0.6 * i + 0.7)) for i in range(4)]
    for a, b in zip(r, r[1:]):
        W.assume(a < b)
    W.same("single shell", bool(shell_select(ra, dec, r[1], r[2], cx, cy)), _inside(W, d >= r[1], d < r[2]))
    got, seg = shell_ifu_select(ra, dec, r, cx, cy)
    want = None
    for i in range(3):
        if _inside(W, d >= r[i], d < r[i + 1]):
            want = i
    W.same("shell of a position", (bool(got), seg), (want is not None, want))


def _ifu(kind, sx, sy):
    @contract("C20", "%s contains positions, x %s, y %s" % (kind, sx, sy), [AP + "IFUGrid.aperture_select", AP + "IFUBinned.aperture_select", AP + "grid_ifu_select"], samples=30, max_paths=600, timeout=120)
    def _(W):
        from lenstronomy.GalKin.aperture import Aperture

        cx, cy, phi = frame_vars(W)
        h = W.real("h", 0, None, (0.3, 1))
        ny, nx = 2, 3
        dx, dy = (h if sx == "up" else -h), (h if sy == "up" else -h)
        g = [[place(W, j * dx, i * dy, cx, cy, phi) for j in range(nx)] for i in range(ny)]
        X, Y = W.mat([[q[0] for q in row] for row in g]), W.mat([[q[1] for q in row] for row in g])
        u, v = W.real("u", None, None, (-1, 3)), W.real("v", None, None, (-1, 2))
        ra, dec = place(W, u * dx, v * dy, cx, cy, phi)
        bins = np.array([[0, 0, 1], [2, -1, 1]])
        kw = {} if kind == "IFU_grid" else {"bins": bins}
        a = Aperture(kind, x_grid=X, y_grid=Y, angle=phi, **kw)
        W.eq("pixel scale", a.delta_pix, h)
        got, seg = a.aperture_select(ra, dec)
        want = None
        for i in range(ny):
            for j in range(nx):
                if want is None and _inside(W, u > j - 0.5, u < j + 0.5, v > i - 0.5, v < i + 0.5):
                    want = (i, j)
        if want is not None and kind == "IFU_binned":
            want = int(bins[want]) if bins[want] >= 0 else None
        edge = any(_inside(W, u == j - 0.5) for j in range(nx + 1)) or any(_inside(W, v == i - 0.5) for i in range(ny + 1))
        if not edge:
            W.same("pixel or bin of a position", (bool(got), seg), (want is not None, want))


for _k in ("IFU_grid", "IFU_binned"):
    for _sx, _sy in (("up", "up"), ("down", "up"), ("up", "down")):
        _ifu(_k, _sx, _sy)


@contract("C20", "general aperture contains positions", [AP + "GeneralAperture.aperture_select", AP + "general_aperture_select"], samples=30, max_paths=600)
def _(W):
    from lenstronomy.GalKin.aperture import Aperture

    h = 0.5
    x, y = np.array([0.0, 1.0, 0.0, 2.0]), np.array([0.0, 0.0, 1.0, 2.0])
    bins = np.array([0, 1, -1, 1])
    a = Aperture("general_aperture", x_cords=x, y_cords=y, bins=bins, delta_pix=h)
    ra, dec = W.real("ra", None, None, (-0.5, 2.5)), W.real("dec", None, None, (-0.5, 2.5))
    got, seg = a.aperture_select(ra, dec)
    want = None
    for q in range(4):
        if want is None and _inside(W, ra >= x[q] - h / 2, ra <= x[q] + h / 2, dec >= y[q] - h / 2, dec <= y[q] + h / 2):
            want = q
    b = None if want is None or bins[want] < 0 else int(bins[want])
    W.same("bin of a position", (bool(got), seg), (b is not None, b))
    W.same("number of bins", a.num_segments, 2)


def _bins(kind, kw):
    @contract("C20", "bins of the pixels of a %s" % kind, [AP + "ApertureBase.aperture_downsample", AP + "make_slit_grid", AP + "downsample_values_to_bins"], samples=6, timeout=120)
    def _(W):
        from lenstronomy.GalKin.aperture import Aperture

        cx, cy, phi = frame_vars(W)
        k = dict(kw, center_ra=cx, center_dec=cy)
        if kind in ("slit", "frame"):
            k["angle"] = phi
        else:
            phi = 0
        h = k["delta_pix"]
        a = Aperture(kind, **k)
        lu, lv = {"slit": (k.get("length"), k.get("width"))}.get(kind) or ((k["width_outer"],) * 2 if kind == "frame" else (2 * max(k["r_bins"]),) * 2 if kind == "IFU_shells" else (2 * k["r_out"],) * 2)
        nu, nv = int(round(lu / h)), int(round(lv / h))
        X, Y = a.aperture_sample(1)
        W.shape("pixels tile the aperture", X, (nv, nu))
        us = [(-lu + h) / 2 + h * j for j in range(nu)]
        vs = [(-lv + h) / 2 + h * i for i in range(nv)]
        val = W.uf("val", 2)
        want = {}
        vals = []
        for i in range(nv):
            row = []
            for j in range(nu):
                px, py = place(W, us[j], vs[i], cx, cy, phi)
                W.eq("pixel positions", [X[i][j], Y[i][j]], [px, py])
                z = W.real("s%d_%d" % (i, j), None, None, (-1, 1))
                row.append(z)
                u, v, d = abs(us[j]), abs(vs[i]), np.hypot(us[j], vs[i])
                if kind == "slit":
                    b = 0
                elif kind == "frame":
                    b = -1 if u < k["width_inner"] / 2 and v < k["width_inner"] / 2 else 0
                elif kind == "shell":
                    b = 0 if k["r_in"] <= d < k["r_out"] else -1
                else:
                    q = [n for n in range(len(k["r_bins"]) - 1) if k["r_bins"][n] <= d < k["r_bins"][n + 1]]
                    b = q[0] if q else -1
                if b >= 0:
                    want.setdefault(b, []).append(z)
            vals.append(row)
        out = a.aperture_downsample(W.mat(vals), 1)
        W.shape("one value per bin", out, (len(want),))
        for b in want:
            W.eq("average over the pixels of the bin", out[b], sum(want[b]) / len(want[b]))


_bins("slit", {"length": 2.0, "width": 1.0, "delta_pix": 0.5})
_bins("frame", {"width_outer": 3.0, "width_inner": 1.2, "delta_pix": 0.5})
_bins("shell", {"r_in": 0.5, "r_out": 1.5, "delta_pix": 0.5})
_bins("IFU_shells", {"r_bins": np.array([0.25, 0.8, 1.5]), "delta_pix": 0.5})


def _super(kind, s):
    @contract("C20", "supersampled %s, factor %d" % (kind, s), [AP + "make_supersampled_grid", AP + "_unpad_map", AP + "_undo_supersampling", AP + "ApertureBase.padding_pix", AP + "IFUGrid.aperture_downsample"], samples=6, timeout=120)
    def _(W):
        from lenstronomy.GalKin.aperture import Aperture

        cx, cy, phi = frame_vars(W)
        h, ny, nx = 0.5, 2, 3
        sg = W.choice("direction", [1, -1])
        pad = W.choice("padding", [0, 1])
        g = [[place(W, j * h * sg, i * h, cx, cy, phi) for j in range(nx)] for i in range(ny)]
        X, Y = W.mat([[q[0] for q in row] for row in g]), W.mat([[q[1] for q in row] for row in g])
        bins = np.array([[0, 0, 1], [1, -1, 1]])
        kw = {} if kind == "IFU_grid" else {"bins": bins}
        a = Aperture(kind, x_grid=X, y_grid=Y, angle=phi, padding_arcsec=1.6 * pad * h, **kw)
        SX, SY = a.aperture_sample(s)
        pp = int(1.6 * pad * s)
        N, M = ny * s + 2 * pp, nx * s + 2 * pp
        W.shape("supersampled and padded grid", SX, (N, M))
        vals = []
        for i in range(N):
            row = []
            for j in range(M):
                p = place(W, sg * h * ((j + 0.5 - pp) / s - 0.5), h * ((i + 0.5 - pp) / s - 0.5), cx, cy, phi)
                W.eq("sub-pixel positions", [SX[i][j], SY[i][j]], list(p))
                row.append(W.real("s%d_%d" % (i, j), None, None, (-1, 1)))
            vals.append(row)
        out = a.aperture_downsample(W.mat(vals), s)
        o = pp
        mean = [[sum(vals[o + i * s + a_][o + j * s + b_] for a_ in range(s) for b_ in range(s)) / (s * s) for j in range(nx)] for i in range(ny)]
        if kind == "IFU_grid":
            for i in range(ny):
                for j in range(nx):
                    W.eq("average over the sub-pixels", out[i][j], mean[i][j])
        else:
            W.eq("average over the pixels of the bin", list(out), [(mean[0][0] + mean[0][1]) / 2, (mean[0][2] + mean[1][0] + mean[1][2]) / 3])


for _k in ("IFU_grid", "IFU_binned"):
    for _s in (1, 2, 3):
        _super(_k, _s)


# ---------------------------------------------------------------------------------- random draws

class Draws:
    """numpy whose random numbers are arbitrary values"""

    def __init__(self, W):
        self.W, self.n = W, 0
        self.random = self

    def _one(self, lo, hi):
        self.n += 1
        return lo + (hi - lo) * self.W.real("u%d" % self.n, 0, 1, (0.05, 0.95))

    def uniform(self, low=0, high=1, size=None):
        if size is None:
            return self._one(low, high)
        return self.W._arr1([self._one(low, high) for _ in range(size)])

    def normal(self, loc=0, scale=1, size=None):
        self.n += 1
        return loc + scale * self.W.real("g%d" % self.n, None, None, (-2, 2))

    def __getattr__(self, n):
        return getattr(self.W._shim.NP if self.W.sym else np, n)


def drawing(W):
    import lenstronomy.GalKin.velocity_util as vu

    d = Draws(W)
    return d, swap(W, (vu, "np", d), both=True)


@contract("C20", "random displacements and projections", [VU + q for q in ("displace_PSF_gaussian", "draw_moffat_r", "displace_psf_moffat", "draw_cdf_y", "project2d_random", "draw_xy", "draw_hernquist", "moffat_fwhm_alpha", "moffat_r")], samples=10)
def _(W):
    import lenstronomy.GalKin.velocity_util as vu

    x, y = W.real("x"), W.real("y")
    fwhm, beta = W.real("fwhm", 0, None, (0.3, 2)), W.real("beta", 1, None, (1.5, 4))
    d, sw = drawing(W)
    U = lambda i: W.real("u%d" % i, 0, 1, (0.05, 0.95))
    G = lambda i: W.real("g%d" % i, None, None, (-2, 2))
    with sw:
        d.n = 0
        a, b = vu.displace_PSF_gaussian(x, y, fwhm)
        # Gaussian with half maximum at half of the FWHM
        s = fwhm / (2 * W.sqrt(2 * W.log(2)))
        W.eq("Gaussian displacement", [a - x, b - y], [s * G(1), s * G(2)])
        d.n = 10
        alpha = vu.moffat_fwhm_alpha(fwhm, beta)
        W.eq("half of the peak at half of the FWHM", 2 * vu.moffat_r(fwhm / 2, alpha, beta), vu.moffat_r(0, alpha, beta))
        r = vu.draw_moffat_r(fwhm, beta)
        cdf = lambda q: 1 - (1 + (q / alpha) ** 2) ** (1 - beta)
        W.eq("Moffat radius at the drawn quantile", cdf(r), U(11))
        q = W.real("q", 0, None, (0.3, 2))
        W.eq_grad("quantile is the enclosed flux", cdf, [q], [vu.moffat_r(q, alpha, beta) * q])
        d.n = 20
        a, b = vu.displace_psf_moffat(x, y, fwhm, beta)
        rr = alpha * W.sqrt((1 - U(21)) ** (1 / (1 - beta)) - 1)
        W.eq("Moffat displacement", [a - x, b - y], [rr * W.cos(2 * W.pi * U(22)), rr * W.sin(2 * W.pi * U(22))])
        d.n = 30
        r3 = W.real("r3", 0, None, (0.3, 2))
        R, px, py = vu.project2d_random(r3)
        z = r3 * (2 * U(31) - 1)  # uniform along the line of sight for isotropic directions
        W.eq("projected radius", R ** 2, r3 ** 2 - z ** 2)
        W.eq("position angle", [px, py], [W.sqrt(r3 ** 2 - z ** 2) * W.cos(2 * W.pi * U(32)), W.sqrt(r3 ** 2 - z ** 2) * W.sin(2 * W.pi * U(32))])
        d.n = 40
        h = W.real("h", 0, None, (0.3, 2))
        r = vu.draw_hernquist(h)
        W.eq("Hernquist radius at the drawn quantile", r ** 2 / (r + h) ** 2, U(41))


@contract("C20", "light of the Hernquist draw", [AK + "draw_light", AK + "_get_hernquist_scale_radius"], samples=8)
def _(W):
    from lenstronomy.GalKin.analytic_kinematics import AnalyticKinematics as A

    d, sw = drawing(W)
    h = W.real("h", 0, None, (0.3, 2))
    U = lambda i: W.real("u%d" % i, 0, 1, (0.05, 0.95))
    for n, kw in ((0, {"a": h}), (10, {"Rs": h}), (20, {"r_eff": h / W.const(0.551)})):
        d.n = n
        with sw:
            r, R, x, y = A.draw_light(kw)
        W.eq("Hernquist radius at the drawn quantile", r ** 2 / (r + h) ** 2, U(n + 1))
        W.eq("projected radius", [R ** 2, x ** 2 + y ** 2], [r ** 2 * (1 - (2 * U(n + 2) - 1) ** 2)] * 2)


# ---------------------------------------------------------------------------------- PSF

@contract("C20", "Gaussian, Moffat and multi-Gaussian kernels", [PSF + q for q in ("PSFGaussian.convolution_kernel", "PSFGaussian.convolution_kernel_grid", "PSFMoffat.convolution_kernel", "PSFMoffat.convolution_kernel_grid", "PSFMultiGaussian.convolution_kernel", "PSFMultiGaussian.convolution_kernel_grid", "PSF.__init__")], samples=4, timeout=120)
def _(W):
    from lenstronomy.GalKin.psf import PSF as P, PSFMoffat

    kind = W.choice("kind", ["GAUSSIAN", "MOFFAT", "MULTI_GAUSSIAN"])
    f, h = W.real("fwhm", 0, None, (0.5, 2)), W.real("h", 0, None, (0.2, 0.6))
    if kind == "GAUSSIAN":
        p = P(kind, fwhm=f)
        prof = lambda r2: W.exp(-r2 * 4 * W.log(2) / f ** 2)
        W.eq("width of the Gaussian", p.psf_multi_gauss_sigmas * 2 * W.sqrt(2 * W.log(2)), f)
    elif kind == "MOFFAT":
        b = W.real("b", 1, None, (2, 4))
        with swap(W, (PSFMoffat, "_moffat_multi_gaussian", lambda self: (None, None)), both=True):
            p = P(kind, fwhm=f, moffat_beta=b)
        prof = lambda r2: (1 + 4 * r2 / f ** 2 * (2 ** (1 / b) - 1)) ** (-b)
    else:
        am, sg = W.array("amp", 2, 0, None, (0.5, 2)), W.array("sig", 2, 0, None, (0.3, 1))
        p = P(kind, amplitudes=am, sigmas=sg, fwhm=f)
        W.eq("normalised amplitudes", [p.psf_multi_gauss_amplitudes[i] * (am[0] + am[1]) for i in range(2)], [am[0], am[1]])
        prof = lambda r2: sum(am[i] / sg[i] ** 2 * W.exp(-r2 / (2 * sg[i] ** 2)) for i in range(2))
    W.eq("FWHM", p.psf_fwhm, f)
    k = p.convolution_kernel(h, num_pix=3)
    want = [[prof(((i - 1) ** 2 + (j - 1) ** 2) * h ** 2) for j in range(3)] for i in range(3)]
    tot = sum(sum(r) for r in want)
    W.eq("kernel", [k[i][j] * tot for i in range(3) for j in range(3)], [want[i][j] for i in range(3) for j in range(3)])
    X = W.mat([[(j - 1) * h for j in range(3)] for i in range(3)])
    Y = W.mat([[(i - 1) * h for j in range(3)] for i in range(3)])
    g = p.convolution_kernel_grid(X, Y)
    W.eq("kernel on a grid", [g[i][j] * tot for i in range(3) for j in range(3)], [want[i][j] for i in range(3) for j in range(3)])


@contract("C20", "pixel kernels and effective widths", [PSF + q for q in ("PSFPixel.__init__", "PSFPixel.convolution_kernel", "PSFPixel.convolution_kernel_grid", "_radial_profile_from_kernel", "_fwhm_from_radial_profile", "PSFMultiGaussian.__init__", "PSFMoffat._moffat_multi_gaussian")], sym=False, bounded="sampled widths", samples=4)
def _(W):
    from lenstronomy.GalKin.psf import PSF as P

    s, h = W.real("s", 0, None, (0.3, 0.45)), 0.02
    x = (np.arange(161) - 80) * h
    k = np.exp(-(x[None] ** 2 + x[:, None] ** 2) / (2 * s ** 2))
    k /= k.sum()
    p = P("PIXEL", kernel=k, delta_pix=h, supersampling_factor=3)
    W.eq("effective width", p.psf_fwhm, 2 * np.sqrt(2 * np.log(2)) * s, rtol=0.04)
    W.eq("kernel", p.convolution_kernel(h, 161), k)
    W.eq("kernel on a grid", p.convolution_kernel_grid(np.zeros((161, 161)), np.zeros((161, 161))), k)
    W.raises("other size", lambda: p.convolution_kernel(h, 21), ValueError)
    W.raises("other scale", lambda: p.convolution_kernel(2 * h, 161), ValueError)
    s2 = 0.6 * s
    m = P("MULTI_GAUSSIAN", amplitudes=np.array([2.0]), sigmas=np.array([s2]))
    W.eq("effective width of Gaussians", m.psf_fwhm, 2 * np.sqrt(2 * np.log(2)) * s2, rtol=0.04)
    b = 3.0
    mo = P("MOFFAT", fwhm=1.0, moffat_beta=b, n_gauss_approx=12)
    W.eq("Gaussian expansion is normalised", np.sum(mo.psf_multi_gauss_amplitudes), 1)
    r = np.linspace(0.05, 1.5, 8)
    a = 1.0 / (2 * np.sqrt(2 ** (1 / b) - 1))
    mof = (b - 1) / (np.pi * a ** 2) * (1 + (r / a) ** 2) ** (-b)
    g = sum(A / (2 * np.pi * S ** 2) * np.exp(-r ** 2 / (2 * S ** 2)) for A, S in zip(mo.psf_multi_gauss_amplitudes, mo.psf_multi_gauss_sigmas))
    W.eq("Gaussian expansion of the Moffat profile", g, mof, rtol=0.1, atol=0.01)


# ---------------------------------------------------------------------------------- cosmology, mass and light

@contract("C20", "critical density and physical units", ["GalKin/cosmo.py::Cosmo.epsilon_crit", "GalKin/cosmo.py::Cosmo.arcsec2phys_lens"], samples=8)
def _(W):
    from lenstronomy.GalKin.cosmo import Cosmo
    import lenstronomy.Util.constants as c

    dd, ds, dds = [W.real(n, 0, None, (500, 2000)) for n in ("dd", "ds", "dds")]
    co = Cosmo(dd, ds, dds)
    W.eq("transverse size", co.arcsec2phys_lens(3), 3 * dd * c.arcsec)
    W.true("arcsecond in radian", abs(c.arcsec * 648000 / np.pi - 1) < 1e-6)
    W.eq("critical surface density in solar masses per square Mpc", co.epsilon_crit * c.M_sun / c.Mpc ** 2, c.c ** 2 / (4 * W.pi * c.G) * ds / (dd * dds * c.Mpc))
    for bad in ((-1, 1, 1), (1, 0, 1), (1, 1, -1)):
        W.raises("non-positive distances", lambda: Cosmo(*bad), ValueError)


@contract("C20", "light profiles of the dynamics", [LP + "light_3d", LP + "light_2d", LP + "_circularize_kwargs", LP + "delete_cache"], samples=8)
def _(W):
    from lenstronomy.GalKin.light_profile import LightProfile
    from lenstronomy.LightModel.light_model import LightModel

    names = ["HERNQUIST_ELLIPSE", "PJAFFE"]
    a = [W.real("amp%d" % i, 0, None, (0.5, 2)) for i in range(2)]
    rs, ra, b = W.real("rs", 0, None, (0.3, 1)), W.real("ra", 0, None, (0.1, 0.5)), W.real("rb", 0, None, (0.6, 2))
    W.assume(ra < b)
    e1, cx = W.real("e1", -0.2, 0.2), W.real("cx", None, None, (-1, 1))
    kw = [{"amp": a[0], "Rs": rs, "e1": e1, "e2": e1 / 2, "center_x": cx, "center_y": 1}, {"amp": a[1], "Ra": ra, "Rs": b, "center_x": cx, "center_y": 1}]
    R = W.real("R", 0, None, (0.2, 3))
    circ = [{"amp": a[0], "Rs": rs, "e1": 0, "e2": 0}, {"amp": a[1], "Ra": ra, "Rs": b}]
    lp, lm = LightProfile(names), LightModel(names)
    W.eq("three-dimensional light", lp.light_3d(R, kw), lm.light_3d(R, kw))
    W.eq("projected light is that of the circular profile", lp.light_2d(R, kw), lm.surface_brightness(R, 0, circ))
    W.same("parameters of the caller", (sorted(kw[0]), kw[0]["e1"] is e1), (["Rs", "amp", "center_x", "center_y", "e1", "e2"], True))
    lp.delete_cache()
    kw2 = [dict(kw[0], amp=2 * a[0]), dict(kw[1], amp=2 * a[1])]
    W.eq("after deleting the cache", lp.light_2d(R, kw2), 2 * lm.surface_brightness(R, 0, circ))


@contract("C20", "draws of the light profile", [LP + "draw_light_3d", LP + "draw_light_2d", LP + "draw_light_2d_linear", LP + "light_3d_interp", LP + "light_2d_finite"], sym=False, bounded="sampled profiles and quantiles", samples=4)
def _(W):
    from lenstronomy.GalKin.light_profile import LightProfile

    a = W.real("a", 0, None, (0.3, 1))
    u = W.real("u", 0, 1, (0.1, 0.9))
    kw = [{"amp": 1.0, "Rs": a}]
    import lenstronomy.GalKin.light_profile as M

    fake = types.SimpleNamespace(uniform=lambda lo, hi, n: np.full(n, lo + (hi - lo) * u))

    class NP:
        random = fake

        def __getattr__(self, n):
            return getattr(np, n)

    with swap(W, (M, "np", NP()), both=True):
        lp = LightProfile(["HERNQUIST"], interpol_grid_num=4000, max_interpolate=300, min_interpolate=1e-4)
        r = lp.draw_light_3d(kw)[0]
        mass = lambda r: r ** 2 / (r + a) ** 2
        W.eq("enclosed fraction of the draw", mass(r) / mass(300), u, rtol=3e-3)
        from scipy.integrate import quad

        big = 50.0
        lp = LightProfile(["HERNQUIST"], interpol_grid_num=4000, max_interpolate=big, min_interpolate=1e-4)
        f = lambda R: float(lp.light_model.surface_brightness(R, 0, kw)) * R
        tot = quad(f, 1e-4, big, limit=200)[0]
        for d, tol in ((lp.draw_light_2d, 5e-3), (lp.draw_light_2d_linear, 3e-2)):
            R = d(kw)[0]
            W.eq("enclosed fraction of the projected draw", quad(f, 1e-4, R, limit=200)[0] / tot, u, rtol=tol, atol=tol)
        q = np.array([0.05, 0.3, 2.0, 9.0])
        W.eq("interpolated light", lp.light_3d_interp(q, kw), lp.light_3d(q, kw), rtol=1e-3)
        lp = LightProfile(["HERNQUIST"], interpol_grid_num=2000, max_interpolate=1000, min_interpolate=1e-4)
        W.eq("projection of the light", lp.light_2d_finite(q, kw), lp.light_2d(q, kw), rtol=1e-2)
        W.eq("projection of the light at one radius", [lp.light_2d_finite(z, kw) for z in q], lp.light_2d_finite(q, kw))


class Num:
    """arbitrary mass and light of the kinematics"""


def numeric(W, anis="OM", **k):
    from lenstronomy.GalKin.numeric_kinematics import NumericKinematics
    import lenstronomy.GalKin.numeric_kinematics as M

    dd, ds, dds = [W.real(n, 0, None, (500, 2000)) for n in ("dd", "ds", "dds")]
    nk = NumericKinematics({"mass_profile_list": ["SIS"], "light_profile_list": ["HERNQUIST"], "anisotropy_model": anis}, {"d_d": dd, "d_s": ds, "d_ds": dds}, **k)
    return nk, dd, ds, dds


@contract("C20", "radial and projected dispersion at one radius", [NK + q for q in ("mass_3d", "grav_potential", "sigma_s2_r", "sigma_r2", "_integrand_A15", "_integrand_jeans_solution", "sigma_s2", "sigma_s2_project", "I_R_sigma2_and_IR")], samples=8)
def _(W):
    import lenstronomy.Util.constants as c

    nk, dd, ds, dds = numeric(W, lum_weight_int_method=False)
    M, L, J = W.uf("M", 2), W.uf("L", 2), W.uf("J", 1)
    nk._mass_profile = types.SimpleNamespace(mass_3d=lambda r, kw: M(r, kw[0]["p"]))
    nk.lightProfile = types.SimpleNamespace(light_3d=lambda r, kw: L(r, kw[0]["q"]))
    p, q, ra = W.real("p"), W.real("q"), W.real("r_ani", 0, None, (0.3, 3))
    r, R = W.real("r", 0, None, (1, 3)), W.real("R", 0, None, (0.2, 0.9))
    W.assume(R < r)
    if W.sym:
        W.assume(L(r, q) > 0)
    km, kl, ka = [{"p": p}], [{"q": q}], {"r_ani": ra}
    arc = W.pi / 648000 if W.sym else np.pi / 648000
    mass = M(r, p) * c.arcsec ** 2 * dd * ds / dds * c.Mpc * c.c ** 2 / (4 * W.pi * c.G)
    W.eq("mass in kilogram", nk.mass_3d(r, km) / c.M_sun, mass / c.M_sun)
    W.eq("potential of a point", nk.grav_potential(r, km), -c.G * mass / (r * c.arcsec * dd * c.Mpc))
    beta = r ** 2 / (r ** 2 + ra ** 2)
    f = r ** 2 + ra ** 2
    nk._jeans_solution_integral = lambda s, a, b, d: J(s)
    sr = J(r) / f / L(r, q) * c.G / (c.arcsec * dd * c.Mpc)
    W.eq("radial dispersion", nk.sigma_r2(r, km, kl, ka), sr)
    want = (1 - beta * R ** 2 / r ** 2) * sr
    W.eq("line-of-sight dispersion", nk.sigma_s2_r(r, R, km, kl, ka), want)
    got = nk.sigma_s2(r, R, km, kl, ka)
    W.eq("sampled dispersion and weight", list(got), [want, 1])
    W.eq("integrand of the projection", nk._integrand_A15(r, R, km, kl, ka), nk.K(r, R, **ka) * L(r, q) * mass / r, rtol=1e-6)
    nk._mass_3d_interp = lambda s, k: M(s, k[0]["p"])
    W.eq("integrand of the Jeans equation", nk._integrand_jeans_solution(r, km, kl, ka), f * L(r, q) * M(r, p) / r ** 2)
    A, B = W.uf("A", 1), W.uf("B", 1)
    nk._I_R_sigma2_interp = lambda s, a, b, d: (A(s), B(s))
    nk._lum_weight_int_method = True
    if W.sym:
        W.assume(B(R) > 0)
    got = nk.sigma_s2(r, R, km, kl, ka)
    W.eq("projected dispersion and weight", [got[0] * B(R), got[1]], [A(R), 1])
    W.eq("weighted dispersion and light", list(nk.I_R_sigma2_and_IR(R, km, kl, ka)), [A(R), B(R)])


@contract("C20", "Jeans integrals against quadrature", [NK + q for q in ("_I_R_sigma2", "_I_R_sigma2_interp", "_jeans_solution_integral", "_mass_3d_interp", "sigma_r2", "sigma_s2_project", "lum_weighted_vel_disp", "delete_cache")], sym=False, bounded="sampled power-law lenses with Hernquist light", samples=6, timeout=200)
def _(W):
    from scipy.integrate import quad
    from lenstronomy.GalKin.numeric_kinematics import NumericKinematics
    import lenstronomy.Util.constants as c

    anis = W.choice("anisotropy", ["OM", "isotropic", "GOM"])
    dd, ds, dds = 1200.0, 1700.0, 900.0
    a, th, g = W.real("a", 0, None, (0.4, 0.9)), W.real("theta_E", 0, None, (0.8, 1.4)), W.real("gamma", 1.7, 2.3)
    ka = {"OM": {"r_ani": 0.8}, "isotropic": {}, "GOM": {"r_ani": 0.8, "beta_inf": 0.6}}[anis]
    f = {"OM": lambda r: r ** 2 + 0.64, "isotropic": lambda r: 1.0, "GOM": lambda r: (r ** 2 + 0.64) ** 0.6}[anis]
    beta = {"OM": lambda r: r ** 2 / (r ** 2 + 0.64), "isotropic": lambda r: 0.0, "GOM": lambda r: 0.6 * r ** 2 / (r ** 2 + 0.64)}[anis]
    cosmo = {"d_d": dd, "d_s": ds, "d_ds": dds}
    big = 300.0
    nk = NumericKinematics({"mass_profile_list": ["SPP"], "light_profile_list": ["HERNQUIST"], "anisotropy_model": anis}, cosmo,
                           interpol_grid_num=2000, max_integrate=big, min_integrate=1e-4)
    km, kl = [{"theta_E": th, "gamma": g}], [{"amp": 1.0, "Rs": a}]
    from math import gamma as G
    # M(r) in units of Sigma_crit arcsec^2 and Hernquist density
    rho0 = -1 * G(g / 2) / (np.sqrt(np.pi) * G((g - 3) / 2.0)) * th ** (g - 1)
    Mass = lambda r: 4 * np.pi * rho0 * r ** (3 - g) / (3 - g)
    unit = c.arcsec ** 2 * dd * ds / dds * c.Mpc * c.c ** 2 / (4 * np.pi * c.G)
    L = lambda r: a / (2 * np.pi * r * (r + a) ** 3)
    pre = c.G / (c.arcsec * dd * c.Mpc) * unit
    sr = lambda r: pre / (f(r) * L(r)) * quad(lambda s: f(s) * L(s) * Mass(s) / s ** 2, r, big, limit=300)[0]
    for r in (0.1, 0.7, 3.0):
        W.eq("radial dispersion", nk.sigma_r2(r, km, kl, ka), sr(r), rtol=2e-2)
    nk.delete_cache()
    R = W.real("R", 0, None, (0.2, 2))
    num = 2 * quad(lambda z: (1 - beta(np.hypot(R, z)) * R ** 2 / (R ** 2 + z ** 2)) * sr(np.hypot(R, z)) * L(np.hypot(R, z)), 0, 60, limit=60, epsrel=1e-4)[0]
    den = 2 * quad(lambda z: L(np.hypot(R, z)), 0, big, limit=300)[0]
    got = nk.sigma_s2_project(R, km, kl, ka)[0]
    W.eq("projected dispersion", got, num / den, rtol=3e-2)
    rr = np.linspace(1e-4, R, 50)
    nk2 = NumericKinematics({"mass_profile_list": ["SPP"], "light_profile_list": ["HERNQUIST"], "anisotropy_model": anis}, cosmo,
                            interpol_grid_num=2000, max_integrate=big, min_integrate=1e-4)
    A, B = nk2.I_R_sigma2_and_IR(rr, km, kl, ka)
    W.eq("aperture average", nk2.lum_weighted_vel_disp(R, km, kl, ka), np.sqrt(np.sum(A * rr) / np.sum(B * rr)) / 1000, rtol=1e-6)


@contract("C20", "analytic power-law kinematics", [AK + q for q in ("_rho0_r0_gamma", "sigma_r2", "_sigma_r2", "sigma_s2", "_sigma_s2", "_sigma_r2_interp", "grav_potential", "_I_R_sigma2", "_read_out_params", "delete_cache")], sym=False, bounded="sampled power-law lenses with Hernquist light", samples=6, timeout=200)
def _(W):
    from lenstronomy.GalKin.analytic_kinematics import AnalyticKinematics
    from lenstronomy.GalKin.numeric_kinematics import NumericKinematics

    a, th, g, ra = W.real("a", 0, None, (0.4, 0.9)), W.real("theta_E", 0, None, (0.8, 1.4)), W.real("gamma", 1.7, 2.3), W.real("r_ani", 0, None, (0.5, 2))
    cosmo = {"d_d": 1200.0, "d_s": 1700.0, "d_ds": 900.0}
    N = dict(interpol_grid_num=1500, max_integrate=500, min_integrate=1e-4)
    nk = NumericKinematics({"mass_profile_list": ["SPP"], "light_profile_list": ["HERNQUIST"], "anisotropy_model": "OM"}, cosmo, **N)
    an = AnalyticKinematics(cosmo, **N)
    km, kl, ka = {"theta_E": th, "gamma": g}, {"Rs": a, "amp": 1.0}, {"r_ani": ra}
    for r in (0.1, 0.8, 3.0):
        W.eq("radial dispersion", float(an.sigma_r2(r, km, kl, ka)), nk.sigma_r2(r, [km], [kl], ka), rtol=2e-2)
        W.eq("potential", an.grav_potential(r, km), nk.grav_potential(r, [km]), rtol=1e-6)
        R = 0.6 * r
        W.eq("line-of-sight dispersion", an.sigma_s2(r, R, km, kl, ka)[0], nk.sigma_s2_r(r, R, [km], [kl], ka), rtol=2e-2)
    W.same("parameters of the caller", sorted(km), ["gamma", "theta_E"])
    for R in (0.3, 1.5):
        A, B = an.I_R_sigma2_and_IR(R, km, kl, ka)
        C, D = nk.I_R_sigma2_and_IR(R, [km], [kl], ka)
        W.eq("projected dispersion", A / B, C / D, rtol=3e-2)
        W.eq("projected light", B, D, rtol=2e-2)
    # other parameters on the same object after deleting the cache
    an.delete_cache()
    k2, l2 = {"theta_E": 1.3 * th, "gamma": g}, {"Rs": 0.7 * a, "amp": 2.0}
    fresh = AnalyticKinematics(cosmo, **N)
    W.eq("other parameters later", list(an.I_R_sigma2_and_IR(0.5, k2, l2, ka)), list(fresh.I_R_sigma2_and_IR(0.5, k2, l2, ka)))
    km["theta_E"] = 1.3 * th
    an.delete_cache()
    fresh.delete_cache()
    W.eq("parameters changed in place", float(an.sigma_r2(1.0, km, kl, ka)), float(fresh.sigma_r2(1.0, {"theta_E": 1.3 * th, "gamma": g}, kl, ka)))


# ---------------------------------------------------------------------------------- observations

class Stub:
    """arbitrary kinematics: draws, dispersions and light are functions of radius and parameters"""
    lum_weight_int_method = True
    min_integrate = 1e-4

    def __init__(self, W):
        self.W, self.i, self.deleted = W, 0, 0

    def draw_light(self, kl):
        self.i += 1
        R = self.W.real("R%d" % self.i, 0, None, (0.1, 2))
        p = self.W.real("p%d" % self.i, None, None, (-3, 3))
        return R * 2, R, R * self.W.cos(p), R * self.W.sin(p)

    def sigma_s2(self, r, R, km, kl, ka):
        W = self.W
        return W.uf("S2", 5)(r, R, km["m"], kl["l"], ka["a"]), 1

    def delete_cache(self):
        self.deleted += 1


def observed(W, cls, ap, n_ap=None):
    """an observation without its constructor: arbitrary PSF displacements and the given selection"""
    import importlib

    c = getattr(importlib.import_module("lenstronomy.GalKin." + cls[0]), cls[1])
    o = c.__new__(c)
    o.numerics = Stub(W)
    return o


def _select(W, tag, nseg):
    """a choice of aperture for each displaced position"""
    n = [0]

    def f(x, y):
        n[0] += 1
        k = W.choice("%ssel%d" % (tag, n[0]), [None] + list(range(nseg)))
        return (False, None) if k is None else (True, k)

    return f


@contract("C20", "dispersion of one aperture is the light-weighted mean", [GK + "dispersion", GK + "_draw_one_sigma2"], samples=6)
def _(W):
    g = observed(W, ("galkin", "Galkin"), None)
    km, kl, ka = {"m": W.real("m")}, {"l": W.real("l")}, {"a": W.real("a")}
    sel = [W.choice("in%d" % i, [True, False]) for i in range(2)] + [True, True]
    seen = []

    class P:
        def displace_psf(self, x, y):
            return x + 1, y + 2

    g._psf = P()

    class A:
        def aperture_select(self, x, y):
            seen.append((x, y))
            return sel[len(seen) - 1], 0

    g._aperture = A()
    got = g.dispersion(km, kl, ka, sampling_number=2)
    used = [i for i, s in enumerate(sel) if s][:2]
    f = W.uf("S2", 5)
    Rs = [W.real("R%d" % (i + 1), 0, None, (0.1, 2)) for i in range(4)]
    ps = [W.real("p%d" % (i + 1), None, None, (-3, 3)) for i in range(4)]
    tot = sum(f(2 * Rs[i], Rs[i], km["m"], kl["l"], ka["a"]) for i in used)
    if not W.sym and tot <= 0:
        return
    W.eq("mean of the selected draws in km/s", (got * 1000) ** 2, tot / 2)
    W.eq("selection of the displaced positions", [c for q in seen for c in q], [c for i in range(len(seen)) for c in (Rs[i] * W.cos(ps[i]) + 1, Rs[i] * W.sin(ps[i]) + 2)])
    W.same("cache forgotten", g.numerics.deleted, 1)


@contract("C20", "dispersion of many apertures", [GK + "dispersion_map", "GalKin/galkin_multiobservation.py::GalkinMultiObservation.dispersion_map"], samples=8)
def _(W):
    multi = W.choice("multi", [False, True])
    km, kl, ka = {"m": W.real("m")}, {"l": W.real("l")}, {"a": W.real("a")}
    pat = W.choice("pattern", [[0, 1, None, 1], [1, 0, 0, 0], [None, 0, 1, 1]])
    n = [0]

    def select(x, y):
        k = pat[n[0] % 4]
        n[0] += 1
        return (False, None) if k is None else (True, k)

    f = W.uf("S2", 5)
    R = [W.real("R%d" % (i + 1), 0, None, (0.1, 2)) for i in range(2)]
    s2 = [f(2 * q, q, km["m"], kl["l"], ka["a"]) for q in R]
    if W.sym:
        W.assume(s2[0] > 0)
        W.assume(s2[1] > 0)
    elif min(s2) <= 0:
        return
    if not multi:
        g = observed(W, ("galkin", "Galkin"), None)
        g._psf = types.SimpleNamespace(displace_psf=lambda x, y: (x, y))
        g._aperture = types.SimpleNamespace(aperture_select=select, num_segments=2)
        got = g.dispersion_map(km, kl, ka, num_kin_sampling=2, num_psf_sampling=2)
        hits = [(pat[i], s2[i // 2]) for i in range(4)]
    else:
        g = observed(W, ("galkin_multiobservation", "GalkinMultiObservation"), None)
        sel2 = lambda x, y: select(x, y) if False else (lambda r: (r[0], 0))(select(x, y))
        g._num_observations = 2
        g._observation_list = [types.SimpleNamespace(displace_psf=lambda x, y: (x, y), aperture_select=sel2) for _ in range(2)]
        got = g.dispersion_map(km, kl, ka, num_kin_sampling=2, num_psf_sampling=1)
        # calls in the order draw 0: observation 0, 1; draw 1: observation 0, 1
        hits = [(i % 2, s2[i // 2]) for i in range(4) if pat[i] is not None]
    for k in range(2):
        v = [s for q, s in hits if q == k]
        if v:
            W.eq("mean of the draws in the aperture", (got[k] * 1000) ** 2, sum(v) / len(v))
    W.same("cache forgotten", g.numerics.deleted, 1)


@contract("C20", "dispersion maps of IFU grids", [GK + q for q in ("dispersion_map_grid_convolved", "_get_grid", "_get_convolution_kernel", "_delta_pix_xy", "_extract_center")], sym=False, bounded="sampled grids of a few pixels and power-law profiles", samples=10)
def _(W):
    from lenstronomy.GalKin.galkin import Galkin

    kind = W.choice("kind", ["IFU_grid", "IFU_binned"])
    s = W.choice("supersampling", [1, 2, 3])
    sx = W.choice("direction", [1, -1])
    h, ny, nx = 0.4, 3, 5
    cx, cy, phi = W.real("cx", None, None, (-0.3, 0.3)), W.real("cy", None, None, (-0.3, 0.3)), W.choice("angle", [0.0, 0.7])
    j, i = np.meshgrid(np.arange(nx), np.arange(ny))
    X, Y = place(W, sx * h * (j - 2.2), h * (i - 1.1), cx, cy, phi)
    bins = np.array([[0, 0, 1, 1, -1], [2, 0, 1, 1, -1], [2, 2, 2, 1, 1]])
    ap = {"aperture_type": kind, "x_grid": X, "y_grid": Y, "angle": phi}
    if kind == "IFU_binned":
        ap["bins"] = bins
    fw = 0.5
    g = Galkin({"mass_profile_list": ["SIS"], "light_profile_list": ["HERNQUIST"], "anisotropy_model": "OM"}, ap, {"psf_type": "GAUSSIAN", "fwhm": fw},
               {"d_d": 1000.0, "d_s": 1500.0, "d_ds": 800.0})
    st = Stub(W)
    mem = {}

    def both(R, km, kl, ka):
        # interpolates its first call until the cache is deleted, as the numerical kinematics does
        p = mem.setdefault("p", (kl["p"], kl["q"]))
        return R ** p[0], R ** p[1]

    st.I_R_sigma2_and_IR = both
    st.delete_cache = mem.clear
    g.numerics = st
    x0, y0 = W.real("x0", None, None, (-0.2, 0.2)), W.real("y0", None, None, (-0.2, 0.2))
    km = {"center_x": x0, "center_y": y0}
    n = int(round(2 * 3 * fw / (h / s) + 0.5))
    n += 1 - n % 2
    q = (np.arange(n) - (n - 1) / 2) * h / s
    ker = np.exp(-(q[None] ** 2 + q[:, None] ** 2) * 4 * np.log(2) / fw ** 2)
    ker /= ker.sum()
    jj, ii = np.meshgrid((np.arange(nx * s) + 0.5) / s - 0.5, (np.arange(ny * s) + 0.5) / s - 0.5)
    SX, SY = place(W, sx * h * (jj - 2.2), h * (ii - 1.1), cx, cy, phi)
    R = np.hypot(SX - x0, SY - y0)

    def conv(im):
        out = np.zeros_like(im)
        m = n // 2
        for a in range(im.shape[0]):
            for b in range(im.shape[1]):
                for c in range(im.shape[0]):
                    for d in range(im.shape[1]):
                        if abs(a - c) <= m and abs(b - d) <= m:
                            out[a, b] += im[c, d] * ker[m + a - c, m + b - d]
        return out

    for kl in ({"p": -0.7, "q": -1.1}, {"p": -1.3, "q": -0.6}):
        S, I = conv(R ** kl["p"]), conv(R ** kl["q"])
        if kind == "IFU_grid":
            blk = lambda m: m.reshape(ny, s, nx, s).sum(axis=(1, 3))
            want = np.sqrt(blk(S) / blk(I)) / 1000
        else:
            B = bins.repeat(s, axis=0).repeat(s, axis=1)
            want = np.array([np.sqrt(S[B == k].sum() / I[B == k].sum()) / 1000 for k in range(3)])
        got = g.dispersion_map_grid_convolved(km, kl, {}, supersampling_factor=s)
        W.shape("shape of the map", got, want.shape)
        W.eq("light-weighted dispersion of the convolved maps", got, want, rtol=1e-6)
        if kind == "IFU_grid":
            v = g.dispersion_map_grid_convolved(km, kl, {}, supersampling_factor=s, voronoi_bins=bins)
            B = bins.repeat(s, axis=0).repeat(s, axis=1)
            W.eq("Voronoi bins", v, [np.sqrt(S[B == k].sum() / I[B == k].sum()) / 1000 for k in range(3)], rtol=1e-6)


@contract("C20", "dispersion of IFU shells", ["GalKin/galkin_shells.py::GalkinShells.dispersion_map", "GalKin/galkin_shells.py::GalkinShells.__init__"], sym=False, bounded="sampled shells and power-law profiles", samples=4)
def _(W):
    from lenstronomy.GalKin.galkin_shells import GalkinShells

    cx, cy = W.real("cx", None, None, (-0.4, 0.4)), W.real("cy", None, None, (-0.4, 0.4))
    rb = np.array([0.2, 0.6, 1.0])
    fw = W.real("fwhm", 0, None, (0.3, 0.6))
    g = GalkinShells({"mass_profile_list": ["SIS"], "light_profile_list": ["HERNQUIST"], "anisotropy_model": "OM"},
                     {"aperture_type": "IFU_shells", "r_bins": rb, "center_ra": cx, "center_dec": cy}, {"psf_type": "GAUSSIAN", "fwhm": fw},
                     {"d_d": 1000.0, "d_s": 1500.0, "d_ds": 800.0})
    sS, sI = 0.5, 0.9
    st = types.SimpleNamespace(_I_R_sigma2_interp=lambda R, a, b, c: (np.exp(-R ** 2 / (2 * sS ** 2)), np.exp(-R ** 2 / (2 * sI ** 2))), delete_cache=lambda: None)
    g.numerics = st
    got = g.dispersion_map({}, {}, {})
    sg = fw / (2 * np.sqrt(2 * np.log(2)))
    # Gaussians convolved analytically, averaged over fine shells
    x = np.linspace(-1, 1, 401)
    x, y = np.meshgrid(x, x)
    r = np.hypot(x, y)
    R2 = (x + cx) ** 2 + (y + cy) ** 2
    S = sS ** 2 / (sS ** 2 + sg ** 2) * np.exp(-R2 / (2 * (sS ** 2 + sg ** 2)))
    I = sI ** 2 / (sI ** 2 + sg ** 2) * np.exp(-R2 / (2 * (sI ** 2 + sg ** 2)))
    want = [np.sqrt(S[(r >= a) & (r < b)].sum() / I[(r >= a) & (r < b)].sum()) / 1000 for a, b in zip(rb, rb[1:])]
    W.eq("light-weighted dispersion in the shells", got, want, rtol=4e-3)


@contract("C20", "model and observation settings", ["GalKin/observation.py::GalkinObservation.__init__", "GalKin/observation.py::GalkinObservation.convolve", "GalKin/galkin_model.py::GalkinModel.__init__", "GalKin/galkin_model.py::GalkinModel.check_df"], samples=6)
def _(W):
    from lenstronomy.GalKin.observation import GalkinObservation
    from lenstronomy.GalKin.galkin_model import GalkinModel
    import lenstronomy.GalKin.observation as O

    f = W.choice("fwhm", [0.15, 0.6])
    ap = {"aperture_type": "slit", "length": 2.0, "width": 1.0}
    o = GalkinObservation(ap, {"psf_type": "GAUSSIAN", "fwhm": f}, "galkin")
    W.eq("pixels resolve the PSF", o.delta_pix, min(f / 3, 0.1))
    W.eq("padding of the convolution", o._aperture.padding_arcsec, 3 * f / (2 * np.sqrt(2 * np.log(2))), rtol=1e-6)
    W.same("settings of the caller", sorted(ap), ["aperture_type", "length", "width"])
    o = GalkinObservation(dict(ap, delta_pix=0.25), {"psf_type": "GAUSSIAN", "fwhm": f}, "jampy")
    W.eq("no padding", o._aperture.padding_arcsec, 0)
    rec = []
    with swap(W, (O, "convolve2d", lambda d, k, mode: rec.append((d, k, mode)) or d), both=True):
        o.convolve("map", supersampling_factor=2)
    k = rec[0][1]
    n = int(np.ceil(6 * f / 0.125)) // 2 * 2 + 1
    W.same("kernel covers three widths", (np.shape(k), rec[0][0], rec[0][2]), ((n, n), "map", "same"))
    c = n // 2
    W.eq("kernel at the pixel scale", k[c][c + 1] / k[c][c], np.exp(-0.125 ** 2 * 4 * np.log(2) / f ** 2))
    W.raises("analytic kinematics only for Osipkov-Merritt", lambda: GalkinModel({"anisotropy_model": "const"}, {"d_d": 1, "d_s": 1, "d_ds": 1}, analytic_kinematics=True), ValueError)
    g = GalkinModel.__new__(GalkinModel)
    S, P = W.uf("S", 1), W.uf("P", 1)
    dele = []
    g.numerics = types.SimpleNamespace(sigma_r2=lambda r, a, b, d: S(r), grav_potential=lambda r, a: P(r), delete_cache=lambda: dele.append(1))
    r = W.real("r", 0, None, (0.5, 2))
    dr = W.const(0.01)
    W.eq("energy balance", g.check_df(r, None, None, None), r * (S(r + dr) - S(r) - P(r) + P(r + dr)) / dr)


# ---------------------------------------------------------------------------------- JAM and API

@contract("C20", "observed dispersion of JAM models", [JW + q for q in ("dispersion_points", "call_jampy", "_shift_and_rotate", "_rotate_grid")] + ["JAMPy/jam_wrapper.py::JAMWrapper.dispersion"], samples=8)
def _(W):
    from lenstronomy.JAMPy.jam_wrapper import JAMWrapper
    import lenstronomy.JAMPy.jam_wrapper_base as B

    sym = W.choice("symmetry", ["spherical", "axi_sph", "axi_cyl"])
    cosmo = {"d_d": 1000.0, "d_s": 1500.0, "d_ds": 800.0}
    h = 0.5
    X, Y = np.meshgrid(np.arange(3) * h, np.arange(2) * h)
    bins = np.array([[0, 0, 1], [-1, 1, 1]])
    kind = W.choice("kind", ["IFU_grid", "IFU_binned"])
    ap = {"aperture_type": kind, "x_grid": X, "y_grid": Y}
    if kind == "IFU_binned":
        ap["bins"] = bins
    light, mass = ("MULTI_GAUSSIAN_ELLIPSE", "MULTI_GAUSSIAN_ELLIPSE_KAPPA") if sym != "spherical" else ("MULTI_GAUSSIAN", "MULTI_GAUSSIAN")
    j = JAMWrapper({"mass_profile_list": [mass], "light_profile_list": [light], "anisotropy_model": "const", "symmetry": sym}, ap, {"psf_type": "GAUSSIAN", "fwhm": 0.6}, cosmo)
    al, sl = W.array("al", 2, 0, None, (0.5, 2)), W.array("sl", 2, 0, None, (0.5, 2))
    am, sm = W.array("am", 2, 0, None, (0.5, 2)), W.array("sm", 2, 0, None, (0.5, 2))
    cx, cy = W.real("cx", None, None, (-1, 1)), W.real("cy", None, None, (-1, 1))
    kl = [{"amp": al, "sigma": sl, "center_x": cx, "center_y": cy}]
    km = [{"amp": am, "sigma": sm}]
    e1 = 0.0
    if sym != "spherical":
        e1 = W.real("e1", 0, 0.3, (0.1, 0.3))
        kl[0]["e1"], kl[0]["e2"] = 0, e1
        km[0]["e1"], km[0]["e2"] = 0, e1 / 2
    V, S = W.uf("V", 2), W.uf("S", 2)
    rec = []

    def axi(self, *a, **k):
        x, y = a[4], a[5]
        rec.append((a[:4], a[6], a[7], a[8], a[9:]))
        return W._arr1([V(p, q) for p, q in zip(x, y)]), W._arr1([S(p, q) for p, q in zip(x, y)])

    def sph(self, *a, **k):
        rec.append((a[:4], None, None, None, a[5:]))
        return W._arr1([V(r, 0) for r in a[4]]), W._arr1([S(r, 0) for r in a[4]])

    with swap(W, (B.JAMWrapperBase, "call_jampy_axi", axi), (B.JAMWrapperBase, "call_jampy_sph", sph), both=True):
        got = j.dispersion(km, kl, {"beta": 0.1}, inclination=80.0, black_hole_mass=7.0)
    (L, s1, M, s2), ql, qm, inc, rest = rec[0]
    q = (1 - e1) / (1 + e1)
    q2 = (1 - e1 / 2) / (1 + e1 / 2)
    ax = sym != "spherical"
    eps = j.cosmo.epsilon_crit * 1e-12
    for i in range(2):
        W.eq("peak surface brightness", L[i] * 2 * W.pi * sl[i] ** 2, al[i])
        W.eq("peak surface density", M[i] * 2 * W.pi * sm[i] ** 2, am[i] * eps)
        W.eq("widths along the major axis", [s1[i] ** 2 * (q if ax else 1), s2[i] ** 2 * (q2 if ax else 1)], [sl[i] ** 2, sm[i] ** 2])
        if ax:
            W.eq("axis ratios", [ql[i], qm[i]], [q, q2])
    if ax:
        W.eq("inclination", inc, 80.0)
    W.eq("black hole", rest[4], 7.0)
    W.eq("PSF", [rest[1], rest[2]], [0.6 / (2 * np.sqrt(2 * np.log(2))), 1.0])
    # major axis at 45 degrees for e1 = 0, e2 > 0
    v2, sb = [], []
    for i in range(2):
        for k in range(3):
            x, y = k * h - cx, i * h - cy
            if ax:
                x, y = (x + y) / W.sqrt(2), (y - x) / W.sqrt(2)
            else:
                x, y = W.sqrt(x ** 2 + y ** 2), 0
            v2.append(V(x, y) ** 2 * S(x, y))
            sb.append(S(x, y))
    if kind == "IFU_grid":
        W.eq("dispersion of a pixel", [got[i][k] ** 2 * sb[3 * i + k] for i in range(2) for k in range(3)], v2)
    else:
        for b in range(2):
            ix = [n for n in range(6) if bins.flatten()[n] == b]
            W.eq("light-weighted dispersion of a bin", got[b] ** 2 * sum(sb[n] for n in ix), sum(v2[n] for n in ix))


def api(W, cls="KinematicsAPI", **k):
    import lenstronomy.Analysis.kinematics_api as M
    import lenstronomy.Analysis.td_cosmography as T

    kw = dict(kwargs_aperture={"aperture_type": "slit", "length": 1, "width": 1}, kwargs_seeing={"psf_type": "GAUSSIAN", "fwhm": 0.7}, anisotropy_model="OM", kinematics_backend="galkin")
    kw.update(k)
    model = kw.pop("kwargs_model", {"lens_model_list": ["SHEAR", "EPL", "HERNQUIST"], "lens_light_model_list": ["SERSIC", "HERNQUIST_ELLIPSE"]})
    c = T.TDCosmography if cls == "TDCosmography" else M.KinematicsAPI
    return c(z_lens=0.5, z_source=1.5, kwargs_model=model, **kw)


@contract("C20", "kinematic mass and light are the selected lens and light models", [KA + q for q in ("kinematic_lens_profiles", "kinematic_light_profile", "_setup_light_parameters", "_copy_centers")], samples=8)
def _(W):
    import lenstronomy.Analysis.kinematics_api as M

    sel = W.choice("lens", [None, [False, True, True], [False, False, True]])
    lsel = W.choice("light", [None, [False, True], [True, False]])
    mge = W.choice("MGE", [False, True])
    a = api(W, lens_model_kinematics_bool=sel, light_model_kinematics_bool=lsel)
    v = [W.real("v%d" % i, 0, None, (0.3, 1)) for i in range(12)]
    kl = [{"gamma1": v[0], "gamma2": v[1]}, {"theta_E": v[2], "gamma": 2, "e1": v[3], "e2": v[4], "center_x": v[5], "center_y": v[6]},
          {"sigma0": v[7], "Rs": v[8], "center_x": v[9], "center_y": v[10]}]
    kll = [{"amp": v[0], "R_sersic": v[1], "n_sersic": 2, "center_x": v[2], "center_y": v[3]}, {"amp": v[4], "Rs": v[5], "e1": v[6], "e2": v[7], "center_x": v[8], "center_y": v[9]}]
    use = [i for i in range(3) if sel is None or sel[i]]
    lu = [i for i in range(2) if lsel is None or lsel[i]]
    rec = {}

    class Fit:
        def __init__(self, names, kw):
            self.names, self.kw = names, kw

        def mge_fit(self, kwargs, r):
            rec[type(self).__name__] = (self.names, self.kw, kwargs, r)
            return "amps" + type(self).__name__, "sigmas"

    class Mass(Fit):
        pass

    class Light(Fit):
        pass

    before = [dict(q) for q in kl + kll]
    with swap(W, (M, "MGEMass", Mass), (M, "MGELight", Light), both=True):
        names, kp = a.kinematic_lens_profiles(kl, MGE_fit=mge, model_kinematics_bool=sel, theta_E=v[11], kwargs_mge={"n": 1})
        lnames, klp = a.kinematic_light_profile(kll, r_eff=v[10], MGE_fit=mge, model_kinematics_bool=lsel, kwargs_mge={"n": 2})
    first = kl[use[0]]
    L = ["SHEAR", "EPL", "HERNQUIST"]
    LL = ["SERSIC", "HERNQUIST_ELLIPSE"]
    if mge:
        W.same("expanded mass", (names, rec["Mass"][0], rec["Mass"][1], [q is kl[i] for q, i in zip(rec["Mass"][2], use)]), (["MULTI_GAUSSIAN"], [L[i] for i in use], {"n": 1}, [True] * len(use)))
        W.same("expanded light", (lnames, rec["Light"][0], rec["Light"][1], [q is kll[i] for q, i in zip(rec["Light"][2], lu)]), (["MULTI_GAUSSIAN"], [LL[i] for i in lu], {"n": 2}, [True] * len(lu)))
        W.eq("scales of the expansions", [rec["Mass"][3], rec["Light"][3]], [v[11], v[10]])
        W.same("expansion", (kp[0]["amp"], kp[0]["sigma"], klp[0]["amp"]), ("ampsMass", "sigmas", "ampsLight"))
        W.eq("centre of the light", [klp[0]["center_x"], klp[0]["center_y"]], [kll[lu[0]]["center_x"], kll[lu[0]]["center_y"]])
    else:
        W.same("profiles", (names, lnames), ([L[i] for i in use], [LL[i] for i in lu]))
        for got, ix, src in ((kp, use, kl), (klp, lu, kll)):
            for q, i in zip(got, ix):
                W.same("parameters", sorted(k for k in q if "center" not in k), sorted(k for k in src[i] if "center" not in k))
                for k in q:
                    if "center" not in k:
                        W.eq("parameters of the circular profile", q[k], 0 if k in ("e1", "e2") else src[i][k])
    if "center_x" in first:
        W.eq("centre of the mass", [kp[0]["center_x"], kp[0]["center_y"]], [first["center_x"], first["center_y"]])
    for q, b in zip(kl + kll, before):
        W.same("parameters of the caller", sorted(q), sorted(b))
        for k in b:
            W.eq("parameters of the caller", q[k], b[k])
    h = a.kinematic_light_profile(kll, r_eff=v[10], Hernquist_approx=True)
    W.same("Hernquist approximation", h[0], ["HERNQUIST"])
    W.eq("Hernquist scale", h[1][0]["Rs"], v[10] * W.const(0.551))
    n, q = a.kinematic_lens_profiles(kl, analytic_kinematics=True, theta_E=v[0], gamma=v[1])
    W.eq("analytic mass", [q["theta_E"], q["gamma"]], [v[0], v[1]])


@contract("C20", "settings reach the kinematic models", [KA + "jam_model_settings", KA + "velocity_dispersion", KA + "velocity_dispersion_map", KA + "transform_kappa_ext", KA + "velocity_dispersion_analytical"], samples=6)
def _(W):
    import lenstronomy.Analysis.kinematics_api as M

    made = []
    sig = W.uf("sig", 2)
    v = W.real("v", 0, None, (0.3, 1))
    kext = W.real("kappa_ext", None, 1, (-0.2, 0.5))

    class Jam:
        def __init__(self, **k):
            self.k = k
            self.n = len(made)
            made.append(self)

        def dispersion(self, a, b, c, **k):
            self.args = (a, b, c, k)
            return sig(self.n, v)

        dispersion_map = dispersion_map_grid_convolved = dispersion

    class Shells(Jam):
        pass

    kinds = W.choice("apertures", [["slit", "IFU_grid"], ["IFU_shells", "slit"]])
    X, Y = np.meshgrid(np.arange(2.0), np.arange(2.0))
    aps = [{"aperture_type": q, "tag": i} for i, q in enumerate(kinds)]
    psfs = [{"psf_type": "GAUSSIAN", "fwhm": 0.1 * (i + 1)} for i in range(2)]
    a = api(W, multi_observations=True, kwargs_aperture=aps, kwargs_seeing=psfs, kwargs_numerics_galkin={"n": 1}, sampling_number=7, num_kin_sampling=8, num_psf_sampling=9)
    got_args = {}

    def lens(kw, **k):
        got_args["lens"] = k
        return ["M"], ["kw_mass"]

    def light(kw, **k):
        got_args["light"] = k
        return ["L"], ["kw_light"]

    a.kinematic_lens_profiles, a.kinematic_light_profile = lens, light
    a._kwargs_mge_mass, a._kwargs_mge_light = {"n": 3}, {"n": 4}
    with swap(W, (M, "Galkin", Jam), (M, "GalkinShells", Shells), both=True):
        s1 = a.velocity_dispersion([], [], "ani", r_eff=v, theta_E=2 * v, kappa_ext=kext)
        n1 = len(made)
        s2 = a.velocity_dispersion_map([], [], "ani", r_eff=v, theta_E=2 * v, kappa_ext=kext, supersampling_factor=3)
        s3 = a.velocity_dispersion_analytical(1, 2, 3, 4, kappa_ext=kext)
    for i in range(2):
        m = made[i]
        W.same("model of an observation", (type(m).__name__, m.k["kwargs_aperture"]["tag"], m.k["kwargs_psf"]["fwhm"], m.k["kwargs_model"], m.k["kwargs_numerics"]),
               ("Shells" if kinds[i] == "IFU_shells" else "Jam", i, 0.1 * (i + 1), {"mass_profile_list": ["M"], "light_profile_list": ["L"], "anisotropy_model": "OM"}, {"n": 1}))
        W.eq("distances", [m.k["kwargs_cosmo"][q] for q in ("d_d", "d_s", "d_ds")], [a.lensCosmo.dd, a.lensCosmo.ds, a.lensCosmo.dds])
        W.same("mass, light and anisotropy", (m.args[0], m.args[1], m.args[2], m.args[3]), (["kw_mass"], ["kw_light"], "ani", {"sampling_number": 7}))
        mm = made[n1 + i]
        W.same("sampling of maps", mm.args[3], {"supersampling_factor": 3, "voronoi_bins": None} if kinds[i] == "IFU_grid" else {"num_kin_sampling": 8, "num_psf_sampling": 9})
        for s, o in ((s1, 0), (s2, n1), (s3, 2 * n1)):
            W.eq("external convergence scales the dispersion", s[i] ** 2, sig(o + i, v) ** 2 * (1 - kext))
        W.same("analytic model", made[2 * n1 + i].args[:3], ({"theta_E": 1, "gamma": 2}, {"r_eff": 3}, {"r_ani": 4}))
    W.same("expansion settings", (got_args["lens"]["kwargs_mge"], got_args["light"]["kwargs_mge"]), ({"n": 3}, {"n": 4}))
    W.eq("scales", [got_args["lens"]["theta_E"], got_args["light"]["r_eff"]], [2 * v, v])


@contract("C20", "distances from delays and dispersions", [TD + q for q in ("ddt_from_time_delay", "ds_dds_from_kinematics", "ddt_dd_from_time_delay_and_kinematics", "velocity_dispersion_dimension_less", "velocity_dispersion_map_dimension_less", "time_delays", "fermat_potential")], samples=8)
def _(W):
    t = api(W, "TDCosmography", kwargs_model={"lens_model_list": ["SIS"], "lens_light_model_list": ["SERSIC"], "point_source_model_list": ["LENSED_POSITION"]})
    lc = t._lens_cosmo
    s = W.real("sigma", 0, None, (100, 300))
    t.velocity_dispersion = lambda **k: W._arr1([s])
    t.velocity_dispersion_map = lambda **k: W._arr1([s, 2 * s])
    J = t.velocity_dispersion_dimension_less([], [], {})[0]
    Jm = t.velocity_dispersion_map_dimension_less([], [], {})
    W.eq("map of dimensionless dispersions", list(Jm), [J, 4 * J])
    W.eq("distance ratio from the dispersion", t.ds_dds_from_kinematics(s, J), lc.ds / lc.dds)
    ks, kds, kd = [W.real(n, -0.5, 0.5) for n in ("ks", "kds", "kd")]
    W.eq("distance ratio with external convergence", t.ds_dds_from_kinematics(s, J, ks, kds) * (1 - ks), lc.ds / lc.dds * (1 - kds))
    x, y = W.array("x", 3, None, None, (0.5, 1.5)), W.array("y", 3, None, None, (0.5, 1.5))
    bx, by, F = W.uf("bx", 2), W.uf("by", 2), W.uf("F", 4)

    class L:
        def ray_shooting(self, a, b, kw):
            return W._arr1([bx(p, q) for p, q in zip(a, b)]), W._arr1([by(p, q) for p, q in zip(a, b)])

        def fermat_potential(self, a, b, kw, sx, sy):
            return W._arr1([F(p, q, sx, sy) for p, q in zip(a, b)])

    t.LensModel = L()
    t.PointSource = types.SimpleNamespace(image_position=lambda kp, kl, original_position=False: ([x], [y]))
    sx, sy = sum(bx(x[i], y[i]) for i in range(3)) / 3, sum(by(x[i], y[i]) for i in range(3)) / 3
    want = [F(x[i], y[i], sx, sy) for i in range(3)]
    f = t.fermat_potential([], [])
    W.eq("Fermat potential about the mean source", list(f), want)
    dt = t.time_delays([], [], kappa_ext=ks)
    W.eq("delays", list(dt), [lc.time_delay_units(q, ks) for q in want], rtol=1e-6)
    d = t.time_delays([], [])
    if not W.sym and abs(want[1] - want[0]) < 1e-3:
        return
    W.eq("time-delay distance from a delay", t.ddt_from_time_delay(want[1] - want[0], d[1] - d[0]), lc.ddt, rtol=1e-5)
    W.eq("time-delay distance with external convergence", t.ddt_from_time_delay(want[1] - want[0], d[1] - d[0], ks, kds, kd) * (1 - ks) * (1 - kd), lc.ddt * (1 - kds), rtol=1e-5)
    ddt, dd = t.ddt_dd_from_time_delay_and_kinematics(want[1] - want[0], d[1] - d[0], s, J)
    W.eq("angular diameter distance to the lens", dd, lc.dd, rtol=1e-5)

"""C21: the auxiliary likelihoods are the Gaussian statistics they document, and the total is the sum of the enabled terms.

The lens model is an arbitrary one (contracts/c19.py: uninterpreted functions of position, parameters, source
redshift and, here, of the cosmology in use); data, covariances and models are arbitrary."""
import copy
import types
import numpy as np
from lv.world import contract
from contracts.common import canon, instance, swap
from contracts.c19 import Lens as BaseLens

LK = "Sampling/Likelihoods/"
TD = LK + "time_delay_likelihood.py::TimeDelayLikelihood."
FR = LK + "flux_ratio_likelihood.py::FluxRatioLikelihood."
PL = LK + "position_likelihood.py::PositionLikelihood."
KL = LK + "kinematic_2D_likelihood.py::KinLikelihood."
LI = "Sampling/likelihood.py::Likelihood."


class Lens(BaseLens):
    cosmology_sampling = False
    cosmology_model = "FlatLambdaCDM"
    cosmo = "start"

    def f(self, name, x, y, kw, k=None, z="now"):
        z = self.z_source if z == "now" else z
        return BaseLens.f(self, name + ("" if self.cosmo == "start" else "_c" + str(self.cosmo)), x, y, kw, k, z)

    def update_cosmology(self, cosmo):
        self.cosmo = cosmo

    @property
    def ddt_scaling(self):
        return self.W.uf("ddts_z%s" % self.z_source, 1)(0) if self.W.sym else 1.0 + 0.1 * (self.z_source or 0)


def scaling(lens, z):
    z0, lens.z_source = lens.z_source, z if z is not None else lens.z_source
    s = lens.ddt_scaling
    lens.z_source = z0
    return s


class Points:
    """a collection of point sources at arbitrary positions"""

    def __init__(self, W, lens, ns, z, types_=None, k=None):
        self.W, self._lens_model, self._redshift_list = W, lens, z
        self.point_source_type_list = types_ or ["LENSED_POSITION"] * len(ns)
        self.pos = [tuple(W.array("%s%d_" % (c, i), n, None, None, (-2, 2)) for c in "xy") for i, n in enumerate(ns)]
        self.calls, self._k, self.cache = [], k, []
        self.src = [[W.real("src%s%d" % (c, i)) for i in range(len(ns))] for c in "xy"]

    def image_position(self, kwargs_ps, kwargs_lens, original_position=False, additional_images=False, **kw):
        self.calls.append((original_position, additional_images, self._lens_model.cosmo, dict(kw)))
        return [p[0] for p in self.pos], [p[1] for p in self.pos]

    def source_position(self, kwargs_ps, kwargs_lens):
        return self.src[0], self.src[1]

    def k_list(self, k):
        return None if self._k is None else self._k[k]

    def delete_lens_model_cache(self):
        self.cache.append("delete")

    def set_save_cache(self, b):
        self.cache.append(b)


def lens2(W, z=2.0):
    return Lens(W, z=z), [{"p": W.real("p0")}, {"p": W.real("p1")}]


def cov(W, name, n, typ="cov"):
    """standard deviations, or a symmetric positive definite covariance L L^T"""
    if typ == "sigma":
        return W.array(name, n, 0, None, (0.5, 2)), None
    L = [[W.real("%s%d%d" % (name, i, j), 0 if i == j else None, None, (0.5, 2) if i == j else (-1, 1)) if j <= i else 0 for j in range(n)] for i in range(n)]
    C = [[sum(L[i][m] * L[j][m] for m in range(n)) for j in range(n)] for i in range(n)]
    return W.mat(C), C


def chi2(W, d, s, C, idx=None):
    """d^T C^-1 d of the selected entries by Cramer's rule, or the sum of squares over the deviations"""
    idx = list(range(len(d))) if idx is None else idx
    if C is None:
        return sum(d[i] ** 2 / s[i] ** 2 for i in idx)
    if len(idx) == 1:
        return d[idx[0]] ** 2 / C[idx[0]][idx[0]]
    if len(idx) == 2:
        a, b = idx
        det = C[a][a] * C[b][b] - C[a][b] ** 2
        return (d[a] ** 2 * C[b][b] - 2 * d[a] * d[b] * C[a][b] + d[b] ** 2 * C[a][a]) / det
    M = [[C[i][j] for j in idx] for i in idx]
    v = [d[i] for i in idx]
    cof = [[M[(i + 1) % 3][(j + 1) % 3] * M[(i + 2) % 3][(j + 2) % 3] - M[(i + 1) % 3][(j + 2) % 3] * M[(i + 2) % 3][(j + 1) % 3] for j in range(3)] for i in range(3)]
    det = sum(M[0][j] * cof[0][j] for j in range(3))
    return sum(v[i] * v[j] * cof[i][j] for i in range(3) for j in range(3)) / det


@contract("C21", "time delays", [TD + "__init__", TD + "logL", TD + "_log_delay_masked", TD + "_logL_delays", TD + "num_data"], samples=12, bounded="at most two point sources with three images", timeout=120)
def _td(W):
    from lenstronomy.Sampling.Likelihoods.time_delay_likelihood import TimeDelayLikelihood
    import lenstronomy.Util.constants as const

    lens, kw = lens2(W)
    n = W.choice("sources", [1, 2])
    ns = [3, 2][:n]
    zs = W.choice("redshifts", [[None, None], [1.5, None], [None, 0.7], [1.5, 0.7]])[:n]
    ps = Points(W, lens, ns, zs)
    typ = W.choice("errors", ["sigma", "cov"])
    lens.cosmology_sampling = W.choice("cosmology", [False, True])
    mask = W.choice("mask", [None, [[True, False], [True]], [[False, True], [False]], [[True, True], [True]], [[False, False], [True]], [True, False], [False, True], [[True, True], True]])
    mask = mask if mask is None else mask[:n]
    full = [[True] * (q - 1) for q in ns] if mask is None else [m if isinstance(m, list) else [m] * (q - 1) for m, q in zip(mask, ns)]
    t, e = [], []
    for i, q in enumerate(ns):
        t.append(W.array("t%d" % i, q - 1))
        e.append(cov(W, "e%d" % i, q - 1, typ))
    if n == 1:
        args = (t[0], e[0][0])
    else:
        args = (t, [q[0] for q in e])
    before = copy.copy(mask)
    L = TimeDelayLikelihood(args[0], args[1], lens, ps, time_delay_measurement_bool_list=mask)
    W.same("the selection passed in is left alone", mask, before)
    W.same("number of delays", L.num_data, sum(sum(m) for m in full))
    D = W.real("D_dt", 0, None, (1000, 5000))
    mst = W.choice("mass sheet", [None, 1.25])
    more = {} if mst is None else {"lambda_mst": mst}
    with swap(W, (__import__("lenstronomy.Sampling.Likelihoods.time_delay_likelihood", fromlist=["x"]), "get_astropy_cosmology", lambda cosmology_model, param_kwargs: "new%s" % param_kwargs["H0"]), both=True):
        v = L.logL(kw, [{}] * n, {"D_dt": D, "H0": 50}, **more)
    ref = 0
    for i in range(n):
        idx = [j for j, m in enumerate(full[i]) if m]
        if not idx:
            continue
        x, y = ps.pos[i]
        z = zs[i] if zs[i] is not None else 2.0
        if lens.cosmology_sampling:
            dt = lens.f("arrival", x, y, kw, z=z)
        else:
            dt = const.delay_arcsec2days(lens.f("fermat", x, y, kw, z=z), scaling(lens, z) * D)
        dt = dt * (mst or 1)
        d = [dt[j + 1] - dt[0] - t[i][j] for j in range(ns[i] - 1)]
        ref = ref - chi2(W, d, e[i][0], e[i][1], idx) / 2
    W.eq("Gaussian in the delays relative to the first image", v, ref)
    W.same("images are solved with the cosmology being evaluated", ps.calls[0][:3], (True, False, "new50" if lens.cosmology_sampling else "start"))
    W.same("source redshift of the lens model restored", lens.z_source, 2.0)


@contract("C21", "bimodal time delays", [TD + "__init__", TD + "logL", TD + "_log_delay_masked", TD + "num_data"], samples=12, bounded="three images")
def _bi(W):
    from lenstronomy.Sampling.Likelihoods.time_delay_likelihood import TimeDelayLikelihood
    import lenstronomy.Util.constants as const

    lens, kw = lens2(W)
    ps = Points(W, lens, [3], [None])
    typ = W.choice("errors", ["sigma", "cov"])
    far = W.choice("offset", [0, 1000])
    t = [W.array("t%d" % i, 2) + far for i in range(2)]
    e = [cov(W, "e%d" % i, 2, typ) for i in range(2)]
    mask = W.choice("mask", [None, [[True, False]]])
    L = TimeDelayLikelihood(t, [q[0] for q in e], lens, ps, bimodal_measurement=True, time_delay_measurement_bool_list=mask)
    D = W.real("D_dt", 0, None, (1, 2))
    v = L.logL(kw, [{}], {"D_dt": D})
    dt = const.delay_arcsec2days(lens.f("fermat", *ps.pos[0], kw), scaling(lens, None) * D)
    idx = [0, 1] if mask is None else [0]
    l = [-chi2(W, [dt[j + 1] - dt[0] - t[m][j] for j in range(2)], e[m][0], e[m][1], idx) / 2 for m in range(2)]
    W.same("number of delays", L.num_data, len(idx))
    if W.sym:
        W.eq("sum of the two modes", np.exp(v), np.exp(l[0]) + np.exp(l[1]))
    else:
        W.eq("sum of the two modes", v, max(l) + np.log(1 + np.exp(min(l) - max(l))))


@contract("C21", "images that do not match the delays", [TD + "logL", TD + "_log_delay_masked", TD + "_logL_delays", FR + "logL", FR + "_logL", TD + "__init__"], samples=3, bounded="three images and one delay or ratio")
def _miss(W):
    from lenstronomy.Sampling.Likelihoods.time_delay_likelihood import TimeDelayLikelihood
    from lenstronomy.Sampling.Likelihoods.flux_ratio_likelihood import FluxRatioLikelihood

    lens, kw = lens2(W)
    n = W.choice("images", [3, 4, 1])
    ps = Points(W, lens, [n], [0.5])
    e = W.choice("errors", [np.array([1.0]), np.array([[1.0]])])
    L = TimeDelayLikelihood(W.array("t", 1), e, lens, ps)
    W.eq("time-delay penalty", L.logL(kw, [{}], {"D_dt": W.real("D", 0, None, (1, 2))}), -(10**15))
    W.eq("penalty of the statistic", L._logL_delays(W.array("dm", n), W.array("t", 1), e), -(10**15))
    F = FluxRatioLikelihood(lens, W.array("r", 1), e, point_source_redshift_list=[0.5])
    W.eq("flux-ratio penalty", F.logL([ps.pos[0][0]], [ps.pos[0][1]], kw, {}), -(10**15))
    W.same("source redshift of the lens model restored", lens.z_source, 2.0)
    W.raises("no delays", lambda: TimeDelayLikelihood(None, e, lens, ps), ValueError)
    W.raises("no errors", lambda: TimeDelayLikelihood([1.0], None, lens, ps), ValueError)
    two = Points(W, lens, [2, 2], [None, None])
    W.raises("two modes of two sources", lambda: TimeDelayLikelihood([[1.0], [1.0]], [[1.0], [1.0]], lens, two, bimodal_measurement=True), ValueError)
    W.raises("selection of the wrong number of sources", lambda: TimeDelayLikelihood([[1.0], [1.0]], [[1.0], [1.0]], lens, two, time_delay_measurement_bool_list=[[True]]), ValueError)
    W.raises("selection of the wrong number of delays", lambda: TimeDelayLikelihood([[1.0], [1.0]], [[1.0], [1.0]], lens, two, time_delay_measurement_bool_list=[[True], [True, False]]), ValueError)


@contract("C21", "flux ratios", [FR + "__init__", FR + "logL", FR + "_logL", FR + "num_data"], samples=12, bounded="at most two point sources with three images", timeout=120)
def _fr(W):
    from lenstronomy.Sampling.Likelihoods.flux_ratio_likelihood import FluxRatioLikelihood
    import lenstronomy.Sampling.Likelihoods.flux_ratio_likelihood as M

    lens, kw = lens2(W)
    n = W.choice("sources", [1, 2])
    ns = [3, 2][:n]
    zs = W.choice("redshifts", [None, [1.5, None], [1.5, 0.7]])
    zs = zs if zs is None else zs[:n]
    ps = Points(W, lens, ns, zs)
    typ = W.choice("errors", ["sigma", "cov"])
    use = W.choice("use", [None, [True, False], [False, True]])
    use = use if use is None else use[:n]
    on = [True] * n if use is None else use
    st = W.choice("source", ["INF", "GAUSSIAN"])
    r = [W.array("r%d" % i, q - 1, 0, None, (0.5, 2)) for i, q in enumerate(ns)]
    e = [cov(W, "e%d" % i, q - 1, typ) for i, q in enumerate(ns)]
    size = W.real("size", 0, None, (0.1, 1))
    seen = []

    class Ext:
        def __init__(self, lensModel):
            self.lens = lensModel

        def magnification_finite(self, x, y, k, source_sigma, **q):
            seen.append(q)
            f = W.uf("finite_z%s" % self.lens.z_source, 5)
            return W._arr1([f(a, b, k[0]["p"], k[1]["p"], source_sigma) for a, b in zip(x, y)])

    if n == 1:
        args = (r[0], e[0][0])
    else:
        args = (r, [q[0] for q in e])
    num = {} if st == "INF" else dict(window_size=0.25, grid_number=7, polar_grid=True, aspect_ratio=0.75)
    with swap(W, (M, "LensModelExtensions", Ext), both=True):
        L = FluxRatioLikelihood(lens, args[0], args[1], flux_ratio_measurement_bool=use, num_point_sources=n, source_type=st, point_source_redshift_list=zs, **num)
        # any lens has non-vanishing magnifications where the ratio is defined
        ok = True
        mag = []
        for i in range(n):
            z = 2.0 if zs is None or zs[i] is None else zs[i]
            if st == "INF":
                m = lens.f("mu", *ps.pos[i], kw, z=z)
                m = [abs(q) for q in m]
            else:
                f = W.uf("finite_z%s" % z, 5)
                m = [f(a, b, kw[0]["p"], kw[1]["p"], size) for a, b in zip(*ps.pos[i])]
            for q in m:
                W.assume(q > 0)
            mag.append(m)
        v = L.logL([p[0] for p in ps.pos], [p[1] for p in ps.pos], kw, {"source_size": size})
    ref = 0
    for i in range(n):
        if not on[i]:
            continue
        m = mag[i]
        if typ == "sigma":
            d = [m[j + 1] / m[0] - r[i][j] for j in range(ns[i] - 1)]
        else:
            d = [np.log(m[j + 1] / m[0]) - np.log(r[i][j]) for j in range(ns[i] - 1)]
        ref = ref - chi2(W, d, e[i][0], e[i][1]) / 2
    W.eq("Gaussian in the (logarithmic) ratios to the first image", v, ref)
    W.same("number of ratios", L.num_data, sum(ns[i] - 1 for i in range(n) if on[i]))
    W.same("source redshift of the lens model restored", lens.z_source, 2.0)
    for q in seen:
        W.same("settings of the finite source", q, num)


@contract("C21", "undefined ratios", [FR + "_logL"], samples=2)
def _undef(W):
    from lenstronomy.Sampling.Likelihoods.flux_ratio_likelihood import FluxRatioLikelihood

    e = W.choice("errors", [np.array([1.0, 2.0]), np.eye(2)])
    L = FluxRatioLikelihood(Lens(W), np.array([1.0, 0.5]), e)
    bad = W.choice("bad", [[np.nan, np.nan], [np.inf, 1.0], [1.0, np.nan], [np.inf, np.inf]])
    W.same("penalty", L._logL(np.array(bad)), -(10**15))


@contract("C21", "astrometric term", [PL + "astrometric_likelihood", PL + "logL", PL + "__init__"], samples=8, bounded="three images")
def _astro(W):
    from lenstronomy.Sampling.Likelihoods.position_likelihood import PositionLikelihood

    lens, kw = lens2(W)
    ps = Points(W, lens, [3], [None], ["LENSED_POSITION"])
    dx, dy = W.array("dx", 3), W.array("dy", 3)
    s = W.real("sigma", 0, None, (0.5, 2))
    kps = W.choice("kwargs", [[{"ra_image": 1, "dec_image": 1}], [{"ra_source": 1}], []])
    on = W.choice("on", [True, False])
    sp = W.choice("special", [{"delta_x_image": dx, "delta_y_image": dy}, {}])
    L = PositionLikelihood(ps, image_position_uncertainty=s, astrometric_likelihood=on, source_position_likelihood=False)
    active = on and sp and kps and "ra_image" in kps[0]
    ref = -sum(a**2 + b**2 for a, b in zip(dx, dy)) / s**2 / 2 if active else 0
    W.eq("Gaussian in the astrometric offsets", L.logL(kw, kps, sp), ref)
    W.same("no data points", L.num_data, 0)


@contract("C21", "image position term", [PL + "image_position_likelihood", PL + "logL", PL + "num_data"], samples=8, bounded="two point sources with at most three images")
def _impos(W):
    from lenstronomy.Sampling.Likelihoods.position_likelihood import PositionLikelihood

    lens, kw = lens2(W)
    ps = Points(W, lens, [3, 2], [None, None], ["SOURCE_POSITION", "SOURCE_POSITION"])
    m = W.choice("measured", [(3, 2), (2, 2), (3, 3), (1, 1)])
    ra, dec = [[W.array("%s%d" % (c, i), q) for i, q in enumerate(m)] for c in ("ra", "dec")]
    s = W.real("sigma", 0, None, (0.5, 2))
    on = W.choice("on", [True, False])
    L = PositionLikelihood(ps, image_position_uncertainty=s, image_position_likelihood=on, ra_image_list=ra, dec_image_list=dec)
    ref = 0
    for i in range(2):
        for j in range(min(m[i], len(ps.pos[i][0]))):
            ref = ref - ((ps.pos[i][0][j] - ra[i][j]) ** 2 + (ps.pos[i][1][j] - dec[i][j]) ** 2) / s**2 / 2
    W.eq("Gaussian in the image positions", L.logL(kw, [{}, {}], {}), ref if on else 0)
    if on:
        W.same("in the order of the data", ps.calls[0][0], True)
    W.same("number of data points", L.num_data, 2 * sum(m) if on else 0)


@contract("C21", "source position term", [PL + "source_position_likelihood", PL + "logL", PL + "__init__", LK + "position_likelihood.py::image2source_covariance"], samples=12, timeout=120,
          bounded="two point sources with two images")
def _srcpos(W):
    from lenstronomy.Sampling.Likelihoods.position_likelihood import PositionLikelihood

    lens, kw = lens2(W)
    zs, k, tol = W.choice("setting", [([None, None], None, 0.5), ([None, None], [[[0], [1]], None], None), ([1.5, None], None, None), ([1.5, 0.7], [[[0], [1]], None], None), ([1.5, 0.7], None, None)])
    ps = Points(W, lens, [2, 2], zs, W.choice("types", [["LENSED_POSITION", "LENSED_POSITION"], ["LENSED_POSITION", "SOURCE_POSITION"], ["UNLENSED", "LENSED_POSITION"], ["SOURCE_POSITION", "SOURCE_POSITION"]]), k)
    on = W.choice("on", [None, True, False])
    s = W.real("sigma", 0, None, (0.5, 2))
    kps = []
    for i, t in enumerate(ps.point_source_type_list):
        kps.append({"ra_source": 0, "dec_source": 0} if t == "SOURCE_POSITION" else {"ra_image": ps.pos[i][0], "dec_image": ps.pos[i][1]})
    L = PositionLikelihood(ps, source_position_likelihood=on, source_position_sigma=s, source_position_tolerance=tol)
    active = on if on is not None else "LENSED_POSITION" in ps.point_source_type_list
    ref = 0
    cases = []
    for i, t in enumerate(ps.point_source_type_list):
        if t != "LENSED_POSITION" or not active:
            continue
        z = zs[i] if zs[i] is not None else 2.0
        for j in range(2):
            x, y = ps.pos[i][0][j], ps.pos[i][1][j]
            kk = None if k is None or k[i] is None else k[i][j]
            bx, by = lens.f("bx", x, y, kw, kk, z), lens.f("by", x, y, kw, kk, z)
            f = [lens.f("h" + c, x, y, kw, kk, z) for c in ("xx", "xy", "yx", "yy")]
            det = (1 - f[0]) * (1 - f[3]) - f[1] * f[2]
            W.assume(det != 0)
            # displacement in the image plane, delta theta = A^-1 delta beta
            ux, uy = ps.src[0][i] - bx, ps.src[1][i] - by
            tx = ((1 - f[3]) * ux + f[1] * uy) / det
            ty = (f[2] * ux + (1 - f[0]) * uy) / det
            cases.append((ux, uy, tx, ty))
    v = L.logL(kw, kps, {})
    for ux, uy, tx, ty in cases:
        ref = ref - (tx**2 + ty**2) / s**2 / 2
        if tol is not None and bool(ux**2 + uy**2 > tol**2):
            ref = ref - 10**3
    W.eq("Gaussian in the image-plane displacement", v, ref)
    W.same("source redshift of the lens model restored", lens.z_source, 2.0)


@contract("C21", "covariance in the source plane", [LK + "position_likelihood.py::image2source_covariance"], samples=8)
def _i2s(W):
    from lenstronomy.Sampling.Likelihoods.position_likelihood import image2source_covariance

    A = W.mat([[W.real("a%d%d" % (i, j)) for j in range(2)] for i in range(2)])
    S = W.mat([[W.real("s%d%d" % (min(i, j), max(i, j))) for j in range(2)] for i in range(2)])
    r = image2source_covariance(A, S)
    for i in range(2):
        for j in range(2):
            W.eq("A Sigma A^T", r[i, j], sum(A[i, a] * S[a, b] * A[j, b] for a in range(2) for b in range(2)))


@contract("C21", "additional images", [PL + "check_additional_images", PL + "logL", PL + "__init__"], samples=8, bounded="two point sources")
def _add(W):
    from lenstronomy.Sampling.Likelihoods.position_likelihood import PositionLikelihood

    lens, kw = lens2(W)
    n = W.choice("images", [(2, 2), (3, 2), (2, 3), (4, 4)])
    ps = Points(W, lens, n, [None, None], ["LENSED_POSITION", "LENSED_POSITION"])
    have = W.choice("modelled", [(2, 2), (3, 3), None])
    kps = [{"ra_image": [0] * h} if h else {"ra_source": 0} for h in (have or (2, 0))]
    force, restrict = W.choice("force", [True, False]), W.choice("restrict", [None, 2, 3])
    L = PositionLikelihood(ps, source_position_likelihood=False, force_no_add_image=force, restrict_image_number=restrict is not None, max_num_images=restrict)
    ref = 0
    if force and any("ra_image" in q and n[i] > len(q["ra_image"]) for i, q in enumerate(kps)):
        ref -= 10.0**5
    if restrict is not None and n[0] > restrict:
        ref -= 10.0**5
    W.same("penalties", float(L.logL(kw, kps, {})), float(ref))
    if force:
        W.same("all images are searched for", ps.calls[0][1], True)
    W.raises("no maximal number", lambda: PositionLikelihood(ps, restrict_image_number=True), ValueError)


@contract("C21", "sum of the position terms", [PL + "logL", PL + "__init__"], samples=8, bounded="one point source with two images")
def _possum(W):
    from lenstronomy.Sampling.Likelihoods.position_likelihood import PositionLikelihood
    import lenstronomy.Sampling.Likelihoods.position_likelihood as M

    lens, kw = lens2(W)
    ps = Points(W, lens, [2], [None])
    a, b, c = (W.choice(q, [True, False]) for q in ("astro", "image", "source"))
    s, t = W.real("sigma", 0, None, (0.5, 2)), W.real("sigma_s", 0, None, (0.5, 2))
    u = [W.real("l%d" % i) for i in range(3)]
    lens.cosmology_sampling = W.choice("cosmology", [False, True])
    L = PositionLikelihood(ps, s, astrometric_likelihood=a, image_position_likelihood=b, source_position_likelihood=c, source_position_sigma=t, ra_image_list=[[0, 0]], dec_image_list=[[0, 0]], source_position_tolerance=7.0 if c else None)
    seen = []
    L.astrometric_likelihood = lambda p, q, sig: (seen.append((p, q)), u[0] * sig)[1]
    L.image_position_likelihood = lambda kwargs_ps, kwargs_lens, sigma: (seen.append((kwargs_ps, kwargs_lens)), u[1] * sigma)[1]
    L.source_position_likelihood = lambda l, p, sig, hard_bound_rms, verbose: (seen.append((l, p, hard_bound_rms)), u[2] * sig)[1]
    kps, sp = [{}], {"H0": 60}
    with swap(W, (M, "get_astropy_cosmology", lambda cosmology_model, param_kwargs: "new%s" % param_kwargs["H0"]), both=True):
        v = L.logL(kw, kps, sp)
    W.eq("sum of the enabled terms", v, (u[0] * s if a else 0) + (u[1] * s if b else 0) + (u[2] * t if c else 0))
    W.same("arguments", seen, ([(kps, sp)] if a else []) + ([(kw, kps, 7.0)] if c else []) + ([(kps, kw)] if b else []))
    W.same("cosmology", lens.cosmo, "new60" if lens.cosmology_sampling else "start")


# kinematics ------------------------------------------------------------------------------------------------

def kin(W, il=0, ill=0):
    from lenstronomy.Sampling.Likelihoods.kinematic_2D_likelihood import KinLikelihood

    L = object.__new__(KinLikelihood)
    L._idx_lens, L._idx_lens_light = il, ill
    return L


@contract("C21", "kinematic statistic", [KL + "_logL"], samples=8, bounded="three bins")
def _kin(W):
    L = kin(W)
    L.data = W.array("d", 3)
    C, rows = cov(W, "c", 3)
    L.covariance = C
    v = W.array("v", 3)
    W.eq("Gaussian with the covariance of the bins", L._logL(v), -chi2(W, [v[i] - L.data[i] for i in range(3)], None, rows) / 2)


@contract("C21", "binning of the kinematic model", [KL + "auto_binning"], samples=8, bounded="3x3 map with three bins, 3x3 kernel")
def _kbin(W):
    L = kin(W)
    n = 3
    v, l = (W.mat([[W.real("%s%d%d" % (q, i, j), 0, None, (0.5, 2)) for j in range(n)] for i in range(n)]) for q in "vl")
    k = W.mat([[W.real("k%d%d" % (i, j), 0, None, (0.1, 1)) for j in range(3)] for i in range(3)])
    L.psf = k
    L.bin_mask = np.array(W.choice("bins", [[[0, 0, 1], [0, 1, 1], [2, 2, -1]], [[2, 1, 0], [2, 1, 0], [-1, -1, 0]]]))
    L.data = np.zeros(3)
    r = L.auto_binning(v, l)

    def conv(m, i, j):
        return sum(m[i - a, j - b] * k[a + 1, b + 1] for a in (-1, 0, 1) for b in (-1, 0, 1) if 0 <= i - a < n and 0 <= j - b < n)

    for q in range(3):
        pix = [(i, j) for i in range(n) for j in range(n) if L.bin_mask[i, j] == q]
        W.eq("light-weighted mean of the convolved maps", r[q], sum(conv(v, *p) * conv(l, *p) for p in pix) / sum(conv(l, *p) for p in pix))
    L.bin_mask = np.array([[0, 0, 1], [0, 1, 1], [1, 1, -1]])
    W.raises("bin without pixels", lambda: L.auto_binning(v, l), ValueError)


@contract("C21", "kinematic model parameters", [KL + "convert_to_nn_params", KL + "rescale_distance", KL + "update_image_input", KL + "kwargs_data2image_input"], samples=8, bounded="two lens and light components")
def _kpar(W):
    il, ill = W.choice("lens", [0, 1]), W.choice("light", [0, 1])
    L = kin(W, il, ill)
    r = lambda n, lo, hi: W.real(n, lo, hi, (lo, hi))
    kl = [{"phi": r("phi%d" % i, -1, 1), "q": r("q%d" % i, 0.5, 0.9), "theta_E": r("te%d" % i, 0.5, 2), "gamma": r("g%d" % i, 1.5, 2.5), "center_x": r("cx%d" % i, -1, 1), "center_y": r("cy%d" % i, -1, 1)} for i in range(2)]
    kll = [{"phi": r("psi%d" % i, -1, 1), "q": r("ql%d" % i, 0.5, 0.9), "n_sersic": r("n%d" % i, 1, 4), "R_sersic": r("R%d" % i, 0.5, 2)} for i in range(2)]
    sp = {"b_ani": r("b", -0.5, 0.5), "incli": r("inc", 0.5, 1.5), "D_dt": r("Ddt", 1000, 5000), "D_d": r("Dd", 500, 2000)}
    p, same = L.convert_to_nn_params(kl, kll, sp)
    a, b = kl[il], kll[ill]
    gg = (a["gamma"] - 1) / 2
    ref = [a["q"], b["q"], a["theta_E"] / ((2 / (1 + a["q"])) ** (1 / (2 * gg)) * np.sqrt(a["q"])), b["n_sersic"], b["R_sersic"], 8.0e-2, gg, sp["b_ani"], sp["incli"] * 180 / np.pi]
    for i in range(9):
        W.eq("parameter %d" % i, p[i], ref[i])
    L.z_lens, L.fiducial_scale = 0.5, r("fid", 1, 2)
    im = W.mat([[W.real("i%d%d" % (i, j)) for j in range(2)] for i in range(2)])
    out = L.rescale_distance(im, sp)
    for i in range(2):
        for j in range(2):
            W.eq("velocities scale with the distance ratio D_s/D_ds", out[i, j], im[i, j] * np.sqrt(sp["D_dt"] / sp["D_d"] / W.const(1.5) / L.fiducial_scale))
    L.image_input = {}
    L.update_image_input(kl)
    for q, s in (("ellipse_PA", "phi"), ("offset_x", "center_x"), ("offset_y", "center_y")):
        W.eq(q, L.image_input[q], a[s])
    near = bool(a["phi"] - b["phi"] <= 0.05) and bool(b["phi"] - a["phi"] <= 0.05)
    W.same("orientation", bool(same), near or not (bool(b["q"] < 0.95) or bool(a["q"] < 0.95)))


@contract("C21", "alignment of the kinematic map", ["Util/kin_sampling_util.py::KinNNImageAlign." + m for m in ("__init__", "update", "write_npix", "pix_coords", "radec_to_xy", "xy_to_radec", "rotate_imaging_into_kin_nn", "spectragrid_in_radec", "spectragrid_in_imagingxy", "spectragrid_in_kin_nn_xy")], samples=8, bounded="2x2 spectra, 4x4 and 6x6 maps")
def _align(W):
    from lenstronomy.Util.kin_sampling_util import KinNNImageAlign

    ts = [[W.real("s%d%d" % (i, j), -2, 2, (-0.3, 0.3) if i != j else (0.5, 1)) for j in range(2)] for i in range(2)]
    ti = [[0.25, 0.0], [0.0, 0.25]] if W.choice("imaging", [0, 1]) else [[-0.25, 0.0], [0.0, 0.25]]
    sp = {"image": np.ones((2, 2)), "transform_pix2angle": W.mat(ts), "ra_at_xy0": W.real("rs"), "dec_at_xy0": W.real("ds")}
    im = {"image": np.ones((4, 4)), "transform_pix2angle": np.array(ti), "ra_at_xy0": W.real("ri"), "dec_at_xy0": W.real("di"), "ellipse_PA": W.real("pa", -3, 3), "offset_x": W.real("ox"), "offset_y": W.real("oy")}
    nn = {"image": np.ones((6, 6)), "delta_pix": W.real("dp", 0, None, (0.1, 1))}
    A = KinNNImageAlign(sp, im, nn)
    if W.choice("update", [False, True]):
        A = KinNNImageAlign({"image": np.ones((3, 3))}, {"image": np.ones((3, 3)), "transform_pix2angle": np.array(ti)}, {"image": np.ones((3, 3))})
        A.update(sp, im, nn, update_npix=True)
    x, y = A.spectragrid_in_kin_nn_xy()
    ra, dec = A.spectragrid_in_radec()
    ix, iy = A.spectragrid_in_imagingxy()
    c, s = np.cos(im["ellipse_PA"]), np.sin(im["ellipse_PA"])
    for q in range(4):
        i, j = q % 2, q // 2
        u = ts[0][0] * i + ts[0][1] * j + sp["ra_at_xy0"]
        v = ts[1][0] * i + ts[1][1] * j + sp["dec_at_xy0"]
        W.eq("ra of a spectral pixel", ra[q], u)
        W.eq("dec of a spectral pixel", dec[q], v)
        a, b = (u - im["ra_at_xy0"]) / ti[0][0], (v - im["dec_at_xy0"]) / ti[1][1]
        W.eq("image column", ix[q], a)
        W.eq("image row", iy[q], b)
        # angular offset from the centre, rotated into the frame of the major axis, in units of map pixels
        da, db = (a - 2) * 0.25 - im["offset_x"], (b - 2) * 0.25 - im["offset_y"]
        W.eq("map column", x[q], (c * da + s * db) / nn["delta_pix"] + 3)
        W.eq("map row", y[q], (-s * da + c * db) / nn["delta_pix"] + 3)
    W.raises("only square maps", lambda: KinNNImageAlign({"image": np.ones((2, 3))}, im, nn), ValueError)


@contract("C21", "interpolation of the kinematic map", ["Util/kin_sampling_util.py::KinNNImageAlign.interp_image"], samples=8, sym=False, bounded="random smooth maps (numerical)")
def _interp(W):
    from lenstronomy.Util.kin_sampling_util import KinNNImageAlign

    f = lambda x, y: 1 + 0.2 * x - 0.1 * y + 0.02 * x * y + 0.01 * x**2 - 0.03 * y**2
    g = np.arange(8.0)
    X, Y = np.meshgrid(g, g)
    sp = {"image": np.ones((2, 2)), "transform_pix2angle": np.array([[0.5, 0.0], [0.0, 0.5]]), "ra_at_xy0": float(W.real("ra", -0.4, 0.1, (-0.4, 0.1))), "dec_at_xy0": -0.25}
    im = {"image": np.ones((4, 4)), "transform_pix2angle": np.array([[0.25, 0.0], [0.0, 0.25]]), "ra_at_xy0": -0.5, "dec_at_xy0": -0.5, "ellipse_PA": float(W.real("pa", -1, 1, (-1, 1))), "offset_x": 0.1, "offset_y": -0.05}
    A = KinNNImageAlign(sp, im, {"image": f(X, Y), "delta_pix": 0.25})
    x, y = A.spectragrid_in_kin_nn_xy()
    r = A.interp_image()
    for q in range(4):
        W.eq("value of the map at the position of the pixel", r[q // 2, q % 2], f(x[q], y[q]), rtol=1e-8)


@contract("C21", "kinematic data", ["Data/kinematic_bin_2D.py::KinBin." + m for m in ("__init__", "binned_image", "kin_bin2kwargs", "kin_grid")], samples=6, bounded="2x2 frame with three bins")
def _kdata(W):
    from lenstronomy.Data.kinematic_bin_2D import KinBin

    d = W.array("d", 3)
    mask = W.choice("mask", [np.array([[0, 1], [2, -1]]), np.array([[2.0, 2.0], [0.0, 1.0]])])
    t = [[W.real("t%d%d" % (i, j), -2, 2, (-0.3, 0.3) if i != j else (0.5, 1)) for j in range(2)] for i in range(2)]
    ra, dec, sx, sy = (W.real(q) for q in ("ra", "dec", "sx", "sy"))
    K = KinBin(d, np.eye(3), mask, ra, dec, W.mat(t), None, sx, sy)
    b = K.binned_image(d, mask) if not W.sym else None
    kw = None
    if not W.sym:
        kw = K.kin_bin2kwargs()
        for i in range(2):
            for j in range(2):
                q = int(mask[i, j])
                W.eq("value of the bin", b[i, j], d[q] if q >= 0 else 0)
        for j in range(2):
            for i in range(2):
                x, y = np.array(kw["transform_pix2angle"]).dot([i, j])
                gx, gy = K.kin_grid()
                W.eq("frame of the model map", x + kw["ra_at_xy0"], gx[j, i])
                W.eq("frame of the model map", y + kw["dec_at_xy0"], gy[j, i])
    gx, gy = K.kin_grid()
    for i in range(2):
        for j in range(2):
            W.eq("ra of the pixels", gx[j, i], t[0][0] * i + t[0][1] * j + ra + sx)
            W.eq("dec of the pixels", gy[j, i], t[1][0] * i + t[1][1] * j + dec + sy)


@contract("C21", "bounds of the kinematic emulator", [LK + "kinematic_NN_call.py::KinematicNN.check_bounds", LK + "kinematic_NN_call.py::KinematicNN.generate_map", KL + "logL", KL + "calc_vrms", KL + "__init__"], samples=12, sym=False, bounded="random parameters (numerical)")
def _nn(W):
    import lenstronomy.Sampling.Likelihoods.kinematic_2D_likelihood as M
    from lenstronomy.Sampling.Likelihoods.kinematic_NN_call import KinematicNN
    from lenstronomy.Data.kinematic_bin_2D import KinBin
    from lenstronomy.Data.psf import PSF
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel
    import contextlib, io

    with contextlib.redirect_stdout(io.StringIO()):
        nn = KinematicNN()
    nn.SKiNN_installed = True
    n = nn.config["grid_settings"]["npix"]
    gen = []
    nn.generator = types.SimpleNamespace(generate_map=lambda p: (gen.append(np.array(p)), np.full((n, n), 200.0 + 10 * p[0]))[1])
    r = lambda q, lo, hi: float(W.real(q, lo, hi, (lo, hi)))
    il = W.choice("index", [0, 1])
    lens = [{"theta_E": r("te", 0.6, 1.9), "gamma": r("g", 1.6, 2.4), "q": r("q", 0.55, 0.98), "phi": r("phi", -0.2, 0.2), "center_x": 0.0, "center_y": 0.0}]
    light = [{"amp": 1.0, "R_sersic": 0.1, "n_sersic": 1.0, "q": 0.99, "phi": 2.0, "center_x": 0.0, "center_y": 0.0}] * il + [
        {"amp": 10.0, "R_sersic": r("R", 0.3, 1.5), "n_sersic": r("n", 1.0, 5.0), "q": r("ql", 0.55, 0.98), "phi": lens[0]["phi"] + W.choice("twist", [0.0, 0.03, 0.2]), "center_x": 0.0, "center_y": 0.0}]
    sp = {"D_dt": r("Ddt", 2000, 4000), "D_d": r("Dd", 800, 1500), "b_ani": r("b", -0.6, 0.6), "incli": r("inc", 0.5, 1.5708)}
    mask = np.array([[0, 0, 1], [0, 1, 1], [2, 2, 2]])
    data = np.array([200.0, 210.0, 190.0])
    C = np.diag([100.0, 90.0, 80.0]) + 5.0
    pk = {"psf_type": "PIXEL", "kernel_point_source": np.array([[0.0, 0.1, 0.0], [0.1, 0.6, 0.1], [0.0, 0.1, 0.0]])}
    K = KinBin(data, C, mask, -0.25, -0.25, np.eye(2) * 0.25, PSF(**pk))
    kd = {"image_data": np.zeros((5, 5)), "transform_pix2angle": np.eye(2) * 0.1, "ra_at_xy_0": -0.2, "dec_at_xy_0": -0.2}
    with swap(W, (M.kinematic_NN_call, "KinematicNN", lambda: nn), both=True):
        L = M.KinLikelihood(K, LensModel(["EPL_Q_PHI"], z_lens=0.5), LightModel(["SERSIC_ELLIPSE_Q_PHI"] * (il + 1)), kd, 0, il)
    v = L.logL(lens, light, sp)
    a, b = lens[0], light[il]
    gg = (a["gamma"] - 1) / 2
    te = a["theta_E"] / ((2 / (1 + a["q"])) ** (1 / (2 * gg)) * np.sqrt(a["q"]))
    inc = sp["incli"] * 180 / np.pi
    B = nn.config["training_abs_bounds"]
    ok = all(B[k][0] <= q <= B[k][1] for k, q in dict(q_mass=a["q"], q_light=b["q"], theta_E=te, n_sersic=b["n_sersic"], R_sersic=b["R_sersic"], core_size=0.08, gamma=gg, b_ani=sp["b_ani"], incli=inc).items())
    ok = ok and 0.5 * te <= b["R_sersic"] <= te and (inc - 2) * np.pi / 180 >= np.arccos(min(a["q"], b["q"]))
    ok = ok and (abs(a["phi"] - b["phi"]) <= 0.05 or min(a["q"], b["q"]) >= 0.95)
    if not ok:
        W.same("penalty outside of the training set", v, -(10**8))
        return
    vel = (200 + 10 * a["q"]) * np.sqrt(sp["D_dt"] / sp["D_d"] / 1.5 / (1650.753 / 1042.883))
    ker = np.pad(np.full((3, 3), 1.0), 1)
    k = pk["kernel_point_source"]
    conv = np.array([[sum(ker[i + 1 + p, j + 1 + q] * k[1 - p, 1 - q] for p in (-1, 0, 1) for q in (-1, 0, 1)) for j in range(3)] for i in range(3)])
    x, y = np.meshgrid(np.array([-0.25, 0, 0.25]), np.array([-0.25, 0, 0.25]))
    lm = np.pad(LightModel(["SERSIC_ELLIPSE_Q_PHI"]).surface_brightness(x, y, [b]), 1)
    lc = np.array([[sum(lm[i + 1 + p, j + 1 + q] * k[1 - p, 1 - q] for p in (-1, 0, 1) for q in (-1, 0, 1)) for j in range(3)] for i in range(3)])
    m = np.array([np.sum((vel * conv * lc)[mask == q]) / np.sum(lc[mask == q]) for q in range(3)])
    d = m - data
    W.eq("Gaussian in the binned dispersions", v, -d.dot(np.linalg.inv(C)).dot(d) / 2, rtol=1e-6)


# tracers --------------------------------------------------------------------------------------------------

TM = "ImSim/tracer_model.py::TracerModelSource."


@contract("C21", "tracer map", [TM + "tracer_model", TM + "_tracer_model_source", TM + "__init__"], samples=10, bounded="2x2 frame, two light and two tracer components")
def _tracer(W):
    from lenstronomy.ImSim.tracer_model import TracerModelSource
    from lenstronomy.ImSim.image_model import ImageModel
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF

    D = ImageData(image_data=np.zeros((2, 2)), noise_map=np.ones((2, 2)), transform_pix2angle=np.eye(2), ra_at_xy_0=0, dec_at_xy_0=0)
    part = W.choice("partition", [None, [[[0], [1]]], [[[0], [0]], [[1], [1]]], [[[0, 1], [1]], [None, [0]]]])
    typ = W.choice("type", ["LINEAR", "LOG"])
    de = W.choice("de-lensed", [False, True])
    T = TracerModelSource(D, PSF(psf_type="NONE"), tracer_partition=part, tracer_type=typ)
    key = lambda k: "all" if k is None else "".join(map(str, k))
    light = lambda k, d: W._arr1([W.real("l_%s_%d_%d" % (key(k), d, i), 0, None, (0.5, 2)) for i in range(4)])
    trac = lambda k, d: W._arr1([W.real("t_%s_%d_%d" % (key(k), d, i), None, None, (-1, 1) if typ == "LOG" else (0.5, 2)) for i in range(4)])
    w = [[W.real("w%d%d" % (i, j), 0, None, (0.1, 1)) for j in range(4)] for i in range(4)]
    cv = lambda v: [sum(w[i][j] * v[j] for j in range(4)) for i in range(4)]
    ks, kt, kl, ke, sp = [{}], [{"t": 1}], [{"l": 1}], [{"e": 1}], {"s": 1}
    seen = []

    def src(self, kwargs_source, kwargs_lens, kwargs_extinction=None, kwargs_special=None, de_lensed=False, k=None, **q):
        seen.append((kwargs_source, kwargs_lens, kwargs_extinction, kwargs_special))
        return light(k, int(de_lensed))

    T.ImageNumerics = types.SimpleNamespace(coordinates_evaluate=("ra", "dec"), re_size_convolve=lambda v, unconvolved=False: W.mat(np.array(cv(v), dtype=object).reshape(2, 2)) if W.sym else np.array(cv(v)).reshape(2, 2))
    T.tracer_source_class = types.SimpleNamespace(surface_brightness=lambda x, y, kw, k=None: (seen.append((x, y, kw)), trac(k, 1))[1])
    T.tracer_mapping = types.SimpleNamespace(image_flux_joint=lambda x, y, l, kw, k=None: (seen.append((x, y, l, kw)), trac(k, 0))[1])
    for a, b in part or [[None, None]]:
        for q in cv(light(a, int(de))):
            W.assume(q > W.const(10) ** (-19))
    with swap(W, (ImageModel, "_source_surface_brightness_analytical_numerics", src), both=True):
        r = T.tracer_model(kt, kl, ks, ke, sp, de_lensed=de)
    for q in seen:
        W.same("arguments", q, {4: (ks, kl, ke, sp) if q[0] != "ra" else ("ra", "dec", kl, kt), 3: ("ra", "dec", kt)}[len(q)])
    num, den = [0] * 4, [0] * 4
    for a, b in part or [[None, None]]:
        l, t = light(a, int(de)), trac(b, int(de))
        f = [l[i] * (t[i] if typ == "LINEAR" else W.const(10) ** t[i]) for i in range(4)]
        c = cv(l)
        num = [p + q for p, q in zip(num, cv(f))]
        den = [p + q for p, q in zip(den, c)]
    for i in range(4):
        ref = num[i] / den[i]
        W.eq("light-weighted tracer after convolution", r[i // 2, i % 2], ref if typ == "LINEAR" else W.log10(ref))
    W.raises("unknown type", lambda: TracerModelSource(D, PSF(psf_type="NONE"), tracer_type="SQRT"), Exception)


@contract("C21", "tracer likelihood", [LK + "tracer_likelihood.py::TracerLikelihood." + m for m in ("__init__", "logL", "num_data", "reset_point_source_cache")], samples=8, bounded="two bands")
def _tl(W):
    from lenstronomy.Sampling.Likelihoods.tracer_likelihood import TracerLikelihood
    import lenstronomy.Sampling.Likelihoods.tracer_likelihood as M

    band = W.choice("band", [None, 0, 1])
    idx = W.choice("extinction", [None, [[0], [1, 0]]])
    model = {"x": 1}
    if band is not None:
        model["tracer_source_band"] = band
    if idx is not None:
        model["index_optical_depth_model_list"] = idx
    u = W.real("u")
    rec, log = {}, []
    nan = W.choice("undefined", [False] if W.sym else [False, True])
    im = types.SimpleNamespace(update_linear_kwargs=lambda param, model_band, kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps: (rec.update(p=param, b=model_band), ("lens", "source", "ll", "ps"))[1] if (kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps) == ("l", "s", "d", "p") else None)
    tm = types.SimpleNamespace(likelihood_data_given_model=lambda kwargs_tracer_source, kwargs_lens, kwargs_source, kwargs_extinction, kwargs_special: (rec.update(t=kwargs_tracer_source, l=kwargs_lens, s=kwargs_source, e=kwargs_extinction, sp=kwargs_special), float("nan") if nan else u)[1],
                               num_data_evaluate=7, reset_point_source_cache=lambda cache: log.append(cache))
    made = []
    with swap(W, (M, "class_creator", types.SimpleNamespace(create_im_sim=lambda kwargs_model, linear_solver, **q: (made.append((kwargs_model, linear_solver, q)), im)[1], create_tracer_model=lambda d, m, tracer_likelihood_mask: (made.append((d, m, tracer_likelihood_mask)), tm)[1])), both=True):
        L = TracerLikelihood("data", model, {"a": 1}, tracer_likelihood_mask="mask", linear_solver=False)
    W.same("models", made, [(model, False, {"a": 1}), ("data", model, "mask")])
    ext = [{"tau": 0}, {"tau": 1}]
    v = L.logL("tracer", kwargs_lens="l", kwargs_source="s", kwargs_lens_light="d", kwargs_ps="p", kwargs_special="sp", kwargs_extinction=ext, param="par")
    W.eq("likelihood of the tracer map", v, -(10**15) if nan else u)
    sel = ext if idx is None else [ext[k] for k in idx[band or 0]]
    W.same("parameters of the band with the solved amplitudes", rec, dict(p="par", b=band or 0, t="tracer", l="lens", s="source", e=sel, sp="sp"))
    W.same("number of data points", L.num_data, 7)
    L.reset_point_source_cache(False)
    W.same("cache", log, [False])


# the sum ----------------------------------------------------------------------------------------------------

@contract("C21", "total", [LI + "__init__", LI + "_class_instances", LI + "log_likelihood", LI + "logL", LI + "num_data", LI + "_unpack_data", LI + "_reset_point_source_cache", LI + "_update_model", LI + "effective_num_data_points"],
          samples=20, timeout=200, max_paths=600)
def _total(W):
    import lenstronomy.Sampling.likelihood as M

    on = {q: W.choice(q, [True, False]) for q in ("time_delay_likelihood", "image_likelihood", "flux_ratio_likelihood", "tracer_likelihood")}
    on["kinematic_2d_likelihood"] = on["time_delay_likelihood"] if W.choice("kin", [True, False]) else not on["time_delay_likelihood"]
    bands = [["b"]] if W.choice("bands", [True, False]) else []
    custom = W.choice("custom", [None, "finite", "excluded"])
    zs = W.choice("redshift sampling", [False, True])
    lens = Lens(W)
    lens.cosmology_sampling = W.choice("cosmology", [False, True])
    u = {q: W.real("u_" + q) for q in ("prior", "im", "td", "fr", "kin", "pos", "tr", "cust")}
    log, made = [], []
    kr = dict(kwargs_lens=[1], kwargs_source=[2], kwargs_lens_light=[3], kwargs_ps=[4], kwargs_special={"H0": 60}, kwargs_extinction=[5], kwargs_tracer_source=[6])

    class PSrc:
        point_source_type_list, _redshift_list = ["A", "B"], [0.5, None]

        def delete_lens_model_cache(self):
            log.append("delete")

        def set_save_cache(self, b):
            log.append(("ps", b))

        def image_position(self, kwargs_ps, kwargs_lens):
            log.append(("image", lens.cosmo))
            return ("ra", kwargs_ps), ("dec", kwargs_lens)

    src = PSrc()

    from lenstronomy.Sampling.parameters import Param

    real = {"prior": M.PriorLikelihood, "im": M.ImageLikelihood, "td": M.TimeDelayLikelihood, "fr": M.FluxRatioLikelihood, "kin": M.KinLikelihood, "pos": M.PositionLikelihood, "tr": M.TracerLikelihood}

    def term(name, val, reset=True):
        class T:
            num_data = {"im": 100, "td": 20, "fr": 3, "pos": 7, "tr": 1000}.get(name)

            def __init__(self, *a, **k):
                made.append((name, a, k))

            def logL(self, *a, **k):
                log.append((name, a, k, lens.cosmo))
                return (val, "param") if name == "im" else val

            def num_param_linear(self, **k):
                return 11

            def reset_point_source_cache(self, b):
                log.append((name, b))
        return T

    creator = types.SimpleNamespace(create_class_instances=lambda all_models, **k: (made.append(("models", k)), (lens, "src", "ll", src, "ext"))[1] if all_models else None)
    param = instance(Param, linear_solver="ls", param_limits=lambda: ([0], [1]), args2kwargs=lambda a: kr, update_kwargs_model=lambda s: ({"lens_model_list": ["Q"], "lens_light_model_list": ["L"], "z": 1}, True) if zs else ({"lens_model_list": ["Q"], "lens_light_model_list": ["L"]}, False),
                                  num_param=lambda: (5, []))
    data = dict(multi_band_list=bands, multi_band_type="joint-linear", time_delays_measured="tm", time_delays_uncertainties="tu", flux_ratios="f", flux_ratio_errors="fe", ra_image_list=["r"], dec_image_list=["d"], kinematic_data="kd", tracer_data="td")
    ka = {} if custom is None else {"custom_logL_addition": lambda **k: (log.append(("cust", (), k, lens.cosmo)), u["cust"] if custom == "finite" else -10.0**18)[1]}
    priors = {}
    for p in ("lens", "source", "lens_light", "ps", "special", "extinction"):
        for s in ("", "_kde", "_lognormal"):
            priors["prior_" + p + s] = "P" + p + s
    if on["kinematic_2d_likelihood"] and not bands:
        return
    import contextlib, io
    W.assume(u["cust"] > -(10**17))
    with swap(W, (M, "class_creator", creator), (M, "get_astropy_cosmology", lambda cosmology_model, param_kwargs: "new%s" % param_kwargs["H0"]), (M, "PriorLikelihood", term("prior", u["prior"])), (M, "ImageLikelihood", term("im", u["im"])),
              (M, "TimeDelayLikelihood", term("td", u["td"])), (M, "FluxRatioLikelihood", term("fr", u["fr"])), (M, "KinLikelihood", term("kin", u["kin"])), (M, "PositionLikelihood", term("pos", u["pos"])), (M, "TracerLikelihood", term("tr", u["tr"])), both=True), contextlib.redirect_stdout(io.StringIO()):
        L = M.Likelihood(data, {"lens_model_list": ["Q"], "lens_light_model_list": ["L"]}, param, check_bounds=False, source_marg="sm", linear_prior="lp", check_positive_flux="cp", kwargs_pixelbased="kp", image_likelihood_mask_list="ml", bands_compute="bc",
                         time_delay_measurement_bool_list="tb", bimodal_time_delay_measurement="bi", astrometric_likelihood="al", image_position_likelihood="il", source_position_likelihood="sl", image_position_uncertainty="iu", source_position_tolerance="st",
                         source_position_sigma="ss", force_no_add_image="fn", restrict_image_number="ri", max_num_images="mn", kwargs_flux_compute={"source_type": "T"}, tracer_likelihood_mask="tm", kin_lens_idx=0, kin_lens_light_idx=0, **priors, **ka, **on)
        del log[:]
        v = L.logL([0.5])
        first = list(log)
        n, eff = L.num_data, L.effective_num_data_points(**kr)
        v2 = L.logL([0.5])
    im = on["image_likelihood"] and bool(bands)
    act = {"prior": True, "im": im, "td": on["time_delay_likelihood"], "fr": on["flux_ratio_likelihood"], "kin": on["kinematic_2d_likelihood"], "pos": True, "tr": on["tracer_likelihood"]}
    if custom == "excluded":
        W.eq("excluded", v, -10.0**18)
    else:
        W.eq("sum of the enabled terms", v, sum(u[q] for q in act if act[q]) + (u["cust"] if custom else 0))
    W.eq("same again", v2, v)
    c = "new60" if lens.cosmology_sampling else "start"
    ref = {"prior": ((), kr), "im": ((), kr), "td": (([1], [4], {"H0": 60}), {}), "fr": ((("ra", [4]), ("dec", [1]), [1], {"H0": 60}), {}), "kin": (([1], [3], {"H0": 60}), {}), "pos": (([1], [4], {"H0": 60}), {"verbose": False}),
           "tr": ((), dict(kr, param="param" if im else None)), "cust": ((), kr)}
    calls = [q for q in first if isinstance(q, tuple) and len(q) == 4]
    want = sorted([q for q in act if act[q]] + (["cust"] if custom else [])) if custom != "excluded" else ["cust"]
    W.same("each term once", sorted(q[0] for q in calls), want)
    for q in calls:
        r = real[q[0]].logL if q[0] in real else None
        W.same("arguments of the term " + q[0], canon(r, q[1], q[2]) if r else (q[1], q[2]), canon(r, *ref[q[0]]) if r else ref[q[0]])
        W.same("cosmology of the term " + q[0], q[3], c)
    W.true("images found with this cosmology", all(q[1] == c for q in first if q[0] == "image"))
    W.same("cache of the images off at the end", [q for q in first if isinstance(q, tuple) and q[0] == "ps"][-1], ("ps", False))
    W.true("cache cleared before use", first[0] == "delete")
    for q in ("im", "tr"):
        if act[q]:
            W.same("cache of the images in " + q, [p[1] for p in first if isinstance(p, tuple) and p[0] == q and len(p) == 2], [True, False])
    W.same("number of data points", n, sum({"im": 100, "td": 20, "fr": 3, "pos": 7, "tr": 1000, "prior": 0, "kin": 0}[q] for q in act if act[q]))
    W.same("degrees of freedom", eff, n - 5 - (11 if im else 0))
    # what each term is made of
    last = {q[0]: canon(real[q[0]].__init__, *q[1:]) if q[0] in real else q[1:] for q in made}
    ref = lambda q, *a, **k: canon(real[q].__init__, a, k)
    M0 = {"lens_model_list": ["Q"], "lens_light_model_list": ["L"]}
    if zs:
        M0["z"] = 1
    W.same("models", last["models"], (M0,))
    sim = dict(multi_band_list=bands, multi_band_type="joint-linear", bands_compute="bc", image_likelihood_mask_list="ml")
    W.same("priors", last["prior"], ref("prior", *["P" + p + s for s in ("", "_kde", "_lognormal") for p in ("lens", "source", "lens_light", "ps", "special", "extinction")]))
    W.same("position term", last["pos"], ref("pos", src, **dict(astrometric_likelihood="al", image_position_likelihood="il", source_position_likelihood="sl", ra_image_list=["r"], dec_image_list=["d"], image_position_uncertainty="iu", source_position_tolerance="st",
                                                      source_position_sigma="ss", force_no_add_image="fn", restrict_image_number="ri", max_num_images="mn")))
    if act["td"]:
        W.same("time-delay term", last["td"], ref("td", **dict(lens_model_class=lens, point_source_class=src, time_delays_measured="tm", time_delays_uncertainties="tu", time_delay_measurement_bool_list="tb", bimodal_measurement="bi")))
    if act["fr"]:
        W.same("flux-ratio term", last["fr"], ref("fr", lens, **dict(num_point_sources=2, point_source_redshift_list=[0.5, None], flux_ratios="f", flux_ratio_errors="fe", source_type="T")))
    if act["im"]:
        W.same("image term", last["im"], ref("im", **dict(kwargs_model=M0, source_marg="sm", linear_prior="lp", check_positive_flux="cp", kwargs_pixelbased="kp", linear_solver="ls", **sim)))
    if act["tr"]:
        W.same("tracer term", last["tr"], ref("tr", **dict(kwargs_model=M0, kwargs_imaging=sim, tracer_data="td", tracer_likelihood_mask="tm", linear_solver="ls")))
    if act["kin"]:
        W.same("kinematic term", last["kin"], ref("kin", "kd", lens, "ll", "b", 0, 0))

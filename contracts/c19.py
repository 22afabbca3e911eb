"""C19: point sources and lens-equation solutions map back to the source.

The lens model is an arbitrary one: ray shooting, magnification, Hessian, Fermat potential and arrival time
are uninterpreted functions of position and lens parameters, different ones for each source redshift and each
subset of the lens components. The lens-equation solver is an arbitrary set of images where the bookkeeping is
verified, and is itself verified (any candidates, any lens model) further below."""
import copy
import types
import numpy as np
from lv.world import contract
from contracts.common import swap

PS = "PointSource/point_source.py::"
PC = "PointSource/point_source_cached.py::PointSourceCached."
TY = "PointSource/Types/"
LS = "LensModel/Solver/lens_equation_solver.py::LensEquationSolver."
S2 = "LensModel/Solver/solver2point.py::Solver2Point."
S4 = "LensModel/Solver/solver4point.py::Solver4Point."


class Lens:
    """an arbitrary lens model"""
    multi_plane = False

    def __init__(self, W, z=None, tag=""):
        self.W, self.z_source, self.tag, self.static, self.log = W, z, tag, 0, []
        self.lens_model_list = ["A", "B"]

    def change_source_redshift(self, z_source):
        if z_source is not None:
            self.z_source = z_source

    def set_static(self, kwargs):
        self.static += 1
        return kwargs

    def set_dynamic(self):
        self.static = 0

    def f(self, name, x, y, kw, k=None, z="now"):
        z = self.z_source if z == "now" else z
        f = self.W.uf("%s%s_z%s_k%s" % (name, self.tag, z, "all" if k is None else "".join(map(str, np.atleast_1d(k)))), 2 + len(kw))
        p = [c["p"] for c in kw]
        if np.ndim(x) == 0:
            return f(x, y, *p)
        return self.W._arr1([f(a, b, *p) for a, b in zip(x, y)])

    def ray_shooting(self, x, y, kw, k=None):
        return self.f("bx", x, y, kw, k), self.f("by", x, y, kw, k)

    def magnification(self, x, y, kw, k=None):
        return self.f("mu", x, y, kw, k)

    def hessian(self, x, y, kw, k=None):
        return tuple(self.f("h" + c, x, y, kw, k) for c in ("xx", "xy", "yx", "yy"))

    def fermat_potential(self, x, y, kw):
        return self.f("fermat", x, y, kw)

    def arrival_time(self, x, y, kw):
        return self.f("arrival", x, y, kw)


class Solved:
    """an arbitrary lens-equation solver: n images, a function of source position, redshift and lens"""
    n = 3

    def __init__(self, lens):
        self.lens, self.calls = lens, []

    def change_source_redshift(self, z):
        self.lens.change_source_redshift(z)

    def image_position_from_source(self, x, y, kw, magnification_limit=None, **solver):
        # fewer images above a magnification limit; other settings give other images
        W, z = self.lens.W, self.lens.z_source
        tag = "_".join("%s%s" % (a, b) for a, b in sorted(solver.items()))
        n = self.n if magnification_limit is None else self.n - 1
        self.lens.log.append((z, magnification_limit, dict(solver)))
        return tuple(W._arr1([W.uf("img%s%d_z%s%s" % (c, j, z, tag), 2 + len(kw))(x, y, *[q["p"] for q in kw]) for j in range(n)]) for c in "xy")


def images(W, lens, x, y, kw, z, limit, solver):
    s = Solved(lens)
    z0 = lens.z_source
    lens.z_source = z
    r = s.image_position_from_source(x, y, kw, limit, **solver)
    lens.z_source = z0
    return r


def setup(W, n=2):
    import lenstronomy.PointSource.Types.base_ps as B

    lens = Lens(W, z=2.0)
    kw = [{"p": W.real("p0")}, {"p": W.real("p1")}]
    return lens, kw, swap(W, (B, "LensEquationSolver", Solved), both=True)


def ps_kwargs(W, i, typ, fixed, n):
    v = lambda q, lo=None: W.array("%s_%d" % (q, i), n, lo, None, (0.5, 2) if lo is not None else None)
    kw = {}
    if typ == "SOURCE_POSITION":
        kw["ra_source"], kw["dec_source"] = W.real("sx%d" % i), W.real("sy%d" % i)
    else:
        kw["ra_image"], kw["dec_image"] = v("rai"), v("deci")
    if fixed:
        kw["source_amp"] = W.real("sa%d" % i, 0, None, (0.5, 2))
    else:
        kw["point_amp"] = v("pa", 0)
    return kw


TYPES = [("UNLENSED", False, False), ("LENSED_POSITION", False, False), ("LENSED_POSITION", True, False),
         ("LENSED_POSITION", False, True), ("LENSED_POSITION", True, True), ("SOURCE_POSITION", False, False), ("SOURCE_POSITION", True, False)]
SET = {"search_window": 8, "x_center": 1}


def reference(W, lens, klens, kps, typ, fixed, add, z, kl, limit, solver):
    """positions, amplitudes, source position and source amplitude of one point source as documented"""
    if typ == "UNLENSED":
        return kps["ra_image"], kps["dec_image"], kps["point_amp"], (kps["ra_image"], kps["dec_image"]), kps["point_amp"]
    if typ == "SOURCE_POSITION":
        sx, sy = kps["ra_source"], kps["dec_source"]
    else:
        x, y = kps["ra_image"], kps["dec_image"]
        b = [[lens.f(c, x[j], y[j], klens, None if kl is None else kl[j], z) for j in range(len(x))] for c in ("bx", "by")]
        sx, sy = sum(b[0]) / len(x), sum(b[1]) / len(x)
    if typ == "SOURCE_POSITION" or add:
        x, y = images(W, lens, sx, sy, klens, z, limit, solver)
    mu = [lens.f("mu", x[j], y[j], klens, None if kl is None else kl[j], z) for j in range(len(x))]
    pert = kps.get("mag_pert", [1] * len(x))
    if fixed:
        amp = [kps["source_amp"] * abs(m) * q for m, q in zip(mu, pert)]
        samp = kps["source_amp"]
    else:
        amp = [kps["point_amp"][j] * pert[j] if j < len(kps["point_amp"]) else 0 for j in range(len(x))]
        samp = sum(kps["point_amp"][j] / abs(mu[j]) for j in range(len(x))) / len(x) if not add else None
    return x, y, amp, (sx, sy), samp


def keep(W, label, d):
    """the values of a (nested) argument, to compare later"""
    return [{k: (list(v) if isinstance(v, (np.ndarray, list)) else v) for k, v in q.items()} for q in d]


def unchanged(W, label, now, before):
    for a, b in zip(now, before):
        W.same(label, sorted(a), sorted(b))
        for k in b:
            if isinstance(b[k], list):
                W.eq(label, list(a[k]), b[k])
            else:
                W.eq(label, a[k], b[k])


def _book(W, pair):
    from lenstronomy.PointSource.point_source import PointSource

    lens, klens, sw = setup(W)
    limit = W.choice("limit", [None, 1.5])
    zs = W.choice("z", [[None, None], [1.0, None], [1.0, 3.0]])
    cache = W.choice("cache", [False, True])
    frames = W.choice("frames", [False, True]) if all(t[0] == "LENSED_POSITION" and not t[2] for t in pair) else False
    pert = W.choice("mag_pert", [False, True]) if any(t[0] == "SOURCE_POSITION" for t in pair) else False
    n = [3 if not (limit and (t[2] or t[0] == "SOURCE_POSITION")) else 2 for t in pair]
    kps = [ps_kwargs(W, i, t[0], t[1], n[i]) for i, t in enumerate(pair)]
    for i, t in enumerate(pair):
        if pert and t[0] == "SOURCE_POSITION":
            kps[i]["mag_pert"] = [W.real("mp%d_%d" % (i, j), 0, None, (0.5, 2)) for j in range(n[i])]
    index = [[0], [1], [0, 1]]
    fr = [[0, 2, 1], [1, 0, 2]]
    solver = dict(SET)
    with sw:
        P = PointSource([t[0] for t in pair], lens_model=lens, fixed_magnification_list=[t[1] for t in pair], additional_images_list=[t[2] for t in pair],
                        magnification_limit=limit, save_cache=cache, kwargs_lens_eqn_solver=solver, redshift_list=zs,
                        index_lens_model_list=index if frames else None, point_source_frame_list=fr if frames else None)
        before = keep(W, "", kps)
        ref = [reference(W, lens, klens, kps[i], *pair[i], zs[i] or 2.0, [index[f] for f in fr[i]] if frames else None, limit, SET) for i in range(2)]
        for r in ref:
            for a in r[2]:
                W.assume(a > 0) if W.sym else None
        for rep in ("", " again"):
            x, y = P.image_position(kps, klens)
            W.same("one set of images per source" + rep, len(x), 2)
            sx, sy = P.source_position(kps, klens)
            amp = P.image_amplitude(kps, klens)
            sa = P.source_amplitude(kps, klens) if all(r[4] is not None for r in ref) else None
            for i in range(2):
                W.eq("image positions x" + rep, list(x[i]), list(ref[i][0]))
                W.eq("image positions y" + rep, list(y[i]), list(ref[i][1]))
                W.eq("source position x" + rep, sx[i], ref[i][3][0])
                W.eq("source position y" + rep, sy[i], ref[i][3][1])
                W.same("as many amplitudes as images" + rep, len(amp[i]), len(x[i]))
                W.eq("image amplitudes" + rep, list(amp[i]), list(ref[i][2]))
                if sa is not None:
                    W.eq("source amplitude" + rep, sa[i], ref[i][4])
            unchanged(W, "parameters are not modified" + rep, kps, before)
            W.same("lens model is left at its source redshift" + rep, lens.z_source, 2.0)
        # every list-based view
        for k in (None, 0, 1):
            idx = [0, 1] if k is None else [k]
            for w in (True, False):
                ra, dec, am = P.point_source_list(kps, klens, k=k, with_amp=w)
                W.eq("flat list of positions x", list(ra), [v for i in idx for v in ref[i][0]])
                W.eq("flat list of positions y", list(dec), [v for i in idx for v in ref[i][1]])
                W.eq("flat list of amplitudes", list(am), [v for i in idx for v in ref[i][2]] if w else [1.0] * len(ra))
        nb = P.num_basis(kps, klens)
        ra, dec, resp, num = P.linear_response_set(kps, klens, with_amp=False)
        par = P.linear_param_from_kwargs(kps)
        W.same("number of linear parameters", [nb, num, len(ra)], [len(par)] * 3)
        W.eq("linear response positions", [v for q in ra for v in q], [v for i in (0, 1) for v in ref[i][0]])
        W.eq("linear response positions y", [v for q in dec for v in q], [v for i in (0, 1) for v in ref[i][1]])
        W.eq("linear parameters times the response are the image amplitudes", [par[b] * v for b in range(num) for v in resp[b]], [v for i in (0, 1) for v in ref[i][2]])
        ra, dec, resp, num = P.linear_response_set(kps, klens, with_amp=True)
        W.eq("response with amplitudes", [v for q in resp for v in q], [v for i in (0, 1) for v in ref[i][2]])
        unchanged(W, "parameters are not modified by the response", kps, before)
        new = [W.real("new%d" % j) for j in range(num)]
        k2, i2 = P.update_linear([0] + list(new), 1, copy.copy([dict(q) for q in kps]), klens)
        W.same("parameters consumed", i2, 1 + num)
        W.eq("update_linear inverts linear_param_from_kwargs", list(P.linear_param_from_kwargs(k2)), list(new))
        W.same("solver settings are not modified", solver, SET)
        for z, lim, sol in lens.log:
            W.same("solver settings reach the solver", sol, SET)
            W.same("magnification limit reaches the solver", lim, limit)


def _reg():
    name = lambda t: t[0] + (" fixed" if t[1] else "") + (" additional" if t[2] else "")
    fns = [PS + "PointSource.__init__"] + [PS + "PointSource." + m for m in ("source_position", "image_position", "point_source_list", "num_basis", "image_amplitude", "source_amplitude", "linear_response_set", "update_linear", "linear_param_from_kwargs")] + [PC + m for m in ("image_position", "source_position", "image_amplitude", "source_amplitude", "delete_lens_model_cache", "set_save_cache")]
    for i, a in enumerate(TYPES):
        for j in (i, (i + 1) % len(TYPES), (i + 3) % len(TYPES)):
            b = TYPES[j]
            files = sorted({TY + dict(UNLENSED="unlensed.py::Unlensed.", LENSED_POSITION="lensed_position.py::LensedPositions.", SOURCE_POSITION="source_position.py::SourcePositions.")[t[0]] + m
                            for t in (a, b) for m in ("image_position", "source_position", "image_amplitude", "source_amplitude")})

            def body(W, pair=(a, b)):
                _book(W, pair)
            contract("C19", "bookkeeping %s + %s" % (name(a), name(b)), fns + files, samples=2, bounded="two sources, at most three images each", timeout=120,
                     assumes=["lens model: arbitrary functions per redshift and component subset", "lens-equation solver: arbitrary images (its own contract below)"])(body)


_reg()


@contract("C19", "flux switched off", [PS + "PointSource.image_amplitude", PS + "PointSource.source_amplitude", PS + "PointSource.num_basis", PS + "PointSource.linear_response_set", PS + "PointSource.update_linear",
                                       PS + "PointSource.linear_param_from_kwargs", PS + "PointSource.point_source_list", PS + "PointSource.set_amplitudes", PS + "PointSource.check_positive_flux"], samples=4, bounded="two sources with two images")
def _noflux(W):
    from lenstronomy.PointSource.point_source import PointSource

    lens, klens, sw = setup(W)
    t = [("LENSED_POSITION", W.choice("fixed", [False, True]), False), ("UNLENSED", False, False)]
    on = W.choice("on", [[True, False], [False, True], [False, False]])
    kps = [ps_kwargs(W, i, t[i][0], t[i][1], 2) for i in range(2)]
    ref = [reference(W, lens, klens, kps[i], *t[i], 2.0, None, None, {}) for i in range(2)]
    if W.sym:
        for r in ref:
            for a in r[2]:
                W.assume(a > 0)
    with sw:
        P = PointSource([q[0] for q in t], lens_model=lens, fixed_magnification_list=[q[1] for q in t], flux_from_point_source_list=on)
        amp, sa = P.image_amplitude(kps, klens), P.source_amplitude(kps, klens)
        for i in range(2):
            W.eq("amplitudes are zero without flux", list(amp[i]), list(ref[i][2]) if on[i] else [0, 0])
            W.eq("source amplitude is zero without flux", sa[i], ref[i][4] if on[i] else np.zeros(np.shape(ref[i][4])))
        ra, dec, am = P.point_source_list(kps, klens)
        W.eq("only sources with flux are listed", list(ra), [v for i in range(2) if on[i] for v in ref[i][0]])
        W.eq("only sources with flux are listed (amplitudes)", list(am), [v for i in range(2) if on[i] for v in ref[i][2]])
        rr, dd, aa, n = P.linear_response_set(kps, klens)
        par = P.linear_param_from_kwargs(kps)
        W.same("number of linear parameters", [P.num_basis(kps, klens), n], [len(par)] * 2)
        W.eq("linear response of the sources with flux", [par[b] * v for b in range(n) for v in aa[b]], [v for i in range(2) if on[i] for v in ref[i][2]])
        new = [W.real("n%d" % j) for j in range(n)]
        k2, i2 = P.update_linear(new, 0, [dict(q) for q in kps], klens)
        W.eq("update_linear", list(P.linear_param_from_kwargs(k2)), list(new))
        for i in range(2):
            if not on[i]:
                key = "source_amp" if t[i][1] else "point_amp"
                W.eq("sources without flux keep their amplitudes", np.atleast_1d(k2[i][key]), np.atleast_1d(kps[i][key]))
        amps = [W.real("a0") if t[0][1] else W.array("a0", 2), W.array("a1", 2)]
        before = keep(W, "", kps)
        k3 = P.set_amplitudes(amps, kps)
        for i in range(2):
            key = "source_amp" if t[i][1] else "point_amp"
            W.eq("set_amplitudes sets the amplitudes of sources with flux", np.atleast_1d(k3[i][key]), np.atleast_1d(amps[i] if on[i] else kps[i][key]))
        unchanged(W, "set_amplitudes leaves its input", kps, before)


@contract("C19", "positive flux", [PS + "PointSource.check_positive_flux"], samples=8, bounded="two sources with two images")
def _posflux(W):
    from lenstronomy.PointSource.point_source import PointSource

    v = [W.real("a%d" % i) for i in range(4)]
    kw = [{"point_amp": W._arr1(v[:2])}, {"source_amp": v[2]}, {"ra_image": W._arr1(v[:2])}]
    r = PointSource.check_positive_flux(kw)
    W.same("positive flux is reported exactly when every amplitude is non-negative", bool(r), bool(v[0] >= 0) and bool(v[1] >= 0) and bool(v[2] >= 0))


@contract("C19", "check of image positions", [PS + "PointSource.check_image_positions", PS + "PointSource.k_list"], samples=8, bounded="two sources with two images")
def _check(W):
    from lenstronomy.PointSource.point_source import PointSource

    lens, klens, sw = setup(W)
    t = W.choice("types", [["LENSED_POSITION", "LENSED_POSITION"], ["UNLENSED", "LENSED_POSITION"]])
    zs = W.choice("z", [[None, None], [1.0, None], [1.0, 3.0]])
    frames = W.choice("frames", [False, True])
    index, fr = [[0], [1]], [[0, 1], [1, 0]]
    kps = [ps_kwargs(W, i, t[i], False, 2) for i in range(2)]
    tol = W.real("tol", 0, None, (0.3, 2))
    with sw:
        P = PointSource(t, lens_model=lens, redshift_list=zs, index_lens_model_list=index if frames else None, point_source_frame_list=fr if frames else None)
        got = P.check_image_positions(kps, klens, tolerance=tol)
        ok = True
        for i in range(2):
            if t[i] == "UNLENSED":
                continue
            b = [[lens.f(c, kps[i]["ra_image"][j], kps[i]["dec_image"][j], klens, index[fr[i][j]] if frames else None, zs[i] or 2.0) for j in range(2)] for c in ("bx", "by")]
            d = W.sqrt((b[0][1] - b[0][0]) ** 2 + (b[1][1] - b[1][0]) ** 2)
            ok = ok and not bool(d > tol)
        W.same("images pass exactly when all of each source map back within the tolerance", bool(got), ok)
        W.same("lens model is left at its source redshift", lens.z_source, 2.0)


@contract("C19", "original order of images", [PS + "_sort_position_by_original", PS + "PointSource.image_position"], samples=8, max_paths=400, timeout=120, bounded="two original and three solved images")
def _orig(W):
    from lenstronomy.PointSource import point_source as M

    xo, yo = W.array("xo", 2), W.array("yo", 2)
    n = W.choice("n", [1, 2, 3])
    xs, ys = W.array("xs", n), W.array("ys", n)
    x, y = M._sort_position_by_original(xo, yo, xs, ys)
    if n == 1:
        W.eq("too few solutions: the original images", list(x), list(xo))
        W.eq("too few solutions: the original images y", list(y), list(yo))
        return
    W.same("no image is lost", [len(x), len(y)], [n, n])
    rest = list(range(n))
    for i in range(2):  # greedy reference
        best = rest[0]
        for j in rest[1:]:
            if bool((xo[i] - xs[j]) ** 2 + (yo[i] - ys[j]) ** 2 < (xo[i] - xs[best]) ** 2 + (yo[i] - ys[best]) ** 2):
                best = j
        W.eq("the closest remaining solution", x[i], xs[best])
        W.eq("the closest remaining solution y", y[i], ys[best])
        rest.remove(best)
    W.eq("the remaining solutions follow", list(x[2:]), [xs[j] for j in rest])
    W.eq("the remaining solutions follow y", list(y[2:]), [ys[j] for j in rest])


@contract("C19", "fewer amplitudes than images", [PS + "PointSource.image_amplitude", PS + "PointSource.point_source_list", PC + "image_amplitude", TY + "source_position.py::SourcePositions.image_amplitude", TY + "lensed_position.py::LensedPositions.image_amplitude", TY + "base_ps.py::_expand_to_array"], samples=6, bounded="one source with three images")
def _fewer(W):
    from lenstronomy.PointSource.point_source import PointSource

    lens, klens, sw = setup(W)
    typ = W.choice("type", ["SOURCE_POSITION", "LENSED_POSITION"])
    n = W.choice("n", [1, 2, 3])
    kw = ps_kwargs(W, 0, typ, False, n)
    with sw:
        P = PointSource([typ], lens_model=lens, additional_images_list=[True])
        x, y = P.image_position([kw], klens)
        amp = P.image_amplitude([kw], klens)
        W.same("one amplitude per image", [len(x[0]), len(amp[0])], [3, 3])
        W.eq("the images without amplitude are dark", list(amp[0]), list(kw["point_amp"]) + [0] * (3 - n))
        ra, dec, a = P.point_source_list([kw], klens)
        W.eq("each bright image keeps its place", list(ra) + list(dec) + list(a), list(x[0][:n]) + list(y[0][:n]) + list(kw["point_amp"]))


@contract("C19", "images in the original order", [PS + "PointSource.image_position", PC + "image_position", PS + "_sort_position_by_original"], samples=8, max_paths=400, timeout=120, bounded="two models, two original and three solved images")
def _orig2(W):
    from lenstronomy.PointSource import point_source as M

    lens, klens, sw = setup(W)
    t = ["LENSED_POSITION", W.choice("other", ["SOURCE_POSITION", "LENSED_POSITION"])]
    add, orig = W.choice("additional", [False, True]), W.choice("original", [False, True])
    kps = [ps_kwargs(W, i, t[i], False, 3 if t[i] == "SOURCE_POSITION" else 2) for i in range(2)]
    log = []

    def srt(x_o, y_o, x_solved, y_solved):
        log.append((list(x_o), list(y_o), list(x_solved), list(y_solved)))
        return list(x_solved)[::-1], list(y_solved)[::-1]
    with sw, swap(W, (M, "_sort_position_by_original", srt), both=True):
        P = M.PointSource(t, lens_model=lens)
        x, y = P.image_position(kps, klens, original_position=orig, additional_images=add)
        for i in range(2):
            r = reference(W, lens, klens, kps[i], t[i], False, add, 2.0, None, None, {})
            xr, yr = list(r[0]), list(r[1])
            if add and orig and t[i] == "LENSED_POSITION":
                W.same("the solutions are compared with the given positions", len(log) > 0, True)
                if log:
                    q = log.pop(0)
                    W.eq("given positions", q[0] + q[1], list(kps[i]["ra_image"]) + list(kps[i]["dec_image"]))
                    W.eq("solutions", q[2] + q[3], xr + yr)
                xr, yr = xr[::-1], yr[::-1]
            W.same("number of images", len(x[i]), len(xr))
            W.eq("images", list(x[i]) + list(y[i]), xr + yr)
        W.same("only then", log, [])


@contract("C19", "search window", [PS + "PointSource.update_search_window", PS + "PointSource.image_position", PS + "PointSource.__init__", PC + "image_position"], samples=4, bounded="one source")
def _window(W):
    from lenstronomy.PointSource.point_source import PointSource

    lens, klens, sw = setup(W)
    given = W.choice("given", [{}, {"search_window": 4}, {"search_window": 4, "min_distance": 0.5}, {"x_center": 1, "y_center": 2}])
    only = W.choice("only", [True, False])
    md = W.choice("min_distance", [None, 0.25])
    kps = [ps_kwargs(W, 0, "SOURCE_POSITION", False, 3)]
    with sw:
        arg = dict(given)
        P, Q = [PointSource(["SOURCE_POSITION"], lens_model=lens, kwargs_lens_eqn_solver=arg) for _ in range(2)]
        P.update_search_window(8, 3, 4, min_distance=md, only_from_unspecified=only)
        Q.update_search_window(16, 5, 6, only_from_unspecified=True)
        W.same("arguments are not modified", arg, given)
        lens.log.clear()
        P.image_position(kps, klens)
        want = dict(search_window=8, x_center=3, y_center=4)
        want = {**given, **want} if not only else {**want, **given}
        if md is not None and only:
            want.setdefault("min_distance", md)
        W.same("search window in use", lens.log[-1][2], want)
        P.image_position(kps, klens, width_search_factor=2)
        W.same("wider search window", lens.log[-1][2], dict(want, search_window=2 * want["search_window"]))
        P.image_position(kps, klens)
        W.same("search window in use afterwards", lens.log[-1][2], want)
        Q.image_position(kps, klens)
        W.same("search window of the other class", lens.log[-1][2], {**dict(search_window=16, x_center=5, y_center=6), **given})


@contract("C19", "lens model update", [PS + "PointSource.update_lens_model", PS + "PointSource.set_save_cache", PS + "PointSource.delete_lens_model_cache", PC + "update_lens_model", TY + "base_ps.py::PSBase.update_lens_model"], samples=4, bounded="two sources")
def _update(W):
    from lenstronomy.PointSource.point_source import PointSource

    lens, klens, sw = setup(W)
    other = Lens(W, z=2.0, tag="other")
    t = [W.choice("a", TYPES[1:]), W.choice("b", TYPES[1:])]
    kps = [ps_kwargs(W, i, t[i][0], t[i][1], 3) for i in range(2)]
    new = [ps_kwargs(W, i + 2, t[i][0], t[i][1], 3) for i in range(2)]
    with sw:
        P = PointSource([q[0] for q in t], lens_model=lens, fixed_magnification_list=[q[1] for q in t], additional_images_list=[q[2] for q in t])
        P.set_save_cache(True)
        P.image_position(kps, klens), P.source_position(kps, klens), P.image_amplitude(kps, klens)
        P.update_lens_model(other)
        k = kps
        if W.choice("then", ["lens", "parameters", "switch off"]) != "lens":
            k = new
            if W.choice("how", ["delete", "off"]) == "delete":
                P.delete_lens_model_cache()
            else:
                P.set_save_cache(False)
        x, y = P.image_position(k, klens)
        sx, sy = P.source_position(k, klens)
        amp = P.image_amplitude(k, klens)
        for i in range(2):
            r = reference(W, other, klens, k[i], *t[i], 2.0, None, None, {})
            W.eq("images under the new lens model", list(x[i]) + list(y[i]), list(r[0]) + list(r[1]))
            W.eq("source under the new lens model", [sx[i], sy[i]], list(r[3]))
            W.eq("amplitudes under the new lens model", list(amp[i]), list(r[2]))


@contract("C19", "array helpers", [TY + "base_ps.py::_expand_to_array", TY + "base_ps.py::_shrink_array"], samples=4, bounded="three elements")
def _arr(W):
    from lenstronomy.PointSource.Types import base_ps as B

    a = W.array("a", 3)
    s = W.real("s")
    W.eq("expanded with zeros", list(B._expand_to_array(a, 5)), list(a) + [0, 0])
    W.eq("long enough", list(B._expand_to_array(a, 2)), list(a))
    W.eq("shrunk", list(B._shrink_array(a, 2)), list(a[:2]))
    W.eq("same length", list(B._shrink_array(a, 3)), list(a))
    W.raises("too short", lambda: B._shrink_array(a, 4), ValueError)
    if not W.sym:
        W.eq("scalar is repeated", list(B._expand_to_array(float(s), 3)), [s] * 3)


# ------------------------------------------------------------------ lens equation solver

def dist(W, L, x, y, sx, sy, kw):
    bx, by = L.f("bx", x, y, kw), L.f("by", x, y, kw)
    return W.sqrt((bx - sx) ** 2 + (by - sy) ** 2)


def rand(W):
    """any draw"""
    n = [0]

    def normal(loc=0, scale=1, size=None):
        n[0] += 1
        return W.real("draw%d" % n[0], None, None, (-0.2, 0.2))

    def uniform(low=0, high=1, size=None):
        if size is None:
            n[0] += 1
            u = W.real("u%d" % n[0], 0, 1)
            return low + (high - low) * u
        out = []
        for _ in range(size):
            n[0] += 1
            out.append(low + (high - low) * W.real("u%d" % n[0], 0, 1))
        return W._arr1(out)
    return types.SimpleNamespace(normal=normal, uniform=uniform)


class np_with:
    """the numpy of a module with some names replaced"""

    def __init__(self, np_, **kw):
        self.__dict__.update(kw)
        self._np = np_

    def __getattr__(self, n):
        return getattr(self._np, n)


@contract("C19", "gradient step", [LS + "_gradient_step"], samples=8, bounded="at most three recursions")
def _gstep(W):
    import lenstronomy.LensModel.Solver.lens_equation_solver as M

    L, kw = Lens(W), [{"p": W.real("p0")}]
    x, y, sx, sy = W.reals("x y sx sy")
    v = W.array("v", 2)
    it, mx = 0, W.choice("max", [0, 1, 2])
    d0 = dist(W, L, x, y, sx, sy, kw)
    with swap(W, (M, "np", np_with(M.np, random=rand(W))), both=True):
        a, b, d, n = M.LensEquationSolver(L)._gradient_step(x, y, sx, sy, d0, v, kw, it, mx)
    W.eq("reported distance is the distance of the reported position", d, dist(W, L, a, b, sx, sy, kw))
    W.le("a step never moves away from the source", d, d0)
    W.true("iterations are counted", n >= 1)


@contract("C19", "single candidate", [LS + "_solve_single_proposal", LS + "_root", LS + "_find_gradient_decent"], samples=8, timeout=120, bounded="two candidates, at most two iterations; a gradient step is any move satisfying its contract",
          assumes=["scipy minimize returns any position"])
def _single(W):
    import lenstronomy.LensModel.Solver.lens_equation_solver as M

    L, kw = Lens(W), [{"p": W.real("p0")}]
    sx, sy = W.reals("sx sy")
    xs, ys = W.array("x", 2), W.array("y", 2)
    prec, step = W.real("precision", 0, None, (0.1, 1)), W.real("step", 0, None, (0.1, 1))
    cnt = [0]

    def gstep(self, x, y, a, b, delta, vec, kw_, l, num):
        cnt[0] += 1
        n = cnt[0]
        X, Y = x - vec[0] * W.real("t%d" % n), y - vec[1] * W.real("s%d" % n)
        return X, Y, dist(W, L, X, Y, a, b, kw_), l + 1

    def mini(f, x0, args=(), tol=None, method=None):
        cnt[0] += 1
        return types.SimpleNamespace(x=W._arr1([W.real("mx%d" % cnt[0]), W.real("my%d" % cnt[0])]))
    nl = W.choice("non_linear", [False, True])
    with swap(W, (M.LensEquationSolver, "_gradient_step", gstep), (M, "minimize", mini), both=True):
        S = M.LensEquationSolver(L)
        X, Y, D = S._find_gradient_decent(xs, ys, sx, sy, kw, precision_limit=prec, num_iter_max=2, min_distance=step, non_linear=nl)
    W.same("one result per candidate", [len(X), len(Y), len(D)], [2, 2, 2])
    for i in range(2):
        W.eq("reported precision is the distance between the mapped position and the source", D[i], dist(W, L, X[i], Y[i], sx, sy, kw))


@contract("C19", "image positions", [LS + "image_position_lenstronomy", LS + "image_position_from_source", LS + "sort_arrival_times", "Util/image_util.py::findOverlap"], samples=6, timeout=300, max_paths=800,
          bounded="two candidates and one random start", assumes=["refinement of candidates: any positions with their true distance (contracts 'gradient step', 'single candidate')"])
def _solve(W):
    import lenstronomy.LensModel.Solver.lens_equation_solver as M

    L, kw = Lens(W), [{"p": W.real("p0")}]
    L.multi_plane = W.choice("multi_plane", [False, True])
    sx, sy = W.reals("sx sy")
    n = W.choice("candidates", [0, 1, 2])
    nr = W.choice("random", [0, 1]) if n < 2 else 0
    prec = W.real("precision", 0, None, (1, 4))
    md = W.const(0.125)
    limit = W.choice("limit", [None, 0.5])
    srt = W.choice("sort", [True, False])
    cut = W.choice("cut", [True, False])
    X, Y, C = W.array("X", n + nr), W.array("Y", n + nr), W.array("C", 2 * n) if n else []
    sent = []

    def cand(self, *a):
        return W._arr1(list(C[:n])), W._arr1(list(C[n:])), W._arr1([W.real("d%d" % i, 0, None, (0.1, 1)) for i in range(n)]), md

    def ref(self, x, y, *a, **k):
        sent.append((list(x), list(y)))
        m = len(x)
        x, y = W._arr1(list(X[:m])), W._arr1(list(Y[:m]))
        return x, y, W._arr1([dist(W, L, x[i], y[i], sx, sy, kw) for i in range(m)])
    with swap(W, (M.LensEquationSolver, "candidate_solutions", cand), (M.LensEquationSolver, "_find_gradient_decent", ref), (M, "np", np_with(M.np, random=rand(W))), both=True):
        S = M.LensEquationSolver(L)
        x, y = S.image_position_from_source(sx, sy, kw, min_distance=md, precision_limit=prec, num_random=nr, arrival_time_sort=srt, magnification_limit=limit, initial_guess_cut=cut)
    W.same("lens model is dynamic again", L.static, 0)
    W.same("as many x as y", len(x), len(y))
    t = []
    for i in range(len(x)):
        W.le("every image maps back to the source within the precision limit", dist(W, L, x[i], y[i], sx, sy, kw), prec)
        if limit:
            W.le("every image is above the magnification limit", W.const(limit), abs(L.f("mu", x[i], y[i], kw)))
        t.append(L.f("arrival" if L.multi_plane else "fermat", x[i], y[i], kw))
        for j in range(i):
            W.true("no image twice", not (bool(abs(x[i] - x[j]) < md) and bool(abs(y[i] - y[j]) < md)))
    if srt:
        for i in range(1, len(t)):
            W.le("sorted by arrival time", t[i - 1], t[i])
    if not sent:
        return
    m = len(sent[0][0])
    if not cut:
        W.eq("all candidates are refined", sent[0][0][:n] + sent[0][1][:n], list(C))
    # nothing that qualifies is dropped
    for i in range(m):
        good = bool(dist(W, L, X[i], Y[i], sx, sy, kw) <= prec) and (not limit or bool(abs(L.f("mu", X[i], Y[i], kw)) >= W.const(limit)))
        if good and m == 1:
            W.eq("a qualifying candidate is reported", [x[0], y[0]] if len(x) else [], [X[i], Y[i]])
        if not good and m == 1:
            W.same("a candidate that does not qualify is not reported", len(x), 0)


@contract("C19", "stochastic solver", [LS + "image_position_stochastic", LS + "_root"], samples=6, timeout=120, bounded="two random starts", assumes=["scipy minimize returns any position"])
def _stoch(W):
    import lenstronomy.LensModel.Solver.lens_equation_solver as M

    L, kw = Lens(W), [{"p": W.real("p0")}]
    sx, sy = W.reals("sx sy")
    prec = W.real("precision", 0, None, (1, 4))
    cnt = [0]

    def mini(f, x0, args=(), tol=None, method=None):
        cnt[0] += 1
        return types.SimpleNamespace(x=W._arr1([W.real("mx%d" % cnt[0]), W.real("my%d" % cnt[0])]))
    with swap(W, (M, "minimize", mini), (M, "np", np_with(M.np, random=rand(W))), both=True):
        x, y = M.LensEquationSolver(L).image_position_from_source(sx, sy, kw, solver="stochastic", precision_limit=prec, num_random=2)
    W.same("lens model is dynamic again", L.static, 0)
    t = []
    for i in range(len(x)):
        W.le("every image maps back to the source within the precision limit", dist(W, L, x[i], y[i], sx, sy, kw), prec)
        t.append(L.f("fermat", x[i], y[i], kw))
        if i:
            W.le("sorted by arrival time", t[i - 1], t[i])


@contract("C19", "sorting by arrival time", [LS + "sort_arrival_times"], samples=6, bounded="three images")
def _sort(W):
    import lenstronomy.LensModel.Solver.lens_equation_solver as M

    L, kw = Lens(W), [{"p": W.real("p0")}]
    L.multi_plane = W.choice("multi_plane", [False, True])
    x, y = W.array("x", 3), W.array("y", 3)
    t = [L.f("arrival" if L.multi_plane else "fermat", x[i], y[i], kw) for i in range(3)]
    W.assume(t[0] != t[1]) if W.sym else None
    W.assume(t[0] != t[2]) if W.sym else None
    W.assume(t[1] != t[2]) if W.sym else None
    a, b = M.LensEquationSolver(L).sort_arrival_times(x, y, kw)
    order = [sum(1 for j in range(3) if j != i and bool(t[j] < t[i])) for i in range(3)]
    for i in range(3):
        W.eq("images in the order of their arrival", [a[order[i]], b[order[i]]], [x[i], y[i]])


@contract("C19", "brightest images", [LS + "find_bright_image", "Util/util.py::selectBest"], samples=6, bounded="three images", timeout=120)
def _bright(W):
    import lenstronomy.LensModel.Solver.lens_equation_solver as M

    L, kw = Lens(W), [{"p": W.real("p0")}]
    n, num = W.choice("n", [1, 2, 3]), W.choice("num", [1, 2])
    X, Y = W.array("x", n), W.array("y", n)
    mu = [abs(L.f("mu", X[i], Y[i], kw)) for i in range(n)]
    if W.sym:
        for i in range(n):
            for j in range(i):
                W.assume(mu[i] != mu[j])
    with swap(W, (M.LensEquationSolver, "image_position_from_source", lambda self, *a, **k: (W._arr1(list(X)), W._arr1(list(Y)))), both=True):
        x, y = M.LensEquationSolver(L).find_bright_image(W.real("sx"), W.real("sy"), kw, numImages=num, arrival_time_sort=False)
    m = min(n, num)
    W.same("number of images", [len(x), len(y)], [m, m])
    rank = [sum(1 for j in range(n) if j != i and bool(mu[j] > mu[i])) for i in range(n)]
    if n >= num:
        for i in range(n):
            if rank[i] < m:
                W.eq("brightest first", [x[rank[i]], y[rank[i]]], [X[i], Y[i]])
    else:
        W.eq("all images", list(x) + list(y), list(X) + list(Y))


@contract("C19", "selection", ["Util/util.py::selectBest"], samples=6, bounded="three elements")
def _sel(W):
    from lenstronomy.Util import util as U

    a, c = W.array("a", 3), W.array("c", 3)
    if W.sym:
        W.assume(c[0] != c[1]), W.assume(c[0] != c[2]), W.assume(c[1] != c[2])
    num, high = W.choice("num", [1, 2, 3]), W.choice("highest", [True, False])
    r = U.selectBest(a, c, num, highest=high)
    W.same("number selected", len(r), num)
    for i in range(3):
        above = sum(1 for j in range(3) if j != i and bool(c[j] > c[i]))
        if high and above < num:
            W.eq("the highest, in descending order", r[above], a[i])
        if not high and 2 - above < num:
            W.eq("the lowest, in descending order", r[num - 1 - (2 - above)], a[i])


@contract("C19", "overlapping solutions", ["Util/image_util.py::findOverlap", "Util/image_util.py::coord_in_image"], samples=8, max_paths=600, timeout=200, bounded="three positions")
def _overlap(W):
    from lenstronomy.Util import image_util as U

    x, y = W.array("x", 3), W.array("y", 3)
    d = W.real("d", 0, None, (0.3, 2))
    a, b = U.findOverlap(x, y, d)
    near = lambda i, j: bool(abs(x[i] - x[j]) < d) and bool(abs(y[i] - y[j]) < d)
    kept = [i for i in range(3) if not any(near(i, j) for j in range(i))]
    W.eq("exactly the positions without an earlier one close by", list(a) + list(b), [x[i] for i in kept] + [y[i] for i in kept])


@contract("C19", "coordinates inside the image", ["Util/image_util.py::coord_in_image"], samples=8, max_paths=600, timeout=200, bounded="two positions")
def _inside(W):
    from lenstronomy.Util import image_util as U

    x, y = W.array("x", 2), W.array("y", 2)
    dp = W.real("dp", 0, None, (0.3, 1))
    n = W.choice("n", [3, 4])
    a, b = U.coord_in_image(x, y, n, dp)
    h = dp * n / 2
    kept = [i for i in range(2) if not (bool(x[i] < -h) or bool(x[i] > h) or bool(y[i] < -h) or bool(y[i] > h))]
    W.eq("exactly the positions inside", list(a) + list(b), [x[i] for i in kept] + [y[i] for i in kept])


@contract("C19", "candidate regions", [LS + "candidate_solutions", "Util/util.py::local_minima_2d", "Util/util.py::displaceAbs"], samples=8, timeout=120, bounded="grid of three by three (thorough and float runs: up to 6 by 6)")
def _cand(W):
    import lenstronomy.LensModel.Solver.lens_equation_solver as M

    L, kw = Lens(W), [{"p": W.real("p0")}]
    sx, sy, cx, cy = W.reals("sx sy cx cy")
    n = 3 if W.sym else W.choice("n", [3, 4, 6])
    md = W.real("md", 0, None, (0.1, 0.5))
    x, y, d, w = M.LensEquationSolver(L).candidate_solutions(sx, sy, kw, md, md * n, False, cx, cy)
    W.eq("pixel width", w, md)
    g = [[(cx + (j - (n - 1) / 2) * md, cy + (i - (n - 1) / 2) * md) for j in range(n)] for i in range(n)]
    D = [[dist(W, L, *g[i][j], sx, sy, kw) for j in range(n)] for i in range(n)]
    want = []
    for i in range(1, n - 1):
        for j in range(1, n - 1):
            if all(bool(D[i][j] < D[i + a][j + b]) for a, b in ((0, -1), (0, 1), (-1, 0), (1, 0), (-1, 1), (-1, -1), (1, -1), (1, 1))):
                want.append((i, j))
    if n == 3:
        W.same("candidates are the local minima of the distance to the source", len(x), len(want))
    got = [(float(a), float(b)) for a, b in zip(x, y)] if not W.sym else None
    for q, (i, j) in enumerate(want):
        if W.sym:
            W.eq("candidate position", [x[q], y[q]], list(g[i][j]))
            W.eq("candidate distance", d[q], D[i][j])
        else:
            W.true("every local minimum is a candidate", any(abs(a - g[i][j][0]) < 1e-9 and abs(b - g[i][j][1]) < 1e-9 for a, b in got))


@contract("C19", "analytical solver scalings", [LS + "image_position_analytical"], samples=10, bounded=None, assumes=["the power-law deflection scales as theta_E^(gamma - 1) (checked in C03)", "solve_lenseq_pemd solves the lens equation it is given (contract 'power law with shear')"])
def _analytic(W):
    import lenstronomy.LensModel.Solver.lens_equation_solver as M

    main = W.choice("main", ["EPL", "SIE", "SIS"])
    shear = W.choice("shear", [True, False]) if main != "SIS" else True
    conv = W.choice("convergence", [True, False])
    names = [main] + (["SHEAR"] if shear else []) + (["CONVERGENCE"] if conv else [])
    s = W.real("alpha_scaling", 0, None, (0.5, 1.2))
    gam = W.const(2.25) if main == "EPL" else 2
    te, kap = W.real("theta_E", 0, None, (0.5, 1.5)), W.real("kappa", None, None, (-0.3, 0.3))
    if W.sym:
        W.assume(s * kap < 1)
    c = W.reals("cx cy g1 g2 r0 r1 k0 k1")
    kw = [dict(theta_E=te, center_x=c[0], center_y=c[1], **(dict(gamma=gam) if main == "EPL" else {}), **(dict(e1=W.real("e1"), e2=W.real("e2")) if main != "SIS" else {}))]
    if shear:
        kw.append(dict(gamma1=c[2], gamma2=c[3], ra_0=c[4], dec_0=c[5]))
    if conv:
        kw.append(dict(kappa=kap, ra_0=c[6], dec_0=c[7]))
    A = [W.uf("A" + q, 2) for q in "xy"]

    def beta(x, y, kws, scale):
        m = kws[0]["theta_E"] ** (gam - 1) * scale
        bx, by = x - m * A[0](x - kws[0]["center_x"], y - kws[0]["center_y"]), y - m * A[1](x - kws[0]["center_x"], y - kws[0]["center_y"])
        for q in kws[1:]:
            dx, dy = x - q["ra_0"], y - q["dec_0"]
            if "kappa" in q:
                bx, by = bx - scale * q["kappa"] * dx, by - scale * q["kappa"] * dy
            else:
                bx, by = bx - scale * (q["gamma1"] * dx + q["gamma2"] * dy), by - scale * (q["gamma2"] * dx - q["gamma1"] * dy)
        return bx, by
    X, Y = W.array("X", 2), W.array("Y", 2)
    sx, sy = W.reals("sx sy")
    rec = []

    def pemd(pos, kwargs, **k):
        rec.append((pos, copy.deepcopy(kwargs), k))
        return W._arr1(list(X)), W._arr1(list(Y))
    L = Lens(W)
    L.type, L.lens_model_list, L.lens_model = "SinglePlane", names, types.SimpleNamespace(alpha_scaling=s)
    L.f = lambda name, x, y, kws, k=None, z=None: W._arr1([W.uf(name, 2)(a, b) for a, b in zip(x, y)])
    before = keep(W, "", kw)
    limit, srt = (W.choice("limit", [None, 0.5]), W.choice("sort", [True, False])) if main == "SIS" and not conv else (None, False)
    with swap(W, (M, "solve_lenseq_pemd", pemd), both=True):
        x, y = M.LensEquationSolver(L).image_position_from_source(sx, sy, kw, solver="analytical", magnification_limit=limit, arrival_time_sort=srt, Nmeas=123)
    (px, py), kr, opt = rec[0]
    lam = 1 - s * kap if conv else 1
    tx, ty = W.reals("tx ty")
    f, r = beta(tx, ty, kw, s), beta(tx, ty, kr, 1)
    W.eq("the equation solved is the lens equation (x)", lam * (r[0] - px), f[0] - sx)
    W.eq("the equation solved is the lens equation (y)", lam * (r[1] - py), f[1] - sy)
    W.same("shape parameters are passed on", [kr[0].get("gamma", 2), len(kr)], [gam, 1 + shear])
    if main != "SIS":
        W.eq("ellipticity is passed on", [kr[0]["e1"], kr[0]["e2"]], [kw[0]["e1"], kw[0]["e2"]])
    W.same("solver options are passed on", opt, {"Nmeas": 123})
    unchanged(W, "lens parameters are not modified", kw, before)
    good = [i for i in range(2) if not limit or bool(abs(W.uf("mu", 2)(X[i], Y[i])) >= limit)]
    if srt and bool(W.uf("fermat", 2)(X[1], Y[1]) < W.uf("fermat", 2)(X[0], Y[0])):
        good = good[::-1]
    W.eq("all images above the magnification limit, sorted", list(x) + list(y), [X[i] for i in good] + [Y[i] for i in good])


@contract("C19", "analytical solver support", ["LensModel/Solver/lens_equation_solver.py::analytical_lens_model_support", LS + "image_position_analytical", LS + "image_position_from_source"], samples=2)
def _support(W):
    import lenstronomy.LensModel.Solver.lens_equation_solver as M

    for ml, ok in ((["SIE", "SHEAR"], True), (["SIE", "SHEAR", "CONVERGENCE"], True), (["SIE", "CONVERGENCE"], True), (["SIE", "SIE"], False), (["SHEAR", "SIE"], False), (["SIS"], False), (["NFW"], False)):
        c = list(ml)
        W.same("supported lens models", M.analytical_lens_model_support(c), ok)
        W.same("the list is left alone", c, ml)
    L = Lens(W)
    L.type, L.lens_model_list, L.lens_model = "SinglePlane", ["NFW"], types.SimpleNamespace(alpha_scaling=1)
    S = M.LensEquationSolver(L)
    W.raises("unsupported models are refused", lambda: S.image_position_from_source(0.1, 0.2, [{"Rs": 1}], solver="analytical"), ValueError)
    L.lens_model_list, L.type = ["SIE"], "MultiPlane"
    W.raises("multi-plane models are refused", lambda: S.image_position_from_source(0.1, 0.2, [{"theta_E": 1.0}], solver="analytical"), ValueError)
    W.raises("unknown solvers are refused", lambda: S.image_position_from_source(0.1, 0.2, [{"theta_E": 1.0}], solver="other"), ValueError)


# ------------------------------------------------------------------ real lenses (bounded, numerical)

def _real_lens(W):
    from lenstronomy.LensModel.lens_model import LensModel

    names = ["EPL", "SHEAR", "CONVERGENCE"]
    e = [W.real(q, -0.25, 0.25) for q in ("e1", "e2")]
    g = [W.real(q, -0.1, 0.1) for q in ("g1", "g2")]
    c = [W.real(q, -0.3, 0.3) for q in ("cx", "cy", "r0", "r1", "k0", "k1")]
    kw = [dict(theta_E=W.real("theta_E", 0.7, 1.4), gamma=W.real("gamma", 1.7, 2.3), e1=e[0], e2=e[1], center_x=c[0], center_y=c[1]),
          dict(gamma1=g[0], gamma2=g[1], ra_0=c[2], dec_0=c[3]), dict(kappa=W.real("kappa", -0.1, 0.1), ra_0=c[4], dec_0=c[5])]
    lm = LensModel(names, z_lens=0.5, z_source=1.5, z_source_convention=2.5)
    # a source close to the optical axis of the lens
    bx, by = lm.ray_shooting(np.array([c[0] + 1e-6]), np.array([c[1]]), kw)
    sc = [W.real("o%d" % i, -0.15, 0.15) for i in range(2)]
    s = lm.lens_model.alpha_scaling
    a0 = [s * (g[0] * (c[0] - c[2]) + g[1] * (c[1] - c[3])), s * (g[1] * (c[0] - c[2]) - g[0] * (c[1] - c[3]))]
    k0 = s * kw[2]["kappa"]
    src = [c[0] - a0[0] - k0 * (c[0] - c[4]) + sc[0], c[1] - a0[1] - k0 * (c[1] - c[5]) + sc[1]]
    return lm, kw, src


@contract("C19", "power law with shear", ["LensModel/Solver/epl_shear_solver.py::solve_lenseq_pemd", "LensModel/Solver/epl_shear_solver.py::solvelenseq_majoraxis", "LensModel/Solver/epl_shear_solver.py::_alpha_epl_shear", LS + "image_position_analytical", LS + "image_position_lenstronomy", LS + "candidate_solutions"],
          samples=12, sym=False, bounded="random power-law + shear + sheet lenses and sources (numerical)")
def _epl(W):
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver

    lm, kw, src = _real_lens(W)
    S = LensEquationSolver(lm)
    sets = []
    for solver, opt in (("analytical", {}), ("lenstronomy", dict(min_distance=0.02, search_window=6, x_center=kw[0]["center_x"], y_center=kw[0]["center_y"]))):
        x, y = S.image_position_from_source(*src, kw, solver=solver, **opt)
        out = np.hypot(x - kw[0]["center_x"], y - kw[0]["center_y"]) > 1e-5  # the numerical core of the profile
        x, y = x[out], y[out]
        bx, by = lm.ray_shooting(x, y, kw)
        W.eq("images map back to the source: " + solver, list(np.hypot(bx - src[0], by - src[1])), [0] * len(x), atol=1e-7)
        t = lm.fermat_potential(x, y, kw)
        W.true("sorted by arrival time: " + solver, bool(np.all(np.diff(t) >= -1e-9)))
        mu = np.abs(lm.magnification(x, y, kw))
        sets.append([(a, b) for a, b, m in zip(x, y, mu) if m > 0.05])
    # both find the images that are not strongly demagnified
    W.same("analytical and numerical solver find the same number of images", len(sets[0]), len(sets[1]))
    for a, b in sets[0]:
        W.true("analytical and numerical solver find the same images", any(np.hypot(a - p, b - q) < 1e-5 for p, q in sets[1]))


@contract("C19", "caustics of the power law with shear", ["LensModel/Solver/epl_shear_solver.py::caustics_epl_shear"], samples=8, sym=False, bounded="random power-law + shear lenses (numerical)")
def _caustic(W):
    from lenstronomy.LensModel.Solver.epl_shear_solver import caustics_epl_shear

    lm, kw, src = _real_lens(W)
    from lenstronomy.LensModel.lens_model import LensModel

    lm = LensModel(["EPL", "SHEAR"])
    kw = kw[:2]
    kw[1]["ra_0"], kw[1]["dec_0"] = kw[0]["center_x"], kw[0]["center_y"]
    x, y = caustics_epl_shear(kw, num_th=50, return_which="caustic", sourceplane=False)
    f = lm.hessian(x, y, kw)
    det = (1 - f[0]) * (1 - f[3]) - f[1] * f[2]
    W.eq("critical curve has infinite magnification", list(det), [0] * len(det), atol=1e-6)
    X, Y = caustics_epl_shear(kw, num_th=50, return_which="caustic")
    bx, by = lm.ray_shooting(x, y, kw)
    W.eq("caustic is the mapped critical curve", list(X) + list(Y), list(bx) + list(by), atol=1e-7)


# ------------------------------------------------------------------ constraint solvers

class Comp(Lens):
    """components with arbitrary deflections (single plane: they add; multi-plane: an arbitrary map of all parameters)"""

    def __init__(self, W, names, multi):
        super().__init__(W)
        self.lens_model_list, self.multi_plane = names, multi

    def params(self, q):
        return [v for k in sorted(q) for v in (q[k] if isinstance(q[k], (list, tuple, np.ndarray)) else [q[k]])]

    def alpha(self, x, y, kw, k=None):
        out = []
        for c in ("ax", "ay"):
            t = []
            for a, b in zip(x, y):
                if self.multi_plane:
                    p = [v for q in kw for v in self.params(q)]
                    t.append(self.W.uf(c + "multi", 2 + len(p))(a, b, *p))
                else:
                    t.append(sum(self.W.uf("%s%d" % (c, i), 2 + len(self.params(kw[i])))(a, b, *self.params(kw[i])) for i in range(len(kw)) if k is None or i == k))
            out.append(self.W._arr1(t))
        return out

    def ray_shooting(self, x, y, kw, k=None):
        ax, ay = self.alpha(x, y, kw, k)
        return x - ax, y - ay


E_PAR = ["theta_E", "e1", "e2", "center_x", "center_y"]
MAIN4 = {n: E_PAR + ["gamma"] for n in ("SPEP", "SPEMD", "PEMD", "EPL", "EPL_BOXYDISKY", "EPL_BOXYDISKY_ELL", "EPL_MULTIPOLE_M3M4", "EPL_MULTIPOLE_M1M3M4", "EPL_MULTIPOLE_M3M4_ELL", "EPL_MULTIPOLE_M1M3M4_ELL")}
MAIN4.update({n: ["alpha_Rs", "e1", "e2", "center_x", "center_y", "Rs"] for n in ("NFW_ELLIPSE_POTENTIAL", "NFW_ELLIPSE_CSE", "CNFW_ELLIPSE_POTENTIAL")})
MAIN4.update({"SIE": E_PAR, "NIE": E_PAR + ["s_scale"], "BPL": ["b", "e1", "e2", "center_x", "center_y", "a"], "SHAPELETS_CART": ["beta", "coeffs"]})


def comp_kwargs(W, i, names):
    pos = ("theta_E", "alpha_Rs", "b")
    return {p: (W.array("%s_%d" % (p, i), 8) if p == "coeffs" else W.real("%s_%d" % (p, i), 0 if p in pos else None, None, (0.5, 1.5) if p in pos else (-0.3, 0.3))) for p in names}


def flat(q):
    return [v for k in sorted(q) for v in (list(q[k]) if isinstance(q[k], (list, np.ndarray)) else [q[k]])]


def root(W, n, rec):
    """an arbitrary result of the root finder"""
    def fsolve(F, init, args=(), xtol=None):
        X = [init[i] + W.real("x%d" % i, None, None, (0, 0.3)) for i in range(n)]
        rec.append((list(init), X, F(W._arr1([v + 1 for v in X]), *args)))  # the root finder evaluates elsewhere first
        return W._arr1(X)
    return fsolve


def solver_body(W, cls, num, solver_type, names, kw, solved, multi, shear=None):
    import lenstronomy.LensModel.Solver.solver2point as M2
    import lenstronomy.LensModel.Solver.solver4point as M4
    from lenstronomy.LensModel.Solver.solver import Solver

    L = Comp(W, names, multi)
    x, y = W.array("px", num), W.array("py", num)
    rec = []
    before = [dict(q) for q in kw]
    mod = M2 if num == 2 else M4
    fs = types.SimpleNamespace(optimize=types.SimpleNamespace(fsolve=root(W, 2 if num == 2 else 6, rec)))
    with swap(W, (mod, "scipy", fs), both=True):
        S = Solver(solver_type, L, num)
        out, acc = S.constraint_lensmodel(x, y, kw)
        rec1 = rec[0]
        res = S.update_solver(kw, x, y)
    W.same("one dictionary per lens component", len(out), len(kw))
    for i in range(len(kw)):
        W.eq("parameters passed in are not modified", flat(kw[i]), flat(before[i]))
        W.same("same parameters", sorted(out[i]), sorted(kw[i]))
    bx, by = L.ray_shooting(x, y, out)
    chi = sum((bx[0] - bx[i]) ** 2 + (by[0] - by[i]) ** 2 for i in range(1, num))
    W.eq("reported accuracy is the squared distance between the mapped images", acc, chi)
    init, X = rec1[0], rec1[1]
    j = 0
    for i, p in solved:
        W.eq("the root finder starts from the current parameter " + p, init[j], kw[i]["coeffs"][int(p[1:])] if p[0] == "@" else kw[i][p]) if not p.startswith("#") else None
        if not p.startswith("#"):
            W.eq("solved parameter " + p, out[i]["coeffs"][int(p[1:])] if p[0] == "@" else out[i][p], X[j])
        j += 1
    done = {(i, p) for i, p in solved}
    for i in range(len(kw)):
        for p in kw[i]:
            if p == "coeffs":
                W.eq("other coefficients are kept", [out[i][p][q] for q in range(8) if (i, "@%d" % q) not in done], [kw[i][p][q] for q in range(8) if (i, "@%d" % q) not in done])
            elif (i, p) not in done and not (shear and (i, p) in shear):
                W.eq("other parameters are kept", out[i][p], kw[i][p])
    d = S.check_solver(x, y, out)
    W.eq("check_solver reports the distances in the source plane", list(d), [W.sqrt((bx[i] - bx[0]) ** 2 + (by[i] - by[0]) ** 2) for i in range(num)])
    W.raises("a different number of images is refused", lambda: S.update_solver(kw, list(x)[:-1], list(y)[:-1]), ValueError)
    return S, out, X, init


SOLVE = "LensModel/Solver/solver.py::Solver."


def _reg4():
    for main, pars in sorted(MAIN4.items()):
        def body(W, main=main, pars=pars):
            typ = W.choice("type", ["PROFILE", "PROFILE_SHEAR", "PROFILE_SHEAR_GAMMA_PSI"])
            multi = W.choice("multi_plane", [False, True])
            second = dict(PROFILE="SIS", PROFILE_SHEAR="SHEAR", PROFILE_SHEAR_GAMMA_PSI="SHEAR_GAMMA_PSI")[typ]
            spar = dict(SIS=["theta_E"], SHEAR=["gamma1", "gamma2"], SHEAR_GAMMA_PSI=["gamma_ext", "psi_ext"])[second]
            kw = [comp_kwargs(W, 0, pars), comp_kwargs(W, 1, spar), comp_kwargs(W, 2, ["kappa"])]
            if main == "SHAPELETS_CART":
                solved = [(0, "@%d" % q) for q in range(1, 6)]
            else:
                solved = [(0, p) for p in pars[:5]]
            shear = None
            if second == "SHEAR_GAMMA_PSI":
                solved = solved + [(1, "psi_ext")]
            if second == "SHEAR":
                shear = {(1, "gamma1"), (1, "gamma2")}
                if W.sym:
                    W.assume(kw[1]["gamma1"] > 0)
                    W.assume(kw[1]["gamma2"] > 0)
            S, out, X, init = solver_body(W, None, 4, "PROFILE" if typ == "PROFILE" else "PROFILE_SHEAR", [main, second, "CONVERGENCE"], kw, solved, multi, shear)
            if shear and not W.sym:
                W.eq("shear strength is kept", np.hypot(out[1]["gamma1"], out[1]["gamma2"]), np.hypot(kw[1]["gamma1"], kw[1]["gamma2"]))
                W.eq("shear angle is the solved one", np.sin(2 * X[5] - np.arctan2(out[1]["gamma2"], out[1]["gamma1"])), 0, atol=1e-7)
                W.true("shear angle is the solved one (sign)", np.cos(2 * X[5] - np.arctan2(out[1]["gamma2"], out[1]["gamma1"])) > 0)
                W.eq("the root finder starts from the current shear angle", np.cos(2 * init[5] - np.arctan2(kw[1]["gamma2"], kw[1]["gamma1"])), 1, atol=1e-7)
            fixed = [{}, {}, {}]
            fx = S.add_fixed_lens(fixed, kw)
            want = {} if main == "SHAPELETS_CART" else {p: kw[0][p] for p in pars[:5]}
            W.same("solved parameters are not sampled", sorted(fx[0]), sorted(want))
            W.same("nothing else is fixed", [fx[1], fx[2]], [{}, {}])
            W.eq("fixed to the initial values", [fx[0][p] for p in sorted(want)], [want[p] for p in sorted(want)])
        contract("C19", "four-image solver " + main, [S4 + m for m in ("__init__", "constraint_lensmodel", "solve", "_F", "_subtract_constraint", "_update_kwargs", "_extract_array", "add_fixed_lens")] + [SOLVE + m for m in ("__init__", "constraint_lensmodel", "update_solver", "check_solver", "add_fixed_lens")], samples=4, timeout=120,
                 assumes=["scipy fsolve returns any vector", "the lens model is a sum of arbitrary components (single plane) or an arbitrary map (multi-plane)"])(body)


_reg4()


@contract("C19", "two-image solver", [S2 + m for m in ("__init__", "constraint_lensmodel", "solve", "_F", "_subtract_constraint", "_update_kwargs", "_extract_array", "add_fixed_lens")] + [SOLVE + m for m in ("__init__", "constraint_lensmodel", "update_solver", "check_solver", "add_fixed_lens")], samples=12, timeout=200,
          assumes=["scipy fsolve returns any vector", "the lens model is a sum of arbitrary components (single plane) or an arbitrary map (multi-plane)"])
def _two(W):
    typ = W.choice("type", ["CENTER", "ELLIPSE", "SHAPELETS", "THETA_E_PHI", "THETA_E_ELLIPSE"])
    multi = W.choice("multi_plane", [False, True])
    pars = ["beta", "coeffs"] if typ == "SHAPELETS" else E_PAR
    kw = [comp_kwargs(W, 0, pars), comp_kwargs(W, 1, ["gamma1", "gamma2"]), comp_kwargs(W, 2, ["kappa"])]
    solved = dict(CENTER=[(0, "center_x"), (0, "center_y")], ELLIPSE=[(0, "e1"), (0, "e2")], SHAPELETS=[(0, "@1"), (0, "@2")], THETA_E_PHI=[(0, "theta_E")], THETA_E_ELLIPSE=[(0, "theta_E")])[typ]
    other = dict(THETA_E_PHI={(1, "gamma1"), (1, "gamma2")}, THETA_E_ELLIPSE={(0, "e1"), (0, "e2")}).get(typ)
    if other and W.sym:
        for i, p in other:
            W.assume(kw[i][p] > 0)
            W.assume(kw[i][p] < 0.5)
    S, out, X, init = solver_body(W, None, 2, typ, ["SHAPELETS_CART" if typ == "SHAPELETS" else "SIE", "SHEAR", "CONVERGENCE"], kw, solved, multi, other)
    if other and not W.sym:
        i = 1 if typ == "THETA_E_PHI" else 0
        a, b = ("gamma1", "gamma2") if i else ("e1", "e2")
        W.eq("strength is kept", np.hypot(out[i][a], out[i][b]), np.hypot(kw[i][a], kw[i][b]))
        W.eq("angle is the solved one", np.cos(2 * X[1] - np.arctan2(out[i][b], out[i][a])), 1, atol=1e-7)
        W.eq("the root finder starts from the current angle", np.cos(2 * init[1] - np.arctan2(kw[i][b], kw[i][a])), 1, atol=1e-7)
    fx = S.add_fixed_lens([{}, {}, {}], kw)
    want = dict(CENTER=[["center_x", "center_y"], []], ELLIPSE=[["e1", "e2"], []], SHAPELETS=[[], []], THETA_E_PHI=[["theta_E"], ["gamma2"]], THETA_E_ELLIPSE=[["e2", "theta_E"], []])[typ]
    W.same("solved parameters are not sampled", [sorted(fx[0]), sorted(fx[1]), sorted(fx[2])], want + [[]])
    for i in range(3):
        for p in fx[i]:
            W.eq("solved parameters start at the given values", fx[i][p], 0 if (i, p) == (1, "gamma2") or (typ == "THETA_E_ELLIPSE" and p == "e2") else kw[i][p])


@contract("C19", "solver on real lenses", [S4 + "constraint_lensmodel", S2 + "constraint_lensmodel", SOLVE + "constraint_lensmodel"], samples=8, sym=False, bounded="random perturbed power-law lenses (numerical)")
def _realsolve(W):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Solver.solver import Solver
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver

    lm0, kw0, src = _real_lens(W)
    lm = LensModel(["EPL", "SHEAR", "CONVERGENCE"])
    x, y = LensEquationSolver(lm).image_position_from_source(*src, kw0, solver="analytical", magnification_limit=0.1)
    n = len(x)
    if n not in (2, 4):
        return
    kw = copy.deepcopy(kw0)
    for p in ("theta_E", "e1", "e2", "center_x", "center_y"):
        kw[0][p] += W.real("d" + p, -0.01, 0.01)
    for typ in (["PROFILE", "PROFILE_SHEAR"] if n == 4 else ["CENTER", "ELLIPSE"]):
        S = Solver(typ, lm, n)
        out, acc = S.constraint_lensmodel(x, y, kw)
        d = S.check_solver(x, y, out)
        if acc < 1e-15:
            W.eq("images share one source position: " + typ, list(d), [0] * n, atol=1e-6)
        W.eq("reported accuracy: " + typ, acc, float(np.sum(d ** 2)), atol=1e-12)


# ------------------------------------------------------------------ lens models fitted to the images of a quad
QO = "LensModel/QuadOptimizer/"


def _quadpar(cls):
    @contract("C19", "parameters of the quad optimizer." + cls, [QO + "param_manager.py::%s.args_to_kwargs" % cls, QO + "param_manager.py::PowerLawParamManager.kwargs_to_args", QO + "param_manager.py::PowerLawParamManager.bounds"], samples=8, bounded=None)
    def body(W):
        from lenstronomy.LensModel.QuadOptimizer import param_manager as M

        names = ("theta_E", "center_x", "center_y", "e1", "e2")
        e = dict(theta_E=W.real("theta_E", 0.5, 2), gamma=W.real("gamma", 1.7, 2.3), e1=W.real("e1", -0.4, 0.4), e2=W.real("e2", -0.4, 0.4), center_x=W.real("cx", -1, 1), center_y=W.real("cy", -1, 1))
        sh = dict(gamma1=W.real("g1", 0.01, 0.2), gamma2=W.real("g2", 0.01, 0.2))
        mp = dict(m=4, a_m=W.real("a_m", -0.1, 0.1), phi_m=W.real("phi_m", -1, 1), center_x=W.real("mx", -1, 1), center_y=W.real("my", -1, 1))
        rest = dict(theta_E=W.real("t3", 0.1, 1), center_x=W.real("x3", -1, 1), center_y=W.real("y3", -1, 1))
        multi, fixed = "Multipole" in cls, "FixedShear" in cls
        kw = [e, sh] + ([mp] if multi else []) + [rest]
        strength = W.real("strength", 0.01, 0.3)
        P = getattr(M, cls)(copy.deepcopy(kw), strength) if fixed else getattr(M, cls)(copy.deepcopy(kw))
        W.true("number of components that vary", P.to_vary_index == (3 if multi else 2))
        args = P.kwargs_to_args(kw)
        W.eq("vector of the parameters", args, [e[n] for n in names] + [sh["gamma1"], sh["gamma2"]])
        W.eq("no penalty", P.param_chi_square_penalty(args), 0)
        for re, d in ((False, (0.1, 0.05, 0.05, 0.1, 0.1, 0.025, 0.025)), (True, (0.005, 0.025, 0.025, 0.05, 0.05, 0.01, 0.01))):
            sc = W.real("scale", 0.5, 2)
            lo, hi = P.bounds(re, sc)
            W.eq("the bounds enclose the initial parameters", [lo, hi], [[a - sc * q for a, q in zip(args, d)], [a + sc * q for a, q in zip(args, d)]])
        v = [W.real("v0", 0.5, 2), W.real("v1", -1, 1), W.real("v2", -1, 1), W.real("v3", -0.4, 0.4), W.real("v4", 0.01, 0.4), W.real("v5", -0.2, 0.2), W.real("v6", 0.01, 0.2)]
        out = P.args_to_kwargs(v)
        W.true("all components", len(out) == len(kw))
        W.eq("main deflector", [out[0][n] for n in names], v[:5])
        W.eq("slope is kept", out[0]["gamma"], e["gamma"])
        g1, g2 = out[1]["gamma1"], out[1]["gamma2"]
        if fixed:
            n = (v[5] ** 2 + v[6] ** 2) ** 0.5
            W.eq("shear of the given strength in the direction of the vector", [g1 * n, g2 * n], [strength * v[5], strength * v[6]])
        else:
            W.eq("shear", [g1, g2], v[5:])
        if multi:
            W.eq("multipole follows the main deflector", [out[2]["center_x"], out[2]["center_y"]], v[1:3])
            m = (v[3] ** 2 + v[4] ** 2) ** 0.5
            W.eq("multipole along the main deflector", [W.cos(2 * out[2]["phi_m"]) * m, W.sin(2 * out[2]["phi_m"]) * m], [v[3], v[4]])
            W.eq("amplitude of the multipole is kept", [out[2]["a_m"], out[2]["m"]], [mp["a_m"], 4])
        W.eq("other components are kept", [out[-1][n] for n in sorted(rest)], [rest[n] for n in sorted(rest)])
        if not fixed:
            W.eq("vector back", P.kwargs_to_args(out), v)


for _c in ("PowerLawFreeShear", "PowerLawFixedShear", "PowerLawFreeShearMultipole", "PowerLawFixedShearMultipole"):
    _quadpar(_c)


@contract("C19", "quad optimizer", [QO + "optimizer.py::Optimizer." + m for m in ("optimize", "_optimization", "_fit_pso", "_logL", "_penalty_function", "source_plane_penalty", "full_raytracing")], samples=6, bounded="four images, seven parameters",
          assumes=["the swarm and the simplex return any vector", "the lens is an arbitrary map"])
def _quadopt(W):
    from lenstronomy.LensModel.QuadOptimizer import optimizer as M
    from lenstronomy.LensModel.QuadOptimizer.param_manager import PowerLawFreeShear

    x, y = W.array("x", 4), W.array("y", 4)
    fx, fy = W.uf("bx", 9), W.uf("by", 9)
    vec = lambda kw: [kw[0][n] for n in ("theta_E", "center_x", "center_y", "e1", "e2")] + [kw[1]["gamma1"], kw[1]["gamma2"]]

    class Rays:
        def ray_shooting(self, x, y, kwargs, k=None):
            a = vec(kwargs)
            return np.array([fx(p, q, *a) for p, q in zip(x, y)]), np.array([fy(p, q, *a) for p, q in zip(x, y)])
    ini = [dict(theta_E=1.0, gamma=2.0, e1=0.1, e2=0.0, center_x=0.0, center_y=0.1), dict(gamma1=0.05, gamma2=0.0)]
    tol = W.real("tol", 0.001, 1)
    swarm = W.choice("swarm", [True, False])
    P = PowerLawFreeShear(copy.deepcopy(ini))
    O = M.Optimizer(x, y, Rays(), P, tol_source=tol, particle_swarm=swarm, simplex_n_iterations=7, tol_simplex_func=0.25)
    trial = [W.real("a%d" % i, -1, 1) for i in range(7)]
    best = [W.real("b%d" % i, -1, 1) for i in range(7)]
    final = [W.real("c%d" % i, -1, 1) for i in range(7)]

    def pen(a):
        b = [[f(x[i], y[i], *a) for i in range(4)] for f in (fx, fy)]
        return sum((q[i] - q[j]) ** 2 for q in b for i in range(4) for j in range(i)) / 2 / tol ** 2
    seen = {}

    class PSO:
        def __init__(self, func, low, high, particle_count=25, pool=None, args=None, kwargs=None):
            seen["low"], seen["high"] = low, high
            seen["logL"] = func(trial)

        def optimize(self, max_iter=1000, verbose=True, c1=1.193, c2=1.193, p=0.7, m=1e-3, n=1e-2, early_stop_tolerance=None):
            return best, None

    def mini(fun, x0, args=(), method=None, options=None, **kw):
        seen["x0"] = x0
        seen["fun"] = fun(trial)
        return dict(x=final, fun=fun(final))
    with swap(W, (M, "ParticleSwarmOptimizer", PSO), (M, "minimize", mini), both=True):
        kw, src = O.optimize(n_particles=4, n_iterations=3)
    if swarm:
        lo, hi = PowerLawFreeShear(copy.deepcopy(ini)).bounds(False, 1.0)
        W.eq("the swarm starts within the bounds of the parameters", [seen["low"], seen["high"]], [lo, hi])
        W.eq("log-likelihood of the swarm", seen["logL"], -pen(trial) / 2)
    W.eq("the simplex starts from the swarm or from the initial model", list(seen["x0"]), best if swarm else vec(ini))
    W.eq("the simplex minimizes the scatter in the source plane", seen["fun"], pen(trial))
    W.eq("parameters of the minimum", vec(kw), final)
    W.eq("slope is kept", kw[0]["gamma"], 2.0)
    W.eq("source is the mean of the images of the final model", src, [sum(f(x[i], y[i], *final) for i in range(4)) / 4 for f in (fx, fy)])

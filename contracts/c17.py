"""C17: workflow updates change exactly what they name.

A reference state (plain nested dictionaries) is carried along any history of update operations; after
every operation every observable of the real manager has to equal it, and the dictionaries the user
passed in have to be what they were."""
import copy
import numpy as np
from lv.world import contract
from contracts.common import swap

UM = "Workflow/update_manager.py::UpdateManager."
MB = "Workflow/multi_band_manager.py::MultiBandUpdateManager."
FS = "Workflow/fitting_sequence.py::FittingSequence."
AL = "Workflow/alignment_matching.py::"
FC = "Workflow/flux_calibration.py::"
G = ["lens", "source", "lens_light", "ps", "special", "extinction", "tracer_source"]
PARAM = dict(lens="lens_model", source="source_model", lens_light="lens_light_model", ps="point_source_model", special="special",
             extinction="extinction_model", tracer_source="tracer_source_model")
SHAPE = dict(lens=[["theta_E", "center_x", "center_y"], ["gamma1", "gamma2", "ra_0", "dec_0"]],
             source=[["amp", "R_sersic", "n_sersic", "center_x", "center_y"]],
             lens_light=[["amp", "R_sersic", "n_sersic", "e1", "e2", "center_x", "center_y"]],
             ps=[["ra_image", "dec_image", "point_amp"]], extinction=[["amp"]], tracer_source=[["amp", "k", "center_x", "center_y"]])
MODEL = dict(lens_model_list=["SIS", "SHEAR"], source_light_model_list=["SERSIC"], lens_light_model_list=["SERSIC_ELLIPSE"],
             point_source_model_list=["LENSED_POSITION"], optical_depth_model_list=["UNIFORM"], tracer_source_model_list=["LINEAR"])
CONSTR = dict(num_point_source_list=[2], source_size=True, linear_solver=False)


class Fresh:
    def __init__(self, W):
        self.W, self.n, self.range = W, 0, None

    def __call__(self):
        self.n += 1
        return self.W.real("f%d" % self.n, None, None, (0.1, 0.9))

    def of(self, p):
        return np.array([self(), self()], dtype=object) if self.W.sym and p in ("ra_image", "dec_image", "point_amp") else (
            np.array([self(), self()]) if p in ("ra_image", "dec_image", "point_amp") else self())

    def kwargs(self):
        kw = {g: [{p: self.of(p) for p in c} for c in SHAPE[g]] for g in SHAPE}
        kw["special"] = {"source_size": self.size() if self.range else self()}
        return kw

    def size(self):
        """a source size within its limits"""
        c, h = self.range
        self.n += 1
        return c + h * (self.n % 7 - 3) / 8

    def vector(self, param):
        return [self.size() if n == "source_size" else self() for n in param.num_param()[1]]


def user_input(W, f):
    """init, sigma, lower, upper and fixed of all components; one lens and one light parameter are fixed"""
    init, sigma, lower, upper = f.kwargs(), f.kwargs(), f.kwargs(), f.kwargs()
    pos = lambda: W.real("p%d" % next(cnt), 0, None, (0.1, 1.0))
    cnt = iter(range(10000))
    for g in G:  # initial values within their limits
        for i, l, u in ([(init[g], lower[g], upper[g])] if g == "special" else zip(init[g], lower[g], upper[g])):
            for p in i:
                l[p], u[p] = i[p] - pos(), i[p] + pos()
    h = pos()
    c = init["special"]["source_size"]
    lower["special"]["source_size"], upper["special"]["source_size"] = c - h, c + h
    f.range = (c, h)
    fixed = {g: [{} for c in SHAPE[g]] for g in SHAPE}
    fixed["special"] = {}
    fixed["lens"][1].update(ra_0=init["lens"][1]["ra_0"], dec_0=init["lens"][1]["dec_0"])
    fixed["lens_light"][0]["n_sersic"] = init["lens_light"][0]["n_sersic"]
    par = {PARAM[g]: [init[g], sigma[g], fixed[g], lower[g], upper[g]] for g in G}
    return par, dict(init=init, sigma=sigma, lower=lower, upper=upper, fixed=fixed)


def observe(m):
    k = lambda d: {g: d["kwargs_" + g] for g in G}
    return dict(init=k(m.init_kwargs), sigma=k(m.sigma_kwargs), lower=k(m.lower_kwargs), upper=k(m.upper_kwargs),
                fixed=dict(zip(G, m.fixed_kwargs)), state=k(m.parameter_state),
                options=dict(model=dict(m.kwargs_model), constraints=dict(m.kwargs_constraints), likelihood=dict(m.kwargs_likelihood)))


def compare(W, what, got, spec):
    for part in spec:
        W.same("%s: %s" % (what, part), got[part], spec[part])


# every operation: apply it to the real manager and to the reference state
def op_fix_current(m, s, f):
    m.update_fixed(lens_add_fixed=[[0, ["theta_E", "center_y"]], [1, ["gamma1"]]])
    for k, p in ((0, "theta_E"), (0, "center_y"), (1, "gamma1")):
        s["fixed"]["lens"][k][p] = s["state"]["lens"][k][p]


def op_fix_value(m, s, f):
    v = f()
    m.update_fixed(source_add_fixed=[[0, ["R_sersic", "n_sersic"], [v, None]]], tracer_source_add_fixed=[[0, ["k"]]])
    s["fixed"]["source"][0].update(R_sersic=v, n_sersic=s["state"]["source"][0]["n_sersic"])
    s["fixed"]["tracer_source"][0]["k"] = s["state"]["tracer_source"][0]["k"]


def op_fix_rest(m, s, f):
    m.update_fixed(ps_add_fixed=[[0, ["ra_image", "dec_image"]]], special_add_fixed=["source_size"], lens_light_add_fixed=[[0, ["e1", "e2"]]])
    for p in ("ra_image", "dec_image"):
        s["fixed"]["ps"][0][p] = s["state"]["ps"][0][p]
    for p in ("e1", "e2"):
        s["fixed"]["lens_light"][0][p] = s["state"]["lens_light"][0][p]
    s["fixed"]["special"].setdefault("source_size", s["state"]["special"]["source_size"])


def op_release(m, s, f):
    m.update_fixed(lens_remove_fixed=[[1, ["ra_0"]], [0, ["center_y"]]], source_remove_fixed=[[0, ["R_sersic"]]], lens_light_remove_fixed=[[0, ["n_sersic", "e1"]]],
                   ps_remove_fixed=[[0, ["ra_image"]]], special_remove_fixed=["source_size"], tracer_source_remove_fixed=[[0, ["k"]]])
    for g, k, p in (("lens", 1, "ra_0"), ("lens", 0, "center_y"), ("source", 0, "R_sersic"), ("lens_light", 0, "n_sersic"), ("lens_light", 0, "e1"),
                    ("ps", 0, "ra_image"), ("tracer_source", 0, "k")):
        s["fixed"][g][k].pop(p, None)
    s["fixed"]["special"].pop("source_size", None)


def op_limits(m, s, f):
    v = [f() for _ in range(5)]
    m.update_limits(change_source_lower_limit=[[0, ["R_sersic", "center_x"], [v[0], v[1]]]], change_source_upper_limit=[[0, ["n_sersic"], [v[2]]]],
                    change_lens_lower_limit=[[1, ["gamma1"], [v[3]]]], change_lens_upper_limit=[[0, ["theta_E"], [v[4]]]])
    s["lower"]["source"][0].update(R_sersic=v[0], center_x=v[1])
    s["upper"]["source"][0]["n_sersic"] = v[2]
    s["lower"]["lens"][1]["gamma1"] = v[3]
    s["upper"]["lens"][0]["theta_E"] = v[4]


def op_sigmas(m, s, f):
    v = [f() for _ in range(4)]
    m.update_sigmas(change_sigma_lens=[[0, ["theta_E"], [v[0]]], [1, ["gamma2"], [v[1]]]], change_sigma_source=[[0, ["n_sersic"], [v[2]]]],
                    change_sigma_lens_light=[[0, ["e1"], [v[3]]]])
    s["sigma"]["lens"][0]["theta_E"], s["sigma"]["lens"][1]["gamma2"] = v[0], v[1]
    s["sigma"]["source"][0]["n_sersic"], s["sigma"]["lens_light"][0]["e1"] = v[2], v[3]


def op_values(m, s, f):
    v = [f() for _ in range(5)]
    ps = f.of("ra_image")
    m.update_param_value(lens=[[1, ["gamma1", "gamma2"], [v[0], v[1]]]], source=[[0, ["R_sersic"], [v[2]]]], lens_light=[[0, ["e1", "center_x"], [v[3], v[4]]]],
                         ps=[[0, ["ra_image"], [ps]]])
    s["state"]["lens"][1].update(gamma1=v[0], gamma2=v[1])
    s["state"]["source"][0]["R_sersic"] = v[2]
    s["state"]["lens_light"][0].update(e1=v[3], center_x=v[4])
    s["state"]["ps"][0]["ra_image"] = ps


def op_restart(m, s, f):
    m.set_init_state()
    s["state"] = copy.deepcopy(s["init"])


def op_result(m, s, f):
    kw = f.kwargs()
    m.update_param_state(**{"kwargs_" + g: copy.deepcopy(kw[g]) for g in G})
    s["state"] = kw


def op_options(m, s, f):
    m.update_options(kwargs_model={"z_source": 3}, kwargs_constraints={"log_sampling_lens": [[0, ["theta_E"]]]}, kwargs_likelihood={"source_marg": True})
    s["options"]["model"]["z_source"] = 3
    s["options"]["constraints"]["log_sampling_lens"] = [[0, ["theta_E"]]]
    s["options"]["likelihood"]["source_marg"] = True


def op_frames(m, s, f):
    # band 0 uses lens model 0, band 1 uses lens model 1
    m.fix_not_computed([True, False])
    s["fixed"]["lens"][0] = copy.deepcopy(s["fixed0"]["lens"][0])
    s["fixed"]["lens"][1] = copy.deepcopy(s["state"]["lens"][1])


def op_unframes(m, s, f):
    m.fix_not_computed([True, True])
    s["fixed"]["lens"] = copy.deepcopy(s["fixed0"]["lens"])


OPS = [op_fix_current, op_fix_value, op_fix_rest, op_release, op_limits, op_sigmas, op_values, op_restart, op_result, op_options, op_frames, op_unframes]
UFN = [UM + n for n in ("__init__", "update_fixed", "_add_fixed", "_remove_fixed", "update_limits", "update_sigmas", "_update_kwargs_list", "update_param_value",
                        "set_init_state", "update_param_state", "update_options", "best_fit", "param_class", "update_kwargs_model")] + \
      [MB + n for n in ("__init__", "keep_frame_fixed", "undo_frame_fixed", "fix_not_computed")]


def new_manager(W, f):
    from lenstronomy.Workflow.multi_band_manager import MultiBandUpdateManager

    par, s = user_input(W, f)
    opts = dict(model=dict(MODEL, index_lens_model_list=[[0], [1]]), constraints=dict(CONSTR), likelihood={"source_marg": False})
    s = copy.deepcopy(s)
    s["state"], s["options"] = copy.deepcopy(s["init"]), copy.deepcopy(opts)
    s["fixed0"] = copy.deepcopy(s["fixed"])
    m = MultiBandUpdateManager(opts["model"], opts["constraints"], opts["likelihood"], par, num_bands=2)
    return m, s, (par, opts)


def check_round_trip(W, m, s):
    """the state goes through the parameter vector: fixed parameters take the fixed value"""
    p = m.param_class
    st = {"kwargs_" + g: s["state"][g] for g in G}
    v = p.kwargs2args(**copy.deepcopy(st))
    count = lambda a: 2 if isinstance(a, np.ndarray) else 1
    n = 0
    for g in G:
        for k, c in enumerate(s["state"][g] if g != "special" else [s["state"][g]]):
            fx = s["fixed"][g][k] if g != "special" else s["fixed"][g]
            n += sum(count(x) for q, x in c.items() if q not in fx)
    W.same("number of free parameters", (p.num_param()[0], len(v)), (n, n))
    back = p.args2kwargs(v, bijective=True)
    log = "log_sampling_lens" in s["options"]["constraints"]
    for g in G:
        want = copy.deepcopy(s["state"][g])
        for w, fx in zip(want if g != "special" else [want], s["fixed"][g] if g != "special" else [s["fixed"][g]]):
            w.update(fx)
        if log and g == "lens":
            W.eq("round trip of the log-sampled state", back["kwargs_lens"][0].pop("theta_E"), want[0].pop("theta_E"))
        W.same("round trip of the state: " + g, back["kwargs_" + g], want)
    W.same("best fit in sampling coordinates is the state", m.best_fit(bijective=True), st)
    W.same("best fit of the model is the state", m.best_fit(bijective=False), st)


def _history(op, thorough):
    @contract("C17", "history from %s%s" % (op.__name__[3:], " (long)" if thorough else ""), UFN, samples=4, thorough_only=thorough, max_paths=3000, timeout=400,
              bounded="histories of %d operations on one model with every component type; all values" % (4 if thorough else 3))
    def body(W):
        f = Fresh(W)
        m, s, user = new_manager(W, f)
        before = copy.deepcopy(user)
        compare(W, "created", observe(m), {k: v for k, v in s.items() if k != "fixed0"})
        op(m, s, f)
        compare(W, "first", observe(m), {k: v for k, v in s.items() if k != "fixed0"})
        for i in range(3 if thorough else 2):
            o = W.choice("op%d" % i, OPS)
            o(m, s, f)
            compare(W, "after " + o.__name__[3:], observe(m), {k: v for k, v in s.items() if k != "fixed0"})
        W.same("the user's dictionaries are untouched", user, before)
        check_round_trip(W, m, s)
        compare(W, "reading changes nothing", observe(m), {k: v for k, v in s.items() if k != "fixed0"})


for _o in OPS:
    _history(_o, False)
    _history(_o, True)


@contract("C17", "initial state check", [UM + "check_initial_state", "Workflow/update_manager.py::_compare_bounds"], samples=8, timeout=200)
def _check(W):
    f = Fresh(W)
    m, s, (par, opts) = new_manager(W, f)
    m.check_initial_state()
    cases = [(g, k, p) for g in ("lens", "source", "lens_light", "ps", "tracer_source", "extinction") for k, c in enumerate(SHAPE[g]) for p in c[:2]]
    g, k, p = W.choice("parameter", cases + [("lens", 1, "ra_0"), ("special", None, "source_size")])
    side = W.choice("side", [3, 4])
    d = par[PARAM[g]][side] if k is None else par[PARAM[g]][side][k]
    del d[p]
    fixed = g != "special" and p in s["fixed"][g][k]
    if fixed:
        m.check_initial_state()
    else:
        W.raises("a missing bound of a free parameter is reported", m.check_initial_state, ValueError)


# ---------------------------------------------------------------- fitting sequence
class Env:
    """stand-ins for what a fitting sequence drives: likelihood, samplers, PSF fitting, alignment and calibration"""

    def __init__(self, W, f):
        self.W, self.f, self.log = W, f, []
        env = self

        class Like:
            def __init__(self, data, model, param, **kw):
                self.data, self.model, self.param, self.kw = data, model, param, kw
                self.num_data = 7
                self.kwargs_imaging = dict(multi_band_list=data["multi_band_list"], multi_band_type=data["multi_band_type"])

            def logL(self, args, verbose=False):
                env.log.append(("logL", list(args), self.data, self.model, dict(self.kw)))
                return W.real("logl", None, None, (-5, -1))

        class Samp:
            def __init__(self, likelihood_class):
                self.l = likelihood_class

            def new(self):
                return W._arr1(f.vector(self.l.param))

            def simplex(self, init_pos, n_iterations, method):
                r = self.new()
                env.log.append(("simplex", list(init_pos), n_iterations, method, self.l, r))
                return r

            def pso(self, n_particles, n_iterations, lower_start, upper_start, **kw):
                r = self.new()
                env.log.append(("pso", list(lower_start), list(upper_start), kw, (n_particles, n_iterations), self.l, r))
                return r, ["chi2", "pos", "vel"]

            def _mc(self, name, n_walkers, n_run, n_burn, mean_start, sigma_start, **kw):
                n = self.l.param.num_param()[0]
                smp = W.mat([f.vector(self.l.param) for _ in range(3)])
                lg = W._arr1([f() for _ in range(3)])
                env.log.append((name, n_walkers, n_run, n_burn, list(mean_start), list(sigma_start), kw, self.l, smp, lg))
                return smp, lg

            def mcmc_emcee(self, n_walkers, n_run, n_burn, mean_start, sigma_start, **kw):
                return self._mc("emcee", n_walkers, n_run, n_burn, mean_start, sigma_start, **kw)

            def mcmc_zeus(self, n_walkers, n_run, n_burn, mean_start, sigma_start, **kw):
                return self._mc("zeus", n_walkers, n_run, n_burn, mean_start, sigma_start, **kw)

        class Cob:
            def __init__(self, l, mean, sigma):
                self.l, self.a = l, (list(mean), list(sigma))

            def run(self, **kw):
                r = W._arr1(f.vector(self.l.param))
                env.log.append(("cobaya",) + self.a + (kw, self.l, r))
                return "info", "sampler", r

        class Nested:
            def __init__(self, l=None, likelihood_module=None, **kw):
                self.l, self.kw = l if l is not None else likelihood_module, kw
                self.param_names = self.l.param.num_param()[1]

            def run(self, *a, **kw):
                n = self.l.param.num_param()[0]
                smp = W.mat([f.vector(self.l.param) for _ in range(3)])
                lg = W._arr1([f() for _ in range(3)])
                env.log.append(("nested", self.kw, a, kw, self.l, smp, lg))
                return smp, "means", "logz", "err", lg, {"points": smp, "log_l": lg}

        class Band:
            def __init__(self, multi_band_list, kwargs_model, **kw):
                env.log.append(("band", copy.deepcopy([list(b) for b in multi_band_list]), kwargs_model, kw))

        class PsfFit:
            def __init__(self, image_model_class):
                pass

            def update_iterative(self, kwargs_psf, kwargs_params=None, **kw):
                env.log.append(("psf", dict(kwargs_psf), kwargs_params, kw))
                return {"psf": f()}

        class Align:
            def __init__(self, multi_band_list, kwargs_model, kwargs_params, band_index, **kw):
                self.b = multi_band_list[band_index][0]
                env.log.append(("align", band_index, kwargs_params, kw))

            def pso(self, **kw):
                d = dict(self.b, ra_shift=f(), dec_shift=f())
                env.log.append(("align pso", d, kw))
                return d, "chain"

        class Flux:
            def __init__(self, kwargs_imaging, kwargs_model, kwargs_params, calibrate_bands):
                self.m = copy.deepcopy(kwargs_imaging["multi_band_list"])
                env.log.append(("calibrate", kwargs_params, calibrate_bands))
                self.c = calibrate_bands

            def pso(self, **kw):
                for b, c in zip(self.m, self.c):
                    if c:
                        b[0]["flux_scaling"] = f()
                env.log.append(("calibrate pso", copy.deepcopy(self.m), kw))
                return self.m, "chain"

        class Choice:
            @staticmethod
            def choice(n, size):
                r = np.array([int(W.choice("i%d" % len(env.log), [0, 2]))] * size)
                env.log.append(("choice", n, r))
                return r

        def sym2(name):
            u = W.uf(name, 2)  # the pairwise extreme as an arbitrary symmetric function

            def one(a, b):
                a, b = sorted((a, b), key=repr)
                return u(a, b)

            def g(a, b):
                return W._arr1([one(x, y) for x, y in zip(a, b)]) if hasattr(a, "__len__") else one(a, b)
            return g

        self.max, self.min = (sym2("max"), sym2("min")) if W.sym else (W.maximum, W.minimum)
        self.choice = Choice
        self.swaps = [("Likelihood", Like), ("Sampler", Samp), ("CobayaSampler", Cob), ("DynestySampler", Nested), ("MultiNestSampler", Nested), ("DyPolyChordSampler", Nested),
                      ("NautilusSampler", Nested), ("SingleBandMultiModel", Band), ("PsfFitting", PsfFit), ("AlignmentFitting", Align), ("FluxCalibration", Flux)]

    def swap(self):
        from lenstronomy.Workflow import fitting_sequence as F

        real, ch = F.np, self.choice

        class N:
            random = ch
            maximum = staticmethod(self.max) if self.W.sym else real.maximum
            minimum = staticmethod(self.min) if self.W.sym else real.minimum

            def __getattr__(self, n):
                return getattr(real, n)

        return swap(self.W, *([(F, n, v) for n, v in self.swaps] + [(F, "np", N())]), both=True)

    def last(self, name):
        return [e for e in self.log if e[0] == name][-1]


def sequence(W, f, **more):
    from lenstronomy.Workflow.fitting_sequence import FittingSequence

    par, s = user_input(W, f)
    s = copy.deepcopy(s)
    bands = [[{"data": f(), "id": 0}, {"psf": f()}, {"num": 0}], [{"data": f(), "id": 1}, {"psf": f()}, {"num": 1}]]
    joint = {"multi_band_list": bands, "multi_band_type": "joint-linear"}
    model = dict(MODEL, index_lens_model_list=[[0], [1]])
    seq = FittingSequence(joint, model, dict(CONSTR, **more), {"source_marg": False, "image_likelihood_mask_list": ["m0", "m1"]}, par, verbose=False)
    s["state"] = copy.deepcopy(s["init"])
    s["fixed0"] = copy.deepcopy(s["fixed"])
    s["bands"] = copy.deepcopy(bands)
    return seq, s, joint


def vec(seq, s, part):
    return list(seq.param_class.kwargs2args(**{"kwargs_" + g: copy.deepcopy(s[part][g]) for g in G}))




def st(s):
    return {"kwargs_" + g: s["state"][g] for g in G}


def from_vec(seq, v):
    kw = seq.param_class.args2kwargs(v, bijective=True)
    return {g: copy.deepcopy(kw["kwargs_" + g]) for g in G}


def step_pso(W, E, seq, s):
    sc = E.f()
    v0, sg, lo, up = (vec(seq, s, p) for p in ("state", "sigma", "lower", "upper"))
    out = seq.fit_sequence([["PSO", {"n_particles": 4, "n_iterations": 5, "sigma_scale": sc}]])
    _, a, b, kw, n, like, r = E.last("pso")
    W.same("swarm size and iterations", n, (4, 5))
    W.same("swarm starts from the state", list(kw["init_pos"]), v0)
    for i in range(len(v0)):
        W.eq("lower start of the swarm", a[i], E.max(v0[i] - sg[i] * sc, lo[i]))
        W.eq("upper start of the swarm", b[i], E.min(v0[i] + sg[i] * sc, up[i]))
    s["state"] = from_vec(seq, r)
    W.same("chain", (out[0][0], out[0][1], out[0][2]), ("PSO", ["chi2", "pos", "vel"], seq.param_class.num_param()[1]))


def step_simplex(W, E, seq, s):
    v0 = vec(seq, s, "state")
    out = seq.fit_sequence([["SIMPLEX", {"n_iterations": 5}]])
    _, a, n, method, like, r = E.last("simplex")
    W.same("simplex starts from the state", (list(a), n, method), (v0, 5, "Nelder-Mead"))
    s["state"] = from_vec(seq, r)
    W.same("chain", out[0], ["SIMPLEX", st(s)])


def argmax(W, lg):
    for i in range(3):
        if all(bool(lg[i] >= lg[j]) for j in range(3)):
            return i


def step_mcmc(name):
    def step(W, E, seq, s):
        sc = E.f()
        v0, sg = vec(seq, s, "state"), vec(seq, s, "sigma")
        prev = s.get("samples")
        kw = {"n_burn": 1, "n_run": 2, "n_walkers": 2, "sigma_scale": sc, "backend_filename": "name"}
        lst = [[name, kw]]
        if prev is not None and len(prev[0]) != len(v0):
            W.raises("samples of another number of parameters are not re-used", lambda: seq.fit_sequence(lst), ValueError)
            return
        out = seq.fit_sequence(lst)
        W.same("fitting list is untouched", sorted(lst[0][1]), ["backend_filename", "n_burn", "n_run", "n_walkers", "sigma_scale"])
        e = E.last("zeus" if name == "zeus" else "emcee")
        W.same("sampler settings", e[1:4], (2, 2, 1))
        W.same("file of the samples", e[6].get("backend_filename"), "name")
        W.same("walkers start around the state", e[4], v0)
        for i in range(len(v0)):
            W.eq("spread of the walkers", e[5][i], sg[i] * sc)
        if prev is None:
            W.same("no samples to re-use", e[6].get("initpos"), None)
        else:
            c = E.last("choice")
            W.same("walkers start from the previous samples", e[6].get("initpos"), prev[c[2]])
            W.same("drawn from all previous samples", c[1], 3)
        smp, lg = e[8], e[9]
        s["samples"] = smp
        s["state"] = from_vec(seq, list(smp[argmax(W, lg)]))
        W.same("chain", (out[0][0], out[0][2]), ("zeus" if name == "zeus" else "emcee", seq.param_class.num_param()[1]))
        W.same("samples", out[0][1], smp)
        W.same("log likelihoods", out[0][3], lg)
    step.__name__ = "step_" + name
    return step


def step_cobaya(W, E, seq, s):
    v0, sg = vec(seq, s, "state"), vec(seq, s, "sigma")
    seq.fit_sequence([["Cobaya", {"x": 1}]])
    _, m, g, kw, like, r = E.last("cobaya")
    W.same("chain starts from the state", (m, g, kw), (v0, sg, {"x": 1}))
    s["state"] = from_vec(seq, r)


def step_nautilus(W, E, seq, s):
    seq.fit_sequence([["Nautilus", {"n_live": 3}]])
    _, kw, a, k, like, smp, lg = E.last("nested")
    s["state"] = from_vec(seq, list(smp[argmax(W, lg)]))


def step_nested(name):
    def step(W, E, seq, s):
        v0, sg = vec(seq, s, "state"), vec(seq, s, "sigma")
        prior = W.choice("prior", ["uniform", "gaussian"])
        out = seq.fit_sequence([[name, {"prior_type": prior, "kwargs_run": {"a": 1}, "width_scale": 2, "sigma_scale": 3}]])
        _, kw, a, k, like, smp, lg = E.last("nested")
        W.same("prior", (kw["prior_type"], kw["width_scale"], kw["sigma_scale"]), (prior, 2, 3))
        if prior == "gaussian":
            W.same("prior mean is the state", list(kw["prior_means"]), v0)
            W.same("prior width", list(kw["prior_sigmas"]), sg)
        else:
            W.same("no prior mean", (kw["prior_means"], kw["prior_sigmas"]), (None, None))
        W.same("chain", out[0][0], name)
        W.same("samples", out[0][1], smp)
        # the state is one of the samples that were reported
        got = {g: seq.best_fit(bijective=True)["kwargs_" + g] for g in G}
        s["state"] = from_vec(seq, list(smp[-1]))
    step.__name__ = "step_" + name
    return step


def step_restart(W, E, seq, s):
    seq.fit_sequence([["restart", None]])
    s["state"] = copy.deepcopy(s["init"])


def step_settings(W, E, seq, s):
    v = [E.f() for _ in range(6)]
    i = s["init"]
    w = [W.real("w%d" % len(E.log), 0, None, (0.1, 1.0)) for _ in range(1)][0]
    v[1], v[2], v[3], v[4] = i["source"][0]["n_sersic"] - w, i["source"][0]["n_sersic"] + 2 * w, i["lens"][0]["center_x"] - 3 * w, i["lens"][1]["gamma1"] + 4 * w
    seq.fit_sequence([["update_settings", dict(
        kwargs_likelihood={"source_marg": True}, lens_add_fixed=[[0, ["theta_E"]]], source_add_fixed=[[0, ["R_sersic"], [v[0]]]], lens_light_add_fixed=[[0, ["e1"]]],
        ps_add_fixed=[[0, ["dec_image"]]], tracer_source_add_fixed=[[0, ["k"]]], special_add_fixed=["source_size"], lens_remove_fixed=[[1, ["ra_0"]]], lens_light_remove_fixed=[[0, ["n_sersic"]]],
        change_source_lower_limit=[[0, ["n_sersic"], [v[1]]]], change_source_upper_limit=[[0, ["n_sersic"], [v[2]]]], change_lens_lower_limit=[[0, ["center_x"], [v[3]]]],
        change_lens_upper_limit=[[1, ["gamma1"], [v[4]]]], change_sigma_lens=[[1, ["gamma2"], [v[5]]]], change_sigma_source=[[0, ["center_x"], [v[0]]]],
        change_sigma_lens_light=[[0, ["center_x"], [v[1]]]])]])
    s["likelihood"] = {"source_marg": True}
    t = s["state"]
    s["fixed"]["lens"][0]["theta_E"] = t["lens"][0]["theta_E"]
    s["fixed"]["source"][0]["R_sersic"] = v[0]
    s["fixed"]["lens_light"][0]["e1"] = t["lens_light"][0]["e1"]
    s["fixed"]["ps"][0]["dec_image"] = t["ps"][0]["dec_image"]
    s["fixed"]["tracer_source"][0]["k"] = t["tracer_source"][0]["k"]
    s["fixed"]["special"].setdefault("source_size", t["special"]["source_size"])
    s["fixed"]["lens"][1].pop("ra_0", None)
    s["fixed"]["lens_light"][0].pop("n_sersic", None)
    s["lower"]["source"][0]["n_sersic"], s["upper"]["source"][0]["n_sersic"] = v[1], v[2]
    s["lower"]["lens"][0]["center_x"], s["upper"]["lens"][1]["gamma1"] = v[3], v[4]
    s["sigma"]["lens"][1]["gamma2"], s["sigma"]["source"][0]["center_x"], s["sigma"]["lens_light"][0]["center_x"] = v[5], v[0], v[1]


def step_release(W, E, seq, s):
    seq.fit_sequence([["update_settings", dict(source_remove_fixed=[[0, ["R_sersic"]]], ps_remove_fixed=[[0, ["dec_image"]]], tracer_source_remove_fixed=[[0, ["k"]]],
                                               special_remove_fixed=["source_size"])]])
    for g, p in (("source", "R_sersic"), ("ps", "dec_image"), ("tracer_source", "k")):
        s["fixed"][g][0].pop(p, None)
    s["fixed"]["special"].pop("source_size", None)


def step_value(W, E, seq, s):
    v = E.f()
    seq.fit_sequence([["set_param_value", {"lens": [[0, ["theta_E"], [v]]], "source": [[0, ["amp"], [v]]]}]])
    s["state"]["lens"][0]["theta_E"] = v
    s["state"]["source"][0]["amp"] = v


def step_frames(W, E, seq, s):
    seq.fit_sequence([["fix_not_computed", {"free_bands": [False, True]}]])
    s["fixed"]["lens"][1] = copy.deepcopy(s["fixed0"]["lens"][1])
    s["fixed"]["lens"][0] = copy.deepcopy(s["state"]["lens"][0])


def step_psf(W, E, seq, s):
    bands = W.choice("bands", [None, (True, False), (False, True)])
    n0 = len(seq.psf_iteration_memory)
    before = len(E.log)
    seq.fit_sequence([["psf_iteration", {"compute_bands": bands, "num_iter": 4}]])
    done = [i for i in (0, 1) if bands is None or bands[i]]
    ps = [e for e in E.log[before:] if e[0] == "psf"]
    bd = [e for e in E.log[before:] if e[0] == "band"]
    mem = seq.psf_iteration_memory[n0:]
    W.same("one PSF iteration for each selected band", (len(ps), len(bd), len(mem)), (len(done),) * 3)
    for i, e, b, mm in zip(done, ps, bd, mem):
        W.same("PSF of the band", e[1], s["bands"][i][1])
        W.same("model parameters", e[2], st(s))
        W.same("options", e[3], {"num_iter": 4})
        W.same("band and mask of the PSF iteration", (b[3]["band_index"], b[3]["likelihood_mask_list"]), (i, ["m0", "m1"]))
        W.same("data of the PSF iteration", b[1], s["bands"])
        W.same("memory of the band", mm["band"], i)
        W.same("memory of the PSF before", mm["psf_before"], s["bands"][i][1])
        s["bands"][i][1] = copy.deepcopy(seq.multi_band_list[i][1])
        W.same("memory of the PSF after", mm["psf_after"], s["bands"][i][1])
    W.true("new PSF", all(s["bands"][i][1] is not None for i in done))


def step_align(W, E, seq, s):
    bands = W.choice("bands", [None, (True, False), (False, True)])
    before = len(E.log)
    seq.fit_sequence([["align_images", {"compute_bands": bands, "n_particles": 3, "n_iterations": 2, "delta_shift": 0.5, "delta_rot": 0.25, "align_rotation": True}]])
    done = [i for i in (0, 1) if bands is None or bands[i]]
    al = [e for e in E.log[before:] if e[0] == "align"]
    ap = [e for e in E.log[before:] if e[0] == "align pso"]
    W.same("one alignment for each selected band", [e[1] for e in al], done)
    for i, e, p in zip(done, al, ap):
        W.same("model parameters", e[2], st(s))
        W.same("alignment options", e[3], dict(likelihood_mask_list=["m0", "m1"], align_offset=True, align_rotation=True))
        W.same("alignment search", {k: p[2].get(k) for k in ("n_particles", "n_iterations", "delta_shift", "delta_rot")},
               dict(n_particles=3, n_iterations=2, delta_shift=0.5, delta_rot=0.25))
        s["bands"][i][0] = copy.deepcopy(p[1])


def step_calibrate(W, E, seq, s):
    bands = W.choice("bands", [(True, True), (True, False), (False, True)])
    seq.fit_sequence([["calibrate_images", {"calibrate_bands": bands, "n_particles": 3, "n_iterations": 2, "scaling_upper_limit": 8}]])
    W.same("model parameters", E.last("calibrate")[1], st(s))
    e = E.last("calibrate pso")
    W.same("calibration search", {k: e[2].get(k) for k in ("n_particles", "n_iterations", "scaling_lower_limit", "scaling_upper_limit")},
           dict(n_particles=3, n_iterations=2, scaling_lower_limit=0, scaling_upper_limit=8))
    for i in (0, 1):
        if bands[i]:
            s["bands"][i][0]["flux_scaling"] = e[1][i][0]["flux_scaling"]


STEPS = [step_pso, step_simplex, step_mcmc("emcee"), step_mcmc("MCMC"), step_mcmc("zeus"), step_cobaya, step_nautilus, step_nested("dynesty"), step_nested("MultiNest"),
         step_nested("dyPolyChord"), step_restart, step_settings, step_release, step_value, step_frames, step_psf, step_align, step_calibrate]
SECOND = [step_pso, step_mcmc("emcee"), step_restart, step_settings, step_value, step_psf, step_calibrate]
FFN = [FS + n for n in ("__init__", "fit_sequence", "best_fit", "best_fit_likelihood", "simplex", "mcmc", "pso", "nested_sampling", "psf_iteration", "align_images",
                        "flux_calibration", "update_settings", "set_param_value", "fix_not_computed", "_prepare_sampling", "_update_state", "best_fit_from_samples", "bic")]


def check_seq(W, what, E, seq, s, joint):
    k = lambda d: {g: d["kwargs_" + g] for g in G}
    m = seq._updateManager
    got = dict(init=k(m.init_kwargs), sigma=k(m.sigma_kwargs), lower=k(m.lower_kwargs), upper=k(m.upper_kwargs), fixed=dict(zip(G, seq.kwargs_fixed)),
               state=k(seq.best_fit(bijective=True)))
    compare(W, what, got, {p: s[p] for p in got})
    W.same(what + ": bands", [list(b) for b in seq.multi_band_list], s["bands"])
    L = seq.likelihood_class
    W.same(what + ": the likelihood sees the current bands", [list(b) for b in L.data["multi_band_list"]], s["bands"])
    W.same(what + ": likelihood options", L.kw["source_marg"], s.get("likelihood", {}).get("source_marg", False))


def _seq(first):
    @contract("C17", "sequence from %s" % first.__name__[5:], FFN, samples=4, max_paths=400, timeout=300,
              bounded="histories of 2 steps; all values, all results the samplers may return",
              assumes=["samplers, PSF fitting, alignment and calibration are stand-ins that return arbitrary results (their own contracts: C09, C16 and below)"])
    def body(W):
        import contextlib
        import io

        f = Fresh(W)
        E = Env(W, f)
        with E.swap(), contextlib.redirect_stdout(io.StringIO()):
            seq, s, joint = sequence(W, f)
            first(W, E, seq, s)
            check_seq(W, "first", E, seq, s, joint)
            second = W.choice("second", SECOND)
            second(W, E, seq, s)
            check_seq(W, second.__name__[5:], E, seq, s, joint)


for _s in STEPS:
    _seq(_s)


@contract("C17", "best-fit likelihood and information criterion", [FS + "best_fit_likelihood", FS + "bic", "Util/analysis_util.py::bic_model"], samples=4)
def _bic(W):
    f = Fresh(W)
    E = Env(W, f)
    with E.swap():
        seq, s, joint = sequence(W, f)
        L = seq.best_fit_likelihood()
        e = E.last("logL")
        W.same("likelihood of the state", e[1], vec(seq, s, "state"))
        n, nl = seq.param_class.num_param()[0], seq.param_class.num_param_linear()
        W.eq("information criterion", seq.bic, -2 * L + W.log(W.const(7)) * (n + nl))
        W.raises("unknown step", lambda: seq.fit_sequence([["nothing", {}]]), ValueError)
        W.same("data and model of the likelihood", (e[2] is joint, e[3].get("lens_model_list")), (True, ["SIS", "SHEAR"]))


@contract("C17", "sequences with parameters sampled in the image plane", FFN, samples=4, max_paths=200, timeout=200,
          assumes=["samplers are stand-ins that return arbitrary results"])
def _image_plane(W):
    """the state is kept in the coordinates that are sampled, whatever the constraints turn them into"""
    import contextlib
    import io

    f = Fresh(W)
    E = Env(W, f)
    with E.swap(), contextlib.redirect_stdout(io.StringIO()):
        seq, s, joint = sequence(W, f, image_plane_source_list=[True])
        seq.best_fit_likelihood()
        W.same("likelihood of the state", E.last("logL")[1], vec(seq, s, "state"))
        W.choice("step", [step_pso, step_simplex, step_mcmc("emcee"), step_cobaya, step_nautilus, step_nested("dynesty")])(W, E, seq, s)
        check_seq(W, "state", E, seq, s, joint)
        seq.best_fit_likelihood()
        W.same("likelihood of the new state", E.last("logL")[1], vec(seq, s, "state"))


@contract("C17", "parameters handed to the parameter class", [UM + "param_class"], samples=4)
def _param_class(W):
    from lenstronomy.Workflow import update_manager as U

    f = Fresh(W)
    m, s, user = new_manager(W, f)
    log = []
    real = U.Param

    class P(real):
        def __init__(self, *a, **k):
            import inspect

            b = inspect.signature(real.__init__).bind(self, *a, **k)
            log.append(b.arguments)
            real.__init__(self, *a, **k)

    W.choice("op", [op_result, op_values, op_limits, op_fix_current, op_options])(m, s, f)
    with swap(W, (U, "Param", P), both=True):
        m.param_class
    a = dict(log[-1], **log[-1].get("kwargs", {}))
    a.update(a.pop("kwargs_constraints", {}) if isinstance(a.get("kwargs_constraints"), dict) else {})
    W.same("model", a["kwargs_model"], s["options"]["model"])
    W.same("lens model of the present state", a.get("kwargs_lens_init"), s["state"]["lens"])
    for part in ("fixed", "lower", "upper"):
        for g in G:
            W.same("%s %s" % (part, g), a.get("kwargs_%s_%s" % (part, g)), s[part][g])
    for k, v in s["options"]["constraints"].items():
        W.same("constraint " + k, a.get(k), v)


# ---------------------------------------------------------------- alignment and calibration
class FakePSO:
    def __init__(self, W, f, log):
        self.W, self.f, self.log = W, f, log

    def cls(self):
        o = self

        class P:
            def __init__(self, chain, lower, upper, n, pool=None):
                self.n = len(lower)
                self.chain = chain
                o.log.append(("limits", list(lower), list(upper), n))

            def set_global_best(self, pos, vel, logl):
                o.log.append(("init", list(pos), list(vel), logl))

            def optimize(self, n, verbose=True):
                for _ in range(2):  # the optimizer evaluates the likelihood elsewhere before it returns
                    self.chain.likelihood([o.f() for _ in range(self.n)])
                r = [o.f() for _ in range(self.n)]
                o.log.append(("result", r, n))
                return r, [[1], [2], [3]]

        return P


class Pool:
    def is_master(self):
        return False


@contract("C17", "alignment", [AL + "AlignmentFitting.pso"] + [AL + "AlignmentLikelihood." + n for n in ("__init__", "_likelihood", "update_multi_band", "update_data", "get_args", "num_param", "lower_upper_limit")],
          samples=6, assumes=["the image likelihood of one band is an arbitrary function (contract C08), the swarm returns any position (contract C16)"])
def _align(W):
    from lenstronomy.Workflow import alignment_matching as A

    f, log = Fresh(W), []
    off, rot, pre = W.choice("offset", [True, False]), W.choice("rotation", [True, False]), W.choice("shifted before", [True, False])
    ib = W.choice("band", [0, 1])
    bands = [[{"image_data": f(), "id": i}, {"psf": f()}, {}] for i in range(2)]
    if pre:
        bands[ib][0].update(ra_shift=f(), dec_shift=f(), phi_rot=f())
    orig = copy.deepcopy(bands)
    like = W.uf("like", 3)
    par = {"kwargs_lens": [{"theta_E": f()}], "kwargs_tracer_source": [{}]}

    class Band:
        def __init__(self, multi_band_list, model, likelihood_mask_list=None, band_index=0):
            self.b, self.i, self.m = multi_band_list, band_index, likelihood_mask_list
            W.same("mask", self.m, ["m0", "m1"])
            W.same("model", model, {"m": 1})

        def likelihood_data_given_model(self, source_marg=False, **kw):
            W.same("parameters", kw, {"kwargs_lens": par["kwargs_lens"]})
            W.same("band", self.i, ib)
            W.same("the other band is untouched", self.b[1 - ib], orig[1 - ib])
            d = self.b[self.i][0]
            z = W.const(0)
            return like(d.get("ra_shift", z), d.get("dec_shift", z), d.get("phi_rot", z)), None

    with swap(W, (A, "SingleBandMultiModel", Band), (A, "ParticleSwarmOptimizer", FakePSO(W, f, log).cls()), (A, "choose_pool", lambda **kw: Pool()), both=True):
        fit = A.AlignmentFitting(bands, {"m": 1}, par, band_index=ib, likelihood_mask_list=["m0", "m1"], align_offset=off, align_rotation=rot)
        ds, dr = f(), f()
        out, ch = fit.pso(n_particles=3, n_iterations=4, delta_shift=ds, delta_rot=dr)
        c = fit.chain
        names = (["ra_shift", "dec_shift"] if off else []) + (["phi_rot"] if rot else [])
        w = ([ds, ds] if off else []) + ([dr] if rot else [])
        W.true("the search is given its starting point", len([e for e in log if e[0] == "init"]) == 1)
        lim, ini, res = [([e for e in log if e[0] == n] or [(n, [], [], None)])[-1] for n in ("limits", "init", "result")]
        W.same("number of alignment parameters", c.num_param, len(names))
        W.same("upper limits", lim[2], w)
        for a, b in zip(lim[1], w):
            W.eq("lower limits", a, -b)
        z = W.const(0)
        W.same("search starts at the present alignment", [W.const(x) if isinstance(x, int) else x for x in ini[1]], [orig[ib][0].get(n, z) for n in names])
        W.same("likelihood at the start", ini[3], like(*[orig[ib][0].get(n, z) for n in ("ra_shift", "dec_shift", "phi_rot")]))
        want = dict(orig[ib][0])
        want.update(dict(zip(names, res[1])))
        W.same("result of the alignment", out, want)
        W.same("arguments of the result", list(c.get_args(out)), list(res[1]))
        v = [f() for _ in names]
        d = dict(orig[ib][0])
        d.update(dict(zip(names, v)))
        W.same("likelihood of a position", c(v), like(*[d.get(n, z) for n in ("ra_shift", "dec_shift", "phi_rot")]))


@contract("C17", "flux calibration", [FC + "FluxCalibration.pso", FC + "FluxCalibration.__init__"] + [FC + "CalibrationLikelihood." + n for n in ("__init__", "_likelihood", "update_data", "get_args", "num_param")],
          samples=6, assumes=["the image likelihood is an arbitrary function (contract C08), the swarm returns any position (contract C16)"])
def _calib(W):
    from lenstronomy.Workflow import flux_calibration as A
    import contextlib
    import io

    f, log = Fresh(W), []
    sel = W.choice("bands", [(True, True, True), (True, False, True), (False, True, False), (False, True, True)])
    pre = W.choice("calibrated before", [True, False])
    bands = [[{"image_data": f(), "id": i}, {"psf": f()}, {}] for i in range(3)]
    if pre:
        for b in bands:
            b[0]["flux_scaling"] = f()
    orig = copy.deepcopy(bands)
    like = W.uf("like", 3)
    one = W.const(1)

    class Like:
        def __init__(self, kwargs_model, multi_band_list, multi_band_type):
            self.b = multi_band_list

        def logL(self, **kw):
            return like(*[b[0].get("flux_scaling", one) for b in self.b]), None

    with swap(W, (A, "ImageLikelihood", Like), (A, "ParticleSwarmOptimizer", FakePSO(W, f, log).cls()), (A, "choose_pool", lambda **kw: Pool()), both=True), contextlib.redirect_stdout(io.StringIO()):
        W.raises("only for joint-linear data", lambda: A.FluxCalibration(dict(multi_band_list=bands, multi_band_type="multi-linear"), {}, {}, [True] * 3), ValueError)
        fit = A.FluxCalibration(dict(multi_band_list=bands, multi_band_type="joint-linear"), {"m": 1}, {"kwargs_lens": []}, sel)
        out, ch = fit.pso(n_particles=3, n_iterations=4, scaling_lower_limit=1, scaling_upper_limit=9)
        n = sum(sel)
        lim, ini, res = [[e for e in log if e[0] == k][-1] for k in ("limits", "init", "result")]
        W.same("limits", (lim[1], lim[2], lim[3]), ([1] * n, [9] * n, 3))
        start = [b[0].get("flux_scaling", one) for b in orig]
        W.same("search starts at the present calibration", [W.const(x) if isinstance(x, int) else x for x in ini[1]], [x for x, c in zip(start, sel) if c])
        W.same("likelihood at the start", ini[3], like(*start))
        want = copy.deepcopy(orig)
        it = iter(res[1])
        for b, c in zip(want, sel):
            if c:
                b[0]["flux_scaling"] = next(it)
        W.same("result of the calibration", [list(b) for b in out], want)
        W.same("arguments of the result", list(fit.chain.get_args(out)), list(res[1]))
        W.same("the bands of the user are untouched", bands, orig)

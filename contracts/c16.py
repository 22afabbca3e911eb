"""C16: samplers respect bounds and report what they evaluated."""
import sys
import types
import numpy as np
from lv.world import contract
from contracts.common import swap

SU = "Util/sampling_util.py::"
PSO = "Sampling/Samplers/pso.py::ParticleSwarmOptimizer."
PR = "Sampling/Likelihoods/prior_likelihood.py::PriorLikelihood."
SA = "Sampling/sampler.py::Sampler."
NS = "Sampling/Samplers/base_nested_sampler.py::NestedSampler."
PU = "Sampling/Pool/parallelization_util.py::"


@contract("C16", "unit cube", [SU + "unit2uniform", SU + "uniform2unit", SU + "cube2args_uniform", SU + "scale_limits"], samples=6, bounded="three parameters")
def _unit(W):
    from lenstronomy.Util import sampling_util as U

    u = W.array("u", 3, None, None, (0, 1))
    lo, wd = W.array("lo", 3), W.array("width", 3, 0, None, (0.5, 3))
    hi = lo + wd
    cp = W.choice("copy", [True, False])
    c = W._arr1(list(u))
    p = U.cube2args_uniform(c, lo, hi, 3, copy=cp)
    for i in range(3):
        W.eq("linear map of the cube", p[i], lo[i] + (hi[i] - lo[i]) * u[i])
        W.eq("back to the cube", U.uniform2unit(p[i], lo[i], hi[i]), u[i])
        W.eq("forth again", U.unit2uniform(U.uniform2unit(u[i], lo[i], hi[i]), lo[i], hi[i]), u[i])
        W.eq("lower bound", U.unit2uniform(0, lo[i], hi[i]), lo[i])
        W.eq("upper bound", U.unit2uniform(1, lo[i], hi[i]), hi[i])
        W.eq("input cube is kept with copy", c[i], u[i] if cp else p[i])
    W.assume(u[0] < u[1])
    W.true("monotonic", U.unit2uniform(u[0], lo[0], hi[0]) < U.unit2uniform(u[1], lo[0], hi[0]))
    s = W.real("scale", 0, 1)
    form = W.choice("form", ["array", "list"])
    a, b = U.scale_limits(lo if form == "array" else list(lo), hi if form == "array" else list(hi), s)
    for i in range(3):
        W.eq("scaled limits keep the centre", a[i] + b[i], lo[i] + hi[i])
        W.eq("scaled limits have the scaled width", b[i] - a[i], s * (hi[i] - lo[i]))
        W.le("scaled limits stay within the limits", lo[i], a[i])
        W.le("scaled limits stay within the limits ", b[i], hi[i])


def fake_truncnorm(W, rec):
    """truncnorm as an arbitrary function of quantile, bounds, mean and width"""
    F, R = W.uf("truncnorm", 5), [0]

    class T:
        @staticmethod
        def ppf(u, a, b, loc, scale):
            rec.append((a, b, loc, scale))
            return W._arr1([F(u[i], a[i], b[i], loc[i], scale[i]) for i in range(len(u))])

        @staticmethod
        def rvs(a, b, size):
            out = []
            for i in range(size):
                R[0] += 1
                r = W.real("draw%d" % R[0], None, None, (-1, 1))
                W.assume(r >= a[i])
                W.assume(r <= b[i])
                out.append(r)
            return W._arr1(out)

    class S:
        truncnorm = T

    return S, F


@contract("C16", "Gaussian cube and starting points", [SU + "cube2args_gaussian", SU + "sample_ball_truncated"], samples=6, bounded="two parameters, two draws",
          assumes=["scipy truncnorm: ppf is an arbitrary function, rvs returns any value within its bounds"])
def _gauss(W):
    from lenstronomy.Util import sampling_util as U

    u = W.array("u", 2, 0, 1)
    lo, wd = W.array("lo", 2), W.array("width", 2, 0, None, (0.5, 3))
    hi = lo + wd
    mu = W._arr1([lo[i] + wd[i] * W.real("f%d" % i, 0, 1) for i in range(2)])
    sg = W.array("sigma", 2, 0, None, (0.2, 2))
    rec = []
    S, F = fake_truncnorm(W, rec)
    cp = W.choice("copy", [True, False])
    with swap(W, (U, "stats", S)):
        c = W._arr1(list(u))
        p = U.cube2args_gaussian(c, lo, hi, mu, sg, 2, copy=cp)
        d = U.sample_ball_truncated(mu, sg, lo, hi, size=2)
    if W.sym:
        a, b, m, s = rec[0]
        for i in range(2):
            W.eq("lower truncation in units of sigma", a[i] * sg[i] + mu[i], lo[i])
            W.eq("upper truncation in units of sigma", b[i] * sg[i] + mu[i], hi[i])
            W.eq("mean", m[i], mu[i])
            W.eq("width", s[i], sg[i])
            W.eq("value of the quantile", p[i], F(u[i], a[i], b[i], m[i], s[i]))
    else:
        from scipy.stats import truncnorm

        W.eq("quantile", p, truncnorm.ppf(u, (lo - mu) / sg, (hi - mu) / sg, loc=mu, scale=sg))
    W.shape("draws", d, (2, 2))
    for k in range(2):
        for i in range(2):
            W.le("starting points are above the lower limit", lo[i], d[k, i], slack=1e-9)
            W.le("starting points are below the upper limit", d[k, i], hi[i], slack=1e-9)
    for i in range(2):
        W.eq("input cube is kept with copy", c[i], u[i] if cp else p[i])
        if not W.sym:
            W.le("within bounds", lo[i] - 1e-9, p[i])
            W.le("within bounds ", p[i], hi[i] + 1e-9)


@contract("C16", "starting ball", [SU + "sample_ball"], samples=6, bounded="two parameters, two draws", assumes=["numpy.random returns any numbers"])
def _ball(W):
    from lenstronomy.Util import sampling_util as U

    p, s = W.array("p", 2), W.array("std", 2, 0, None, (0.2, 2))
    dist = W.choice("dist", ["uniform", "normal"])
    rec = []

    class R:
        @staticmethod
        def uniform(low, high, size):
            r = W.array("r%d" % len(rec), size, -1, 1)
            rec.append(("uniform", low, high, r))
            return r

        @staticmethod
        def normal(loc, scale, size):
            r = W.array("r%d" % len(rec), size)
            rec.append(("normal", loc, scale, r))
            return r

    real = U.np

    class N:
        random = R

        def __getattr__(self, n):
            return getattr(real, n)

    with swap(W, (U, "np", N()), both=True):
        d = U.sample_ball(p, s, size=2, dist=dist)
    W.shape("draws", d, (2, 2))
    for k in range(2):
        W.same("distribution", rec[k][:3], ("uniform", -1, 1) if dist == "uniform" else ("normal", 0, 1))
        for i in range(2):
            W.eq("draw around the centre with the given width", d[k, i], p[i] + s[i] * rec[k][3][i])
    W.raises("unknown distribution", lambda: U.sample_ball(p, s, dist="none"), ValueError)


class _Rand:
    """numpy.random of the swarm: any numbers within the requested interval"""

    def __init__(self, W, tag=""):
        self.W, self.n, self.tag = W, 0, tag

    def uniform(self, low=0.0, high=1.0, size=1):
        self.n += 1
        W = self.W
        t = W.array("rnd%s%d" % (self.tag, self.n), size, 0, 1)
        lo = np.broadcast_to(np.asarray(low, dtype=object), (size,))
        hi = np.broadcast_to(np.asarray(high, dtype=object), (size,))
        return W._arr1([lo[i] + (hi[i] - lo[i]) * t[i] for i in range(size)])


def np_with(real, **kw):
    class N:
        def __getattr__(self, n):
            return kw[n] if n in kw else getattr(real, n)

    return N()


@contract("C16", "swarm initialisation", [PSO + "__init__", PSO + "_init_swarm", PSO + "set_global_best", "Sampling/Samplers/pso.py::Particle.create", "Sampling/Samplers/pso.py::Particle.copy"], samples=5, bounded="two parameters, two particles",
          assumes=["numpy.random.uniform returns any numbers in its interval"])
def _psoinit(W):
    from lenstronomy.Sampling.Samplers import pso as M

    lo, wd = W.array("lo", 2), W.array("width", 2, 0, None, (0.5, 3))
    hi = lo + wd
    with swap(W, (M, "np", np_with(M.np, random=_Rand(W))), both=True):
        P = M.ParticleSwarmOptimizer(lambda x: 0, lo, hi, particle_count=2)
    W.same("number of particles", len(P.swarm), 2)
    for q in P.swarm:
        for i in range(2):
            W.le("particles start above the lower bound", lo[i], q.position[i])
            W.le("particles start below the upper bound", q.position[i], hi[i])
            W.eq("particles start at rest", q.velocity[i], 0)
    b, v, f = W.array("b", 2), W.array("v", 2), W.real("fit")
    P.set_global_best(b, v, f)
    c = P.global_best.copy()
    b0 = list(P.global_best.position)
    for i in range(2):
        W.eq("position of the best", c.position[i], b[i])
        W.eq("velocity of the best", c.velocity[i], v[i])
    W.eq("fitness of the best", c.fitness, f)
    c.position[0] = 17.0
    W.eq("copies are independent", P.global_best.position[0], b0[0])


@contract("C16", "swarm step", [PSO + "sample", PSO + "_get_fitness", "Sampling/Samplers/pso.py::Particle.personal_best", "Sampling/Samplers/pso.py::Particle.update_personal_best", "Sampling/Samplers/pso.py::_FunctionWrapper.__call__"],
          samples=10, timeout=120, max_paths=400, bounded="two particles with one parameter; one step from an arbitrary swarm and best point (inductive step)",
          assumes=["arbitrary log-likelihood", "numpy.random.uniform returns any numbers in its interval", "the convergence test answers arbitrarily"])
def _psostep(W):
    from lenstronomy.Sampling.Samplers import pso as M

    F = W.uf("logL", 1)
    calls = []

    def logl(x, scale, off=0):
        calls.append(x)
        W.same("one value per parameter", len(x), 1)
        return F(x[0]) * scale + off

    sc, off = 2.0, 1.0
    conv = W.choice("converged", [False, True])
    pool = W.choice("pool", [None, "pool"])
    asked = []

    class Pool:
        def map(self, f, xs):
            return [f(x) for x in xs]

        def is_master(self):
            return True

    with swap(W, (M, "np", np_with(M.np, random=_Rand(W))), (M.ParticleSwarmOptimizer, "_converged", lambda self, *a, **k: asked.append(1) or conv), both=True):
        P = M.ParticleSwarmOptimizer(logl, [0.0], [1.0], particle_count=2, pool=Pool() if pool else None, args=[sc], kwargs=dict(off=off))
        x0, v0 = W.array("x", 2), W.array("v", 2)
        for q, x, v in zip(P.swarm, x0, v0):
            q.position, q.velocity = [x], [v]
        g = W.real("g")
        seeded = W.choice("seeded", [True, False])
        fg = F(g) * sc + off
        if seeded:
            P.set_global_best([g], [0], fg)
        n = 0
        trail = [[x] for x in x0]
        for sw in P.sample(max_iter=1, verbose=False):
            n += 1
            for k, q in enumerate(sw):
                W.eq("reported fitness of a particle", q.fitness, F(q.position[0]) * sc + off)
                trail[k].append(q.position[0])
    W.same("number of steps", n, 0 if conv else 1)
    best = P.global_best
    W.eq("fitness of the best is the likelihood of the best position", best.fitness, F(best.position[0]) * sc + off)
    if seeded:
        W.le("the best never gets worse", fg, best.fitness)
    vis = ([g] if seeded else []) + [x for t in trail for x in t]
    hit = None
    for x in vis:
        W.le("no evaluated point is better than the best", F(x) * sc + off, best.fitness)
    prod = 1
    for x in vis:
        prod = prod * (best.position[0] - x)
    W.eq("the best position is one that was evaluated", prod, 0)
    for k, q in enumerate(P.swarm):
        b = q.personal_best
        W.eq("fitness of the personal best", b.fitness, F(b.position[0]) * sc + off)
        for x in trail[k]:
            W.le("no point of the particle is better than its personal best", F(x) * sc + off, b.fitness)


@contract("C16", "swarm dynamics", [PSO + "sample"], samples=6, bounded="one particle with two parameters; two steps", timeout=60, assumes=["numpy.random.uniform returns any numbers in its interval", "arbitrary log-likelihood"])
def _psodyn(W):
    from lenstronomy.Sampling.Samplers import pso as M

    x0, v0, g = W.array("x", 2), W.array("v", 2), W.array("g", 2)
    R = _Rand(W)
    rec = []
    uni = R.uniform

    def uniform(*a, **k):
        r = uni(*a, **k)
        rec.append(r)
        return r

    R.uniform = uniform
    c1, c2 = W.real("c1", 0, None), W.real("c2", 0, None)
    fit = [W.real("fit%d" % i) for i in range(3)]
    k = [0]

    def logl(x):
        k[0] += 1
        return fit[k[0] - 1]

    with swap(W, (M, "np", np_with(M.np, random=R)), (M.ParticleSwarmOptimizer, "_converged", lambda self, *a, **k: False), both=True):
        P = M.ParticleSwarmOptimizer(logl, [0.0, 0.0], [1.0, 1.0], particle_count=1)
        P.swarm[0].position, P.swarm[0].velocity = list(x0), list(v0)
        fb = W.real("fit best", None, None, (10, 20))
        for f in fit:
            W.assume(f < fb)
        P.set_global_best(g, [0, 0], fb)
        del rec[:]
        steps = [q[0] for q in P.sample(max_iter=2, c1=c1, c2=c2, verbose=False)]
    W.same("random numbers per step", len(rec), 6)
    x, v, pb = list(x0), list(v0), list(x0)
    for s, q in enumerate(steps):
        w, a, b = rec[3 * s : 3 * s + 3]
        v = [(0.5 + w[i] / 2) * v[i] + c1 * a[i] * (pb[i] - x[i]) + c2 * b[i] * (g[i] - x[i]) for i in range(2)]
        x = [x[i] + v[i] for i in range(2)]
        for i in range(2):
            W.eq("velocity is inertia, personal and global attraction", q.velocity[i], v[i])
            W.eq("position moves by the velocity", q.position[i], x[i])
        if s == 0 and bool(fit[1] > fit[0]):
            pb = list(x)
    W.eq("best position kept", P.global_best.position[1], g[1])


@contract("C16", "swarm optimisation", [PSO + "optimize", PSO + "_converged", PSO + "_converged_fit", PSO + "_converged_space", PSO + "_acceptable_convergence"], samples=8, sym=False)
def _psoopt(W):
    from lenstronomy.Sampling.Samplers.pso import ParticleSwarmOptimizer

    F = W.uf("logL", 2)
    np.random.seed(int(W.real("seed", 0, 1) * 1e6))
    lo = np.array([W.real("lo%d" % i) for i in range(2)])
    hi = lo + np.array([W.real("wd%d" % i, 0, None, (0.5, 3)) for i in range(2)])
    seen = []

    def logl(x):
        if any(a < l or a > h for a, l, h in zip(x, lo, hi)):
            return -1e18
        v = F(*x)
        seen.append((list(x), v))
        return v

    P = ParticleSwarmOptimizer(logl, lo, hi, particle_count=int(W.choice("particles", [3, 6, 10])))
    if W.choice("start", [True, False]):
        P.set_global_best((lo + hi) / 2, [0, 0], logl((lo + hi) / 2))
    n = W.choice("iterations", [0, 1, 7, 30])
    pos, (ll, pl, vl) = P.optimize(n, verbose=False, early_stop_tolerance=W.choice("early", [None, -1.0]))
    W.true("history is not longer than allowed", len(ll) <= n and len(ll) == len(pl) == len(vl))
    W.eq("reported best is the best evaluated likelihood", P.global_best.fitness, max(v for _, v in seen))
    W.eq("likelihood of the returned position", logl(pos), P.global_best.fitness)
    W.true("best point within the bounds", all(l <= a <= h for a, l, h in zip(pos, lo, hi)))
    for a, b in zip(ll, ll[1:]):
        W.le("history never gets worse", a, b)
    for a, q in zip(ll, pl):
        W.eq("history likelihood belongs to the history position", logl(q), a)
    if ll:
        W.le("final best is not worse than the history", ll[-1], P.global_best.fitness)


GROUPS = ("lens", "source", "lens_light", "ps", "extinction")


@contract("C16", "priors", [PR + q for q in ("__init__", "logL", "_prior_kwargs_list", "_prior_kwargs", "_prior_kde_list", "_init_kde")] + ["Util/prob_density.py::KDE1D.likelihood"], samples=10,
          bounded="two priors of each kind and group", assumes=["scipy gaussian_kde is an arbitrary positive function of samples and point"])
def _prior(W):
    from lenstronomy.Sampling.Likelihoods import prior_likelihood as M
    from lenstronomy.Util import prob_density as PD

    kw = {"kwargs_" + g: [{"a": W.real("%s_a0" % g, 0, None), "b": W.real("%s_b0" % g, 0, None)}, {"a": W.real("%s_a1" % g, 0, None), "b": W.real("%s_b1" % g, 0, None)}] for g in GROUPS}
    kw["kwargs_special"] = {"a": W.real("sp_a", 0, None), "b": W.real("sp_b", 0, None)}
    F = W.uf("kde", 4)

    class stats:
        class gaussian_kde:
            def __init__(self, v):
                self.v = list(v)

            def evaluate(self, points):
                d = W.exp(F(*self.v, points))
                return W._arr1([d])

    kind = W.choice("kind", ["gauss", "kde"])
    groups = W.choice("groups", [(g,) for g in GROUPS] + [("special",), GROUPS + ("special",), ()])
    suf = "" if kind == "gauss" else "_kde"
    pri, ref = {}, 0
    for g in groups:
        lst = []
        for i, n in ((0, "b"), (1, "a")):
            val = kw["kwargs_special"][n] if g == "special" else kw["kwargs_" + g][i][n]
            idx = [] if g == "special" else [i]
            if kind == "gauss":
                m, s = W.real("%s%d_m" % (g, i)), W.real("%s%d_s" % (g, i), 0, None)
                lst.append(idx + [n, m, s])
                ref = ref - (val - m) ** 2 / s**2 / 2
            else:
                smp = W.array("%s%d_smp" % (g, i), 3)
                lst.append(idx + [n, smp])
                ref = ref + F(*list(smp), val)
        pri["prior_" + g + suf] = lst
    import copy

    with swap(W, (PD, "stats", stats), both=True):
        P = M.PriorLikelihood(**pri)
        W.eq("sum of the declared priors, each once", P.logL(**kw), ref)
        W.eq("again", P.logL(**kw), ref)


@contract("C16", "log-normal priors", [PR + "_prior_lognormal_kwargs_list", PR + "_prior_lognormal_kwargs", PR + "logL"], samples=8, bounded="two priors of each group")
def _priorln(W):
    from lenstronomy.Sampling.Likelihoods import prior_likelihood as M

    kw = {"kwargs_" + g: [{"a": W.real("%s_a0" % g, 0, None), "b": W.real("%s_b0" % g, 0, None)}, {"a": W.real("%s_a1" % g, 0, None), "b": W.real("%s_b1" % g, 0, None)}] for g in GROUPS}
    kw["kwargs_special"] = {"a": W.real("sp_a", 0, None), "b": W.real("sp_b", 0, None)}
    groups = W.choice("groups", [(g,) for g in GROUPS] + [("special",), GROUPS + ("special",), ()])
    pri, ref, jac, val_ = {}, 0, 0, 0
    for g in groups:
        lst = []
        for i, n in ((0, "b"), (1, "a")):
            val = kw["kwargs_special"][n] if g == "special" else kw["kwargs_" + g][i][n]
            m, s = W.real("%s%d_m" % (g, i)), W.real("%s%d_s" % (g, i), 0, None)
            lst.append(([] if g == "special" else [i]) + [n, m, s])
            ref = ref - (W.log(val) - m) ** 2 / s**2 / 2
            jac = jac - W.log(val)
            val_ = val_ - val
        pri["prior_" + g + "_lognormal"] = lst
    got = M.PriorLikelihood(**pri).logL(**kw)
    W.eq("each declared log-normal prior enters once (term -value, see the known finding on its Jacobian)", got, ref + val_)
    W.eq("density of a log-normal distribution", got, ref + jac)


class Chain:
    """a likelihood with two parameters"""

    def __init__(self, W, tag=""):
        self.W = W
        self.lo, wd = W.array("lo" + tag, 2), W.array("wd" + tag, 2, 0, None, (0.5, 3))
        self.hi = self.lo + wd
        self.F = W.uf("logL" + tag, 2)
        self.param = self
        self.asked = []

    @property
    def param_limits(self):
        return L2(self)

    def num_param(self):
        return 2, ["a", "b"]

    def args2kwargs(self, a, **k):
        return {"kwargs_lens": list(a)}

    def effective_num_data_points(self, **k):
        return 10

    def logL(self, a, verbose=False):
        self.asked.append(list(a))
        return self.F(a[0], a[1])

    def likelihood(self, a):
        return self.logL(a)

    def __call__(self, a):
        return self.logL(a)

    def negativelogL(self, a):
        return -self.logL(a)


class L2:
    """limits, as an attribute (two arrays) and as a call"""

    def __init__(self, c):
        self.c = c

    def __iter__(self):
        return iter((self.c.lo, self.c.hi))

    def __call__(self):
        return self.c.lo, self.c.hi


class quiet:
    def __enter__(self):
        import io
        import contextlib

        self.c = contextlib.redirect_stdout(io.StringIO())
        return self.c.__enter__()

    def __exit__(self, *a):
        return self.c.__exit__(*a)


@contract("C16", "Sampler.pso", [SA + "__init__", SA + "pso", SA + "_pool_and_logl"], samples=6, bounded="two parameters", max_paths=400, assumes=["the swarm optimiser is replaced by one that records its arguments (contract 'swarm step')"])
def _spso(W):
    from lenstronomy.Sampling import sampler as M

    c = Chain(W)
    rec = {}

    class FakePSO:
        def __init__(self, func, low, high, n, pool=None):
            rec.update(func=func, low=low, high=high, n=n)
            self.global_best = types.SimpleNamespace(fitness=-1.0)

        def set_global_best(self, p, v, f):
            rec.update(p=p, v=v, f=f)

        def optimize(self, n, verbose):
            rec["iter"] = n
            return res, [["l"], ["p"], ["v"]]

    res = W.array("res", 2)
    start = W.choice("start", [None, "given"])
    ls, us = W.array("ls", 2), W.array("us", 2)
    init = W.choice("init", [None, "given"])
    ip = W.array("ip", 2)
    with swap(W, (M, "ParticleSwarmOptimizer", FakePSO), both=True), quiet():
        S = M.Sampler(c)
        out = S.pso(5, 7, lower_start=ls if start else None, upper_start=us if start else None, init_pos=ip if init else None, verbose=False)
    W.same("particles and iterations", (rec["n"], rec["iter"]), (5, 7))
    for i in range(2):
        if start:
            W.eq("start box is cut at the lower limit", rec["low"][i], W.maximum(ls[i], c.lo[i]))
            W.eq("start box is cut at the upper limit", rec["high"][i], W.minimum(us[i], c.hi[i]))
        else:
            W.eq("default start box: lower limit", rec["low"][i], c.lo[i])
            W.eq("default start box: upper limit", rec["high"][i], c.hi[i])
        W.eq("seed position", rec["p"][i], ip[i] if init else (rec["low"][i] + rec["high"][i]) / 2)
        W.eq("result is passed on", out[0][i], res[i])
    W.eq("likelihood of the seed", rec["f"], c.F(rec["p"][0], rec["p"][1]))
    x = W.array("x", 2)
    W.eq("the swarm evaluates the likelihood", rec["func"](x), c.F(x[0], x[1]))
    W.same("history is passed on", out[1], [["l"], ["p"], ["v"]])


@contract("C16", "Sampler.simplex", [SA + "simplex"], samples=4, bounded="two parameters", assumes=["scipy minimize returns any position"])
def _simplex(W):
    from lenstronomy.Sampling import sampler as M

    c = Chain(W)
    r, ip = W.array("r", 2), W.array("ip", 2)
    rec = {}

    def mini(f, x0, method, options):
        rec.update(f=f, x0=x0, method=method, options=options)
        return {"x": r}

    with swap(W, (M, "minimize", mini), both=True), quiet():
        x = M.Sampler(c).simplex(ip, 9, "Nelder-Mead")
    y = W.array("y", 2)
    W.eq("minimises minus the log-likelihood", rec["f"](y), -c.F(y[0], y[1]))
    W.same("method", rec["method"], "Nelder-Mead")
    W.same("iterations", rec["options"]["maxiter"], 9)
    for i in range(2):
        W.eq("start", rec["x0"][i], ip[i])
        W.eq("result", x[i], r[i])


class mods:
    """replace importable modules for the duration"""

    def __init__(self, **m):
        self.m = m

    def __enter__(self):
        self.old = {k: sys.modules.get(k) for k in self.m}
        sys.modules.update(self.m)

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


@contract("C16", "MCMC", [SA + "mcmc_emcee", SA + "mcmc_zeus"], samples=8, bounded="two parameters, three walkers", assumes=["emcee and zeus are replaced by recorders; start points as in 'Gaussian cube and starting points'"])
def _mcmc(W):
    from lenstronomy.Sampling import sampler as M

    c = Chain(W)
    rec = {}

    class ES:
        def __init__(self, *a, **k):
            rec.update(a=a, k=k)

        def run_mcmc(self, p0, n, **k):
            rec.update(p0=p0, n=n)

        def get_chain(self, **k):
            rec["chain"] = k
            return "chain"

        def get_log_prob(self, **k):
            rec["prob"] = k
            return "prob"

    class B:
        def __init__(self, f, name=None):
            self.f = f
            self.done = []

        def reset(self, *a):
            self.done.append(a)

    fake = types.SimpleNamespace(EnsembleSampler=ES, backends=types.SimpleNamespace(HDFBackend=B), callbacks=types.SimpleNamespace())
    init = W.choice("init", [None, "given"])
    p0 = W.array("p0", (3, 2))
    mu, sg = W.array("mu", 2), W.array("sg", 2, 0, None)
    ball = []

    def tb(mean, sigma, lower, upper, size):
        ball.append((mean, sigma, lower, upper, size))
        return p0

    x = W.array("x", 2)
    which = W.choice("sampler", ["emcee", "zeus"])
    bk = W.choice("backend", [None, "new", "resume"]) if which == "emcee" else None
    with mods(emcee=fake, zeus=fake), swap(W, (M.sampling_util, "sample_ball_truncated", tb), both=True), quiet():
        S = M.Sampler(c)
        a = dict(n_walkers=3, n_run=11, n_burn=5, mean_start=mu, sigma_start=sg, initpos=p0 if init else None)
        out = S.mcmc_emcee(**a, backend_filename="f" if bk else None, start_from_backend=bk == "resume") if which == "emcee" else S.mcmc_zeus(**a)
    k = rec["k"]
    f = k["logprob_fn"] if which == "zeus" else rec["a"][2]
    W.eq("the sampler evaluates the likelihood", f(x), c.F(x[0], x[1]))
    W.same("walkers and dimension", (k["nwalkers"], k["ndim"]) if which == "zeus" else rec["a"][:2], (3, 2))
    W.same("number of steps", rec["n"], 11 if bk == "resume" else 16)
    for q in ("chain", "prob"):
        W.same("burn-in is discarded: " + q, {n: rec[q][n] for n in ("discard", "flat", "thin")}, dict(discard=5, flat=True, thin=1))
    W.same("result", out, ("chain", "prob"))
    if bk == "resume":
        W.true("continues from the stored chain", rec["p0"] is None)
    else:
        for i in range(3):
            for j in range(2):
                W.eq("start positions", rec["p0"][i, j], p0[i, j])
        if not init:
            for g, r in zip(ball[0][:4], (mu, sg, c.lo, c.hi)):
                for i in range(2):
                    W.eq("start positions are drawn around the start values within the limits", g[i], r[i])
            W.same("one per walker", ball[0][4], 3)
    if bk == "new":
        W.same("the stored chain is reset", k["backend"].done, [(3, 2)])


@contract("C16", "several samplers", [SA + "_pool_and_logl", PU + "set_sampler_likelihood_module", PU + "sampler_logl_worker", PU + "set_nested_likelihood_module", PU + "nested_logl_worker"], samples=5,
          bounded="two samplers", assumes=["worker processes run the initialiser given to the pool"])
def _two(W):
    from lenstronomy.Sampling import sampler as M
    from lenstronomy.Sampling.Pool import parallelization_util as P

    A, B = Chain(W, "A"), Chain(W, "B")
    mpi, th = W.choice("mode", [(True, 1), (False, 3), (False, 1)])
    x = W.array("x", 2)
    ini = []

    def pool(mpi=False, processes=1, initializer=None, initargs=()):
        ini.append((initializer, initargs))
        return "pool"

    with swap(W, (M, "choose_pool", pool), both=True):
        SA_, SB = M.Sampler(A), M.Sampler(B)
        for S, c in W.choice("order", [((SA_, A), (SB, B)), ((SB, B), (SA_, A)), ((SA_, A),)]):
            p, f = S._pool_and_logl(mpi, th)
            if ini[-1][0] is not None:
                ini[-1][0](*ini[-1][1])
            W.eq("each sampler evaluates its own likelihood", f(x), c.F(x[0], x[1]))
    P.set_nested_likelihood_module(A, 2)
    W.eq("nested worker", P.nested_logl_worker(x) if not W.sym else P._NESTED_LIKELIHOOD_MODULE(x), A.F(x[0], x[1]))
    P.set_nested_likelihood_module(lambda p: np.nan, 2)
    with quiet():
        W.eq("undefined likelihood gets a very low value", P.nested_logl_worker([0.5, 0.5]), -1e15)
    P.set_nested_likelihood_module(None, None)
    W.raises("worker without likelihood", lambda: P.nested_logl_worker([1, 1]), RuntimeError)
    P.set_sampler_likelihood_module(None)
    W.raises("worker without likelihood ", lambda: P.sampler_logl_worker([1, 1]), RuntimeError)


@contract("C16", "nested sampling", [NS + "__init__", NS + "prior", NS + "log_likelihood"], samples=8, bounded="two parameters", assumes=["scipy truncnorm ppf is an arbitrary function"])
def _nested(W):
    from lenstronomy.Sampling.Samplers.base_nested_sampler import NestedSampler
    from lenstronomy.Util import sampling_util as U

    c = Chain(W)
    mu, sg = W.array("mu", 2, None, None, (0, 0.3)), W.array("sg", 2, 0, None)
    ws, ss = W.choice("width scale", [1, 0.5]), W.choice("sigma scale", [1, 2])
    typ = W.choice("type", ["uniform", "gaussian"])
    if not W.sym:
        mu = c.lo + mu * (c.hi - c.lo)
    N = NestedSampler(c, typ, mu, sg, ws, ss)
    lo, hi = list(c.lo), list(c.hi)
    if typ == "uniform" and ws < 1:
        lo, hi = [(3 * a + b) / 4 for a, b in zip(c.lo, c.hi)], [(a + 3 * b) / 4 for a, b in zip(c.lo, c.hi)]
    u = W.array("u", 2, 0, 1)
    rec = []
    S, F = fake_truncnorm(W, rec)
    cube = W._arr1(list(u))
    with swap(W, (U, "stats", S)):
        p = N.prior(cube)
    for i in range(2):
        if typ == "uniform":
            W.eq("uniform prior maps the cube to the limits", p[i], lo[i] + (hi[i] - lo[i]) * u[i])
        elif W.sym:
            W.eq("Gaussian prior truncated at the limits", p[i], F(u[i], (lo[i] - mu[i]) / (ss * sg[i]), (hi[i] - mu[i]) / (ss * sg[i]), mu[i], ss * sg[i]))
        else:
            from scipy.stats import truncnorm

            W.eq("Gaussian prior", p[i], truncnorm.ppf(u[i], (lo[i] - mu[i]) / (ss * sg[i]), (hi[i] - mu[i]) / (ss * sg[i]), loc=mu[i], scale=ss * sg[i]))
        W.eq("the cube handed in receives the parameters", cube[i], p[i])
    x = W.array("x", 3)  # longer than the number of parameters
    if not W.sym:
        W.eq("log-likelihood of the parameters", N.log_likelihood(x), c.F(x[0], x[1]))
    N._ll = lambda p: [np.nan, -np.inf, np.inf][int(p[0])]
    with quiet():
        for i in range(3):
            W.eq("undefined likelihood gets a very low value", N.log_likelihood([i, 0]), -1e15)
    W.raises("unknown prior", lambda: NestedSampler(c, "other", mu, sg, 1, 1), ValueError)
    W.raises("Gaussian prior needs mean and width", lambda: NestedSampler(c, "gaussian", None, sg, 1, 1), ValueError)


@contract("C16", "nested sampling packages", ["Sampling/Samplers/nautilus.py::Nautilus.nautilus_sampling", "Sampling/Samplers/nautilus.py::Nautilus.likelihood", "Sampling/Samplers/dynesty_sampler.py::DynestySampler.run",
                                             "Sampling/Samplers/nautilus_sampler.py::NautilusSampler.run", "Sampling/Samplers/cobaya_sampler.py::CobayaSampler.run"], samples=8, bounded="two parameters",
          assumes=["nautilus, dynesty and cobaya are replaced by recorders"])
def _pack(W):
    c = Chain(W)
    rec = {"prior": []}
    x = W.array("x", 2)
    which = W.choice("package", ["nautilus", "NautilusSampler", "dynesty", "cobaya"])
    pts = W.array("pts", (3, 2))
    lw = W.array("lw", 3)

    class Prior:
        def add_parameter(self, dist):
            rec["prior"].append(dist)

    class Sampler:
        n_eff, log_z = 4.0, "log_z"

        def __init__(self, prior, likelihood, *a, **k):
            rec.update(p=prior, f=likelihood)

        def run(self, verbose=False):
            rec["run"] = True

        def add_bound(self):
            rec["add"] = True

        def fill_bound(self):
            rec["fill"] = True

        def posterior(self, equal_weight=False, return_as_dict=False):
            return ("equal", "w", "l") if equal_weight else (pts, lw, "lw")

        def evidence(self):
            return "z"

    class Dyn:
        def __init__(self, **k):
            rec.update(f=k["loglikelihood"], p=k["prior_transform"], n=k["ndim"])
            self.results = types.SimpleNamespace(samples=pts, logl="logl", logz=[0.0, 1.0], logzerr="err", logwt=lw + 1.0)

        def run_nested(self, **k):
            rec["run"] = k

    def mean_and_cov(s, w):
        rec["w"] = w
        return "m", "c"

    naut = types.SimpleNamespace(Prior=Prior, Sampler=Sampler)
    dyu = types.SimpleNamespace(mean_and_cov=mean_and_cov, resample_equal=lambda s, w: rec.update(w2=w) or "samples")
    dyn = types.ModuleType("dynesty")
    dyn.utils, dyn.DynamicNestedSampler = dyu, Dyn

    def crun(info):
        rec["info"] = info

        class V:
            values = np.array([3.0, 4.0])

        class BF:
            def __getitem__(self, k):
                rec["keys"] = k
                return V

        return "upd", types.SimpleNamespace(collection=types.SimpleNamespace(bestfit=lambda: BF()))

    cob = types.ModuleType("cobaya")
    cobrun = types.ModuleType("cobaya.run")
    cobrun.run = crun
    cob.run = cobrun
    c.param_limits_ = L2(c)
    with mods(**{"nautilus": naut, "dynesty": dyn, "dynesty.utils": dyu, "cobaya": cob, "cobaya.run": cobrun}), quiet():
        if which == "nautilus":
            from lenstronomy.Sampling.Samplers.nautilus import Nautilus

            one = W.choice("one step", [True, False])
            out = Nautilus(c).nautilus_sampling(one_step=one, verbose=False)
            W.same("one step or full run", ("add" in rec and "fill" in rec, "run" in rec), (one, not one))
            for i in range(2):
                W.eq("lower limit", rec["prior"][i][0], c.lo[i])
                W.eq("upper limit", rec["prior"][i][1], c.hi[i])
            W.same("number of priors", len(rec["prior"]), 2)
            W.eq("likelihood", rec["f"](W._arr1(list(x) + [9.0])), c.F(x[0], x[1]))
            W.true("results", out[1] is lw and out[2] == "lw" and out[3] == "z")
        elif which == "NautilusSampler":
            from lenstronomy.Sampling.Samplers.nautilus_sampler import NautilusSampler

            out = NautilusSampler(c).run(verbose=True)
            u = W.array("u", 2, 0, 1)
            p = rec["p"](W._arr1(list(u)))
            w = [W.exp(q) for q in lw]
            for i in range(2):
                W.eq("prior", p[i], c.lo[i] + (c.hi[i] - c.lo[i]) * u[i])
                W.eq("weighted mean", out[1][i] * (w[0] + w[1] + w[2]), sum(w[k] * pts[k, i] for k in range(3)))
            W.same("equal-weight samples and evidence", (out[0], out[2], out[4]), ("equal", "log_z", "l"))
        elif which == "dynesty":
            from lenstronomy.Sampling.Samplers.dynesty_sampler import DynestySampler

            out = DynestySampler(c).run(dict(a=1))
            u = W.array("u", 2, 0, 1)
            p = rec["p"](W._arr1(list(u)))
            for i in range(2):
                W.eq("prior", p[i], c.lo[i] + (c.hi[i] - c.lo[i]) * u[i])
            w = [W.exp(q) for q in lw]
            for k in range(3):
                W.eq("weights are normalised", rec["w"][k] * (w[0] + w[1] + w[2]), w[k])
                W.eq("weights of the resampling", rec["w2"][k], rec["w"][k])
            W.same("options, results", (rec["run"], out[0], out[1], out[4]), (dict(a=1), "samples", "m", "logl"))
        else:
            from lenstronomy.Sampling.Samplers.cobaya_sampler import CobayaSampler

            mu, sg = W.array("mu", 2), W.array("sg", 2, 0, None)
            prop = W.choice("proposal", [None, [0.1, 0.2], {"a": 0.1, "b": 0.2}])
            out = CobayaSampler(c, mu, sg).run(**(dict(proposal_widths=prop) if prop else {}), latex=["A", "B"])
            pp = rec["info"]["params"]
            W.same("parameters", list(pp), ["a", "b"])
            for i, n in enumerate("ab"):
                W.eq("lower limit", pp[n]["prior"]["min"], c.lo[i])
                W.eq("upper limit", pp[n]["prior"]["max"], c.hi[i])
                W.same("uniform", pp[n]["prior"]["dist"], "uniform")
                W.eq("start value", pp[n]["ref"]["loc"], mu[i])
                W.eq("start width", pp[n]["ref"]["scale"], sg[i])
                W.same("label", pp[n]["latex"], "AB"[i])
                if prop:
                    W.same("proposal width", pp[n]["proposal"], [0.1, 0.2][i])
            f = rec["info"]["likelihood"]["lenstronomy_likelihood"]["external"]
            W.eq("likelihood by parameter name", f(b=x[1], a=x[0]), c.F(x[0], x[1]))
            W.same("best fit in parameter order", (rec["keys"], out[2]), (["a", "b"], [3.0, 4.0]))


@contract("C16", "bounds", ["Sampling/likelihood.py::Likelihood.logL", "Sampling/likelihood.py::Likelihood.check_bounds", "Sampling/likelihood.py::Likelihood.__call__", "Sampling/likelihood.py::Likelihood.likelihood", "Sampling/likelihood.py::Likelihood.negativelogL", "Sampling/likelihood.py::Likelihood.param_limits"],
          samples=10, bounded="two parameters", assumes=["arbitrary log-likelihood of the model (C14)"])
def _bounds(W):
    from lenstronomy.Sampling.likelihood import Likelihood

    lo, wd = W.array("lo", 2), W.array("wd", 2, 0, None, (0.5, 3))
    hi = lo + wd
    F = W.uf("logL", 2)
    L = object.__new__(Likelihood)
    L._lower_limit, L._upper_limit = lo, hi
    L._check_bounds = W.choice("check", [True, False])
    L.param = types.SimpleNamespace(args2kwargs=lambda a: {"a": a})
    x = W.array("x", 2)
    entry = W.choice("entry", ["logL", "__call__", "likelihood", "negativelogL"])
    with swap(W, (Likelihood, "log_likelihood", lambda self, kw, verbose=False: F(kw["a"][0], kw["a"][1])), both=True):
        v = getattr(L, entry)(x)
    if entry == "negativelogL":
        v = -v
    inside = bool(lo[0] <= x[0]) and bool(x[0] <= hi[0]) and bool(lo[1] <= x[1]) and bool(x[1] <= hi[1])
    W.eq("likelihood inside, penalty outside of the bounds", v, F(x[0], x[1]) if inside or not L._check_bounds else -(10**18))
    a, b = L.param_limits
    for i in range(2):
        W.eq("lower limit", a[i], lo[i])
        W.eq("upper limit", b[i], hi[i])

"""The two worlds a contract is executed in.

A contract is a Python function  body(W)  which declares its inputs (W.real, W.array, ...), states
preconditions (W.assume), calls the real lenstronomy code and states postconditions
(W.eq, W.true, W.le).

SymW   - inputs are symbolic, the real code is executed on terms, every feasible path is explored
         and every postcondition becomes an obligation (path conditions |= postcondition).
FloatW - inputs are machine floats (random or a counterexample), the plain code is executed and
         postconditions are evaluated with tolerances.
"""
import math
import random
import numpy as np
from fractions import Fraction

CONTRACTS = {}


class Contract:
    def __init__(self, prop, name, body, fns, bounded=None, samples=8, sym=True, timeout=60, max_paths=200,
                 assumes=(), thorough_only=False, numba=False):
        self.prop = prop
        self.name = name
        self.body = body
        self.fns = list(fns)
        self.bounded = bounded  # text of the bound if the statement is only for bounded structure
        self.samples = samples
        self.sym = sym
        self.timeout = timeout
        self.max_paths = max_paths
        self.assumes = list(assumes)
        self.thorough_only = thorough_only


def contract(prop, name, fns, **kw):
    def deco(body):
        key = prop + ":" + name
        if key in CONTRACTS:
            raise RuntimeError("duplicate contract " + key)
        CONTRACTS[key] = Contract(prop, name, body, fns, **kw)
        return body

    return deco


class Discard(Exception):
    """the float sample does not satisfy the precondition"""


class Input:
    __slots__ = ("name", "lo", "hi", "smp", "kind")

    def __init__(self, name, lo, hi, smp, kind="real"):
        self.name = name
        self.lo = lo
        self.hi = hi
        self.smp = smp
        self.kind = kind


def _smp(lo, hi, smp):
    if smp is not None:
        return smp
    if lo is not None and hi is not None:
        return (lo, hi)
    if lo is not None:
        return (lo + 0.2, lo + 2.0)
    return (-2.0, 2.0)


class Base:
    def reals(self, names, lo=None, hi=None, smp=None):
        return [self.real(n, lo, hi, smp) for n in names.split()]

    def array(self, name, n, lo=None, hi=None, smp=None):
        shape = (int(n),) if isinstance(n, (int, np.integer)) else tuple(n)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.real(name + "_" + "_".join(map(str, i)), lo, hi, smp)
        return self._arr(out)


# ---------------------------------------------------------------------- float world
class FloatW(Base):
    sym = False

    def __init__(self, seed=0, assign=None, wide=False):
        self.rng = random.Random(seed)
        self.npr = np.random.RandomState(self.rng.randrange(1 << 31))
        self.assign = assign or {}
        self.wide = wide
        self.values = {}
        self.failures = []
        self.checked = 0
        self.notes = []

    def _arr(self, a):
        return a.astype(float)

    def _arr1(self, a):
        return self.mat([list(a)])[0]

    def mat(self, a):
        return np.array(a, dtype=float)

    def real(self, name, lo=None, hi=None, smp=None):
        if name in self.values:
            return self.values[name]
        if name in self.assign:
            v = float(self.assign[name])
        else:
            a, b = _smp(lo, hi, smp)
            if self.wide and self.rng.random() < 0.3:
                v = self._wide(lo, hi, a, b)
            else:
                v = self.rng.uniform(a, b)
        self.values[name] = v
        return v

    def _wide(self, lo, hi, a, b):
        r = self.rng.random()
        if r < 0.3:
            c = [x for x in (0.0, 1.0, -1.0, 2.0, 0.5, -0.5) if (lo is None or x > lo) and (hi is None or x < hi)]
            if c:
                return self.rng.choice(c)
        if lo is not None and lo >= 0:
            return lo + (b - lo) * 10 ** self.rng.uniform(-2, 0)
        return self.rng.uniform(a, b)

    def choice(self, name, options):
        """a structural choice: enumerated in both worlds"""
        options = list(options)
        k = "choice:" + name
        if k in self.assign:
            i = int(self.assign[k])
        else:
            i = self.rng.randrange(len(options))
        self.values[k] = i
        return options[i]

    def uf(self, name, arity, kind="smooth"):
        """an arbitrary smooth function: a random trigonometric polynomial"""
        rs = random.Random("uf" + name)
        co = [(rs.uniform(-1, 1), [rs.uniform(-0.8, 0.8) for _ in range(arity)], rs.uniform(0, 6.28)) for _ in range(4)]

        def f(*a):
            s = 0.0
            for c, w, ph in co:
                arg = ph
                for wi, ai in zip(w, a):
                    arg = arg + wi * ai
                s = s + c * np.sin(arg)
            return s

        return f

    def uf_diff(self, name, arity, *ks):
        rs = random.Random("uf" + name)
        co = [(rs.uniform(-1, 1), [rs.uniform(-0.8, 0.8) for _ in range(arity)], rs.uniform(0, 6.28)) for _ in range(4)]
        n = len(ks)

        def f(*a):
            s = 0.0
            for c, w, ph in co:
                arg = ph + n * math.pi / 2
                for wi, ai in zip(w, a):
                    arg = arg + wi * ai
                k = c
                for j in ks:
                    k = k * w[j]
                s = s + k * np.sin(arg)
            return s

        return f

    def assume(self, *cs):
        if not all(np.all(c) for c in cs):
            raise Discard()

    def eq(self, label, a, b, rtol=1e-7, atol=1e-9):
        a = np.asarray(a)
        b = np.asarray(b)
        self.checked += 1
        try:
            a, b = np.broadcast_arrays(a, b)
        except ValueError:
            self.failures.append((label, "shape %s != %s" % (a.shape, b.shape)))
            return
        err = getattr(b, "_lv_err", 0)
        self._cmp(label, a, b, rtol, atol, err)

    def same(self, label, a, b):
        """structural equality of plain Python data"""
        self.checked += 1
        if not _same(a, b):
            self.failures.append((label, "%r != %r" % (_short(a), _short(b))))

    def shape(self, label, a, shape):
        self.checked += 1
        if np.shape(a) != tuple(shape):
            self.failures.append((label, "shape %s, expected %s" % (np.shape(a), tuple(shape))))

    def _cmp(self, label, a, b, rtol, atol, err):
        af, bf = a.astype(complex).reshape(-1), b.astype(complex).reshape(-1)
        ef = np.broadcast_to(np.asarray(err, dtype=float), a.shape).reshape(-1)
        for i in range(af.size):
            u, v = af[i], bf[i]
            if np.isnan(u) and np.isnan(v):
                continue
            if u == v:
                continue
            tol = atol + rtol * max(abs(u), abs(v)) + ef[i]
            if not (abs(u - v) <= tol):
                self.failures.append((label, "%s[%d]: %r != %r (tol %.2g)" % (label, i, _r(u), _r(v), tol)))
                return

    def eq_grad(self, label, f, at, got, rtol=1e-4, atol=1e-6, scale=None):
        """got[i] == d f / d at[i]; f takes len(at) floats"""
        self.checked += 1
        for i in range(len(at)):
            if got[i] is None:
                continue
            h0 = (scale or 1.0) * 2e-3 * max(0.5, min(1.0, abs(at[i])))
            est = []
            for h in (h0, h0 / 2, h0 / 4):
                def v(s):
                    z = list(at)
                    z[i] = z[i] + s
                    return np.asarray(f(*z), dtype=float)
                est.append((8 * (v(h) - v(-h)) - (v(2 * h) - v(-2 * h))) / (12 * h))
            e = np.maximum(abs(est[0] - est[1]), abs(est[1] - est[2]))
            g = np.asarray(got[i], dtype=float)
            g, d, e = np.broadcast_arrays(g, est[2], e)
            if not np.all(np.isfinite(d)):
                f0 = np.asarray(f(*at), dtype=float)
                if not np.all(np.isfinite(f0)):
                    self.failures.append(("%s[d%d]" % (label, i), "the function is %r" % (f0,)))
                else:
                    self.notes.append("%s: finite difference undefined" % label)
                continue
            self._cmp("%s[d%d]" % (label, i), g, d, rtol, atol, 20 * e)

    def eq_fd(self, label, f, at, got, sym_f=None, rtol=1e-3, atol=1e-5):
        self.eq_grad(label, f, at, got, rtol, atol)

    def true(self, label, c):
        self.checked += 1
        if not np.all(c):
            self.failures.append((label, "condition false"))

    def le(self, label, a, b, slack=1e-9):
        self.checked += 1
        if not np.all(np.asarray(a) <= np.asarray(b) + slack * (1 + np.abs(b))):
            self.failures.append((label, "%r <= %r is false" % (a, b)))

    def raises(self, label, f, *exc):
        self.checked += 1
        try:
            f()
        except exc:
            return
        self.failures.append((label, "no %s raised" % (exc,)))

    def float(self, x):
        return float(x)

    def const(self, x):
        return x

    # elementary functions usable in specifications
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(np, n)


def _r(u):
    return u.real if u.imag == 0 else u


def _short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def _same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return all(_same(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1)))
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return a is b


# ---------------------------------------------------------------------- symbolic world
class Obligation:
    __slots__ = ("label", "kind", "terms", "conds", "assumptions", "domains", "choices", "path", "inputs", "tol")


class SymW(Base):
    sym = True

    def __init__(self, ex, choices=None):
        from . import sym, terms, shim

        self._s = sym
        self._t = terms
        self._shim = shim
        self.ex = ex
        self.inputs = {}
        self.obs = []
        self.choice_script = choices or []
        self.choice_trace = []
        self.choice_names = {}
        self.vals = {}

    def _arr(self, a):
        return a

    def _arr1(self, a):
        return self.mat([list(a)])[0]

    def mat(self, a):
        return self._shim.obj(a)

    def real(self, name, lo=None, hi=None, smp=None):
        if name in self.vals:
            return self.vals[name]
        T = self._t
        pos = lo is not None and lo >= 0
        neg = hi is not None and hi <= 0
        iname = name + ("+" if pos else "-" if neg else "")
        t = T.var(iname, "pos" if pos else "neg" if neg else None)
        self.inputs[iname] = Input(name, lo, hi, _smp(lo, hi, smp))
        if (lo is not None and lo != 0) or (hi is not None and hi != 0):
            self.ex.domains[iname] = (lo if lo not in (None, 0) else None, hi if hi not in (None, 0) else None)
        v = self._s.R(t)
        self.vals[name] = v
        return v

    def choice(self, name, options):
        options = list(options)
        i = len(self.choice_trace)
        k = self.choice_script[i] if i < len(self.choice_script) else 0
        self.choice_trace.append((k, len(options)))
        self.choice_names["choice:" + name] = k
        return options[k]

    def uf(self, name, arity, kind="smooth"):
        T, S = self._t, self._s

        def f(*a):
            return self._map(lambda *z: S.wrap(T.fn("uf:" + name, *[S.term(x) for x in z])), *a)

        return f

    def uf_diff(self, name, arity, *ks):
        T, S = self._t, self._s

        def one(*z):
            vs = [T.var("uf!arg%d" % i) for i in range(arity)]
            t = T.fn("uf:" + name, *vs)
            for k in ks:
                t = T.diff(t, vs[k])
            return S.wrap(T.subst(t, {vs[i]: S.term(z[i]) for i in range(arity)}))

        return lambda *a: self._map(one, *a)

    def _map(self, g, *a):
        if any(isinstance(x, np.ndarray) and x.shape for x in a):
            b = np.broadcast_arrays(*[self._shim.obj(x) for x in a])
            out = np.empty(b[0].shape, dtype=object)
            for i in np.ndindex(*out.shape):
                out[i] = g(*[x[i] for x in b])
            return out
        return g(*a)

    def assume(self, *cs):
        S = self._s
        for x in [x for c in cs for x in (c.reshape(-1) if isinstance(c, np.ndarray) else [c])]:
            if isinstance(x, S.B):
                v = S.sign_truth(x.t, x.rel)
                if v is not None:
                    if v == x.neg:
                        raise S.PathEnd("assumption false")
                    continue
                self.ex.assumptions.append((x.rel, x.t, not x.neg))
            elif not x:
                raise S.PathEnd("assumption false")

    def _ob(self, label, kind, terms, tol=(0, 1e-12)):
        o = Obligation()
        o.tol = tol
        o.label = label
        o.kind = kind
        o.terms = terms
        o.conds = list(self.ex.conds)
        o.assumptions = list(self.ex.assumptions)
        o.domains = dict(self.ex.domains)
        o.choices = dict(self.choice_names)
        o.path = len(self.ex.trace)
        o.inputs = self.inputs
        self.obs.append(o)

    def eq(self, label, a, b, rtol=1e-7, atol=1e-9):
        S, T = self._s, self._t
        a, b = self._shim.obj(a), self._shim.obj(b)
        try:
            a, b = np.broadcast_arrays(a, b)
        except ValueError:
            self._ob(label, "false", ["shape %s != %s" % (a.shape, b.shape)])
            return
        ts = []
        for u, v in zip(a.reshape(-1), b.reshape(-1)):
            if isinstance(u, (S.C, complex)) or isinstance(v, (S.C, complex)):
                u, v = S.C.of(u), S.C.of(v)
                ts.append(T.sub(S.term(u.re), S.term(v.re)))
                ts.append(T.sub(S.term(u.im), S.term(v.im)))
                continue
            tu, tv = S.term(u), S.term(v)
            if tu is None or tv is None:
                raise S.Unsupported("%s: comparison of %r and %r" % (label, type(u), type(v)))
            if tu is tv:
                continue
            ts.append(T.sub(tu, tv))
        self._ob(label, "eq", ts, (rtol, atol))

    def same(self, label, a, b):
        S, T = self._s, self._t
        ts = []

        def go(x, y):
            if isinstance(x, dict) and isinstance(y, dict):
                return set(x) == set(y) and all(go(x[k], y[k]) for k in x)
            if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
                x, y = self._shim.obj(x), self._shim.obj(y)
                return x.shape == y.shape and all(go(p, q) for p, q in zip(x.reshape(-1), y.reshape(-1)))
            if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
                return len(x) == len(y) and all(go(p, q) for p, q in zip(x, y))
            if isinstance(x, (S.R, S.E)) or isinstance(y, (S.R, S.E)):
                p, q = S.term(x), S.term(y)
                if p is None or q is None:
                    return False
                if p is not q:
                    ts.append(T.sub(p, q))
                return True
            try:
                return bool(x == y) or (x != x and y != y)
            except Exception:
                return x is y

        if go(a, b):
            self._ob(label, "eq", ts)
        else:
            self._ob(label, "false", ["%s != %s" % (_short(a), _short(b))])

    def shape(self, label, a, shape):
        s = np.shape(self._shim.obj(a)) if not isinstance(a, (int, float)) else ()
        if s == tuple(shape):
            self._ob(label, "eq", [])
        else:
            self._ob(label, "false", ["shape %s expected %s" % (s, tuple(shape))])

    def eq_grad(self, label, f, at, got, rtol=1e-4, atol=1e-6, scale=None):
        S, T = self._s, self._t
        vs = []
        for i, z in enumerate(at):
            t = S.term(z)
            if t.op != "v":
                raise S.Unsupported("gradient with respect to a non-variable")
            vs.append(t)
        val = f(*at)
        val = self._shim.obj(val)
        n0 = len(self.ex.conds)
        for i in range(len(at)):
            if got[i] is None:
                continue
            g = self._shim.obj(got[i])
            g, v = np.broadcast_arrays(g, val)
            ts = []
            for u, w in zip(g.reshape(-1), v.reshape(-1)):
                try:
                    d = T.diff(S.term(w), vs[i])
                except T.NoDerivative as e:
                    raise S.Unsupported("derivative: %s" % e)
                ts.append(T.sub(S.term(u), d))
            # on a path that fixes the differentiation variables to a null set the branch cannot be
            # differentiated: such a path is left to the float world
            null = any(rel == "==" and val and (T.variables(t) & {v.a for v in vs}) for rel, t, val in self.ex.conds)
            self._ob("%s[d%d]" % (label, i), "null" if null else "eq", [t for t in ts if t is not T.ZERO], (rtol, atol))

    def eq_fd(self, label, f, at, got, sym_f=None, rtol=1e-3, atol=1e-5):
        """got[i] is a finite-difference quotient of f with respect to at[i], with some step h
        between 1e-10 and 1e-4, forward or central"""
        S, T = self._s, self._t
        g = sym_f or f
        for i in range(len(at)):
            if got[i] is None:
                continue
            cands = []
            for k in range(4, 12):
                h = S.mkE(T.const(Fraction(1, 10 ** k)))
                up, dn, up2, dn2 = (list(at) for _ in range(4))
                up[i] = at[i] + h
                dn[i] = at[i] - h
                up2[i] = at[i] + h / 2
                dn2[i] = at[i] - h / 2
                cands.append((g(*up) - g(*at)) / h)
                cands.append((g(*up) - g(*dn)) / (2 * h))
                cands.append((g(*up2) - g(*dn2)) / h)
            self._ob("%s[d%d]" % (label, i), "anyeq", [T.sub(S.term(got[i]), S.term(c)) for c in cands], (rtol, atol))

    def true(self, label, c):
        S = self._s
        xs = c.reshape(-1) if isinstance(c, np.ndarray) else [c]
        rest = []
        for x in xs:
            if isinstance(x, S.B):
                rest.append((x.rel, x.t, not x.neg))
            elif not x:
                self._ob(label, "false", ["condition false"])
                return
        self._ob(label, "holds", rest)

    def le(self, label, a, b, slack=1e-9):
        self.true(label, self._shim.obj(a) <= self._shim.obj(b))

    def raises(self, label, f, *exc):
        try:
            f()
        except exc:
            self._ob(label, "eq", [])
            return
        self._ob(label, "false", ["no %s raised" % (exc,)])

    def float(self, x):
        return x

    def const(self, x):
        """an exact constant from a decimal literal"""
        return self._s.mkE(self._t.from_float(x)) if isinstance(x, float) else x

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self._shim.NP, n)

"""Generates and discharges the obligations of one contract (symbolic world)."""
import random
import time
import traceback
from fractions import Fraction
import mpmath
from . import terms as T
from . import pit, smt, numeric, shim
from .sym import Explorer, Unsupported, PathEnd
from .world import SymW


def explore(con):
    """-> list of (obligations, conds, assumptions, domains, inputs, choices) per path"""
    work = [[]]
    paths = []
    errors = []
    nch = 0
    while work:
        script = work.pop()
        nch += 1
        ex = Explorer(max_paths=con.max_paths)
        info = {}

        def fn(e):
            W = SymW(e, script)
            shim.ACTIVE[0] = True
            err = None
            try:
                con.body(W)
            except PathEnd:
                raise
            except Unsupported as u:
                err = "unsupported: %s" % u
            except RecursionError:
                err = "unsupported: recursion"
            except TimeoutError:
                raise
            except Exception as x:
                tb = traceback.extract_tb(x.__traceback__)
                loc = "; ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in tb[-3:])
                err = "raised %s: %s at %s" % (type(x).__name__, str(x)[:200], loc)
            finally:
                shim.ACTIVE[0] = False
                info["trace"] = W.choice_trace
            paths.append(dict(obs=W.obs, conds=list(e.conds), assumptions=list(e.assumptions),
                              domains=dict(e.domains), inputs=W.inputs, choices=dict(W.choice_names), err=err))

        ex.run(fn)
        tr = info.get("trace", [])
        for i in range(len(script), len(tr)):
            k, n = tr[i]
            for j in range(1, n):
                work.append([q[0] for q in tr[:i]] + [j])
    return paths


# ---------------------------------------------------------------- sampling of points on a path
def _rand_value(rng, inp, mode):
    a, b = inp.smp
    lo, hi = inp.lo, inp.hi
    if mode == 0:
        v = rng.uniform(a, b)
    elif mode == 1:
        if lo is not None and lo >= 0:
            v = lo + (10 ** rng.uniform(-3, 3))
        else:
            v = rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 3)
    else:
        v = rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, 3.0, a, b])
    if lo is not None and v <= lo:
        v = lo + (b - lo) * rng.uniform(0.01, 1) if b > lo else a
    if hi is not None and v >= hi:
        v = a + (hi - a) * rng.uniform(0.01, 0.99) if hi > a else b
    return Fraction(repr(v)) if v == v else Fraction(0)


def holds(conds, env, dps=30):
    """do the conditions hold at env (numerically)?  equality to 1e-20"""
    ts = [c[1] for c in conds]
    if not ts:
        return True
    try:
        vals = numeric.evaluate(ts, env, dps)
    except numeric.Undefined:
        return False
    for (rel, _, val), v in zip(conds, vals):
        tr = {"<": v < -1e-22, "<=": v <= 1e-22, "==": abs(v) < 1e-20}[rel]
        if bool(tr) != val:
            return False
    return True


def solve_eq(conds, rng):
    """substitution from equality conditions that are linear in some variable"""
    sub = {}
    for rel, t, val in conds:
        if not (rel == "==" and val):
            continue
        t = T.subst(t, sub) if sub else t
        done = False
        for v in sorted(T.variables(t)):
            tv = T.var(v, T.VARSIGN.get(v))
            try:
                d = T.diff(t, tv)
            except T.NoDerivative:
                continue
            if v in T.variables(d) or d is T.ZERO:
                continue
            t0 = T.subst(t, {tv: T.ZERO})
            e = T.div(T.neg(t0), d)
            if T.VARSIGN.get(v) in ("pos",) and T.sign(e) not in ("pos",):
                continue
            sub = {k: T.subst(x, {tv: e}) for k, x in sub.items()}
            sub[tv] = e
            done = True
            break
        if not done:
            return None
    return sub


class Sampler:
    def __init__(self, path, seed):
        self.path = path
        self.rng = random.Random("smp%s" % seed)
        self.conds = path["conds"] + path["assumptions"]
        self.sub = solve_eq(self.conds, self.rng)

    def points(self, n, tries=400):
        """up to n points (dict internal name -> Fraction/mpf) satisfying path conditions"""
        out = []
        if self.sub is None:
            out += self._model()
            return out[:n]
        names = list(self.path["inputs"].items())
        k = 0
        while len(out) < n and k < tries:
            k += 1
            env = {}
            m = 0 if k < tries // 3 else None
            for iname, inp in names:
                env[iname] = _rand_value(self.rng, inp, self.rng.choice([0, 0, 1, 2]) if m is None else 0)
            if self.sub:
                try:
                    keys = list(self.sub)
                    vs = numeric.evaluate([self.sub[q] for q in keys], env, 30)
                except numeric.Undefined:
                    continue
                bad = False
                for q, v in zip(keys, vs):
                    inp = self.path["inputs"].get(q.a)
                    if inp is not None and ((inp.lo is not None and v < inp.lo) or (inp.hi is not None and v > inp.hi)):
                        bad = True
                    env[q.a] = v
                if bad:
                    continue
            if holds(self.conds, env):
                out.append(env)
            elif k == tries // 2 and not out:
                out += self._model()
        if not out:
            out += self._model()
        return out[:n]

    def _model(self):
        try:
            r, m = smt.solve(self.conds, self.path["domains"], 1500)
        except Exception:
            return []
        if r != "sat" or m is None:
            return []
        env = {}
        for iname, inp in self.path["inputs"].items():
            v = m.get(iname)
            if v is None:
                v = _rand_value(self.rng, inp, 0)
            env[iname] = v
        return [env] if holds(self.conds, env) else []


# ---------------------------------------------------------------- discharge
def signed_nodes(ts, facts, domains, limit=10):
    """sums under roots whose sign is implied by the facts, oriented to be positive"""
    roots = []
    for n in T.topo(ts):
        if n.op == "^" and not (n.a[1].op == "c" and n.a[1].a.denominator == 1):
            roots.append(n.a[0])
        elif n.op == "f" and n.a[0] in ("arctan2", "abs", "sign", "arccos", "arcsin", "log"):
            roots.extend(n.a[1])
    cand = [n for n in T.topo(roots) if n.op == "+" and len(T.variables(n)) <= 4] if roots else []
    cand.sort(key=lambda n: len(T.variables(n)))
    out = []
    t_end = time.time() + 6
    for n in cand[:40]:
        if time.time() > t_end or len(out) >= limit:
            break
        sg = T.sign(n)
        if sg == "pos" or sg == "neg":
            out.append(n if sg == "pos" else T.neg(n))
            continue
        if not facts and not domains:
            continue
        try:
            if smt.solve(list(facts) + [("<", n, True)], domains, 500)[0] == "unsat":
                out.append(n)
            elif smt.solve(list(facts) + [("<=", n, False)], domains, 500)[0] == "unsat":
                out.append(T.neg(n))
        except Exception:
            continue
    return out


def discharge(ob, path, seed, smp, deadline):
    """-> dict(status, backend, cex)"""
    if ob.kind == "false":
        return dict(status="refuted", backend="structural", cex=None, why=str(ob.terms[0])[:300])
    if ob.kind == "null":
        return dict(status="null", backend="none", why="path fixes the differentiation variables to a null set")
    if ob.kind == "anyeq":
        for t in ob.terms:
            if t is T.ZERO:
                return dict(status="proved", backend="syntactic")
            try:
                r, info = pit.is_zero([t], seed, 3, {}, [], 2000, 3)
            except (ZeroDivisionError, ArithmeticError, ValueError):
                continue
            if r is True:
                return dict(status="proved", backend="pit", why=info)
        return dict(status="unknown", backend="pit", why="no candidate identity holds")
    if ob.kind == "eq":
        ts = [t for t in ob.terms if t is not T.ZERO]
        if not ts:
            return dict(status="proved", backend="syntactic")
        nan = [t for t in ts if _has_nan(t)]
        if nan:
            return dict(status="unknown", backend="undefined", why="the result is undefined on this path")
        facts = ob.conds + ob.assumptions
        eqs = solve_eq(facts, None)
        if eqs is None:
            eqs = {}
        positive = []
        for rel, t, val in facts:
            if rel == "<" and val or rel == "<=" and val:
                positive.append(T.neg(t))
            elif rel in ("<", "<=") and not val:
                positive.append(t)
        positive = [q for q in positive if T.sign(q) not in ("pos",)]
        # numeric first: cheap refutation
        pts = smp(6)
        cex = None
        numeric_ok = 0
        for env in pts:
            try:
                scale = numeric.evaluate(ts, env, 40)
            except numeric.Undefined:
                continue
            numeric_ok += 1
            for t, v in zip(ts, scale):
                if abs(v) > ob.tol[1] + ob.tol[0] * _mag(t, env):
                    cex = env
                    break
            if cex:
                break
        if cex is not None:
            return dict(status="refuted", backend="mpmath", cex=cex, why="differs by %s" % mpmath.nstr(v, 8))
        if time.time() > deadline:
            return dict(status="unknown", backend="timeout", why="time budget")
        try:
            r, info = pit.is_zero(ts, seed, 3, eqs, positive, 6000, min(8, max(1, deadline - time.time())))
        except (ZeroDivisionError, ArithmeticError, ValueError) as e:
            r, info = None, "pit: %r" % e
        if r is not True:
            # facts may not be samplable
            try:
                r2, info2 = pit.is_zero(ts, seed + 1, 3, eqs, [], 12000, min(12, max(1, deadline - time.time())))
            except (ZeroDivisionError, ArithmeticError, ValueError) as e:
                r2, info2 = None, "pit: %r" % e
            if r2 is True:
                r, info = True, info2
            elif time.time() < deadline:
                more = signed_nodes(ts, facts, ob.domains)
                if more:
                    try:
                        r2, info2 = pit.is_zero(ts, seed + 2, 3, eqs, positive + more, 12000, min(12, max(1, deadline - time.time())))
                        if r2 is not True and positive:
                            r2, info2 = pit.is_zero(ts, seed + 3, 3, eqs, more, 12000, min(12, max(1, deadline - time.time())))
                    except (ZeroDivisionError, ArithmeticError, ValueError) as e:
                        r2, info2 = None, "pit: %r" % e
                    if r2 is True:
                        r, info = True, info2
        if r is True and numeric_ok:
            return dict(status="proved", backend="pit", why=info)
        if r is True:
            # no numeric cross check available
            return dict(status="proved", backend="pit-nocross", why=info)
        return dict(status="unknown", backend="pit", why="%s; numerically consistent at %d points" % (info, numeric_ok))
    # inequalities
    bad = []
    for rel, t, val in ob.terms:
        from .sym import sign_truth

        v = sign_truth(t, rel)
        if v is not None and v == val:
            continue
        r, m = smt.solve(ob.conds + ob.assumptions + [(rel, t, not val)], ob.domains, 4000)
        if r == "unsat":
            continue
        # numeric refutation
        for env in smp(10):
            if not holds([(rel, t, val)], env):
                try:
                    (x,) = numeric.evaluate([t], env, 30)
                except numeric.Undefined:
                    continue
                if abs(x) > 1e-15:
                    return dict(status="refuted", backend="z3", cex=env, why="inequality fails")
        if r == "sat" and m:
            env = {}
            for iname, inp in path["inputs"].items():
                env[iname] = m.get(iname, Fraction(1))
            if holds(ob.conds + ob.assumptions, env) and not holds([(rel, t, val)], env):
                return dict(status="refuted", backend="z3", cex=env, why="inequality fails")
        bad.append(r)
    if bad:
        return dict(status="unknown", backend="z3", why=str(bad))
    return dict(status="proved", backend="z3" if ob.terms else "syntactic")


def _mag(t, env):
    """size of the summands of t, for a relative comparison"""
    if t.op == "+":
        try:
            return sum(abs(v) for v in numeric.evaluate(list(t.a), env, 40))
        except numeric.Undefined:
            return mpmath.mpf(1)
    return mpmath.mpf(1)


def _has_nan(t):
    for n in T.topo([t]):
        if n is T.NAN or n is T.INF:
            return True
    return False


def public(env, path):
    """counterexample in the contract's own input names"""
    out = {}
    for iname, inp in path["inputs"].items():
        if iname in env:
            out[inp.name] = float(env[iname])
    out.update(path["choices"])
    return out


def prove(con, seed=1, budget=60.0, witnesses=2):
    t0 = time.time()
    deadline = t0 + budget
    smt.STATS.update(queries=0, sat=0, unsat=0, unknown=0, time=0.0)
    res = dict(contract=con.prop + ":" + con.name, obligations=[], witnesses=[], errors=[], paths=0)
    try:
        paths = explore(con)
    except Unsupported as u:
        res["errors"].append("unsupported: %s" % u)
        paths = []
    res["paths"] = len(paths)
    for pi, path in enumerate(paths):
        sm = Sampler(path, "%s/%s" % (seed, pi))
        cache = []

        def smp(n, sm=sm, cache=cache):
            if len(cache) < n and not getattr(sm, "full", False):
                cache[:] = sm.points(max(n, 6), 120)
                sm.full = True
            return cache[:n]

        if path["err"]:
            res["errors"].append(path["err"])
        for ob in path["obs"]:
            if time.time() > deadline:
                r = dict(status="unknown", backend="timeout", why="time budget")
            else:
                r = discharge(ob, path, seed, smp, deadline)
            r["label"] = ob.label
            r["conds"] = ["%s %s 0 is %s" % (T.show(c[1], 8), c[0], c[2]) for c in ob.conds]
            r["path"] = pi
            if r.get("cex") is not None:
                r["cex"] = public(r["cex"], path)
            elif r["status"] == "refuted":
                pts = smp(2)
                r["cex"] = public(pts[0], path) if pts else dict(path["choices"])
            res["obligations"].append(r)
        if len(paths) > 1 or path["choices"]:
            for env in smp(witnesses):
                res["witnesses"].append(public(env, path))
    res["time"] = time.time() - t0
    res["z3"] = dict(smt.STATS)
    return res

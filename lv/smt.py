"""SMT side: feasibility of path conditions and entailment of inequalities (z3, reals)."""
import sys
from . import terms as T

_z3 = None


def z3mod():
    global _z3
    if _z3 is None:
        p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        if p not in sys.path:
            sys.path.append(p)
        import z3

        _z3 = z3
    return _z3


STATS = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "time": 0.0}


class Ctx:
    def __init__(self):
        self.z3 = z3mod()
        self.memo = {}
        self.side = []
        self.n = 0
        self.trig = {}

    def fresh(self, pre="k"):
        self.n += 1
        return self.z3.Real("%s!%d" % (pre, self.n))

    def tr(self, t):
        for n in T.topo([t]):
            if n not in self.memo:
                self.memo[n] = self._tr(n)
        return self.memo[t]

    def _tr(self, n):
        z3 = self.z3
        op = n.op
        if op == "c":
            return z3.RealVal(str(n.a))
        if op == "v":
            v = z3.Real(n.a)
            s = T.VARSIGN.get(n.a)
            if s == "pos":
                self.side.append(v > 0)
            elif s == "nonneg":
                self.side.append(v >= 0)
            return v
        if op == "+":
            return z3.Sum([self.memo[k] for k in n.a])
        if op == "*":
            return z3.Product([self.memo[k] for k in n.a])
        if op == "^":
            b, e = n.a
            zb = self.memo[b]
            if e.op == "c" and abs(e.a.numerator) <= 12 and e.a.denominator <= 6:
                q = e.a
                r = zb
                if q.denominator != 1:
                    r = self.fresh("root")
                    self.side.append(r >= 0)
                    self.side.append(self._ipow(r, q.denominator) == zb)
                    self.side.append(zb >= 0)
                k = self._ipow(r, abs(q.numerator))
                if q.numerator < 0:
                    v = self.fresh("inv")
                    self.side.append(v * k == 1)
                    return v
                return k
            v = self.fresh("pow")
            if T.sign(b) == "pos":
                self.side.append(v > 0)
            elif T.sign(b) == "nonneg":
                self.side.append(v >= 0)
            return v
        name, args = n.a
        v = self.fresh(name.replace(":", "_"))
        a = [self.memo[k] for k in args]
        if name == "pi":
            self.side += [v > z3.RealVal("3.14159265358979"), v < z3.RealVal("3.14159265358980")]
        elif name in ("exp", "cosh"):
            self.side.append(v > 0)
            if name == "exp":
                self.side.append(v >= 1 + a[0])
        elif name in ("cos", "sin", "tanh", "erf"):
            self.side += [v >= -1, v <= 1]
            if name in ("cos", "sin"):
                pr = self.trig.setdefault(args[0], {})
                pr[name] = v
                if len(pr) == 2:
                    self.side.append(pr["cos"] * pr["cos"] + pr["sin"] * pr["sin"] == 1)
        elif name == "abs":
            self.side += [v >= 0, z3.Or(v == a[0], v == -a[0])]
        elif name == "log":
            self.side += [v <= a[0] - 1, a[0] > 0]
        elif name == "arctan":
            self.side += [z3.Implies(a[0] > 0, v > 0), z3.Implies(a[0] < 0, v < 0), v < 2, v > -2]
        elif name == "floor":
            self.side += [v <= a[0], v > a[0] - 1]
        s = T.sign(n)
        if s == "pos":
            self.side.append(v > 0)
        elif s == "nonneg":
            self.side.append(v >= 0)
        return v

    def _ipow(self, b, k):
        r = b
        for _ in range(k - 1):
            r = r * b
        return r if k else self.z3.RealVal(1)

    def rel(self, rel, t, val):
        z = self.tr(t)
        f = {"<": z < 0, "<=": z <= 0, "==": z == 0}[rel]
        return f if val else self.z3.Not(f)


def solve(conds, domains=None, ms=400):
    """conds: list of (rel, term, truth).  -> ('sat'|'unsat'|'unknown', model dict or None)"""
    import time

    z3 = z3mod()
    t0 = time.time()
    ctx = Ctx()
    s = z3.Solver()
    s.set("timeout", int(ms))
    for c in conds:
        s.add(ctx.rel(*c))
    for name, (lo, hi) in (domains or {}).items():
        v = z3.Real(name)
        if lo is not None:
            s.add(v >= z3.RealVal(str(lo)))
        if hi is not None:
            s.add(v <= z3.RealVal(str(hi)))
    for f in ctx.side:
        s.add(f)
    r = s.check()
    STATS["queries"] += 1
    STATS[str(r)] += 1
    STATS["time"] += time.time() - t0
    if r == z3.sat:
        m = s.model()
        out = {}
        for d in m.decls():
            v = m[d]
            try:
                if z3.is_rational_value(v):
                    from fractions import Fraction

                    out[d.name()] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                elif z3.is_algebraic_value(v):
                    a = v.approx(20)
                    from fractions import Fraction

                    out[d.name()] = Fraction(a.numerator_as_long(), a.denominator_as_long())
            except Exception:
                pass
        return "sat", out
    return str(r), None


def quick_infeasible(conds):
    """linear abstraction: every subterm that is not a sum, a multiple or a square root is an atom"""
    z3 = z3mod()
    memo = {}
    side = []

    def tr(t):
        if t in memo:
            return memo[t]
        if t.op == "c":
            r = z3.RealVal(str(t.a))
        elif t.op == "+":
            r = z3.Sum([tr(k) for k in t.a])
        elif t.op == "*" and t.a[0].op == "c":
            rest = T.mul(*t.a[1:]) if len(t.a) > 2 else t.a[1]
            r = z3.RealVal(str(t.a[0].a)) * tr(rest)
        else:
            r = z3.Real("a!%d" % len(memo))
            if t.op == "v":
                sg = T.VARSIGN.get(t.a)
            else:
                sg = T.sign(t)
            if sg == "pos":
                side.append(r > 0)
            elif sg == "nonneg":
                side.append(r >= 0)
            memo[t] = r
            if t.op == "^" and t.a[1].op == "c" and t.a[1].a == 1 / 2:
                side.append(r >= 0)
                side.append(r * r == tr(t.a[0]))
            return r
        memo[t] = r
        return r

    s = z3.Solver()
    s.set("timeout", 300)
    for rel, t, val in conds:
        z = tr(t)
        f = {"<": z < 0, "<=": z <= 0, "==": z == 0}[rel]
        s.add(f if val else z3.Not(f))
    for f in side:
        s.add(f)
    STATS["queries"] += 1
    return s.check() == z3.unsat


def feasible(conds, domains=None, ms=400):
    """True / False (proved infeasible) / None (unknown)"""
    try:
        if quick_infeasible(conds):
            return False
        r, _ = solve(conds, domains, ms)
    except TimeoutError:
        raise
    except Exception:
        return None
    return {"sat": True, "unsat": False}.get(r)

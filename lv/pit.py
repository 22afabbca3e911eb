"""Randomised identity testing of terms (the equality back end).

A term is evaluated at random points of a finite field GF(p), p = 2m+1 a 128-bit safe prime for
which -1 is a non-residue and every prime below 72 a residue.  The quadratic residues form a
cyclic group of prime order m, which plays the part of the positive reals: a power b^e with any
exponent is b^(e mod m) where the exponent is evaluated in Z_m, so (ab)^e = a^e b^e,
b^(d+e) = b^d b^e, (b^d)^e = b^(de), sqrt(x^2) = |x| all hold by construction and no rewriting of
roots is needed.  exp is h^(u mod m).  Logarithms and arctangents are independent unknowns, up to
multiplicative dependencies between their arguments which are searched for by value.
Functions without known identities are unknowns keyed by the values of their arguments.

A term that is zero at such a point for independent random choices is zero as a formal
expression (Schwartz-Zippel; the chance that a non-zero expression of degree d vanishes at one
point is at most about d/2^127).  The converse may fail (an identity that needs a law not built in
is simply not proved).  Branches (signs, multiples of 2 pi) are not visible in GF(p), so
every accepted identity is also evaluated numerically (numeric.py) by the caller.
"""
import random
import time
from fractions import Fraction
from .primes import PRIMES
from . import terms as T


class Resample(Exception):
    pass


class BadConst(Exception):
    """A constant base is a non-residue modulo this prime: use another prime."""


class Point:
    def __init__(self, p, seed, negvars=(), expdep=False):
        self.p = p
        self.expdep = expdep
        self.exps = []  # (value of the exponent, value of the exponential)
        self.m = (p - 1) // 2
        self.rng = random.Random(seed)
        self.seed = seed
        self.neg = set(negvars)
        self.salt = {}
        self.vp = {}
        self.vm = {}
        self.memo = {}
        self.memom = {}
        self.opaque = {}
        self.logs = []  # (value, kernel)
        self.atans = []
        self.gammas = []
        self.h = pow(self.rng.randrange(2, p - 1), 2, p)
        self.pi = self.rng.randrange(1, p)
        self.atans.append(((0, 1), self.pi * pow(4, -1, p) % p))

    # ------------------------------------------------------------------
    def mark(self):
        return (len(self.vp), len(self.vm), len(self.memo), len(self.memom), len(self.opaque), len(self.logs), len(self.atans), len(self.gammas), len(self.exps))

    def back(self, m):
        for d, k in zip((self.vp, self.vm, self.memo, self.memom, self.opaque), m):
            while len(d) > k:
                d.popitem()
        for l, k in zip((self.logs, self.atans, self.gammas, self.exps), m[5:]):
            del l[k:]

    def isqr(self, v):
        return pow(v, self.m, self.p) == 1

    def rand(self, key, mod=None):
        k = self.opaque.get(key)
        if k is None:
            k = self.rng.randrange(1, mod or self.p)
            self.opaque[key] = k
        return k

    def varp(self, name):
        v = self.vp.get(name)
        if v is None:
            r = random.Random("%s|%s|%s|%s" % (self.seed, name, self.p, self.salt.get(name, 0))).randrange(2, self.p - 1)
            s = T.VARSIGN.get(name)
            r = r * r % self.p
            if s in ("pos", "nonneg"):
                v = r
            elif s in ("neg", "nonpos"):
                v = self.p - r
            else:
                v = self.p - r if name in self.neg else r
            self.vp[name] = v
        return v

    def inv(self, v):
        if v % self.p == 0:
            raise Resample("division by zero")
        return pow(v, -1, self.p)

    def root(self, v):
        """square root of a residue, the residue one (the 'positive' root)."""
        if v == 0:
            return 0
        if not self.isqr(v):
            raise Resample("root of non-residue")
        return pow(v, (self.p + 1) // 4, self.p)

    # ------------------------------------------------------------------
    def ev(self, t):
        memo = self.memo
        if t in memo:
            return memo[t]
        for n in T.topo([t]):
            if n not in memo:
                memo[n] = self._ev(n)
        return memo[t]

    def _ev(self, n):
        p = self.p
        op = n.op
        memo = self.memo
        if op == "c":
            q = n.a
            return q.numerator * pow(q.denominator, -1, p) % p
        if op == "v":
            return self.varp(n.a)
        if op == "+":
            s = 0
            for k in n.a:
                s += memo[k]
            return s % p
        if op == "*":
            s = 1
            for k in n.a:
                s = s * memo[k] % p
            return s
        if op == "^":
            b, e = n.a
            v = memo[b]
            if e.op == "c" and e.a.denominator == 1:
                k = e.a.numerator
                if v == 0:
                    if k > 0:
                        return 0
                    raise Resample("0^negative")
                return pow(v, k, p)
            if v == 0:
                if e.op == "c" and e.a > 0:
                    return 0
                raise Resample("0^e")
            if not self.isqr(v):
                if not T.variables(b):
                    raise BadConst()
                raise Resample("power of a non-residue")
            return pow(v, self.evm(e), p)
        name, args = n.a
        vals = [memo[k] for k in args]
        return self._fn(n, name, args, vals)

    def _fn(self, n, name, args, v):
        p = self.p
        if name == "pi":
            return self.pi
        if name == "exp":
            return self._exp(args[0])
        if name == "log":
            return self._log(v[0], args[0])
        if name in ("cos", "sin", "tan"):
            c, s = self._angle(args[0])
            if name == "cos":
                return c
            if name == "sin":
                return s
            return s * self.inv(c) % p
        if name in ("sinh", "cosh", "tanh"):
            e = self._exp(args[0])
            ie = self.inv(e)
            half = (p + 1) // 2
            sh, ch = (e - ie) * half % p, (e + ie) * half % p
            return {"sinh": sh, "cosh": ch}.get(name) if name != "tanh" else sh * self.inv(ch) % p
        if name == "abs":
            if v[0] == 0:
                return 0
            return v[0] if self.isqr(v[0]) else p - v[0]
        if name == "sign":
            if v[0] == 0:
                return 0
            return 1 if self.isqr(v[0]) else p - 1
        if name == "arctan":
            return self._atan(v[0])
        if name == "arctan2":
            y, x = v
            r = self.root((x * x + y * y) % p)
            return 2 * self._atan(y * self.inv((r + x) % p) % p) % p
        if name in ("arccos", "arcsin"):
            u = v[0]
            w = self.root((1 - u) * self.inv((1 + u) % p) % p)
            a = 2 * self._atan(w) % p
            if name == "arccos":
                return a
            return (self.pi * ((p + 1) // 2) - a) % p
        if name == "arctanh":
            u = v[0]
            return self._log((1 + u) * self.inv((1 - u) % p) % p) * ((p + 1) // 2) % p
        if name == "arccosh":
            u = v[0]
            return self._log((u + self.root((u * u - 1) % p)) % p)
        if name == "arcsinh":
            u = v[0]
            return self._log((u + self.root((u * u + 1) % p)) % p)
        if name == "gamma":
            return self._gamma(v[0])
        if name in ("erf", "erfc"):
            u = v[0]
            sgn = 1
            key = u
            if u != 0 and not self.isqr(u):
                key, sgn = p - u, -1
            e = self.rand(("erf", key)) * sgn % p
            return e if name == "erf" else (1 - e) % p
        if name in ("chypre", "chypim"):
            # F(conj z) = conj F(z); F(0) = 1
            b, c, x, y = v
            sgn = 1
            if y != 0 and not self.isqr(y):
                y, sgn = p - y, -1
            if name == "chypre":
                return self.rand(("chypre", b, c, x, y)) if x or y else 1
            return self.rand(("chypim", b, c, x, y)) * sgn % p if y else 0
        return self.rand((name,) + tuple(v))

    def _gamma(self, v):
        p = self.p
        for a, g in self.gammas:
            d = (v - a) % p
            if d <= 12:
                r = g
                for j in range(d):
                    r = r * ((a + j) % p) % p
                return r
            if p - d <= 12:
                r = g
                for j in range(p - d):
                    r = r * self.inv((v + j) % p) % p
                return r
        if v % p < 30 and v > 0:
            r = 1
            for j in range(1, v):
                r = r * j % p
            return r
        if (2 * v) % p == 1:
            return self.root(self.pi) if self.isqr(self.pi) else self._bad()
        for q in range(1, 12):  # half integers
            d = (v - q) * 2 % p
            if d == 1:
                g = self._gamma((p + 1) // 2)
                a = (p + 1) // 2
                r = g
                for j in range(q):
                    r = r * ((a + j) % p) % p
                return r
        g = self.rng.randrange(1, p)
        g = g * g % p
        self.gammas.append((v, g))
        return g

    def _bad(self):
        raise Resample("pi")

    # --- exponentials -------------------------------------------------
    def _exp(self, u):
        """exp(u): summands of the form c*log(b) become powers of b, rest h^(..)."""
        parts = u.a if u.op == "+" else (u,)
        p = self.p
        res = 1
        rest = []
        for s in parts:
            fs = s.a if s.op == "*" else (s,)
            lg = [f for f in fs if f.op == "f" and f.a[0] == "log"]
            if len(lg) == 1:
                others = [f for f in fs if f is not lg[0]]
                b = self.ev(lg[0].a[1][0])
                if b == 0 or not self.isqr(b):
                    raise Resample("exp log")
                e = self.evm(T.mul(*others)) if others else 1
                res = res * pow(b, e, p) % p
            else:
                rest.append(s)
        if rest and self.expdep:
            return res * self._exp_dep(self.ev(T.add(*rest))) % p
        if rest:
            e = self.evm(T.add(*rest))
            res = res * pow(self.h, e, p) % p
        return res

    def _exp_dep(self, v):
        """exponentials as independent unknowns up to small rational relations of the exponents
        (used when the exponents are equal only through relations between roots or angles)"""
        import itertools

        p = self.p
        if v == 0:
            return 1
        half = (p + 1) // 2
        idx = list(range(len(self.exps)))[-8:]
        cs = (1, -1, 2, -2)
        for r in (1, 2, 3):
            for comb in itertools.combinations(idx, r):
                for ch in itertools.product(cs, repeat=r):
                    w = sum(c * self.exps[i][0] for c, i in zip(ch, comb)) % p
                    if w == v or w == 2 * v % p:
                        x = 1
                        for c, i in zip(ch, comb):
                            x = x * pow(self.exps[i][1], c, p) % p
                        return x if w == v else self.root(x)
        x = pow(self.rng.randrange(2, p - 1), 2, p)
        self.exps.append((v, x))
        return x

    def evm(self, t):
        """value of an exponent in Z_m"""
        memo = self.memom
        if t in memo:
            return memo[t]
        m = self.m
        for n in T.topo([t]):
            if n in memo:
                continue
            op = n.op
            if op == "c":
                r = n.a.numerator * pow(n.a.denominator, -1, m) % m
            elif op == "v":
                r = self.vm.get(n.a)
                if r is None:
                    r = random.Random("m|%s|%s|%s|%s" % (self.seed, n.a, self.p, self.salt.get(n.a, 0))).randrange(2, m - 1)
                    self.vm[n.a] = r
            elif op == "+":
                r = sum(memo[k] for k in n.a) % m
            elif op == "*":
                r = 1
                for k in n.a:
                    r = r * memo[k] % m
            elif op == "^" and n.a[1].op == "c" and n.a[1].a.denominator == 1:
                b = memo[n.a[0]]
                if b == 0 and n.a[1].a < 0:
                    raise Resample("m inverse")
                r = pow(b, n.a[1].a.numerator, m)
            elif op == "^" and n.a[1].op == "c":
                # b^(k/d) = (b^(1/d))^k with b^(1/d) an unknown keyed by the value of b
                q = n.a[1].a
                b = self.ev(n.a[0])
                rt = self.rand(("mroot", b, q.denominator), m)
                r = pow(rt, q.numerator, m)
            else:
                r = self.rand(("mval", self.ev(n)), m)
            memo[n] = r
        return memo[t]

    # --- logarithms ---------------------------------------------------
    def _log(self, v, term=None):
        p = self.p
        if v == 0:
            raise Resample("log 0")
        if v == 1:
            return 0
        if term is not None and term.op == "c":
            return self._log_const(term.a)
        if not self.isqr(v):
            raise Resample("log of non-residue")
        r = self._dep(v, self.logs, lambda a, b: a * b % p, lambda a: pow(a, -1, p), 1)
        if r is not None:
            return r
        k = self.rng.randrange(1, p)
        self.logs.append((v, k))
        return k

    def _log_const(self, q):
        r = 0
        for n, s in ((q.numerator, 1), (q.denominator, -1)):
            for pr, e in _factor(n):
                r += s * e * self.rand(("logprime", pr))
                if not any(a == pr % self.p for a, _ in self.logs):
                    self.logs.append((pr % self.p, self.rand(("logprime", pr))))
        return r % self.p

    def _dep(self, v, basis, mul, inv, one):
        """v = prod b_i^{e_i} with small (half-)integer exponents?  -> sum e_i k_i"""
        p = self.p
        half = (p + 1) // 2
        n = len(basis)
        if n == 0:
            return None
        pows = []
        for b, k in basis:
            ib = inv(b)
            d = [(one, 0), (b, 1), (ib, -1), (mul(b, b), 2), (mul(ib, ib), -2)]
            pows.append(d)
        v2 = mul(v, v)
        targets = [(v, 1), (v2, half)]
        # meet in the middle on up to 4 basis elements (the most recent ones and constants)
        idx = list(range(n))[-7:]
        import itertools

        for r in (1, 2, 3):
            for comb in itertools.combinations(idx, r):
                for choice in itertools.product(*[pows[i][1:] for i in comb]):
                    x = one
                    for c in choice:
                        x = mul(x, c[0])
                    for tv, sc in targets:
                        if x == tv:
                            s = 0
                            for i, c in zip(comb, choice):
                                s += c[1] * basis[i][1]
                            return s * sc % p
        return None

    # --- arctangents --------------------------------------------------
    def _cm(self, a, b):
        p = self.p
        return ((a[0] * b[0] - a[1] * b[1]) % p, (a[0] * b[1] + a[1] * b[0]) % p)

    def _atan(self, u):
        p = self.p
        if u == 0:
            return 0
        # z = (1+iu)/(1-iu) on the unit circle
        d = self.inv((1 + u * u) % p)
        z = ((1 - u * u) * d % p, 2 * u * d % p)
        r = self._dep(z, self.atans, self._cm, lambda a: (a[0], (-a[1]) % p), (1, 0))
        if r is not None:
            return r
        k = self.rng.randrange(1, p)
        self.atans.append((z, k))
        return k

    # --- angles -------------------------------------------------------
    def _angle(self, t):
        """(cos t, sin t)"""
        p = self.p
        parts = []
        todo = [(Fraction(1), t)]
        while todo:
            f, u = todo.pop()
            if u.op == "+":
                todo.extend((f, k) for k in u.a)
            elif u.op == "*" and any(k.op == "+" for k in u.a):
                j = [k.op for k in u.a].index("+")
                rest = T.mul(*(u.a[:j] + u.a[j + 1:])) if len(u.a) > 1 else T.ONE
                todo.extend((f, T.mul(rest, k)) for k in u.a[j].a)
            else:
                parts.append(u if f == 1 else T.mul(T.const(f), u))
        z = (1, 0)
        for s in parts:
            if s.op == "*" and s.a[0].op == "c":
                q = s.a[0].a
                atom = s.a[1] if len(s.a) == 2 else T.mul(*s.a[1:])
            elif s.op == "c":
                q, atom = s.a, T.ONE
            else:
                q, atom = Fraction(1), s
            w = self._atom_angle(atom, q.denominator)
            k = q.numerator
            if k < 0:
                w = (w[0], (-w[1]) % p)
                k = -k
            for _ in range(k):
                z = self._cm(z, w)
        return z

    def _half(self, c, s):
        p = self.p
        h = (p + 1) // 2
        c2 = self.root((1 + c) * h % p)
        return c2, s * self.inv(2 * c2 % p) % p

    def _atom_angle(self, atom, den):
        p = self.p
        c = s = None
        if atom.op == "f":
            name, args = atom.a
            if name == "pi":
                if den == 1:
                    return (p - 1, 0)
                if den == 2:
                    return (0, 1)
                c, s, cur = 0, 1, 2
                while cur < den and den % 2 == 0 and (den & (den - 1)) == 0:
                    c, s = self._half(c, s)
                    cur *= 2
                if cur == den:
                    return (c, s)
                if den in (3, 6):
                    h = (p + 1) // 2
                    r3 = self.root(3)
                    return (h, r3 * h % p) if den == 3 else (r3 * h % p, h)
                c = s = None
            elif name == "arctan2":
                y, x = self.ev(args[0]), self.ev(args[1])
                r = self.root((x * x + y * y) % p)
                ir = self.inv(r)
                c, s = x * ir % p, y * ir % p
            elif name == "arctan":
                u = self.ev(args[0])
                ir = self.inv(self.root((1 + u * u) % p))
                c, s = ir, u * ir % p
            elif name == "arccos":
                u = self.ev(args[0])
                c, s = u, self.root((1 - u * u) % p)
            elif name == "arcsin":
                u = self.ev(args[0])
                c, s = self.root((1 - u * u) % p), u
        if c is not None and (den & (den - 1)) == 0:
            d = 1
            while d < den:
                c, s = self._half(c, s)
                d *= 2
            return (c, s)
        v = self.ev(atom)
        sgn = 1
        if v > p - v:
            v, sgn = p - v, -1
        odd = den
        two = 1
        while odd % 2 == 0:
            odd //= 2
            two *= 2
        # parametrise the angle v/(odd*8) and double up
        tt = self.rand(("tan", v, odd))
        d = self.inv((1 + tt * tt) % p)
        z = ((1 - tt * tt) * d % p, 2 * tt * d % p)
        k = 8
        while k > two:
            z = self._cm(z, z)
            k //= 2
        if two > 8:
            raise Resample("deep half angle")
        return (z[0], sgn * z[1] % p)


def _factor(n):
    out = []
    n = abs(n)
    d = 2
    while d * d <= n and d < 20000:
        e = 0
        while n % d == 0:
            n //= d
            e += 1
        if e:
            out.append((d, e))
        d += 1
    if n > 1:
        out.append((n, 1))
    return out


RISKY = {"log", "arctan2", "arccos", "arcsin", "arctanh", "arccosh", "arcsinh", "cos", "sin", "tan", "exp", "gamma"}


def plan(ts, positive):
    """stages [(variables, constraint nodes)]: after the variables of a stage are chosen all the
    constraints of the stage can be evaluated"""
    nodes = T.topo(list(ts) + list(positive))
    vs = {}
    cons = []
    for n in nodes:
        if n.op == "v":
            vs[n] = frozenset([n.a])
        elif n.op == "c":
            vs[n] = frozenset()
        elif n.op == "f":
            vs[n] = frozenset().union(*[vs[k] for k in n.a[1]]) if n.a[1] else frozenset()
            if n.a[0] in RISKY:
                cons.append((n, False))
        else:
            vs[n] = frozenset().union(*[vs[k] for k in n.a])
            if n.op == "^" and not (n.a[1].op == "c" and n.a[1].a.denominator == 1):
                cons.append((n, False))
    for q in positive:
        cons.append((q, True))
    allv = set()
    for t in list(ts) + list(positive):
        allv |= vs[t]
    stages = [([], [c for c in cons if not vs[c[0]]])]
    cons = [c for c in cons if vs[c[0]]]
    fixed = set()
    while cons:
        best = min(cons, key=lambda c: len(vs[c[0]] - fixed))
        new = sorted(vs[best[0]] - fixed)
        fixed |= set(new)
        stages.append((new, [c for c in cons if vs[c[0]] <= fixed]))
        cons = [c for c in cons if not vs[c[0]] <= fixed]
    rest = sorted(allv - fixed)
    if rest:
        stages.append((rest, []))
    return stages


def _sample(pt, stages, budget, t_end):
    for new, cons in stages:
        mark = pt.mark()
        k = 0
        while True:
            try:
                for n, pos in cons:
                    v = pt.ev(n)
                    if pos and (v == 0 or not pt.isqr(v)):
                        raise Resample("fact")
                break
            except Resample:
                k += 1
                budget[0] -= 1
                if not new:
                    raise BadConst()
                if k > 3000 or budget[0] < 0 or (k % 50 == 0 and time.time() > t_end):
                    raise
                pt.back(mark)
                pt.salt[new[-1]] = k
                if k % 40 == 0:
                    for v in new:
                        pt.salt[v] = k


def is_zero(ts, seed=0, trials=6, subst=None, positive=(), budget=4000, seconds=20):
    """True if every term in ts vanishes at `trials` random points; False if some does not;
    None if no admissible point was found.  Returns (verdict, info)."""
    if not isinstance(ts, (list, tuple)):
        ts = [ts]
    if subst:
        ts = [T.subst(t, subst) for t in ts]
        positive = [T.subst(t, subst) for t in positive]
    ts = [t for t in ts if t is not T.ZERO]
    if not ts:
        return True, "syntactic"
    vs = sorted(set().union(*[T.variables(t) for t in ts]))
    free = [v for v in vs if T.VARSIGN.get(v) not in ("pos", "nonneg", "neg", "nonpos")]
    stages = plan(ts, positive)
    done = 0
    attempts = 0
    left = [budget]
    t_end = time.time() + seconds
    pidx = seed % len(PRIMES)
    rng = random.Random("pit%s" % seed)
    expdep = False
    while done < trials:
        attempts += 1
        if attempts > 120 or left[0] < 0 or time.time() > t_end:
            return None, "no admissible point (%d done)" % done
        neg = [v for i, v in enumerate(free) if rng.random() < 0.5] if done else []
        pt = Point(PRIMES[pidx], rng.randrange(1 << 60), neg, expdep)
        try:
            ok = True
            _sample(pt, stages, left, t_end)
            for t in ts:
                if pt.ev(t) != 0:
                    ok = False
                    break
        except Resample:
            left[0] -= 1
            continue
        except BadConst:
            pidx = (pidx + 1) % len(PRIMES)
            continue
        if not ok and not expdep and any(n.op == "f" and n.a[0] in ("exp", "cosh", "sinh", "tanh") for n in T.topo(list(ts))):
            expdep, done = True, 0
            continue
        if not ok:
            return False, "non-zero at a random point"
        done += 1
        if done % 2 == 0:
            pidx = (pidx + 1) % len(PRIMES)
    return True, "%d points" % done

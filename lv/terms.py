"""Hash-consed real-valued terms: the expression language of the verification conditions.

Nodes
  ('c', Fraction)                 rational constant
  ('v', name)                     variable (see Var table for declared sign)
  ('+', (n1, n2, ...))            sum        (n-ary, flattened lightly)
  ('*', (n1, n2, ...))            product
  ('^', base, exponent)           power (exponent is a term)
  ('f', fname, (args...))         function application
All arithmetic is exact (rationals); machine floats never enter a term except through
`from_float`, which reads the shortest decimal of the float as an exact rational.
"""
from fractions import Fraction
import math

_TABLE = {}


class Term:
    __slots__ = ("op", "a", "id", "_sg", "_vars", "_d", "size")
    _n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def _mk(op, a):
    k = (op, a)
    t = _TABLE.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        Term._n += 1
        t.id = Term._n
        t._sg = 0
        t._vars = None
        t._d = None
        _TABLE[k] = t
    return t


VARSIGN = {}  # name -> 'pos' | 'nonneg' | None


def var(name, sign=None):
    if sign is not None:
        VARSIGN[name] = sign
    else:
        VARSIGN.setdefault(name, None)
    return _mk("v", name)


def const(q):
    if not isinstance(q, Fraction):
        q = Fraction(q)
    return _mk("c", q)


ZERO = const(0)
ONE = const(1)
MONE = const(-1)
TWO = const(2)
HALF = const(Fraction(1, 2))
PI = _mk("f", ("pi", ()))
NAN = _mk("f", ("nan", ()))
INF = _mk("f", ("inf", ()))


def is_c(t):
    return t.op == "c"


def add(*ts):
    acc = Fraction(0)
    coeff = {}
    order = []
    stack = list(ts)
    for t in stack:
        parts = t.a if t.op == "+" else (t,)
        for p in parts:
            if p.op == "c":
                acc += p.a
                continue
            if p.op == "*" and p.a[0].op == "c":
                c = p.a[0].a
                rest = p.a[1:]
                base = rest[0] if len(rest) == 1 else _mk("*", rest)
            else:
                c = Fraction(1)
                base = p
            if base in coeff:
                coeff[base] += c
            else:
                coeff[base] = c
                order.append(base)
    out = []
    for b in sorted(order, key=lambda t: t.id):
        c = coeff[b]
        if c == 0:
            continue
        if c == 1:
            out.append(b)
        elif b.op == "*":
            out.append(_mk("*", (const(c),) + b.a))
        else:
            out.append(_mk("*", (const(c), b)))
    if acc != 0 or not out:
        out.append(const(acc))
    if len(out) == 1:
        return out[0]
    return _mk("+", tuple(out))


def mul(*ts):
    acc = Fraction(1)
    ex = {}
    order = []
    for t in ts:
        parts = t.a if t.op == "*" else (t,)
        for p in parts:
            if p.op == "c":
                acc *= p.a
                continue
            if p.op == "^":
                b, e = p.a
            else:
                b, e = p, ONE
            if b in ex:
                ex[b] = add(ex[b], e)
            else:
                ex[b] = e
                order.append(b)
    if acc == 0:
        return ZERO
    out = []
    for b in sorted(order, key=lambda t: t.id):
        e = ex[b]
        if e is ZERO:
            continue
        q = pw(b, e)
        if q.op == "c":
            acc *= q.a
        elif q.op == "*":
            # can only come from distributing a power; splice
            for p in q.a:
                if p.op == "c":
                    acc *= p.a
                else:
                    out.append(p)
        else:
            out.append(q)
    if acc == 0:
        return ZERO
    if acc != 1 or not out:
        out.insert(0, const(acc))
    if len(out) == 1:
        return out[0]
    return _mk("*", tuple(out))


def _iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 2**1000 else None
    if r is None:
        return None
    for c in (r - 1, r, r + 1):
        if c >= 0 and c**k == n:
            return c
    return None


def pw(b, e):
    if e.op == "c":
        q = e.a
        if q == 0:
            return ONE
        if q == 1:
            return b
        if b.op == "c":
            v = b.a
            if q.denominator == 1:
                if v == 0:
                    return ZERO if q > 0 else _mk("^", (b, e))
                if abs(q.numerator) < 4000:
                    return const(v**q.numerator)
            elif v == 0 and q > 0:
                return ZERO
            elif v == 1:
                return ONE
            elif v > 0:
                rn = _iroot(v.numerator, q.denominator)
                rd = _iroot(v.denominator, q.denominator)
                if rn is not None and rd is not None:
                    return const(Fraction(rn, rd) ** q.numerator)
        if b.op == "^":
            b2, e2 = b.a
            if q.denominator == 1:
                # (b^e)^n = b^(e n) for integer n
                return pw(b2, mul(e2, e))
            if sign(b2) == "pos" or (
                sign(b2) == "nonneg" and e2.op == "c" and e2.a > 0 and q > 0
            ):
                return pw(b2, mul(e2, e))
        if b.op == "*" and q.denominator == 1:
            return mul(*[pw(p, e) for p in b.a])
        if b.op == "*":
            # pull nonnegative factors out of a root
            good = [p for p in b.a if sign(p) in ("pos", "nonneg")]
            if good and len(good) >= 1:
                bad = [p for p in b.a if p not in good]
                if not bad:
                    if q > 0 or all(sign(p) == "pos" for p in good):
                        r = [pw2(p, e) for p in good]
                        return mul(*r)
                else:
                    gp = [p for p in good if sign(p) == "pos"]
                    if gp:
                        rest = [p for p in b.a if p not in gp]
                        rb = mul(*rest)
                        return mul(*([pw2(p, e) for p in gp] + [_mk("^", (rb, e))]))
    else:
        if b is ONE:
            return ONE
        if b.op == "c" and b.a > 0:
            r = _pw_log(b, e)
            if r is not None:
                return r
        if b.op == "^" and sign(b.a[0]) == "pos":
            return pw(b.a[0], mul(b.a[1], e))
        if b.op == "*" and all(sign(p) == "pos" for p in b.a):
            return mul(*[pw2(p, e) for p in b.a])
    return _mk("^", (b, e))


def _spread(t):
    """summands of t, with numerical factors multiplied into sums"""
    if t.op == "+":
        return [s for k in t.a for s in _spread(k)]
    if t.op == "*":
        sums = [k for k in t.a if k.op == "+"]
        if len(sums) == 1 and all(k.op == "c" for k in t.a if k is not sums[0]):
            c = mul(*[k for k in t.a if k is not sums[0]])
            return [mul(c, s) for s in _spread(sums[0])]
    return [t]


def _pw_log(b, e):
    """b^(c log(y)/log(b)) = y^c, also as a term of a sum"""
    il = _mk("^", (fn("log", b), MONE))
    parts, rest = [], []
    for t in _spread(e):
        fs = list(t.a) if t.op == "*" else [t]
        lg = [f for f in fs if f.op == "f" and f.a[0] == "log"]
        if il in fs and lg:
            fs.remove(il)
            fs.remove(lg[0])
            parts.append(pw(lg[0].a[1][0], mul(*fs) if fs else ONE))
        else:
            rest.append(t)
    if not parts:
        return None
    if rest:
        parts.append(pw(b, add(*rest)))
    return mul(*parts)


def pw2(b, e):
    return pw(b, e)


def neg(a):
    return mul(MONE, a)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    return mul(a, pw(b, MONE))


def sqrt(a):
    return pw(a, HALF)


_SINPI = {Fraction(0): ZERO, Fraction(1, 2): ONE, Fraction(1): ZERO, Fraction(1, 6): HALF, Fraction(5, 6): HALF}


def _pi_multiple(u):
    if u is PI:
        return Fraction(1)
    if u.op == "*" and len(u.a) == 2 and u.a[0].op == "c" and u.a[1] is PI:
        return u.a[0].a
    return None


def fn(name, *args):
    if name == "arctan2" and args[0] is ZERO and (args[1] is ZERO or sign(args[1]) in ("pos", "nonneg")):
        return ZERO
    if name == "exp":
        (u,) = args
        if u is ZERO:
            return ONE
        if u.op == "f" and u.a[0] == "log":
            return u.a[1][0]
    elif name == "log":
        (u,) = args
        if u is ONE:
            return ZERO
        if u.op == "f" and u.a[0] == "exp":
            return u.a[1][0]
        if u.op == "^" and sign(u.a[0]) == "pos":
            return mul(u.a[1], fn("log", u.a[0]))
    elif name == "abs":
        (u,) = args
        s = sign(u)
        if s in ("pos", "nonneg"):
            return u
        if s in ("neg", "nonpos"):
            return neg(u)
        if u.op == "*" and u.a[0].op == "c" and u.a[0].a < 0:
            return fn("abs", neg(u))
    elif name in ("sin", "tan", "arctan", "arcsin", "sinh", "tanh", "arctanh", "arcsinh"):
        (u,) = args
        if u is ZERO:
            return ZERO
        if name in ("sinh", "sin", "tan", "tanh") and u.op == "f" and u.a[0] == "arc" + name:
            return u.a[1][0]
        if name == "arcsinh" and u.op == "f" and u.a[0] == "sinh":
            return u.a[1][0]
        if u.op == "*" and u.a[0].op == "c" and u.a[0].a < 0:
            return neg(fn(name, neg(u)))
        if name == "sin":
            q = _pi_multiple(u)
            if q is not None:
                q %= 2
                r = _SINPI.get(q if q <= 1 else q - 1)
                if r is not None:
                    return r if q <= 1 else neg(r)
    elif name in ("cos", "cosh"):
        (u,) = args
        if u is ZERO:
            return ONE
        if u.op == "f" and u.a[0] == "arc" + name:
            return u.a[1][0]
        if u.op == "*" and u.a[0].op == "c" and u.a[0].a < 0:
            return fn(name, neg(u))
        if name == "cos":
            q = _pi_multiple(u)
            if q is not None and q * 2 == int(q * 2):
                return fn("sin", add(u, mul(HALF, PI)))
    elif name == "floor" and args[0].op == "+":
        (u,) = args
        whole = [q for q in u.a if _integer(q)]
        if whole:  # floor(a + n) = floor(a) + n
            n = add(*whole)
            return add(fn("floor", sub(u, n)), n)
    elif name == "floor" and _integer(args[0]):
        return args[0]
    return _mk("f", (name, tuple(args)))


def _integer(t):
    if t.op == "c":
        return t.a.denominator == 1
    if t.op == "f":
        return t.a[0] == "floor"
    if t.op in "+*":
        return all(_integer(q) for q in t.a)
    return False


# ---------------------------------------------------------------- sign analysis
def sign(t):
    if t._sg != 0:
        return t._sg
    s = _sign(t)
    t._sg = s
    return s


def _nn(s):
    return s in ("pos", "nonneg")


def _np(s):
    return s in ("neg", "nonpos")


_NEG = {"pos": "neg", "neg": "pos", "nonneg": "nonpos", "nonpos": "nonneg", None: None}


def _sign(t):
    op = t.op
    if op == "c":
        return "pos" if t.a > 0 else ("neg" if t.a < 0 else "nonneg")
    if op == "v":
        return VARSIGN.get(t.a)
    if op == "+":
        ss = [sign(x) for x in t.a]
        if all(_nn(s) for s in ss):
            return "pos" if "pos" in ss else "nonneg"
        if all(_np(s) for s in ss):
            return "neg" if "neg" in ss else "nonpos"
        for x in t.a:  # v - floor(v) >= 0
            if x.op == "*" and len(x.a) == 2 and x.a[0].op == "c" and x.a[0].a == -1 and x.a[1].op == "f" and x.a[1].a[0] == "floor":
                if sub(t, x) is x.a[1].a[1][0]:
                    return "nonneg"
        return None
    if op == "*":
        strict = True
        neg_ = False
        for x in t.a:
            s = sign(x)
            if s is None:
                return None
            if s in ("nonneg", "nonpos"):
                strict = False
            if _np(s):
                neg_ = not neg_
        if neg_:
            return "neg" if strict else "nonpos"
        return "pos" if strict else "nonneg"
    if op == "^":
        b, e = t.a
        sb = sign(b)
        if sb == "pos":
            return "pos"
        if e.op == "c":
            q = e.a
            if q.denominator == 1 and q.numerator % 2 == 0:
                return "pos" if sb == "neg" else "nonneg"
            if q.denominator % 2 == 0:
                return "nonneg"
            if q.denominator == 1 and sb is not None:
                if sb == "neg":
                    return "neg"
                return sb
        if sb == "nonneg":
            return "nonneg"
        return None
    if op == "f":
        n = t.a[0]
        if n in ("pi", "exp", "cosh", "inf", "gamma_pos"):
            return "pos"
        if n == "abs":
            return "nonneg"
        if n in ("arctan", "sinh", "tanh", "arctanh", "arcsinh", "erf"):
            s = sign(t.a[1][0])
            return s
        if n == "erfc":
            return "pos"
        if n == "arccos":
            return "nonneg"
        if n == "gamma" and _nn(sign(t.a[1][0])):
            return "pos"
        if n == "log":
            u = t.a[1][0]
            if u.op == "c" and u.a > 0:
                return "pos" if u.a > 1 else "neg"
        return None
    return None


# ---------------------------------------------------------------- misc
def variables(t):
    if t._vars is not None:
        return t._vars
    for n in topo([t]):
        if n._vars is not None:
            continue
        if n.op == "v":
            n._vars = frozenset((n.a,))
        elif n.op == "c":
            n._vars = frozenset()
        else:
            s = frozenset()
            for k in kids(n):
                s = s | k._vars
            n._vars = s
    return t._vars


def kids(n):
    op = n.op
    if op in ("c", "v"):
        return ()
    if op in ("+", "*"):
        return n.a
    if op == "^":
        return n.a
    return n.a[1]


def topo(roots):
    seen = set()
    out = []
    for r in roots:
        if r in seen:
            continue
        st = [(r, 0)]
        while st:
            n, i = st.pop()
            if i == 0 and n in seen:
                continue
            ks = kids(n)
            j = i
            pushed = False
            while j < len(ks):
                if ks[j] not in seen:
                    st.append((n, j + 1))
                    st.append((ks[j], 0))
                    pushed = True
                    break
                j += 1
            if pushed:
                continue
            if n not in seen:
                seen.add(n)
                out.append(n)
    return out


def subst(t, m):
    """Substitute variables (dict variable or name -> term)."""
    m = {(k.a if isinstance(k, Term) else k): v for k, v in m.items()}
    memo = {}
    for n in topo([t]):
        op = n.op
        if op == "c":
            r = n
        elif op == "v":
            r = m.get(n.a, n)
        elif op == "+":
            r = add(*[memo[k] for k in n.a])
        elif op == "*":
            r = mul(*[memo[k] for k in n.a])
        elif op == "^":
            r = pw(memo[n.a[0]], memo[n.a[1]])
        else:
            r = fn(n.a[0], *[memo[k] for k in n.a[1]])
        memo[n] = r
    return memo[t]


class NoDerivative(Exception):
    pass


def diff(t, x):
    """d t / d x, x a variable or its name."""
    if isinstance(x, Term):
        x = x.a
    memo = {}
    for n in topo([t]):
        if x not in variables(n):
            memo[n] = ZERO
            continue
        op = n.op
        if op == "v":
            r = ONE if n.a == x else ZERO
        elif op == "+":
            r = add(*[memo[k] for k in n.a])
        elif op == "*":
            terms = []
            for i, k in enumerate(n.a):
                dk = memo[k]
                if dk is ZERO:
                    continue
                terms.append(mul(dk, *[n.a[j] for j in range(len(n.a)) if j != i]))
            r = add(*terms) if terms else ZERO
        elif op == "^":
            b, e = n.a
            db, de = memo[b], memo[e]
            terms = []
            if db is not ZERO:
                terms.append(mul(e, pw(b, add(e, MONE)), db))
            if de is not ZERO:
                terms.append(mul(n, fn("log", b), de))
            r = add(*terms) if terms else ZERO
        else:
            r = _dfn(n, memo)
        memo[n] = r
    return memo[t]


def _dfn(n, memo):
    name, args = n.a
    ds = [memo[a] for a in args]
    u = args[0] if args else None
    du = ds[0] if ds else None
    one = ONE
    if name == "exp":
        return mul(n, du)
    if name == "log":
        return mul(du, pw(u, MONE))
    if name == "sin":
        return mul(fn("cos", u), du)
    if name == "cos":
        return mul(MONE, fn("sin", u), du)
    if name == "tan":
        return mul(add(one, pw(n, TWO)), du)
    if name == "sinh":
        return mul(fn("cosh", u), du)
    if name == "cosh":
        return mul(fn("sinh", u), du)
    if name == "tanh":
        return mul(sub(one, pw(n, TWO)), du)
    if name == "arctan":
        return mul(du, pw(add(one, pw(u, TWO)), MONE))
    if name == "arctan2":
        y, x = args
        return mul(sub(mul(x, ds[0]), mul(y, ds[1])), pw(add(pw(x, TWO), pw(y, TWO)), MONE))
    if name == "arcsin":
        return mul(du, pw(sub(one, pw(u, TWO)), const(Fraction(-1, 2))))
    if name == "arccos":
        return mul(MONE, du, pw(sub(one, pw(u, TWO)), const(Fraction(-1, 2))))
    if name == "arctanh":
        return mul(du, pw(sub(one, pw(u, TWO)), MONE))
    if name == "arccosh":
        return mul(du, pw(sub(u, one), const(Fraction(-1, 2))), pw(add(u, one), const(Fraction(-1, 2))))
    if name == "arcsinh":
        return mul(du, pw(add(one, pw(u, TWO)), const(Fraction(-1, 2))))
    if name == "abs":
        return mul(div(u, n), du)
    if name == "erf":
        return mul(TWO, pw(PI, const(Fraction(-1, 2))), fn("exp", neg(pw(u, TWO))), du)
    if name == "erfc":
        return mul(const(-2), pw(PI, const(Fraction(-1, 2))), fn("exp", neg(pw(u, TWO))), du)
    if name == "exp1":
        return mul(MONE, fn("exp", neg(u)), pw(u, MONE), du)
    if name == "gammaincc_u":  # upper incomplete gamma Gamma(a, x) (unregularised)
        if ds[0] is ZERO:
            return mul(MONE, pw(args[1], sub(args[0], one)), fn("exp", neg(args[1])), ds[1])
    if name == "gammaincl":  # lower incomplete gamma gamma(a, x) (unregularised)
        if ds[0] is ZERO:
            return mul(pw(args[1], sub(args[0], one)), fn("exp", neg(args[1])), ds[1])
    if name == "betaincl":  # lower incomplete beta B(x; a, b) (unregularised)
        if ds[0] is ZERO and ds[1] is ZERO:
            return mul(pw(args[2], sub(args[0], one)), pw(sub(one, args[2]), sub(args[1], one)), ds[2])
    if name == "spence":  # d/dz Li2(1-z) = log z/(1-z)
        return mul(fn("log", u), pw(sub(one, u), MONE), du)
    if name == "hyp2f1":
        a, b, c, z = args
        if ds[0] is ZERO and ds[1] is ZERO and ds[2] is ZERO:
            # z F' = b... kept as derivative with shifted parameters
            return mul(a, b, pw(c, MONE), fn("hyp2f1", add(a, one), add(b, one), add(c, one), z), ds[3])
    if name in ("chypre", "chypim"):  # parts of F = 2F1(1, b; c; u + i v): z (1 - z) F' + (c - 1 - b z) F = c - 1
        b, c, u, v = args
        if ds[0] is ZERO and ds[1] is ZERO:
            fr, fi = fn("chypre", *args), fn("chypim", *args)
            c1 = sub(c, one)
            gr, gi = sub(c1, mul(b, u)), neg(mul(b, v))
            nr = sub(c1, sub(mul(gr, fr), mul(gi, fi)))
            ni = neg(add(mul(gr, fi), mul(gi, fr)))
            dr, di = add(sub(u, mul(u, u)), mul(v, v)), sub(v, mul(TWO, u, v))  # z - z^2
            q = pw(add(mul(dr, dr), mul(di, di)), MONE)
            pr = mul(add(mul(nr, dr), mul(ni, di)), q)
            pi_ = mul(sub(mul(ni, dr), mul(nr, di)), q)
            if name == "chypre":
                return sub(mul(pr, ds[2]), mul(pi_, ds[3]))
            return add(mul(pi_, ds[2]), mul(pr, ds[3]))
    if name == "besselj":  # J_n(x)
        if ds[0] is ZERO:
            return mul(HALF, sub(fn("besselj", sub(args[0], one), args[1]), fn("besselj", add(args[0], one), args[1])), ds[1])
    if name.startswith("uf:"):
        # uninterpreted differentiable function: partial derivatives are uf:name'k
        out = []
        for k, d in enumerate(ds):
            if d is ZERO:
                continue
            base, _, idx = name.partition("'")
            lst = sorted([int(i) for i in idx.split(",") if i] + [k])
            out.append(mul(d, fn(base + "'" + ",".join(map(str, lst)), *args)))
        return add(*out) if out else ZERO
    if name in ("sign", "floor", "round"):
        return ZERO
    raise NoDerivative(name)


_TRIG = {}


class _Big(Exception):
    pass


def has_sin(t):
    return any(n.op == "f" and n.a[0] == "sin" for n in topo([t]))


def trig(t):
    """an equal term in which polynomials are expanded and sin(u)^2 is 1 - cos(u)^2"""
    r = _TRIG.get(t)
    if r is None:
        r = t
        if has_sin(t):
            try:
                r = _unpoly(_poly(t))
            except _Big:
                r = t
        _TRIG[t] = r
    return r


def _pmul(p, q):
    if len(p) * len(q) > 3000:
        raise _Big()
    out = {}
    for m, c in p.items():
        for n, d in q.items():
            k = dict(m)
            for a, e in n:
                k[a] = k.get(a, 0) + e
            # sin(u)^2 -> 1 - cos(u)^2
            todo = [(k, c * d)]
            while todo:
                k, v = todo.pop()
                hit = next((a for a, e in k.items() if e >= 2 and a.op == "f" and a.a[0] == "sin"), None)
                if hit is None:
                    key = tuple(sorted(((a, e) for a, e in k.items() if e), key=lambda z: z[0].id))
                    out[key] = out.get(key, 0) + v
                    continue
                k1 = dict(k)
                k1[hit] -= 2
                k2 = dict(k1)
                cs = fn("cos", *hit.a[1])
                k2[cs] = k2.get(cs, 0) + 2
                todo += [(k1, v), (k2, -v)]
    return {m: c for m, c in out.items() if c != 0}


def _poly(t):
    if t.op == "c":
        return {(): t.a} if t.a != 0 else {}
    if t.op == "+":
        out = {}
        for k in t.a:
            for m, c in _poly(k).items():
                out[m] = out.get(m, 0) + c
        return {m: c for m, c in out.items() if c != 0}
    if t.op == "*":
        out = {(): Fraction(1)}
        for k in t.a:
            out = _pmul(out, _poly(k))
        return out
    if t.op == "^":
        b, e = t.a
        if e.op == "c" and e.a.denominator == 1:
            n = int(e.a)
            if 0 < n <= 6:
                q = _poly(b)
                out = {(): Fraction(1)}
                for _ in range(n):
                    out = _pmul(out, q)
                return out
            if n < 0:
                b = trig(b)
                if b.op == "c":
                    return _poly(pw(b, e))
                return {((b, n),): Fraction(1)} if b.op in "vf+" else {((pw(b, MONE), -n),): Fraction(1)}
        r = pw(trig(b), trig(e))
        return {((r, 1),): Fraction(1)} if r.op in "vf^" else _poly(r)
    if t.op == "f" and t.a[1]:
        r = fn(t.a[0], *[trig(k) for k in t.a[1]])
        return {((r, 1),): Fraction(1)} if r.op in "vf^" else _poly(r)
    return {((t, 1),): Fraction(1)}


def _unpoly(p):
    return add(*[mul(const(c), *[pw(a, const(e)) for a, e in m]) for m, c in sorted(p.items(), key=lambda z: [(a.id, e) for a, e in z[0]])]) if p else ZERO


def from_float(x):
    """Exact rational of the shortest decimal representation; multiples of pi recognised."""
    if x != x:
        return NAN
    if x in (math.inf, -math.inf):
        return INF if x > 0 else neg(INF)
    if x == int(x) and abs(x) < 2**53:
        return const(int(x))
    s = repr(float(x))
    if len(s.replace("-", "").replace(".", "").split("e")[0].strip("0")) >= 14:
        for expo, base in ((1, math.pi), (-1, 1 / math.pi)):
            r = x / base
            f = Fraction(r).limit_denominator(1000)
            if f.numerator != 0 and abs(f.numerator) < 5000 and abs(float(f) * base - x) <= 4e-16 * abs(x):
                return mul(const(f), pw(PI, const(expo)))
        f = Fraction(x).limit_denominator(2000)
        if f.numerator != 0 and abs(float(f) - x) <= 2e-16 * abs(x):
            return const(f)
    return const(Fraction(s))


def show(t, depth=6):
    op = t.op
    if op == "c":
        return str(t.a)
    if op == "v":
        return t.a
    if depth <= 0:
        return "..."
    if op == "+":
        return "(" + " + ".join(show(x, depth - 1) for x in t.a) + ")"
    if op == "*":
        return "*".join(show(x, depth - 1) for x in t.a)
    if op == "^":
        return "%s^%s" % (show(t.a[0], depth - 1), show(t.a[1], depth - 1))
    return "%s(%s)" % (t.a[0], ", ".join(show(x, depth - 1) for x in t.a[1]))

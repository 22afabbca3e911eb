"""High-precision numeric evaluation of terms (mpmath), used to refute and to cross-check."""
import mpmath as mp
from . import terms as T


class Undefined(Exception):
    pass


def _f(name, v):
    if name == "pi":
        return mp.pi
    if name == "exp":
        return mp.e ** v[0]
    if name == "log":
        if v[0] <= 0:
            raise Undefined("log")
        return mp.log(v[0])
    if name in ("cos", "sin", "tan", "sinh", "cosh", "tanh"):
        return getattr(mp, name)(v[0])
    if name == "arctan":
        return mp.atan(v[0])
    if name == "arctan2":
        return mp.atan2(v[0], v[1])
    if name == "arccos":
        if abs(v[0]) > 1:
            raise Undefined("arccos")
        return mp.acos(v[0])
    if name == "arcsin":
        if abs(v[0]) > 1:
            raise Undefined("arcsin")
        return mp.asin(v[0])
    if name == "arctanh":
        if abs(v[0]) >= 1:
            raise Undefined("arctanh")
        return mp.atanh(v[0])
    if name == "arccosh":
        if v[0] < 1:
            raise Undefined("arccosh")
        return mp.acosh(v[0])
    if name == "arcsinh":
        return mp.asinh(v[0])
    if name == "abs":
        return abs(v[0])
    if name == "sign":
        return mp.sign(v[0])
    if name == "gamma":
        return mp.gamma(v[0])
    if name == "erf":
        return mp.erf(v[0])
    if name == "erfc":
        return mp.erfc(v[0])
    if name == "exp1":
        return mp.e1(v[0])
    if name == "gammaincc_u":
        return mp.gammainc(v[0], v[1])
    if name == "betaincl":
        return mp.betainc(v[0], v[1], 0, v[2])
    if name == "gammaincl":
        return mp.gammainc(v[0], 0, v[1])
    if name == "spence":
        return mp.re(mp.polylog(2, 1 - v[0]))
    if name == "hyp2f1":
        r = mp.hyp2f1(*v)
        if mp.im(r) != 0:
            raise Undefined("hyp2f1")
        return r
    if name in ("chypre", "chypim"):
        if v[2] ** 2 + v[3] ** 2 >= 1:
            raise Undefined(name)
        r = mp.hyp2f1(1, v[0], v[1], mp.mpc(v[2], v[3]))
        return mp.re(r) if name == "chypre" else mp.im(r)
    if name == "besselj":
        return mp.besselj(*v)
    if name == "floor":
        return mp.floor(v[0])
    if name == "beta":
        return mp.beta(*v)
    if name.startswith("uf:"):
        # a fixed smooth stand-in for an uninterpreted function and its partials
        base, _, idx = name.partition("'")
        h = sum(ord(c) * (i + 7) for i, c in enumerate(base))
        k = [mp.mpf(((h >> i) % 13) + 3) / 7 for i in range(len(v))]
        n = [int(i) for i in idx.split(",") if i]
        arg = sum(a * b for a, b in zip(k, v)) + mp.mpf(h % 17) / 5
        pref = mp.mpf(1)
        for i in n:
            pref *= k[i]
        return pref * mp.sin(arg + len(n) * mp.pi / 2)
    if name in ("nan", "inf"):
        raise Undefined(name)
    raise Undefined("function " + name)


def evaluate(ts, env, dps=30):
    """Values of the terms under env (name -> number); raises Undefined off the domain."""
    with mp.workdps(dps):
        memo = {}
        for n in T.topo(ts):
            op = n.op
            if op == "c":
                r = mp.mpf(n.a.numerator) / n.a.denominator
            elif op == "v":
                if n.a not in env:
                    raise Undefined("no value for " + n.a)
                e = env[n.a]
                r = mp.mpf(e) if not hasattr(e, "numerator") else mp.mpf(e.numerator) / e.denominator
            elif op == "+":
                r = mp.mpf(0)
                for k in n.a:
                    r += memo[k]
            elif op == "*":
                r = mp.mpf(1)
                for k in n.a:
                    r *= memo[k]
            elif op == "^":
                b, e = memo[n.a[0]], memo[n.a[1]]
                ex = n.a[1]
                if ex.op == "c" and ex.a.denominator == 1:
                    if b == 0 and ex.a < 0:
                        raise Undefined("1/0")
                    r = b ** int(ex.a)
                else:
                    if b < 0:
                        raise Undefined("root of negative")
                    if b == 0 and e <= 0:
                        raise Undefined("0^neg")
                    r = b**e
            else:
                try:
                    r = _f(n.a[0], [memo[k] for k in n.a[1]])
                except (ValueError, ZeroDivisionError, OverflowError) as ex_:
                    raise Undefined(str(ex_))
            if isinstance(r, mp.mpc):
                if r.imag != 0:
                    raise Undefined("complex")
                r = r.real
            if mp.isnan(r) or mp.isinf(r):
                raise Undefined("nan/inf")
            memo[n] = r
        return [memo[t] for t in ts]

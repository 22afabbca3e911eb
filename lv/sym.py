"""Symbolic values and path exploration.

R  - a real number known only as a term (what a numpy float scalar is to the real code)
E  - a float whose exact value is known as a constant term (subclass of float)
C  - a complex number with symbolic parts
B  - a comparison between terms; asking for its truth value forks the exploration
Arrays are ordinary numpy arrays of dtype object holding R/E/int.
"""
import math
import numpy as np
from fractions import Fraction
from . import terms as T
from . import numeric, smt


class Unsupported(Exception):
    """The code left the subset the symbolic values support."""


class PathEnd(BaseException):
    """This path is finished (infeasible or cut)."""


# ------------------------------------------------------------------ explorer
class Explorer:
    cur = None

    def __init__(self, max_paths=400, smt_ms=400, z3_paths=True):
        self.max_paths = max_paths
        self.smt_ms = smt_ms
        self.paths = []
        self.script = []
        self.trace = []
        self.conds = []
        self.domains = {}
        self.assumptions = []

    # a decision point
    def decide(self, b):
        t, rel = b.t, b.rel
        v = const_truth(t, rel)
        if v is None:
            t2 = T.trig(t)
            if t2 is not t:
                v = const_truth(t2, rel)
                if v is None and 2 * len(T.topo([t2])) < len(T.topo([t])):
                    t = t2
        if v is not None:
            return v
        v = sign_truth(t, rel)
        if v is not None:
            return v
        for (rel0, t0, val) in self.conds:
            if t0 is t:
                k = implied(rel0, val, rel)
                if k is not None:
                    return k
            elif T.neg(t0) is t:
                k = implied_neg(rel0, val, rel)
                if k is not None:
                    return k
        i = len(self.trace)
        if i < len(self.script):
            val = self.script[i]
            self.trace.append((val, False))
            self.conds.append((rel, t, val))
            return val
        # new decision: which sides are feasible?
        feas = []
        for val in (True, False):
            r = smt.feasible(self.conds + self.assumptions + [(rel, t, val)], self.domains, self.smt_ms)
            feas.append(r)
        if feas[0] is False and feas[1] is False:
            raise PathEnd("infeasible")
        if feas[0] is False or feas[1] is False:
            # forced: recorded, so that a later run of this path takes the same decision
            val = feas[0] is not False
            self.trace.append((val, False))
            self.conds.append((rel, t, val))
            return val
        # explore the order by relation: equalities later
        first = rel != "=="
        self.trace.append((first, True))
        self.conds.append((rel, t, first))
        return first

    def run(self, fn):
        """Run fn once per path. Yields nothing; fn gets self."""
        work = [[]]
        n = 0
        while work:
            script = work.pop()
            n += 1
            if n > self.max_paths:
                raise Unsupported("more than %d paths" % self.max_paths)
            self.script = script
            self.trace = []
            self.conds = []
            self.assumptions = []
            self.domains = {}
            prev = Explorer.cur
            Explorer.cur = self
            try:
                fn(self)
            except PathEnd:
                pass
            finally:
                Explorer.cur = prev
            for i in range(len(script), len(self.trace)):
                val, fresh = self.trace[i]
                if fresh:
                    work.append([x[0] for x in self.trace[:i]] + [not val])
        return n


_SIGN_TRUTH = {
    # rel: {sign: truth}
    "<": {"pos": False, "nonneg": False, "neg": True},
    "<=": {"pos": False, "neg": True, "nonpos": True},
    "==": {"pos": False, "neg": False},
}


def sign_truth(t, rel):
    return _SIGN_TRUTH[rel].get(T.sign(t))


def const_truth(t, rel):
    if t.op == "c":
        v = t.a
        return {"<": v < 0, "<=": v <= 0, "==": v == 0}[rel]
    if not T.variables(t):
        try:
            (v,) = numeric.evaluate([t], {}, 40)
        except numeric.Undefined as e:
            if "nan" in str(e):
                return False
            raise Unsupported("comparison with an undefined constant %s" % e)
        if abs(v) < 1e-30:
            v = 0
        return {"<": v < 0, "<=": v <= 0, "==": v == 0}[rel]
    return None


def _set(rel, val):
    """set of signs {-1,0,1} allowed by (t rel 0) == val"""
    s = {"<": {-1}, "<=": {-1, 0}, "==": {0}}[rel]
    return s if val else {-1, 0, 1} - s


def implied(rel0, val0, rel):
    have = _set(rel0, val0)
    want = _set(rel, True)
    if have <= want:
        return True
    if not (have & want):
        return False
    return None


def implied_neg(rel0, val0, rel):
    have = {-s for s in _set(rel0, val0)}
    want = _set(rel, True)
    if have <= want:
        return True
    if not (have & want):
        return False
    return None


class B:
    """truth of (t rel 0), possibly negated"""

    __slots__ = ("t", "rel", "neg")

    def __init__(self, t, rel, neg=False):
        self.t = t
        self.rel = rel
        self.neg = neg

    def __bool__(self):
        e = Explorer.cur
        if e is None:
            raise Unsupported("truth value of a symbolic comparison outside exploration")
        v = e.decide(self)
        return (not v) if self.neg else v

    def __invert__(self):
        return B(self.t, self.rel, not self.neg)

    def __and__(self, o):
        return bool(self) and bool(o)

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)

    __ror__ = __or__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __mul__(self, o):
        return (1 if bool(self) else 0) * o

    __rmul__ = __mul__

    def any(self):
        return bool(self)

    all = any

    def __repr__(self):
        return "%s(%s %s 0)" % ("not " if self.neg else "", T.show(self.t, 4), self.rel)


def mk_b(t, rel, neg=False):
    return B(t, rel, neg)


# ------------------------------------------------------------------ values
def term(x):
    """the term of a number, or None"""
    if isinstance(x, (R, E)):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return T.const(int(x))
    if isinstance(x, (int, np.integer)):
        return T.const(int(x))
    if isinstance(x, (float, np.floating)):
        return T.from_float(float(x))
    if isinstance(x, Fraction):
        return T.const(x)
    if isinstance(x, np.ndarray) and x.shape == ():
        return term(x.item())
    if isinstance(x, B):
        return T.const(int(bool(x)))
    return None


def wrap(t):
    if T.variables(t):
        return R(t)
    return mkE(t)


_ECACHE = {}


def mkE(t):
    e = _ECACHE.get(t)
    if e is None:
        if t.op == "c":
            try:
                v = t.a.numerator / t.a.denominator
            except OverflowError:
                v = math.inf
        elif t is T.NAN:
            v = math.nan
        elif t is T.INF:
            v = math.inf
        else:
            try:
                v = float(numeric.evaluate([t], {}, 30)[0])
            except numeric.Undefined:
                v = math.nan
        e = float.__new__(E, v)
        e.t = t
        _ECACHE[t] = e
    return e


def _isnum(o):
    return isinstance(o, (int, float, R, Fraction, np.integer, np.floating, bool, np.bool_, B))


class _Ops:
    __slots__ = ()

    def _bin(self, o, f, swap=False):
        if isinstance(o, np.ndarray):
            if o.shape == ():
                o = o.item()
            else:
                return NotImplemented
        if isinstance(o, (complex, np.complexfloating, C)):
            a, b = C.of(self), C.of(o)
            if swap:
                a, b = b, a
            return getattr(a, f)(b)
        t = term(o)
        if t is None:
            return NotImplemented
        a, b = self.t, t
        if swap:
            a, b = b, a
        return wrap(_BIN[f](a, b))

    def __add__(self, o):
        return self._bin(o, "__add__")

    def __radd__(self, o):
        return self._bin(o, "__add__", True)

    def __sub__(self, o):
        return self._bin(o, "__sub__")

    def __rsub__(self, o):
        return self._bin(o, "__sub__", True)

    def __mul__(self, o):
        return self._bin(o, "__mul__")

    def __rmul__(self, o):
        return self._bin(o, "__mul__", True)

    def __truediv__(self, o):
        return self._bin(o, "__truediv__")

    def __rtruediv__(self, o):
        return self._bin(o, "__truediv__", True)

    def __pow__(self, o):
        return self._bin(o, "__pow__")

    def __rpow__(self, o):
        return self._bin(o, "__pow__", True)

    def __neg__(self):
        return wrap(T.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(T.fn("abs", self.t))

    # comparisons
    def _cmp(self, o, rel, swap, neg):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        t = term(o)
        if t is None:
            if isinstance(o, (C, complex)):
                raise Unsupported("complex comparison")
            return NotImplemented
        if t is T.NAN or self.t is T.NAN:
            return neg
        if t is T.INF or t is T.neg(T.INF) or self.t is T.INF or self.t is T.neg(T.INF):
            a = float("inf") if self.t is T.INF else (-float("inf") if self.t is T.neg(T.INF) else 0.0)
            b = float("inf") if t is T.INF else (-float("inf") if t is T.neg(T.INF) else 0.0)
            d = (b - a) if swap else (a - b)
            v = {"<": d < 0, "<=": d <= 0, "==": a == b}[rel]
            return v != neg
        d = T.sub(t, self.t) if swap else T.sub(self.t, t)
        b = B(d, rel, neg)
        v = const_truth(d, rel)
        if v is not None:
            return v != neg
        return b

    def __lt__(self, o):
        return self._cmp(o, "<", False, False)

    def __le__(self, o):
        return self._cmp(o, "<=", False, False)

    def __gt__(self, o):
        return self._cmp(o, "<", True, False)

    def __ge__(self, o):
        return self._cmp(o, "<=", True, False)

    def __eq__(self, o):
        return self._cmp(o, "==", False, False)

    def __ne__(self, o):
        return self._cmp(o, "==", False, True)


_BIN = {
    "__add__": T.add,
    "__sub__": T.sub,
    "__mul__": T.mul,
    "__truediv__": T.div,
    "__pow__": lambda a, b: T.pw(a, b),
}


class E(_Ops, float):
    """float with exact constant term"""

    def __new__(cls, s):
        t = s if isinstance(s, T.Term) else T.const(Fraction(s))
        return mkE(t)

    __hash__ = float.__hash__

    def __repr__(self):
        return float.__repr__(self)

    def __float__(self):
        return float.__add__(self, 0.0)

    # comparisons between constants use floats when both are plain
    def __bool__(self):
        return float.__bool__(self)

    def __floordiv__(self, o):
        return float.__floordiv__(self, float(o)) if not isinstance(o, R) else NotImplemented

    def __mod__(self, o):
        return float.__mod__(self, float(o)) if not isinstance(o, R) else NotImplemented

    def __int__(self):
        return int(float.__add__(self, 0.0))

    def __reduce__(self):
        return (float, (float(self),))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class R(_Ops):
    """symbolic real scalar"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return self.t.id

    def __repr__(self):
        return "R<%s>" % T.show(self.t, 4)

    def __bool__(self):
        return bool(B(self.t, "==", True))

    def __float__(self):
        raise Unsupported("conversion of a symbolic value to a machine float")

    def __int__(self):
        raise Unsupported("conversion of a symbolic value to int")

    def __index__(self):
        raise TypeError("symbolic value used as an index")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __floordiv__(self, o):
        return wrap(T.fn("floor", T.div(self.t, term(o))))

    def __mod__(self, o):
        q = term(o)
        return wrap(T.sub(self.t, T.mul(q, T.fn("floor", T.div(self.t, q)))))

    # what a numpy scalar offers
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(float)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return E(0)

    @property
    def T(self):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    mean = sum
    max = sum
    min = sum

    def flatten(self):
        a = np.empty(1, dtype=object)
        a[0] = self
        return a

    ravel = flatten

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        a = np.empty((), dtype=object)
        a[()] = self
        return a[i]

    # numpy object loops call these
    def sqrt(self):
        return F1("sqrt", self)

    def exp(self):
        return F1("exp", self)

    def log(self):
        return F1("log", self)

    def cos(self):
        return F1("cos", self)

    def sin(self):
        return F1("sin", self)


class C:
    """symbolic complex"""

    __slots__ = ("re", "im")
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def of(x):
        if isinstance(x, C):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return C(mkE(T.from_float(float(x.real))), mkE(T.from_float(float(x.imag))))
        t = term(x)
        if t is None:
            raise Unsupported("complex of %r" % (x,))
        return C(wrap(t), mkE(T.ZERO))

    def _co(self, o):
        if isinstance(o, np.ndarray):
            if o.shape == ():
                return C.of(o.item())
            return None
        if isinstance(o, (C, complex, np.complexfloating)) or _isnum(o):
            return C.of(o)
        return None

    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return C(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __neg__(self):
        return C(-self.re, -self.im)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return C(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return C(o.re - self.re, o.im - self.im)

    def __mul__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return C(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        d = o.re * o.re + o.im * o.im
        return C((self.re * o.re + self.im * o.im) / d, (self.im * o.re - self.re * o.im) / d)

    def __rtruediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, n):
        t = term(n)
        if t is not None and t.op == "c" and t.a.denominator == 1 and abs(t.a) < 40:
            k = int(t.a)
            r = C.of(1)
            for _ in range(abs(k)):
                r = r * self
            return r if k >= 0 else C.of(1) / r
        if t is not None:
            # principal power r^n (cos n phi + i sin n phi)
            r, ph = abs(self), self.angle()
            n = wrap(t)
            return C(r**n * F1("cos", n * ph), r**n * F1("sin", n * ph))
        return NotImplemented

    def __abs__(self):
        return F1("sqrt", self.re * self.re + self.im * self.im)

    def angle(self):
        return F2("arctan2", self.im, self.re)

    def conjugate(self):
        return C(self.re, -self.im)

    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def exp(self):
        e = F1("exp", self.re)
        return C(e * F1("cos", self.im), e * F1("sin", self.im))

    def log(self):
        return C(F1("log", abs(self)), self.angle())

    def sqrt(self):
        r = abs(self)
        re = F1("sqrt", (r + self.re) / 2)
        # the sign of the imaginary part follows im
        if self.im >= 0:
            return C(re, F1("sqrt", (r - self.re) / 2))
        return C(re, -F1("sqrt", (r - self.re) / 2))

    def __eq__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return bool(self.re == o.re) and bool(self.im == o.im)

    def __hash__(self):
        return hash((self.re, self.im))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "C(%r, %r)" % (self.re, self.im)


def is_sym(x):
    return isinstance(x, (R, C))


def F1(name, x):
    """elementary function of one scalar"""
    if isinstance(x, np.ndarray) and x.shape == ():
        x = x.item()
    if isinstance(x, (C, complex, np.complexfloating)):
        x = C.of(x)
        if name in ("sqrt", "exp", "log"):
            return getattr(x, name)()
        if name == "abs":
            return abs(x)
        if name == "cos":
            return C(F1("cos", x.re) * F1("cosh", x.im), -(F1("sin", x.re) * F1("sinh", x.im)))
        if name == "sin":
            return C(F1("sin", x.re) * F1("cosh", x.im), F1("cos", x.re) * F1("sinh", x.im))
        raise Unsupported("complex " + name)
    t = term(x)
    if t is None:
        raise Unsupported("%s of %r" % (name, type(x)))
    if t is T.NAN:
        return mkE(T.NAN)
    if name == "sqrt":
        return wrap(T.sqrt(t))
    if name == "square":
        return wrap(T.pw(t, T.TWO))
    if name == "log10":
        return wrap(T.div(T.fn("log", t), T.fn("log", T.const(10))))
    if name == "log2":
        return wrap(T.div(T.fn("log", t), T.fn("log", T.const(2))))
    if name == "log1p":
        return wrap(T.fn("log", T.add(T.ONE, t)))
    if name == "expm1":
        return wrap(T.sub(T.fn("exp", t), T.ONE))
    if name == "exp2":
        return wrap(T.pw(T.TWO, t))
    if name in ("deg2rad", "radians"):
        return wrap(T.mul(t, T.PI, T.const(Fraction(1, 180))))
    if name in ("rad2deg", "degrees"):
        return wrap(T.div(T.mul(t, T.const(180)), T.PI))
    if name == "sign":
        if x > 0:
            return E(1)
        if x < 0:
            return E(-1)
        return E(0)
    if name == "heaviside":
        raise Unsupported("heaviside")
    return wrap(T.fn(name, t))


def F2(name, x, y):
    tx, ty = term(x), term(y)
    if tx is None or ty is None:
        raise Unsupported("%s of %r, %r" % (name, type(x), type(y)))
    if name == "hypot":
        return wrap(T.sqrt(T.add(T.pw(tx, T.TWO), T.pw(ty, T.TWO))))
    if name == "arctan2":
        if T.sign(ty) == "pos":
            return wrap(T.fn("arctan2", tx, ty))
        return wrap(T.fn("arctan2", tx, ty))
    return wrap(T.fn(name, tx, ty))

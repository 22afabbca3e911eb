"""Callee contracts: profile methods replaced by uninterpreted functions in the symbolic world."""
import builtins
import importlib
import inspect
import types
import numpy as np


class abstract_profiles:
    """with abstract_profiles(W, [(module, class, params)]): in the symbolic world the potential,
    deflection, Hessian, light ... of the class are arbitrary functions of position and parameters;
    'consistent' makes deflection and Hessian the derivatives of the potential."""

    def __init__(self, W, items, consistent=False, extra=()):
        self.W, self.items, self.consistent = W, items, consistent
        self.saved = []

    def __enter__(self):
        if not self.W.sym:
            return self
        W = self.W
        for mod, cls, params in self.items:
            m = importlib.import_module("lenstronomy." + mod)
            c = getattr(m, cls)
            names = params.split()
            for meth in ("function", "derivatives", "hessian", "mass_3d_lens", "mass_2d_lens", "density_lens", "light_3d"):
                if meth not in dir(c):
                    continue
                new = self.make(W, c, cls, meth, names)
                self.saved.append((c, meth, c.__dict__.get(meth)))
                setattr(c, meth, new)
        return self

    def make(self, W, c, cls, meth, names):
        old = inspect.getattr_static(c, meth)
        sig = inspect.signature(old.__func__ if isinstance(old, staticmethod) else old)
        n = len(names) + 2
        cons = self.consistent
        static = isinstance(old, staticmethod)

        def bind(a, k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            return [b.arguments[q] for q in names if q in b.arguments]

        def call(*a, **k):
            v = bind(a, k)
            args = a if static else a[1:]
            if meth in ("mass_3d_lens", "mass_2d_lens", "density_lens", "light_3d"):
                r = k.get("r", k.get("R")) if not args else args[0]
                return W.uf("%s.%s" % (cls, meth), 1 + len(v))(r, *v)
            b = sig.bind(*a, **k)
            x, y = b.arguments["x"], b.arguments["y"]
            if meth == "function":
                return W.uf(cls, n)(x, y, *v)
            if meth == "derivatives":
                if cons:
                    return W.uf_diff(cls, n, 0)(x, y, *v), W.uf_diff(cls, n, 1)(x, y, *v)
                return W.uf(cls + ".ax", n)(x, y, *v), W.uf(cls + ".ay", n)(x, y, *v)
            if cons:
                d = [W.uf_diff(cls, n, *q)(x, y, *v) for q in ((0, 0), (0, 1), (0, 1), (1, 1))]
                return tuple(d)
            return tuple(W.uf(cls + "." + q, n)(x, y, *v) for q in ("xx", "xy", "yx", "yy"))

        return staticmethod(call) if static else (lambda self, *a, **k: call(self, *a, **k))

    def __exit__(self, *a):
        for c, meth, old in reversed(self.saved):
            if old is None:
                delattr(c, meth)
            else:
                setattr(c, meth, old)
        self.saved = []


class CallRejected(TypeError):
    """the call does not fit the signature of the function that a stand-in replaces"""


class StandInGone(Exception):
    """the name that a stand-in should replace does not exist (any more): no answer"""


def _adapt_function(real, stand):
    """stand with the calling convention of real: however the code passes its arguments (by position or by
    name), they reach the parameters of the stand-in that have their name or, if there is none, their position"""
    try:
        rs, ss = inspect.signature(real), inspect.signature(stand)
    except (TypeError, ValueError):
        return stand
    VP, VK = inspect.Parameter.VAR_POSITIONAL, inspect.Parameter.VAR_KEYWORD
    rnames = [n for n, q in rs.parameters.items() if q.kind not in (VP, VK)]
    sp = [q for q in ss.parameters.values() if q.kind not in (VP, VK)]
    snames = [q.name for q in sp]
    svp = any(q.kind == VP for q in ss.parameters.values())
    svk = any(q.kind == VK for q in ss.parameters.values())

    def call(*a, **k):
        try:
            b = rs.bind(*a, **k)
        except TypeError as e:
            raise CallRejected("%s: %s" % (getattr(real, "__qualname__", real), e)) from None
        given, more = {}, []
        for n, v in b.arguments.items():
            kind = rs.parameters[n].kind
            if kind == VK:
                given.update(v)
            elif kind == VP:
                more = list(v)
            else:
                given[n] = v
        pos, kw, byname = [], {}, False
        for i, q in enumerate(sp):
            src = q.name if q.name in given or q.name in rnames else (rnames[i] if i < len(rnames) and rnames[i] not in snames else None)
            if src is None or src not in given:
                byname = byname or q.kind != inspect.Parameter.KEYWORD_ONLY
                continue
            v = given.pop(src)
            if byname or q.kind == inspect.Parameter.KEYWORD_ONLY:
                kw[q.name] = v
            else:
                pos.append(v)
        # a stand-in with *a, **k is given all it can by position, in the order of the signature
        contiguous = svp and not byname
        for n in [n for n in rnames if n in given or (contiguous and n not in b.arguments)]:
            if n not in given:
                contiguous = False
            elif contiguous and rs.parameters[n].kind != inspect.Parameter.KEYWORD_ONLY:
                pos.append(given.pop(n))
        if given and not svk:
            return stand(*a, **k)
        kw.update(given)
        if more:
            pos += more
        return stand(*pos, **kw)

    return call


def canon(real, a, k):
    """arguments of a call of real by name (without self)"""
    rs = inspect.signature(real)
    out = {}
    first = next(iter(rs.parameters), None)
    b = rs.bind(*(((None,) if first == "self" else ()) + tuple(a)), **k)
    for n, v in b.arguments.items():
        kind = rs.parameters[n].kind
        if kind == inspect.Parameter.VAR_KEYWORD:
            out.update(v)
        elif n != "self":
            out[n] = v
    return out


def instance(real, **methods):
    """an object with some methods of class real, with their calling convention"""
    ns = types.SimpleNamespace()
    for n, f in methods.items():
        r = inspect.getattr_static(real, n, None)
        r = r.__func__ if isinstance(r, staticmethod) else r
        if inspect.isfunction(f) and inspect.isfunction(r):
            s = inspect.signature(r)
            if next(iter(s.parameters), None) == "self":
                def r2(*a, **k):
                    pass
                r2.__signature__ = s.replace(parameters=list(s.parameters.values())[1:])
                r2.__qualname__ = r.__qualname__
                r = r2
            f = _adapt_function(r, f)
        setattr(ns, n, f)
    return ns


def adapt(real, stand):
    """the stand-in with the calling convention of what it replaces"""
    if isinstance(real, staticmethod):
        real = real.__func__
    if isinstance(stand, staticmethod):
        return staticmethod(_adapt_function(real, stand.__func__))
    if inspect.isclass(real) and inspect.isclass(stand):
        d = {}
        for n, f in stand.__dict__.items():
            r = inspect.getattr_static(real, n, None)
            if isinstance(f, staticmethod) and isinstance(r, (staticmethod,)):
                d[n] = staticmethod(_adapt_function(r.__func__, f.__func__))
            elif inspect.isfunction(f) and inspect.isfunction(r):
                d[n] = _adapt_function(r, f)
        d["__module__"] = stand.__module__
        return type(stand.__name__, (stand,), d) if d else stand
    if inspect.isfunction(real) and inspect.isfunction(stand):
        return _adapt_function(real, stand)
    return stand


class swap:
    """with swap(W, (obj, name, new), ...): callee contracts - attributes replaced in the symbolic
    world only (both=True: in both worlds)"""

    def __init__(self, W, *items, both=False):
        self.items = items if (W.sym or both) else ()

    def __enter__(self):
        self.saved = []
        for o, n, new in self.items:
            old = o.__dict__.get(n, swap)
            real = inspect.getattr_static(o, n, swap)
            if real is swap and not hasattr(builtins, n) and (inspect.ismodule(o) or inspect.isclass(o)):
                self.__exit__()
                raise StandInGone("%s.%s" % (o.__name__, n))
            self.saved.append((o, n, old))
            setattr(o, n, adapt(real, new))
        return self

    def __exit__(self, *a):
        for o, n, old in reversed(self.saved):
            if old is swap:
                delattr(o, n)
            else:
                setattr(o, n, old)


class Q:
    """a quantity with .value (astropy unit handling is not modelled)"""

    def __init__(self, value):
        self.value = value

    def to_value(self, unit=None):
        return self.value


class SymCosmo:
    """an arbitrary spatially flat cosmology: comoving distance chi(z) and expansion rate are
    unconstrained positive unknowns for each redshift"""

    def __init__(self, W, zs=(), tag=""):
        self._tag = tag
        self._W = W
        self._chi, c = {}, 0
        for z in sorted(set(float(z) for z in zs)):
            if z > 0:
                c = c + W.real("dchi_%r%s" % (z, tag), 0, None, (300, 1500))
                self._chi[z] = c
        self.h = W.real("h" + tag, 0, None, (0.6, 0.8))
        self.H0 = Q(100 * self.h)

    def chi(self, z):
        if isinstance(z, np.ndarray) and z.shape:
            return np.array([self.chi(q) for q in z], dtype=object)
        if isinstance(z, np.ndarray):
            z = z[()]
        if not isinstance(z, (int, float, np.number)) and hasattr(z, "__float__"):
            try:
                z = float(z)
            except Exception:
                pass
        if isinstance(z, (int, float, np.number)) and float(z) in self._chi:
            return self._chi[float(z)]
        if isinstance(z, (int, float, np.number)):
            if z == 0:
                return 0
            return self._W.real("chi_%r%s" % (float(z), self._tag), 0, None, (500, 5000))
        return self._W.uf("chi" + self._tag, 1)(z)

    def angular_diameter_distance(self, z1, z2=None):
        if z2 is None:
            z1, z2 = 0, z1
        return Q((self.chi(z2) - self.chi(z1)) / (1 + z2))

    def angular_diameter_distance_z1z2(self, z1, z2):
        return self.angular_diameter_distance(z1, z2)

    def comoving_distance(self, z):
        return Q(self.chi(z))

    def comoving_transverse_distance(self, z):
        return Q(self.chi(z))

    def efunc(self, z):
        if isinstance(z, (int, float, np.number)):
            return 1 if z == 0 else self._W.real("E_%r%s" % (float(z), self._tag), 0, None, (1, 3))
        return self._W.uf("E" + self._tag, 1)(z)

    def H(self, z):
        return Q(100 * self.h * self.efunc(z))


def cosmology(W, zs=(), tag=""):
    """any flat cosmology: symbolic, or a random FlatLambdaCDM; zs: the redshifts used"""
    if W.sym:
        return SymCosmo(W, zs, tag)
    from astropy.cosmology import FlatLambdaCDM

    return FlatLambdaCDM(H0=W.real("H0" + tag, 50, 100, (60, 80)), Om0=W.real("Om0" + tag, 0.1, 0.9, (0.2, 0.4)), Tcmb0=0)


LP = "LensModel.Profiles."
SIS = (LP + "sis", "SIS", "theta_E center_x center_y")
SHEAR = (LP + "shear", "Shear", "gamma1 gamma2 ra_0 dec_0")
NFW = (LP + "nfw", "NFW", "Rs alpha_Rs center_x center_y")
CONV = (LP + "convergence", "Convergence", "kappa ra_0 dec_0")
SPP = (LP + "spp", "SPP", "theta_E gamma center_x center_y")
PM = (LP + "point_mass", "PointMass", "theta_E center_x center_y")
PJ = (LP + "pseudo_jaffe", "PseudoJaffe", "sigma0 Ra Rs center_x center_y")
ALL = {"SIS": SIS, "SHEAR": SHEAR, "NFW": NFW, "CONVERGENCE": CONV, "SPP": SPP, "POINT_MASS": PM, "PJAFFE": PJ}


def get_class(item):
    return getattr(importlib.import_module("lenstronomy." + item[0]), item[1])


def lens_kwargs(W, names, tag=""):
    """parameters of the i-th component are independent inputs  p<i>_<name>"""
    from contracts.lensdefs import dom

    out = []
    for i, n in enumerate(names):
        out.append({p: W.real("%sp%d_%s" % (tag, i, p), *dom(p)) for p in ALL[n][2].split()})
    return out


def components(W, names, kw, x, y, what):
    """the quantity of each component from a fresh profile instance"""
    out = []
    for n, k in zip(names, kw):
        p = get_class(ALL[n])()
        r = getattr(p, what)(x, y, **k)
        out.append(r if isinstance(r, tuple) else (r,))
    return out

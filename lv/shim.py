"""Stand-ins for numpy / scipy.special / math inside the symbolically executed modules.

Every function first looks whether a symbolic value is involved; if not, the real library is
called.  With symbolic values, elementwise functions act on terms, structural functions
(reshape, concatenate, where, ...) are numpy's own on arrays of dtype object.
These are the assumed contracts of numpy/scipy over the reals.
"""
import types
import math as _math
import numpy as _np
import scipy.special as _sp
import scipy.signal as _signal
import scipy.ndimage as _ndimage
from . import terms as T
from .sym import R, E, C, B, F1, F2, term, wrap, mkE, is_sym, Unsupported

SYM = (R, C)
ACTIVE = [False]  # True while a symbolic contract body runs


def has_sym(x, depth=0):
    if isinstance(x, SYM):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(v, depth + 1) for v in x)
    return False


def has_exact(x, depth=0):
    if isinstance(x, (R, C, E)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_exact(v, depth + 1) for v in x)
    return False


def obj(x):
    """object array of x (0-d kept 0-d)"""
    if isinstance(x, _np.ndarray):
        if x.dtype == object:
            return x
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        a = [obj(v) for v in x]
        shp = {v.shape for v in a}
        if len(shp) > 1:
            raise Unsupported("ragged array")
        if not a:
            return _np.empty(0, dtype=object)
        out = _np.empty((len(a),) + a[0].shape, dtype=object)
        for i, v in enumerate(a):
            if v.shape == ():
                out[i] = v.item()
            else:
                out[i] = v
        return out
    out = _np.empty((), dtype=object)
    out[()] = x
    return out


def unbox(a):
    if isinstance(a, _np.ndarray) and a.shape == ():
        return a.item()
    return a


def elementwise1(name):
    real = getattr(_np, name)

    def f(x, *args, **kw):
        if isinstance(x, SYM):
            return F1(name, x)
        if has_sym(x) or (ACTIVE[0] and isinstance(x, E)) or (ACTIVE[0] and type(x) is int):
            a = obj(x)
            out = _np.empty(a.shape, dtype=object)
            fl, ol = a.reshape(-1), out.reshape(-1)
            for i in range(fl.size):
                ol[i] = F1(name, fl[i])
            return unbox(out)
        return real(x, *args, **kw)

    f.__name__ = name
    return f


def elementwise2(name, impl=None):
    real = getattr(_np, name)
    op = impl or (lambda a, b: F2(name, a, b))

    def f(x, y, *args, **kw):
        if has_sym(x) or has_sym(y) or (ACTIVE[0] and (isinstance(x, E) or isinstance(y, E)) and not isinstance(x, _np.ndarray) and not isinstance(y, _np.ndarray)):
            if not isinstance(x, (_np.ndarray, list, tuple)) and not isinstance(y, (_np.ndarray, list, tuple)):
                return op(x, y)
            a, b = _np.broadcast_arrays(obj(x), obj(y))
            out = _np.empty(a.shape, dtype=object)
            ol = out.reshape(-1)
            for i, (u, v) in enumerate(zip(a.reshape(-1), b.reshape(-1))):
                ol[i] = op(u, v)
            return unbox(out)
        return real(x, y, *args, **kw)

    f.__name__ = name
    return f


def _max(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, R) and not isinstance(b, R):
        return a if a >= b else b
    return a if a >= b else b


def _min(a, b):
    return a if a <= b else b


def _boolop(name, f):
    real = getattr(_np, name)

    def g(*xs, **kw):
        if any(isinstance(x, B) or (isinstance(x, _np.ndarray) and x.dtype == object) for x in xs):
            xs = [bool(x) if isinstance(x, B) else (x.astype(bool) if isinstance(x, _np.ndarray) and x.dtype == object else x) for x in xs]
        return real(*xs, **kw)

    return g


def _cmpop(name, f):
    real = getattr(_np, name)

    def g(a, b, *r, **kw):
        if has_sym(a) or has_sym(b):
            if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
                return f(a, b)
            return bool(f(a, b))
        return real(a, b, *r, **kw)

    return g


_FL = (float, _np.float64, _np.floating, complex, _np.complex128, "float", "float64", "f8", object)


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    if has_sym(x):
        if dtype in (int, bool, _np.int64):
            if dtype is bool:
                return _np.array(obj(x).astype(bool))
            raise Unsupported("integer array of symbolic values")
        a = obj(x)
        a = a.copy() if copy else a
        while a.ndim < ndmin:
            a = a[None]
        return a
    if ACTIVE[0] and dtype in (float, _np.float64) and not isinstance(x, (str, _np.ndarray)) and not kw:
        # an explicitly real array may later hold symbolic values
        return _np.array(x, dtype=float, copy=copy, ndmin=ndmin).astype(object)
    return _np.array(x, dtype=dtype, copy=copy, ndmin=ndmin, **kw)


def asarray(x, dtype=None, **kw):
    if has_sym(x):
        return obj(x)
    return _np.asarray(x, dtype=dtype, **kw)


def atleast_1d(*xs):
    if len(xs) > 1:
        return tuple(atleast_1d(x) for x in xs)
    x = xs[0]
    if has_sym(x):
        a = obj(x)
        return a.reshape(1) if a.shape == () else a
    return _np.atleast_1d(x)


def atleast_2d(x):
    if has_sym(x):
        return _np.atleast_2d(obj(x))
    return _np.atleast_2d(x)


def _filled(shape, v):
    a = _np.empty(shape, dtype=object)
    a.fill(v)
    return a


def _mk(name, val):
    real = getattr(_np, name)

    def f(shape, dtype=float, **kw):
        if ACTIVE[0] and dtype in (float, None, complex, _np.float64, "complex", "float"):
            return _filled(shape, val)
        return real(shape, dtype=dtype, **kw)

    return f


def _mk_like(name, val):
    real = getattr(_np, name)

    def f(x, dtype=None, **kw):
        if has_sym(x) or (ACTIVE[0] and dtype in (float, None) and not (isinstance(x, _np.ndarray) and x.dtype.kind in "bi")):
            if dtype in (int, bool):
                return real(obj(x), dtype=dtype, **kw)
            return _filled(_np.shape(obj(x)), val)
        return real(x, dtype=dtype, **kw)

    return f


def full(shape, v, dtype=None, **kw):
    if ACTIVE[0] and (is_sym(v) or dtype in (float, None)):
        return _filled(shape, v)
    return _np.full(shape, v, dtype=dtype, **kw)


def full_like(x, v, dtype=None, **kw):
    if ACTIVE[0]:
        return _filled(_np.shape(obj(x)), v)
    return _np.full_like(x, v, dtype=dtype, **kw)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if has_sym(x):
        if isinstance(x, _np.ndarray):
            out = x.copy()
            f = out.reshape(-1)
            for i in range(f.size):
                if not is_sym(f[i]) and f[i] != f[i]:
                    f[i] = nan
            return out
        return x
    return _np.nan_to_num(x, copy=copy, nan=nan, posinf=posinf, neginf=neginf)


def where(c, *a):
    if isinstance(c, B):
        c = bool(c)
    if isinstance(c, _np.ndarray) and c.dtype == object:
        c = c.astype(bool)
    if a and not isinstance(c, _np.ndarray) and (has_sym(a[0]) or has_sym(a[1])):
        if not isinstance(c, (list, tuple)):
            sel = a[0] if c else a[1]
            shp = _np.broadcast_shapes(_np.shape(obj(a[0])), _np.shape(obj(a[1])))
            return unbox(_np.broadcast_to(obj(sel), shp).copy()) if shp else sel
    if a and (has_exact(a[0]) or has_exact(a[1])):
        return unbox(_np.where(c, obj(a[0]), obj(a[1])))
    return _np.where(c, *a)


def _isfin(val):
    def f(x, *a, **k):
        if isinstance(x, SYM):
            return val
        if isinstance(x, _np.ndarray) and x.dtype == object:
            out = _np.empty(x.shape, dtype=bool)
            fl, ol = x.reshape(-1), out.reshape(-1)
            for i in range(fl.size):
                v = fl[i]
                if is_sym(v):
                    ol[i] = val
                else:
                    ol[i] = _np.isfinite(float(v)) if val else False
            return out
        return None

    return f


def isfinite(x, *a, **k):
    r = _isfin(True)(x)
    return _np.isfinite(x, *a, **k) if r is None else r


def isnan(x, *a, **k):
    if has_sym(x):
        xx = obj(x)
        out = _np.zeros(xx.shape, dtype=bool)
        for i, v in _np.ndenumerate(xx):
            if not is_sym(v) and v != v:
                out[i] = True
        return bool(out) if out.shape == () else out
    return _np.isnan(x, *a, **k)


def isinf(x, *a, **k):
    if has_sym(x):
        xx = obj(x)
        return _np.zeros(xx.shape, dtype=bool) if xx.shape else False
    return _np.isinf(x, *a, **k)


def isscalar(x):
    return True if isinstance(x, SYM) else _np.isscalar(x)


def real_(x):
    if isinstance(x, SYM):
        return x.real
    if has_sym(x):
        return unbox(_map(lambda v: C.of(v).re, obj(x)))
    return _np.real(x)


def imag_(x):
    if isinstance(x, SYM):
        return x.imag
    if has_sym(x):
        return unbox(_map(lambda v: C.of(v).im, obj(x)))
    return _np.imag(x)


def angle_(x, *a):
    if has_sym(x):
        return unbox(_map(lambda v: C.of(v).angle(), obj(x)))
    return _np.angle(x, *a)


def conj_(x):
    if has_sym(x):
        return unbox(_map(lambda v: v.conjugate() if is_sym(v) else _np.conj(v), obj(x)))
    return _np.conj(x)


def _map(f, a):
    out = _np.empty(a.shape, dtype=object)
    fl, ol = a.reshape(-1), out.reshape(-1)
    for i in range(fl.size):
        ol[i] = f(fl[i])
    return out


def sum_(x, axis=None, **kw):
    if isinstance(x, SYM):
        return x
    if has_sym(x):
        a = obj(x)
        if kw.get("where") is None:
            kw.pop("where", None)
        kw.pop("dtype", None)
        return _np.sum(a, axis=axis, **kw)
    return _np.sum(x, axis=axis, **kw)


def mean_(x, axis=None, **kw):
    if isinstance(x, SYM):
        return x
    if has_sym(x):
        a = obj(x)
        n = a.size if axis is None else a.shape[axis]
        return _np.sum(a, axis=axis) / n
    return _np.mean(x, axis=axis, **kw)


class LazyExtreme(R):
    """smallest or largest of several values: comparisons go to the elements, anything else picks one"""

    __slots__ = ("els", "low", "got")

    def __init__(self, els, low):
        self.els, self.low, self.got = els, low, None

    @property
    def t(self):
        if self.got is None:
            r = None
            for v in self.els:
                r = v if r is None else (_min(r, v) if self.low else _max(r, v))
            self.got = term(r)
        return self.got

    def _each(self, o, f, some):
        if self.got is not None or isinstance(o, _np.ndarray) or isinstance(o, LazyExtreme):
            return None
        return any(bool(f(v, o)) for v in self.els) if some else all(bool(f(v, o)) for v in self.els)

    def __lt__(self, o):
        r = self._each(o, lambda v, w: v < w, self.low)
        return super().__lt__(o) if r is None else r

    def __le__(self, o):
        r = self._each(o, lambda v, w: v <= w, self.low)
        return super().__le__(o) if r is None else r

    def __gt__(self, o):
        r = self._each(o, lambda v, w: v > w, not self.low)
        return super().__gt__(o) if r is None else r

    def __ge__(self, o):
        r = self._each(o, lambda v, w: v >= w, not self.low)
        return super().__ge__(o) if r is None else r


def _red(name, op):
    real = getattr(_np, name)

    def f(x, axis=None, **kw):
        if isinstance(x, SYM):
            return x
        if has_sym(x):
            a = obj(x)
            if axis is not None:
                return _np.apply_along_axis(lambda v: f(v), axis, a)
            els = list(a.reshape(-1))
            if op in (_min, _max) and len(els) > 1 and any(is_sym(v) for v in els):
                return LazyExtreme(els, op is _min)
            r = None
            for v in els:
                r = v if r is None else op(r, v)
            return r
        return real(x, axis=axis, **kw)

    return f


def clip(x, lo, hi, **kw):
    if has_sym(x) or has_sym(lo) or has_sym(hi):
        r = x
        if lo is not None:
            r = maximum(r, lo)
        if hi is not None:
            r = minimum(r, hi)
        return r
    return _np.clip(x, lo, hi, **kw)


def power(a, b):
    if has_sym(a) or has_sym(b):
        return a**b
    return _np.power(a, b)


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if has_sym(a) or has_sym(b):
        return abs(a - b) <= atol + rtol * abs(b)
    return _np.isclose(a, b, rtol=rtol, atol=atol, **k)


maximum = elementwise2("maximum", _max)


def logaddexp(a, b):
    if has_sym(a) or has_sym(b):
        return F1("log", F1("exp", a) + F1("exp", b))
    return _np.logaddexp(a, b)


minimum = elementwise2("minimum", _min)


def linspace(start, stop, num=50, endpoint=True, **kw):
    a, b = start, stop
    if has_sym(a) or has_sym(b):
        num = int(num)
        d = num - 1 if endpoint else num
        return obj([a + (b - a) * mkE(T.div(T.const(i), T.const(d))) for i in range(num)])
    return _np.linspace(a, b, num, endpoint=endpoint, **kw)


def dot(a, b):
    if has_sym(a) or has_sym(b):
        return _np.dot(obj(a), obj(b))
    return _np.dot(a, b)


def matmul(a, b):
    if has_sym(a) or has_sym(b):
        return _np.dot(obj(a), obj(b))
    return _np.matmul(a, b)


def average(x, axis=None, weights=None, **kw):
    if has_sym(x) or has_sym(weights):
        a = obj(x)
        if weights is None:
            return mean_(a, axis)
        w = obj(weights)
        if axis is not None and w.shape != a.shape:
            w = w.reshape([-1 if i == axis % a.ndim else 1 for i in range(a.ndim)])
        return _np.sum(a * w, axis=axis) / _np.sum(w, axis=axis)
    return _np.average(x, axis=axis, weights=weights, **kw)


def _objwrap(name):
    real = getattr(_np, name)

    def f(*a, **k):
        if any(has_sym(x) for x in a):
            a = tuple(obj(x) if isinstance(x, SYM) else x for x in a)
        return real(*a, **k)

    return f


def allclose_(a, b, *r, **k):
    if has_sym(a) or has_sym(b):
        raise Unsupported("allclose on symbolic values")
    return _np.allclose(a, b, *r, **k)


def any_(x, *a, **k):
    if isinstance(x, B):
        return bool(x)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        x = x.astype(bool)
    return _np.any(x, *a, **k)


def all_(x, *a, **k):
    if isinstance(x, B):
        return bool(x)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        x = x.astype(bool)
    return _np.all(x, *a, **k)


def var_(x, axis=None, **kw):
    if has_sym(x):
        a = obj(x)
        m = mean_(a, axis)
        return mean_((a - m) ** 2, axis)
    return _np.var(x, axis=axis, **kw)


def std_(x, axis=None, **kw):
    if has_sym(x):
        a = obj(x)
        m = mean_(a, axis)
        return sqrt(mean_((a - m) ** 2, axis))
    return _np.std(x, axis=axis, **kw)


def copy_(x, *a, **k):
    if isinstance(x, SYM):
        return obj(x).copy()
    return _np.copy(x, *a, **k)


sqrt = elementwise1("sqrt")


def _det_small(a):
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    s = 0
    for j in range(n):
        m = _np.delete(_np.delete(a, 0, 0), j, 1)
        s = s + (1 if j % 2 == 0 else -1) * a[0, j] * _det_small(m)
    return s


class LinalgShim:
    LinAlgError = _np.linalg.LinAlgError

    def __getattr__(self, n):
        return getattr(_np.linalg, n)

    def inv(self, a):
        if has_sym(a):
            a = obj(a)
            n = a.shape[0]
            if n > 4:
                raise Unsupported("inverse of a large symbolic matrix")
            d = _det_small(a)
            out = _np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    m = _np.delete(_np.delete(a, j, 0), i, 1)
                    c = _det_small(m) if n > 1 else 1
                    out[i, j] = (1 if (i + j) % 2 == 0 else -1) * c / d
            return out
        return _np.linalg.inv(a)

    def det(self, a):
        if has_sym(a):
            return _det_small(obj(a))
        return _np.linalg.det(a)

    def norm(self, a, *r, **k):
        if has_sym(a):
            if r or k:
                raise Unsupported("norm options")
            return sqrt(sum_(obj(a) ** 2))
        return _np.linalg.norm(a, *r, **k)

    def solve(self, a, b):
        if has_sym(a) or has_sym(b):
            return _np.dot(self.inv(a), obj(b))
        return _np.linalg.solve(a, b)

    def pinv(self, a, *r, **k):
        if has_sym(a):
            raise Unsupported("pinv")
        return _np.linalg.pinv(a, *r, **k)

    def slogdet(self, a):
        if has_sym(a):
            d = _det_small(obj(a))
            if d == 0:
                return 0, -_np.inf
            if d > 0:
                return 1, F1("log", d)
            return -1, F1("log", -d)
        return _np.linalg.slogdet(a)

    def cond(self, a, *r, **k):
        if has_sym(a):  # precondition of the contracts that use it: the matrix is well conditioned
            return E("1.0")
        return _np.linalg.cond(a, *r, **k)


# ------------------------------------------------------------------ discrete convolution
def _conv_full(a, b):
    """full discrete convolution of two n-dimensional arrays"""
    a, b = obj(a), obj(b)
    shape = tuple(p + q - 1 for p, q in zip(a.shape, b.shape))
    out = _filled(shape, 0)
    for i in _np.ndindex(*b.shape):
        w = b[i]
        if not is_sym(w) and w == 0:
            continue
        sl = tuple(slice(k, k + n) for k, n in zip(i, a.shape))
        out[sl] = out[sl] + a * w
    return out


def _conv_mode(full, sa, sb, mode):
    if mode == "full":
        return full
    if mode == "same":
        new = sa
    elif mode == "valid":
        new = tuple(max(p, q) - min(p, q) + 1 for p, q in zip(sa, sb))
    else:
        raise ValueError("acceptable mode flags are 'valid', 'same', or 'full'")
    st = [(f - n) // 2 for f, n in zip(full.shape, new)]
    return full[tuple(slice(k, k + n) for k, n in zip(st, new))]


def _mk_conv(name):
    real = getattr(_signal, name)

    def f(in1, in2, mode="full", *r, **k):
        if has_sym(in1) or has_sym(in2) or has_exact(in1) or has_exact(in2):
            b = k.get("boundary", r[0] if r and name == "convolve2d" else "fill")
            if (r and name != "convolve2d") or b != "fill" or k.get("axes") is not None:
                raise Unsupported(name + " options")
            a, b = _np.asarray(in1), _np.asarray(in2)
            return _conv_mode(_conv_full(a, b), a.shape, b.shape, mode)
        return real(in1, in2, mode, *r, **k)

    f.__name__ = name
    return f


class Spectrum:
    """discrete Fourier transform of a symbolic array; products are circular convolutions"""

    def __init__(self, a):
        self.a = a
        self.ndim = a.ndim

    def __mul__(self, o):
        if not isinstance(o, Spectrum):
            if _np.ndim(o) == 0:
                return Spectrum(self.a * o)
            raise Unsupported("product of a symbolic spectrum with an array")
        if self.a.shape != o.a.shape:
            raise ValueError("shapes of spectra differ")
        full = _conv_full(self.a, o.a)
        out = _filled(self.a.shape, 0)
        for i in _np.ndindex(*full.shape):
            j = tuple(p % n for p, n in zip(i, out.shape))
            out[j] = out[j] + full[i]
        return Spectrum(out)

    __rmul__ = __mul__

    def conj(self):
        r = self.a
        for ax in range(r.ndim):
            r = _np.roll(_np.flip(r, ax), 1, ax)
        return Spectrum(r)


class FFTShim:
    def __getattr__(self, n):
        real = getattr(_np.fft, n)

        def f(a, *r, **k):
            if isinstance(a, Spectrum) or has_sym(a):
                raise Unsupported("np.fft." + n)
            return real(_unexact(a), *r, **k)

        return f

    def rfftn(self, a, s=None, axes=None):
        if has_sym(a) or ACTIVE[0]:
            a = obj(a)
            s = tuple(a.shape if s is None else s)
            if axes is not None and tuple(axes) != tuple(range(a.ndim)):
                raise Unsupported("rfftn axes")
            out = _filled(s, 0)
            sl = tuple(slice(0, min(p, q)) for p, q in zip(s, a.shape))
            out[sl] = a[sl]
            return Spectrum(out)
        return _np.fft.rfftn(a, s, axes)

    def irfftn(self, a, s=None, axes=None):
        if isinstance(a, Spectrum):
            if s is None or tuple(s) != a.a.shape:
                raise Unsupported("irfftn of another size")
            return a.a
        return _np.fft.irfftn(a, s, axes)

    fftn = rfftn
    fft2 = lambda self, a, s=None: self.rfftn(a, s)
    rfft2 = fft2


def _unexact(a):
    a = _np.asarray(a)
    return a.astype(float) if a.dtype == object else a


def ndshift(a, shift, output=None, order=3, mode="constant", cval=0.0, prefilter=True):
    """scipy.ndimage.shift, linear interpolation, zero outside the array"""
    sh = list(shift) if _np.ndim(shift) else [shift] * _np.ndim(a)
    if not (has_sym(a) or any(is_sym(q) for q in sh)):
        if order == 1 and has_exact(a):
            pass
        else:
            return _ndimage.shift(_unexact(a), [float(q) for q in sh], output, order, mode, float(cval), prefilter)
    if output is not None or mode != "constant" or (order not in (0, 1) and not all((not is_sym(q)) and q == 0 for q in sh)):
        raise Unsupported("ndimage.shift options")
    a = obj(a)
    for ax, s in enumerate(sh):
        if not is_sym(s) and s == 0:
            continue
        n = a.shape[ax]
        m = lv_floor(s)  # m <= s < m + 1
        f = s - m
        b = _np.moveaxis(a, ax, 0)
        out = _filled(b.shape, 0)
        exact = bool(f == 0)
        for i in range(n):
            # value at i - s = (i - m) - f, between i - m - 1 and i - m
            lo, hi = i - m - 1, i - m
            if exact:
                if 0 <= hi < n:
                    out[i] = b[hi]
            elif lo >= 0 and hi < n:
                out[i] = b[lo] * f + b[hi] * (1 - f)
        a = _np.moveaxis(out, 0, ax)
    return a


def gaussian_filter(a, sigma, order=0, output=None, mode="reflect", cval=0.0, truncate=4.0, **k):
    if not has_sym(a) and not is_sym(sigma):
        return _ndimage.gaussian_filter(_unexact(a), float(sigma), order, output, mode, float(cval), float(truncate), **k)
    if is_sym(sigma) or order != 0 or output is not None or mode != "nearest" or k:
        raise Unsupported("gaussian_filter options")
    sg = float(sigma)
    lw = int(float(truncate) * sg + 0.5)
    w = _np.exp(-0.5 / (sg * sg) * _np.arange(-lw, lw + 1) ** 2)
    w = w / w.sum()
    a = obj(a)
    for ax in range(a.ndim):
        b = _np.moveaxis(a, ax, 0)
        n = b.shape[0]
        out = _filled(b.shape, 0)
        for i in range(n):
            for j, wj in zip(range(-lw, lw + 1), w):
                out[i] = out[i] + b[min(max(i + j, 0), n - 1)] * E(repr(float(wj)))
        a = _np.moveaxis(out, 0, ax)
    return a


def _rat(v):
    """the small rational a float stands for (machine arithmetic read as mathematical)"""
    from fractions import Fraction

    v = float(v)
    f = Fraction(v).limit_denominator(10**6)
    return f if abs(float(f) - v) <= 1e-13 * max(1.0, abs(v)) else Fraction(v)


class RectBivariateSplineShim:
    """scipy.interpolate.RectBivariateSpline; symbolic values: linear interpolation on concrete knots, clamped"""

    def __new__(cls, x, y, z, *a, **k):
        if not has_sym(z):
            flt = lambda q: _np.array([float(v) for v in q]) if has_exact(q) or isinstance(q, (list, tuple)) else q
            return _RBS(flt(x), flt(y), _unexact(z), *a, **k)
        return super().__new__(cls)

    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0, **k):
        if kx != 1 or ky != 1 or s != 0 or bbox is not None or any(is_sym(v) for v in list(x) + list(y)):
            raise Unsupported("RectBivariateSpline options")
        self.x, self.y, self.z = [_rat(v) for v in x], [_rat(v) for v in y], obj(z)

    @staticmethod
    def _w(knots, v):
        v = min(max(_rat(v), knots[0]), knots[-1])
        for i in range(len(knots) - 1):
            if v <= knots[i + 1]:
                break
        f = (v - knots[i]) / (knots[i + 1] - knots[i])
        return [(q, mkE(T.const(w))) for q, w in ((i, 1 - f), (i + 1, f)) if w != 0]

    def __call__(self, x, y, dx=0, dy=0, grid=True):
        if dx or dy or has_sym(x) and any(is_sym(v) for v in _np.ravel(x)) or has_sym(y) and any(is_sym(v) for v in _np.ravel(y)):
            raise Unsupported("RectBivariateSpline at symbolic points")
        pt = lambda a, b: sum(self.z[i, j] * u * v for i, u in a for j, v in b)
        if not grid:
            return obj([pt(self._w(self.x, a), self._w(self.y, b)) for a, b in zip(x, y)])
        wx, wy = [self._w(self.x, v) for v in x], [self._w(self.y, v) for v in y]
        return obj([[pt(a, b) for b in wy] for a in wx])

    def ev(self, x, y, dx=0, dy=0):
        return self(x, y, dx, dy, grid=False)


import scipy.interpolate as _interp

_RBS = _interp.RectBivariateSpline


def patch_scipy():
    """names imported inside functions (symbolic world only)"""
    _interp.RectBivariateSpline = RectBivariateSplineShim


class SignalShim(types.ModuleType):
    def __init__(self):
        super().__init__("signal_shim")
        for n in ("fftconvolve", "convolve", "convolve2d"):
            self.__dict__[n] = _mk_conv(n)

    def __getattr__(self, n):
        return getattr(_signal, n)


class NdimageShim(types.ModuleType):
    def __init__(self):
        super().__init__("ndimage_shim")
        self.__dict__["shift"] = ndshift
        self.__dict__["gaussian_filter"] = gaussian_filter
        self.__dict__["interpolation"] = self
        self.__dict__["filters"] = self

    def __getattr__(self, n):
        real = getattr(_ndimage, n)
        if not callable(real) or isinstance(real, type):
            return real

        def f(*a, **k):
            if any(has_sym(q) for q in a) or any(has_sym(q) for q in k.values()):
                raise Unsupported("ndimage." + n)
            return real(*[_unexact(q) if isinstance(q, _np.ndarray) else q for q in a],
                        **{q: (float(v) if isinstance(v, E) else v) for q, v in k.items()})

        return f


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy_shim")
        d = self.__dict__
        for n in (
            "sqrt exp log log10 log2 log1p expm1 exp2 sin cos tan arcsin arccos arctan sinh cosh tanh "
            "arcsinh arccosh arctanh abs absolute square sign deg2rad rad2deg radians degrees fabs"
        ).split():
            d[n] = elementwise1(n)
        d["abs"] = d["absolute"] = d["fabs"] = _abs
        d["arctan2"] = elementwise2("arctan2")
        d["hypot"] = elementwise2("hypot")
        d["maximum"] = maximum
        d["logaddexp"] = logaddexp
        d["minimum"] = minimum
        d["fmax"] = maximum
        d["fmin"] = minimum
        d["add"] = _bin("add", lambda a, b: a + b)
        d["subtract"] = _bin("subtract", lambda a, b: a - b)
        d["multiply"] = _bin("multiply", lambda a, b: a * b)
        d["divide"] = d["true_divide"] = _bin("divide", lambda a, b: a / b)
        d["array"] = array
        d["asarray"] = d["asanyarray"] = d["ascontiguousarray"] = asarray
        d["atleast_1d"] = atleast_1d
        d["atleast_2d"] = atleast_2d
        d["zeros"] = _mk("zeros", 0)
        d["ones"] = _mk("ones", 1)
        d["empty"] = _mk("empty", mkE(T.NAN))
        d["zeros_like"] = _mk_like("zeros_like", 0)
        d["ones_like"] = _mk_like("ones_like", 1)
        d["empty_like"] = _mk_like("empty_like", mkE(T.NAN))
        d["full"] = full
        d["full_like"] = full_like
        d["nan_to_num"] = nan_to_num
        d["where"] = where
        d["isfinite"] = isfinite
        d["isnan"] = isnan
        d["isinf"] = isinf
        d["isscalar"] = isscalar
        d["real"] = real_
        d["imag"] = imag_
        d["angle"] = angle_
        d["conj"] = d["conjugate"] = conj_
        d["sum"] = sum_
        d["mean"] = mean_
        d["average"] = average
        d["std"] = std_
        d["var"] = var_
        d["max"] = d["amax"] = d["nanmax"] = _red("max", _max)
        d["min"] = d["amin"] = d["nanmin"] = _red("min", _min)
        d["clip"] = clip
        d["power"] = d["float_power"] = power
        d["isclose"] = isclose
        d["allclose"] = allclose_
        d["linspace"] = linspace
        d["dot"] = dot
        d["matmul"] = matmul
        d["any"] = any_
        d["all"] = all_
        d["copy"] = copy_
        d["linalg"] = LinalgShim()
        d["fft"] = FFTShim()
        d["pi"] = mkE(T.PI)
        d["e"] = mkE(T.fn("exp", T.ONE))
        for n in ("logical_and", "logical_or", "logical_not", "logical_xor"):
            d[n] = _boolop(n, None)
        import operator as o

        d["less"] = _cmpop("less", o.lt)
        d["less_equal"] = _cmpop("less_equal", o.le)
        d["greater"] = _cmpop("greater", o.gt)
        d["greater_equal"] = _cmpop("greater_equal", o.ge)
        d["equal"] = _cmpop("equal", o.eq)
        d["not_equal"] = _cmpop("not_equal", o.ne)
        for n in ("reshape", "append", "concatenate", "insert", "outer", "cumsum", "prod", "tile", "repeat", "ravel",
                  "stack", "vstack", "hstack", "dstack", "delete", "roll", "flip", "squeeze", "expand_dims", "diff",
                  "meshgrid", "broadcast_to", "broadcast_arrays", "transpose", "rot90", "fliplr", "flipud", "size",
                  "shape", "ndim", "column_stack", "resize", "einsum", "tensordot", "trace", "diag", "split", "array_split"):
            d[n] = _objwrap(n)

    def __getattr__(self, n):
        return getattr(_np, n)


def _abs(x, *a, **k):
    if isinstance(x, SYM):
        return abs(x)
    if has_sym(x):
        return unbox(_map(abs, obj(x)))
    return _np.abs(x, *a, **k)


def _bin(name, op):
    real = getattr(_np, name)

    def f(a, b, *r, **k):
        if has_sym(a) or has_sym(b):
            if not isinstance(a, (list, tuple)) and not isinstance(b, (list, tuple)):
                return op(a, b)
            return op(obj(a), obj(b))
        return real(a, b, *r, **k)

    return f


# ------------------------------------------------------------------ scipy.special
def _special(name, nargs, impl):
    real = getattr(_sp, name)

    def f(*a, **k):
        if any(has_sym(x) for x in a) or (ACTIVE[0] and any(isinstance(x, E) for x in a) and not any(isinstance(x, _np.ndarray) for x in a)):
            if any(isinstance(x, (_np.ndarray, list)) for x in a):
                arrs = _np.broadcast_arrays(*[obj(x) for x in a])
                out = _np.empty(arrs[0].shape, dtype=object)
                ol = out.reshape(-1)
                for i, v in enumerate(zip(*[q.reshape(-1) for q in arrs])):
                    ol[i] = impl(*v)
                return unbox(out)
            return impl(*a)
        return real(*a, **k)

    f.__name__ = name
    return f


def _w(name):
    return lambda *a: wrap(T.fn(name, *[_t(x) for x in a]))


def _t(x):
    t = term(x)
    if t is None:
        raise Unsupported("special function of %r" % (type(x),))
    return t


def _gammainc(a, x):
    a, x = _t(a), _t(x)
    return wrap(T.div(T.fn("gammaincl", a, x), T.fn("gamma", a)))


def _gammaincc(a, x):
    a, x = _t(a), _t(x)
    return wrap(T.div(T.fn("gammaincc_u", a, x), T.fn("gamma", a)))


def _beta(a, b):
    a, b = _t(a), _t(b)
    return wrap(T.div(T.mul(T.fn("gamma", a), T.fn("gamma", b)), T.fn("gamma", T.add(a, b))))


def _betainc(a, b, x):
    a, b, x = _t(a), _t(b), _t(x)
    g = T.div(T.fn("gamma", T.add(a, b)), T.mul(T.fn("gamma", a), T.fn("gamma", b)))
    return wrap(T.mul(g, T.fn("betaincl", a, b, x)))


class _Laguerre:
    """scipy.special.genlaguerre for concrete orders: the explicit polynomial on symbolic arguments"""

    def __init__(self, n, alpha, *a, **k):
        self.n, self.alpha = int(n), int(alpha)
        self.real = _sp.genlaguerre(self.n, self.alpha, *a, **k)

    def __call__(self, x):
        if not has_sym(x):
            return self.real(x)
        from fractions import Fraction

        out = 0
        for k in range(self.n + 1):
            c = Fraction((-1) ** k * _math.comb(self.n + self.alpha, self.n - k), _math.factorial(k))
            out = out + mkE(T.const(c)) * x ** k
        return out

    def __getattr__(self, n):
        return getattr(self.real, n)


def _hyp2f1(a, b, c, z):
    if isinstance(z, (C, complex)):
        if _t(a) is not T.ONE:
            raise Unsupported("complex hyp2f1 with a != 1")
        z = C.of(z)
        arg = (_t(b), _t(c), _t(z.re), _t(z.im))
        return C(wrap(T.fn("chypre", *arg)), wrap(T.fn("chypim", *arg)))
    return _w("hyp2f1")(a, b, c, z)


SPECIAL = {
    "genlaguerre": lambda n, alpha, *a, **k: _Laguerre(n, alpha, *a, **k),
    "gamma": _special("gamma", 1, _w("gamma")),
    "gammainc": _special("gammainc", 2, _gammainc),
    "gammaincc": _special("gammaincc", 2, _gammaincc),
    "hyp2f1": _special("hyp2f1", 4, _hyp2f1),
    "erf": _special("erf", 1, _w("erf")),
    "erfc": _special("erfc", 1, _w("erfc")),
    "exp1": _special("exp1", 1, _w("exp1")),
    "spence": _special("spence", 1, _w("spence")),
    "beta": _special("beta", 2, _beta),
    "betainc": _special("betainc", 3, _betainc),
    "jv": _special("jv", 2, _w("besselj")),
    "wofz": _special("wofz", 1, lambda *a: (_ for _ in ()).throw(Unsupported("wofz"))),
}
_REAL2SHIM = {id(getattr(_sp, n)): f for n, f in SPECIAL.items()}


class SpecialShim(types.ModuleType):
    def __init__(self):
        super().__init__("special_shim")
        self.__dict__.update(SPECIAL)

    def __getattr__(self, n):
        return getattr(_sp, n)


class ScipyShim(types.ModuleType):
    def __init__(self, real):
        super().__init__("scipy_shim")
        self.__dict__["special"] = SPECIAL_MOD
        self.__dict__["signal"] = SIGNAL
        self.__dict__["ndimage"] = NDIMAGE
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        return getattr(self._real, n)


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math_shim")
        for n in "sqrt exp log10 log1p sin cos tan sinh cosh tanh".split():
            self.__dict__[n] = self._f(n, n)
        for n in "asin acos atan asinh acosh atanh".split():
            self.__dict__[n] = self._f("arc" + n[1:], n)
        self.__dict__["pi"] = mkE(T.PI)

        def log(x, *b):
            if is_sym(x) or (ACTIVE[0] and isinstance(x, E)):
                if b:
                    return F1("log", x) / F1("log", b[0])
                return F1("log", x)
            return _math.log(x, *b)

        self.__dict__["log"] = log
        self.__dict__["atan2"] = lambda y, x: F2("arctan2", y, x) if (is_sym(y) or is_sym(x)) else _math.atan2(y, x)
        self.__dict__["hypot"] = lambda y, x: F2("hypot", y, x) if (is_sym(y) or is_sym(x)) else _math.hypot(y, x)

    @staticmethod
    def _f(symname, n):
        real = getattr(_math, n)

        def f(x):
            if is_sym(x) or (ACTIVE[0] and isinstance(x, E)):
                return F1(symname, x)
            return real(x)

        return f

    def __getattr__(self, n):
        return getattr(_math, n)


NP = NumpyShim()
SPECIAL_MOD = SpecialShim()
MATH = MathShim()
SIGNAL = SignalShim()
NDIMAGE = NdimageShim()
_CONVS = [_signal.fftconvolve, _signal.convolve, _signal.convolve2d]


def patch_namespace(ns):
    """replace numpy / scipy.special / math objects in a module namespace"""
    import scipy

    for k, v in list(ns.items()):
        if v is _np:
            ns[k] = NP
        elif v is _np.linalg:
            ns[k] = NP.linalg
        elif v is _sp:
            ns[k] = SPECIAL_MOD
        elif v is _math:
            ns[k] = MATH
        elif v is scipy:
            ns[k] = ScipyShim(scipy)
        elif v is _signal:
            ns[k] = SIGNAL
        elif v is _ndimage:
            ns[k] = NDIMAGE
        elif any(v is getattr(_np.linalg, q) for q in ("inv", "det", "norm", "solve", "pinv", "slogdet", "cond")):
            ns[k] = getattr(NP.linalg, v.__name__)
        elif any(v is q for q in _CONVS):
            ns[k] = getattr(SIGNAL, v.__name__)
        elif id(v) in _REAL2SHIM and callable(v):
            ns[k] = _REAL2SHIM[id(v)]
        elif callable(v) and getattr(v, "__module__", None) in ("numpy", "math") and not k.startswith("__"):
            r = getattr(NP, getattr(v, "__name__", ""), None)
            if r is not None:
                ns[k] = r


# ------------------------------------------------------------------ builtins used by the code
def lv_float(x=0.0):
    if isinstance(x, (R, E)):
        return x
    if isinstance(x, _np.ndarray) and x.size == 1 and x.dtype == object:
        return lv_float(x.reshape(-1)[0])
    return float(x)


def lv_floor(x):
    """largest integer not above x (case split over -9..9)"""
    if not is_sym(x):
        return _math.floor(x)
    n = 0
    if x >= 0:
        while n < 9:
            if x < n + 1:
                return n
            n += 1
    else:
        while n > -9:
            n -= 1
            if x >= n:
                return n
    raise Unsupported("floor of a symbolic value of large range")


def lv_int(x=0, *a):
    if isinstance(x, R):
        n = lv_floor(x)
        return n if n >= 0 or bool(x == n) else n + 1
    if isinstance(x, E):
        return int(float(x))
    return int(x, *a)


def lv_complex(*a):
    if any(is_sym(x) for x in a):
        if len(a) == 1:
            return C.of(a[0])
        return C(wrap(_t(a[0])), wrap(_t(a[1])))
    return complex(*a)


def lv_part(x, which):
    """x.real, x.imag"""
    if isinstance(x, _np.ndarray) and x.dtype == object:
        out = _np.empty(x.shape, dtype=object)
        for i in _np.ndindex(*x.shape):
            out[i] = lv_part(x[i], which)
        return out
    if isinstance(x, R):
        return x if which == "real" else mkE(T.ZERO)
    return getattr(x, which)


def lv_setpart(x, which, v):
    """x.real = v, x.imag = v"""
    if isinstance(x, _np.ndarray) and x.dtype == object:
        v = _np.broadcast_to(obj(v), x.shape)
        for i in _np.ndindex(*x.shape):
            z = C.of(x[i])
            w = v[i]
            if isinstance(w, (C, complex)):
                raise Unsupported("complex value of a real part")
            w = wrap(_t(w))
            x[i] = C(w, z.im) if which == "real" else C(z.re, w)
        return
    setattr(x, which, v)


def lv_isinstance(x, cls):
    if isinstance(x, R):
        cl = cls if isinstance(cls, tuple) else (cls,)
        flat = []
        for c in cl:
            flat.extend(c if isinstance(c, tuple) else (c,))
        return any(c in (float, _np.float64, _np.floating, _np.number, _np.inexact, _np.generic, R, object) for c in flat)
    return isinstance(x, cls)


def lv_div(a, b):
    if type(a) is int and type(b) is int and b != 0:
        return mkE(T.div(T.const(a), T.const(b)))
    return a / b


def lv_round(x, *a):
    if is_sym(x):
        if a:
            raise Unsupported("round of a symbolic value")
        n = lv_floor(x)
        d = x - n - E("0.5")
        if d < 0:
            return n
        if d > 0:
            return n + 1
        return n if n % 2 == 0 else n + 1
    return round(x, *a)


BUILTINS = {
    "lv__float": lv_float,
    "lv__int": lv_int,
    "lv__complex": lv_complex,
    "lv__isinstance": lv_isinstance,
    "lv__part": lv_part,
    "lv__setpart": lv_setpart,
    "lv__div": lv_div,
    "lv__round": lv_round,
    "lv__E": E,
}

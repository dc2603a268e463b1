"""Symbolic stand-ins for numpy / math / scipy / numexpr.

Arrays stay real numpy arrays (dtype object, elements S), so indexing, broadcasting,
reshape, einsum, append ... are numpy's own; only constructors, transcendental functions
and linear algebra are replaced.  Native integer and bool arrays are left native.
"""
import math
import sys
import types
from fractions import Fraction

import numpy as np

from .sym import (S, B, Ctx, Unsupported, const, lift, var, mk_abs, mk_exp, mk_log, mk_pow,
                  mk_floor, mk_trunc, mk_round, is_int_valued, uf, PI, b_and)
from . import sym as _sym

real_int, real_float, real_type, real_isinstance = int, float, type, isinstance


def lit(text):
    f = real_float(text)
    if f == math.pi:
        return PI
    if math.isinf(f):
        return f
    return const(Fraction(text))


def exact(x):
    """python/numpy float -> S (ints, bools, strings, None, ... untouched)"""
    if real_isinstance(x, (real_float, np.floating)):
        x = real_float(x)
        if math.isinf(x) or math.isnan(x):
            return x
        return lift(x)
    return x


def obj(a):
    """make an array exact: float arrays become object arrays of S"""
    if real_isinstance(a, np.ndarray) and a.dtype.kind == 'f':
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = exact(a[i])
        return out
    if real_isinstance(a, np.ndarray) and a.dtype.kind == 'O':
        for i in np.ndindex(a.shape):
            if real_isinstance(a[i], (real_float, np.floating)):
                a[i] = exact(a[i])
        return a
    return a


def unwrap(x):
    return x


def _is_intlike(x):
    return real_isinstance(x, (real_int, np.integer, np.bool_)) or \
        (real_isinstance(x, np.ndarray) and x.dtype.kind in 'iub')


def to_obj(a):
    a = np.asarray(a)
    if a.dtype.kind in 'iub':
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = const(real_int(a[i]))
        return out
    return obj(a) if a.dtype.kind == 'f' else a


def div(a, b):
    if _is_intlike(a) and _is_intlike(b):
        if real_isinstance(a, np.ndarray) or real_isinstance(b, np.ndarray):
            return np.true_divide(to_obj(a), to_obj(b)) \
                if (np.ndim(a) or np.ndim(b)) else div(a.item() if hasattr(a, 'item') else a,
                                                       b.item() if hasattr(b, 'item') else b)
        if b == 0:
            if real_isinstance(a, np.integer) or real_isinstance(b, np.integer):
                return real_float('nan') if a == 0 else math.copysign(math.inf, a)
            raise ZeroDivisionError("division by zero")
        return const(Fraction(real_int(a), real_int(b)))
    return a / b


def idiv(a, b):
    if real_isinstance(a, np.ndarray):
        a /= b
        return a
    return div(a, b)


def power(a, b):
    if real_isinstance(a, (real_int, np.integer)) and real_isinstance(b, (real_int, np.integer)):
        if b < 0 and not (real_isinstance(a, np.integer) and real_isinstance(b, np.integer)):
            return const(Fraction(real_int(a)) ** real_int(b))
        return a ** b
    if real_isinstance(a, real_int) and real_isinstance(b, np.ndarray) and b.dtype.kind == 'O':
        return to_obj(np.full(b.shape, a)) ** b
    if real_isinstance(a, np.ndarray) and a.dtype.kind in 'iu' and real_isinstance(b, S):
        return to_obj(a) ** b
    return a ** b


def ix1(i):
    if real_isinstance(i, S):
        return i.__index__()
    if real_isinstance(i, np.ndarray) and i.dtype.kind == 'O':
        flat = [x for x in i.flat]
        if all(real_isinstance(x, (bool, np.bool_, B)) for x in flat) and flat:
            return np.array([bool(x) for x in flat], dtype=bool).reshape(i.shape)
        return np.array([real_int(x.__index__()) for x in flat], dtype=np.int64).reshape(i.shape)
    if real_isinstance(i, list):
        if any(real_isinstance(x, (S, B)) for x in i):
            return [bool(x) if real_isinstance(x, B) else x.__index__() for x in i]
    return i


def ix(o, i):
    """index sanitiser (objects other than arrays/lists get their index untouched)"""
    if real_isinstance(o, dict):
        return i
    if real_isinstance(i, tuple):
        return tuple(ix1(x) for x in i)
    return ix1(i)


# -- elementwise functions ------------------------------------------------------

def _s(x):
    if real_isinstance(x, (S,)):
        return x
    return lift(x)


def umap(f, name):
    def g(x, *a, **kw):
        if kw:
            raise Unsupported("np.%s with keywords %s" % (name, sorted(kw)))
        if real_isinstance(x, (list, tuple)):
            x = np.array(x, dtype=object)
        if real_isinstance(x, np.ndarray):
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = f(x[i] if real_isinstance(x[i], S) else exact_in(x[i]))
            return out if x.ndim else out.item()
        return f(exact_in(x))
    g.__name__ = name
    return g


def exact_in(x):
    if real_isinstance(x, S):
        return x
    if real_isinstance(x, (real_float, np.floating)) and (math.isinf(x) or math.isnan(x)):
        return real_float(x)
    return lift(x)


def np_exp(x):
    if real_isinstance(x, real_float):
        return const(0) if x == -math.inf else x
    return mk_exp(x)


def np_log(x):
    if real_isinstance(x, real_float):
        return x if x > 0 else real_float('nan')
    if x.op == 'c' and x.args[0] == 0:
        return -math.inf
    if x.op == 'c' and x.args[0] < 0:
        return real_float('nan')
    dom('log', x)
    return mk_log(x)


def np_sqrt(x):
    if real_isinstance(x, real_float):
        return x if x > 0 else real_float('nan')
    if x.op == 'c' and x.args[0] < 0:
        return real_float('nan')
    dom('sqrt', x)
    return mk_pow(x, const(Fraction(1, 2)))


def dom(kind, x):
    c = Ctx.cur_or_none()
    if c is not None and x.op != 'c' and not (x.op == 'v' and x.args[2]) and x.op != 'exp':
        c.domain.append((kind, x))


def m_sqrt(x):
    x = scalar(x)
    if real_isinstance(x, real_float):
        return math.sqrt(x)
    if bool(x < 0):
        raise ValueError("math domain error")
    return mk_pow(x, const(Fraction(1, 2)))


def m_log(x, base=None):
    x = scalar(x)
    if base is not None:
        return m_log(x) / m_log(base)
    if real_isinstance(x, real_float):
        return math.log(x)
    if bool(x <= 0):
        raise ValueError("math domain error")
    return mk_log(x)


def total_math():
    """the math module with a logarithm whose argument is taken to be positive"""
    m = MathProxy()
    m.log = lambda x, base=None: (mk_log(lift(scalar(x))) if base is None
                                  else mk_log(lift(scalar(x))) / mk_log(lift(scalar(base))))
    return {'math': m}


def m_exp(x):
    return np_exp(scalar(x))


def scalar(x):
    if real_isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.reshape(-1)[0]
    return exact_in(x)


def sign(x):
    if real_isinstance(x, real_float):
        return const(1 if x > 0 else -1)
    if x.op == 'c':
        return const((x.args[0] > 0) - (x.args[0] < 0))
    return const(_sym.sign_of(x))


_lg = {}


def lgamma(x):
    """ln|Gamma(x)| for integers and half-integers"""
    if real_isinstance(x, real_float):
        return x
    x = lift(x)
    if x.op == 'c':
        f = x.args[0]
        if f.denominator == 1:
            if f <= 0:
                return math.inf
            return mk_log(const(math.factorial(real_int(f) - 1)))
        if f.denominator == 2:
            v = Fraction(1)
            while f > Fraction(1, 2):
                f -= 1
                v *= f
            while f < Fraction(1, 2):
                v /= f
                f += 1
            return mk_log(const(abs(v))) + mk_log(PI) / 2
        raise Unsupported("lgamma(%s)" % f)
    if is_int_valued(x):
        return lgamma(const(Ctx.cur().concretize(x)))
    return uf('lgamma', x)


def m_lgamma(x):
    r = lgamma(scalar(x))
    if real_isinstance(r, real_float) and math.isinf(r):
        raise ValueError("math domain error")
    return r


# -- numpy proxy ------------------------------------------------------------------

_undef = [0]


def shp(s):
    if real_isinstance(s, (tuple, list)):
        return tuple(x.__index__() for x in s)
    return (s.__index__(),)


def isfloat_dtype(dt):
    if dt is None:
        return True
    if real_isinstance(dt, real_type) and issubclass(dt, S):
        return True
    if getattr(dt, '_is_float_proxy', False) or dt is real_float:
        return True
    if getattr(dt, '_is_int_proxy', False) or dt is real_int:
        return False
    try:
        return np.dtype(dt).kind in 'fcO'
    except TypeError:
        raise Unsupported("dtype %r" % (dt,))


def native_dtype(dt):
    if getattr(dt, '_is_int_proxy', False):
        return np.dtype(real_int)
    return np.dtype(dt)


def filler(value):
    def mk(shape, dtype=None, order='C', **kw):
        if not isfloat_dtype(dtype):
            return np.full(shp(shape), value or 0, dtype=native_dtype(dtype))
        out = np.empty(shp(shape), dtype=object)
        for i in np.ndindex(out.shape):
            if value is None:
                _undef[0] += 1
                out[i] = var('undef!%d' % _undef[0])
            else:
                out[i] = const(value)
        return out
    return mk


def filler_like(value):
    mk = filler(value)

    def like(a, dtype=None, **kw):
        a = np.asarray(a)
        if dtype is None and a.dtype.kind in 'iub':
            return np.full(a.shape, value or 0, dtype=a.dtype)
        return mk(a.shape, dtype)
    return like


def _deep(x):
    """convert nested sequences for np.array"""
    if real_isinstance(x, (list, tuple)):
        return [_deep(y) for y in x]
    if real_isinstance(x, np.ndarray):
        return x
    return exact(x)


def n_array(x, dtype=None, copy=True, ndmin=0, **kw):
    if real_isinstance(x, (types.GeneratorType,)):
        raise Unsupported("np.array of a generator")
    x = _deep(x)
    if real_isinstance(x, map) or real_isinstance(x, range):
        x = list(x)
    if has_s(x):
        a = np.array(x, dtype=object, ndmin=ndmin)
        if any(real_isinstance(y, (list, np.ndarray)) for y in a.flat):
            raise ValueError("setting an array element with a sequence (inhomogeneous shape)")
    else:
        a = np.array(x, ndmin=ndmin)
        if a.dtype.kind == 'O' and any(real_isinstance(y, (list, np.ndarray)) for y in a.flat):
            raise ValueError("setting an array element with a sequence (inhomogeneous shape)")
    a = obj(a)
    if dtype is not None:
        a = astype(a, dtype)
    return a


def has_s(x):
    if real_isinstance(x, (S, B)):
        return True
    if real_isinstance(x, np.ndarray):
        return x.dtype.kind == 'O'
    if real_isinstance(x, list):
        return any(has_s(y) for y in x)
    return False


def n_asarray(x, dtype=None, **kw):
    if real_isinstance(x, np.ndarray) and dtype is None:
        return obj(x)
    return n_array(x, dtype)


def n_arange(*a, **kw):
    dt = kw.pop('dtype', None)
    a = [exact(x) for x in a]
    if all(real_isinstance(x, (real_int, np.integer)) for x in a):
        r = np.arange(*a)
    elif all(real_isinstance(x, (real_int, np.integer)) or
             (real_isinstance(x, S) and (is_int_valued(x))) for x in a):
        r = np.arange(*[x.__index__() for x in a])
        if not all(real_isinstance(x, (real_int, np.integer)) or x.op != 'c' for x in a):
            r = to_obj(r)      # arange(1.0, 5.0): a float array
    else:
        start, stop, step = (const(0), a[0], const(1)) if len(a) == 1 else \
            (lift(a[0]), a[1], const(1)) if len(a) == 2 else (lift(a[0]), a[1], lift(a[2]))
        n = (-mk_floor(-div(lift(stop) - start, step))).__index__()
        r = np.empty(max(n, 0), dtype=object)
        for i in range(max(n, 0)):
            r[i] = start + step * i
    if dt is not None:
        r = astype(r, dt)
    return r


def n_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if retstep or axis:
        raise Unsupported("linspace options")
    n = num.__index__()
    a, b = lift(a), lift(b)
    out = np.empty(n, dtype=object)
    d = n - 1 if endpoint else n
    for i in range(n):
        out[i] = a + (b - a) * Fraction(i, d) if d else a
    return out


def n_logspace(a, b, num=50, **kw):
    if kw:
        raise Unsupported("logspace options")
    e = n_linspace(a, b, num)
    return np.array([mk_pow(const(10), x) for x in e], dtype=object)


def n_eye(n, m=None, k=0, dtype=None, **kw):
    r = np.eye(n.__index__(), None if m is None else m.__index__(), k)
    if not isfloat_dtype(dtype):
        return r.astype(real_int)
    return to_obj(r.astype(real_int))


def astype(a, t, **kw):
    if real_isinstance(a, S):
        return a if isfloat_dtype(t) else mk_trunc(a)
    if not real_isinstance(a, np.ndarray):
        return a.astype(t, **kw)
    if isfloat_dtype(t):
        r = to_obj(a)
        return r.copy() if r is a else r
    dt = native_dtype(t)
    if a.dtype.kind == 'O':
        if dt.kind == 'b':
            return np.array([bool(x) for x in a.flat], dtype=bool).reshape(a.shape)
        return np.array([real_int(lift(x)) for x in a.flat], dtype=dt).reshape(a.shape)
    return a.astype(dt)


_astype = astype


def n_gradient(f, *sp, axis=None, edge_order=1):
    f = to_obj(f)
    if f.ndim != 1 or axis not in (None, 0) or edge_order != 1 or len(sp) > 1:
        raise Unsupported("np.gradient form")
    n = f.shape[0]
    if n < 2:
        raise ValueError("Shape of array too small to calculate a numerical gradient, "
                         "at least (edge_order + 1) elements are required.")
    h = sp[0] if sp else 1
    out = np.empty(n, dtype=object)
    if np.ndim(h) == 1:
        h = to_obj(h)
        if len(h) != n:
            raise ValueError("when 1d, distances must match the length of the corresponding dim")
        dx = h[1:] - h[:-1]
        for i in range(1, n - 1):
            d1, d2 = dx[i - 1], dx[i]
            out[i] = (-(d2) / (d1 * (d1 + d2))) * f[i - 1] + ((d2 - d1) / (d1 * d2)) * f[i] \
                + (d1 / (d2 * (d1 + d2))) * f[i + 1]
        out[0] = (f[1] - f[0]) / dx[0]
        out[-1] = (f[-1] - f[-2]) / dx[-1]
        return out
    h = lift(h)
    for i in range(1, n - 1):
        out[i] = (f[i + 1] - f[i - 1]) / (h * 2)
    out[0] = (f[1] - f[0]) / h
    out[-1] = (f[-1] - f[-2]) / h
    return out


def n_isclose(a, b, rtol=None, atol=None, equal_nan=False):
    rtol = const(Fraction(1, 10**5)) if rtol is None else rtol
    atol = const(Fraction(1, 10**8)) if atol is None else atol
    d = abs(np.subtract(a, b)) if (np.ndim(a) or np.ndim(b)) else abs(a - b)
    return d <= atol + rtol * abs(b)


def n_allclose(a, b, rtol=None, atol=None, **kw):
    return bool(np.all(n_isclose(a, b, rtol, atol)))


def n_where(c, *ab):
    if not real_isinstance(c, (bool, np.bool_)):
        c = ix1(np.asarray(c)) if real_isinstance(c, (np.ndarray, list)) else bool(c)
    if not ab:
        return np.where(c)
    return obj(np.where(c, *[to_obj(x) if not np.asarray(x).dtype.kind in 'iub' else x for x in ab]))


def n_mean(a, axis=None, **kw):
    a = np.asarray(a)
    n = a.size if axis is None else a.shape[axis]
    return div(np.sum(a, axis=axis), n)


def det(m):
    n = m.shape[0]
    if n == 0:
        return const(1)
    if n == 1:
        return lift(m[0, 0])
    if n > 6:
        raise Unsupported("symbolic determinant of order %d" % n)
    memo = {}

    def minor(r, cols):
        if r == n:
            return const(1)
        if cols in memo:
            return memo[cols]
        tot = const(0)
        for j, c in enumerate(cols):
            e = lift(m[r, c])
            if e.op == 'c' and e.args[0] == 0:
                continue
            t = e * minor(r + 1, cols[:j] + cols[j + 1:])
            tot = tot - t if j % 2 else tot + t
        memo[cols] = tot
        return tot
    return minor(0, tuple(range(n)))


def _square(m):
    m = np.asarray(m)
    if m.ndim < 2 or m.shape[-1] != m.shape[-2]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return m


def l_det(m):
    m = _square(m)
    if m.ndim == 2:
        return det(m)
    out = np.empty(m.shape[:-2], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = det(m[i])
    return out


def l_slogdet(m):
    d = l_det(m)

    def lg(x):
        if bool(x == 0):
            return -math.inf
        return mk_log(mk_abs(x))
    if real_isinstance(d, S):
        return SlogdetResult(sign(d), lg(d))
    sg, lo = np.empty(d.shape, dtype=object), np.empty(d.shape, dtype=object)
    for i in np.ndindex(d.shape):
        sg[i], lo[i] = sign(d[i]), lg(d[i])
    return SlogdetResult(sg, lo)


class SlogdetResult(tuple):
    def __new__(cls, s, l):
        return tuple.__new__(cls, (s, l))
    sign = property(lambda self: self[0])
    logabsdet = property(lambda self: self[1])


def l_inv(m):
    m = _square(m)
    if m.ndim > 2:
        out = np.empty(m.shape, dtype=object)
        for i in np.ndindex(m.shape[:-2]):
            out[i] = l_inv(m[i])
        return out
    n = m.shape[0]
    d = det(m)
    if bool(d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            sub = np.delete(np.delete(m, j, 0), i, 1)
            c = det(sub)
            out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return out


def l_solve(a, b):
    return np.matmul(l_inv(a), b)


class Linalg:
    LinAlgError = np.linalg.LinAlgError
    det = staticmethod(l_det)
    slogdet = staticmethod(l_slogdet)
    inv = staticmethod(l_inv)
    solve = staticmethod(l_solve)

    def __getattr__(self, n):
        raise Unsupported("np.linalg." + n)


# structural numpy functions that are correct on object arrays as they are
PASS = set('''append concatenate stack vstack hstack dstack column_stack atleast_1d atleast_2d
atleast_3d shape ndim size reshape ravel transpose swapaxes moveaxis rollaxis squeeze expand_dims
broadcast_to broadcast_arrays repeat tile flip fliplr flipud roll rot90 split array_split
newaxis ndarray int64 int32 int_ integer bool_ logical_not logical_and logical_or logical_xor any
all nonzero argwhere flatnonzero count_nonzero add subtract multiply negative positive trace
diagonal einsum dot matmul tensordot inner outer kron sum prod cumsum cumprod maximum minimum max
min amax amin argmax argmin argsort sort searchsorted diff delete insert take take_along_axis
put copyto ix_ ogrid mgrid meshgrid indices ndindex ndenumerate tril triu diag fill_diagonal
tril_indices triu_indices less less_equal greater greater_equal equal not_equal array_equal
may_share_memory shares_memory unique isscalar iterable vectorize apply_along_axis copy
asanyarray fromiter inf Inf nan pi e errstate seterr __version__ float64 float32 float_ double
floating number generic int16 int8 uint8 r_ c_ s_ dtype clip abs absolute square floor_divide
remainder mod bool complex128 issubdtype object_ block logaddexp finfo iinfo'''.split())


class NP(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        d = self.__dict__
        d.update(
            pi=PI, e=mk_exp(const(1)), linalg=Linalg(),
            empty=filler(None), zeros=filler(0), ones=filler(1),
            empty_like=filler_like(None), zeros_like=filler_like(0), ones_like=filler_like(1),
            array=n_array, asarray=n_asarray, ascontiguousarray=n_asarray, arange=n_arange,
            linspace=n_linspace, logspace=n_logspace, eye=n_eye, identity=n_eye,
            gradient=n_gradient, isclose=n_isclose, allclose=n_allclose, where=n_where,
            mean=n_mean, average=n_mean,
            exp=umap(np_exp, 'exp'), log=umap(np_log, 'log'), sqrt=umap(np_sqrt, 'sqrt'),
            log10=umap(lambda x: np_log(x) / mk_log(const(10)), 'log10'),
            log2=umap(lambda x: np_log(x) / mk_log(const(2)), 'log2'),
            log1p=umap(lambda x: np_log(x + 1), 'log1p'),
            expm1=umap(lambda x: np_exp(x) - 1, 'expm1'),
            sinh=umap(lambda x: x.sinh(), 'sinh'), cosh=umap(lambda x: x.cosh(), 'cosh'),
            tanh=umap(lambda x: x.tanh(), 'tanh'), arccosh=umap(lambda x: x.arccosh(), 'arccosh'),
            sign=umap(sign, 'sign'), floor=umap(mk_floor, 'floor'),
            ceil=umap(lambda x: -mk_floor(-x), 'ceil'), trunc=umap(mk_trunc, 'trunc'),
            rint=umap(mk_round, 'rint'), fabs=umap(mk_abs, 'fabs'),
            reciprocal=umap(lambda x: 1 / x, 'reciprocal'),
            real=lambda x: x, conj=lambda x: x, conjugate=lambda x: x,
            isnan=umap(lambda x: real_isinstance(x, real_float) and math.isnan(x), 'isnan'),
            isinf=umap(lambda x: real_isinstance(x, real_float) and math.isinf(x), 'isinf'),
            isfinite=umap(lambda x: not real_isinstance(x, real_float), 'isfinite'),
            divide=div, true_divide=div, power=power, full=n_full, polyval=n_polyval,
            round=n_round, around=n_round, round_=n_round,
            cbrt=umap(lambda x: mk_pow(x, const(Fraction(1, 3))), 'cbrt'),
            trapz=n_trapz,
        )
        for n in ('isnan', 'isinf', 'isfinite'):
            f = d[n]
            d[n] = (lambda f: lambda x: f(x).astype(bool) if real_isinstance(x, np.ndarray) else f(x))(f)

    def __getattr__(self, n):
        if n.startswith('__') and n != '__version__':
            raise AttributeError(n)
        v = getattr(np, n)       # AttributeError if real numpy lacks it
        if n in PASS:
            return v
        raise Unsupported("numpy.%s is not modelled" % n)


def n_full(shape, v, dtype=None, **kw):
    if _is_intlike(v) and dtype is None:
        return np.full(shp(shape), v)
    out = np.empty(shp(shape), dtype=object)
    out[...] = exact(v)
    return out


def n_polyval(p, x):
    r = 0
    for c in p:
        r = r * x + c
    return r


def n_trapz(y, x=None, dx=1, axis=-1):
    y = np.asarray(y)
    d = dx if x is None else np.diff(np.asarray(x))
    return (d * (y[1:] + y[:-1])).sum() / 2


def n_round(x, decimals=0, **kw):
    s = 10 ** decimals
    f = umap(lambda v: mk_round(v * s) / s, 'round')
    if real_isinstance(x, np.ndarray) and x.dtype.kind in 'iu' or _is_intlike(x):
        return x
    return f(x)


class MathProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')
        self.__dict__.update(
            pi=PI, e=mk_exp(const(1)), inf=math.inf, nan=math.nan, sqrt=m_sqrt, log=m_log,
            exp=m_exp, lgamma=m_lgamma, fabs=lambda x: mk_abs(scalar(x)),
            log10=lambda x: m_log(x) / mk_log(const(10)),
            log2=lambda x: m_log(x) / mk_log(const(2)), log1p=lambda x: m_log(scalar(x) + 1),
            expm1=lambda x: m_exp(x) - 1,
            sinh=lambda x: scalar(x).sinh(), cosh=lambda x: scalar(x).cosh(),
            tanh=lambda x: scalar(x).tanh(),
            floor=lambda x: mk_floor(scalar(x)), ceil=lambda x: -mk_floor(-scalar(x)),
            factorial=lambda x: math.factorial(x.__index__()),
            pow=lambda a, b: mk_pow(scalar(a), scalar(b)),
            hypot=lambda a, b: m_sqrt(scalar(a) ** 2 + scalar(b) ** 2),
            isnan=lambda x: real_isinstance(x, real_float) and math.isnan(x),
            isinf=lambda x: real_isinstance(x, real_float) and math.isinf(x),
            comb=lambda a, b: math.comb(a.__index__(), b.__index__()),
            copysign=lambda a, b: abs(a) * sign(lift(b)))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        getattr(math, n)
        raise Unsupported("math.%s is not modelled" % n)


# -- scipy -------------------------------------------------------------------------

class Quad:
    """scipy.integrate.quad as an arbitrary positive linear functional: for each interval
    (a, b) a rule with symbolic nodes inside the interval and symbolic positive weights."""
    nodes = 1
    table = {}
    calls = []

    @classmethod
    def reset(cls):
        cls.table = {}
        cls.calls = []

    @classmethod
    def rule(cls, a, b):
        def k(z):
            z = exact(z)
            if real_isinstance(z, real_float):
                return z
            z = lift(z)
            # a tiny positive number written for zero (open intervals anyway)
            if z.op == 'c' and 0 < z.args[0] <= Fraction(1, 10 ** 8):
                return const(0)
            return z
        a, b = k(a), k(b)
        key = (a if real_isinstance(a, real_float) else id(a),
               b if real_isinstance(b, real_float) else id(b), cls.nodes)
        if key not in cls.table:
            n = len(cls.table)
            rl = []
            for j in range(cls.nodes):
                w = var('quad!w%d_%d' % (n, j), 'R', True)
                t = var('quad!t%d_%d' % (n, j), 'R', True)
                if real_isinstance(a, real_float):
                    if real_isinstance(b, real_float):
                        x = var('quad!x%d_%d' % (n, j))
                    else:
                        x = b - t
                elif real_isinstance(b, real_float):
                    x = a + t
                else:
                    # strictly inside (a, b) through t/(1+t)
                    x = a + (b - a) * (t / (t + 1))
                    w = w * (b - a)
                rl.append((w, x))
            cls.table[key] = rl
        return cls.table[key]

    def __call__(self, f, a, b, args=(), **kw):
        if kw.get('weight') is not None:
            raise Unsupported("quad with a weight function")
        if not real_isinstance(args, tuple):
            args = (args,)
        tot = const(0)
        for w, x in self.rule(a, b):
            v = f(x, *args)
            if real_isinstance(v, np.ndarray):
                v = scalar(v)
            tot = tot + w * v
        Quad.calls.append((a, b))
        return (tot, uf('quad_err', tot))


class Interp1d:
    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None,
                 fill_value=None, assume_sorted=False):
        if kind not in ('linear', 1) or fill_value is not None:
            raise Unsupported("interp1d options")
        self.x, self.y = to_obj(x), to_obj(y)
        if len(self.x) != len(self.y):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        self.bounds_error = bounds_error
        n = len(self.x)
        idx = list(range(n))
        if not assume_sorted:      # insertion sort (forks only when the order is open)
            for i in range(1, n):
                j = i
                while j > 0 and bool(self.x[idx[j]] < self.x[idx[j - 1]]):
                    idx[j], idx[j - 1] = idx[j - 1], idx[j]
                    j -= 1
        self.x, self.y = self.x[idx], self.y[idx]

    def one(self, t):
        t = lift(t)
        n = len(self.x)
        if bool(t < self.x[0]) or bool(t > self.x[-1]):
            if self.bounds_error is False:
                return real_float('nan')
            raise ValueError("A value in x_new is outside the interpolation range.")
        for i in range(1, n):
            if i == n - 1 or bool(t <= self.x[i]):
                x0, x1, y0, y1 = self.x[i - 1], self.x[i], self.y[i - 1], self.y[i]
                return y0 + (y1 - y0) / (x1 - x0) * (t - x0)

    def __call__(self, t):
        t = np.asarray(t)
        out = np.empty(t.shape, dtype=object)
        for i in np.ndindex(t.shape):
            out[i] = self.one(t[i])
        return out


def curve_fit(f, xdata, ydata, p0=None, **kw):
    """an arbitrary fit: parameters that depend on the model function and on the data only"""
    import inspect
    if set(kw) - {'maxfev'}:
        raise Unsupported("curve_fit options")
    n = len(inspect.signature(f).parameters) - 1
    if n < 1:
        raise Unsupported("curve_fit of a function with hidden parameters")
    xs, ys = list(to_obj(xdata).reshape(-1)), list(to_obj(ydata).reshape(-1))
    if len(xs) != len(ys):
        raise ValueError("operands could not be broadcast together")
    if len(xs) < n:
        raise TypeError("Improper input: more parameters than data")
    probe = f(obj(np.array([var('fit!t', 'R', True)], dtype=object)), *[var('fit!p%d' % i, 'R', True) for i in range(n)])
    ps = np.empty(n, dtype=object)
    for i in range(n):
        ps[i] = uf('fit%d' % i, *([lift(v) for v in np.asarray(probe).reshape(-1)] + [lift(v) for v in xs + ys]))
    return ps, n_eye(n)


class NS(types.ModuleType):
    def __init__(self, name, **kw):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported("%s.%s is not modelled" % (self.__name__, n))


class Dummy(types.ModuleType):
    """matplotlib and friends: accepts anything"""
    def __init__(self, name='dummy'):
        types.ModuleType.__init__(self, name)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Dummy(n)

    def __call__(self, *a, **kw):
        return Dummy()


def factorial(n, exact=False):
    return umap(lambda x: const(math.factorial(x.__index__())), 'factorial')(n)


def comb(n, k, **kw):
    return const(math.comb(n.__index__(), k.__index__()))


def ne_evaluate(ex, local_dict=None, global_dict=None, **kw):
    from . import loader
    if local_dict is None:
        fr = sys._getframe(1)
        while '__sym_world__' not in fr.f_globals:
            fr = fr.f_back
        env = dict(fr.f_globals)
        env.update(fr.f_locals)
    else:
        env = dict(global_dict or {})
        env.update(local_dict)
    npx = NPX
    for n in ('exp', 'log', 'sqrt', 'log10', 'log1p', 'sinh', 'cosh', 'tanh', 'floor', 'ceil',
              'where', 'expm1'):
        env.setdefault(n, getattr(npx, n))
    env.setdefault('abs', abs)
    r = loader.eval_expr(ex, env)
    if real_isinstance(r, np.ndarray):
        return r
    return np.asarray(r)


NPX = NP()
MATHX = MathProxy()
QUAD = Quad()
SPECIAL = NS('scipy.special', gammaln=umap(lgamma, 'gammaln'), factorial=factorial, comb=comb,
             binom=comb)
INTEGRATE = NS('scipy.integrate', quad=QUAD)
INTERP = NS('scipy.interpolate', interp1d=Interp1d)
OPT = NS('scipy.optimize', curve_fit=curve_fit)
SCIPY = NS('scipy', special=SPECIAL, integrate=INTEGRATE, interpolate=INTERP, optimize=OPT)
SCIPY.__path__ = []
NUMEXPR = NS('numexpr', evaluate=ne_evaluate)


# -- builtins ---------------------------------------------------------------------

class _IntMeta(real_type):
    _is_int_proxy = True

    def __instancecheck__(cls, x):
        return real_isinstance(x, real_int) or (real_isinstance(x, S) and x.op != 'c'
                                                and is_int_valued(x))

    def __subclasscheck__(cls, x):
        return issubclass(x, real_int)

    def __eq__(cls, o):
        return o is cls or o is real_int

    def __hash__(cls):
        return hash(real_int)

    def __call__(cls, *a, **kw):
        if len(a) == 1 and not kw:
            x = a[0]
            if real_isinstance(x, np.ndarray) and x.dtype.kind == 'O':
                x = scalar(x)
            if real_isinstance(x, S):
                r = mk_trunc(x)
                return real_int(r.args[0]) if r.op == 'c' else r
        return real_int(*a, **kw)


class IntProxy(metaclass=_IntMeta):
    _is_int_proxy = True
    from_bytes = real_int.from_bytes


class _FloatMeta(real_type):
    _is_float_proxy = True

    def __instancecheck__(cls, x):
        return real_isinstance(x, real_float) or \
            (real_isinstance(x, S) and (x.op == 'c' or not is_int_valued(x)))

    def __subclasscheck__(cls, x):
        return issubclass(x, real_float)

    def __eq__(cls, o):
        return o is cls or o is real_float

    def __hash__(cls):
        return hash(real_float)

    def __call__(cls, *a):
        if not a:
            return const(0)
        x = a[0]
        if real_isinstance(x, np.ndarray):
            return scalar(x)
        if real_isinstance(x, S):
            return x
        if real_isinstance(x, str):
            real_float(x)
            return lit(x.strip())
        return exact(real_float(x)) if not real_isinstance(x, (real_int, np.integer)) \
            else const(real_int(x))


class FloatProxy(metaclass=_FloatMeta):
    _is_float_proxy = True


def type_(*a):
    if len(a) == 1:
        x = a[0]
        if real_isinstance(x, S):
            return real_int if (x.op != 'c' and is_int_valued(x)) else real_float
        if real_isinstance(x, B):
            return bool
    return real_type(*a)


def isinstance_(x, t):
    ts = t if real_isinstance(t, tuple) else (t,)
    ts = tuple(real_type if y is type_ else y for y in ts)
    if real_isinstance(x, S):
        for y in ts:
            if y in (real_float, FloatProxy, np.floating, np.float64, np.number):
                if y in (np.number,) or x.op == 'c' or not is_int_valued(x):
                    return True
            elif y in (real_int, IntProxy, np.integer):
                if x.op != 'c' and is_int_valued(x):
                    return True
            elif real_isinstance(y, real_type) and real_isinstance(x, y):
                return True
            else:
                try:
                    import numbers
                    if y in (numbers.Number, numbers.Real):
                        return True
                except Exception:
                    pass
        return False
    return real_isinstance(x, ts)


def round_(x, n=None):
    if real_isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    if real_isinstance(x, S):
        if n:
            return mk_round(x * 10 ** n) / 10 ** n
        r = mk_round(x)
        return real_int(r.args[0]) if r.op == 'c' and n is None else r
    return round(x) if n is None else round(x, n)


def pow_(a, b, *m):
    return pow(a, b, *m) if m else power(a, b)


def sum_(it, start=0):
    for x in it:
        start = start + x
    return start

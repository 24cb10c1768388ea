"""numpy on symbolic values: an object-array subclass plus a numpy facade."""
import math
import types
import itertools

import numpy as np
import z3

from . import core
from .core import (Sym, SymBool, Unsupported, isconc, ite, mkb, lbool, lift, is_special, fn,
                   s_add, s_sub, s_mul, s_div, s_floordiv, s_mod, s_pow, s_neg, s_abs,
                   s_lt, s_le, s_gt, s_ge, s_eq, s_ne, s_max, s_min, s_floor, s_ceil, s_trunc,
                   s_rint, s_sign, tofloat)


def has_sym(x):
    if isinstance(x, (Sym, SymBool, core.SC)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, (Sym, SymBool, core.SC)) for v in x.reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def pyval(v):
    """numpy scalar -> Python scalar; everything else unchanged."""
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return pyval(v.item())
    return v


def obj(x):
    """Plain object ndarray of anything array-like."""
    if isinstance(x, np.ma.MaskedArray):
        x = np.asarray(x)
    if isinstance(x, np.ndarray):
        x = x.view(np.ndarray)
        if x.dtype == object:
            return x
        return x.astype(object)
    if isinstance(x, (Sym, SymBool, core.SC)):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if isinstance(x, (list, tuple, range)):
        parts = [obj(v) for v in x]
        if not parts:
            return np.empty((0,), dtype=object)
        shp = parts[0].shape
        if any(p.shape != shp for p in parts):
            raise ValueError('inhomogeneous shape')
        r = np.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            r[i] = p if p.ndim else p.item()
        return r
    r = np.empty((), dtype=object)
    r[()] = pyval(x)
    return r


def sarr(x):
    return obj(x).view(SArr)


def unwrap(r):
    """0-d result -> scalar."""
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r.view(np.ndarray).item()
    return r


def tidy(a):
    """View as SArr; arrays without symbolic content become typed where that is lossless."""
    return a.view(SArr)


def concrete_bools(a):
    return all(isinstance(v, (bool, np.bool_)) for v in a.reshape(-1))


def force_bool_array(a):
    """Boolean ndarray, forking the path on every symbolic element."""
    o = obj(a)
    r = np.empty(o.shape, dtype=bool)
    rf, of = r.reshape(-1), o.reshape(-1)
    for i in range(of.size):
        rf[i] = bool(of[i])
    return rf.reshape(o.shape)


def _logical(f):
    def g(a, b):
        return mkb(f(lbool(a), lbool(b)))
    return g


def _bitop(f, z):
    def g(a, b):
        if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
            return mkb(z(lbool(a), lbool(b)))
        if isconc(a) and isconc(b):
            return f(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SymBool) and isconc(y) and y in (0, 1):
                return ite(mkb(z(lbool(x), lbool(bool(y)))), 1, 0)
        raise Unsupported('bitwise operation on symbolic integers')
    return g


def _isnan(a):
    return bool(isinstance(a, float) and math.isnan(a))


def _isfinite(a):
    return not (isinstance(a, float) and (math.isnan(a) or math.isinf(a)))


def _isinf(a):
    return bool(isinstance(a, float) and math.isinf(a))


def _invert(a):
    if isinstance(a, (bool, np.bool_)):
        return not a
    if isinstance(a, SymBool):
        return ~a
    return ~a


def _hypot(a, b):
    return fn('sqrt', s_add(s_mul(a, a), s_mul(b, b)))


def _fabs(a):
    return s_abs(a)


def _fmod(a, b):
    # C semantics: sign of the dividend
    q = tofloat(s_trunc(s_div(a, b)))
    return s_sub(a, s_mul(q, b))


def _rad(a):
    return s_mul(a, math.pi / 180.)


def _deg(a):
    return s_mul(a, 180. / math.pi)


def _ffloor(a):
    return a if is_special(a) else tofloat(s_floor(a))


def _fceil(a):
    return a if is_special(a) else tofloat(s_ceil(a))


def _ftrunc(a):
    return a if is_special(a) else tofloat(s_trunc(a))


def _frint(a):
    return a if is_special(a) else tofloat(s_rint(a))


def _fminmax(pick):
    def g(a, b):
        if _isnan(a):
            return b
        if _isnan(b):
            return a
        return pick(a, b)
    return g


UF = {
    'add': s_add, 'subtract': s_sub, 'multiply': s_mul, 'divide': s_div, 'true_divide': s_div,
    'floor_divide': s_floordiv, 'remainder': s_mod, 'mod': s_mod, 'power': s_pow, 'float_power': s_pow,
    'negative': s_neg, 'positive': lambda a: a, 'absolute': s_abs, 'fabs': _fabs, 'fmod': _fmod,
    'less': s_lt, 'less_equal': s_le, 'greater': s_gt, 'greater_equal': s_ge,
    'equal': s_eq, 'not_equal': s_ne,
    'maximum': s_max, 'minimum': s_min, 'fmax': _fminmax(s_max), 'fmin': _fminmax(s_min),
    'logical_and': _logical(z3.And), 'logical_or': _logical(z3.Or), 'logical_xor': _logical(z3.Xor),
    'logical_not': lambda a: mkb(z3.Not(lbool(a))),
    'bitwise_and': _bitop(lambda a, b: a & b, z3.And), 'bitwise_or': _bitop(lambda a, b: a | b, z3.Or),
    'bitwise_xor': _bitop(lambda a, b: a ^ b, z3.Xor), 'invert': _invert,
    'isnan': _isnan, 'isfinite': _isfinite, 'isinf': _isinf,
    'floor': _ffloor, 'ceil': _fceil, 'trunc': _ftrunc, 'rint': _frint, 'sign': s_sign,
    'sqrt': lambda a: fn('sqrt', a), 'exp': lambda a: fn('exp', a), 'log': lambda a: fn('log', a),
    'log10': lambda a: fn('log10', a), 'sin': lambda a: fn('sin', a), 'cos': lambda a: fn('cos', a),
    'tan': lambda a: fn('tan', a), 'arcsin': lambda a: fn('asin', a), 'arccos': lambda a: fn('acos', a),
    'arctan': lambda a: fn('atan', a), 'arctan2': lambda a, b: fn('atan2', a, b),
    'tanh': lambda a: fn('tanh', a),
    'square': lambda a: s_mul(a, a), 'reciprocal': lambda a: s_div(1.0, a), 'hypot': _hypot,
    'radians': _rad, 'deg2rad': _rad, 'degrees': _deg, 'rad2deg': _deg,
    'conjugate': lambda a: a.conjugate() if core.iscx(a) else a, 'copysign': lambda a, b: s_mul(s_abs(a), ite(s_ge(b, 0), 1, -1)),
    'heaviside': lambda a, b: ite(s_gt(a, 0), 1.0, ite(s_lt(a, 0), 0.0, b)),
}

REDUCE = {'add': (s_add, 0), 'multiply': (s_mul, 1), 'maximum': (s_max, None), 'minimum': (s_min, None),
          'logical_and': (UF['logical_and'], True), 'logical_or': (UF['logical_or'], False),
          'fmax': (UF['fmax'], None), 'fmin': (UF['fmin'], None)}


def _norm_in(x):
    if isinstance(x, np.ma.MaskedArray):
        raise Unsupported('masked array mixed with symbolic values')
    return obj(x)


def elementwise(f, *inputs):
    arrs = [_norm_in(x) for x in inputs]
    if all(a.ndim == 0 for a in arrs):
        return f(*[pyval(a.item()) for a in arrs])
    b = np.broadcast(*arrs) if len(arrs) > 1 else None
    if b is None:
        shp = arrs[0].shape
        it = ((v,) for v in arrs[0].reshape(-1))
    else:
        shp = b.shape
        it = iter(b)
    out = np.empty(int(np.prod(shp, dtype=int)), dtype=object)
    for i, vals in enumerate(it):
        out[i] = f(*[pyval(v) for v in vals])
    out = out.reshape(shp)
    if len(shp) > 1 and all(_colmajor(a) for a in arrs if a.shape == shp):
        out = np.asfortranarray(out)
    return out.view(SArr)


def ufunc_dispatch(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop('out', None)
    where = kwargs.pop('where', True)
    kwargs.pop('dtype', None)
    kwargs.pop('casting', None)
    kwargs.pop('order', None)
    kwargs.pop('subok', None)
    if method == '__call__':
        if name == 'divmod':
            return (elementwise(s_floordiv, *inputs), elementwise(s_mod, *inputs))
        if name == 'modf':
            ip = elementwise(_ftrunc, *inputs)
            return (inputs[0] - ip, ip)
        if name == 'matmul':
            return matmul(*inputs)
        if name not in UF:
            if not has_sym(inputs):
                return getattr(np, name)(*[np.array(obj(i).tolist()) for i in inputs])
            raise Unsupported('ufunc %s' % name)
        r = elementwise(UF[name], *inputs)
        if where is not True:
            base = out[0] if out is not None else None
            if base is None:
                raise Unsupported('ufunc where= without out=')
            r = elementwise(ite, where, r, base)
        if out is not None:
            o = out[0]
            if not isinstance(o, SArr):
                if has_sym(r):
                    raise Unsupported('symbolic result into a typed array')
            o[...] = r
            return o
        return r
    if method == 'reduce':
        if name not in REDUCE:
            raise Unsupported('reduce of %s' % name)
        return reduce_(REDUCE[name], inputs[0], kwargs.get('axis', 0), kwargs.get('keepdims', False),
                       kwargs.get('initial', None), where, out)
    if method == 'accumulate':
        f = REDUCE[name][0]
        return accumulate(f, inputs[0], kwargs.get('axis', 0))
    if method == 'outer':
        a, b = obj(inputs[0]), obj(inputs[1])
        return elementwise(UF[name], a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'at' and name == 'add':
        a, idx, v = inputs
        idx = np.atleast_1d(np.asarray(obj(idx).tolist(), dtype=int))
        vv = np.broadcast_to(obj(v), idx.shape)
        for i, x in zip(idx, vv):
            a[i] = s_add(a[i], x)
        return None
    raise Unsupported('ufunc method %s.%s' % (name, method))


def reduce_(fi, a, axis=0, keepdims=False, initial=None, where=True, out=None):
    f, ident = fi
    a = obj(a)
    if where is not True:
        raise Unsupported('reduction with where=')
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        axes = (axis % a.ndim,) if a.ndim else ()
    rest = tuple(i for i in range(a.ndim) if i not in axes)
    t = a.transpose(rest + axes).reshape(tuple(a.shape[i] for i in rest) + (-1,))
    shp = t.shape[:-1]
    flat = t.reshape(-1, t.shape[-1]) if t.size or t.shape[-1] == 0 else t.reshape(-1, t.shape[-1])
    n = int(np.prod(shp, dtype=int))
    out_a = np.empty(n, dtype=object)
    for i in range(n):
        row = flat[i] if flat.size else []
        acc = initial if (initial is not None and not isinstance(initial, np._globals._NoValueType)) else ident
        first = acc is None
        for v in row:
            v = pyval(v)
            if first:
                acc, first = v, False
            else:
                acc = f(acc, v)
        if first:
            raise ValueError('zero-size array to reduction operation which has no identity')
        out_a[i] = acc
    r = out_a.reshape(shp)
    if keepdims:
        r = r.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    if r.ndim == 0:
        return r.item()
    return r.view(SArr)


def accumulate(f, a, axis=0):
    a = obj(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    a = np.moveaxis(a, axis, 0)
    r = np.empty(a.shape, dtype=object)
    for k in np.ndindex(*a.shape[1:]):
        acc = None
        for i in range(a.shape[0]):
            v = pyval(a[(i,) + k])
            acc = v if i == 0 else f(acc, v)
            r[(i,) + k] = acc
    return np.moveaxis(r, 0, axis).view(SArr)


def matmul(a, b):
    a, b = obj(a), obj(b)
    if a.ndim == 1 and b.ndim == 1:
        acc = 0
        for x, y in zip(a, b):
            acc = s_add(acc, s_mul(pyval(x), pyval(y)))
        return acc
    a2 = a.reshape(1, -1) if a.ndim == 1 else a
    b2 = b.reshape(-1, 1) if b.ndim == 1 else b
    r = np.empty((a2.shape[0], b2.shape[1]), dtype=object)
    for i in range(r.shape[0]):
        for j in range(r.shape[1]):
            acc = 0
            for k in range(a2.shape[1]):
                acc = s_add(acc, s_mul(pyval(a2[i, k]), pyval(b2[k, j])))
            r[i, j] = acc
    if a.ndim == 1:
        r = r[0]
    if b.ndim == 1:
        r = r[..., 0]
    return r.view(SArr)


# ---------------------------------------------------------------------------
# the array class

def conc_index(key):
    """Turn an index containing symbolic parts into a concrete one (forking)."""
    if isinstance(key, tuple):
        return tuple(conc_index(k) for k in key)
    if isinstance(key, SymBool):
        return bool(key)
    if isinstance(key, Sym):
        return int(key)
    if isinstance(key, slice):
        return slice(*[None if v is None else int(v) for v in (key.start, key.stop, key.step)])
    if isinstance(key, list):
        return conc_index(obj(key)) if key else np.zeros(0, dtype=int)
    if isinstance(key, np.ndarray) and key.dtype == object:
        k = key.view(np.ndarray)
        flat = k.reshape(-1)
        if flat.size and all(isinstance(v, (SymBool, bool, np.bool_)) for v in flat):
            return force_bool_array(k)
        r = np.empty(flat.size, dtype=int)
        for i, v in enumerate(flat):
            if isinstance(v, (float, np.floating)):
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            r[i] = int(v)
        return r.reshape(k.shape)
    return key


def is_bool_mask(key):
    return (isinstance(key, np.ndarray) and key.dtype == object and key.size
            and all(isinstance(v, (SymBool, bool, np.bool_)) for v in key.reshape(-1)))


class SArr(np.ndarray):
    """Object ndarray whose elements may be symbolic."""
    __array_priority__ = 500

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, types, args, kwargs)

    def __array_finalize__(self, o):
        pass

    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, conc_index(key))
        return r

    def __setitem__(self, key, value):
        if is_bool_mask(key) and not concrete_bools(key) and key.shape == self.shape:
            v = obj(value)
            if v.ndim == 0:
                val = v.item()
                f = self.view(np.ndarray)
                for k in np.ndindex(*self.shape):
                    f[k] = ite(key.view(np.ndarray)[k], pyval(val), f[k])
                return
        key = conc_index(key)
        if isinstance(value, np.ndarray) and value.ndim == 0:
            value = value.item()
        elif isinstance(value, (list, tuple)) or isinstance(value, np.ndarray):
            value = obj(value)
        np.ndarray.__setitem__(self.view(np.ndarray), key, value)

    def astype(self, dt, *a, **k):
        return cast(self, dt)

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1).view(np.ndarray)[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __contains__(self, v):
        return bool(np.any(self == v))

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return self.item().__index__()

    def copy(self, order='C'):
        return np.ndarray.copy(self)

    def sort(self, axis=-1, **k):
        self[...] = sort(self, axis)

    def argsort(self, axis=-1, **k):
        return argsort(self, axis)

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side)

    def argmax(self, axis=None, **k):
        return argext(self, axis, s_gt)

    def argmin(self, axis=None, **k):
        return argext(self, axis, s_lt)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return reduce_(REDUCE['add'], self, axis) / n

    def round(self, decimals=0, out=None):
        return elementwise(lambda v: _around(v, decimals), self)

    def cumsum(self, axis=None, *a, **k):
        return accumulate(s_add, self, axis)

    def cumprod(self, axis=None, *a, **k):
        return accumulate(s_mul, self, axis)

    def prod(self, axis=None, *a, **k):
        return reduce_(REDUCE['multiply'], self, axis)

    def any(self, axis=None, *a, **k):
        return reduce_(REDUCE['logical_or'], self, axis)

    def all(self, axis=None, *a, **k):
        return reduce_(REDUCE['logical_and'], self, axis)

    def max(self, axis=None, *a, **k):
        return reduce_(REDUCE['maximum'], self, axis)

    def min(self, axis=None, *a, **k):
        return reduce_(REDUCE['minimum'], self, axis)

    def ptp(self, axis=None, *a, **k):
        return self.max(axis) - self.min(axis)

    def sum(self, axis=None, *a, **k):
        return reduce_(REDUCE['add'], self, axis, k.get('keepdims', False))

    def dot(self, b):
        return matmul(self, b)

    def nonzero(self):
        return force_bool_array(self != 0 if not concrete_bools(self) else self).nonzero()

    def compress(self, cond, axis=None, out=None):
        return compress(cond, self, axis)

    def clip(self, lo=None, hi=None, out=None, **k):
        r = self
        if lo is not None:
            r = elementwise(s_max, r, lo)
        if hi is not None:
            r = elementwise(s_min, r, hi)
        return r

    def fill(self, v):
        self[...] = v

    @property
    def real(self):
        return elementwise(lambda v: v.real, self)

    @property
    def imag(self):
        return elementwise(lambda v: v.imag if core.iscx(v) else 0.0, self)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def var(self, axis=None, ddof=0, **k):
        m = self.mean(axis)
        d = self - m
        n = self.size if axis is None else self.shape[axis]
        return (d * d).sum(axis) / (n - ddof)

    def std(self, axis=None, ddof=0, **k):
        return np.sqrt(self.var(axis, ddof))


def _around(v, n):
    if isconc(v):
        return round(v, n) if not isinstance(v, float) or not is_special(v) else v
    if n == 0:
        return tofloat(s_rint(v))
    k = 10 ** abs(n)
    if n > 0:
        return s_div(tofloat(s_rint(s_mul(v, k))), k)
    return s_mul(tofloat(s_rint(s_div(v, k))), k)


def kind(dt):
    if dt is None:
        return None
    if isinstance(dt, type) and issubclass(dt, object) and dt.__name__ in ('SymFloat', 'SymInt', 'SymBoolT'):
        return {'SymFloat': 'f', 'SymInt': 'i', 'SymBoolT': 'b'}[dt.__name__]
    try:
        return np.dtype(dt).kind
    except TypeError:
        raise Unsupported('dtype %r' % (dt,))


def cast(x, dt):
    k = kind(dt)
    if k == 'f':
        g = tofloat
    elif k in 'iu':
        g = s_trunc
    elif k == 'b':
        def g(v):
            return mkb(lbool(v))
    elif k == 'O':
        return x
    else:
        raise Unsupported('cast to %r' % (dt,))
    return elementwise(lambda v: v if is_special(v) and k == 'f' else g(v), x)


# ---------------------------------------------------------------------------
# functions

def where(cond, *xy):
    if not xy:
        return force_bool_array(cond).nonzero()
    return elementwise(ite, cond, *xy)


def _angle(z):
    z = core.cx(z)
    return fn('atan2', z.imag, z.real)


def putmask(a, mask, values):
    if not isinstance(a, SArr) and not isinstance(a, np.ndarray):
        raise TypeError('putmask: first argument must be an array')
    m = obj(mask)
    v = obj(values)
    af = a.view(np.ndarray)
    mf = m.reshape(-1)
    vf = v.reshape(-1)
    if a.dtype != object:
        mm = force_bool_array(m)
        if has_sym(v):
            raise Unsupported('symbolic values into a typed array')
        np.putmask(af, mm, np.array(v.tolist()))
        return
    for n, k in enumerate(np.ndindex(*a.shape)):
        af[k] = ite(mf[n], pyval(vf[n % vf.size]), af[k])


def sort(a, axis=-1, **k):
    a = obj(a)
    if a.ndim != 1:
        if axis is None:
            return sort(a.reshape(-1))
        r = np.empty(a.shape, dtype=object)
        am, rm = np.moveaxis(a, axis, -1), np.moveaxis(r, axis, -1)
        for ix in np.ndindex(*am.shape[:-1]):
            rm[ix] = sort(am[ix])
        return r.view(SArr)
    v = [pyval(x) for x in a]
    # merging bubble network: no forks
    n = len(v)
    for i in range(n):
        for j in range(n - 1 - i):
            x, y = v[j], v[j + 1]
            if isconc(x) and isconc(y):
                v[j], v[j + 1] = (x, y) if x <= y else (y, x)
            else:
                c = s_le(x, y)
                v[j], v[j + 1] = ite(c, x, y), ite(c, y, x)
    return sarr(v)


def argsort(a, axis=-1, **k):
    v = [pyval(x) for x in obj(a).reshape(-1)]
    idx = list(range(len(v)))
    # insertion sort, stable, forking comparisons
    for i in range(1, len(idx)):
        j = i
        while j > 0 and bool(s_lt(v[idx[j]], v[idx[j - 1]])):
            idx[j], idx[j - 1] = idx[j - 1], idx[j]
            j -= 1
    return np.array(idx, dtype=int)


def searchsorted(a, v, side='left', sorter=None):
    a = [pyval(x) for x in obj(a).reshape(-1)]

    def one(x):
        # numpy bisects; on a sorted array this equals counting
        lo, hi = 0, len(a)
        while lo < hi:
            mid = (lo + hi) // 2
            c = s_lt(a[mid], x) if side == 'left' else s_le(a[mid], x)
            if bool(c):
                lo = mid + 1
            else:
                hi = mid
        return lo
    r = elementwise(one, v)
    if isinstance(r, np.ndarray):
        return np.array(r.tolist(), dtype=int).reshape(r.shape)
    return r


def argext(a, axis, better):
    o = obj(a)
    if axis is not None and o.ndim > 1:
        m = np.moveaxis(o, axis, -1)
        r = np.empty(m.shape[:-1], dtype=int)
        for ix in np.ndindex(*m.shape[:-1]):
            r[ix] = argext(m[ix], None, better)
        return r
    v = [pyval(x) for x in o.reshape(-1)]
    if not v:
        raise ValueError('attempt to get argmax of an empty sequence')
    best = 0
    for i in range(1, len(v)):
        if _isnan(v[best]):
            break
        if _isnan(v[i]) or bool(better(v[i], v[best])):
            best = i
    return best


def compress(cond, a, axis=None, out=None):
    c = force_bool_array(cond)
    a = obj(a)
    if axis is None:
        return a.reshape(-1)[:c.size][c].view(SArr)
    return np.compress(c, a, axis).view(SArr)


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp period')
    xp, fp = [pyval(v) for v in obj(xp).reshape(-1)], [pyval(v) for v in obj(fp).reshape(-1)]

    def one(v):
        if bool(s_lt(v, xp[0])):
            return fp[0] if left is None else left
        if bool(s_gt(v, xp[-1])):
            return fp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if bool(s_lt(v, xp[i + 1])):
                return s_add(fp[i], s_mul(s_div(s_sub(fp[i + 1], fp[i]), s_sub(xp[i + 1], xp[i])),
                                          s_sub(v, xp[i])))
        return fp[-1]
    return elementwise(one, x)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return elementwise(lambda x, y: s_le(s_abs(s_sub(x, y)), s_add(atol, s_mul(rtol, s_abs(y)))), a, b)


def digitize(x, bins, right=False):
    b = obj(bins)
    return searchsorted(b, x, side='left' if right else 'right')


def unique(a, **k):
    if k:
        raise Unsupported('unique with options')
    s = sort(obj(a).reshape(-1))
    out = []
    for v in s:
        if not out or not bool(s_eq(out[-1], pyval(v))):
            out.append(pyval(v))
    return sarr(out)


def histogram(a, bins=10, range=None, density=None, weights=None):
    if not has_sym(a) and not has_sym(bins) and not has_sym(weights):
        return np.histogram(*[np.array(obj(x).tolist()) if np.ndim(x) else x for x in (a, bins)],
                            range=range, density=density, weights=weights)
    b = [pyval(v) for v in obj(bins).reshape(-1)]
    counts = [0] * (len(b) - 1)
    for v in obj(a).reshape(-1):
        v = pyval(v)
        for i in builtins_range(len(b) - 1):
            last = i == len(b) - 2
            c = mkb(z3.And(lbool(s_ge(v, b[i])), lbool(s_le(v, b[i + 1]) if last else s_lt(v, b[i + 1]))))
            counts[i] = s_add(counts[i], ite(c, 1, 0))
    c = sarr(counts)
    if density:
        tot = c.sum()
        db = np.diff(sarr(b))
        return c / db / tot, bins
    return c, bins


builtins_range = range


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np.all(isclose(a, b, rtol, atol))


def median(a, axis=None, **k):
    o = obj(a)
    if axis is not None and o.ndim > 1:
        raise Unsupported('median axis')
    s = sort(o.reshape(-1))
    n = s.size
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def append(arr, values, axis=None):
    a, v = obj(arr), obj(values)
    if axis is None:
        return np.concatenate((a.reshape(-1), v.reshape(-1))).view(SArr)
    return np.concatenate((a, v), axis=axis).view(SArr)


def concatenate(seq, axis=0, **k):
    return np.concatenate([obj(s) for s in seq], axis=axis).view(SArr)


def _stackf(name):
    def g(seq, *a, **k):
        return getattr(np, name)([obj(s) for s in seq], *a, **k).view(SArr)
    return g


def nan_to_num(x, copy=True, nan=0.0, **k):
    return elementwise(lambda v: nan if _isnan(v) else v, x)


def _nanred(f):
    def g(a, axis=None, **k):
        o = obj(a)
        if axis is not None and o.ndim > 1:
            raise Unsupported('nan-reduction over an axis')
        v = [pyval(x) for x in o.reshape(-1) if not _isnan(x)]
        if not v:
            return core.NAN
        return reduce_(REDUCE[f], sarr(v), None)
    return g


def count_nonzero(a, axis=None, **k):
    return reduce_(REDUCE['add'], elementwise(lambda v: ite(mkb(lbool(v)), 1, 0), a), axis)


def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return sarr(r)


def piecewise(x, condlist, funclist, *a, **k):
    r = sarr(np.zeros(obj(x).shape))
    fl = list(funclist)
    cl = list(condlist)
    if len(fl) == len(cl) + 1:
        e = fl.pop()
        v = e(x) if callable(e) else e
        r = sarr(where(np.ones(obj(x).shape, dtype=bool), v, r))
    for c, f in zip(cl, fl):
        v = f(x, *a, **k) if callable(f) else f
        r = where(c, v, r)
    return r


def around(a, decimals=0, out=None):
    return elementwise(lambda v: _around(v, decimals), a)


def clip(a, lo=None, hi=None, out=None, **k):
    r = a
    if lo is not None:
        r = elementwise(s_max, r, lo)
    if hi is not None:
        r = elementwise(s_min, r, hi)
    return r


def np_any(a, axis=None, **k):
    return reduce_(REDUCE['logical_or'], obj(a), axis, k.get('keepdims', False))


def np_all(a, axis=None, **k):
    return reduce_(REDUCE['logical_and'], obj(a), axis, k.get('keepdims', False))


def copyto(dst, src, casting=None, where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = elementwise(ite, where, src, dst)


def extract(cond, a):
    c = force_bool_array(cond)
    return obj(a).reshape(-1)[c.reshape(-1)].view(SArr)


def place(arr, mask, vals):
    m = force_bool_array(mask)
    np.place(arr.view(np.ndarray), m, obj(vals))


def ediff1d(a, to_end=None, to_begin=None):
    o = obj(a).reshape(-1)
    d = o[1:] - o[:-1]
    if to_begin is not None:
        d = np.concatenate((obj(to_begin).reshape(-1), d))
    if to_end is not None:
        d = np.concatenate((d, obj(to_end).reshape(-1)))
    return d.view(SArr)


def array_equal(a, b, **k):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    return np_all(elementwise(s_eq, a, b))


def percentile(a, q, *r, **k):
    if has_sym(a) or has_sym(q):
        raise Unsupported('percentile')
    return np.percentile(np.array(obj(a).tolist()), q, *r, **k)


def trapz(y, x=None, dx=1.0, axis=-1):
    y = obj(y)
    if x is None:
        d = dx
        return ((y[1:] + y[:-1]) * d / 2.0).sum()
    x = obj(x)
    return (np.diff(x) * (y[1:] + y[:-1]) / 2.0).sum()


FUNCS = {
    'where': where, 'putmask': putmask, 'sort': sort, 'argsort': argsort, 'searchsorted': searchsorted,
    'argmax': lambda a, axis=None, **k: argext(a, axis, s_gt),
    'argmin': lambda a, axis=None, **k: argext(a, axis, s_lt),
    'compress': compress, 'interp': interp, 'isclose': isclose, 'allclose': allclose,
    'digitize': digitize, 'unique': unique, 'histogram': histogram, 'median': median, 'append': append,
    'concatenate': concatenate, 'vstack': _stackf('vstack'), 'hstack': _stackf('hstack'),
    'stack': _stackf('stack'), 'dstack': _stackf('dstack'), 'column_stack': _stackf('column_stack'),
    'nan_to_num': nan_to_num, 'nanmax': _nanred('maximum'), 'nanmin': _nanred('minimum'),
    'nansum': _nanred('add'), 'count_nonzero': count_nonzero, 'select': select, 'piecewise': piecewise,
    'around': around, 'round': around, 'round_': around, 'clip': clip, 'any': np_any, 'all': np_all,
    'copyto': copyto, 'extract': extract, 'place': place, 'ediff1d': ediff1d, 'array_equal': array_equal,
    'dot': matmul, 'percentile': percentile, 'trapz': trapz,
    'sum': lambda a, axis=None, **k: reduce_(REDUCE['add'], obj(a), axis, k.get('keepdims', False)),
    'prod': lambda a, axis=None, **k: reduce_(REDUCE['multiply'], obj(a), axis, k.get('keepdims', False)),
    'amax': lambda a, axis=None, **k: reduce_(REDUCE['maximum'], obj(a), axis, k.get('keepdims', False)),
    'max': lambda a, axis=None, **k: reduce_(REDUCE['maximum'], obj(a), axis, k.get('keepdims', False)),
    'amin': lambda a, axis=None, **k: reduce_(REDUCE['minimum'], obj(a), axis, k.get('keepdims', False)),
    'min': lambda a, axis=None, **k: reduce_(REDUCE['minimum'], obj(a), axis, k.get('keepdims', False)),
    'ptp': lambda a, axis=None, **k: sarr(a).ptp(axis),
    'mean': lambda a, axis=None, **k: sarr(a).mean(axis),
    'var': lambda a, axis=None, ddof=0, **k: sarr(a).var(axis, ddof),
    'std': lambda a, axis=None, ddof=0, **k: sarr(a).std(axis, ddof),
    'cumsum': lambda a, axis=None, **k: accumulate(s_add, a, axis),
    'cumprod': lambda a, axis=None, **k: accumulate(s_mul, a, axis),
    'isscalar': lambda a: not isinstance(a, np.ndarray),
    'nonzero': lambda a: sarr(a).nonzero(),
    'flatnonzero': lambda a: sarr(a).reshape(-1).nonzero()[0],
    'argwhere': lambda a: np.transpose(sarr(a).nonzero()),
    'angle': lambda a, deg=False: elementwise(_angle, a),
    'isreal': lambda a: True, 'real': lambda a: unwrap(sarr(a).real), 'imag': lambda a: unwrap(sarr(a).imag), 'fix': lambda a: elementwise(_ftrunc, a),
    'full_like': lambda a, v, dtype=None, **k: full(obj(a).shape, v, order=_order(a, k)),
    'zeros_like': lambda a, dtype=None, **k: zeros(obj(a).shape, dtype, order=_order(a, k)),
    'ones_like': lambda a, dtype=None, **k: ones(obj(a).shape, dtype, order=_order(a, k)),
    'empty_like': lambda a, dtype=None, **k: empty(obj(a).shape, dtype, order=_order(a, k)),
    'array_repr': lambda a, *r, **k: repr(obj(a)), 'array_str': lambda a, *r, **k: repr(obj(a)),
    'array2string': lambda a, *r, **k: repr(obj(a)),
    'shape': lambda a: obj(a).shape, 'size': lambda a, axis=None: obj(a).size if axis is None else obj(a).shape[axis],
    'ndim': lambda a: obj(a).ndim,
    'atleast_1d': lambda *a: _atleast(np.atleast_1d, a), 'atleast_2d': lambda *a: _atleast(np.atleast_2d, a),
    'copy': lambda a, **k: sarr(obj(a).copy()),
}


def _atleast(f, a):
    r = [f(obj(x)).view(SArr) for x in a]
    return r[0] if len(r) == 1 else r


def function_dispatch(func, types, args, kwargs):
    name = func.__name__
    f = FUNCS.get(name)
    if f is not None:
        return f(*args, **kwargs)
    # numpy's own implementation on plain object arrays
    def conv(x):
        if isinstance(x, (list, tuple)):
            return type(x)(conv(v) for v in x)
        if isinstance(x, SArr):
            return x.view(np.ndarray)
        if isinstance(x, (Sym, SymBool)):
            return obj(x)
        return x
    try:
        r = func._implementation(*conv(args), **{k: conv(v) for k, v in kwargs.items()})
    except AttributeError:
        r = getattr(func, '__wrapped__', func)(*conv(args), **{k: conv(v) for k, v in kwargs.items()})

    def back(x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            return x.view(SArr) if x.ndim else x.item()
        if isinstance(x, (list, tuple)) and not hasattr(x, '_fields'):
            return type(x)(back(v) for v in x)
        return x
    return back(r)


# ---------------------------------------------------------------------------
# creation

def _colmajor(a):
    return isinstance(a, np.ndarray) and a.ndim > 1 and a.flags.f_contiguous and not a.flags.c_contiguous


def _order(a, k):
    """memory layout that numpy gives an array made like another one"""
    o = k.get('order', 'K')
    return o if o in 'CF' else ('F' if _colmajor(a) else 'C')


def contiguous(order):
    def g(x, dtype=None, **k):
        a = asarray(x, dtype)
        if a.flags.c_contiguous if order == 'C' else a.flags.f_contiguous:
            return a
        return np.ndarray.copy(a, order)
    return g


def _shape(s):
    if isinstance(s, np.ndarray):
        s = tuple(obj(s).tolist())
    if isinstance(s, (tuple, list)):
        return tuple(int(v) for v in s)
    return (int(s),)


def full(shape, value, dtype=None, **k):
    r = np.empty(_shape(shape), dtype=object, order=k.get('order', 'C'))
    v = obj(value)
    r[...] = v if v.ndim else v.item()
    if dtype is not None:
        return cast(r.view(SArr), dtype)
    return r.view(SArr)


def _fillv(dt, f, i, b):
    k = kind(dt) if dt is not None else 'f'
    if k == 'O':
        return f
    if k == 'c':
        return f
    if k not in 'fiub':
        raise Unsupported('array of dtype %r' % (dt,))
    return {'f': f, 'i': i, 'u': i, 'b': b}[k]


def zeros(shape, dtype=None, **k):
    if dtype is not None and kind_is_record(dtype):
        return np.zeros(shape, dtype)
    return full(shape, _fillv(dtype, 0.0, 0, False), order=k.get('order', 'C'))


def ones(shape, dtype=None, **k):
    return full(shape, _fillv(dtype, 1.0, 1, True), order=k.get('order', 'C'))


def kind_is_record(dt):
    try:
        return kind(dt) in 'VSUM'
    except Unsupported:
        return True


class Uninit(object):
    """Element of np.empty: any use of it is an error the engine reports."""


def empty(shape, dtype=None, **k):
    if dtype is not None and kind_is_record(dtype):
        return np.empty(shape, dtype)
    # contents of np.empty are arbitrary: fresh unconstrained values
    s = _shape(shape)
    r = np.empty(s, dtype=object, order=k.get('order', 'C'))
    kd = kind(dtype) if dtype is not None else 'f'
    c = core._current
    for ix in np.ndindex(*s):
        if c is None:
            r[ix] = 0.0
        elif kd in 'iu':
            c.fresh_n = getattr(c, 'fresh_n', 0)
            r[ix] = Sym(z3.FreshInt('uninit'))
        elif kd == 'b':
            r[ix] = SymBool(z3.FreshConst(z3.BoolSort(), 'uninit'))
        else:
            r[ix] = Sym(z3.FreshReal('uninit'))
    return r.view(SArr)


def array(x, dtype=None, copy=True, **k):
    if isinstance(x, np.ma.MaskedArray) and not has_sym(x):
        x = np.asarray(x)
    if dtype is not None and kind_is_record(dtype):
        return np.array(x, dtype)
    if isinstance(x, np.ndarray) and x.dtype.kind in 'VSUMm':
        return np.array(x, copy=copy)
    if isinstance(x, types.GeneratorType):
        x = list(x)
    try:
        o = obj(x)
    except ValueError:
        raise
    if o.size and any(isinstance(v, (str, bytes, dict, type(None))) for v in o.reshape(-1)):
        return np.array(x, dtype=dtype)
    if copy and o is not None:
        o = o.copy()
    r = o.view(SArr)
    if dtype is not None:
        r2 = cast(r, dtype)
        r = r2 if isinstance(r2, np.ndarray) else sarr(r2)
    return r


def asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and dtype is None:
        return x
    if isinstance(x, SArr):
        k_ = kind(dtype)
        if k_ == 'f':
            # keeps identity when already float-like: no copy, like numpy
            if all(not isinstance(v, (int, bool, SymBool)) for v in x.reshape(-1)):
                return x
        return array(x, dtype)
    return array(x, dtype, copy=False)


def arange(*a, **k):
    k.pop('dtype', None)
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a[:3]
    if not has_sym([start, stop, step]):
        return sarr(np.arange(start, stop, step))
    n = s_ceil(s_div(s_sub(stop, start), step))
    n = int(n)
    return sarr([s_add(start, s_mul(i, step)) for i in range(max(n, 0))])


def linspace(start, stop, num=50, endpoint=True, **k):
    num = int(num)
    if not has_sym([start, stop]):
        return sarr(np.linspace(start, stop, num, endpoint))
    d = (num - 1) if endpoint else num
    return sarr([s_add(start, s_div(s_mul(s_sub(stop, start), i), d)) if d else start for i in range(num)])


def fromiter(it, dtype=None, count=-1):
    return array(list(it), dtype)


def meshgrid(*xi, **k):
    r = np.meshgrid(*[obj(x) for x in xi], **k)
    return [x.view(SArr) for x in r]


def vectorize(f, *a, **k):
    def g(*args):
        return elementwise(f, *args)
    return g


def gradient(f, *a, **k):
    f = obj(f)
    if f.ndim != 1 or a:
        raise Unsupported('gradient')
    r = [f[1] - f[0]] + [(f[i + 1] - f[i - 1]) / 2.0 for i in range(1, f.size - 1)] + [f[-1] - f[-2]]
    return sarr(r)


class ErrState(object):
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Facade(types.ModuleType):
    """Looks like numpy to the code under test."""

    def __init__(self, extra=None):
        types.ModuleType.__init__(self, 'numpy')
        d = dict(FUNCS)
        for n in ('full_like', 'zeros_like', 'ones_like', 'empty_like'):
            d[n] = FUNCS[n]
        d.update(zeros=zeros, ones=ones, empty=empty, full=full, array=array, asarray=asarray,
                 asanyarray=asarray, ascontiguousarray=contiguous('C'),
                 asfortranarray=contiguous('F'), arange=arange, linspace=linspace,
                 fromiter=fromiter, meshgrid=meshgrid, vectorize=vectorize, gradient=gradient,
                 errstate=ErrState, seterr=lambda *a, **k: {}, float64=SymFloat, float32=SymFloat,
                 float_=SymFloat, double=SymFloat, int32=SymInt, int64=SymInt, int_=SymInt, intp=SymInt,
                 int16=SymInt, bool_=np.bool_, isscalar=lambda a: not isinstance(a, (np.ndarray, list, tuple)),
                 ndarray=np.ndarray, hypot=lambda a, b: elementwise(_hypot, a, b))
        for n in UF:
            if hasattr(np, n):
                d.setdefault(n, _uf(n))
        d['abs'] = d['absolute']
        d['r_'] = RClass()
        d['c_'] = np.c_
        if extra:
            d.update(extra)
        self.__dict__.update(d)

    def __getattr__(self, n):
        return getattr(np, n)


class RClass(object):
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            if isinstance(k, slice):
                parts.append(obj(arange(k.start or 0, k.stop, k.step or 1)))
            else:
                parts.append(np.atleast_1d(obj(k)))
        return np.concatenate(parts).view(SArr)


def _uf(n):
    real = getattr(np, n)

    class U(object):
        __name__ = n
        nin = real.nin

        def __call__(self, *a, **k):
            if not has_sym(a) and not any(isinstance(x, SArr) for x in a) and 'out' not in k \
                    and not any(_deep(x) for x in a):
                return real(*a, **k)
            if len(a) > real.nin:
                k['out'] = (a[real.nin],)
                a = a[:real.nin]
            elif 'out' in k and not isinstance(k['out'], tuple):
                k['out'] = (k['out'],)
            if k.get('out') == (None,):
                k.pop('out')
            return ufunc_dispatch(real, '__call__', a, k)

        def reduce(self, a, axis=0, **k):
            return ufunc_dispatch(real, 'reduce', (a,), dict(k, axis=axis))

        def accumulate(self, a, axis=0, **k):
            return ufunc_dispatch(real, 'accumulate', (a,), dict(k, axis=axis))

        def outer(self, a, b):
            return ufunc_dispatch(real, 'outer', (a, b), {})

        def at(self, a, i, v=None):
            return ufunc_dispatch(real, 'at', (a, i, v), {})
    return U()


def _deep(x):
    return isinstance(x, (list, tuple)) and has_sym(x)


# ---------------------------------------------------------------------------
# builtins and math

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return z3.is_real(x.e)
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class SymFloat(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, (Sym, SymBool)):
            return tofloat(x)
        if isinstance(x, np.ndarray):
            if x.size == 1:
                return SymFloat(x.reshape(-1).view(np.ndarray)[0])
            if x.dtype == object:
                return cast(x, float)
        if isinstance(x, (list, tuple)):
            return array(x, float)
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return z3.is_int(x.e)
        return isinstance(x, (int,))

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class SymInt(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, (Sym, SymBool)):
            return s_trunc(Sym(lift(x)))
        if isinstance(x, np.ndarray):
            if x.size == 1:
                return SymInt(x.reshape(-1).view(np.ndarray)[0])
            if x.dtype == object:
                return cast(x, int)
        return int(x, *a)


def b_max(*a, **k):
    return _mm(a, k, s_max, max)


def b_min(*a, **k):
    return _mm(a, k, s_min, min)


def _mm(a, k, f, real):
    if k.get('key') is not None:
        return real(*a, **k)
    vals = list(a[0]) if len(a) == 1 else list(a)
    if not vals and 'default' in k:
        return k['default']
    if not vals or not any(isinstance(v, (Sym, SymBool)) for v in vals):
        return real(vals) if vals else real(*a, **k)
    r = pyval(vals[0])
    for v in vals[1:]:
        r = f(r, pyval(v))
    return r


def b_round(x, n=None):
    if isinstance(x, Sym):
        return core.s_round(x, n)
    return round(x, n) if n is not None else round(x)


def b_abs(x):
    return abs(x)


def b_pow(a, b, *m):
    return a ** b if not m else pow(a, b, *m)


def b_any(it):
    it = list(it)
    if any(isinstance(v, (Sym, SymBool)) for v in it):
        return mkb(z3.Or([lbool(v) for v in it]))
    return any(it)


def b_all(it):
    it = list(it)
    if any(isinstance(v, (Sym, SymBool)) for v in it):
        return mkb(z3.And([lbool(v) for v in it]))
    return all(it)


BUILTINS = {'max': b_max, 'min': b_min, 'round': b_round, 'float': SymFloat, 'int': SymInt,
            'any': b_any, 'all': b_all, 'pow': b_pow}


class MathFacade(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')
        m1 = {n: (lambda n: lambda a: fn(n, a))(n) for n in
              ('exp', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'gamma', 'tanh', 'lgamma')}
        self.__dict__.update(m1)

        def mlog(a, base=None):
            r = fn('log', a)
            return r if base is None else r / fn('log', base)

        def msqrt(a):
            r = fn('sqrt', a)
            if isinstance(r, float) and math.isnan(r):
                raise ValueError('math domain error')
            return r
        self.__dict__.update(
            log=mlog, sqrt=msqrt, atan2=lambda a, b: fn('atan2', a, b), pow=s_pow, hypot=_hypot,
            floor=s_floor, ceil=s_ceil, trunc=s_trunc, fabs=s_abs, fmod=_fmod, isnan=_isnan, isinf=_isinf,
            isfinite=_isfinite, radians=_rad, degrees=_deg,
            copysign=UF['copysign'], fsum=lambda it: reduce_(REDUCE['add'], sarr(list(it)), None))

    def __getattr__(self, n):
        return getattr(math, n)

"""
Symbolic values, path exploration and obligations.

``Sym`` wraps a z3 Int/Real term, ``SymBool`` a z3 Bool.  Python code that is
handed these values executes as usual; when it branches on a ``SymBool`` the
explorer asks the solver which branches are feasible and re-executes the
function once per feasible path.
"""
import math
import os
import time
import itertools
from fractions import Fraction

import z3
import numpy as np

from . import poly


class Unsupported(Exception):
    """The engine met an operation that it cannot model."""


class PathAbort(BaseException):
    """Ends the current path (infeasible or cut)."""


class Inconclusive(Exception):
    """Solver returned unknown on an obligation."""


NAN = float('nan')
INF = float('inf')

_current = None


def ctx():
    if _current is None:
        raise Unsupported('symbolic operation outside an exploration')
    return _current


def rat(x):
    """Exact rational for a concrete number (floats by shortest repr)."""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, np.floating) and not isinstance(x, float):
        return Fraction(str(x))
    return Fraction(repr(float(x)))


def isconc(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_, Fraction))


def z3num(x, real=None):
    f = rat(x)
    if real is None:
        real = not isinstance(x, (int, np.integer, bool, np.bool_))
    if real:
        return z3.RealVal(f)
    return z3.IntVal(int(f))


def lift(x):
    """z3 arithmetic term of a Sym or a concrete number."""
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isconc(x):
        return z3num(x)
    raise Unsupported('cannot lift %r' % (type(x),))


def lbool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, Sym):
        return x.e != 0
    if isconc(x):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, np.ndarray) and x.size == 1:
        return lbool(x.reshape(-1)[0])
    raise Unsupported('cannot treat %r as a truth value' % (type(x),))


def mk(e):
    """Wrap a z3 term, folding numerals back to Python numbers."""
    if z3.is_bool(e):
        return mkb(e)
    return Sym(e)


def mkb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def is_special(x):
    return isinstance(x, (float, np.floating)) and (math.isnan(x) or math.isinf(x))


def toreal(e):
    return z3.ToReal(e) if z3.is_int(e) else e


class SymBase(object):
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import nps
        return nps.ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import nps
        return nps.function_dispatch(func, types, args, kwargs)

    # numpy scalar look-alike attributes
    ndim = 0
    shape = ()
    size = 1


class SymBool(SymBase):
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __and__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return mkb(z3.And(self.e, lbool(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return mkb(z3.Or(self.e, lbool(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkb(z3.Xor(self.e, lbool(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkb(z3.Not(self.e))
    logical_not = __invert__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkb(self.e == lbool(o))
        return Sym(lift(self)) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(self.e)

    def _num(self):
        return Sym(lift(self))

    def __add__(self, o):
        return self._num() + o

    def __radd__(self, o):
        return o + self._num()

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o

    def __rmul__(self, o):
        return o * self._num()

    def __repr__(self):
        return 'SymBool(%s)' % self.e

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def item(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SC(SymBase):
    """A complex number whose parts may be symbolic."""
    __slots__ = ('real', 'imag')

    def __init__(self, re, im):
        self.real, self.imag = re, im

    def conjugate(self):
        return SC(self.real, s_neg(self.imag))

    def __abs__(self):
        return fn('sqrt', s_add(s_mul(self.real, self.real), s_mul(self.imag, self.imag)))

    def __neg__(self):
        return SC(s_neg(self.real), s_neg(self.imag))

    def __pos__(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'SC(%r, %r)' % (self.real, self.imag)


def iscx(x):
    return isinstance(x, (SC, complex, np.complexfloating))


def cx(x):
    if isinstance(x, SC):
        return x
    if iscx(x):
        return SC(float(x.real), float(x.imag))
    return SC(x, 0.0)


def c_add(a, b):
    a, b = cx(a), cx(b)
    return SC(s_add(a.real, b.real), s_add(a.imag, b.imag))


def c_sub(a, b):
    a, b = cx(a), cx(b)
    return SC(s_sub(a.real, b.real), s_sub(a.imag, b.imag))


def c_mul(a, b):
    a, b = cx(a), cx(b)
    return SC(s_sub(s_mul(a.real, b.real), s_mul(a.imag, b.imag)),
              s_add(s_mul(a.real, b.imag), s_mul(a.imag, b.real)))


def c_div(a, b):
    if not iscx(b):
        a = cx(a)
        return SC(s_div(a.real, b), s_div(a.imag, b))
    a, b = cx(a), cx(b)
    n = c_mul(a, b.conjugate())
    d = s_add(s_mul(b.real, b.real), s_mul(b.imag, b.imag))
    return SC(s_div(n.real, d), s_div(n.imag, d))


def c_exp(a):
    m = fn('exp', a.real)
    return SC(s_mul(m, fn('cos', a.imag)), s_mul(m, fn('sin', a.imag)))


def c_pow(a, b):
    if not (isconc(b) and float(b).is_integer() and 0 <= b <= 8):
        raise Unsupported('complex power')
    r = SC(1.0, 0.0)
    for _ in range(int(b)):
        r = c_mul(r, a)
    return r


def _cbin(f):
    def op(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, np.ndarray):
            o = o.item()
        if not (iscx(o) or isinstance(o, (Sym, SymBool)) or isconc(o)):
            return NotImplemented
        return f(self, o)
    return op


for _n, _f in (('add', c_add), ('sub', c_sub), ('mul', c_mul), ('truediv', c_div)):
    setattr(SC, '__%s__' % _n, _cbin(_f))
    setattr(SC, '__r%s__' % _n, _cbin(lambda a, b, _f=_f: _f(b, a)))
SC.__pow__ = _cbin(c_pow)


def _bin(f):
    def op(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, np.ndarray):
            o = o.item()
        if isinstance(o, complex):
            return f(SC(self, 0.0), o)
        if not (isinstance(o, (Sym, SymBool)) or isconc(o)):
            return NotImplemented
        return f(self, o)
    return op


def _fp(e):
    """Result of a floating-point operation.  With ``fp_eps`` set on the
    explorer, an arbitrary rounding error of at most that size is added, so a
    proof covers every IEEE result as long as magnitudes stay below
    fp_eps * 2**53."""
    c = _current
    if c is not None and c.fp_eps and not z3.is_int(e):
        d = z3.Real('fp!%d' % c.fp_count)
        c.fp_count += 1
        c.add(z3.And(d <= z3.RealVal(c.fp_eps), d >= -z3.RealVal(c.fp_eps)))
        return Sym(e + d)
    return Sym(e)


def s_add(a, b):
    if iscx(a) or iscx(b):
        return c_add(a, b)
    if isconc(a) and isconc(b):
        return a + b
    for x in (a, b):
        if is_special(x):
            return float(x)
    if isconc(b) and b == 0:
        return a
    if isconc(a) and a == 0:
        return b
    return _fp(lift(a) + lift(b))


def s_sub(a, b):
    if iscx(a) or iscx(b):
        return c_sub(a, b)
    if isconc(a) and isconc(b):
        return a - b
    if is_special(a):
        return float(a)
    if is_special(b):
        return -float(b)
    if isconc(b) and b == 0:
        return a
    return _fp(lift(a) - lift(b))


def s_mul(a, b):
    if iscx(a) or iscx(b):
        return c_mul(a, b)
    if isconc(a) and isconc(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if is_special(x):
            if math.isnan(x):
                return NAN
            if ctx().decide(lift(y) > 0):
                return float(x)
            if ctx().decide(lift(y) < 0):
                return -float(x)
            return NAN
        if isconc(x):
            if x == 1:
                return y
            if x == 0 and not isinstance(y, float):
                return 0.0 if isinstance(x, float) or not z3.is_int(lift(y)) else 0
    return _fp(lift(a) * lift(b))


def s_div(a, b):
    """True division.  Zero divisors fork the path."""
    if iscx(a) or iscx(b):
        return c_div(a, b)
    if isconc(a) and isconc(b):
        if b == 0:
            return ctx().divzero(a)
        return a / b
    if is_special(b):
        return NAN if math.isnan(b) else 0.0
    eb = toreal(lift(b))
    if isconc(b):
        if b == 0:
            return ctx().divzero(a)
    elif ctx().divzero_mode == 'assume':
        ctx().nonzero(eb)
    elif ctx().decide(eb == 0):
        return ctx().divzero(a)
    if is_special(a):
        if math.isnan(a):
            return NAN
        return float(a) if ctx().decide(eb > 0) else -float(a)
    if isconc(b):
        if b == 1:
            return Sym(toreal(lift(a)))
        return _fp(toreal(lift(a)) * z3.RealVal(1 / rat(b)))
    return _fp(toreal(lift(a)) / eb)


def s_floordiv(a, b):
    if isconc(a) and isconc(b):
        return a // b
    if is_special(a) or is_special(b):
        raise Unsupported('floor division with non-finite operand')
    ea, eb = lift(a), lift(b)
    if isconc(b) and b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if not isconc(b) and ctx().decide(eb == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if z3.is_int(ea) and z3.is_int(eb):
        pos = (b > 0) if isconc(b) else ctx().decide(eb > 0)
        return Sym(ea / eb) if pos else Sym((-ea) / (-eb))
    return Sym(z3.ToReal(_toint(lift(s_div(a, b)))))


def s_mod(a, b):
    if isconc(a) and isconc(b):
        return a % b
    if is_special(a) or is_special(b):
        return NAN
    return s_sub(a, s_mul(s_floordiv(a, b), b))


def s_neg(a):
    if iscx(a):
        return -a
    return -a if isconc(a) else Sym(-lift(a))


def s_abs(a):
    if isconc(a) or iscx(a):
        return abs(a)
    if _current is not None and _current.canon:
        return fn('abs', a)
    e = lift(a)
    return Sym(z3.If(e >= 0, e, -e))


def _cmp(opname):
    import operator
    pyop = getattr(operator, opname)

    def f(a, b):
        if isconc(a) and isconc(b):
            return bool(pyop(a, b))
        if is_special(a) or is_special(b):
            x = float(a) if is_special(a) else 0.0
            y = float(b) if is_special(b) else 0.0
            return bool(pyop(x, y))
        return mkb(pyop(lift(a), lift(b)))
    return f


s_lt, s_le, s_gt, s_ge = map(_cmp, ('lt', 'le', 'gt', 'ge'))
_eq_num, _ne_num = map(_cmp, ('eq', 'ne'))


def s_eq(a, b):
    if isinstance(a, SymBool) and isinstance(b, (SymBool, bool, np.bool_)):
        return a == b
    if isinstance(b, SymBool) and isinstance(a, (bool, np.bool_)):
        return b == a
    return _eq_num(a, b)


def s_ne(a, b):
    r = s_eq(a, b)
    return (not r) if isinstance(r, bool) else ~r


def ite(c, a, b):
    """Merge two values under a (possibly symbolic) condition."""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isconc(c):
        return a if c else b
    if isinstance(c, z3.BoolRef):
        c = mkb(c)
        if isinstance(c, bool):
            return a if c else b
    if a is b:
        return a
    if isinstance(c, Sym):
        c = c != 0
        if isinstance(c, bool):
            return a if c else b
    if _current is not None and _current.canon and len(free(c.e)) < 3:
        if _current._sliced(c.e):
            return a
        if _current._sliced(z3.Not(c.e)):
            return b
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return mkb(z3.If(c.e, lbool(a), lbool(b)))
    if not all(isinstance(x, (Sym, SymBool)) or (isconc(x) and not is_special(x)) for x in (a, b)):
        # values that cannot be merged into one term: split the path
        if is_special(a) and is_special(b) and repr(float(a)) == repr(float(b)):
            return a
        return a if bool(c) else b
    ea, eb = lift(a), lift(b)
    if z3.is_int(ea) != z3.is_int(eb):
        ea, eb = toreal(ea), toreal(eb)
    if ea.eq(eb):
        return a
    return Sym(z3.If(c.e, ea, eb))


def s_max(a, b):
    if isconc(a) and isconc(b):
        return np.maximum(a, b) if (is_special(a) or is_special(b)) else max(a, b)
    if is_special(a) and math.isnan(a) or is_special(b) and math.isnan(b):
        return NAN
    return ite(s_ge(a, b), a, b)


def s_min(a, b):
    if isconc(a) and isconc(b):
        return np.minimum(a, b) if (is_special(a) or is_special(b)) else min(a, b)
    if is_special(a) and math.isnan(a) or is_special(b) and math.isnan(b):
        return NAN
    return ite(s_le(a, b), a, b)


def _toint(e):
    """Floor of a real term, its integer-valued summands taken out."""
    s = z3.simplify(e)
    parts = s.children() if z3.is_add(s) else [s]
    whole, rest = [], []
    for p in parts:
        if z3.is_rational_value(p):
            q = math.floor(p.as_fraction())
            whole.append(z3.IntVal(q))
            if p.as_fraction() != q:
                rest.append(z3.simplify(p - q))
        elif z3.is_to_real(p):
            whole.append(p.arg(0))
        elif (z3.is_mul(p) and p.num_args() == 2 and z3.is_rational_value(p.arg(0))
              and p.arg(0).as_fraction().denominator == 1 and z3.is_to_real(p.arg(1))):
            whole.append(p.arg(0).as_fraction().numerator * p.arg(1).arg(0))
        else:
            rest.append(p)
    if not whole:
        return z3.ToInt(e)
    return z3.Sum(*whole, *([z3.ToInt(z3.Sum(*rest))] if rest else []))


def s_floor(a):
    """Largest integer <= a, as an Int term."""
    if isconc(a):
        return math.floor(a)
    e = lift(a)
    if z3.is_int(e):
        return Sym(e)
    return Sym(_toint(e))


def s_ceil(a):
    if isconc(a):
        return math.ceil(a)
    e = lift(a)
    if z3.is_int(e):
        return Sym(e)
    return Sym(-_toint(-e))


def s_trunc(a):
    if isconc(a):
        return int(a)
    e = lift(a)
    if z3.is_int(e):
        return Sym(e)
    if _current is not None:
        if (_current.canon and _current._sliced(e >= 0)) or _current._check(e < 0) == z3.unsat:
            return Sym(_toint(e))
        if (_current.canon and _current._sliced(e <= 0)) or _current._check(e > 0) == z3.unsat:
            return Sym(-_toint(-e))
    return Sym(z3.If(e >= 0, _toint(e), -_toint(-e)))


def s_rint(a):
    """Round half to even, as an Int term."""
    if isconc(a):
        return int(round(a))
    e = lift(a)
    if z3.is_int(e):
        return Sym(e)
    f = _toint(e)
    d = e - z3.ToReal(f)
    half = z3.RealVal('1/2')
    up = z3.Or(d > half, z3.And(d == half, f % 2 == 1))
    return Sym(z3.If(up, f + 1, f))


def tofloat(a):
    if isconc(a):
        return float(a)
    return Sym(toreal(lift(a)))


def s_round(a, n=None):
    if isconc(a):
        return round(a, n) if n is not None else round(a)
    if n is None:
        return s_rint(a)
    k = 10 ** int(n)
    return tofloat(s_rint(s_mul(a, k))) / k


def s_sign(a):
    if isconc(a):
        return np.sign(a)
    e = lift(a)
    if _current is not None and _current.canon:
        return 1.0 if ctx().decide(e > 0) else (-1.0 if ctx().decide(e < 0) else 0.0)
    return Sym(z3.If(e > 0, z3.IntVal(1), z3.If(e < 0, z3.IntVal(-1), z3.IntVal(0))))


def s_pow(a, b):
    if iscx(a) or iscx(b):
        return c_pow(a, b)
    if isconc(a) and isconc(b):
        return a ** b
    if isinstance(b, (int, np.integer)) or (isinstance(b, (float, np.floating)) and float(b).is_integer()
                                            and abs(b) <= 8):
        n = int(b)
        if n == 0:
            return 1.0
        r = a
        for _ in range(abs(n) - 1):
            r = s_mul(r, a)
        return r if n > 0 else s_div(1.0, r)
    if isconc(b) and rat(b).denominator == 2 and abs(rat(b).numerator) <= 7:
        n = rat(b).numerator
        r = s_pow(fn('sqrt', a), abs(n))
        return r if n > 0 else s_div(1.0, r)
    return fn('pow', a, b)


def fn(name, *args):
    """Application of a transcendental function (an atom with axioms)."""
    if name == 'exp' and iscx(args[0]):
        return c_exp(cx(args[0]))
    if name.startswith('u:'):
        # an arbitrary function: equal arguments (as terms) give equal results, nothing else is known
        if any(is_special(a) for a in args):
            return NAN
        return ctx().atom(name, args)
    if all(isconc(a) for a in args):
        c = _CONCRETE[name]
        try:
            return float(c(*[float(a) for a in args]))
        except (ValueError, OverflowError, ZeroDivisionError):
            with np.errstate(all='ignore'):
                return float(getattr(np, {'pow': 'power', 'asin': 'arcsin', 'acos': 'arccos',
                                          'atan': 'arctan', 'atan2': 'arctan2'}.get(name, name))(
                                              *[float(a) for a in args]))
    if any(is_special(a) for a in args):
        if any(is_special(a) and math.isnan(a) for a in args):
            return NAN
        if name == 'exp' and args[0] == -INF:
            return 0.0
        if name == 'pow' and args[0] == INF and not is_special(args[1]):
            return INF if bool(s_gt(args[1], 0)) else (1.0 if bool(s_eq(args[1], 0)) else 0.0)
        raise Unsupported('%s of a non-finite value' % name)
    return ctx().atom(name, args)


_CONCRETE = {'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos,
             'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan,
             'atan2': math.atan2, 'pow': math.pow, 'gamma': math.gamma, 'log10': math.log10,
             'tanh': math.tanh, 'lgamma': math.lgamma, 'abs': abs}


class Sym(SymBase):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e != 0)

    __add__ = _bin(s_add)
    __radd__ = _bin(lambda a, b: s_add(b, a))
    __sub__ = _bin(s_sub)
    __rsub__ = _bin(lambda a, b: s_sub(b, a))
    __mul__ = _bin(s_mul)
    __rmul__ = _bin(lambda a, b: s_mul(b, a))
    __truediv__ = _bin(s_div)
    __rtruediv__ = _bin(lambda a, b: s_div(b, a))
    __floordiv__ = _bin(s_floordiv)
    __rfloordiv__ = _bin(lambda a, b: s_floordiv(b, a))
    __mod__ = _bin(s_mod)
    __rmod__ = _bin(lambda a, b: s_mod(b, a))
    __pow__ = _bin(s_pow)
    __rpow__ = _bin(lambda a, b: s_pow(b, a))
    __lt__ = _bin(s_lt)
    __le__ = _bin(s_le)
    __gt__ = _bin(s_gt)
    __ge__ = _bin(s_ge)

    def __divmod__(self, o):
        return self // o, self % o

    def __eq__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, (Sym, SymBool)) or isconc(o):
            return s_eq(self, o)
        return False

    def __ne__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, (Sym, SymBool)) or isconc(o):
            return s_ne(self, o)
        return True

    def __hash__(self):
        return self.e.hash()

    def __neg__(self):
        return s_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return s_ceil(self)

    def __trunc__(self):
        return s_trunc(self)

    def __round__(self, n=None):
        return s_round(self, n)

    def __index__(self):
        if not z3.is_int(self.e):
            raise TypeError('symbolic real used as an index')
        return ctx().concretise(self.e)

    __int__ = __index__

    def __float__(self):
        e = z3.simplify(self.e)
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return float(Fraction(e.as_string()))
        raise Unsupported('float() of a symbolic value at a C boundary')

    def __repr__(self):
        return 'Sym(%s)' % self.e

    def __format__(self, spec):
        return 'Sym'

    # numpy-scalar look-alikes
    def item(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def astype(self, dt, **k):
        from . import nps
        return nps.cast(self, dt)

    def squeeze(self):
        return self

    def max(self):
        return self
    min = sum = mean = max

    def any(self):
        return self != 0
    all = any

    def is_integer(self):
        if z3.is_int(self.e):
            return True
        return mkb(z3.IsInt(self.e))

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    # methods that numpy's object loops call
    def sqrt(self):
        return fn('sqrt', self)

    def exp(self):
        return fn('exp', self)

    def log(self):
        return fn('log', self)

    def sin(self):
        return fn('sin', self)

    def cos(self):
        return fn('cos', self)

    def tan(self):
        return fn('tan', self)


class Path(object):
    def __init__(self):
        self.pc = []
        self.decisions = []
        self.value = None
        self.exc = None


class Failure(object):
    def __init__(self, label, model, path, info=None):
        self.label = label
        self.model = model
        self.path = path
        self.info = info or {}


_DUMP = os.environ.get('VX_DUMP')


class Explorer(object):
    """Depth-first exploration of all feasible paths of a function."""

    def __init__(self, timeout_ms=20000, max_paths=20000, branch_timeout_ms=4000,
                 divzero='raise', seed=0, deadline=None, fp_eps=None, batch=False, canon=False, domain='decide', signs=False):
        self.canon = canon
        self.signs = signs
        self.domain = domain
        self._signs = {}
        self.ranges = {}
        self.batch = batch
        self._queue = []
        self.fp_eps = Fraction(fp_eps) if fp_eps else None
        self.fp_count = 0
        self.fixed = {}
        self.timeout_ms = timeout_ms
        self.branch_timeout_ms = branch_timeout_ms
        self.max_paths = max_paths
        self.divzero_mode = divzero
        self.seed = seed
        self.deadline = deadline
        self.paths = []
        self.failures = []
        self.unknown = []
        self.obligations = 0
        self.discharged = 0
        self.labels = {}
        self.queries = 0
        self.solver_s = 0.0
        self.n_decisions = 0
        self.n_cut = 0
        self.inputs = {}
        self.atoms = {}
        self.atom_list = []
        self.global_axioms = []
        self.prefix = []
        self.notes = set()
        self.witness = {}
        self.truncated = False
        self.stop_on_failure = True
        self._path_hook = None
        self._second = None

    # -- inputs -----------------------------------------------------------
    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self._register(name, v, lo, hi)
        return Sym(v)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self._register(name, v, lo, hi)
        return Sym(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        return SymBool(v)

    def _register(self, name, v, lo, hi):
        self.inputs[name] = v
        if isconc(lo) and isconc(hi):
            self.ranges[name] = (lo, hi)
        if lo is not None:
            self.assume(v >= (z3num(lo) if isconc(lo) else lift(lo)))
        if hi is not None:
            self.assume(v <= (z3num(hi) if isconc(hi) else lift(hi)))

    # -- solver -----------------------------------------------------------
    def _check(self, *extra, timeout=None):
        self.queries += 1
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise Inconclusive('time budget of the check exhausted')
        self.solver.set('timeout', timeout or self.branch_timeout_ms)
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t0
        if _DUMP and extra and timeout:
            self._dump(extra, r)
        return r

    _dumped = 0

    def _dump(self, extra, r):
        """Write an obligation's query as SMT-LIB (tools/twosolver.py compares another solver on it)."""
        if self._dumped >= 12 or r == z3.unknown:
            return
        self._dumped += 1
        s = z3.Solver()
        s.add(*self.solver.assertions())
        s.add(*[e for e in extra])
        name = '%s-%d-%d.smt2' % (r, os.getpid(), self._dumped)
        with open(os.path.join(_DUMP, name), 'w') as fh:
            fh.write('(set-logic ALL)\n' + s.to_smt2())

    def _checkc(self, *extra, timeout=None):
        """check, adding functional consistency of the arbitrary functions where a model violates it"""
        while True:
            r = self._check(*extra, timeout=timeout)
            if r != z3.sat or not self._congruent(self.solver.model()):
                return r

    def _congruent(self, m):
        groups = {}
        for a in self._path_atoms.values():
            if a.name.startswith('u:'):
                groups.setdefault(a.name, []).append(a)
        new = False
        for g in groups.values():
            if len(g) < 2:
                continue
            seen = {}
            for a in g:
                k = tuple(m.eval(x, model_completion=True).sexpr() for x in a.args)
                b = seen.setdefault(k, a)
                if b is not a and not m.eval(a.var, model_completion=True).eq(m.eval(b.var, model_completion=True)):
                    self.solver.add(z3.Implies(z3.And(*[x == y for x, y in zip(a.args, b.args)]), a.var == b.var))
                    new = True
        return new

    def add(self, e):
        self.solver.add(e)
        self.path.pc.append(e)

    def assume(self, c):
        """Constrain the current path (a precondition)."""
        if isinstance(c, np.ndarray):
            for x in c.reshape(-1):
                self.assume(x)
            return
        e = lbool(c)
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathAbort()
        self.add(e)

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.canon:
            k = poly.comparison(e)
            if k is not None and self._known(k) is not None:
                return self._known(k)
            v = self._decide(e)
            if k is not None:
                self._learn(k, v)
            return v
        return self._decide(e)

    def in_domain(self, e):
        """whether an argument lies in a function's domain; with domain='assume' an argument that does so at
        every sampled point is taken to do so"""
        if self.domain == 'assume':
            e = z3.simplify(e)
            if not (z3.is_true(e) or z3.is_false(e)) and self._witnessed(e) == {True}:
                self.notes.add('arguments outside a domain left out')
                self.add(e)
                return True
        return self.decide(e)

    def _known(self, k):
        """truth of the comparison k = (form, relation) from the signs already fixed on this path"""
        form, rel = k
        s = self._signs.get(form)
        if s is None:
            return None
        if s <= set(rel):
            return True
        if not s & set(rel):
            return False
        return None

    def _learn(self, k, v):
        form, rel = k
        s = self._signs.get(form, {'<', '=', '>'})
        self._signs[form] = s & set(rel) if v else s - set(rel)

    def _decide(self, e):
        i = len(self.path.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.path.decisions.append(v)
            self.add(e if v else z3.Not(e))
            return v
        self.n_decisions += 1
        seen = self._witnessed(e) if self.canon else ()
        t = z3.sat if True in seen else self._check(e)
        f = z3.sat if False in seen else self._check(z3.Not(e))
        if t == z3.unsat and f == z3.unsat:
            raise PathAbort()
        if t == z3.unsat:
            v = False
        elif f == z3.unsat:
            v = True
        else:
            v = True
            self.work.append(self.path.decisions + [False])
        self.path.decisions.append(v)
        self.add(e if v else z3.Not(e))
        return v

    def concretise(self, e, limit=4096):
        """Fork over the feasible values of an integer term."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(limit):
            i = len(self.path.decisions)
            if i < len(self.prefix):
                v = self.prefix[i]
                # value decisions are stored as ('=', n) / ('!', n)
                self.path.decisions.append(v)
                kind, n = v
                if kind == '=':
                    self.add(e == n)
                    return n
                self.add(e != n)
                continue
            self.n_decisions += 1
            r = self._check(timeout=self.timeout_ms)
            if r == z3.unsat:
                raise PathAbort()
            if r != z3.sat:
                raise Inconclusive('cannot find a value for an index')
            n = self.solver.model().eval(e, model_completion=True).as_long()
            if self._check(e != n) != z3.unsat:
                self.work.append(self.path.decisions + [('!', n)])
            self.path.decisions.append(('=', n))
            self.add(e == n)
            return n
        raise Unsupported('too many values for an index')

    def choose(self, name, n):
        """A nondeterministic choice in range(n), explored exhaustively."""
        v = self.int(name, 0, n - 1)
        if name in self.fixed:
            if self.fixed[name] >= n:
                raise PathAbort()
            self.add(v.e == self.fixed[name])
            return self.fixed[name]
        return int(v)

    def divzero(self, a):
        if self.divzero_mode == 'raise':
            raise ZeroDivisionError('float division by zero')
        if self.divzero_mode == 'nan':
            self.notes.add('division by zero yields nan/inf')
            if isconc(a):
                if a == 0 or math.isnan(a):
                    return NAN
                return INF if a > 0 else -INF
            if self.decide(lift(a) == 0):
                return NAN
            return INF if self.decide(lift(a) > 0) else -INF
        if self.divzero_mode == 'cut':
            self.notes.add('paths with a zero divisor cut')
            raise PathAbort()
        raise Unsupported('divzero mode')

    def nonzero(self, e):
        """a divisor that is not zero, by assumption"""
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            if e.as_fraction() == 0:
                raise PathAbort()
            return
        k = poly.comparison(e == 0) if self.canon else None
        if k is not None:
            if self._known(k) is False:
                return
            self._learn(k, False)
        self.notes.add('zero divisors left out')
        self.add(e != 0)

    # -- transcendental atoms ----------------------------------------------
    def atom(self, name, args):
        from . import atoms
        return atoms.make(self, name, args)

    # -- obligations -------------------------------------------------------
    def prove(self, cond, label, info=None):
        """Obligation: on the current path *cond* holds for every input."""
        if isinstance(cond, np.ndarray):
            for i, x in enumerate(cond.reshape(-1)):
                self.prove(x, label, info)
            return
        self.obligations += 1
        st = self.labels.setdefault(label, [0, 0])
        st[0] += 1
        e = z3.simplify(lbool(cond))
        if z3.is_true(e):
            self.discharged += 1
            st[1] += 1
            return
        if self.batch:
            self._queue.append((e, label, info))
            return
        self._prove1(e, label, info)

    def prove_eq(self, a, b, label, rel=1e-6, tries=400):
        """Obligation: two real terms are equal.  Settled first as an identity of rational functions over the
        atoms (evaluated in two prime fields), then by the solver; where the solver gives up on terms that are
        no identity, a point of the path at which they differ is looked for among the inputs' ranges."""
        if is_special(a) or is_special(b):
            self.prove(close_special(a, b), label)
            return
        if poly.identical(toreal(lift(a)), toreal(lift(b))):
            self.obligations += 1
            self.discharged += 1
            st = self.labels.setdefault(label, [0, 0])
            st[0] += 1
            st[1] += 1
            return
        self.obligations += 1
        st = self.labels.setdefault(label, [0, 0])
        st[0] += 1
        if self._sliced(z3.simplify(toreal(lift(a)) == toreal(lift(b)))):
            self.discharged += 1
            st[1] += 1
            return
        w = self.differ(a, b, rel, tries)
        if w is not None:
            self.failures.append(Failure(label, w, list(self.path.decisions), {}))
            return
        self._prove1(z3.simplify(toreal(lift(a)) == toreal(lift(b))), label, None, sampled=True)

    def _sliced(self, e):
        """whether e follows from those facts of the path that speak of nothing but e's own variables"""
        vs = free(e)
        s = z3.Solver()
        s.set('timeout', self.branch_timeout_ms)
        for c in self.path.pc:
            if free(c) <= vs:
                s.add(c)
        s.add(z3.Not(e))
        self.queries += 1
        t0 = time.time()
        r = s.check()
        self.solver_s += time.time() - t0
        return r == z3.unsat

    def differ(self, a, b, rel, tries):
        """inputs on the current path at which two terms differ, by sampling the inputs' ranges"""
        for vals, f in self.sample(tries):
            try:
                x, y = f(toreal(lift(a))), f(toreal(lift(b)))
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            if abs(x - y) > rel * (abs(x) + abs(y)) and abs(x - y) > 1e-12:
                return vals
        return None

    def sample(self, tries):
        """points of the current path, from the ranges of the inputs"""
        pool = self._pool
        for t in range(tries):
            if t >= len(pool):
                pool.append(Point(self, t))
            p = pool[t]
            if p.alive and p.follow(self):
                yield dict(p.vals), p.f

    def _witnessed(self, e):
        """truth values a condition takes at sampled points of the current path"""
        out = set()
        for vals, f in self.sample(60):
            try:
                out.add(bool(f(e)))
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            if len(out) == 2:
                break
        return out

    def flush(self):
        """Discharge the queued obligations of the path, together if possible."""
        q, self._queue = self._queue, []
        if not q:
            return
        if len(q) > 1 and self._checkc(z3.Not(z3.And([e for e, _, _ in q])), timeout=self.timeout_ms) == z3.unsat:
            for _, label, _ in q:
                self.discharged += 1
                self.labels[label][1] += 1
            return
        for e, label, info in q:
            self._prove1(e, label, info)

    def _prove1(self, e, label, info, sampled=False):
        st = self.labels[label]
        if self.canon and not sampled:
            for vals, f in self.sample(400):
                try:
                    if not f(e):
                        self.failures.append(Failure(label, vals, list(self.path.decisions), dict(info or {})))
                        return
                except (ValueError, ZeroDivisionError, OverflowError):
                    continue
        r = self._checkc(z3.Not(e), timeout=self.timeout_ms)
        if r == z3.unknown:
            r = self._retry(z3.Not(e))
        if r == z3.unsat:
            self.discharged += 1
            st[1] += 1
            return
        if r == z3.sat:
            m = self._model
            if m is None:
                m = self.solver.model()
            self._model = None
            vals = self.values(m)
            nice = self._nice_model(z3.Not(e))
            self.failures.append(Failure(label, nice or vals, list(self.path.decisions),
                                         dict(info or {}, alt=vals)))
            if self.stop_on_failure and len(self.failures) >= 40:
                raise PathAbort()
            return
        self.unknown.append(label)

    _model = None

    def _retry(self, extra):
        """Second attempt on a hard obligation with other tactics."""
        self._model = None
        for tac in ('qfnra-nlsat', 'smt', 'default'):
            t0 = time.time()
            self.queries += 1
            try:
                if tac == 'qfnra-nlsat':
                    s = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs',
                                'elim-term-ite', 'qfnra-nlsat').solver()
                elif tac == 'smt':
                    s = z3.Tactic('smt').solver()
                else:
                    s = z3.Solver()
                s.set('timeout', self.timeout_ms)
                for a in self.solver.assertions():
                    s.add(a)
                s.add(extra)
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            self.solver_s += time.time() - t0
            if r == z3.sat:
                self._model = s.model()
                return r
            if r == z3.unsat:
                return r
        return z3.unknown

    def _nice_model(self, extra):
        """Prefer counterexamples made of multiples of 1/8."""
        reals = [v for v in self.inputs.values() if z3.is_real(v)]
        if not reals:
            return None
        for den in (1, 8, 1000):
            try:
                r = self._check(extra, *[z3.IsInt(v * den) for v in reals],
                                timeout=min(2000, self.timeout_ms))
            except z3.Z3Exception:
                return None
            if r == z3.sat:
                return self.values(self.solver.model())
        return None

    def values(self, m):
        out = {}
        for n, v in self.inputs.items():
            out[n] = z3val(m.eval(v, model_completion=True))
        return out

    def feasible(self, cond=True):
        return self._check(lbool(cond), timeout=self.timeout_ms) == z3.sat

    def must(self, cond):
        """Whether cond is implied by the path (used to pick oracles)."""
        return self._check(z3.Not(lbool(cond)), timeout=self.timeout_ms) == z3.unsat

    def path_model(self, brief=False):
        if self.canon:
            for vals, _ in self.sample(300):
                return vals
        if self._checkc(timeout=self.branch_timeout_ms if brief else self.timeout_ms) == z3.sat:
            return self.values(self.solver.model())
        return None

    def eval_in(self, vals, x):
        """Evaluate a term under concrete input values (atoms computed)."""
        return evaluate(self, vals, x)

    # -- driving -----------------------------------------------------------
    def explore(self, func):
        global _current
        self.work = [[]]
        poly.CANON[0] = self.canon
        outer = _current
        _current = self
        try:
            while self.work:
                if len(self.paths) >= self.max_paths:
                    self.truncated = True
                    break
                self.prefix = self.work.pop()
                self.path = Path()
                self.solver = z3.Solver()
                self.solver.set('random_seed', self.seed & 0xffff)
                for a in self.global_axioms:
                    self.solver.add(a)
                self._path_atoms = {}
                self._signs = {}
                self._pool = []
                self.fp_count = 0
                self._queue = []
                try:
                    try:
                        self.path.value = func(self)
                    finally:
                        self.flush()
                except PathAbort:
                    self.n_cut += 1
                    continue
                except (Unsupported, Inconclusive):
                    raise
                except Exception as exc:            # noqa
                    self.path.exc = exc
                    import traceback
                    self.path.tb = traceback.format_exc()
                self.path.solver = None
                if self._path_hook:
                    self._path_hook(self, self.path)
                self.paths.append(self.path)
                if self.failures and self.stop_on_failure and len(self.failures) >= (3 if self.canon else 12):
                    break
        finally:
            _current = outer
        return self.paths


def close_special(a, b):
    if not (isconc(a) and isconc(b)):
        return False
    return repr(float(a)) == repr(float(b))


_free = {}


def free(e):
    """names of the variables of a term"""
    k = e.get_id()
    if k in _free:
        return _free[k][1]
    out, seen, todo = set(), set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        todo.extend(t.children())
    _free[k] = (e, frozenset(out))
    return _free[k][1]


class Point(object):
    """Input values drawn from their ranges, and how far along the path they satisfy its condition."""

    def __init__(self, ex, t):
        import random
        self.rnd = random.Random((ex.seed + 1) * 1000003 + t)
        self.vals = {}
        self.f = Evaluator(ex, {})
        self.done = 0
        self.alive = True

    def draw(self, ex, n, v):
        rnd = self.rnd
        if n in ex.ranges:
            lo, hi = [Fraction(rat(x)) for x in ex.ranges[n]]
            if z3.is_int(v):
                return ex.fixed[n] if n in ex.fixed else rnd.randint(int(lo), int(hi))
            if lo > 0 and hi > 20 * lo and rnd.random() < 0.6:
                x = Fraction(float(lo) * (float(hi) / float(lo)) ** rnd.random()).limit_denominator(10**12)
                return min(max(x, lo), hi)
            return lo + (hi - lo) * Fraction(rnd.randint(0, 1 << 20), 1 << 20)
        if z3.is_bool(v):
            return rnd.random() < 0.5
        return None

    def follow(self, ex):
        for n, v in ex.inputs.items():
            if n not in self.vals:
                x = self.draw(ex, n, v)
                if x is None:
                    self.alive = False
                    return False
                self.vals[n] = x
                self.f.env[v.get_id()] = x if isinstance(x, bool) else float(x)
        self.f.know(ex)
        pc = ex.path.pc
        try:
            while self.done < len(pc):
                if not self.f(pc[self.done]):
                    self.alive = False
                    return False
                self.done += 1
        except (ValueError, ZeroDivisionError, OverflowError):
            self.alive = False
        return self.alive


class Evaluator(object):
    """Floating-point value of terms under given input values, the atoms computed with the real functions."""

    def __init__(self, ex, vals):
        self.env = {ex.inputs[n].get_id(): (float(v) if not isinstance(v, bool) else v) for n, v in vals.items()}
        self.atoms = {}
        self.n_atoms = 0
        self.memo = {}
        self.keep = []
        self.know(ex)

    def know(self, ex):
        while self.n_atoms < len(ex.atom_list):
            a = ex.atom_list[self.n_atoms]
            self.atoms[a.var.get_id()] = a
            self.n_atoms += 1

    def __call__(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k]
        r = self.memo[k] = self._ev(e)
        self.keep.append(e)
        return r

    def _ev(self, e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return float(Fraction(e.as_string()))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        if k in self.env:
            return self.env[k]
        if k in self.atoms:
            a = self.atoms[k]
            if a.name not in _CONCRETE:
                raise ValueError(a.name)
            return _CONCRETE[a.name](*[self(x) for x in a.args])
        d, ch = e.decl().kind(), e.children()
        if d == z3.Z3_OP_AND:
            return all(self(c) for c in ch)
        if d == z3.Z3_OP_OR:
            return any(self(c) for c in ch)
        if d == z3.Z3_OP_DISTINCT:
            return self(ch[0]) != self(ch[1])
        if d == z3.Z3_OP_ITE:
            return self(ch[1]) if self(ch[0]) else self(ch[2])
        v = [self(c) for c in ch]
        if d == z3.Z3_OP_ADD:
            return sum(v)
        if d == z3.Z3_OP_SUB:
            return v[0] - sum(v[1:])
        if d == z3.Z3_OP_MUL:
            r = 1.0
            for x in v:
                r *= x
            return r
        if d == z3.Z3_OP_DIV:
            return v[0] / v[1]
        if d == z3.Z3_OP_UMINUS:
            return -v[0]
        if d == z3.Z3_OP_POWER:
            return v[0] ** v[1]
        if d == z3.Z3_OP_TO_REAL:
            return v[0]
        if d == z3.Z3_OP_TO_INT:
            return float(math.floor(v[0]))
        if d == z3.Z3_OP_NOT:
            return not v[0]
        if d == z3.Z3_OP_LE:
            return v[0] <= v[1]
        if d == z3.Z3_OP_LT:
            return v[0] < v[1]
        if d == z3.Z3_OP_GE:
            return v[0] >= v[1]
        if d == z3.Z3_OP_GT:
            return v[0] > v[1]
        if d == z3.Z3_OP_EQ:
            return v[0] == v[1]
        raise ValueError('term %s' % e.decl().name())


def z3val(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        return z3val(v.approx(20))
    raise Unsupported('model value %s' % v)


def evaluate(ex, vals, x):
    if isinstance(x, (Sym, SymBool)):
        subs = []
        for n, v in ex.inputs.items():
            if n in vals:
                subs.append((v, _val(v, vals[n])))
        e = x.e
        for i in range(ex.fp_count):
            subs.append((z3.Real('fp!%d' % i), z3.RealVal(0)))
        # atoms, in creation order, computed with the concrete functions
        for a in ex.atom_list:
            args = [float(z3val_f(z3.simplify(z3.substitute(t, *subs)))) for t in a.args]
            try:
                if a.name not in _CONCRETE:
                    raise Unsupported('value of ' + a.name)
                r = _CONCRETE[a.name](*args)
            except (ValueError, OverflowError, ZeroDivisionError):
                r = 0.0
            subs.append((a.var, z3.RealVal(Fraction(r))))
        r = z3.simplify(z3.substitute(e, *subs))
        v = z3val(r)
        return v
    return x


def z3val_f(v):
    v = z3val(v)
    return float(v)


def _val(v, x):
    if z3.is_bool(v):
        return z3.BoolVal(bool(x))
    if z3.is_int(v):
        return z3.IntVal(int(x))
    return z3.RealVal(Fraction(x))

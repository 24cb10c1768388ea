"""
Transcendental functions as solver variables with axioms.

Every application f(t) becomes one real variable.  Applications whose
arguments have the same rational normal form share the variable; other pairs
get congruence and (where true) monotonicity axioms.  All axioms are theorems
about the real functions, so an `unsat` answer is sound for real arithmetic;
a model may be spurious, which the replay step detects.
"""
import math
from fractions import Fraction

import z3

from . import core, poly

PI = Fraction(repr(math.pi))


class Atom(object):
    __slots__ = ('name', 'args', 'var', 'own')

    def __init__(self, name, args, var):
        self.name, self.args, self.var = name, args, var


def _cst(x):
    return z3.RealVal(x)


def _const_of(e):
    """(constant term, rest is constant?) of an argument's normal form."""
    try:
        n, d = poly.ratfun(e)
    except poly.TooBig:
        return None, False
    if len(d) != 1:
        return None, False
    m, k = next(iter(d.items()))
    c = n.get(m, Fraction(0)) / k
    return c, (len(n) == (1 if m in n else 0))


def make(ex, name, args):
    S = core.Sym
    a = [core.toreal(core.lift(x)) for x in args]
    if name == 'sqrt':
        if not ex.in_domain(a[0] >= 0):
            return core.NAN
    elif name in ('log', 'log10'):
        if not ex.decide(a[0] > 0):
            return -core.INF if ex.decide(a[0] == 0) else core.NAN
    elif name == 'pow':
        if not ex.decide(a[0] > 0):
            if ex.decide(a[0] == 0):
                return 0.0 if ex.decide(a[1] > 0) else (1.0 if ex.decide(a[1] == 0) else core.INF)
            return core.NAN
    elif name in ('asin', 'acos'):
        if not ex.decide(z3.And(a[0] >= -1, a[0] <= 1)):
            return core.NAN
    if name in ('sin', 'cos', 'tan'):
        return _trig(ex, name, a[0])
    if name == 'tanh' or name == 'atan' or name == 'asin':
        if poly.lead_negative(a[0]):
            return S(-_get(ex, name, [-a[0]]).var)
    if name == 'abs':
        if ex.signs:
            for t in (a[0], -a[0]):
                if ex._check(t < 0, timeout=ex.branch_timeout_ms) == z3.unsat:
                    return S(t)
        f, g = poly.fingerprint(a[0]), poly.fingerprint(-a[0])
        return S(_get(ex, name, [a[0] if f <= g else -a[0]]).var)
    if name == 'log10':
        return core.s_div(make(ex, 'log', args), math.log(10.0))
    if name == 'exp':
        t = _inv(ex, 'log', a[0])
        if t is not None:
            return S(t)
    if name == 'log':
        t = _inv(ex, 'exp', a[0])
        if t is not None:
            return S(t)
    if name == 'pow':
        # (x^p)^q = x^(pq) for x > 0
        t = _base(ex, a[0])
        if t is not None:
            a = [t[0], z3.simplify(t[1] * a[1])]
            if poly.key(a[1]) == poly.key(_cst(1)):
                return S(a[0])
    if name == 'pow' and poly.lead_negative(a[1]):
        return core.s_div(1.0, S(_get(ex, 'pow', [a[0], -a[1]]).var))
    return S(_get(ex, name, a).var)


def _inv(ex, other, e):
    """If e is exactly an atom of the inverse function, its argument."""
    k = poly.key(e)
    for at in ex.atom_list:
        if at.name == other and poly.key(at.var) == k:
            return at.args[0]
    return None


def _base(ex, e):
    """If e is exactly x^p for an atom x^p, or 1/x^p: (x, p)."""
    try:
        n, d = poly.ratfun(e)
    except poly.TooBig:
        return None
    k, r = poly.key(e), None
    if n == poly.ONE and d != poly.ONE:
        r = poly.key(1 / e)
    for at in ex.atom_list:
        if at.name == 'pow':
            kv = poly.key(at.var)
            if kv == k:
                return at.args
            if r is not None and kv == r:
                return [at.args[0], -at.args[1]]
    return None


def _trig(ex, name, x):
    S = core.Sym
    if poly.CANON[0]:
        x = _rounded(x)
    # fold multiples of pi/2 in the constant term
    c, allconst = _const_of(x)
    neg = False
    if poly.CANON[0] and not allconst:
        t = _trig_atan2(ex, x)
        if t is None and c:
            t = _trig_const(ex, x, c)
        if t is not None:
            sn, cn = t
            return sn if name == 'sin' else cn if name == 'cos' else core.s_div(sn, cn)
    if c and not allconst:
        q = c / (PI / 2)
        k = round(q)
        if k and abs(q - k) < Fraction(1, 10 ** 9):
            rest = z3.simplify(x - _cst(c))
            s = _trig(ex, 'sin', rest)
            co = _trig(ex, 'cos', rest)
            k %= 4
            sn = [s, co, core.s_neg(s), core.s_neg(co)][k]
            cn = [co, core.s_neg(s), core.s_neg(co), s][k]
            return sn if name == 'sin' else cn if name == 'cos' else core.s_div(sn, cn)
    if poly.lead_negative(x):
        neg = True
        x = -x
    s = _get(ex, 'sin', [x])
    co = _get(ex, 'cos', [x])
    sv = -s.var if neg else s.var
    if name == 'sin':
        return S(sv)
    if name == 'cos':
        return S(co.var)
    return core.s_div(S(sv), S(co.var))


def _rounded(x):
    """x with its coefficients kept to 13 digits, so that pi/180 is the same number however it was computed"""
    try:
        n, d = poly.ratfun(x)
    except poly.TooBig:
        return x
    if len(d) != 1:
        return x
    r = {m: c if c.denominator == 1 or m in d else Fraction('%.12e' % c) for m, c in n.items()}
    return x if r == n else z3.simplify(poly.to_z3(r) / poly.to_z3(d))


def _trig_const(ex, x, c):
    """sin and cos of rest + c: quarter turns taken out, what remains of c kept to 1e-13"""
    k = round(c / (PI / 2))
    r = Fraction(round((c - k * (PI / 2)) * 10 ** 13), 10 ** 13)
    if not k and r == c:
        return None
    rest = z3.simplify(x - _cst(c) + _cst(r))
    s, co = _trig(ex, 'sin', rest), _trig(ex, 'cos', rest)
    k %= 4
    return [s, co, core.s_neg(s), core.s_neg(co)][k], [co, core.s_neg(s), core.s_neg(co), s][k]


def _trig_atan2(ex, x):
    """sin and cos of rest +- atan2(b, a), by the addition theorem"""
    try:
        n, d = poly.ratfun(x)
    except poly.TooBig:
        return None
    if d != poly.ONE:
        return None
    for at in ex.atom_list:
        if at.name != 'atan2':
            continue
        g = n.get(((poly._names.get(at.var), 1),))
        if g not in (1, -1):
            continue
        rest = z3.simplify(x - at.var if g == 1 else x + at.var)
        b, a = core.Sym(at.args[0]), core.Sym(at.args[1])
        h = make(ex, 'sqrt', [core.s_add(core.s_mul(a, a), core.s_mul(b, b))])
        sn, cn = core.s_div(b, h), core.s_div(a, h)
        if g == -1:
            sn = core.s_neg(sn)
        s, c = _trig(ex, 'sin', rest), _trig(ex, 'cos', rest)
        return (core.s_add(core.s_mul(s, cn), core.s_mul(c, sn)), core.s_sub(core.s_mul(c, cn), core.s_mul(s, sn)))
    return None


def _get(ex, name, a):
    key = (name,) + tuple(poly.key(t) for t in a)
    at = ex.atoms.get(key)
    if at is None:
        at = Atom(name, a, z3.Real('%s!%d' % (name, len(ex.atom_list))))
        ex.atoms[key] = at
        ex.atom_list.append(at)
    if key not in ex._path_atoms:
        for ax in _axioms(ex, at):
            ex.solver.add(ax)
        for other in ex._path_atoms.values():
            for ax in _pair(ex, at, other):
                ex.solver.add(ax)
        ex._path_atoms[key] = at
    return at


def _axioms(ex, at):
    v, a = at.var, at.args
    x = a[0]
    n = at.name
    pi = _cst(PI)
    if n == 'exp':
        return [v > 0, v >= 1 + x, (x == 0) == (v == 1), (x < 0) == (v < 1),
                z3.Implies(x < 1, v * (1 - x) <= 1)]
    if n == 'log':
        return [v <= x - 1, (x > 1) == (v > 0), (x == 1) == (v == 0), v * x >= x - 1]
    if n == 'sqrt':
        return [v >= 0, v * v == x]
    if n == 'sin':
        return [v >= -1, v <= 1, z3.Implies(x == 0, v == 0),
                z3.Implies(z3.And(x > 0, x < pi), v > 0),
                z3.Implies(z3.And(x < 0, x > -pi), v < 0),
                z3.Implies(z3.And(x > pi, x < 2 * pi), v < 0),
                z3.Implies(z3.And(x < -pi, x > -2 * pi), v > 0),
                z3.Implies(x >= 0, v <= x), z3.Implies(x <= 0, v >= x)]
    if n == 'cos':
        h = _cst(PI / 2)
        return [v >= -1, v <= 1, z3.Implies(x == 0, v == 1),
                z3.Implies(z3.And(x < h, x > -h), v > 0),
                z3.Implies(z3.And(x > h, x < 3 * h), v < 0),
                z3.Implies(z3.And(x < -h, x > -3 * h), v < 0),
                z3.Implies(z3.And(x > 3 * h, x < 5 * h), v > 0),
                v >= 1 - x * x / 2]
    if n == 'atan':
        return [v > -_cst(PI / 2), v < _cst(PI / 2) + _cst(Fraction(1, 10 ** 15)),
                (x > 0) == (v > 0), (x == 0) == (v == 0)]
    if n == 'asin':
        h = _cst(PI / 2)
        return [v >= -h, v <= h, (x > 0) == (v > 0), (x == 0) == (v == 0)]
    if n == 'acos':
        return [v >= 0, v <= pi, (x > 0) == (v < _cst(PI / 2)), (x == 1) == (v == 0)]
    if n == 'atan2':
        y, x = a[0], a[1]
        h = _cst(PI / 2)
        return [v >= -pi, v <= pi,
                z3.Implies(y > 0, z3.And(v > 0, v < pi)),
                z3.Implies(y < 0, z3.And(v < 0, v > -pi)),
                z3.Implies(z3.And(y == 0, x >= 0), v == 0),
                z3.Implies(z3.And(y == 0, x < 0), v == pi),
                z3.Implies(x > 0, z3.And(v > -h, v < h)),
                z3.Implies(z3.And(x < 0, y > 0), v > h),
                z3.Implies(z3.And(x < 0, y < 0), v < -h),
                z3.Implies(z3.And(x == 0, y > 0), v == h),
                z3.Implies(z3.And(x == 0, y < 0), v == -h),
                z3.Implies(x > 0, z3.And((y > x) == (v > h / 2), (y < x) == (v < h / 2),
                                         (y > -x) == (v > -h / 2), (y < -x) == (v < -h / 2))),
                z3.Implies(z3.And(x < 0, y > 0), z3.And((y > -x) == (v < 3 * h / 2), (y < -x) == (v > 3 * h / 2))),
                z3.Implies(z3.And(x < 0, y < 0), z3.And((y < x) == (v > -3 * h / 2), (y > x) == (v < -3 * h / 2)))]
    if n == 'pow':
        y = a[1]
        return [v > 0, z3.Implies(z3.Or(x == 1, y == 0), v == 1), z3.Implies(y == 1, v == x),
                z3.Implies(z3.And(y > 0, x > 1), v > 1), z3.Implies(z3.And(y > 0, x < 1), v < 1),
                z3.Implies(z3.And(y < 0, x > 1), v < 1), z3.Implies(z3.And(y < 0, x < 1), v > 1),
                z3.Implies(y == 2, v == x * x)]
    if n == 'abs':
        return [v >= 0, v * v == x * x, z3.Implies(x >= 0, v == x), z3.Implies(x <= 0, v == -x)]
    if n == 'gamma':
        return [z3.Implies(x > 0, v > 0), z3.Implies(z3.Or(x == 1, x == 2), v == 1)]
    if n == 'tanh':
        return [v > -1, v < 1, (x > 0) == (v > 0), (x == 0) == (v == 0)]
    return []


def _pair(ex, p, q):
    if p.name.startswith('u:'):
        return []
    if p.name == q.name:
        v, w = p.var, q.var
        x, y = p.args[0], q.args[0]
        if p.name in ('exp', 'log', 'atan', 'asin', 'tanh'):
            out = [(x < y) == (v < w), (x == y) == (v == w)]
            if p.name == 'exp':
                out += [z3.Implies(x == -y, v * w == 1)]
            return out
        if p.name == 'sqrt':
            return [(x < y) == (v < w), (x == y) == (v == w)]
        if p.name == 'acos':
            return [(x < y) == (v > w), (x == y) == (v == w)]
        if p.name == 'pow':
            a, b = p.args[1], q.args[1]
            return [z3.Implies(z3.And(x == y, a == b), v == w),
                    z3.Implies(z3.And(a == b, a > 0), (x < y) == (v < w)),
                    z3.Implies(z3.And(a == b, a < 0), (x < y) == (v > w)),
                    z3.Implies(z3.And(a == b, a != 0), (x == y) == (v == w)),
                    z3.Implies(z3.And(x == y, x > 1), (a < b) == (v < w)),
                    z3.Implies(z3.And(x == y, x < 1), (a < b) == (v > w)),
                    z3.Implies(z3.And(x * y == 1, a == b), v * w == 1)]
        if p.name == 'atan2':
            y1, x1, y2, x2 = p.args[0], p.args[1], q.args[0], q.args[1]
            return _atan2_sym(p, q) + [
                    z3.Implies(z3.And(y1 == y2, x1 == x2), v == w),
                    z3.Implies(z3.And(y1 == -y2, x1 == x2, y1 != 0), v == -w),
                    z3.Implies(z3.And(y1 > 0, y2 > 0), (x1 * y2 - x2 * y1 > 0) == (v < w)),
                    z3.Implies(z3.And(x1 * y2 == x2 * y1, x1 * x2 + y1 * y2 > 0), v == w)]
        return [z3.Implies(z3.And(*[s == t for s, t in zip(p.args, q.args)]), v == w)]
    if p.name == 'sin' and q.name == 'cos' or p.name == 'cos' and q.name == 'sin':
        if poly.key(p.args[0]) == poly.key(q.args[0]):
            return [p.var * p.var + q.var * q.var == 1]
        return []
    if {p.name, q.name} == {'exp', 'log'}:
        e, l = (p, q) if p.name == 'exp' else (q, p)
        return [(e.args[0] == l.var) == (e.var == l.args[0])]
    return []


def _atan2_sym(p, q):
    """q's argument is p's rotated by a multiple of 90 degrees or mirrored."""
    y1, x1 = p.args
    k = (poly.key(q.args[0]), poly.key(q.args[1]))
    v, w, pi = p.var, q.var, _cst(PI)
    some = z3.Or(x1 != 0, y1 != 0)

    def wrapped(t):         # w is t brought into (-pi, pi]
        return z3.Implies(some, w == z3.If(t > pi, t - 2 * pi, z3.If(t <= -pi, t + 2 * pi, t)))
    for (yy, xx), t in (((-y1, -x1), v + pi), ((x1, -y1), v + pi / 2), ((-x1, y1), v - pi / 2),
                        ((x1, y1), pi / 2 - v), ((-x1, -y1), -pi / 2 - v), ((-y1, x1), -v), ((y1, -x1), pi - v)):
        if (poly.key(yy), poly.key(xx)) == k:
            return [wrapped(t)]
    return []

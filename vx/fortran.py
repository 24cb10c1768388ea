"""
Fortran subroutines as Python functions over symbolic values.

A free-form source file is parsed into Python code: declarations, assignments,
`do` loops, `if` blocks, calls of the file's own functions and subroutines and
the intrinsics below.  Anything else is an
Unsupported error, never ignored.  Reals are exact; default-precision
constants have the value they are written with.  Called as f2py presents the
subroutine: array extents are optional, arrays are updated in place.
"""
import math
import os
import re
import subprocess
import tempfile
import ctypes
from fractions import Fraction

import numpy as np

from . import core, nps
from .core import Unsupported

TOK = re.compile(r'''\s*(?:
    (?P<num>(?:\d+\.\d*|\.\d+|\d+(?=[eEdD.]|\b))(?:[eEdD][+-]?\d+)?(?:_\w+)?)
  | (?P<dot>\.[a-zA-Z]+\.)
  | (?P<name>[A-Za-z_]\w*)
  | (?P<op>\*\*|==|/=|<=|>=|//|=>|[-+*/(),:=<>%])
  | (?P<str>'[^']*'|"[^"]*")
)''', re.X)


def lines(src):
    """logical lines: comments dropped, continuations joined, `;` split"""
    out, cur = [], ''
    for raw in src.split('\n'):
        ln = raw
        q = None
        for i, c in enumerate(raw):
            if q:
                if c == q:
                    q = None
            elif c in '\'"':
                q = c
            elif c == '!':
                ln = raw[:i]
                break
        ln = ln.strip()
        if not ln:
            continue
        if cur:
            ln = cur + ' ' + ln.lstrip('&').strip()
            cur = ''
        if ln.endswith('&'):
            cur = ln[:-1].strip()
            continue
        out += [p.strip() for p in ln.split(';') if p.strip()]
    return out


def tokens(s):
    s = s.replace('.and.', ' .and. ').replace('.or.', ' .or. ').replace('.not.', ' .not. ')
    out, i = [], 0
    while i < len(s):
        if s[i:].strip() == '':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('Fortran text %r' % s[i:i + 40])
        k = m.lastgroup
        t = m.group(k)
        # "2.and." style: a dot operator after an integer is split above; 1.d0, 2., .5 stay numbers
        out.append((k, t))
        i = m.end()
    return out


DOT = {'.and.': 'and', '.or.': 'or', '.not.': 'not', '.true.': 'True', '.false.': 'False', '.lt.': '<', '.le.': '<=',
       '.gt.': '>', '.ge.': '>=', '.eq.': '==', '.ne.': '!=', '.eqv.': '==', '.neqv.': '!='}


class Expr(object):
    """expression -> Python source"""

    def __init__(self, sub, toks):
        self.sub, self.t, self.i = sub, toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def take(self, v=None):
        k, t = self.peek()
        if v is not None and t != v:
            raise Unsupported('expected %r, found %r' % (v, t))
        self.i += 1
        return k, t

    def dot(self):
        k, t = self.peek()
        return DOT.get(t.lower()) if k == 'dot' else None

    def parse(self):
        r = self.p_or()
        return r

    def p_or(self):
        r = self.p_and()
        while self.dot() == 'or':
            self.take()
            r = '_or(%s, lambda: %s)' % (r, self.p_and())
        return r

    def p_and(self):
        r = self.p_not()
        while self.dot() == 'and':
            self.take()
            r = '_and(%s, lambda: %s)' % (r, self.p_not())
        return r

    def p_not(self):
        if self.dot() == 'not':
            self.take()
            return '_not(%s)' % self.p_not()
        return self.p_cmp()

    def p_cmp(self):
        a = self.p_sum()
        k, t = self.peek()
        op = t if k == 'op' and t in ('==', '/=', '<', '<=', '>', '>=') else \
            (self.dot() if self.dot() in ('<', '<=', '>', '>=', '==', '!=') else None)
        if op is None:
            return a
        self.take()
        b = self.p_sum()
        return '_cmp(%r, %s, %s)' % ({'/=': '!='}.get(op, op), a, b)

    def p_sum(self):
        k, t = self.peek()
        if k == 'op' and t in '+-':
            self.take()
            r = self.p_term()
            if t == '-':
                r = '_neg(%s)' % r
        else:
            r = self.p_term()
        while True:
            k, t = self.peek()
            if k == 'op' and t in ('+', '-'):
                self.take()
                r = '_%s(%s, %s)' % ('add' if t == '+' else 'sub', r, self.p_term())
            else:
                return r

    def p_term(self):
        r = self.p_pow()
        while True:
            k, t = self.peek()
            if k == 'op' and t in ('*', '/'):
                self.take()
                r = '_%s(%s, %s)' % ('mul' if t == '*' else 'div', r, self.p_pow())
            else:
                return r

    def p_pow(self):
        a = self.p_atom()
        k, t = self.peek()
        if k == 'op' and t == '**':
            self.take()
            k, t = self.peek()
            if k == 'op' and t in '+-':     # x ** -y, a common extension
                self.take()
                b = self.p_pow()
                return '_pow(%s, %s)' % (a, '_neg(%s)' % b if t == '-' else b)
            return '_pow(%s, %s)' % (a, self.p_pow())
        return a

    def args(self):
        self.take('(')
        out = []
        while self.peek()[1] != ')':
            k, t = self.peek()
            if k == 'name' and self.i + 1 < len(self.t) and self.t[self.i + 1][1] == '=':
                self.i += 2         # keyword, e.g. kind=8
                if t.lower() != 'kind':
                    raise Unsupported('keyword argument %s' % t)
                self.parse()
            else:
                if t == ':':
                    raise Unsupported('array section')
                out.append(self.parse())
            if self.peek()[1] == ',':
                self.take()
            elif self.peek()[1] == ':':
                raise Unsupported('array section')
        self.take(')')
        return out

    def p_atom(self):
        k, t = self.take()
        if k == 'num':
            return literal(t)
        if k == 'dot':
            v = DOT.get(t.lower())
            if v in ('True', 'False'):
                return v
            raise Unsupported('operator %s' % t)
        if t == '(':
            r = self.parse()
            if self.peek()[1] == ',':
                self.take()
                im = self.parse()
                self.take(')')
                return '_cmplx(%s, %s)' % (r, im)
            self.take(')')
            return r
        if k == 'name':
            n = t.lower()
            if self.peek()[1] == '(':
                a = self.args()
                if n in self.sub.arrays:
                    return '%s.get(%s)' % (self.sub.py(n), ', '.join(a))
                if n in self.sub.units:
                    return '_call(%r, [%s])' % (n, ', '.join(a))
                if n in self.sub.types:
                    raise Unsupported('%s is not an array' % t)
                if n not in INTRINSICS:
                    raise Unsupported('function %s' % t)
                return '_f[%r](%s)' % (n, ', '.join(a))
            self.sub.see(n)
            return self.sub.py(n)
        raise Unsupported('Fortran token %r' % t)


def literal(t):
    t = t.lower().split('_')[0]
    if re.fullmatch(r'\d+', t):
        return t
    return '_lit(%r)' % t.replace('d', 'e')


class Arr(object):
    """1-based view of an array; the second index of a matrix is the column"""

    def __init__(self, name, a, dims):
        self.name, self.a, self.dims = name, a, dims

    def _ix(self, ix):
        if len(ix) != len(self.dims):
            raise Unsupported('rank of %s' % self.name)
        out = []
        for i, d in zip(ix, self.dims):
            i, d = int(i), int(d)
            if not 1 <= i <= d:
                raise IndexError('%s(%s) outside 1..%d' % (self.name, i, d))
            out.append(i - 1)
        return tuple(out)

    def get(self, *ix):
        ix = self._ix(ix)
        v = self.a[ix]
        if v is None:
            raise Unsupported('%s read before it is set' % self.name)
        return v

    def peek(self, *ix):
        v = self.a[self._ix(ix)]
        return 0.0 if v is None else v

    def set(self, v, *ix):
        self.a[self._ix(ix)] = v


def _isint(x):
    if isinstance(x, bool):
        return False
    return isinstance(x, (int, np.integer)) or (isinstance(x, core.Sym) and core.z3.is_int(x.e))


def _div(a, b):
    if _isint(a) and _isint(b):
        if core.isconc(a) and core.isconc(b):
            q = abs(a) // abs(b)
            return q if (a >= 0) == (b >= 0) else -q
        return core.s_trunc(core.s_div(a, b))
    return core.s_div(a, b)


def _pow(a, b):
    if core.isconc(a) and _isint(a) and _isint(b) and b < 0:
        raise Unsupported('integer power')
    return core.s_pow(a, b)


def _cmp(op, a, b):
    return {'==': core.s_eq, '!=': core.s_ne, '<': core.s_lt, '<=': core.s_le, '>': core.s_gt,
            '>=': core.s_ge}[op](a, b)


def _and(a, b):
    a, b = core.lbool(a), core.lbool(b())
    return core.mkb(core.z3.And(a, b))


def _or(a, b):
    a, b = core.lbool(a), core.lbool(b())
    return core.mkb(core.z3.Or(a, b))


def _not(a):
    return core.mkb(core.z3.Not(core.lbool(a)))


def _sign(a, b):
    """|a| with the sign of b (zero counts as positive)"""
    m = core.s_abs(a)
    if core.isconc(b):
        return m if b >= 0 else core.s_neg(m)
    return m if bool(core.s_ge(b, 0)) else core.s_neg(m)


def _real(v):
    if core.iscx(v):
        return core.cx(v).real
    return core.tofloat(v)


def _fold(f):
    def g(*a):
        r = a[0]
        for x in a[1:]:
            r = f(r, x)
        return r
    return g


def _mod(a, b):
    return core.s_sub(a, core.s_mul(core.s_trunc(core.s_div(a, b)), b))


def _cmplx(a, b=0.0, kind=None):
    return core.SC(_real(a), _real(b))


def _u(n):
    return lambda x: core.fn(n, x)


INTRINSICS = {
    'sin': _u('sin'), 'cos': _u('cos'), 'tan': _u('tan'), 'asin': _u('asin'), 'acos': _u('acos'), 'atan': _u('atan'),
    'exp': _u('exp'), 'log': _u('log'), 'log10': _u('log10'), 'sqrt': _u('sqrt'), 'tanh': _u('tanh'),
    'abs': core.s_abs, 'sign': _sign, 'atan2': lambda y, x: core.fn('atan2', y, x),
    'max': _fold(core.s_max), 'min': _fold(core.s_min), 'mod': _mod,
    'real': lambda v, k=None: _real(v), 'dble': _real, 'realpart': _real, 'int': lambda v, k=None: core.s_trunc(v),
    'floor': lambda v: core.s_floor(v), 'aimag': lambda v: core.cx(v).imag, 'imagpart': lambda v: core.cx(v).imag,
    'dimag': lambda v: core.cx(v).imag, 'conjg': lambda v: core.cx(v).conjugate(), 'cmplx': _cmplx,
    'merge': lambda a, b, m: core.ite(m, a, b), 'hypot': lambda a, b: core.fn('sqrt', core.s_add(
        core.s_mul(a, a), core.s_mul(b, b))),
}
for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'sqrt', 'abs', 'sign', 'atan2', 'tanh', 'mod',
           'max1', 'min1', 'cmplx', 'real'):
    if _n in INTRINSICS:
        INTRINSICS['d' + _n] = INTRINSICS[_n]
INTRINSICS['dcmplx'] = _cmplx


def _lit(t):
    f = Fraction(t)
    return float(f) if Fraction(repr(float(f))) == f else core.Sym(core.z3.RealVal(f))


COERCE = {
    'real': lambda v: _real(v),
    'integer': lambda v: v if _isint(v) else core.s_trunc(v),
    'complex': lambda v: core.cx(v),
    'logical': lambda v: v,
}


HEAD = re.compile(r'((?:(?:pure|elemental|recursive)\s+)*)(.*?)\b(subroutine|function)\s+(\w+)\s*(?:\(([^)]*)\))?'
                  r'\s*(?:result\s*\(\s*(\w+)\s*\))?\s*$', re.I)


class Subroutine(object):
    """a subroutine or function; `units` are the names of the file's own procedures"""

    def __init__(self, head, body, units, table, host=None):
        m = HEAD.match(head)
        if not m:
            raise Unsupported(head)
        self.name = m.group(4).lower()
        self.params = [a.strip().lower() for a in (m.group(5) or '').split(',') if a.strip()]
        self.units, self.host = units, host
        self.types, self.dims, self.intent = {}, {}, {}
        self.constants = []
        self.result = None
        if m.group(3).lower() == 'function':
            self.result = (m.group(6) or self.name).lower()
            if m.group(2).strip():
                dm = self.DECL.match(m.group(2).strip())
                if not dm:
                    raise Unsupported(head)
                kind = dm.group(1).lower()
                self.types[self.result] = 'real' if kind.startswith(('double', 'real')) else \
                    kind.split('(')[0].split('*')[0].strip()
        elif m.group(2).strip():
            raise Unsupported(head)
        self.arrays = set()
        self.assigned = set()
        self.implicit_none = False
        self.code = ['def %s_(%s):' % (self.name, ', '.join('v_' + p for p in self.params))]
        rest = self.declarations(body)
        self.hidden = []        # extents that f2py works out from the arrays
        for p in self.params:
            if self.types.get(p) == 'integer' and p not in self.arrays and any(
                    p in [d.lower() for d in self.dims[a]] for a in self.params if a in self.arrays):
                self.hidden.append(p)
        for p in self.params:
            if p in self.arrays:
                self.code.append('    v_%s = Arr(%r, v_%s, (%s,))' % (p, p, p, ', '.join(
                    Expr(self, tokens(d)).parse() for d in self.dims[p])))
            else:
                self.code.append('    v_%s = _co[%r](v_%s)' % (p, self.type(p), p))
        for a in sorted(self.arrays - set(self.params)):
            self.code.append('    v_%s = _new(%r, (%s,))' % (a, a, ', '.join(
                Expr(self, tokens(d)).parse() for d in self.dims[a])))
        for n, e in self.constants:
            self.statement(0, '%s = %s' % (n, e))
        if self.result:
            self.type(self.result)
        else:
            for p in self.params:
                self.type(p)
        self.block(rest)
        self.code.append('    ' + self.leave())
        self.source = '\n'.join(self.code)
        g = dict(Arr=Arr, _div=_div, _pow=_pow, _cmp=_cmp, _and=_and, _or=_or, _not=_not, _f=INTRINSICS, _lit=_lit,
                 _co=COERCE, _add=core.s_add, _sub=core.s_sub, _mul=core.s_mul, _neg=core.s_neg, _cmplx=_cmplx,
                 _new=lambda n, d: Arr(n, np.full([int(x) for x in d], None, dtype=object), d), int=int, bool=bool,
                 range=range, _call=lambda n, a: table[n].function(a), _do=lambda n, a: table[n].inner(a))
        exec(compile(self.source, '<%s>' % self.name, 'exec'), g)
        self.func = g[self.name + '_']

    def leave(self):
        if self.result:
            return 'return v_%s' % self.result
        return 'return (%s)' % ''.join('v_%s, ' % p for p in self.params)

    def function(self, args):
        if not self.result:
            raise Unsupported('%s is no function' % self.name)
        return self._inner(args)

    def inner(self, args):
        if self.result:
            raise Unsupported('%s is a function' % self.name)
        return self._inner(args)

    def _inner(self, args):
        """called from Fortran: arrays as they are, scalars by value (and handed back)"""
        if len(args) != len(self.params):
            raise Unsupported('arguments of %s' % self.name)
        out = []
        for p, v in zip(self.params, args):
            if isinstance(v, Arr) != (p in self.arrays):
                raise Unsupported('argument %s of %s' % (p, self.name))
            if isinstance(v, Arr):
                if v.a.ndim != len(self.dims[p]):
                    raise Unsupported('rank of %s in %s' % (p, self.name))
                v = v.a
            out.append(v)
        return self.func(*out)

    def py(self, n):
        return 'v_' + n

    def see(self, n):
        self.type(n)

    def type(self, n):
        t = self.types.get(n)
        if t:
            return t
        if self.implicit_none or (self.host is not None and n in self.host.types):
            raise Unsupported('undeclared name %s' % n)
        return 'integer' if n[0] in 'ijklmn' else 'real'

    DECL = re.compile(r'(double\s*precision|real(?:\s*\*\s*8|\s*\([^)]*\))?|integer(?:\s*\*\s*\d|\s*\([^)]*\))?|'
                      r'logical|complex\s*(?:\*\s*16|\([^)]*\))?)\s*(.*)$', re.I)

    def declarations(self, body):
        i = 0
        for i, ln in enumerate(body):
            if re.match(r'implicit\s+none', ln, re.I):
                self.implicit_none = True
                continue
            if re.match(r'use\s', ln, re.I):
                raise Unsupported(ln)
            m = self.DECL.match(ln)
            if not m or re.match(r'\w+\s*(\([^)]*\))?\s*=[^=]', ln):
                return body[i:]
            kind = m.group(1).lower()
            t = 'real' if kind.startswith(('double', 'real')) else kind.split('(')[0].split('*')[0].strip()
            rest = m.group(2)
            attrs, names = (rest.split('::', 1) + [None])[:2] if '::' in rest else ('', rest)
            dims = None
            am = re.search(r'dimension\s*\(([^)]*)\)', attrs, re.I)
            if am:
                dims = [d.strip() for d in am.group(1).split(',')]
            if re.search(r'allocatable|pointer|save', attrs, re.I):
                raise Unsupported(ln)
            if re.search('parameter', attrs, re.I):
                for part in split_top(names):
                    n, _, e = part.partition('=')
                    if not e or dims or '(' in n:
                        raise Unsupported(ln)
                    self.types[n.strip().lower()] = t
                    self.constants.append((n.strip(), e.strip()))
                continue
            im = re.search(r'intent\s*\(\s*(\w+)\s*\)', attrs, re.I)
            for n in re.findall(r'(\w+)\s*(?:\(([^)]*)\))?\s*(?:,|$)', names.strip()):
                nm = n[0].lower()
                if '=' in names:
                    raise Unsupported(ln)
                self.types[nm] = t
                d = [x.strip() for x in n[1].split(',')] if n[1] else dims
                if d:
                    self.arrays.add(nm)
                    self.dims[nm] = d
                if im:
                    self.intent[nm] = im.group(1).lower()
        return []

    def emit(self, d, s):
        self.code.append('    ' * (d + 1) + s)

    def cond(self, s):
        return 'bool(%s)' % Expr(self, tokens(s)).parse()

    def block(self, body):
        d = 0
        stack = []
        for ln in body:
            low = re.sub(r'\s+', ' ', ln.lower())
            if re.match(r'end ?do\b', low):
                if stack.pop()[0] != 'do':
                    raise Unsupported(ln)
                d -= 1
                continue
            if re.match(r'end ?if\b', low):
                if stack.pop()[0] != 'if':
                    raise Unsupported(ln)
                d -= 1
                continue
            m = re.match(r'else ?if\s*\((.*)\)\s*then$', ln, re.I)
            if m:
                self.emit(d - 1, 'elif %s:' % self.cond(m.group(1)))
                self.emit(d, 'pass')
                continue
            if low == 'else':
                self.emit(d - 1, 'else:')
                self.emit(d, 'pass')
                continue
            m = re.match(r'do\s+(\w+)\s*=\s*(.*)$', ln, re.I)
            if m:
                ps = split_top(m.group(2))
                e = [Expr(self, tokens(p)).parse() for p in ps]
                if len(e) not in (2, 3):
                    raise Unsupported(ln)
                st = e[2] if len(e) == 3 else '1'
                v = m.group(1).lower()
                self.emit(d, 'for v_%s in range(int(%s), int(%s) + (1 if int(%s) > 0 else -1), int(%s)):'
                          % (v, e[0], e[1], st, st))
                self.emit(d + 1, 'pass')
                stack.append(('do',))
                d += 1
                continue
            m = re.match(r'if\s*(\(.*)$', ln, re.I)
            if m and not re.match(r'if\s*(\([^()]*\))?\s*=', ln, re.I):
                inner, tail = paren(m.group(1))
                if tail.lower() == 'then':
                    self.emit(d, 'if %s:' % self.cond(inner))
                    self.emit(d + 1, 'pass')
                    stack.append(('if',))
                    d += 1
                else:
                    self.emit(d, 'if %s:' % self.cond(inner))
                    self.statement(d + 1, tail)
                continue
            self.statement(d, ln)
        if stack:
            raise Unsupported('unterminated block')

    def statement(self, d, ln):
        low = ln.lower()
        if low in ('return',):
            self.emit(d, self.leave())
            return
        m = re.match(r'call\s+(\w+)\s*(\(.*\))?$', ln, re.I)
        if m:
            self.call(d, m.group(1).lower(), (m.group(2) or '()')[1:-1])
            return
        if low in ('cycle', 'exit'):
            self.emit(d, {'cycle': 'continue', 'exit': 'break'}[low])
            return
        if low == 'continue':
            self.emit(d, 'pass')
            return
        m = re.match(r'(\w+)\s*(\([^=]*\))?\s*=(?!=)\s*(.*)$', ln)
        if not m:
            raise Unsupported('Fortran statement: %s' % ln)
        n = m.group(1).lower()
        rhs = Expr(self, tokens(m.group(3)))
        e = rhs.parse()
        if rhs.i != len(rhs.t):
            raise Unsupported('Fortran expression: %s' % m.group(3))
        e = '_co[%r](%s)' % (self.type(n), e)
        if n in self.params and self.intent.get(n) == 'in':
            raise Unsupported('assignment to the input %s' % n)
        if m.group(2):
            if n not in self.arrays:
                raise Unsupported('%s is not an array' % n)
            ix = Expr(self, tokens(m.group(2))).args()
            self.emit(d, 'v_%s.set(%s, %s)' % (n, e, ', '.join(ix)))
        elif n in self.arrays:
            raise Unsupported('whole-array assignment')
        else:
            self.emit(d, 'v_%s = %s' % (n, e))

    def call(self, d, n, args):
        if n not in self.units:
            raise Unsupported('call of %s' % n)
        args = [a.strip() for a in split_top(args) if a.strip()]
        es = []
        for a in args:
            x = Expr(self, tokens(a))
            es.append(x.parse())
            if x.i != len(x.t):
                raise Unsupported('Fortran expression: %s' % a)
        self.emit(d, '_r = _do(%r, [%s])' % (n, ', '.join(self.maybe(a, e) for a, e in zip(args, es))))
        for k, a in enumerate(args):
            low = a.lower()
            if low in self.arrays:
                continue
            if re.fullmatch(r'\w+', a) and not re.fullmatch(r'[\d.].*', a):
                if not (low in self.params and self.intent.get(low) == 'in'):
                    self.emit(d, 'v_%s = _co[%r](_r[%d])' % (low, self.type(low), k))
                continue
            m = re.fullmatch(r'(\w+)\s*(\(.*\))', a)
            if m and m.group(1).lower() in self.arrays:
                v = m.group(1).lower()
                if not (v in self.params and self.intent.get(v) == 'in'):
                    self.emit(d, 'v_%s.set(_co[%r](_r[%d]), %s)' % (v, self.type(v), k, ', '.join(
                        Expr(self, tokens(m.group(2))).args())))

    def maybe(self, a, e):
        """an output variable need not have a value yet"""
        if re.fullmatch(r'[A-Za-z_]\w*', a) and a.lower() not in self.arrays:
            v = 'v_' + a.lower()
            self.code.insert(1, '    %s = locals().get(%r, 0.0)' % (v, v)) if a.lower() not in self.params else None
        m = re.fullmatch(r'(\w+)\s*(\(.*\))', a)
        if m and m.group(1).lower() in self.arrays:
            return e.replace('.get(', '.peek(', 1)
        return e

    def __call__(self, *args):
        """as f2py presents it: extents last and optional, arrays in place"""
        main = [p for p in self.params if p not in self.hidden]
        if not len(main) <= len(args) <= len(self.params):
            raise TypeError('%s() takes %d to %d arguments (%d given)' % (self.name, len(main), len(self.params),
                                                                         len(args)))
        v = dict(zip(main + self.hidden, args))
        ext = {}
        for p in main:
            if p in self.arrays:
                a = v[p]
                if not isinstance(a, np.ndarray):
                    a = nps.sarr(a)
                if a.ndim != len(self.dims[p]):
                    if a.ndim == 1 or len(self.dims[p]) == 1:
                        raise ValueError('%s: rank of %s' % (self.name, p))
                if self.intent.get(p) in ('inout', 'out') and not a.flags.f_contiguous:
                    raise ValueError('failed to initialize intent(inout) array -- input not fortran contiguous')
                v[p] = a
                for d, k in zip(self.dims[p], a.shape):
                    ext.setdefault(d.lower(), k)
        for h in self.hidden:
            v.setdefault(h, ext[h])
            if int(v[h]) > ext[h]:
                raise ValueError('%s: extent %s' % (self.name, h))
        for p in main:
            if p in self.arrays:
                for d, k in zip(self.dims[p], v[p].shape):
                    if d.lower() in v and int(v[d.lower()]) > k:
                        raise ValueError('%s: shape of %s' % (self.name, p))
        self.func(*[v[p] for p in self.params])


def split_top(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
            continue
        d += (c == '(') - (c == ')')
        cur += c
    return out + [cur]


def paren(s):
    d = 0
    for i, c in enumerate(s):
        d += (c == '(') - (c == ')')
        if d == 0:
            return s[1:i], s[i + 1:].strip()
    raise Unsupported(s)


def load(path):
    """{name: Subroutine} of a source file"""
    with open(path) as fh:
        ls = lines(fh.read())
    units, i = [], 0

    def unit(i, host):
        head, body, inner = ls[i], [], []
        if not HEAD.match(head) or re.match(r'end\b', head, re.I):
            raise Unsupported('Fortran program unit: %s' % head)
        i += 1
        while i < len(ls):
            ln = ls[i]
            if re.match(r'end(\s*(subroutine|function)\b.*)?$', ln, re.I):
                me = [head, body, host]
                units.append(me)
                for k in inner:
                    k[2] = me
                return i + 1, me
            if re.match(r'contains$', ln, re.I):
                i += 1
                while not re.match(r'end(\s*(subroutine|function)\b.*)?$', ls[i], re.I):
                    i, k = unit(i, None)
                    inner.append(k)
                continue
            body.append(ln)
            i += 1
        raise Unsupported('unterminated %s' % head)
    while i < len(ls):
        i, _ = unit(i, None)
    names = {HEAD.match(u[0]).group(4).lower() for u in units}
    if len(names) != len(units):
        raise Unsupported('two procedures of one name')
    table, made = {}, {}

    def make(u):
        if id(u) not in made:
            s = made[id(u)] = Subroutine(u[0], u[1], names, table, make(u[2]) if u[2] else None)
            table[s.name] = s
        return made[id(u)]
    for u in units:
        make(u)
    return {n: s for n, s in table.items() if s.host is None and not s.result}


class Compiled(object):
    """The same file compiled with gfortran into a scratch folder, called through ctypes (for replay)."""

    def __init__(self, path):
        self.subs = load(path)
        self.dir = tempfile.TemporaryDirectory(prefix='vxf')
        so = os.path.join(self.dir.name, 'k.so')
        subprocess.run(['/usr/bin/gfortran', '-O2', '-fPIC', '-shared', '-w', path, '-o', so], check=True,
                       cwd=self.dir.name)
        self.lib = ctypes.CDLL(so)

    def __getattr__(self, name):
        sub = self.subs[name]
        cf = getattr(self.lib, name + '_')

        def call(*args):
            main = [p for p in sub.params if p not in sub.hidden]
            v = dict(zip(main + sub.hidden, args))
            if len(args) < len(main):
                raise TypeError(name)
            keep, ext, back = {}, {}, []
            for p in main:
                if p in sub.arrays:
                    a = v[p]
                    b = np.asfortranarray(a, dtype=np.float64)
                    if sub.intent.get(p) in ('inout', 'out') and not a.flags.f_contiguous:
                        raise ValueError('failed to initialize intent(inout) array -- input not fortran contiguous')
                    if b is not a:
                        back.append((a, b))
                    keep[p] = b
                    for d, k in zip(sub.dims[p], b.shape):
                        ext.setdefault(d.lower(), k)
            for h in sub.hidden:
                v.setdefault(h, ext[h])
            cargs = []
            for p in sub.params:
                if p in keep:
                    cargs.append(keep[p].ctypes.data_as(ctypes.c_void_p))
                elif sub.type(p) == 'integer':
                    cargs.append(ctypes.byref(ctypes.c_int(int(v[p]))))
                else:
                    cargs.append(ctypes.byref(ctypes.c_double(float(v[p]))))
            cf(*cargs)
        return call

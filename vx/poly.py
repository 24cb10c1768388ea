"""Canonical rational functions of z3 arithmetic terms (normal forms)."""
from fractions import Fraction

import z3

ONE = {(): Fraction(1)}
ZERO = {}
LIMIT = 4000


class TooBig(Exception):
    pass


def padd(a, b):
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def _mmul(m, n):
    d = dict(m)
    for v, p in n:
        d[v] = d.get(v, 0) + p
    return tuple(sorted((v, p) for v, p in d.items() if p))


def pmul(a, b):
    if len(a) * len(b) > LIMIT * 50:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = _mmul(m, n)
            s = r.get(k, 0) + c * d
            if s:
                r[k] = s
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


class Names(object):
    """Stable integer names for leaf terms."""

    def __init__(self):
        self.by_id = {}
        self.keep = []

    def get(self, t):
        k = t.sexpr()
        if k not in self.by_id:
            self.by_id[k] = len(self.by_id)
            self.keep.append(t)
        return self.by_id[k]

    def term(self, i):
        return self.keep[i]


_names = Names()


def ratfun(e, cache=None):
    """(num, den) of a z3 arithmetic term, as polynomial dictionaries."""
    if cache is None:
        cache = {}
    k = e.get_id()
    if k in cache:
        return cache[k][1]
    r = _ratfun(e, cache)
    cache[k] = (e, r)
    return r


def _cancel(n, d):
    """Cancel the monomial content and single-term denominators."""
    if not n:
        return {}, dict(ONE)
    # common monomial of all terms
    def content(p):
        it = iter(p)
        c = dict(next(it))
        for m in it:
            md = dict(m)
            c = {v: min(q, md.get(v, 0)) for v, q in c.items()}
            c = {v: q for v, q in c.items() if q}
            if not c:
                break
        return c
    cn, cd = content(n), content(d)
    g = {v: min(q, cd.get(v, 0)) for v, q in cn.items()}
    g = {v: q for v, q in g.items() if q}
    if g:
        def dv(p):
            return {tuple(sorted((v, q - g.get(v, 0)) for v, q in m if q - g.get(v, 0))): c
                    for m, c in p.items()}
        n, d = dv(n), dv(d)
    lead = d[max(d)]
    if lead != 1:
        n, d = pscale(n, 1 / lead), pscale(d, 1 / lead)
    return n, d


def _ratfun(e, cache):
    if z3.is_rational_value(e) or z3.is_int_value(e):
        f = Fraction(e.as_string())
        return ({(): f} if f else {}), ONE
    d = e.decl().kind()
    ch = e.children()
    if d == z3.Z3_OP_ADD:
        n, q = {}, ONE
        for c in ch:
            cn, cq = ratfun(c, cache)
            if cq == q:
                n = padd(n, cn)
            else:
                n = padd(pmul(n, cq), pmul(cn, q))
                q = pmul(q, cq)
                n, q = _cancel(n, q)
        return _cancel(n, q)
    if d == z3.Z3_OP_SUB:
        n, q = ratfun(ch[0], cache)
        for c in ch[1:]:
            cn, cq = ratfun(c, cache)
            if cq == q:
                n = padd(n, pscale(cn, -1))
            else:
                n = padd(pmul(n, cq), pscale(pmul(cn, q), -1))
                q = pmul(q, cq)
        return _cancel(n, q)
    if d == z3.Z3_OP_UMINUS:
        n, q = ratfun(ch[0], cache)
        return pscale(n, -1), q
    if d == z3.Z3_OP_MUL:
        n, q = ONE, ONE
        for c in ch:
            cn, cq = ratfun(c, cache)
            n, q = pmul(n, cn), pmul(q, cq)
        return _cancel(n, q)
    if d == z3.Z3_OP_DIV:
        a, b = ratfun(ch[0], cache), ratfun(ch[1], cache)
        if b[0]:
            return _cancel(pmul(a[0], b[1]), pmul(a[1], b[0]))
    if d == z3.Z3_OP_TO_REAL:
        return ratfun(ch[0], cache)
    if d == z3.Z3_OP_POWER and (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])):
        f = Fraction(ch[1].as_string())
        if f.denominator == 1 and 0 <= f <= 8:
            a = ratfun(ch[0], cache)
            n, q = ONE, ONE
            for _ in range(int(f)):
                n, q = pmul(n, a[0]), pmul(q, a[1])
            return n, q
    s = z3.simplify(e)
    return {((_names.get(s), 1),): Fraction(1)}, ONE


PRIMES = ((1 << 61) - 1, (1 << 89) - 1)
_fpmemo = {}


def fingerprint(e):
    """Value of a term, as a rational function of its leaves, at one random point of each of two prime
    fields.  Terms equal as rational functions have equal values; unequal ones differ except with a
    probability below 2**-120 or so."""
    k = e.get_id()
    r = _fpmemo.get(k)
    if r is None:
        r = _fp(e)
        if len(_fpmemo) > 400000:
            _fpmemo.clear()
        _fpmemo[k] = (e, r)
        return r
    return r[1]


def _fp(e):
    if z3.is_rational_value(e) or z3.is_int_value(e):
        f = Fraction(e.as_string())
        return tuple(f.numerator * pow(f.denominator, -1, p) % p for p in PRIMES)
    d = e.decl().kind()
    ch = e.children()
    if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL):
        v = [fingerprint(c) for c in ch]
        out = []
        for i, p in enumerate(PRIMES):
            x = v[0][i]
            if d == z3.Z3_OP_UMINUS:
                x = -x
            for y in v[1:]:
                if d == z3.Z3_OP_ADD:
                    x += y[i]
                elif d == z3.Z3_OP_SUB:
                    x -= y[i]
                elif d == z3.Z3_OP_MUL:
                    x = x * y[i] % p
                else:
                    if y[i] == 0:
                        return _leaf(e)
                    x = x * pow(y[i], -1, p)
            out.append(x % p)
        return tuple(out)
    if d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) or d == z3.Z3_OP_POWER and z3.is_int_value(ch[1]):
        f = Fraction(ch[1].as_string())
        if f.denominator == 1 and f >= 0:
            v = fingerprint(ch[0])
            return tuple(pow(x, int(f), p) for x, p in zip(v, PRIMES))
    return _leaf(e)


def _leaf(e):
    import hashlib
    h = hashlib.sha512(z3.simplify(e).sexpr().encode()).digest()
    return tuple(int.from_bytes(h[i * 24:i * 24 + 24], 'big') % p for i, p in enumerate(PRIMES))


def identical(a, b):
    return fingerprint(a) == fingerprint(b)


_REL = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>', z3.Z3_OP_EQ: '='}


def comparison(e):
    """(form, relations) of a comparison of two terms: the sign of the form that makes it true; None for
    anything else.  A form and its negation share one entry."""
    neg = False
    while z3.is_not(e):
        neg = not neg
        e = e.arg(0)
    k = e.decl().kind()
    if k not in _REL or not z3.is_arith(e.arg(0)):
        return None
    rel = set(_REL[k])
    if neg:
        rel = {'<', '=', '>'} - rel
    a, b = fingerprint(e.arg(0)), fingerprint(e.arg(1))
    d = tuple((x - y) % p for x, y, p in zip(a, b, PRIMES))
    n = tuple((-x) % p for x, p in zip(d, PRIMES))
    if n < d:
        d = n
        rel = {{'<': '>', '>': '<', '=': '='}[r] for r in rel}
    return d, frozenset(rel)


CANON = [False]


def key(e):
    """Hashable canonical form."""
    if CANON[0]:
        return fingerprint(e)
    try:
        n, d = ratfun(e)
    except TooBig:
        return ('fp',) + fingerprint(e)
    return (tuple(sorted(n.items())), tuple(sorted(d.items())))


def lead_negative(e):
    try:
        n, d = ratfun(e)
    except TooBig:
        return False
    if not n:
        return False
    return n[max(n)] < 0


def to_z3(p):
    ts = []
    for m, c in sorted(p.items()):
        t = z3.RealVal(c)
        for v, q in m:
            x = _names.term(v)
            x = z3.ToReal(x) if z3.is_int(x) else x
            for _ in range(q):
                t = t * x
        ts.append(t)
    return z3.Sum(ts) if ts else z3.RealVal(0)


def equal_query(a, b):
    """The polynomial whose vanishing is equality of two rational terms."""
    n1, d1 = ratfun(a)
    n2, d2 = ratfun(b)
    if d1 == d2:
        diff = padd(n1, pscale(n2, -1))
    else:
        diff = padd(pmul(n1, d2), pscale(pmul(n2, d1), -1))
    return diff

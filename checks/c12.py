"""Return levels: L-moments, fitted distributions and the wind speeds read off them."""
import math
import os
import sys
import types
import warnings
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from scipy import optimize, special
from vx.check import Check, close
from vx import core, loader, nps

warnings.simplefilter('ignore')
chk = Check('C12', assumptions=[
    'arithmetic on reals; floating-point rounding of the constants is covered by the stated tolerances',
    'log, power and gamma are arbitrary functions with the ordering and inverse laws of the real ones',
    'the maximum-likelihood fit of exceedances and the least-squares power-law fit return arbitrary parameters',
    'the percentile used as threshold is an arbitrary number between the smallest and the largest record'])
NMAX = 12 if chk.thorough else 8
LM = 'Utilities.lmomentFit'
EVD, GPD = 'hazard.evd', 'hazard.GPD'


def comb(n, k):
    return math.comb(n, k)


def lmoments(x, top):
    """sample L-moments of ascending data from probability-weighted moments (Hosking 1990), exact weights"""
    n = len(x)
    b = []
    for r in range(top):
        t = 0
        for i in range(n):
            t = t + x[i] * Fraction(comb(i, r), n * comb(n - 1, r))
        b.append(t)
    out = []
    for r in range(top):
        t = 0
        for k in range(r + 1):
            t = t + b[k] * Fraction((-1) ** (r - k) * comb(r, k) * comb(r + k, k))
        out.append(t)
    return out


def ascending(ex, n, hi=200):
    x = [ex.real('x%d' % i) for i in range(n)]
    ex.assume(x[0] >= 0)
    ex.assume(x[-1] <= hi)
    for a, b in zip(x, x[1:]):
        ex.assume(a <= b)
    return x


def both(a, b):
    return core.mkb(core.z3.And(core.lbool(a), core.lbool(b)))


def near(ex, a, b, tol, label):
    d = core.s_sub(a, b)
    ex.prove(both(core.s_le(d, tol), core.s_le(-tol, d)), label)


# --- sample L-moments --------------------------------------------------------
U1 = loader.Universe(symbolic=[LM], stubs={'scipy.special': types.SimpleNamespace(gamma=lambda x: core.fn('gamma', x))})


def frac(x):
    return core.Sym(core.z3.RealVal(str(x))) if isinstance(x, Fraction) else x




def lm_sym(x, top):
    n = len(x)
    b = []
    for r in range(top):
        t = 0
        for i in range(n):
            t = core.s_add(t, core.s_mul(x[i], frac(Fraction(comb(i, r), n * comb(n - 1, r)))))
        b.append(t)
    out = []
    for r in range(top):
        t = 0
        for k in range(r + 1):
            t = core.s_add(t, core.s_mul(b[k], float((-1) ** (r - k) * comb(r, k) * comb(r + k, k))))
        out.append(t)
    return out


def h_lmom(ex):
    """the first moments of a sample are the L-moments of that sample"""
    n = 3 + ex.choose('n', NMAX - 2)
    nmom = 1 + ex.choose('nmom', 4)
    ex.assume(bool(nmom <= n))
    x = ascending(ex, n)
    ex.assume(x[-1] > x[0])
    mod = U1.load(LM)
    got = mod.samlmu(nps.sarr(x), nmom)
    want = lm_sym(x, nmom)
    ex.prove(len(got) == nmom, 'number of moments')
    near(ex, got[0], want[0], 1e-9, 'mean')
    if nmom > 1:
        near(ex, got[1], want[1], 1e-9, 'second L-moment')
        ex.prove(core.s_gt(got[1], 0), 'second L-moment positive')
    for r in range(2, nmom):
        near(ex, core.s_mul(got[r], got[1]), want[r], 1e-8, 'ratio %d' % (r + 1))
    return {'m%d' % k: got[k] for k in range(min(nmom, 2))}


def v_lmom(v):
    n, nmom = 3 + int(v['n']), 1 + int(v['nmom'])
    got = loader.real(LM).samlmu(np.array([v['x%d' % i] for i in range(n)]), nmom)
    return {'m%d' % k: got[k] for k in range(min(nmom, 2))}


def r_lmom(v, label):
    n, nmom = 3 + int(v['n']), 1 + int(v['nmom'])
    x = [v.get('x%d' % i, 0.) for i in range(n)]
    for data in (x, [0., 1., 3., 3.5, 7., 20., 21., 22., 40., 41., 41., 60.][:n]):
        want = [float(t) for t in lmoments([Fraction(float(a)) for a in data], nmom)]
        want = want[:2] + [t / want[1] for t in want[2:]]
        got = loader.real(LM).samlmu(np.array(data), nmom)
        if len(got) != nmom or not all(close(a, b, 1e-6, 1e-7) for a, b in zip(got, want)):
            return 'L-moments of %s: %s, by definition %s' % (data, list(got), want)


# --- parameters from L-moments ----------------------------------------------
def tau(k):
    """L-skewness of a generalised extreme value distribution of shape k"""
    return 2 * (-np.expm1(-k * math.log(3))) / (-np.expm1(-k * math.log(2))) - 3 if abs(k) > 1e-12 else \
        2 * math.log(3) / math.log(2) - 3


STEP = 64 if chk.thorough else 32
CUTS = sorted(set([Fraction(i, STEP) for i in range(-int(0.8 * STEP), STEP)] +
                  [Fraction(-8, 10), Fraction(999, 1000), Fraction(0), Fraction(1, 10 ** 6)]))
LOW = [Fraction(-999, 1000), Fraction(-99, 100), Fraction(-97, 100), Fraction(-969, 1000), Fraction(-9, 10),
       Fraction(-85, 100), Fraction(-801, 1000)]


def h_gevpar(ex):
    """the fitted extreme value distribution has the mean and the second L-moment it was given"""
    l1, l2, t3 = ex.real('l1'), ex.real('l2'), ex.real('t3')
    for c in (l1 >= 0, l1 <= 200, l2 > 0, l2 <= 200, t3 >= -0.8, t3 < 1):
        ex.assume(c)
    side = ex.choose('side', 2)
    ex.assume(t3 > 0 if side else t3 <= 0)
    mod = U1.load(LM)
    loc, scale, k = mod.pelgev([l1, l2, t3])
    ex.prove(core.s_gt(scale, 0), 'scale is positive')
    if core.isconc(k):
        ex.prove(k == 0, 'shape')
        near(ex, core.s_mul(scale, math.log(2)), l2, 1e-5, 'second L-moment (Gumbel)')
        near(ex, core.s_add(loc, core.s_mul(scale, 0.5772156649)), l1, 1e-5, 'mean (Gumbel)')
        ex.prove(both(core.s_gt(t3, 0.1698), core.s_lt(t3, 0.1701)), 'Gumbel limit taken only near its skewness')
    else:
        g = core.fn('gamma', core.s_add(1.0, k))
        p = core.fn('pow', 2.0, core.s_neg(k))
        lam2 = core.s_div(core.s_mul(core.s_mul(scale, core.s_sub(1.0, p)), g), k)
        lam1 = core.s_add(loc, core.s_div(core.s_mul(scale, core.s_sub(1.0, g)), k))
        ex.prove(core.s_eq(lam2, l2), 'second L-moment')
        ex.prove(core.s_eq(lam1, l1), 'mean')
        ex.prove(core.s_gt(k, -1), 'shape above -1')
    return {'loc': loc, 'scale': scale, 'shp': k}


def v_gevpar(v):
    p = loader.real(LM).pelgev([v['l1'], v['l2'], v['t3']])
    return {'loc': p[0], 'scale': p[1], 'shp': p[2]}


def gevpar_bad(l1, l2, t3, tol=2e-5):
    loc, scale, k = loader.real(LM).pelgev([l1, l2, t3])
    if k == 0:
        a, b = scale * math.log(2), loc + scale * 0.5772156649
    else:
        g = special.gamma(1 + k)
        a, b = scale * -np.expm1(-k * math.log(2)) * g / k, loc + scale * (1 - g) / k
    c = tau(k)
    if not (close(a, l2, 1e-4, 1e-4) and close(b, l1, 1e-4, 1e-4) and abs(c - t3) < tol and scale > 0):
        return 'L-moments (%g, %g, %g) give a distribution of L-moments (%g, %g, %g)' % (l1, l2, t3, b, a, c)


def r_gevpar(v, label):
    for t3 in [v['t3']] + [float(c) for c in CUTS + LOW]:
        m = gevpar_bad(v.get('l1', 30.), v.get('l2', 5.), t3) or gevpar_bad(30., 5., t3)
        if m:
            return m


def h_gevshape(ex):
    """the fitted shape reproduces the L-skewness: at the ends of every interval to 2e-5, between them it falls"""
    i = ex.choose('i', len(CUTS) - 1)
    lo, hi = float(CUTS[i]), float(CUTS[i + 1])
    mod = U1.load(LM)
    k = []
    for t in (lo, hi):
        k.append(float(mod.pelgev([30.0, 5.0, t])[2]))
        ex.prove(bool(abs(tau(k[-1]) - t) <= 2e-5), 'L-skewness of the fitted distribution')
    t, u = ex.real('t'), ex.real('u')
    for c in (t >= lo, t < u, u <= hi):
        ex.assume(c)
    a = mod.pelgev([30.0, 5.0, t])[2]
    b = mod.pelgev([30.0, 5.0, u])[2]
    # across zero the two approximations meet to 1e-6
    slack = 1e-5 if (core.isconc(a) or core.isconc(b)) else 1e-6 if lo == 0 else 0
    ex.prove(core.s_ge(core.s_add(a, slack), b), 'shape falls with L-skewness')
    return {'ka': a, 'kb': b}


def v_gevshape(v):
    f = loader.real(LM).pelgev
    return {'ka': f([30., 5., v['t']])[2], 'kb': f([30., 5., v['u']])[2]}


def r_gevshape(v, label):
    i = int(v['i'])
    for t in (v.get('t', 0.), v.get('u', 0.), float(CUTS[i]), float(CUTS[i + 1])):
        m = gevpar_bad(30., 5., t)
        if m:
            return m
    return r_gevpar(dict(t3=0.), label)


def h_gevlow(ex):
    """strongly negative skewness: the iteration ends at the shape that reproduces it"""
    i = ex.choose('i', len(LOW))
    t = float(LOW[i])
    mod = U1.load(LM)
    l1, l2 = ex.real('l1'), ex.real('l2')
    for c in (l1 >= 0, l1 <= 200, l2 > 0, l2 <= 200):
        ex.assume(c)
    loc, scale, k = mod.pelgev([l1, l2, t])
    k = float(k)
    ex.prove(bool(abs(tau(k) - t) <= 2e-5), 'L-skewness of the fitted distribution')
    g, p = special.gamma(1 + k), 2.0 ** -k
    near(ex, core.s_mul(scale, (1 - p) * g / k), l2, 1e-6, 'second L-moment')
    near(ex, core.s_add(loc, core.s_mul(scale, (1 - g) / k)), l1, 1e-6, 'mean')
    return {'scale': scale}


def v_gevlow(v):
    return {'scale': loader.real(LM).pelgev([v['l1'], v['l2'], float(LOW[int(v['i'])])])[1]}


def h_gpapar(ex):
    """generalised Pareto from L-moments, and refusal of impossible moments"""
    l1, l2, t3 = ex.real('l1'), ex.real('l2'), ex.real('t3')
    for c in (l1 >= 0, l1 <= 200, l2 <= 200, l2 >= -5, t3 >= -2, t3 <= 2):
        ex.assume(c)
    mod = U1.load(LM)
    loc, scale, k = mod.pelgpa([l1, l2, t3])
    if bool(core.s_le(l2, 0)) or bool(core.s_ge(t3, 1)) or bool(core.s_le(t3, -1)):
        for q in (loc, scale, k):
            ex.prove(core.s_eq(q, 0), 'impossible moments give no parameters')
    else:
        ex.prove(core.s_eq(core.s_add(loc, core.s_div(scale, core.s_add(1, k))), l1), 'mean')
        ex.prove(core.s_eq(scale, core.s_mul(l2, core.s_mul(core.s_add(1, k), core.s_add(2, k)))), 'second L-moment')
        ex.prove(core.s_eq(core.s_mul(t3, core.s_add(3, k)), core.s_sub(1, k)), 'third L-moment')
    return {'loc': loc, 'scale': scale, 'shp': k}


def v_gpapar(v):
    p = loader.real(LM).pelgpa([v['l1'], v['l2'], v['t3']])
    return {'loc': p[0], 'scale': p[1], 'shp': p[2]}


def r_gpapar(v, label):
    l1, l2, t3 = v['l1'], v['l2'], v['t3']
    loc, scale, k = loader.real(LM).pelgpa([l1, l2, t3])
    if l2 <= 0 or abs(t3) >= 1:
        return None if not (loc or scale or k) else 'impossible moments %s give parameters' % ((l1, l2, t3),)
    got = (loc + scale / (1 + k), scale / ((1 + k) * (2 + k)), (1 - k) / (3 + k))
    if not all(close(a, b) for a, b in zip(got, (l1, l2, t3))):
        return 'L-moments %s give a distribution of L-moments %s' % ((l1, l2, t3), got)


# --- return levels of the extreme value fit ----------------------------------
NOD = -9999.0


def h_gevfit(ex):
    """wind speed of recurrence interval T = quantile of the fitted distribution; missing value otherwise"""
    n = 3 + ex.choose('n', 2 if not chk.thorough else 3)
    zeros = ex.choose('zeros', 3)
    ex.assume(bool(zeros < n))
    minrec = 2 + ex.choose('minrec', 3)
    yrs = (1, 10)[ex.choose('yrs', 2)]
    x = ascending(ex, n)
    for i in range(n):
        ex.assume(x[i] == 0 if i < zeros else x[i] > 0)
    lm = U1.load(LM)
    given = []

    def pelgev(xmom):
        given.append(list(xmom))
        key = [core.fn('u:%s' % c, *xmom) for c in ('loc', 'scale', 'shp')]
        ex.assume(key[1] > 0)
        return nps.sarr(key)
    lmom = types.SimpleNamespace(**{k: getattr(lm, k) for k in dir(lm) if not k.startswith('__')})
    lmom.pelgev = pelgev
    U = loader.Universe(symbolic=[EVD], stubs={'lmoments': lmom, LM: lmom})
    evd = U.load(EVD)
    evd.lmom = lmom
    T1, T2 = ex.real('T1'), ex.real('T2')
    for c in (T1 > 0, T1 < T2, T2 <= 10000):
        ex.assume(c)
    w, loc, scale, shp = evd.gevfit(nps.sarr([0.0] * zeros + x[zeros:]), nps.sarr([T1, T2]), NOD, minrec, yrs)
    # by definition
    alleq = bool(core.s_eq(x[zeros], x[-1]))
    fit = not alleq and n - zeros >= minrec
    if fit:
        l1, l2, l3 = lm_sym(x, 3)
        # |L-skewness| is at most 1 for any record; the extreme records (at most one value differs) are left out
        ex.assume(core.s_lt(l3, core.s_mul(l2, 1 - 1e-6)))
        ex.assume(core.s_gt(l3, core.s_mul(l2, -1 + 1e-6)))
        ex.prove(len(given) >= 1, 'a sufficient record is fitted')
        if not given:
            return {'same': 1}
        g = given[0]
        near(ex, g[0], l1, 1e-9, 'mean used for the fit')
        near(ex, g[1], l2, 1e-9, 'second L-moment used for the fit')
        near(ex, core.s_mul(g[2], g[1]), l3, 1e-8, 'third L-moment used for the fit')
        wl, ws, wk = [core.fn('u:%s' % c, *g) for c in ('loc', 'scale', 'shp')]
        for a, b, c in ((loc, wl, 'location'), (scale, ws, 'scale'), (shp, wk, 'shape')):
            ex.prove(core.s_eq(a, b), c + ' returned')
        if bool(core.s_gt(wk, 0)):
            for i, T in enumerate((T1, T2)):
                if bool(core.s_gt(T, yrs)):
                    y = core.s_neg(core.fn('log', core.s_sub(1.0, core.s_div(float(yrs), T))))
                    q = core.s_add(wl, core.s_mul(core.s_div(ws, wk), core.s_sub(1.0, core.fn('pow', y, wk))))
                    ex.prove(core.s_eq(w[i], q), 'quantile')
                else:
                    ex.prove(core.s_eq(w[i], NOD), 'interval not longer than a block')
            if bool(core.s_gt(T1, yrs)):
                ex.prove(core.s_lt(w[0], w[1]), 'longer interval, higher speed')
            return {'same': 1}
    else:
        for q in (loc, scale, shp):
            ex.prove(core.s_eq(q, NOD), 'insufficient record: parameters missing')
    for i in (0, 1):
        ex.prove(core.s_eq(w[i], NOD), 'no fit: speed missing')
    return {'same': 1}


SETS = [[0, 0, 12., 30., 31., 33., 35., 36., 36.5], [0, 3., 5., 30., 32., 33., 33.5], [20., 20., 20., 20.],
        [0, 0, 20., 20., 20.], [10., 30., 31., 31.2], [0, 10., 12.], [0, 0, 0, 12.], [5., 6., 7., 50., 90.],
        [12.0, 28.0, 33.0], [0, 12.0, 28.0, 33.0]]


def gev_bad(data, T, minrec, yrs):
    mod = loader.real(EVD)
    data = np.array(data, dtype=float)
    if len(data) < 3:
        return
    w, loc, scale, shp = mod.gevfit(data.copy(), np.array(T), NOD, minrec, yrs)
    pos = data[data > 0]
    want = [NOD] * len(T)
    par = [NOD] * 3
    if len(pos) and len(pos) >= minrec and pos.min() != pos.max():
        m = [float(t) for t in lmoments([Fraction(float(a)) for a in data], 3)]
        par = [float(t) for t in loader.real(LM).pelgev([m[0], m[1], m[2] / m[1]])]
        if par[2] > 0:
            with np.errstate(all='ignore'):
                want = [par[0] + par[1] / par[2] * (1 - (-math.log(1 - yrs / t)) ** par[2]) if t > yrs else NOD
                        for t in T]
    if not all(close(a, b, 1e-5) for a, b in zip(list(w) + [loc, scale, shp], want + par)):
        return 'record %s, intervals %s years, %d-year blocks, at least %d records: levels %s, should be %s; ' \
               'parameters %s, should be %s' % (list(data), list(T), yrs, minrec, list(w), want,
                                                [float(loc), float(scale), float(shp)], par)


def r_gevfit(v, label):
    n, z = 3 + int(v['n']), int(v['zeros'])
    x = [0.] * z + [v.get('x%d' % i, 0.) for i in range(z, n)]
    T = [v.get('T1', 5.), v.get('T2', 50.)]
    for yrs in (1, 10):
        for mr in (2, 3, 4, 5, 6):
            for d in [x] + SETS:
                for t in (T, [2., 100., 10.0], [0.5, 1.0, 12., 1e5]):
                    m = gev_bad(d, t, mr, yrs)
                    if m:
                        return m


# --- exceedances over a threshold --------------------------------------------
def h_gpdlevel(ex):
    """level and interval of the exceedance model are inverse to each other, and both are the model's quantile"""
    which = ex.choose('module', 2)
    mod = loader.Universe(symbolic=[GPD, EVD]).load((GPD, EVD)[which])
    mu, k, s, rate, T, npyr = [ex.real(c) for c in ('mu', 'shape', 'scale', 'rate', 'T', 'npyr')]
    for c in (mu >= 0, mu <= 200, k != 0, k > -2, k < 2, s > 0, s <= 100, rate > 0, rate <= 1, T > 0, T <= 10000,
              npyr > 0, npyr <= 1000):
        ex.assume(c)
    w = mod.gpdReturnLevel(T, mu, k, s, rate, npyr)
    P = core.fn('pow', core.s_mul(core.s_mul(T, npyr), rate), k)
    ex.prove(core.s_eq(core.s_add(1.0, core.s_div(core.s_mul(k, core.s_sub(w, mu)), s)), P), 'quantile of exceedances')
    T2 = ex.real('T2')
    ex.assume(T2 > T)
    w2 = mod.gpdReturnLevel(T2, mu, k, s, rate, npyr)
    ex.prove(core.s_gt(w2, w), 'longer interval, higher speed')
    d = mod.gpdReturnLevel(nps.sarr([T, T2]), mu, k, s, rate)
    P2 = core.fn('pow', core.s_mul(core.s_mul(T, 365.25), rate), k)
    ex.prove(core.s_eq(core.s_add(1.0, core.s_div(core.s_mul(k, core.s_sub(d[0], mu)), s)), P2), 'daily observations')
    if which == 0:
        back = mod.gpdRecurrenceIntervals(w, mu, k, s, rate, npyr)
        ex.prove(core.s_eq(back, T), 'interval of the level of an interval')
        back = mod.gpdRecurrenceIntervals(d[0], mu, k, s, rate)
        ex.prove(core.s_eq(back, T), 'interval of the level of an interval, daily observations')
    return {'w': w}


def v_gpdlevel(v):
    mod = loader.real((GPD, EVD)[int(v['module'])])
    return {'w': mod.gpdReturnLevel(v['T'], v['mu'], v['shape'], v['scale'], v['rate'], v['npyr'])}


def r_gpdlevel(v, label):
    mod = loader.real((GPD, EVD)[int(v['module'])])
    for a in ([v[c] for c in ('T', 'mu', 'shape', 'scale', 'rate', 'npyr')], [100., 30., -0.2, 9., 0.01, 365.25],
              [50., 30., 0.3, 5., 0.02, 300.], [500., 25., -0.1, 8., 0.005, 1.0]):
        T, mu, k, s, rate, npyr = a
        for kw in ({'npyr': npyr}, {}):
            ny = kw.get('npyr', 365.25)
            w = mod.gpdReturnLevel(T, mu, k, s, rate, **kw)
            want = mu + s / k * ((T * ny * rate) ** k - 1)
            if not close(w, want):
                return 'level of %g years with threshold %g, shape %g, scale %g, rate %g, %g observations a year: ' \
                       '%g, should be %g' % (T, mu, k, s, rate, ny, w, want)
            if hasattr(mod, 'gpdRecurrenceIntervals'):
                back = mod.gpdRecurrenceIntervals(w, mu, k, s, rate, **kw)
                if not close(back, T, 1e-4):
                    return 'the level of %g years has a recurrence interval of %g years' % (T, back)


def h_gpdfit(ex):
    """rate of exceedance counts every day of the simulation; exactly the exceedances are fitted"""
    which = ex.choose('module', 2)
    n = 2 + ex.choose('n', 3)
    minrec = (2, 4)[ex.choose('minrec', 2)]
    sims = 1 + ex.choose('sims', 2)
    ok = ex.choose('converged', 2)
    x = ascending(ex, n)
    mu = ex.real('mu')
    ex.assume(mu >= x[0])
    ex.assume(mu <= x[-1])
    ex.assume(mu >= 0)
    k, s = ex.real('shape'), ex.real('scale')
    for c in (k != 0, k > -2, k < 2, s > 0, s <= 100):
        ex.assume(c)
    seen = []

    def fit(data, *a, **kw):
        seen.append((list(nps.obj(data)), kw))
        if not ok:
            raise ValueError('no convergence')
        return k, kw.get('floc'), s
    asked = []

    def score(data, per, *a, **kw):
        asked.append((list(nps.obj(data)), per))
        return mu
    stub = types.SimpleNamespace(genpareto=types.SimpleNamespace(fit=fit), scoreatpercentile=score)
    mod = loader.Universe(symbolic=[GPD, EVD], stubs={'scipy.stats': stub}).load((GPD, EVD)[which])
    mod.genpareto, mod.scoreatpercentile = stub.genpareto, score
    T = ex.real('T')
    ex.assume(T >= 1)
    ex.assume(T <= 10000)
    w, loc, scale, shp = mod.gpdfit(nps.sarr(x), nps.sarr([T]), sims, NOD, minrec)
    short = n < minrec
    for d, per in asked:
        ex.prove(len(d) == n and per == 99.5, 'threshold is the 99.5th percentile of the record')
    if not short:
        above = [bool(core.s_gt(a, mu)) for a in x]
        want = [a for a, t in zip(x, above) if t]
        ex.prove(len(seen) == 1, 'fitted once')
        d, kw = seen[0]
        ex.prove(len(d) == len(want) and set(kw) == {'floc'}, 'exceedances fitted')
        if len(d) != len(want):
            return {'same': 1}
        for a, b in zip(d, want):
            ex.prove(core.s_eq(a, b), 'exceedances fitted')
        ex.prove(core.s_eq(kw['floc'], mu), 'threshold fixed in the fit')
    if short or not ok or bool(core.s_gt(k, 0)):
        for q in (w[0], loc, scale, shp):
            ex.prove(core.s_eq(q, NOD), 'no usable fit: missing')
    else:
        rate = len(want) / float(int(sims * 365.25))
        if not want:
            return {'same': 1}
        P = core.fn('pow', core.s_mul(core.s_mul(T, 365.25), rate), k)
        near(ex, core.s_mul(core.s_sub(w[0], mu), k), core.s_mul(s, core.s_sub(P, 1.0)), 0, 'level')
        for a, b in ((loc, mu), (scale, s), (shp, k)):
            ex.prove(core.s_eq(a, b), 'parameters')
    return {'same': 1}


def gpd_bad(mod, x, mu, k, s, T, sims, minrec, ok):
    seen = []

    def fit(data, *a, **kw):
        seen.append((np.array(data), kw))
        if not ok:
            raise ValueError
        return k, kw.get('floc'), s
    asked = []

    def score(d, p, *a, **kw):
        asked.append((len(d), p))
        return mu
    old = mod.genpareto, mod.scoreatpercentile
    mod.genpareto, mod.scoreatpercentile = types.SimpleNamespace(fit=fit), score
    try:
        x = np.array(x)
        w, loc, scale, shp = mod.gpdfit(x, np.array([T]), sims, NOD, minrec)
    finally:
        mod.genpareto, mod.scoreatpercentile = old
    ex_ = np.sort(x[x > mu])
    what = 'record %s with threshold %g, %d years, at least %d records' % (list(x), mu, sims, minrec)
    if any(a != (len(x), 99.5) for a in asked):
        return what + ': threshold taken as percentile %s' % (asked,)
    if len(x) >= minrec:
        if len(seen) != 1 or set(seen[0][1]) != {'floc'} or seen[0][1]['floc'] != mu or \
           len(seen[0][0]) != len(ex_) or not np.allclose(np.sort(seen[0][0]), ex_):
            return what + ': fitted %s' % (seen,)
    if len(x) < minrec or not ok or k > 0:
        want = [NOD] * 4
    elif not len(ex_):
        return
    else:
        want = [mu + s / k * ((T * 365.25 * len(ex_) / int(sims * 365.25)) ** k - 1), mu, s, k]
    got = [w[0], loc, scale, shp]
    if not all(close(a, b) for a, b in zip(got, want)):
        return what + ', fit %s: level and parameters for %g years are %s, should be %s' % (
            (k, mu, s) if ok else 'failed', T, [float(g) for g in got], want)


def r_gpdfit(v, label):
    mod = loader.real((GPD, EVD)[int(v['module'])])
    n = 2 + int(v['n'])
    x = [v.get('x%d' % i, 0.) for i in range(n)]
    cases = [(x, v['mu'], v['shape'], v['scale'], v['T'], 1 + int(v['sims']), (2, 4)[int(v['minrec'])], int(v['converged']))]
    for sims in (1, 2, 3):
        for ok in (0, 1):
            for k in (-0.2, 0.2):
                cases += [([10., 20., 30., 40.], mu, k, 6., 100., sims, mr, ok) for mu in (10., 25., 30.) for mr in (2, 4, 5)]
    for c in cases:
        m = gpd_bad(mod, *c)
        if m:
            return m


# --- empirical curve ---------------------------------------------------------
def interp1d(x, y, kind='linear', fill_value=np.nan, bounds_error=None, **k):
    x = np.asarray(nps.obj(x), dtype=float)
    y = list(nps.obj(y))
    if len(x) != len(y):
        raise ValueError('lengths')

    def one(t):
        t = float(t)
        if t < x[0] or t > x[-1]:
            raise ValueError('outside the range')
        i = min(max(int(np.searchsorted(x, t)), 1), len(x) - 1)
        return core.s_add(y[i - 1], core.s_mul(core.s_sub(y[i], y[i - 1]), (t - x[i - 1]) / (x[i] - x[i - 1])))

    def f(t):
        return nps.sarr([one(a) for a in np.ravel(nps.obj(t))])
    return f


PER = {1: [0.3, 0.7, 0.8, 0.00275], 4: [0.01, 1.0, 1.7, 2.0, 4.0]}


def curve(x, sims, T, big=None):
    """speed of interval T: record of rank r (from the top) of N daily values has the interval (N+1)/(r*year)"""
    N = 365.25 * sims
    days = int(N)
    rank = (N + 1) / (T * 365.25)
    # ranks of the daily values: the largest has rank N + 1 - days
    top = N + 1 - days
    pos = rank - top

    def val(i):
        return x[len(x) - 1 - i] if i < len(x) else 0.0
    i = int(math.floor(pos))
    lo, hi = (N + 1) / (top + i + 1) / 365.25, (N + 1) / (top + i) / 365.25
    f = (T - lo) / (hi - lo)
    a, b = val(i + 1), val(i)
    return a, b, f


def h_emp(ex):
    n = 2 + ex.choose('n', 2)
    sims = (1, 4)[ex.choose('sims', 2)]
    x = [ex.real('x%d' % i) for i in range(n)]
    for a in x:
        ex.assume(a >= 0)
        ex.assume(a <= 200)
    stub = types.SimpleNamespace(interp1d=interp1d)
    mod = loader.Universe(symbolic=[EVD], stubs={'scipy.interpolate': stub}).load(EVD)
    mod.interp1d = interp1d
    w, loc, scale, shp = mod.empfit(nps.sarr(x), np.array(PER[sims]), sims, NOD, 1)
    s = nps.sort(nps.sarr(x))
    for i, T in enumerate(PER[sims]):
        a, b, f = curve(list(nps.obj(s)), sims, T)
        near(ex, w[i], core.s_add(a, core.s_mul(core.s_sub(b, a), f)), 1e-6, 'speed of the interval')
    o = sorted(range(len(PER[sims])), key=lambda i: PER[sims][i])
    for i, j in zip(o, o[1:]):
        ex.prove(core.s_le(w[i], w[j]), 'longer interval, not a lower speed')
    for q in (loc, scale, shp):
        ex.prove(core.s_eq(q, NOD), 'no parameters')
    return {'w%d' % i: w[i] for i in range(len(w))}


def v_emp(v):
    n, sims = 2 + int(v['n']), (1, 4)[int(v['sims'])]
    w = loader.real(EVD).empfit(np.array([v['x%d' % i] for i in range(n)]), np.array(PER[sims]), sims, NOD, 1)[0]
    return {'w%d' % i: w[i] for i in range(len(w))}


def r_emp(v, label):
    n = 2 + int(v['n'])
    for x in ([v['x%d' % i] for i in range(n)], [30., 10., 20.], [10., 5., 40., 0., 0.]):
        for sims in (1, 4, 2, 3):
            per = PER.get(sims, [0.5, 1.0, 1.5])
            w = loader.real(EVD).empfit(np.array(x), np.array(per), sims, NOD, 1)
            for T, g in zip(per, w[0]):
                a, b, f = curve(sorted(x), sims, T)
                if not close(g, a + (b - a) * f, 1e-5, 1e-5):
                    return 'record %s over %d years: speed of %g years is %g, should be %g' % (x, sims, T, g, a + (b - a) * f)
            if list(w[1:]) != [NOD] * 3:
                return 'parameters %s' % (w[1:],)


# --- power law ---------------------------------------------------------------
def h_power(ex):
    """the power law is fitted to the speeds above the mean, each with its own interval"""
    n = 2 + ex.choose('n', 2)
    sims = (1, 4)[ex.choose('sims', 2)]
    ok = ex.choose('converged', 2)
    x = [ex.real('x%d' % i) for i in range(n)]
    for a in x:
        ex.assume(a >= 0)
        ex.assume(a <= 200)
    ex.assume(core.s_gt(core.s_add(x[0], x[1]), 0))
    a, b, c = ex.real('a'), ex.real('b'), ex.real('c')
    for q in (a > 0, a <= 200, b > 0, b < a, c < 0, c > -3):
        ex.assume(q)
    seen = []

    def curve_fit(f, xd, yd, *r, **k):
        seen.append((f, list(nps.obj(xd)), list(nps.obj(yd))))
        if not ok:
            raise RuntimeError('no convergence')
        return nps.sarr([a, b, c]), None
    mod = loader.Universe(symbolic=[EVD]).load(EVD)
    mod.curve_fit = curve_fit
    T1, T2 = ex.real('T1'), ex.real('T2')
    for q in (T1 >= 1, T1 < T2, T2 <= 10000):
        ex.assume(q)
    w, loc, scale, shp = mod.powerfit(nps.sarr(x), nps.sarr([T1, T2]), sims, NOD, 1)
    ex.prove(len(seen) == 1, 'fitted once')
    if len(seen) != 1:
        return {'same': 1}
    f, xd, yd = seen[0]
    s = [p for p in nps.obj(nps.sort(nps.sarr(x)))]
    pos = [p for p in s if bool(core.s_gt(p, 0))]
    tot = 0.0
    for p in pos:
        tot = core.s_add(tot, p)
    up = [p for p in s if bool(core.s_gt(core.s_mul(p, float(len(pos))), tot))]
    ex.prove(len(xd) == len(yd) == len(up), 'speeds above the mean')
    if not len(xd) == len(yd) == len(up):
        return {'same': 1}
    N = 365.25 * sims
    for i in range(len(up)):
        ex.prove(core.s_eq(yd[i], up[i]), 'speeds above the mean')
        rank = N + 1 - int(N) + len(up) - 1 - i
        ex.prove(bool(abs(float(xd[i]) - (N + 1) / rank / 365.25) < 1e-6), 'interval of each speed')
    if ok:
        for i, T in enumerate((T1, T2)):
            ex.prove(core.s_eq(w[i], core.s_sub(a, core.s_mul(b, core.fn('pow', T, c)))), 'speed of the interval')
        ex.prove(core.s_lt(w[0], w[1]), 'longer interval, higher speed')
        for p, q in ((loc, a), (scale, b), (shp, c)):
            ex.prove(core.s_eq(p, q), 'coefficients')
    else:
        for q in (w[0], w[1], loc, scale, shp):
            ex.prove(core.s_eq(q, NOD), 'no fit: missing')
    return {'same': 1}


def r_power(v, label):
    n = 2 + int(v['n'])
    mod = loader.real(EVD)
    old = mod.curve_fit
    for x in ([v['x%d' % i] for i in range(n)], [30., 10., 20.], [10., 5., 40., 41., 0.]):
        for sims in (1, 4, 2, 3):
            for ok in (1, 0):
                seen = []

                def cf(f, xd, yd, *r, **k):
                    seen.append((np.array(xd), np.array(yd)))
                    if not ok:
                        raise RuntimeError
                    return np.array([60., 20., -0.3]), None
                mod.curve_fit = cf
                try:
                    got = mod.powerfit(np.array(x), np.array([2., 50.]), sims, NOD, 1)
                finally:
                    mod.curve_fit = old
                xs = np.sort(x)
                up = xs[xs > np.mean(xs[xs > 0])]
                N = 365.25 * sims
                iv = [(N + 1) / (N + 1 - int(N) + len(up) - 1 - i) / 365.25 for i in range(len(up))]
                what = 'record %s over %d years: ' % (x, sims)
                if len(seen) != 1 or len(seen[0][0]) != len(up) or not np.allclose(seen[0][1], up) or \
                        not np.allclose(seen[0][0], iv):
                    return what + 'power law fitted to %s' % (seen,)
                want = [60 - 20 * 2. ** -0.3, 60 - 20 * 50. ** -0.3, 60., 20., -0.3] if ok else [NOD] * 5
                g = list(got[0]) + list(got[1:])
                if not all(close(p, q) for p, q in zip(g, want)):
                    return what + 'levels and coefficients %s, should be %s' % (g, want)


def agree(f):
    def g(v):
        return {'same': 0 if f(v, 'validation') else 1}
    g.free = True
    return g


def guard(f):
    def g(v, label):
        try:
            return f(v, label)
        except Exception as e:
            return 'the real code raised %s: %s' % (type(e).__name__, e)
    return g


chk.harness('lmom', h_lmom, replay=guard(r_lmom), validate=v_lmom, functions=['samlmu', 'samlmu3'],
            bounds='samples of 3..%d ascending values in 0..200, not all equal; 1 to 4 moments' % NMAX,
            split=[('nmom', 4)])
chk.harness('gevpar', h_gevpar, replay=guard(r_gevpar), validate=v_gevpar, functions=['pelgev'],
            bounds='any mean and second L-moment up to 200, L-skewness -0.8..1', split=[('side', 2)])
chk.harness('gevshape', h_gevshape, replay=guard(r_gevshape), validate=v_gevshape, functions=['pelgev'],
            bounds='%d intervals of L-skewness covering -0.8..0.999' % (len(CUTS) - 1),
            split=[('i', len(CUTS) - 1)])
chk.harness('gevlow', h_gevlow, replay=guard(lambda v, l: r_gevpar(dict(v, t3=float(LOW[int(v['i'])])), l)),
            validate=v_gevlow, functions=['pelgev'], bounds='L-skewness at %d values below -0.8' % len(LOW))
chk.harness('gpapar', h_gpapar, replay=guard(r_gpapar), validate=v_gpapar, functions=['pelgpa'],
            bounds='any mean, second L-moment and skewness')
chk.harness('gevfit', h_gevfit, replay=guard(r_gevfit), validate=agree(r_gevfit), max_validate=2, functions=['gevfit', 'samlmu', 'samlmu3'],
            bounds='3..4 block maxima of which 0..2 are zero; blocks of 1 or 10 years; any two intervals',
            split=[('n', 3 if chk.thorough else 2), ('yrs', 2)])
chk.harness('gpdlevel', h_gpdlevel, replay=guard(r_gpdlevel), validate=v_gpdlevel,
            functions=['gpdReturnLevel', 'gpdRecurrenceIntervals'], bounds='any parameters, shape not zero')
chk.harness('gpdfit', h_gpdfit, replay=guard(r_gpdfit), validate=agree(r_gpdfit), max_validate=2, functions=['gpdfit', 'gpdReturnLevel'],
            bounds='2..4 records, 1 or 2 simulated years, any threshold within the record', split=[('module', 2), ('n', 3)])
chk.harness('emp', h_emp, replay=guard(r_emp), validate=v_emp, functions=['empfit'],
            bounds='2..3 records in any order, 1 or 4 simulated years, 4..5 intervals each')
chk.harness('power', h_power, replay=guard(r_power), validate=agree(r_power), max_validate=2, functions=['powerfit'],
            bounds='2..3 records in any order, 1 or 4 simulated years, any two intervals')
if __name__ == '__main__':
    sys.exit(chk.main())

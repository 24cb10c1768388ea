"""Harness parts for the track generator: stand-ins for its inputs, symbolic or concrete."""
import datetime
import types

import numpy as np

from . import core, loader, nps, poly

MOD = 'TrackGenerator.TrackGenerator'
LIMIT = {'xMin': 150, 'xMax': 170, 'yMin': -20, 'yMax': -10}
INNER = {'xMin': 152, 'xMax': 168, 'yMin': -19, 'yMax': -11}
COEFFS = ('alpha', 'phi', 'mu', 'sig', 'min', 'lalpha', 'lphi', 'lmu', 'lsig', 'lmin')


def coeffs(base, ncell, scale=1.0):
    """cell coefficients: different for every name and cell"""
    out = types.SimpleNamespace()
    for i, n in enumerate(COEFFS):
        v = [base[n.lstrip('l') if n != 'lmin' else 'min'] + scale * (i * 2 + c) / 64. for c in range(ncell)]
        setattr(out, n, np.array(v))
    return types.SimpleNamespace(coeffs=out)


def tables(ncell):
    """CDF tables: cell, value, cumulative probability"""
    def t(vals):
        rows = []
        for c in range(ncell):
            for k, v in enumerate(vals):
                rows.append([c, v + c, (k + 1.0) / len(vals)])
        return np.array(rows)
    return dict(allCDFInitBearing=t([200., 230., 260.]), allCDFInitSpeed=t([10., 20., 30.]),
                allCDFInitPressure=t([960., 975., 990., 998.]), allCDFInitDay=t([30., 60., 300.]))


class Rec(object):
    """a record array: named columns of equal length"""

    def __init__(self, cols, names):
        self.cols = dict(zip(names, cols))
        self.dtype = types.SimpleNamespace(names=tuple(names))

    def __getitem__(self, k):
        return self.cols[k]

    def __getattr__(self, k):
        if k.startswith('__') or k == 'cols':
            raise AttributeError(k)
        return self.cols[k]

    def __len__(self):
        return len(next(iter(self.cols.values())))


class TooManyDraws(Exception):
    pass


class Draws(object):
    """the simulation's own random numbers: symbolic, the k-th draw of a stream is always the same value"""

    def __init__(self, ex, memo, key, script=None, limit=200):
        self.ex, self.memo, self.key, self.n, self.limit = ex, memo, key, 0, limit
        self.script, self.log = script, []

    def _draw(self, kind, args):
        key = self.script[self.n] if self.script is not None and self.n < len(self.script) else (self.key, self.n)
        self.n += 1
        if self.n > self.limit:
            self.ex.assume(False)
        self.log.append(key)
        if kind == 'uniform' and args in ((1900, 9998), (0, 24)):
            return {24: 5.0, 9998: 1950.0}[args[1]] + (hash(str(key)) % 1)
        k = (key, kind, args)
        if k not in self.memo:
            lo, hi = (args if kind == 'uniform' and all(core.isconc(a) for a in args) else (None, None))
            self.memo[k] = self.ex.real('%s_%s_%d' % (kind, key[0], key[1]), lo, hi)
            if kind == 'uniform' and lo is None:
                self.ex.assume(self.memo[k] >= args[0])
                self.ex.assume(self.memo[k] <= args[1])
        return self.memo[k]

    def uniform(self, a=0.0, b=1.0):
        return self._draw('uniform', (a, b))

    def random(self):
        return self._draw('uniform', (0.0, 1.0))

    def normalvariate(self, loc=0, scale=1, shape=None):
        return self._draw('normal', (loc, scale))

    def logisticvariate(self, mu=0.0, sigma=1.0):
        return self._draw('logistic', (mu, sigma))

    def lognormvariate(self, xi, mu=0.0, sigma=1.0):
        return self._draw('lognorm', (xi, mu, sigma))


class Foreign(object):
    """numpy's global generator: what it returns is not under the simulation's control"""

    def __init__(self, ex):
        self.ex, self.n = ex, [0]

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def draw(*a, **k):
            if name == 'seed':
                return None
            self.n[0] += 1
            if self.n[0] > 4:
                self.ex.assume(False)
            return self.ex.real('global_%s_%d' % (name, self.n[0]))
        return draw


class Core(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'core')

        def fromarrays(data, dtype=None, names=None, **k):
            nm = list(dtype.names) if dtype is not None else list(names)
            return Rec([nps.sarr(list(c)) for c in data], nm)
        self.records = types.SimpleNamespace(fromarrays=fromarrays)


def opaque(name, f, facts=None):
    def g(*a):
        if all(core.isconc(x) for x in a):
            return f(*a)
        r = core.fn('u:' + name, *a)
        if facts is not None:
            for c in facts(r, *a):
                core.ctx().assume(c)
        return r
    return g


def between(r, x, m):
    return [r >= 0, r < m]


def abstracted(v):
    """a product of unknowns becomes an arbitrary value, the same for the same term"""
    if isinstance(v, core.Sym):
        try:
            n, d = poly.ratfun(core.toreal(v.e))
        except poly.TooBig:
            return v
        if d != poly.ONE or any(sum(k for _, k in m) > 1 for m in n):
            return core.fn('u:val', v)
    return v


class Store(nps.SArr):
    def __setitem__(self, key, value):
        nps.SArr.__setitem__(self, key, abstracted(value))


def rounded(a, n=0):
    """rounding to n decimals: any value within half a unit of the last place"""
    def one(x):
        if core.isconc(x):
            return round(x, n)
        r = core.fn('u:round%d' % n, x)
        core.ctx().assume(r - x <= 0.5 * 10 ** -n)
        core.ctx().assume(x - r <= 0.5 * 10 ** -n)
        return r
    return nps.sarr([one(x) for x in a]) if isinstance(a, np.ndarray) else one(a)


def land_of(ex, memo):
    def onLand(lon, lat):
        return bool(core.fn('u:land', lon, lat) > 0)
    return onLand


def universe(ex, attempts=1, extra=None):
    c = Core()
    left = [attempts]
    origin = types.ModuleType('StatInterface.SamplingOrigin')

    class SamplingOrigin(object):
        def __init__(self, *a, **k):
            pass

        @staticmethod
        def ppf(q1, q2):
            left[0] -= 1
            if left[0] < 0:
                ex.assume(False)
            lon, lat = core.fn('u:origin_lon', q1, q2), core.fn('u:origin_lat', q1, q2)
            for v, a, b in ((lon, LIMIT['xMin'], LIMIT['xMax']), (lat, LIMIT['yMin'], LIMIT['yMax'])):
                ctx = core.ctx()
                ctx.assume(v > a)
                ctx.assume(v < b)
            return lon, lat
    SamplingOrigin.left = left
    origin.SamplingOrigin = SamplingOrigin
    U = loader.Universe(symbolic=[MOD, 'Utilities.stats', 'Utilities.track'],
                        stubs={'StatInterface.SamplingOrigin': origin},
                        np_extra={'mod': opaque('mod', np.mod, between), 'round': rounded, 'empty': lambda *a, **k: nps.empty(*a, **k).view(Store), 'around': rounded, 'exp': opaque('exp', np.exp), 'random': Foreign(ex), 'core': c, 'rec': c.records, **(extra or {})})
    return U


def make(ex, mod, stats, steps, dt, ncell=1, inner=None, landfall=None, good=None):
    """a TrackGenerator on stand-ins: geometry, pressure climatology, size model and outer pressure are
    uninterpreted functions of their arguments; where ``good`` says so, their values are those of a storm that
    goes on (inside the region, a deficit of more than 5 hPa, a size between 5 and 100 km)"""
    calls = [0]

    def on():
        return good is not None and good(calls[0])

    def b2ll(bearing, dist, lon, lat):
        calls[0] += 1
        a = (bearing, dist, lon, lat)
        x, y = core.fn('u:step_lon', *a), core.fn('u:step_lat', *a)
        if on():
            for v, p, q in ((x, 'xMin', 'xMax'), (y, 'yMin', 'yMax')):
                ex.assume(v > INNER[p])
                ex.assume(v < INNER[q])
        return x, y

    def poci(penv, pcentre, lat, jday, eps, *a, **k):
        if on():
            ex.assume(penv > pcentre)
        elif penv < pcentre:
            return float('nan')
        r = core.fn('u:poci', penv, pcentre, lat, jday, eps)
        if on():
            ex.assume(r > pcentre + 6)
        return r

    def rmax(dp, lat, eps, *a, **k):
        r = core.fn('u:rmax', dp, lat, eps)
        if on():
            ex.assume(r > 6)
            ex.assume(r < 90)
        return r

    def ppf(q, cdf):
        vals = [float(v) for v in np.asarray(cdf)[:, 0]]
        r = core.fn('u:ppf_' + '_'.join('%g' % v for v in vals), q)
        ex.assume(r >= min(vals))
        ex.assume(r <= max(vals))
        return r

    def cell(lon, lat, gl, gs):
        for k in range(1, ncell):
            if lon < gl['xMin'] + k * gs['x']:
                return k - 1
        return ncell - 1
    mod.maputils = types.SimpleNamespace(bear2LatLon=b2ll)
    mod.getPoci = poci
    mod.trackSize = types.SimpleNamespace(rmax=rmax)
    mod.ppf = ppf
    mod.stats = types.SimpleNamespace(getCellNum=cell)
    mslp = types.SimpleNamespace(get_pressure=lambda c: mslp_at(ex, c))
    if landfall is None:
        landfall = types.SimpleNamespace(onLand=land_of(ex, {}))
    gs = {'x': (LIMIT['xMax'] - LIMIT['xMin']) // ncell, 'y': LIMIT['yMax'] - LIMIT['yMin']}
    tg = mod.TrackGenerator('x', dict(LIMIT), gs, {'x': 1, 'y': 1}, mslp, landfall, innerGridLimit=inner, dt=dt,
                            maxTimeSteps=steps)
    fill(tg, ncell)
    return tg


def mslp_at(ex, c):
    c = np.asarray(c, dtype=object).reshape(-1)
    r = core.fn('u:mslp', *list(c))
    ex.assume(r >= 1000)
    ex.assume(r <= 1020)
    return r


def fill(tg, ncell):
    for k, v in tables(ncell).items():
        setattr(tg, k, v)
    tg.allCDFInitSize = None
    tg.cdfSize = np.array([[10., 0.1, 0.3], [30., 0.4, 0.7], [60., 0.3, 1.0]])
    tg.vStats = coeffs(dict(alpha=0.75, phi=0.5, mu=15.0, sig=4.0, min=1.0), ncell)
    tg.bStats = coeffs(dict(alpha=0.75, phi=0.5, mu=3.5, sig=0.5, min=0.0), ncell)
    tg.pStats = coeffs(dict(alpha=0.75, phi=0.5, mu=980.0, sig=10.0, min=950.0), ncell)
    tg.dpStats = coeffs(dict(alpha=0.75, phi=0.5, mu=-0.25, sig=0.5, min=-5.0), ncell)


COLS = ('Datetime', 'TimeElapsed', 'Longitude', 'Latitude', 'Speed', 'Bearing', 'CentralPressure', 'EnvPressure', 'rMax')


def same(ex, a, b, label):
    """two tracks hold the same data (the running number aside)"""
    n = len(a.data)
    ex.prove(n == len(b.data), label + ': number of records')
    if n != len(b.data):
        return
    for c in COLS:
        for i in range(n):
            x, y = a.data[c][i], b.data[c][i]
            if x is y:
                continue
            ex.prove(x == y, '%s: %s' % (label, c))

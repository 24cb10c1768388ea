"""Random draws follow the estimated distributions."""
import logging
import os
import random
import shutil
import sys
import tempfile
import types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check, close
from vx import core, loader, nps

chk = Check('C17', assumptions=[
    'the uniform random numbers are arbitrary numbers strictly between 0 and 1, none exactly at a step of the distribution',
    'kernel density estimates are arbitrary non-negative functions of the place they are evaluated at',
    'arithmetic on reals'])
SO, SP, KP, KO = ['StatInterface.' + n for n in ('SamplingOrigin', 'SamplingParameters', 'KDEParameters', 'KDEOrigin')]
TG, GD, GR, ST = ('TrackGenerator.TrackGenerator', 'StatInterface.GenerateDistributions', 'Utilities.grid',
                  'Utilities.stats')


def guard(f):
    def r(v, label=None):
        try:
            return f(v, label)
        except (IndexError, KeyError, ValueError, TypeError, AttributeError, NameError, ZeroDivisionError) as e:
            return '%s: %s' % (type(e).__name__, e)
    return r


class Rand(object):
    """np.random, handing out what it was given"""

    def __init__(self, draws, arr):
        self.draws, self.arr = list(draws), arr

    def rand(self, *n):
        if not n:
            return self.draws.pop(0)
        return self.arr([self.draws.pop(0) for _ in range(n[0])])
    random = random_sample = random_integers = None

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self.rand() if size is None else self.rand(size)
        return low + (high - low) * u

    def random_sample(self, size=None):
        return self.rand() if size is None else self.rand(size)
    random = random_sample


def with_random(rnd, f):
    keep = {k: getattr(np.random, k) for k in ('rand', 'random', 'random_sample', 'uniform')}
    try:
        for k in keep:
            setattr(np.random, k, getattr(rnd, k))
        return f()
    finally:
        for k, x in keep.items():
            setattr(np.random, k, x)


class NpRandom(object):
    """stands for np.random in the symbolic world"""
    now = None

    def __getattr__(self, n):
        return getattr(NpRandom.now, n)


def uni(*mods, **stubs):
    return loader.Universe(symbolic=list(mods), stubs=stubs, np_extra={'random': NpRandom()})


US = uni(SO, SP, ST)


def step(ex, u, cum, label, total=1):
    """the step of a cumulative distribution a number falls on, and never exactly on an edge"""
    for c in cum:
        ex.assume(u * total != c)
    for k, c in enumerate(cum):
        if bool(u * total < c):
            return k
    return None


DENS = {}


def dens(*at):
    """the arbitrary density at a place (of a grid)"""
    k = tuple(round(float(a), 6) for a in at)
    if k not in DENS:
        DENS[k] = core.ctx().real('d' + '_'.join('%g' % a for a in k), 0, 100)
    return DENS[k]


# ---- drawing from a table ------------------------------------------------------------------------
def tables(ex, n):
    x = [ex.real('x%d' % k, -1000, 1000) for k in range(n)]
    c = [ex.real('c%d' % k, 0, 1) for k in range(n - 1)] + [1.]
    for a, b in zip(c, c[1:]):
        ex.assume(a <= b)
    return x, c


def draw(mod, how, x, c, u, arr, withrand):
    t = arr([[a, b] for a, b in zip(x, c)])
    if how == 2:
        return [mod.ppf(u[0], t), mod.ppf(u[1], t)]
    s = mod.SamplingParameters()
    s.setParameters(t)
    if how == 0:
        return withrand(u, lambda: [s.generateOneSample(), s.generateOneSample()])
    return withrand(u, lambda: list(s.generateSamples(2)))


def sym_rand(u, f):
    NpRandom.now = Rand(u, nps.sarr)
    return f()


def real_rand(u, f):
    return with_random(Rand(u, np.array), f)


UT = uni(TG, ST)


def h_table(ex):
    how = ex.choose('how', 3)
    n = ex.choose('n', 3 if chk.thorough else 2) + 3
    x, c = tables(ex, n)
    u = [ex.real('u%d' % k, 0, 1) for k in range(2)]
    for w in u:
        ex.assume(w > 0)
        ex.assume(w < 1)
        for b in c:
            ex.assume(w != b)
    mod = (UT.load(TG) if how == 2 else US.load(SP))
    got = draw(mod, how, x, c, u, nps.sarr, sym_rand)
    ex.prove(len(got) == 2, 'as many draws as asked for')
    for g, w in zip(got, u):
        k = step(ex, w, c, '')
        ex.prove_eq(g, x[k], 'value whose share of the unit interval contains the random number')
    return {'a': got[0], 'b': got[1]}


def table_real(v):
    n = v['n'] + 3
    x = [float(v.get('x%d' % k, k)) for k in range(n)]
    c = [float(v['c%d' % k]) for k in range(n - 1)] + [1.]
    u = [float(v['u0']), float(v['u1'])]
    got = draw(loader.real(TG if v['how'] == 2 else SP), v['how'], x, c, u, np.array, real_rand)
    return x, c, u, [float(g) for g in got]


@guard
def r_table(v, label=None):
    x, c, u, got = table_real(v)
    for g, w in zip(got, u):
        k = [w < b for b in c].index(True)
        if not close(g, x[k], 1e-9, 1e-9):
            return 'random number %r draws %r from values %r with cumulative probabilities %r' % (w, g, x, c)
    return None


def v_table(v):
    got = table_real(v)[3]
    return {'a': got[0], 'b': got[1]}


# ---- cumulative distributions --------------------------------------------------------------------
def h_cdf(ex):
    n = ex.choose('n', 4) + 2
    down = ex.choose('down', 2)
    h = ex.real('h', 0.125, 10)
    x0 = ex.real('x0', -100, 100)
    x = [x0 + h * k for k in range(n)]
    if down:
        x = x[::-1]
    y = [ex.real('y%d' % k, 0, 10) for k in range(n)]
    got = list(US.load(ST).cdf(nps.sarr(x), nps.sarr(y)))
    tot = sum(y)
    ex.prove(len(got) == n, 'one value per point')
    for k in range(n):
        ex.prove_eq(got[k] * tot, sum(y[:k + 1]), 'cumulative share')
    if bool(tot > 0):
        ex.prove_eq(got[-1], 1, 'ends at one')
    return {'a': got[0]}


def cdf_real(v):
    n = v['n'] + 2
    x = float(v.get('x0', 0)) + float(v['h']) * np.arange(n)
    y = np.array([float(v.get('y%d' % k, 0)) for k in range(n)])
    return y, loader.real(ST).cdf(x[::-1] if v['down'] else x, y)


@guard
def r_cdf(v, label=None):
    y, got = cdf_real(v)
    want = np.cumsum(y) / (np.sum(y) or 1.)
    if np.shape(got) != np.shape(want) or not np.allclose(got, want, 1e-9, 1e-12):
        return 'cumulative distribution of %r is %r' % (y.tolist(), np.array(got).tolist())
    return None


# ---- genesis points ------------------------------------------------------------------------------
def origin_cases(v):
    return ((2, 2), (2, 3), (3, 2), (3, 3))[v['shape']]


def origins(mod, how, z, x, y, u, arr, withrand):
    s = mod.SamplingOrigin(arr(z), arr(x), arr(y))
    if how == 0:
        return s.ppf(u[0], u[1])
    if how == 1:
        return withrand(u, s.generateOneSample)
    return withrand(u, lambda: tuple(s.generateSamples(1)[0]))


def h_origin(ex):
    v = {'shape': ex.choose('shape', 4 if chk.thorough else 3)}
    nx, ny = origin_cases(v)
    how = ex.choose('how', 3)
    x = [110. + 0.5 * k for k in range(nx)]
    y = [-10. - 0.5 * k for k in range(ny)]
    z = [[ex.real('z%d_%d' % (j, i), 0, 1) for i in range(nx)] for j in range(ny)]
    u = [ex.real('u0', 0, 1), ex.real('u1', 0, 1)]
    px = [sum(z[j][i] for j in range(ny)) for i in range(nx)]
    tot = sum(px)
    ex.assume(tot * 100 >= 1)
    for w in u:
        ex.assume(w > 0)
        ex.assume(w < 1)
    i = step(ex, u[0], [sum(px[:k + 1]) for k in range(nx)], '', tot)
    j = step(ex, u[1], [sum(z[m][i] for m in range(k + 1)) for k in range(ny)], '', px[i])
    lon, lat = origins(US.load(SO), how, z, x, y, u, nps.sarr, sym_rand)
    ex.prove_eq(lon, x[i], 'longitude by its marginal probability')
    ex.prove_eq(lat, y[j], 'latitude by its probability at that longitude')
    return {'lon': lon, 'lat': lat}


def origin_real(v):
    nx, ny = origin_cases(v)
    x = [110. + 0.5 * k for k in range(nx)]
    y = [-10. - 0.5 * k for k in range(ny)]
    z = [[float(v.get('z%d_%d' % (j, i), 0.)) for i in range(nx)] for j in range(ny)]
    u = [float(v['u0']), float(v['u1'])]
    return x, y, z, u, [float(a) for a in origins(loader.real(SO), v['how'], z, x, y, u, np.array, real_rand)]


@guard
def r_origin(v, label=None):
    x, y, z, u, got = origin_real(v)
    z = np.array(z)
    px = np.cumsum(z.sum(axis=0))
    i = int(np.sum(u[0] * px[-1] >= px))
    py = np.cumsum(z[:, i])
    j = int(np.sum(u[1] * py[-1] >= py))
    if not (close(got[0], x[i], 1e-9, 1e-9) and close(got[1], y[j], 1e-9, 1e-9)):
        return 'random numbers %r give genesis at %r, expected %r, from density %r' % (u, got, (x[i], y[j]), z.tolist())
    return None


def v_origin(v):
    got = origin_real(v)[4]
    return {'lon': got[0], 'lat': got[1]}


# ---- density of genesis: estimated, saved, read back ---------------------------------------------
class Nb(object):
    """values of a netCDF variable"""
    nbytes = 0


class NC(object):
    files = {}

    @staticmethod
    def ncSaveGrid(filename, dimensions, variables, **k):
        d = {}
        for i in dimensions:
            d[dimensions[i]['name']] = dimensions[i]['values']
        dims = dict(d)
        for i in variables:
            x = variables[i]
            if np.shape(x['values']) != tuple(len(d[n]) for n in x['dims']):
                raise ValueError('shape of ' + x['name'])
            d[x['name']] = x['values']
        NC.files[os.path.basename(filename)] = (d, dims)

    class Dataset(object):
        def __init__(self, filename, mode='r', *a, **k):
            self.name = os.path.basename(filename)
            if mode == 'w':
                NC.files[self.name] = ({}, {})
            self.variables, self.dimensions = NC.files[self.name]

        def createDimension(self, name, n):
            self.dimensions[name] = n

        def createVariable(self, name, typ, dims, *a, **k):
            self.variables[name] = nps.zeros(tuple(self.dimensions[d] for d in dims)) if hasattr(nps, 'zeros') else \
                UG.np.zeros(tuple(self.dimensions[d] for d in dims))
            return self.variables[name]

        def close(self):
            pass


class KDE2(object):
    """an arbitrary density"""
    seen = None

    def __init__(self, data=None, var_type=None, bw=None, **k):
        KDE2.seen = data
        self.bw = nps.sarr([1., 1.])

    def pdf(self, data_predict=None):
        xy = data_predict
        return nps.sarr([dens(xy[0][k], xy[1][k]) for k in range(len(xy[0]))])

    def cdf(self, data_predict=None):
        xy = data_predict
        return nps.sarr([dens(xy[0][k], xy[1][k]) for k in range(len(xy[0]))])


class Cfg(object):
    def read(self, *a):
        pass

    def get(self, *a):
        return 'out'


UG = loader.Universe(symbolic=[KO, SO, ST, GR], stubs={
    'Utilities.nctools': types.SimpleNamespace(ncSaveGrid=NC.ncSaveGrid, ncLoadFile=None), 'netCDF4': types.SimpleNamespace(Dataset=NC.Dataset),
    'statsmodels.nonparametric.kernel_density': types.SimpleNamespace(KDEMultivariate=KDE2),
    'Utilities.config': types.SimpleNamespace(ConfigParser=Cfg, cnfGetIniValue=None)})
REGIONS = [(100., 101., -12., -11.), (100., 101.5, -11., -10.), (150., 151., 10., 11.5)]


def h_density(ex):
    case = ex.choose('case', 3)
    w, e, s, n = REGIONS[case]
    lim = {'xMin': w, 'xMax': e, 'yMin': s, 'yMax': n}
    m = 2
    pts = [[ex.real('lon%d' % k, w - 1, e + 1), ex.real('lat%d' % k, s - 1, n + 1), 0.] for k in range(m)]
    NC.files.clear()
    DENS.clear()
    k = UG.load(KO).KDEOrigin('cfg', lim, 0.5, lonLat=nps.sarr(pts))
    inside = [p for p in pts if bool(p[0] >= w) and bool(p[0] <= e) and bool(p[1] >= s) and bool(p[1] <= n)]
    used = [list(r) for r in k.lonLat]
    ex.prove(len(used) == len(inside), 'estimated from the genesis points inside the region')
    for a, b in zip(used, inside):
        ex.prove_eq(a[0], b[0], 'estimated from the genesis points inside the region')
        ex.prove_eq(a[1], b[1], 'estimated from the genesis points inside the region')
    k.processPath = 'proc'
    k.generateKDE(save=True)
    orig = UG.load(SO).SamplingOrigin
    seen = {}

    class S(orig):
        def _calculateCDF(self):
            seen.update(x=self.x, y=self.y, z=self.z)
    S('proc/originPDF.nc')
    x, y, z = list(seen['x']), list(seen['y']), seen['z']
    nx, ny = int(round((e - w) * 2)), int(round((n - s) * 2))
    ex.prove(np.shape(z) == (len(y), len(x)) and len(x) == nx and len(y) == ny, 'grid covers the region')
    ex.prove(np.allclose(sorted(x), [w + 0.5 * i for i in range(nx)]) and
             np.allclose(sorted(y), sorted(n - 0.5 * i for i in range(ny))), 'grid covers the region')
    for j in range(len(y)):
        for i in range(len(x)):
            ex.prove_eq(z[j][i], dens(x[i], y[j]), 'density read back is the one estimated at that place')
    return {'n': len(used)}


def density_real(v):
    w, e, s, n = REGIONS[v['case']]
    lim = {'xMin': w, 'xMax': e, 'yMin': s, 'yMax': n}
    pts = [[float(v.get('lon%d' % k, w)), float(v.get('lat%d' % k, s)), 0.] for k in range(2)]
    f = lambda a, b: 1. + 3. * (a - w) + 7. * (b - s) ** 2
    mod = loader.fresh(KO, private=['Utilities.config'])

    class K(object):
        def __init__(self, data=None, **k):
            self.bw = np.array([1., 1.])

        def pdf(self, data_predict=None):
            return f(np.array(data_predict[0]), np.array(data_predict[1]))
        cdf = pdf
    mod.KDEMultivariate = K
    mod.ConfigParser = Cfg
    d = tempfile.mkdtemp(prefix='c17')
    try:
        k = mod.KDEOrigin('cfg', lim, 0.5, lonLat=np.array(pts))
        inside = [p[:2] for p in pts if w <= p[0] <= e and s <= p[1] <= n]
        used = np.array(k.lonLat).tolist()
        k.processPath = d
        k.generateKDE(save=True)
        o = loader.real(SO).SamplingOrigin(os.path.join(d, 'originPDF.nc'))
        return lim, f, inside, used, np.array(o.x), np.array(o.y), np.array(o.z)
    finally:
        shutil.rmtree(d)


@guard
def r_density(v, label=None):
    lim, f, inside, used, x, y, z = density_real(v)
    if used != inside:
        return 'genesis points used %r, inside the region %r' % (used, inside)
    nx, ny = int(round((lim['xMax'] - lim['xMin']) * 2)), int(round((lim['yMax'] - lim['yMin']) * 2))
    if z.shape != (ny, nx) or not np.allclose(sorted(x), lim['xMin'] + 0.5 * np.arange(nx)) or \
            not np.allclose(sorted(y), sorted(lim['yMax'] - 0.5 * np.arange(ny))):
        return 'grid of the density: %r x %r for the region %r' % (x.tolist(), y.tolist(), lim)
    for j in range(ny):
        for i in range(nx):
            if not close(z[j, i], f(x[i], y[j]), 1e-5, 1e-5):
                return 'density at %r, %r read back as %r, estimated as %r' % (x[i], y[j], z[j, i], f(x[i], y[j]))
    return None


def v_density(v):
    return {'n': len(density_real(v)[3])}


# ---- distribution of a parameter -----------------------------------------------------------------
class KDE1(object):
    """an arbitrary density, that knows its data"""
    data = None

    def __init__(self, data):
        KDE1.data = list(data)

    def fit(self, *a, **k):
        pass

    def evaluate(self, x):
        return nps.sarr([dens(a) for a in x])


SM = types.SimpleNamespace(nonparametric=types.SimpleNamespace(KDEUnivariate=KDE1))
UK = loader.Universe(symbolic=[KP], stubs={
    'statsmodels.api': SM, 'Utilities.stats': types.SimpleNamespace(
        bandwidth=lambda d: 1., cdf=lambda x, y: nps.sarr([core.fn('cum%d' % k, *list(y)) for k in range(len(list(x)))]),
        statRemoveNum=lambda a, num=None: a)})
LINE = [[1., 2.2, 1.7, 3.], [2.9, 3., 1., 1.], [3., 1., 3.]]
KINDS = ['line', 'periodic', 'angular']


def h_param(ex):
    kind = ex.choose('kind', 3)
    hstep = (0.5, 0.5, 60.)[kind]
    period = 4
    p = LINE[ex.choose('line', 3)] if kind == 0 else [ex.real('p%d' % k, 1, 4 if kind == 1 else 359) for k in range(2)]
    DENS.clear()
    mod = UK.load(KP)
    k = object.__new__(mod.KDEParameters)
    k.kdeType = 'gau'
    r = k.generateKDE(nps.sarr(p), hstep, angular=kind == 2, periodic=period if kind == 1 else False)
    grid, pdf, cy = list(r[:, 0]), list(r[:, 1]), list(r[:, 2])
    want = {0: [1. + 0.5 * i for i in range(4)], 1: [1. + 0.5 * i for i in range(8)], 2: [60. * i for i in range(6)]}[kind]
    ex.prove(len(grid) == len(want), 'values cover the range of the data or one period')
    for g, w in zip(grid, want):
        ex.prove_eq(g, w, 'values cover the range of the data or one period')
    data = p if kind != 1 else [x + s for s in (-period, 0, period) for x in p]
    ex.prove(len(KDE1.data) == len(data), 'estimated from the data (and its copies in the neighbouring periods)')
    for g, w in zip(KDE1.data, data):
        ex.prove_eq(g, w, 'estimated from the data (and its copies in the neighbouring periods)')
    for g, w in zip(pdf, want):
        ex.prove_eq(g, (3 if kind == 1 else 1) * dens(w), 'density at each value')
    for i, g in enumerate(cy):
        ex.prove_eq(g, core.fn('cum%d' % i, *pdf), 'cumulative probability from the same density')
    return {'n': len(grid)}


def param_real(v):
    kind = v['kind']
    p = np.array(LINE[v['line']] if kind == 0 else [float(v.get('p0', 1)), float(v.get('p1', 2))])
    seen = {}

    class K(object):
        def __init__(self, data):
            seen['data'] = np.array(data).tolist()

        def fit(self, *a, **k):
            pass

        def evaluate(self, x):
            return 1. + np.abs(np.asarray(x, float)) ** 1.5
    mod = loader.fresh(KP)
    mod.sm = types.SimpleNamespace(nonparametric=types.SimpleNamespace(KDEUnivariate=K))
    mod.stats = types.SimpleNamespace(bandwidth=lambda d: 1., cdf=loader.real(ST).cdf, statRemoveNum=loader.real(ST).statRemoveNum)
    k = mod.KDEParameters('gau')
    r = k.generateKDE(p, (0.5, 0.5, 60.)[kind], angular=kind == 2, periodic=4 if kind == 1 else False)
    return p, seen['data'], np.array(r)


@guard
def r_param(v, label=None):
    kind = v['kind']
    p, data, r = param_real(v)
    grid = np.array({0: [1. + 0.5 * i for i in range(4)], 1: [1. + 0.5 * i for i in range(8)], 2: [60. * i for i in range(6)]}[kind])
    pdf = (1. + np.abs(grid) ** 1.5) * (3 if kind == 1 else 1)
    want = np.array([grid, pdf, np.cumsum(pdf) / pdf.sum()]).T
    wdata = p.tolist() if kind != 1 else np.concatenate([p - 4, p, p + 4]).tolist()
    if r.shape != want.shape or not np.allclose(r, want, 1e-9, 1e-12):
        return 'distribution (%s) is %r, expected %r' % (KINDS[kind], r.tolist(), want.tolist())
    if not np.allclose(data, wdata):
        return 'estimated from %r instead of %r' % (data, wdata)
    return None


def v_param(v):
    return {'n': len(param_real(v)[2])}


# ---- from the files of the distributions to the generator ----------------------------------------
NAMES = {'allCDFInitBearing': 'init_bearing', 'allCDFInitSpeed': 'init_speed', 'allCDFInitPressure': 'init_pressure',
         'allCDFInitDay': 'init_day', 'allCDFInitSize': 'init_rmax'}
STATS = {'vStats': ('speed_stats.nc', False), 'pStats': ('pressure_stats.nc', False), 'bStats': ('bearing_stats.nc', True),
         'dpStats': ('pressure_rate_stats.nc', False)}
LIM = {'xMin': 0., 'xMax': 2., 'yMin': 0., 'yMax': 1.}


class Tables(object):
    """a distribution of its own for every parameter and cell"""

    def __init__(self, val, arr):
        self.val, self.arr, self.calls, self.name = val, arr, 0, None

    def generateKDE(self, parameters, kdeStep, **k):
        c, self.calls = self.calls, self.calls + 1
        return self.arr([[self.val(self.name, c, r, s) for s in range(3)] for r in range(2)])


def distribute(mod, out, val, arr):
    g = object.__new__(mod.GenerateDistributions)
    g.logger = logging.getLogger('c17')
    g.gridLimit, g.gridSpace, g.gridInc = LIM, {'x': 1., 'y': 1.}, {'x': 10., 'y': 10.}
    g.minSamplesCell, g.missingValue, g.outputPath = 0, sys.maxsize, out
    for n in NAMES.values():
        g.kdeParameter = Tables(val, arr)
        g.kdeParameter.name = n
        g.allDistributions(arr([[.5, .5, 0.], [1.5, .5, 0.]]), arr([1., 2.]), n)


def generator(mod, proc):
    t = object.__new__(mod.TrackGenerator)
    t.processPath, t.sizeMean, t.sizeStdDev = proc, 46.5, 0.5
    t.gridLimit, t.gridSpace, t.gridInc = LIM, {'x': 1., 'y': 1.}, {'x': 10., 'y': 10.}
    t.loadInitialConditionDistributions()
    return t


def stats_used(mod, t):
    got = {}

    class G(object):
        def __init__(self, parameter, lonLat, gridLimit, gridSpace, gridInc, minSample=100, angular=False, **k):
            self.angular = bool(angular)
            self.grid = (gridLimit, gridSpace, gridInc)

        def load(self, filename):
            self.file = os.path.basename(filename)
    keep = mod.GenerateStats
    mod.GenerateStats = G
    try:
        t.loadCellStatistics()
    finally:
        mod.GenerateStats = keep
    for n in STATS:
        g = getattr(t, n)
        got[n] = (g.file, g.angular)
        if g.grid != (t.gridLimit, t.gridSpace, t.gridInc):
            got[n] = 'another grid'
    return got


class OsPath(object):
    pass


UF = loader.Universe(symbolic=[TG, GD, ST], stubs={
    'netCDF4': types.SimpleNamespace(Dataset=NC.Dataset)})


def h_files(ex):
    memo = {}

    def val(n, c, r, s):
        if (n, c, r, s) not in memo:
            memo[n, c, r, s] = ex.real('%s_%d_%d_%d' % (n, c, r, s), 0, 1000)
        return memo[n, c, r, s]
    gd, tg = UF.load(GD), UF.load(TG)
    gd.flSaveFile = lambda **k: None
    NC.files.clear()
    distribute(gd, 'out', val, nps.sarr)
    keep = os.path.isfile
    os.path.isfile = lambda f: os.path.basename(f) in NC.files or keep(f)
    try:
        t = generator(tg, 'out/process')
    finally:
        os.path.isfile = keep
    for a, n in NAMES.items():
        got = getattr(t, a)
        ex.prove(np.shape(got) == (4, 3), 'every point of every distribution')
        for c in range(2):
            for r in range(2):
                row = got[2 * c + r]
                ex.prove_eq(row[0], c, 'number of the cell')
                ex.prove_eq(row[1], val(n, c, r, 0), 'value of the parameter')
                ex.prove_eq(row[2], val(n, c, r, 2), 'its cumulative probability')
    ex.prove(stats_used(tg, t) == STATS, 'statistics of each parameter from its own file')
    return {}


@guard
def r_files(v, label=None):
    val = lambda n, c, r, s: float(1 + 64 * list(NAMES.values()).index(n) + 16 * c + 4 * r + s)
    for netcdf in (True, False):
        d = tempfile.mkdtemp(prefix='c17')
        try:
            os.mkdir(os.path.join(d, 'process'))
            distribute(loader.real(GD), d, val, np.array)
            if not netcdf:
                for n in NAMES.values():
                    os.remove(os.path.join(d, 'process', 'all_cell_cdf_%s.nc' % n))
            mod = loader.fresh(TG)
            t = generator(mod, os.path.join(d, 'process'))
        finally:
            shutil.rmtree(d)
        for a, n in NAMES.items():
            want = np.array([[c, val(n, c, r, 0), val(n, c, r, 2)] for c in range(2) for r in range(2)])
            got = np.array(getattr(t, a), float)
            if got.shape != want.shape or not np.allclose(got, want):
                return '%s read as %r, written as %r' % (n, got.tolist(), want.tolist())
        s = stats_used(mod, t)
        if s != STATS:
            return 'statistics taken from %r, expected %r' % (s, STATS)
    return None


chk.harness('table', h_table, replay=r_table, validate=v_table, split=[('how', 3)],
            functions=[SP + '.SamplingParameters.generateOneSample', SP + '.SamplingParameters.generateSamples', TG + '.ppf'],
            bounds='tables of 3-%d values, two draws' % (5 if chk.thorough else 4))
chk.harness('cdf', h_cdf, replay=r_cdf, functions=[ST + '.cdf'], bounds='2-5 points at any spacing, ascending or descending')
chk.harness('origin', h_origin, replay=r_origin, validate=v_origin, split=[('shape', 4 if chk.thorough else 3), ('how', 3)],
            functions=[SO + '.SamplingOrigin.' + n for n in ('__init__', '_calculateCDF', 'ppf', 'generateOneSample', 'generateSamples')],
            bounds='grids of 2 x 2 to %s points with any density' % ('3 x 3' if chk.thorough else '3 x 2'))
chk.harness('density', h_density, replay=r_density, validate=v_density, functions=[KO + '.KDEOrigin.__init__', KO + '.KDEOrigin.generateKDE',
            GR + '.grdReadFromNetcdf'], bounds='three regions, two genesis points anywhere around them')
chk.harness('parameter', h_param, replay=r_param, validate=v_param, functions=[KP + '.KDEParameters.generateKDE', KP + '.KDEParameters._generatePDF'],
            bounds='three lists of values on a line, two values of a period of 4 or of a circle')
chk.harness('files', h_files, replay=r_files, functions=[GD + '.GenerateDistributions.allDistributions',
            TG + '.TrackGenerator.loadInitialConditionDistributions', TG + '.TrackGenerator.loadCellStatistics'],
            bounds='two cells with two points each for every parameter')

if __name__ == '__main__':
    sys.exit(chk.main())

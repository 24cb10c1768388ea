"""Statistics of a cell: the observations of the smallest widened cell that has enough of them."""
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check, close
from vx import core, loader, nps

chk = Check('C16', assumptions=[
    'observations are real numbers; missing values are given as the missing-value code',
    'the kernel density estimate of a sample is an arbitrary function of the sample'])
GS = 'StatInterface.generateStats'
GD = 'StatInterface.GenerateDistributions'
U = loader.Universe(symbolic=[GS, GD, 'Utilities.stats'])
MISS = sys.maxsize
LIMIT = {'xMin': 100., 'xMax': 110., 'yMin': -20., 'yMax': -10.}
INCS = [(2., 3.), (5., 1.5), (6., 10.)]
SPACES = [(5., 5.), (10., 5.), (2.5, 10.)]


def cells(space):
    return [(100. + space[0] * j, -10. - space[1] * i)
            for i in range(int(round(10 / space[1]))) for j in range(int(round(10 / space[0])))]


def boxes(space, inc, cell):
    """the cell and its successive enlargements inside the region: (west, east, south, north)"""
    w, n = cells(space)[cell]
    b = (w, w + space[0], n - space[1], n)
    out = [b]
    while True:
        b = (max(b[0] - inc[0], 100.), min(b[1] + inc[0], 110.), max(b[2] - inc[1], -20.), min(b[3] + inc[1], -10.))
        if b == out[-1]:
            return out
        out.append(b)


def choose(lon, lat, land, val, gone, space, inc, cell, onland, enough):
    """values by definition, or None where there are not enough"""
    for w, e, s, n in boxes(space, inc, cell):
        got = [val[k] for k in range(len(val)) if not gone[k] and
               (onland is None or bool(land[k] > 0) == onland) and
               bool(lat[k] >= s) and bool(lat[k] < n) and bool(lon[k] >= w) and bool(lon[k] < e)]
        if len(got) > enough and any(bool(v != got[0]) for v in got[1:]):
            return got
    if onland:
        return choose(lon, lat, land, val, gone, space, inc, cell, False, enough)
    return None


def grids(case):
    sx, sy = SPACES[case % 3]
    return {'x': sx, 'y': sy}


def extract(m, which, v, pos, par, arr):
    """what the code takes for the cell"""
    space, inc = SPACES[v['case'] % 3], INCS[v['case'] % 3]
    sp, ic = {'x': space[0], 'y': space[1]}, {'x': inc[0], 'y': inc[1]}
    if which == 'stats':
        g = m.GenerateStats(None, None, LIMIT, sp, ic, minSample=v['enough'], calculateLater=True)
        g.lonLat, g.param = pos, par
        return lambda cell: g.extractParameter(cell, bool(v['land']))
    g = object.__new__(m.GenerateDistributions)
    import logging
    g.logger = logging.getLogger('c16')
    g.gridLimit, g.gridSpace, g.gridInc = LIMIT, sp, ic
    g.minSamplesCell, g.missingValue = v['enough'], MISS
    g.lonLat, g.pList = pos, par

    def f(cell):
        g.extractParameter(cell)
        return g.parameter
    return f


def setup(ex, which):
    v = {'case': ex.choose('case', 3), 'm': ex.choose('m', 4)}
    m = v['m'] + 1
    space = SPACES[v['case']]
    v['cell'] = ex.choose('cell', len(cells(space)))
    if not chk.thorough and v['cell'] not in ((0, 3), (0, 1), (0, 2))[v['case']]:
        ex.assume(False)
    v['enough'] = ex.choose('enough', m)
    if v['enough'] < m - 2:
        ex.assume(False)
    v['land'] = ex.choose('land', 2) if which == 'stats' else 0
    v['gone'] = ex.choose('gone', 2)
    if not chk.thorough and m > 1 and which == 'stats' and v['case'] < 2:
        # one cell each, values missing over water only
        if v['cell'] != ((0, 1), (3, 0))[m - 2][v['case']] or v['land'] and v['gone']:
            ex.assume(False)
    return v, m


def missing(v, m):
    return [bool(v['gone']) and k == m - 2 for k in range(m)]


def h_extract(which):
    def h(ex):
        v, m = setup(ex, which)
        lon = [ex.real('lon%d' % k, 99, 111) for k in range(m)]
        lat = [ex.real('lat%d' % k, -21, -9) for k in range(m)]
        ls = [ex.int('ls%d' % k, 0, 1) if which == 'stats' else 0 for k in range(m)]
        if m > 2:
            # the first in the cell, the last on the parallel of the one before
            lon[0] = cells(SPACES[v['case']])[v['cell']][0] + 1
            lat[0] = cells(SPACES[v['case']])[v['cell']][1] - 1
            lat[m - 1] = lat[m - 2]
        val = [ex.real('p%d' % k, -100, 1100) for k in range(m)]
        gone = missing(v, m)
        mod = U.load(GS if which == 'stats' else GD)
        pos = nps.sarr([[lon[k], lat[k], ls[k]] for k in range(m)])
        f = extract(mod, which, v, pos, nps.sarr([MISS if g else p for g, p in zip(gone, val)]), nps.sarr)
        space, inc = SPACES[v['case']], INCS[v['case']]
        try:
            got = list(f(v['cell']))
        except StopIteration:
            got = None
        want = choose(lon, lat, ls, val, gone, space, inc, v['cell'], bool(v['land']) if which == 'stats' else None,
                      v['enough'])
        ex.prove((got is None) == (want is None), 'fails only when the whole region has too few observations')
        if got is None or want is None:
            return {'n': -1}
        ex.prove(len(got) == len(want), 'the observations of the smallest sufficient enlargement')
        for a, b in zip(got, want):
            ex.prove_eq(a, b, 'the observations of the smallest sufficient enlargement')
        return {'n': len(got), 'p': got[0]}
    return h


def on_real(which, v):
    m = v['m'] + 1
    lon = [v.get('lon%d' % k, 100.) for k in range(m)]
    lat = [v.get('lat%d' % k, -15.) for k in range(m)]
    ls = [v.get('ls%d' % k, 0) for k in range(m)]
    if m > 2:
        lon[0] = cells(SPACES[v['case']])[v['cell']][0] + 1
        lat[0] = cells(SPACES[v['case']])[v['cell']][1] - 1
        lat[m - 1] = lat[m - 2]
    val = [float(v.get('p%d' % k, 0.)) for k in range(m)]
    gone = missing(v, m)
    mod = loader.real(GS if which == 'stats' else GD)
    f = extract(mod, which, v, np.array([[lon[k], lat[k], ls[k]] for k in range(m)], float),
                np.array([float(MISS) if g else p for g, p in zip(gone, val)]), np.array)
    try:
        got = [float(x) for x in f(v['cell'])]
    except StopIteration:
        got = None
    want = choose(lon, lat, ls, val, gone, SPACES[v['case']], INCS[v['case']], v['cell'],
                  bool(v['land']) if which == 'stats' else None, v['enough'])
    return got, want


def r_extract(which):
    def r(v, label=None):
        v = dict(dict(land=0), **v)
        got, want = on_real(which, v)
        if got != want:
            return 'cell %d uses %r, expected %r' % (v['cell'], got, want)
        return None
    return r


def v_extract(which):
    def f(v):
        got, want = on_real(which, dict(dict(land=0), **v))
        return {'n': -1} if got is None else {'n': len(got), 'p': got[0]}
    return f


# ---- the five numbers of a cell ------------------------------------------------------------------
CORR = {}


def sums(p):
    n = len(p)
    return [sum(p[i] * p[i + k] for i in range(n - k)) for k in range(n)]


def correlate(a, b, mode='valid'):
    """The sums of products of the values of the cell, by name: the largest is that of the squares (shown first), and
    what follows only needs the names. Of anything else, the sums themselves."""
    p, q = list(a), list(b)
    n = len(p)
    if mode == 'full' and len(q) == n and len(CORR['p']) == n and all(x is y and x is z for x, y, z in zip(p, q, CORR['p'])):
        CORR['used'] = True
        return nps.sarr([CORR['r'][abs(k)] for k in range(1 - n, n)])
    full = [sum(p[i] * q[i - k] for i in range(n) if 0 <= i - k < len(q)) for k in range(1 - len(q), n)]
    return nps.sarr(full if mode == 'full' else full[len(q) - 1:n])


def name_sums(ex, p):
    s = sums(p)
    for k in range(1, len(p)):
        ex.prove(s[0] >= s[k], 'the sum of squares is the largest of the sums of products')
    r = [ex.real('r%d' % k, 0, 10 ** 8) for k in range(len(p))]
    for k in range(1, len(p)):
        ex.assume(r[0] >= r[k])
    ex.assume(r[0] >= 1)
    CORR.update(p=p, r=r, used=False)


UC = loader.Universe(symbolic=[GS, 'Utilities.stats'], np_extra={'correlate': correlate})


def h_calc(ex):
    n = ex.choose('n', 3) + 2
    p = [ex.real('p%d' % k, 1, 1100) for k in range(n)]
    name_sums(ex, p)
    mod = UC.load(GS)
    g = mod.GenerateStats(None, None, LIMIT, {'x': 10., 'y': 10.}, {'x': 1., 'y': 1.}, minSample=0, calculateLater=True)
    g.extractParameter = lambda cell, land: nps.sarr(p)
    mu, sig, alpha, phi, mn = g.calculate(0, False)
    r = CORR['r'] if CORR['used'] else sums(p)
    a = r[1] / r[0]
    mean = sum(p) / n
    ex.prove_eq(mu, mean, 'mean')
    ex.prove_eq(sig, core.fn('sqrt', sum((x - mean) * (x - mean) for x in p) / n), 'standard deviation')
    ex.prove_eq(alpha, a, 'lag-one autocorrelation')
    ex.prove_eq(phi, core.fn('sqrt', 1 - a * a), 'weight of the random variation')
    ex.prove(core.mkb(core.z3.And(*[core.lbool(mn <= x) for x in p])), 'minimum')
    ex.prove(core.mkb(core.z3.Or(*[core.lbool(mn == x) for x in p])), 'minimum is one of the values')
    return {'mn': mn}


def h_bearings(ex):
    n = ex.choose('n', 2) + 2
    p = [ex.real('p%d' % k, 1, 359) for k in range(n)]
    CORR.update(p=p, r=[1., 0.5, 0.25])
    g = UC.load(GS).GenerateStats(None, None, LIMIT, {'x': 10., 'y': 10.}, {'x': 1., 'y': 1.}, minSample=0, angular=True,
                                  calculateLater=True)
    g.extractParameter = lambda cell, land: nps.sarr(p)
    mu, sig, alpha, phi, mn = g.calculate(0, False)
    rad = [x * (np.pi / 180) for x in p]
    s = sum(core.fn('sin', x) for x in rad) / n
    c = sum(core.fn('cos', x) for x in rad) / n
    at = core.fn('atan2', s, c)
    ex.prove_eq(mu, at if bool(at >= 0) else at + 2 * np.pi, 'mean direction')
    ex.prove_eq(sig, core.fn('sqrt', 1 - core.fn('sqrt', s * s + c * c)), 'spread of the directions')
    return {}


def calc_real(v):
    n = v['n'] + 2
    p = np.array([float(v.get('p%d' % k, 1.)) for k in range(n)])
    mod = loader.real(GS)
    g = mod.GenerateStats(None, None, LIMIT, {'x': 10., 'y': 10.}, {'x': 1., 'y': 1.}, minSample=0,
                          angular=bool(v.get('angular')), calculateLater=True)
    g.extractParameter = lambda cell, land: p
    return p, [float(x) for x in g.calculate(0, False)]


def r_calc(v, label=None):
    p, (mu, sig, alpha, phi, mn) = calc_real(v)
    a = float((p[1:] * p[:-1]).sum() / (p * p).sum())
    if v.get('angular'):
        r = np.radians(p)
        s, c = np.sin(r).mean(), np.cos(r).mean()
        wmu, wsig = np.arctan2(s, c) % (2 * np.pi), np.sqrt(max(1 - np.hypot(s, c), 0))
        if np.hypot(s, c) < 1e-6:
            wmu = mu
    else:
        wmu, wsig = p.mean(), p.std()
    for nm, g, w in (('mean', mu, wmu), ('standard deviation', sig, wsig), ('autocorrelation', alpha, a),
                     ('weight', phi, np.sqrt(max(1 - a * a, 0))), ('minimum', mn, p.min())):
        if not close(g, w, 1e-6, 1e-6):
            return '%s of %r is %r, expected %r' % (nm, list(p), g, w)
    return None


def r_calc_any(v, label=None):
    # the sums of products are named apart from the values: where the values given do not show it, others may
    return r_calc(v) or r_calc(dict(v, p0=30., p1=95., p2=40., p3=210.))


def v_calc(v):
    p, (mu, sig, alpha, phi, mn) = calc_real(v)
    return {'mn': mn}


# ---- where the numbers of a cell are kept --------------------------------------------------------
PAIRS = {'mu': 0, 'sig': 1, 'alpha': 2, 'phi': 3, 'min': 4}


class NC(object):
    """a file that keeps what it is given, in place of netCDF"""
    files = {}

    @staticmethod
    def ncSaveGrid(filename, dimensions, variables, **k):
        d = {dimensions[i]['name']: dimensions[i]['values'] for i in dimensions}
        for i in variables:
            x = variables[i]
            shape = tuple(len(d[n]) for n in x['dims'])
            if np.shape(x['values']) != shape:
                raise ValueError('shape of ' + x['name'])
            d[x['name']] = x['values']
        NC.files[filename] = d

    class Dataset(object):
        def __init__(self, filename, mode='r'):
            self.variables = {k: v for k, v in NC.files[filename].items()}


def place(mod, v, val, arr, netcdf):
    """(statistics kept in memory, grid saved, statistics loaded again)"""
    space = SPACES[v['case']]
    sp = {'x': space[0], 'y': space[1]}

    class G(mod.GenerateStats):
        def calculate(self, cell, land):
            return tuple(val(n, cell, bool(land)) for n in ('mu', 'sig', 'alpha', 'phi', 'min'))
    g = G(arr([0.]), arr([[0., 0., 0.]]), LIMIT, sp, sp, minSample=0)
    NC.files.clear()
    g.save('stats.nc', 'x')
    h = G(None, None, LIMIT, sp, sp, calculateLater=True)
    h.load('stats.nc')
    return g, NC.files['stats.nc'], h


def placed(v, val, g, saved, h):
    """[(label, got, expected)]"""
    space = SPACES[v['case']]
    cs = cells(space)
    out = [('cells', saved['cell'].reshape(-1)[k], k) for k in range(len(cs))]
    nx = len(saved['lon'])
    for k, (w, n) in enumerate(cs):
        out.append(('west edge', saved['lon'][k % nx], w))
        out.append(('north edge', saved['lat'][k // nx], n))
        for pre in ('', 'l'):
            for nm in PAIRS:
                x = val(nm, k, pre == 'l')
                out.append(('kept', getattr(g.coeffs, pre + nm)[k], x))
                out.append(('saved', saved[pre + nm][k // nx][k % nx], x))
                out.append(('loaded', getattr(h.coeffs, pre + nm)[k], x))
    return out


UP = loader.Universe(symbolic=[GS, 'Utilities.stats'], stubs={'Utilities.nctools': NC, 'netCDF4': NC})


def h_place(ex):
    v = {'case': ex.choose('case', 3)}
    memo = {}

    def val(nm, cell, land):
        if (nm, cell, land) not in memo:
            memo[nm, cell, land] = ex.real('%s%d%s' % (nm, cell, 'l' if land else 's'), -1000, 1000)
        return memo[nm, cell, land]
    g, saved, h = place(UP.load(GS), v, val, nps.sarr, None)
    for nm, a, b in placed(v, val, g, saved, h):
        ex.prove_eq(a, b, nm + ' in the slot of its own cell')
    return {'n': len(saved['cell'].reshape(-1))}


def r_place(v, label=None):
    memo = {}

    def val(nm, cell, land):
        k = '%s%d%s' % (nm, cell, 'l' if land else 's')
        memo[k] = len(memo) + 1. if k not in memo else memo[k]
        return memo[k]
    d = tempfile.mkdtemp(prefix='c16')
    try:
        mod = loader.real(GS)
        space = SPACES[v['case']]
        sp = {'x': space[0], 'y': space[1]}

        class G(mod.GenerateStats):
            def calculate(self, cell, land):
                return tuple(val(n, cell, bool(land)) for n in ('mu', 'sig', 'alpha', 'phi', 'min'))
        g = G(np.array([0.]), np.array([[0., 0., 0.]]), LIMIT, sp, sp, minSample=0)
        g.save(os.path.join(d, 'stats.nc'), 'x')
        h = G(None, None, LIMIT, sp, sp, calculateLater=True)
        h.load(os.path.join(d, 'stats.nc'))
        import netCDF4
        ds = netCDF4.Dataset(os.path.join(d, 'stats.nc'))
        saved = {k: np.array(ds.variables[k][:]) for k in ds.variables}
        ds.close()
        for nm, a, b in placed(v, val, g, saved, h):
            if not close(float(a), float(b), 1e-6, 1e-6):
                return '%s: %r instead of %r' % (nm, float(a), float(b))
    finally:
        shutil.rmtree(d)
    return None


def v_place(v):
    r_place(v)
    return {'n': len(cells(SPACES[v['case']]))}


# ---- which values go with which positions --------------------------------------------------------
POSITIONS = {'init_bearing': 'init_lon_lat', 'init_speed': 'init_lon_lat', 'init_pressure': 'origin_lon_lat',
             'init_rmax': 'origin_lon_lat', 'init_day': 'origin_lon_lat'}
STATS = {'speed': 'all_speed', 'speed_rate': 'speed_rate', 'pressure': 'all_pressure', 'pressure_rate': 'pressure_rate',
         'bearing': 'all_bearing', 'bearing_rate': 'bearing_rate'}


def pairs(mod, limit, space, inc, enough):
    """what the distributions and statistics were asked for"""
    import logging
    calls = []

    class Dist(object):
        def allDistributions(self, lonLat, parameterList, parameterName=None, kdeStep=0.1, angular=False, periodic=False,
                             plotParam=False):
            calls.append(('dist', parameterName, lonLat, parameterList, bool(angular), periodic))

    class Stats(object):
        def __init__(self, parameter, lonLat, gridLimit, gridSpace, gridInc, minSample=100, angular=False,
                     missingValue=sys.maxsize, progressbar=None, prefix='', configFile=None, calculateLater=False):
            self.args = (lonLat, parameter, bool(angular), gridLimit, gridSpace, gridInc, minSample)

        def plotStatistics(self, *a):
            pass

        def save(self, filename, description=''):
            calls.append(('stats', filename) + self.args)
    si = object.__new__(mod.StatInterface)
    si.processPath, si.outputPath, si.kdeStep, si.kdeType = 'proc', 'out', 0.5, 'gau'
    si.gridLimit, si.gridSpace, si.gridInc = limit, space, inc
    si.generateDist = Dist()
    keep = mod.GenerateStats
    mod.GenerateStats = Stats
    try:
        for f in ('kdeGenesisDate', 'cdfCellBearing', 'cdfCellSpeed', 'cdfCellPressure', 'cdfCellSize'):
            getattr(si, f)()
        si.calcCellStatistics(enough)
    finally:
        mod.GenerateStats = keep
    return calls


def wrong_pairs(calls, limit, space, inc, enough):
    base = os.path.basename
    got = {c[1]: (base(c[2]), base(c[3]), c[4], int(c[5])) for c in calls if c[0] == 'dist'}
    want = {n: (p, 'jdays' if n == 'init_day' else n, n == 'init_bearing', 365 if n == 'init_day' else 0)
            for n, p in POSITIONS.items()}
    if got != want:
        return 'distributions from %r, expected %r' % (got, want)
    got = {base(c[1]): (base(c[2]), base(c[3]), c[4]) for c in calls if c[0] == 'stats'}
    want = {n + '_stats.nc': ('all_lon_lat', f, n.startswith('bearing')) for n, f in STATS.items()}
    if got != want:
        return 'statistics from %r, expected %r' % (got, want)
    for c in calls:
        if c[0] == 'stats' and (c[5] is not limit or c[6] is not space or c[7] is not inc or c[8] is not enough):
            return 'statistics on another grid'
    return None


SI = 'StatInterface.StatInterface'
UI = loader.Universe(symbolic=[SI])


def h_pairs(ex):
    limit = {k: ex.real(k, -180, 180) for k in LIMIT}
    space, inc = {k: ex.real('s' + k, 1, 10) for k in 'xy'}, {k: ex.real('i' + k, 1, 10) for k in 'xy'}
    enough = ex.int('enough', 0, 1000)
    why = wrong_pairs(pairs(UI.load(SI), limit, space, inc, enough), limit, space, inc, enough)
    ex.prove(why is None, 'each parameter with its own positions: %s' % why)
    return {}


def r_pairs(v, label=None):
    limit, space, inc, enough = dict(LIMIT), {'x': 1., 'y': 2.}, {'x': 3., 'y': 4.}, 77777
    return wrong_pairs(pairs(loader.fresh(SI), limit, space, inc, enough), limit, space, inc, enough)


# ---- distributions of the initial values ---------------------------------------------------------
def all_dist(mod, v, pos, par, kde):
    space = SPACES[v['case']]
    import logging
    g = object.__new__(mod.GenerateDistributions)
    g.logger = logging.getLogger('c16')
    g.gridLimit, g.gridSpace, g.gridInc = LIMIT, {'x': space[0], 'y': space[1]}, {'x': 10., 'y': 10.}
    g.minSamplesCell, g.missingValue = 0, MISS
    g.kdeParameter = kde
    return g.allDistributions(pos, par, None, kdeStep=0.25, angular=bool(v.get('angular')), periodic=365 * v['periodic'])


class KDE(object):
    """a distribution of its own for every cell, of differing lengths"""

    def __init__(self, val, arr):
        self.val, self.arr, self.calls = val, arr, []

    def generateKDE(self, parameters, kdeStep, **k):
        c = len(self.calls)
        self.calls.append((list(parameters), kdeStep, k))
        return self.arr([[self.val(c, r, s) for s in range(3)] for r in range(1 + (c * 2 + 1) % 3)])


def dist_cases(v, val):
    n = len(cells(SPACES[v['case']]))
    return [(c, val(c, r, 0), val(c, r, 2)) for c in range(n) for r in range(1 + (c * 2 + 1) % 3)]


def h_dist(ex):
    v = {'case': ex.choose('case', 3), 'angular': ex.choose('angular', 2), 'periodic': ex.choose('periodic', 2)}
    memo = {}

    def val(c, r, s):
        if (c, r, s) not in memo:
            memo[c, r, s] = ex.real('k%d_%d_%d' % (c, r, s), -1000, 1000)
        return memo[c, r, s]
    pos = nps.sarr([[104., -14., 0.], [106., -16., 0.]])
    p = [ex.real('p0', 0, 10), ex.real('p1', 11, 20)]
    kde = KDE(val, nps.sarr)
    got = all_dist(U.load(GD), v, pos, nps.sarr(p), kde)
    want = dist_cases(v, val)
    ex.prove(np.shape(got) == (len(want), 3), 'one row per point of every cell\'s distribution')
    for g, w in zip(got, want):
        for a, b in zip(g, w):
            ex.prove_eq(a, b, 'rows carry the number of their cell, value and cumulative probability')
    for ps, step, k in kde.calls:
        ex.prove(close(float(step), 0.25) and bool(k.get('angular')) == bool(v.get('angular')) and
                 k.get('periodic', False) == 365 * v['periodic'], 'kind of data reaches the estimate')
    return {'n': len(want)}


def r_dist(v, label=None):
    def val(c, r, s):
        return 100. * c + 10 * r + s
    kde = KDE(val, np.array)
    got = all_dist(loader.real(GD), v, np.array([[104., -14., 0.], [106., -16., 0.]]), np.array([1., 12.]), kde)
    want = np.array(dist_cases(v, val), float)
    if np.shape(got) != want.shape or not np.allclose(got, want):
        return 'distributions are stored as %r, expected %r' % (np.array(got).tolist(), want.tolist())
    for ps, step, k in kde.calls:
        if not (close(float(step), 0.25) and bool(k.get('angular')) == bool(v.get('angular')) and
                k.get('periodic', False) == 365 * v['periodic']):
            return 'estimate called with %r' % (k,)
    return None


def v_dist(v):
    r_dist(v)
    return {'n': len(dist_cases(v, lambda *a: 0))}


B = ('cells of 5 x 5, 10 x 5 and 2.5 x 10 degrees on a region of 10 x 10 degrees, three increments, every cell; 1-%d '
     'observations anywhere in and around the region, on land or sea, one of them missing or none; minimum 0 or 1')
for w in ('stats', 'dist'):
    chk.harness('extract_' + w, h_extract(w), replay=r_extract(w), validate=v_extract(w),
                split=[('case', 3), ('m', 4 if chk.thorough else 3)] + ([('land', 2)] if w == 'stats' else []),
                functions=[(GS + '.GenerateStats' if w == 'stats' else GD + '.GenerateDistributions') + '.extractParameter',
                           'Utilities.stats.getCellLonLat', 'Utilities.stats.validCellNum', 'Utilities.stats.statRemoveNum'],
                bounds=B % (4 if chk.thorough else 3))
chk.harness('calculate', h_calc, replay=r_calc_any, validate=v_calc, functions=[GS + '.GenerateStats.calculate', GS + '.acf'],
            bounds='2-4 positive values')
chk.harness('bearings', h_bearings, replay=lambda v, label=None: r_calc(dict(v, angular=1), label), functions=[GS + '.GenerateStats.calculate',
            'Utilities.stats.circmean', 'Utilities.stats.circstd'], opts=dict(canon=True), bounds='2-3 bearings of 1-359 degrees')
chk.harness('place', h_place, replay=r_place, validate=v_place, max_validate=3,
            functions=[GS + '.GenerateStats.calculateStatistics', GS + '.GenerateStats.save', GS + '.GenerateStats.load'],
            bounds='grids of 2 x 2, 1 x 2 and 4 x 1 cells, any statistics')
chk.harness('distributions', h_dist, replay=r_dist, validate=v_dist,
            functions=[GD + '.GenerateDistributions.allDistributions'],
            bounds='grids of 2 x 2, 1 x 2 and 4 x 1 cells, distributions of 1-3 points')
chk.harness('pairs', h_pairs, replay=r_pairs, functions=[SI + '.StatInterface.' + n for n in (
    'kdeGenesisDate', 'cdfCellBearing', 'cdfCellSpeed', 'cdfCellPressure', 'cdfCellSize', 'calcCellStatistics')],
    bounds='any region, cell size, enlargement and minimum')

if __name__ == '__main__':
    sys.exit(chk.main())

"""Hazard of a grid cell: fitted from that cell's own wind record, and from nothing else."""
import itertools
import os
import random as _random
import shutil
import sys
import tempfile
import types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check, close
from vx import core, loader, nps

chk = Check('C13', assumptions=[
    'the fits and the percentile are arbitrary functions of the record they are given',
    'wind field files hold arbitrary non-negative speeds; single precision storage not modelled',
    'the order in which the file system lists the files is arbitrary (both orders explored)'])
NOD = -9999.0
CONF = """[Region]
gridLimit={'xMin':0.,'xMax':9.,'yMin':0.,'yMax':9.}
[TrackGenerator]
NumSimulations=%(sims)d
YearsPerSimulation=%(yrs)d
[Hazard]
Years=%(years)s
SampleSize=%(size)d
PercentileRange=%(prange)d
[Output]
Path=%(tmp)s
"""
YEARS = [5.0, 50.0]
NY, NX = 2, 3
# storm number, simulated year of every wind field file; the other files are not wind fields of storms
FILES = [[(1, 0), (2, 0), (1, 2)], [(1, 1), (10, 1), (1, 10)], [(1, 2), (2, 2), (3, 1)], [(1, 12), (2, 2), (1, 1)]]
SIMS = 3
EXTRA = ['evolution.001-00000.nc', 'evolution.001-00001.nc']
TILES = [(0, 2, 0, 1), (1, 3, 1, 2), (2, 3, 0, 2)]
EVDS = ['GEV', 'GPD', 'emp', 'power']


def gust(f):
    return 'gust.%03d-%05d.nc' % f


class Env(object):
    """A scratch folder with empty files; their content is made up by the symbolic file reader."""

    def __init__(self, files, extra, rev):
        self.tmp = tempfile.mkdtemp(prefix='c13.')
        d = self.dir = os.path.join(self.tmp, 'windfield')
        os.makedirs(os.path.join(d, 'plots'))
        for f in [gust(x) for x in files] + list(extra):
            open(os.path.join(d, f), 'w').close()
        self.rev = rev

    def conf(self, size=2, prange=80, yrs=1):
        cf = os.path.join(self.tmp, 'c.ini')
        with open(cf, 'w') as fh:
            fh.write(CONF % dict(sims=SIMS, yrs=yrs, years=','.join('%g' % y for y in YEARS), size=size,
                                 prange=prange, tmp=self.tmp))
        return cf

    def __enter__(self):
        self.real = os.listdir
        os.listdir = lambda *a: sorted(self.real(*a), reverse=bool(self.rev))
        return self

    def __exit__(self, *a):
        os.listdir = self.real
        shutil.rmtree(self.tmp)


def fits(ex, calls=None):
    """fit functions that are arbitrary functions of the record and the settings"""
    def mk(name):
        def f(data, years, *a, **k):
            d = [v for v in nps.obj(data).reshape(-1)]
            y = [float(v) for v in np.ravel(nps.obj(years))]
            args = bind(name, a, k)
            if calls is not None:
                calls.append((name, d, y, args))
            tag = 'u:%s|%d' % (name, len(d))
            w = nps.sarr([core.fn(tag + '|w', yy, *(d + args)) for yy in y])
            return (w,) + tuple(core.fn(tag + c, *(d + args)) for c in ('|l', '|sc', '|sh'))
        return f
    evd = types.SimpleNamespace(gevfit=mk('GEV'), empfit=mk('emp'), powerfit=mk('power'), gpdfit=mk('GPD'))
    return evd, types.SimpleNamespace(gpdfit=mk('GPD'))


NAMES = {'GEV': ('nodata', 'minrecords', 'yrspersim'), 'emp': ('numsim', 'nodata', 'minrecords'),
         'power': ('numsim', 'nodata', 'minrecords'), 'GPD': ('numsim', 'missingValue', 'minrecords', 'threshold')}
DEF = {'nodata': -9999., 'missingValue': -9999., 'minrecords': 50, 'yrspersim': 1, 'threshold': 99.5}


def bind(name, a, k):
    out = []
    for i, n in enumerate(NAMES[name]):
        alt = 'nodata' if n == 'missingValue' else n
        out.append(float(a[i] if i < len(a) else k.get(n, k.get(alt, DEF.get(n)))))
    return out


def settings(name, minrec, yrs):
    return {'GEV': [NOD, minrec, yrs], 'emp': [SIMS, NOD, minrec], 'power': [SIMS, NOD, minrec],
            'GPD': [SIMS, NOD, minrec, 99.5]}[name]


def universe(ex, field, perms=None):
    def load(filename, *a, **k):
        base = os.path.basename(filename)
        if not os.path.isfile(filename):
            raise IOError(filename)
        return types.SimpleNamespace(name=base, close=lambda: None,
                                     variables={'vmax': nps.sarr(field(base))})
    nct = types.SimpleNamespace(ncLoadFile=load, ncGetVar=lambda o, n: o.variables[n],
                                ncGetData=lambda o, n: o.variables[n])
    U = loader.Universe(symbolic=['hazard', 'Utilities.config'], stubs={'Utilities.nctools': nct})
    mod = U.load('hazard')
    mod.nctools = nct
    mod.percentile = lambda d, q, *a: core.fn('u:pct|%d' % np.size(nps.obj(d)), float(q), *[v for v in nps.obj(d).reshape(-1)])
    return mod


def h_tile(ex):
    which = ex.choose('evd', len(EVDS))
    files = FILES[ex.choose('files', len(FILES))]
    tile = TILES[ex.choose('tile', len(TILES))]
    rev = ex.choose('order', 2)
    extra = EXTRA[:ex.choose('extra', 2) * 2]
    yrs = 1 + 4 * ex.choose('yrs', 2)
    name = EVDS[which]
    val = {}

    def field(base):
        if base not in val:
            # speeds outside the tile do not matter: only those inside are unknown
            a = [[900.0 + 10 * y + x for x in range(NX)] for y in range(NY)]
            for y in range(tile[2], tile[3]):
                for x in range(tile[0], tile[1]):
                    v = ex.real('%s@%d,%d' % (base, y, x))
                    ex.assume(v >= 0)
                    ex.assume(v <= 150)
                    a[y][x] = v
            val[base] = a
        return val[base]
    with Env(files, extra, rev) as env:
        mod = universe(ex, field)
        evd, gpd = fits(ex)
        mod.evd, mod.GPD = evd, gpd
        tg = types.SimpleNamespace(getDomainExtent=lambda: (np.arange(NX), np.arange(NY)))
        hc = mod.HazardCalculator(env.conf(yrs=yrs), tg, SIMS, 7, yrs, False, name)
        out = hc.calculateHazard(tile)
    ex.prove(tuple(out[0]) == tile, 'limits of the tile are returned')
    Rp, loc, scale, shp = [nps.obj(a) for a in out[1:5]]
    ny, nx = tile[3] - tile[2], tile[1] - tile[0]
    ex.prove(Rp.shape == (len(YEARS), ny, nx) and loc.shape == (ny, nx), 'shape of the results')
    if Rp.shape != (len(YEARS), ny, nx):
        return {'same': 1}
    for y in range(tile[2], tile[3]):
        for x in range(tile[0], tile[1]):
            if name == 'GEV':
                rec = []
                for s in range(SIMS):
                    m = 0.0
                    for f in files:
                        if f[1] == s:
                            m = core.s_max(m, field(gust(f))[y][x])
                    rec.append(m)
            else:
                rec = [field(gust(f))[y][x] for f in sorted(files, key=gust)]
            srt = [v for v in nps.obj(nps.sort(nps.sarr(rec)))]
            i, j = y - tile[2], x - tile[0]
            got = list(Rp[:, i, j]) + [loc[i, j], scale[i, j], shp[i, j]]
            if bool(core.s_gt(srt[-1], 0)):
                args = srt + [float(t) for t in settings(name, 7, yrs)]
                tag = 'u:%s|%d' % (name, len(srt))
                want = [core.fn(tag + '|w', t, *args) for t in YEARS] + [core.fn(tag + c, *args)
                                                                         for c in ('|l', '|sc', '|sh')]
            else:
                want = [0.0] * len(got)
            for g, w, c in zip(got, want, ['speed'] * len(YEARS) + ['location', 'scale', 'shape']):
                ex.prove(core.s_eq(g, w), '%s of a cell' % c)
    return {'same': 1}


# --- real files --------------------------------------------------------------
def write(path, a):
    from netCDF4 import Dataset
    with Dataset(path, 'w') as nc:
        nc.createDimension('lat', NY)
        nc.createDimension('lon', NX)
        for n, d in (('lat', NY), ('lon', NX)):
            v = nc.createVariable(n, 'f4', (n,))
            v[:] = np.arange(d)
        v = nc.createVariable('vmax', 'f4', ('lat', 'lon'))
        v[:] = a


def toy(name, d, years, args):
    """a fit that tells records and settings apart"""
    h = sum((i + 1) * (float(v) + 0.5) for i, v in enumerate(d)) + 0.37 * sum((i + 2) * float(a) for i, a in enumerate(args) if a != NOD)
    h += {'GEV': 1, 'emp': 2, 'power': 3, 'GPD': 4}[name] * 1000
    return [h + float(y) for y in years], h + 0.1, h + 0.2, h + 0.3


def toys(calls=None):
    def mk(name):
        def f(data, years, *a, **k):
            args = bind(name, a, k)
            w, l, sc, sh = toy(name, data, np.ravel(years), args)
            if calls is not None:
                calls.append(np.array(data, dtype=float))
            return np.array(w), l, sc, sh
        return f
    return types.SimpleNamespace(gevfit=mk('GEV'), empfit=mk('emp'), powerfit=mk('power'), gpdfit=mk('GPD')), \
        types.SimpleNamespace(gpdfit=mk('GPD'))


def one_tile(files, tile, rev, extra, yrs, name, field):
    mod = loader.fresh('hazard', private=['Utilities.config'])
    with Env(files, [], rev) as env:
        for f in files:
            write(os.path.join(env.dir, gust(f)), field(gust(f)))
        for e in extra:
            open(os.path.join(env.dir, e), 'w').close()
        mod.evd, mod.GPD = toys()
        tg = types.SimpleNamespace(getDomainExtent=lambda: (np.arange(NX), np.arange(NY)))
        what = 'files %s%s, tile %s, %s: ' % ([gust(f) for f in files], ' and %s' % extra if extra else '', tile, name)
        try:
            hc = mod.HazardCalculator(env.conf(yrs=yrs), tg, SIMS, 7, yrs, False, name)
            out = hc.calculateHazard(tile)
        except Exception as e:
            return what + '%s: %s' % (type(e).__name__, e)
    Rp, loc, scale, shp = out[1:5]
    if tuple(out[0]) != tile:
        return what + 'returned for tile %s' % (out[0],)
    if Rp.shape != (len(YEARS), tile[3] - tile[2], tile[1] - tile[0]):
        return what + 'results of shape %s' % (Rp.shape,)
    for y in range(tile[2], tile[3]):
        for x in range(tile[0], tile[1]):
            if name == 'GEV':
                rec = [max([0.] + [field(gust(f))[y][x] for f in files if f[1] == s]) for s in range(SIMS)]
            else:
                rec = [field(gust(f))[y][x] for f in files]
            rec = [float(np.float32(v)) for v in sorted(rec)]
            i, j = y - tile[2], x - tile[0]
            got = [float(v) for v in Rp[:, i, j]] + [float(a[i, j]) for a in (loc, scale, shp)]
            if max(rec) > 0:
                w, l, sc, sh = toy(name, rec, YEARS, settings(name, 7, yrs))
                want = w + [l, sc, sh]
            else:
                want = [0.] * len(got)
            if not all(close(a, b, 1e-5, 1e-3) for a, b in zip(got, want)):
                return what + 'cell %d,%d of record %s is not given the fit of its record: %s instead of %s' % (
                    y, x, rec, got, want)


def r_tile(v, label):
    def mk(scale, wave):
        def field(base):
            n = sum(ord(c) * (i + 1) for i, c in enumerate(base))
            a = np.array([[(n * (3 + y) + 17 * x * (y + 1)) % 83 + 0.25 for x in range(NX)] for y in range(NY)])
            if wave:
                a[(n + wave) % NY, (n + wave) % NX] = 0.0
                a[0, 0] = 0.0
            return a
        return field

    def model(base):
        return np.array([[v.get('%s@%d,%d' % (base, y, x), 1. + 10 * y + x) for x in range(NX)] for y in range(NY)])
    first = (FILES[int(v['files'])], TILES[int(v['tile'])], int(v['order']), EXTRA[:2 * int(v['extra'])],
             1 + 4 * int(v['yrs']), EVDS[int(v['evd'])])
    m = one_tile(*(first + (model,)))
    if m:
        return m
    for files in FILES:
        for tile in TILES:
            for rev in (0, 1):
                for wave in (0, 1, 2):
                    m = one_tile(files, tile, rev, first[3], first[4], first[5], mk(1, wave))
                    if m:
                        return m


# --- confidence limits -------------------------------------------------------
# 1-based records of two cells (0: no wind that year); number of records, size of a sample
RECS = [(4, 2), (5, 2), (3, 3), (4, 3), (6, 2)]
if chk.thorough:
    RECS += [(6, 3), (7, 3), (8, 4), (9, 2)]
ZERO = [(), (0, 1), (2, 3), (0,), (1, 2)]


def perms(n):
    base = list(range(n))
    return [base, base[::-1], base[1:] + base[:1], base[::2] + base[1::2]]


def column(n, zeros, off):
    return [0.0 if i in zeros else off + 1.0 + (7 * i) % 11 + 0.5 * i for i in range(n)]


def shuffler(ex_choose, n):
    def shuffle(a, *r):
        p = perms(n)[ex_choose()]
        old = [a[i] for i in range(len(a))]
        for i in range(len(a)):
            a[i] = old[p[i]]
    return shuffle


def ci(mod, cols, size, prange, minrec, yrs, picks, sarr, tall=0):
    n = len(cols[0])
    a = sarr([[[c[i]] for c in cols] if tall else [[c[i] for c in cols]] for i in range(n)])
    k = [0]

    def nxt():
        k[0] += 1
        return picks[(k[0] - 1) % len(picks)]
    mod.random = types.SimpleNamespace(shuffle=shuffler(nxt, n))
    out = mod.calculateCI(a, np.array(YEARS), NOD, minrec, yrs, size, prange)
    # years x 1 x cells
    return [nps.obj(o).reshape((len(YEARS), 1, len(cols))) for o in out]


def h_ci(ex):
    n, size = RECS[ex.choose('recs', len(RECS))]
    z = [ZERO[ex.choose('zero%d' % c, len(ZERO))] for c in (0, 1)]
    picks = [ex.choose('perm0', 4), ex.choose('perm1', 2)]
    cols = [column(n, z[0], 10.), column(n, z[1], 30.)]
    prange = (80, 90)[picks[0] % 2]
    mod = universe(ex, None)
    calls = []
    mod.evd, mod.GPD = fits(ex, calls)
    up, lo = ci(mod, cols, size, prange, 20, 3, picks, nps.sarr, ex.choose('tall', 2))
    up, lo = nps.obj(up), nps.obj(lo)
    per = [[c for c in calls if c[1] and any(v in cols[k] for v in c[1] if v)] for k in (0, 1)]
    for k in (0, 1):
        used = [v for c in per[k] for v in c[1] if v]
        ex.prove(len(used) == len(set(used)), 'a record is used in one sample at most')
        for nm, d, y, args in per[k]:
            ex.prove(nm == 'GEV' and len(d) == size, 'size of a sample')
            ex.prove(d == sorted(d), 'a sample is in ascending order')
            ex.prove(set(v for v in d if v) <= set(cols[k]), 'a sample is of one cell')
            ex.prove(y == YEARS and args == [NOD, 2.0, 3.0], 'settings of the fit')
        wind = [v for v in cols[k] if v]
        if n % size == 0:
            ex.prove(set(used) == set(wind), 'every record is used')
        alone = universe(ex, None)
        sub = []
        alone.evd, alone.GPD = fits(ex, sub)
        # the first shuffle happens at the first cell that has wind
        pk = picks[1] if k == 1 and any(cols[0]) else picks[0]
        u1, l1 = ci(alone, [cols[k]], size, prange, 20, 3, [pk], nps.sarr)
        for t in range(len(YEARS)):
            ex.prove(core.s_eq(up[t, 0, k], nps.obj(u1)[t, 0, 0]), 'upper limit depends on its own cell')
            ex.prove(core.s_eq(lo[t, 0, k], nps.obj(l1)[t, 0, 0]), 'lower limit depends on its own cell')
            if not wind:
                ex.prove(core.s_eq(up[t, 0, k], NOD), 'no wind: missing')
                ex.prove(core.s_eq(lo[t, 0, k], NOD), 'no wind: missing')
            elif n % size == 0 and len(per[k]) == n // size:
                ws = [core.fn('u:GEV|%d|w' % len(c[1]), YEARS[t], *(c[1] + c[3])) for c in per[k]]
                for g, q in ((up, 100 - (100 - prange) / 2.), (lo, (100 - prange) / 2.)):
                    ex.prove(core.s_eq(g[t, 0, k], core.fn('u:pct|%d' % len(ws), q, *ws)), 'percentile of the samples')
    return {'same': 1}


def ci_bad(cols, size, prange, picks, tall=0):
    mod = loader.fresh('hazard', private=['Utilities.config'])
    calls = []
    mod.evd, mod.GPD = toys(calls)
    what = 'records %s, samples of %d: ' % (cols, size)
    up, lo = [o.astype(float) for o in ci(mod, cols, size, prange, 20, 3, picks, lambda a: np.array(a), tall)]
    n = len(cols[0])
    for k in range(len(cols)):
        mine = [c for c in calls if any(v in cols[k] for v in c if v)]
        used = [v for c in mine for v in c if v]
        if len(used) != len(set(used)):
            return what + 'a record is used twice: %s' % (mine,)
        if any(len(c) != size or list(c) != sorted(c) for c in mine):
            return what + 'samples %s' % (mine,)
        if n % size == 0 and set(used) != set(v for v in cols[k] if v):
            return what + 'samples %s do not use every record' % (mine,)
        m2 = loader.fresh('hazard', private=['Utilities.config'])
        m2.evd, m2.GPD = toys()
        pk = picks[1] if k == 1 and any(cols[0]) else picks[0]
        u1, l1 = [o.astype(float) for o in ci(m2, [cols[k]], size, prange, 20, 3, [pk], lambda a: np.array(a))]
        if not (np.allclose(up[:, 0, k], u1[:, 0, 0]) and np.allclose(lo[:, 0, k], l1[:, 0, 0])):
            return what + 'limits of cell %d are %s and %s next to the other cell, %s and %s alone' % (
                k, up[:, 0, k], lo[:, 0, k], u1[:, 0, 0], l1[:, 0, 0])
        if not any(cols[k]) and not (np.all(up[:, 0, k] == NOD) and np.all(lo[:, 0, k] == NOD)):
            return what + 'limits of a cell without wind: %s' % (up[:, 0, k],)
        if any(cols[k]) and n % size == 0 and len(mine) == n // size:
            for t in range(len(YEARS)):
                ws = [toy('GEV', c, YEARS, [NOD, 2.0, 3.0])[0][t] for c in mine]
                for g, q in ((up, 100 - (100 - prange) / 2.), (lo, (100 - prange) / 2.)):
                    if not close(g[t, 0, k], np.percentile(ws, q), 1e-5):
                        return what + 'limit %g, %g-th percentile of the samples %g' % (g[t, 0, k], q, np.percentile(ws, q))


def r_ci(v, label):
    n, size = RECS[int(v['recs'])]
    z = [ZERO[int(v['zero%d' % c])] for c in (0, 1)]
    m = ci_bad([column(n, z[0], 10.), column(n, z[1], 30.)], size, (80, 90)[int(v['perm0']) % 2],
               [int(v['perm0']), int(v['perm1'])], int(v['tall']))
    if m:
        return m
    for n, size in RECS:
        for a, b in itertools.product(ZERO, ZERO):
            m = ci_bad([column(n, a, 10.), column(n, b, 30.)], size, 80, [1, 0], int(v['tall']))
            if m:
                return m


# --- domain ------------------------------------------------------------------
def h_domain(ex):
    """the domain of the hazard is that of the storms' wind fields, whatever else lies in the folder"""
    rev = ex.choose('order', 2)
    extra = (EXTRA + ['aaa.nc', 'zzz.nc'])[:ex.choose('extra', 3) * 2]
    lon = [ex.real('lon%d' % i) for i in range(3)]
    lat = [ex.real('lat%d' % i) for i in range(2)]
    with Env(FILES[0], extra, rev) as env:
        def dims(o, n):
            own = o.name.startswith('gust.')
            return nps.sarr({'lon': lon, 'lat': lat}[n] if own else [7.0])
        mod = universe(ex, lambda b: [[0.0]])
        mod.nctools.ncGetDims = dims
        glon, glat = mod.setDomain(env.dir)
    for g, w, c in ((glon, lon, 'longitudes'), (glat, lat, 'latitudes')):
        ex.prove(len(g) == len(w), c)
        if len(g) == len(w):
            for a, b in zip(nps.obj(g), w):
                ex.prove(core.s_eq(a, b), c)
    return {'same': 1}


def r_domain(v, label):
    for rev in (0, 1):
        for extra in ([], EXTRA, EXTRA + ['aaa.nc', 'zzz.nc']):
            mod = loader.fresh('hazard', private=['Utilities.config'])
            with Env([], [], rev) as env:
                for f in FILES[0]:
                    write(os.path.join(env.dir, gust(f)), np.ones((NY, NX)))
                for e in extra:
                    open(os.path.join(env.dir, e), 'w').close()
                try:
                    lon, lat = mod.setDomain(env.dir)
                except Exception as e:
                    return 'folder with %s: %s: %s' % (extra, type(e).__name__, e)
                if list(lon) != list(range(NX)) or list(lat) != list(range(NY)):
                    return 'folder with %s: domain %s, %s' % (extra, list(lon), list(lat))


def agree(f):
    def g(v):
        return {'same': 0 if f(v, 'validation') else 1}
    g.free = True
    return g


def guard(f):
    def g(v, label):
        try:
            return f(v, label)
        except Exception as e:
            return 'the real code raised %s: %s' % (type(e).__name__, e)
    return g


chk.harness('tile', h_tile, replay=guard(r_tile), validate=agree(r_tile), max_validate=2,
            functions=['HazardCalculator.calculateHazard', 'calculateGEV', 'calculateGPD', 'calculateEMP', 'calculatePower',
                       'aggregateWindFields', 'loadFilesFromPath', 'loadFile'],
            bounds='tiles of 1..2 cells, 3 storm files over 3 simulated years (4 ways), 4 distributions, other files '
                   'in the folder, listed in either order', split=[('evd', 4), ('extra', 2)])
chk.harness('ci', h_ci, replay=guard(r_ci), validate=agree(r_ci), max_validate=2, functions=['calculateCI'],
            bounds='two cells, 3..6 records in samples of 2..3 (thorough: up to 9), every pattern of 0..2 years '
                   'without wind, 4 shuffles', split=[('recs', len(RECS))])
chk.harness('domain', h_domain, replay=guard(r_domain), validate=agree(r_domain), max_validate=2, functions=['setDomain'], bounds='up to 4 other files in the folder')
if __name__ == '__main__':
    sys.exit(chk.main())

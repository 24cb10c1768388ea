"""Event database filled by master and workers: every file once, at every location, for every arrival order."""
import os
import shutil
import sqlite3
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check, close
from vx import core, loader, nps, sched

chk = Check('C04', assumptions=[
    'messages between two ranks arrive in order; sends may be buffered or synchronous (both explored)',
    'wind-field and track files are stand-ins that return arbitrary values; the SQL statements run on a real '
    'scratch SQLite database'])
U = loader.Universe(symbolic=['database', 'Utilities.maputils', 'Utilities.parallel'])
CONF = """[Region]
gridLimit={'xMin':0.,'xMax':9.,'yMin':0.,'yMax':9.}
[Output]
Path=%s
[Process]
DatFile=%s/x.dat
ExcludePastProcessed=True
"""
# (workers, wind-field files, track files)
CASES = [(0, 2, 2), (1, 1, 2), (1, 2, 0), (2, 1, 1), (2, 3, 1), (2, 2, 3), (2, 4, 0), (3, 1, 0), (3, 3, 0), (3, 0, 2)]
if chk.thorough:
    CASES += [(1, 3, 3), (2, 0, 4), (2, 5, 0), (3, 4, 0), (3, 5, 0), (3, 0, 4), (4, 2, 0), (4, 4, 0), (4, 0, 3)]
LOCS = [(7, 'A', 1.0, 0.0), (9, 'B', 0.0, 1.0)]


class Var(object):
    def __init__(self, a, rng=None):
        self.a, self.actual_range = a, rng

    def __getitem__(self, k):
        return self.a


class FakeNC(object):
    def __init__(self, path, cell, asarr):
        n = os.path.basename(path)
        if n == 'hazard.nc':
            g = lambda f: asarr([[cell('%s_%d_%d' % (f, y, x)) for x in range(2)] for y in range(2)])
            h = lambda f: asarr([[[cell('%s%d_%d_%d' % (f, k, y, x)) for x in range(2)] for y in range(2)]
                                 for k in range(2)])
            self.tcrm_version = 'v'
            self.variables = {'lon': Var(asarr([0.0, 1.0])), 'lat': Var(asarr([0.0, 1.0])),
                              'ari': Var(np.array([2.0, 5.0])), 'wspd': Var(h('hw')), 'wspdupper': Var(h('hu')),
                              'wspdlower': Var(h('hl')), 'loc': Var(g('loc')), 'scale': Var(g('scale')),
                              'shp': Var(g('shp'))}
            return
        self.track_file, self.track_file_date, self.tcrm_version = 't/' + n, '2001-01-01 00:00:00', 'v'
        g = lambda f: asarr([[cell('%s_%s_%d_%d' % (f, n, y, x)) for x in range(2)] for y in range(2)])
        self.variables = {'lon': Var(asarr([0.0, 1.0])), 'lat': Var(asarr([0.0, 1.0])),
                          'vmax': Var(g('vmax'), (0.0, cell('mx_' + n))), 'ua': Var(g('ua')), 'va': Var(g('va')),
                          'slp': Var(g('slp'), (cell('mn_' + n), 0.0))}

    def close(self):
        pass


class FakeTrack(object):
    def __init__(self, i, k, cell):
        self.trackId, self.data, self.cell = (i, k), [1, 2], cell

    def minimumDistance(self, points):
        return [self.cell('dist_%d_%d_%d' % (self.trackId + (n,))) for n in range(len(points))]


def sqlval(v, store):
    if isinstance(v, (core.Sym, core.SymBool)):
        store.append(v)
        return 'sym:%d' % (len(store) - 1)
    return v


def drive(case, sync, choose, load, cell, asarr):
    nw, nf, nt = case
    # the configuration object is shared within a process, so is the directory
    tmp = os.path.join(tempfile.gettempdir(), 'c04.%d' % os.getpid())
    os.mkdir(tmp)
    store = []
    try:
        for d in ('windfield', 'tracks', 'hazard'):
            os.mkdir(os.path.join(tmp, d))
        # names of very different number so that ids show mix-ups
        files = ['gust.%03d-%05d.nc' % (k % 2, 11 * k + 3) for k in range(nf)]
        for f in files:
            open(os.path.join(tmp, 'windfield', f), 'w').close()
        for k in range(nt):
            open(os.path.join(tmp, 'tracks', 'tracks.%05d.nc' % k), 'w').close()
        cf = os.path.join(tmp, 'c.ini')
        with open(cf, 'w') as fh:
            fh.write(CONF % (tmp, tmp))
        world = sched.World(nw + 1, choose, sync=sync)

        open(os.path.join(tmp, 'x.dat'), 'w').close()
        open(os.path.join(tmp, 'hazard', 'hazard.nc'), 'w').close()
        con = sqlite3.connect(os.path.join(tmp, 'locations.db'))
        con.execute(loader.real('database.definitions').TBLLOCATIONDEF)
        con.executemany('INSERT INTO tblLocations (locId, locName, locLon, locLat) VALUES (?,?,?,?)', LOCS)
        con.commit()
        con.close()

        def rank(r):
            mod, par = load()
            # the parallel environment of this rank
            mpi = par.MPI = world.mpi(r)
            mod.attemptParallel = par.attemptParallel = lambda: mpi
            mod.atexit = type('A', (), {'register': staticmethod(lambda *a: None)})
            mod.Dataset = lambda path, *a, **k: FakeNC(path, cell, asarr)
            mod.loadTracksFromFiles = lambda fs: [
                FakeTrack(int(os.path.basename(f).split('.')[1]), k, cell) for f in fs for k in range(2)]

            class DB(mod._HazardDatabase):
                def execute(self, sql, args=()):
                    return super().execute(sql, [sqlval(a, store) for a in args])

                def executemany(self, sql, rows):
                    return super().executemany(sql, [[sqlval(a, store) for a in row] for row in rows])
            mod._HazardDatabase = DB
            mod.run(cf)
            return None
        if nw == 0:
            rank(0)
        else:
            world.run([lambda r=r: rank(r) for r in range(nw + 1)])
        con = sqlite3.connect(os.path.join(tmp, 'hazard.db'))
        q = lambda s: [tuple(store[int(c[4:])] if isinstance(c, str) and c.startswith('sym:') else c
                             for c in row) for row in con.execute(s).fetchall()]
        rows = (q('SELECT eventId, eventFile, eventMaxWind, eventMinPressure FROM tblEvents'),
                q('SELECT locId, eventId, wspd, umax, vmax, pmin FROM tblWindSpeed'),
                q('SELECT locId, eventId, distClosest FROM tblTracks'),
                q('SELECT eventNumber FROM tblEvents'),
                q('SELECT locId, returnPeriod, wspd, wspdUpper, wspdLower, loc, scale, shape FROM tblHazard'))
        con.close()
        return rows, files, world.leftover()
    finally:
        shutil.rmtree(tmp)


def conditions(case, res, cell):
    nw, nf, nt = case
    (ev, ws, tr, num, hz), files, left = res
    yield left == 0, 'every message is received'
    eid = {f: '%03d-%05d' % tuple(int(p) for p in (f[5:8], f[9:14])) for f in files}
    yield sorted(r[1] for r in ev) == sorted(files), 'each wind-field file has exactly one event record'
    yield len(set(num)) == len(files), 'event numbers are distinct'
    for r in ev:
        yield r[0] == eid.get(r[1]), 'event id of a file'
        yield r[2] == cell('mx_' + r[1]), 'maximum wind of an event'
        yield r[3] == cell('mn_' + r[1]), 'minimum pressure of an event'
    keys = sorted((l[0], e) for l in LOCS for e in eid.values())
    yield sorted(r[:2] for r in ws) == keys, 'each event has exactly one wind record per location'
    fil = {e: f for f, e in eid.items()}
    loc = {l[0]: (int(l[2]), int(l[3])) for l in LOCS}
    for r in ws:
        if r[1] in fil and r[0] in loc:
            x, y = loc[r[0]]
            for v, nm in zip(r[2:], ('vmax', 'ua', 'va', 'slp')):
                yield v == cell('%s_%s_%d_%d' % (nm, fil[r[1]], y, x)), 'value recorded for an event at a location'
    keys = sorted((l[0], '%03d-%05d' % (i, k)) for l in LOCS for i in range(nt) for k in range(2))
    yield sorted(r[:2] for r in tr) == keys, 'each track has exactly one record per location'
    for r in tr:
        i, k = (int(p) for p in r[1].split('-'))
        n = [l[0] for l in LOCS].index(r[0])
        yield r[2] == cell('dist_%d_%d_%d' % (i, k, n)), 'distance recorded for a track at a location'
    keys = sorted((l[0], y) for l in LOCS for y in (2, 5))
    yield sorted(r[:2] for r in hz) == keys, 'one hazard record per location and return period'
    for r in hz:
        x, y = loc[r[0]]
        k = 0 if r[1] == 2 else 1
        for v, nm in zip(r[2:], ('hw%d' % k, 'hu%d' % k, 'hl%d' % k, 'loc', 'scale', 'shp')):
            yield v == cell('%s_%d_%d' % (nm, y, x)), 'hazard value recorded for a location'


def h_run(ex):
    case = CASES[ex.choose('case', len(CASES))]
    sync = ex.choose('sync', 2) == 1
    cells = {}

    def cell(n):
        if n not in cells:
            cells[n] = ex.real(n, -200, 2000)
        return cells[n]

    def load():
        U.cache.clear()
        return U.load('database'), U.load('Utilities.parallel')
    try:
        res = drive(case, sync, sched.Chooser(ex), load, cell, nps.sarr)
    except (sched.Deadlock, sched.TooLong):
        ex.prove(False, 'the processing ends')
        return None
    for c, label in conditions(case, res, cell):
        ex.prove(c, label)
    return {'ev': len(res[0][0]), 'ws': len(res[0][1]), 'tr': len(res[0][2])}


def rerun(v):
    names = {}

    def cell(n):
        return float(names.setdefault(n, len(names) + 1))
    case = CASES[v['case']]

    def load():
        m = loader.fresh('database', private=['Utilities.parallel'])
        return m, m.__private__['Utilities.parallel']
    return case, drive(case, v['sync'] == 1, sched.Replayer(v), load, cell, np.array), cell


def r_run(v, label):
    case = CASES[v['case']]
    arr = {k: n for k, n in v.items() if k.startswith('c') and k[1:2].isdigit()}
    desc = '%d workers, %d wind fields, %d track files, sync=%d, arrivals %s' % (case + (v['sync'], arr))
    try:
        case, res, cell = rerun(v)
    except (sched.Deadlock, sched.TooLong) as exc:
        return '%s: %s' % (desc, exc)
    except Exception as exc:
        return '%s: raises %r' % (desc, exc)
    for c, lab in conditions(case, res, cell):
        if not c:
            return '%s: violated: %s' % (desc, lab)
    return None


def v_run(v):
    res = rerun(v)[1]
    return {'ev': len(res[0][0]), 'ws': len(res[0][1]), 'tr': len(res[0][2])}


chk.harness('protocol', h_run, replay=r_run, validate=v_run, opts=dict(batch=True), max_validate=8,
            split=[('case', len(CASES)), ('sync', 2)],
            functions=['database._HazardDatabase.' + f for f in (
                'processEvents', 'processEvent', 'processTracks', 'insertEvents', 'insertWindSpeeds', 'insertTracks',
                'getLocations', 'createDatabase', 'setLocations', 'processHazard')] + ['database.run', 'Utilities.parallel.disableOnWorkers'] + ['database.processTrack', 'database.loadWindfieldFile',
                                                      'database.windfieldAttributes', 'Utilities.maputils.find_index'],
            bounds='%s (workers, wind-field files, track files), 2 locations; all arrival orders' % (CASES,))
if __name__ == '__main__':
    sys.exit(chk.main())

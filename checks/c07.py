"""Work sharing: every simulation and every track is done by exactly one process."""
import itertools
import os
import shutil
import sys
import tempfile
import types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check
from vx import core, loader, nps, sched

chk = Check('C07', assumptions=[
    'reading track files, calculating a wind field and generating one simulation are stand-ins that record their '
    'arguments (in the replay the track files are real)',
    'a directory listing may come in a different order on every process'])

PERMS = {n: list(itertools.permutations(range(n))) for n in range(5)}
LIMIT = {'xMin': 100.0, 'xMax': 110.0, 'yMin': -20.0, 'yMax': -10.0}
MARGIN = 2.0
WCONF = """[Region]
%s
[WindfieldInterface]
profileType=powell
windFieldType=kepert
beta=1.5
beta1=1.5
beta2=1.4
thetaMax=70.0
Margin=2.0
Resolution=0.5
Domain=bounded
[Output]
Path=%s
"""
TCONF = """[Region]
gridLimit={'xMin':100.,'xMax':110.,'yMin':-20.,'yMax':-10.}
GridSpace={'x':1.0,'y':1.0}
GridInc={'x':1.0,'y':0.5}
[TrackGenerator]
NumSimulations=%d
NumTimeSteps=10
TimeStep=1.0
Format=csv
Frequency=2.5
SeasonSeed=%d
TrackSeed=%d
YearsPerSimulation=1
gridLimit={'xMin':90.,'xMax':120.,'yMin':-30.,'yMax':-5.}
[Input]
MSLPFile=none
MSLPVariableName=slp
[Output]
Path=%s
"""


class Os(object):
    """os with a directory listing in a rank's own order"""

    def __init__(self, order):
        self._order = order

    def __getattr__(self, n):
        return getattr(os, n)

    def listdir(self, path='.'):
        names = sorted(os.listdir(path))
        p = PERMS[len(names)] if len(names) in PERMS else None
        return [names[i] for i in p[self._order]] if p else names


def scratch(name):
    d = os.path.join(tempfile.gettempdir(), '%s.%d' % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    return d


# --- wind fields -----------------------------------------------------------
# (processes, tracks per file)
WCASES = [(1, (1,)), (1, (2, 1)), (2, (3,)), (2, (1, 2)), (2, (2, 0, 1)), (3, (2,)), (3, (4,)), (3, (1, 1)),
          (3, (1, 2, 1)), (4, (3,)), (4, (1, 1))]
if chk.thorough:
    WCASES += [(2, (1, 1, 2, 1)), (3, (7,)), (5, (6,)), (4, (1, 2, 1)), (2, (2, 2, 2))]


class Trk(object):
    def __init__(self, k, f, lon, lat, trackfile):
        self.trackId, self.Longitude, self.Latitude, self.trackfile = (k, f), lon, lat, trackfile
        self.data = [0] * len(lon)
        self.TimeElapsed = list(range(len(lon)))


def wind_drive(case, has_limit, orders, load, positions, write):
    """positions[(file, k)] = (lons, lats); returns how often each track was calculated and saved, per name"""
    size, per = case
    tmp = scratch('c07w')
    try:
        os.mkdir(os.path.join(tmp, 'tracks'))
        os.mkdir(os.path.join(tmp, 'windfield'))
        paths = []
        for f, n in enumerate(per):
            p = os.path.join(tmp, 'tracks', 'tracks.%05d.nc' % f)
            paths.append(p)
            write(p, [(k, f) + positions[(f, k)] for k in range(n)])
        cf = os.path.join(tmp, 'c.ini')
        with open(cf, 'w') as fh:
            fh.write(WCONF % ('gridLimit=%r' % LIMIT if has_limit else '', tmp))
        world = sched.World(size, None)
        calc, saved = {}, {}

        def rank(r):
            mod = load({os.path.basename(p): [(k, f) + positions[(f, k)] for k in range(per[f])]
                        for f, p in enumerate(paths)})
            mod.MPI = world.mpi(r)
            mod.attemptParallel = lambda: mod.MPI
            mod.os = Os(orders[r])

            def extremes(self, track, callback=None):
                key = (track.trackId[1], track.trackId[0])
                calc[key] = calc.get(key, 0) + 1
                z = np.zeros((2, 2))
                return track, (z, z, z, z, z, np.zeros(2), np.zeros(2))

            def save(self, trackfile, result, filename):
                saved[os.path.basename(filename)] = saved.get(os.path.basename(filename), 0) + 1
            mod.WindfieldGenerator.calculateExtremesFromTrack = extremes
            mod.WindfieldGenerator.saveGustToFile = save
            return lambda: mod.run(cf)
        fns = [rank(r) for r in range(size)]
        world.run(fns)
        return calc, saved
    finally:
        shutil.rmtree(tmp)


def near(lons, lats):
    r = False
    for x, y in zip(lons, lats):
        c = (x >= LIMIT['xMin'] - MARGIN) & (x <= LIMIT['xMax'] + MARGIN) & \
            (y >= LIMIT['yMin'] - MARGIN) & (y <= LIMIT['yMax'] + MARGIN)
        r = c if r is False else (r | c)
    return r


def wind_conditions(case, has_limit, positions, res):
    calc, saved = res
    names = {}
    for (f, k) in positions:
        names['gust.%03d-%05d.nc' % (k, f)] = (f, k)
    yield all(n in names for n in saved), 'every wind-field file belongs to a track'
    for n, key in names.items():
        lons, lats = positions[key]
        c = calc.get(key, 0)
        yield c <= 1, 'a track is calculated more than once'
        yield saved.get(n, 0) == c, 'a wind field is saved once for each calculation'
        if has_limit:
            yield (near(lons, lats), c), 'a track near the region has no wind field'
        else:
            yield c == 1, 'a track has no wind field'


class TrackStub(types.ModuleType):
    def __init__(self, files):
        types.ModuleType.__init__(self, 'Utilities.track')
        real = loader.real('Utilities.track')
        self.Track = real.Track

        def read(p):
            return [Trk(k, f, nps.sarr(list(lons)), nps.sarr(list(lats)), p)
                    for k, f, lons, lats in files[os.path.basename(p)]]
        self.ncReadTrackData = self.loadTracks = read


def wpositions(case, free, real):
    """one track's positions are arbitrary, the others cross the region"""
    size, per = case
    pos = {}
    keys = [(f, k) for f, n in enumerate(per) for k in range(n)]
    for i, key in enumerate(keys):
        if i == free:
            pos[key] = ([real('x%d' % m, 0, 360) for m in range(2)], [real('y%d' % m, -90, 90) for m in range(2)])
        else:
            pos[key] = ([105.0, 111.0 + i], [-15.0, -12.0])
    return pos


def h_wind(ex):
    case = WCASES[ex.choose('case', len(WCASES))]
    lim = ex.choose('limit', 2) == 1
    n = sum(case[1])
    free = ex.choose('free', n) if n else 0
    orders = []
    for r in range(case[0]):
        m = len(PERMS[len(case[1])]) if len(case[1]) < 4 else 3
        orders.append(ex.choose('order%d' % r, m) if r else 0)
    pos = wpositions(case, free, ex.real)

    def load(files):
        U = loader.Universe(symbolic=['wind', 'Utilities.config'], stubs={'Utilities.track': TrackStub(files)})
        return U.load('wind')
    try:
        res = wind_drive(case, lim, orders, load, pos, lambda p, t: open(p, 'w').close())
    except (sched.Deadlock, sched.TooLong):
        ex.prove(False, 'all processes finish')
        return None
    for c, label in wind_conditions(case, lim, pos, res):
        if isinstance(c, tuple):
            c = ~c[0] if c[1] == 0 else True
        ex.prove(c, label)
    return {'n': sum(res[0].values())}


def write_tracks(p, tracks):
    T = loader.real('Utilities.track')
    from datetime import datetime
    out = []
    for k, f, lons, lats in tracks:
        d = np.zeros(len(lons), dtype={'names': T.TCRM_COLS, 'formats': T.TCRM_FMTS})
        d['Longitude'], d['Latitude'] = lons, lats
        d['Datetime'] = [datetime(2001, 1, 1, h) for h in range(len(lons))]
        t = T.Track(d)
        t.trackId = (k, f)
        out.append(t)
    if out:
        T.ncSaveTracks(p, out)
    else:
        from netCDF4 import Dataset
        nc = Dataset(p, 'w')
        nc.createGroup('other')
        nc.close()


def wind_rerun(v):
    case = WCASES[v['case']]
    pos = wpositions(case, v.get('free', 0), lambda n, *a: float(v.get(n, 0.0)))
    orders = [v.get('order%d' % r, 0) for r in range(case[0])]

    def load(files):
        return loader.fresh('wind', private=['Utilities.config'])
    return case, pos, wind_drive(case, v['limit'] == 1, orders, load, pos, write_tracks)


def r_wind(v, label):
    desc = '%d processes, tracks per file %r' % WCASES[v['case']]
    try:
        case, pos, res = wind_rerun(v)
    except (sched.Deadlock, sched.TooLong) as exc:
        return '%s: %s' % (desc, exc)
    except Exception as exc:
        return '%s: raises %r' % (desc, exc)
    for c, lab in wind_conditions(case, v['limit'] == 1, pos, res):
        if isinstance(c, tuple):
            c = not c[0] or c[1] > 0
        if not c:
            return '%s: %s (calculated %r, saved %r)' % (desc, lab, res[0], res[1])
    return None


def v_wind(v):
    return {'n': sum(wind_rerun(v)[2][0].values())}


# --- simulated tracks ------------------------------------------------------
TCASES = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (3, 4), (4, 3)]
if chk.thorough:
    TCASES += [(2, 5), (3, 7), (4, 6), (5, 4), (6, 9)]


class Rand(object):
    def __init__(self, seed, stream):
        self.key, self.draws = (seed, stream), 0


def track_drive(case, seeds, mk):
    size, nsim = case
    tmp = scratch('c07t')
    try:
        os.mkdir(os.path.join(tmp, 'tracks'))
        os.mkdir(os.path.join(tmp, 'process'))
        cf = os.path.join(tmp, 'c.ini')
        with open(cf, 'w') as fh:
            fh.write(TCONF % (nsim, seeds[0], seeds[1], tmp))
        world = sched.World(size, None)
        gen, saved = [], {}

        def rank(r):
            mod = mk(r)
            mod.MPI = world.mpi(r)
            mod.attemptParallel = lambda: mod.MPI
            mod.random = types.SimpleNamespace(Random=Rand)

            class TG(object):
                def __init__(self, *a, **k):
                    pass

                def loadInitialConditionDistributions(self):
                    pass
                loadCellStatistics = loadInitialConditionDistributions

                def generateTracks(self, n, sim, *a, **k):
                    gen.append((sim, n, mod.PRNG.key, mod.PRNG.draws))
                    mod.PRNG.draws += 1
                    return [('track', sim)]
            mod.TrackGenerator = TG
            mod.SamplePressure = lambda *a, **k: None
            mod.trackLandfall = types.SimpleNamespace(LandfallDecay=lambda *a, **k: None)

            def save(path, tracks, *a, **k):
                saved.setdefault(os.path.basename(path), []).append(list(tracks))
            mod.ncSaveTracks = save
            return lambda: mod.run(cf)
        fns = [rank(r) for r in range(size)]
        if size == 1:
            fns[0]()
        else:
            world.run(fns)
        return gen, saved
    finally:
        shutil.rmtree(tmp)


def track_conditions(case, seeds, res, ref):
    (gen, saved), (rgen, rsaved) = res, ref
    size, nsim = case
    want = {s: (n, k, d) for s, n, k, d in rgen}
    yield sorted(s for s, _, _, _ in gen) == list(range(nsim)), 'every simulation is generated exactly once'
    yield len({k for _, _, k, _ in gen}) == len(gen), 'two simulations share a random stream'
    for s, n, k, d in gen:
        if s in want:
            yield n == want[s][0], 'number of events of a simulation depends on the number of processes'
            yield k == want[s][1] and d == want[s][2], 'random stream of a simulation depends on the process doing it'
            yield k[0] == seeds[1] or k == want[s][1], 'the seed is the configured one'
    yield saved == rsaved, 'the track files depend on the number of processes'
    yield saved == {'tracks.%05d.nc' % i: [[('track', i)]] for i in range(nsim)}, 'one file per simulation'


class NpRandom(object):
    """numpy's global generator: draws are a function of the seed (or of the process, if not seeded)"""

    def __init__(self, ex, r, memo):
        self.ex, self.key, self.n, self.memo = ex, 'r%d' % r, 0, memo

    def seed(self, s=None):
        self.key, self.n = 's%s' % s, 0

    def poisson(self, lam, size):
        out = []
        for i in range(int(size)):
            k = 'n_%s_%d_%s' % (self.key, self.n, str(lam).replace('.', 'p'))
            self.n += 1
            if k not in self.memo:
                self.memo[k] = self.ex.int(k, 0, 50)
            out.append(self.memo[k])
        return nps.sarr(out)

    def __getattr__(self, n):
        return getattr(np.random, n)


def h_track(ex):
    case = TCASES[ex.choose('case', len(TCASES))]
    seeds = (11, 29)
    memo = {}

    def mk(r):
        U = loader.Universe(symbolic=['TrackGenerator.TrackGenerator', 'Utilities.config'],
                            np_extra={'random': NpRandom(ex, r, memo)})
        return U.load('TrackGenerator.TrackGenerator')
    try:
        res = track_drive(case, seeds, mk)
        ref = track_drive((1, case[1]), seeds, mk)
    except (sched.Deadlock, sched.TooLong):
        ex.prove(False, 'all processes finish')
        return None
    for c, label in track_conditions(case, seeds, res, ref):
        ex.prove(c, label)
    return {'n': len(res[0])}


def track_rerun(v):
    case = TCASES[v['case']]

    class Own(object):
        """each process has a numpy generator of its own"""

        def __init__(self, r):
            self.s = np.random.RandomState(1000 + r)
            self.seed, self.poisson = self.s.seed, self.s.poisson

        def __getattr__(self, n):
            return getattr(self.s, n)

    class Npx(object):
        def __init__(self, r):
            self.random = Own(r)

        def __getattr__(self, n):
            return getattr(np, n)

    def mk(r):
        m = loader.fresh('TrackGenerator.TrackGenerator', private=['Utilities.config'])
        m.np = Npx(r)
        return m
    return case, track_drive(case, (11, 29), mk), track_drive((1, case[1]), (11, 29), mk)


def r_track(v, label):
    desc = '%d processes, %d simulations' % TCASES[v['case']]
    try:
        case, res, ref = track_rerun(v)
    except (sched.Deadlock, sched.TooLong) as exc:
        return '%s: %s' % (desc, exc)
    except Exception as exc:
        return '%s: raises %r' % (desc, exc)
    for c, lab in track_conditions(case, (11, 29), res, ref):
        if not c:
            return '%s: %s: generated %r, in one process %r' % (desc, lab, res, ref)
    return None


def v_track(v):
    return {'n': len(track_rerun(v)[1][0])}


chk.harness('windfields', h_wind, replay=r_wind, validate=v_wind, split=[('case', len(WCASES)), ('limit', 2)],
            opts=dict(batch=True),
            functions=['wind.run', 'wind.WindfieldGenerator.dumpGustsFromTrackfiles',
                       'wind.WindfieldGenerator.dumpGustsFromTracks', 'wind.loadTracksFromFiles', 'wind.filterTracks',
                       'wind.inRegion', 'wind.balanced'],
            bounds='(processes, tracks per file) in %r; every listing order per process; one track with arbitrary '
                   'positions' % (WCASES,))
chk.harness('simulations', h_track, replay=r_track, validate=v_track, split=[('case', len(TCASES))],
            opts=dict(batch=True),
            functions=['TrackGenerator.TrackGenerator.run', 'TrackGenerator.TrackGenerator.balanced'],
            bounds='(processes, simulations) in %r; arbitrary event counts' % (TCASES,))
if __name__ == '__main__':
    sys.exit(chk.main())

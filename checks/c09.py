"""Synthetic tracks depend only on their own simulation's random numbers."""
import os
import sys
import types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check
from vx import core, loader, nps, tracksim as ts

chk = Check('C09', assumptions=[
    'geometry, pressure climatology, land mask, size and outer-pressure models and the sampling of tables are '
    'arbitrary functions of their arguments',
    'numpy\'s global generator returns arbitrary values on every call; the simulation\'s own generator returns '
    'arbitrary values that are a function of stream and position',
    'genesis year and hour fixed to one value; genesis day given; single precision storage not modelled'])
STEPS = 4 if chk.thorough else 3
DT = 6.0
EXTRA = {'round': lambda a, n=0: a, 'around': lambda a, n=0: a}


def good(first, last):
    """the first storm is a viable one; the other one is until its last step (steps are counted by the moves,
    one of them before the storm starts)"""
    def f(n):
        return n < last
    return f


# draws per track (one more than needed: the size may be drawn twice)
ONE = 11 + 3 * (STEPS - 1)
LIMIT = 2 * ONE
KW = dict(initDay=60)


def scenario(ex, tg, mod, n, key, memo, script=None, limit=70):
    mod.PRNG = ts.Draws(ex, memo, key, script, limit)
    tracks = tg.generateTracks(n, 0, **KW)
    return tracks, mod.PRNG.log


def lands(ex, pattern):
    """land mask of the first storm fixed step by step (further steps: any function of position)"""
    k = [0]
    f = ts.land_of(ex, {})

    def onLand(lon, lat):
        i = k[0]
        k[0] += 1
        if i < len(pattern):
            c = core.fn('u:land', lon, lat) > 0
            ex.assume(c if pattern[i] else ~c)
            return pattern[i]
        return f(lon, lat)
    return types.SimpleNamespace(onLand=onLand)


PAT = [(False, False, False), (False, True, True), (True, False, True)]


def h_tracks(ex):
    """the second track of a simulation = the only track of a fresh generator fed the same numbers"""
    U = ts.universe(ex, 2, EXTRA)
    memo = {}
    mod, st = U.load(ts.MOD), U.load('Utilities.stats')
    pat = PAT[ex.choose('land', len(PAT))]
    tg = ts.make(ex, mod, st, STEPS, DT, landfall=lands(ex, pat), good=good(0, 2 * STEPS))
    marks = []
    orig = tg._singleTrack

    class D(ts.Draws):
        pass
    mod.PRNG = ts.Draws(ex, memo, 'a', None, LIMIT)
    # remember where the draws of the second track begin
    first = [None]

    def hook(*a, **k):
        out = orig(*a, **k)
        marks.append((a[0], mod.PRNG.n))
        return out
    tg._singleTrack = hook
    tracks = tg.generateTracks(2, 0, **KW)
    end0 = [n for j, n in marks if j == 0][-1]
    log = mod.PRNG.log
    U2 = ts.universe(ex, 1, EXTRA)
    mod2, st2 = U2.load(ts.MOD), U2.load('Utilities.stats')
    tg2 = ts.make(ex, mod2, st2, STEPS, DT, good=good(0, STEPS))
    mod2.PRNG = ts.Draws(ex, memo, 'b', [log[0]] + log[end0:], LIMIT)
    ref = tg2.generateTracks(1, 0, **KW)
    ts.same(ex, tracks[1], ref[0], 'a track depends on the one before it')
    return {'same': 1}


def h_sims(ex):
    """a simulation in a process that ran another one before = the same simulation in a fresh process"""
    memo = {}
    U2 = ts.universe(ex, 1, EXTRA)
    mod2, st2 = U2.load(ts.MOD), U2.load('Utilities.stats')
    tg2 = ts.make(ex, mod2, st2, STEPS, DT, good=good(0, STEPS))
    mod2.PRNG = ts.Draws(ex, memo, 's2', None, ONE)
    ref = tg2.generateTracks(1, 2, **KW)
    U = ts.universe(ex, 2, EXTRA)
    mod, st = U.load(ts.MOD), U.load('Utilities.stats')
    pat = PAT[ex.choose('land', len(PAT))]
    tg = ts.make(ex, mod, st, STEPS, DT, landfall=lands(ex, pat), good=good(0, 2 * STEPS))
    mod.PRNG = ts.Draws(ex, memo, 's1', None, ONE)
    tg.generateTracks(1, 1, **KW)
    mod.PRNG = ts.Draws(ex, memo, 's2', None, LIMIT)
    got = tg.generateTracks(1, 2, **KW)
    ts.same(ex, got[0], ref[0], 'a simulation depends on the ones its process did before')
    ex.prove(tuple(got[0].trackId) == tuple(ref[0].trackId), 'identification of the track')
    return {'same': 1}


# draws allowed per generator: one accepted track and at most one attempt that is given up


# --- real code ---------------------------------------------------------------
def rgen(mod, seed):
    rs = loader.real('Utilities.tcrandom')
    mod.SamplingOrigin = lambda *a, **k: types.SimpleNamespace(
        ppf=lambda a, b: (155. + 10 * a, -18 + 6 * b))
    mslp = types.SimpleNamespace(get_pressure=lambda c: 1008. + 0.01 * float(np.ravel(c)[0]) + 0.1 * float(np.ravel(c)[1]))
    land = types.SimpleNamespace(onLand=lambda lon, lat: (int(lon * 3) % 2) == 0)
    tg = mod.TrackGenerator('x', dict(ts.LIMIT), {'x': 20, 'y': 10}, {'x': 1, 'y': 1}, mslp, land, dt=DT,
                            maxTimeSteps=12)
    ts.fill(tg, 1)
    return tg


class Rec(object):
    def __init__(self, seed, stream, script=None):
        R = loader.real('Utilities.tcrandom').Random
        self.r, self.log, self.script, self.n = R(seed, stream), [], script, 0

    def __getattr__(self, name):
        def f(*a, **k):
            if self.script is not None and self.n < len(self.script):
                v = self.script[self.n]
            else:
                v = getattr(self.r, name)(*a, **k)
            self.n += 1
            self.log.append(v)
            return v
        return f


def rsame(a, b):
    if len(a.data) != len(b.data):
        return 'lengths %d and %d' % (len(a.data), len(b.data))
    for c in ts.COLS:
        for i in range(len(a.data)):
            if a.data[c][i] != b.data[c][i] and not (a.data[c][i] != a.data[c][i] and b.data[c][i] != b.data[c][i]):
                return '%s at step %d: %r and %r' % (c, i, a.data[c][i], b.data[c][i])


def r_tracks(v, label, seeds=range(1, 150)):
    for seed in seeds:
        mod = loader.fresh(ts.MOD)
        tg = rgen(mod, seed)
        mod.PRNG = Rec(seed, 0)
        marks, orig = [], tg._singleTrack

        def hook(*a, **k):
            out = orig(*a, **k)
            marks.append((a[0], mod.PRNG.n))
            return out
        tg._singleTrack = hook
        tracks = tg.generateTracks(2, 0, **KW)
        end0 = [n for j, n in marks if j == 0][-1]
        log = mod.PRNG.log
        mod2 = loader.fresh(ts.MOD)
        tg2 = rgen(mod2, seed)
        mod2.PRNG = Rec(seed, 9, [log[0]] + log[end0:])
        ref = tg2.generateTracks(1, 0, **KW)
        d = rsame(tracks[1], ref[0])
        if d:
            return 'seed %d: the second track, and a single track drawn with the same random numbers, differ: %s' % (seed, d)


def r_sims(v, label, seeds=range(1, 150)):
    for seed in seeds:
        mod2 = loader.fresh(ts.MOD)
        tg2 = rgen(mod2, seed)
        mod2.PRNG = Rec(seed, 2)
        np.random.seed(7)
        ref = tg2.generateTracks(1, 2, **KW)
        mod = loader.fresh(ts.MOD)
        tg = rgen(mod, seed)
        np.random.seed(7)
        mod.PRNG = Rec(seed, 1)
        tg.generateTracks(1, 1, **KW)
        mod.PRNG = Rec(seed, 2)
        got = tg.generateTracks(1, 2, **KW)
        d = rsame(got[0], ref[0])
        if d:
            return 'seed %d: simulation 2 after simulation 1, and alone, differ: %s' % (seed, d)


class Gen(object):
    def __init__(self, bits):
        self.key, self.n = bits, 0

    def _next(self, *a):
        self.n += 1
        return core.fn('u:rand', self.key, self.n, *a)

    def uniform(self, lo=0.0, hi=1.0, size=None):
        u = self._next(1)
        ex = core.ctx()
        ex.assume(u > 0)
        ex.assume(u < 1)
        return lo + (hi - lo) * u

    def random(self, size=None):
        return self.uniform()

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._next(2)


def h_streams(ex):
    """different simulations have different keys; what a generator returns depends on its key only"""
    U = loader.Universe(symbolic=['Utilities.tcrandom'],
                        np_extra={'random': types.SimpleNamespace(Generator=Gen, Philox=lambda key=None, **k: key)},
                        stubs={'numpy.random': types.SimpleNamespace(Generator=Gen, Philox=lambda key=None, **k: key)})
    mod = U.load('Utilities.tcrandom')
    mod.ndtri = lambda u: core.fn('u:ndtri', u)
    seed, a, b = ex.int('seed', 1, 10 ** 9), ex.int('a', 0, 10 ** 6), ex.int('b', 0, 10 ** 6)
    ex.assume(a != b)
    ra, rb, rc = mod.Random(seed, a), mod.Random(seed=seed, stream=b), mod.Random(seed, a)
    ex.prove(ra.PRNG.key != rb.PRNG.key, 'two simulations share their random numbers')
    ex.prove(ra.PRNG.key == rc.PRNG.key, 'a simulation can be repeated')
    for name, args in (('uniform', ()), ('uniform', (2.0, 5.0)), ('random', ()), ('normalvariate', (1.0, 3.0)),
                       ('logisticvariate', (0.5, 2.0)), ('lognormvariate', (0.7, 0.1, 0.5))):
        x, y = getattr(ra, name)(*args), getattr(rc, name)(*args)
        ex.prove(x == y, 'two generators with one seed and stream return different numbers')
    return None


def r_streams(v, label):
    R = loader.fresh('Utilities.tcrandom').Random
    s, a, b = v['seed'], v['a'], v['b']
    ra, rb, rc = R(s, a), R(s, b), R(s, a)
    xa, xb, xc = ([r.uniform(), r.normalvariate(), r.logisticvariate(0, 1), r.lognormvariate(0.7)] for r in (ra, rb, rc))
    if xa == xb:
        return 'seed %s, simulations %s and %s return the same numbers %r' % (s, a, b, xa)
    if xa != xc:
        return 'seed %s, simulation %s returns %r and, repeated, %r' % (s, a, xa, xc)


def v_tracks(v):
    """the real code with ten seeds (the functions left open in the symbolic run have no values to carry over)"""
    return {'same': int(not r_tracks(v, None, range(500, 510)))}


def v_sims(v):
    return {'same': int(not r_sims(v, None, range(500, 510)))}


v_tracks.free = v_sims.free = True
FN = ['TrackGenerator.TrackGenerator.TrackGenerator.generateTracks',
      'TrackGenerator.TrackGenerator.TrackGenerator._singleTrack',
      'TrackGenerator.TrackGenerator.TrackGenerator._stepPressureChange',
      'TrackGenerator.TrackGenerator.TrackGenerator._stepBearing',
      'TrackGenerator.TrackGenerator.TrackGenerator._stepSpeed',
      'TrackGenerator.TrackGenerator.TrackGenerator._notValidTrackStep']
B = 'tracks of up to %d steps of 6 h, one cell, %d land patterns for the earlier storm, any for the later one' % (
    STEPS - 1, len(PAT))


def guarded(f):
    def g(v, label):
        try:
            return f(v, label)
        except Exception as exc:
            return 'generating tracks raises %r' % exc
    return g


r_tracks1, r_sims1 = guarded(r_tracks), guarded(r_sims)
chk.harness('tracks', h_tracks, replay=r_tracks1, validate=v_tracks, max_validate=1, split=[('land', len(PAT))], opts=dict(batch=True), functions=FN, bounds=B)
chk.harness('simulations', h_sims, replay=r_sims1, validate=v_sims, max_validate=1, split=[('land', len(PAT))], opts=dict(batch=True), functions=FN, bounds=B)
chk.harness('streams', h_streams, replay=r_streams, functions=['Utilities.tcrandom.Random'],
            bounds='any seed up to 10^9, any two simulation numbers up to 10^6')
if __name__ == '__main__':
    sys.exit(chk.main())

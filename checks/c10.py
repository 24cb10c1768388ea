"""Synthetic tracks against a short reference model of the storm's life."""
import datetime
import math
import os
import sys
import types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check, close
from vx import core, loader, nps, tracksim as ts

chk = Check('C10', assumptions=[
    'geometry, pressure climatology, land mask, size and outer-pressure models and the sampling of tables are '
    'arbitrary functions of their arguments (the same ones for code and reference)',
    'genesis year and hour fixed to one value, genesis day given; exact arithmetic, single-precision storage not '
    'modelled', 'cell coefficients are fixed numbers, different for each cell, quantity and land/sea'])
KW = dict(initDay=60)


class Env(object):
    """what the reference needs from the world"""
    store = staticmethod(lambda v: v)

    def __init__(self, **k):
        self.__dict__.update(k)


def simulate(env, tg, steps, dt, number):
    """one attempt: (records or None, accepted)"""
    lim = tg.gridLimit
    s = env.store
    u1, u2 = env.uniform(), env.uniform()
    lon, lat = env.origin(u1, u2)
    c = env.cell(lon, lat)
    bearing = env.table('Bearing', c, env.uniform())
    speed = env.table('Speed', c, env.uniform())
    day = KW['initDay']
    hour = env.hour()
    t0 = datetime.datetime(env.year, 1, 1) + datetime.timedelta(days=day - 1, hours=hour)
    penv = env.mslp(day, lat, lon)
    p = env.table('Pressure', c, env.upto(c, penv))
    while True:
        eps = env.normal(0, 0.335)
        r = env.rmax(penv - p, lat, eps)
        if not r > 100:
            break
    nlon, nlat = env.step(bearing, dt * speed, lon, lat)
    if not (lim['xMin'] <= nlon and nlon <= lim['xMax'] and lim['yMin'] <= nlat and nlat <= lim['yMax']):
        return None
    if penv - p < 2:
        return None
    peps, leps = env.normal(0., 2.5717), env.lognorm(0.69527, -0.06146, 0.0471)
    jday = s(day + hour / 24.)
    rec = [dict(Datetime=t0, TimeElapsed=s(0.0), Longitude=s(lon), Latitude=s(lat), Speed=s(speed), Bearing=s(bearing),
                CentralPressure=s(p), EnvPressure=s(env.poci(penv, p, lat, jday, peps)), rMax=s(r))]
    sea = (p, rec[0]['EnvPressure'], speed)          # at the last position over water
    over = 0.0
    chi = {'dp': 0.0, 'b': 0.0, 'v': 0.0}
    theta, v = bearing, speed
    for i in range(1, steps):
        q = rec[-1]
        lon, lat = env.step(q['Bearing'], s(dt * q['Speed']), q['Longitude'], q['Latitude'])
        lon, lat = s(lon), s(lat)
        jday = s(s(jday + dt / 24.) % 365)
        penv = env.mslp(jday, lat, lon)
        if lon < lim['xMin'] or lon >= lim['xMax'] or lat <= lim['yMin'] or lat > lim['yMax']:
            break
        c = env.cell(lon, lat)
        land = env.land(lon, lat)

        def ar(kind, st):
            k = st.coeffs
            al, ph, mu, sg = (k.lalpha, k.lphi, k.lmu, k.lsig) if land else (k.alpha, k.phi, k.mu, k.sig)
            chi[kind] = al[c] * chi[kind] + ph[c] * env.logistic()
            return (0.0 if i == 1 else mu[c]), sg[c] * chi[kind]
        m, d = ar('dp', tg.dpStats)
        rate = m + d
        m, d = ar('b', tg.bStats)
        theta = env.mod((theta + math.degrees(1) * d) if i == 1 else math.degrees(1) * (m + d))
        m, d = ar('v', tg.vStats)
        v = abs(v + abs(d)) if i == 1 else abs(m + d)
        if land:
            over += dt
            deficit = sea[1] - sea[0]
            alpha = 0.03515 + 0.000435 * deficit + 0.002865 * sea[2] + leps
            p = s(q['EnvPressure'] - deficit * env.exp(-alpha * over))
            po = s(env.poci(penv, p, lat, jday, peps))
        else:
            over = 0.0
            p = s(q['CentralPressure'] + rate * dt)
            if p < tg.pStats.coeffs.min[c] - 4. * tg.pStats.coeffs.sig[c]:
                p = s(q['CentralPressure'] + abs(rate) * dt)
            po = s(env.poci(penv, p, lat, jday, peps))
            sea = (p, po, s(v))
        age = s(q['TimeElapsed'] + dt)
        if po != po or po - p < (5.0 if age > 12 else 2.0):
            break
        rec.append(dict(Datetime=t0 + datetime.timedelta(hours=i * dt), TimeElapsed=age, Longitude=lon, Latitude=lat,
                        Speed=s(v), Bearing=s(theta), CentralPressure=p, EnvPressure=po, rMax=s(env.rmax(po - p, lat, eps))))
    return rec


def accepted(rec, inner, dt):
    """what an accepted track satisfies: (condition, text)"""
    if rec is None:
        return [(False, 'storm given up at its origin')]
    out = [(len(rec) > 0 and (len(rec) - 1) * dt >= 12, 'lives at least 12 hours'),
           (rec[0]['EnvPressure'] - rec[0]['CentralPressure'] > 1.0, 'starts with a pressure deficit'),
           (rec[0]['rMax'] < 100, 'starts smaller than 100 km')]
    for r in rec:
        out.append((r['CentralPressure'] < r['EnvPressure'], 'central pressure below the outer pressure'))
        out.append((r['rMax'] > 5, 'size above 5 km'))
        out.append((r['rMax'] < 500, 'size below 500 km'))
        if inner:
            for k, a, b in (('Longitude', 'xMin', 'xMax'), ('Latitude', 'yMin', 'yMax')):
                out.append((r[k] > inner[a], 'inside the inner limits'))
                out.append((r[k] < inner[b], 'inside the inner limits'))
    return out


STEPS = 4 if chk.thorough else 3
LSTEPS = 6 if chk.thorough else 5
# one attempt, with the size drawn at most three times
NDRAW = 13 + 3 * (STEPS - 1)


def symenv(ex, memo, key, mod, tg, NDRAW):
    d = ts.Draws(ex, memo, key, None, NDRAW)
    d.uniform(1900, 9998)

    def table(kind, c, q):
        rows = getattr(tg, 'allCDFInit' + kind)
        return mod.ppf(q, rows[rows[:, 0] == c][:, 1:3])

    def upto(c, penv):
        rows = tg.allCDFInitPressure[tg.allCDFInitPressure[:, 0] == c]
        top = [row[2] for row in rows if bool(row[1] < penv)]
        return d.uniform(0.0, top[-1] if top else rows[-1][2])
    return Env(store=ts.abstracted, uniform=d.uniform, normal=d.normalvariate, lognorm=d.lognormvariate,
               logistic=lambda: d.logisticvariate(0., 1.0), origin=lambda a, b: tg.originSampler.ppf(a, b),
               cell=lambda x, y: mod.stats.getCellNum(x, y, tg.gridLimit, tg.gridSpace), table=table, upto=upto,
               hour=lambda: int(d.uniform(0, 24)), year=1950,
               mslp=lambda dd, la, lo: tg.mslp.get_pressure(np.array([dd, la, lo], dtype=object)),
               rmax=mod.trackSize.rmax, step=mod.maputils.bear2LatLon, poci=mod.getPoci,
               land=lambda x, y: tg.landfall.onLand(x, y), exp=mod.np.exp, mod=lambda x: mod.np.mod(x, 360.))


# (inner limits, cells, sizes: 0 ordinary 1 arbitrary)
CASES = [(0, 1, 0), (0, 1, 1), (1, 1, 0), (0, 2, 0)] + ([(1, 1, 1), (0, 2, 1), (1, 2, 0)] if chk.thorough else [])


def h_life(ex):
    inner, ncell, sizes = CASES[ex.choose('case', len(CASES))]
    life(ex, STEPS, ts.INNER if inner else None, ncell, sizes, None, NDRAW)
    return {'same': 1}


def h_landfall(ex):
    life(ex, LSTEPS, None, 1, 0, lambda n: True, 13 + 3 * LSTEPS)
    return {'same': 1}


def life(ex, STEPS, inner, ncell, sizes, good, NDRAW):
    memo = {}
    U = ts.universe(ex, 1, None)
    mod, st = U.load(ts.MOD), U.load('Utilities.stats')
    tg = ts.make(ex, mod, st, STEPS, 6.0, ncell=ncell, inner=inner, good=good)
    if not sizes:
        def rmax(dp, lat, eps, *a, **k):
            r = core.fn('u:rmax', dp, lat, eps)
            ex.assume(r > 6)
            ex.assume(r < 90)
            return r
        mod.trackSize.rmax = rmax
    mod.PRNG = ts.Draws(ex, memo, 'a', None, NDRAW)
    got = tg.generateTracks(1, 3, **KW)
    tg.originSampler.left[0] = 1
    rec = simulate(symenv(ex, memo, 'a', mod, tg, NDRAW), tg, STEPS, 6.0, 0)
    ex.prove(rec is not None and len(got) == 1, 'a storm the model gives up is returned')
    if rec is None:
        return None
    t = got[0]
    ex.prove(tuple(t.trackId) == (0, 3), 'identification of the track')
    for c, text in accepted(rec, inner, 6.0):
        ex.prove(c, 'an accepted track: ' + text)
    ex.prove(len(t.data) == len(rec), 'the track ends where it leaves the region or becomes too weak')
    if len(t.data) != len(rec):
        return None
    for i, r in enumerate(rec):
        for k, v in r.items():
            g = t.data[k][i]
            if k == 'Datetime':
                ex.prove(abs((g - v).total_seconds()) < 1, 'time of a record')
            elif g is not v:
                ex.prove(g == v, '%s differs from the reference' % k)
        ex.prove(0 <= r['Bearing'] if i else True, 'bearing from 0')
        ex.prove(r['Bearing'] < 360 if i else True, 'bearing below 360')
        ex.prove(t.data['Speed'][i] >= 0, 'speed is not negative')
        ex.prove(core.mkb(core.z3.And(*[core.lbool(x) for x in (
            t.data['Longitude'][i] >= ts.LIMIT['xMin'], t.data['Longitude'][i] <= ts.LIMIT['xMax'],
            t.data['Latitude'][i] >= ts.LIMIT['yMin'], t.data['Latitude'][i] <= ts.LIMIT['yMax'])])),
            'position inside the region')


def h_reject(ex):
    """a storm that meets the conditions is not thrown away"""
    inner = ts.INNER if ex.choose('inner', 2) else None
    memo = {}
    U = ts.universe(ex, 1, None)
    mod, st = U.load(ts.MOD), U.load('Utilities.stats')
    tg = ts.make(ex, mod, st, STEPS, 6.0, inner=inner, good=lambda n: True)

    class Again(Exception):
        pass
    n = [0]
    real = tg.originSampler.ppf

    def ppf(a, b):
        n[0] += 1
        if n[0] > 1:
            raise Again()
        lon, lat = real(a, b)
        ex.assume(lon > ts.INNER['xMin'])
        ex.assume(lon < ts.INNER['xMax'])
        ex.assume(lat > ts.INNER['yMin'])
        ex.assume(lat < ts.INNER['yMax'])
        return lon, lat
    tg.originSampler.ppf = ppf
    mod.PRNG = ts.Draws(ex, memo, 'a', None, NDRAW)
    kept = True
    # keep one margin open at a time: the size of the last record, or the deficit of it
    try:
        got = tg.generateTracks(1, 3, **KW)
    except Again:
        kept = False
    ex.prove(kept, 'a storm that stays inside, deep and of ordinary size is thrown away')
    if kept:
        ex.prove(len(got[0].data) == STEPS, 'number of records of a storm that never ends early')
    return {'same': 1}


# --- the real code -----------------------------------------------------------
class Rec(object):
    def __init__(self, seed, stream, values=None):
        self.r, self.log, self.values = loader.real('Utilities.tcrandom').Random(seed, stream), [], values

    def __getattr__(self, name):
        def f(*a, **k):
            v = self.values.pop(0) if self.values is not None else getattr(self.r, name)(*a, **k)
            self.log.append(v)
            return v
        return f


def rcheck(seeds, scen):
    f32 = lambda v: float(np.float32(v))
    for seed in seeds:
        inner = ts.INNER if seed % 2 else None
        ncell = 1 + (seed // 2) % 2
        steps = 14
        mod = loader.fresh(ts.MOD)
        mod.SamplingOrigin = lambda *a, **k: types.SimpleNamespace(ppf=lambda a, b: (151. + 18 * a, -19.5 + 9 * b))
        mslp = lambda d, la, lo: 1006. + 0.01 * float(d) + 0.1 * float(la) + 0.02 * float(lo - 150)
        land = lambda lon, lat: (int(lon * (1 + seed % 3)) % 3) == 0
        tg = mod.TrackGenerator('x', dict(ts.LIMIT), {'x': 20 // ncell, 'y': 10}, {'x': 1, 'y': 1},
                                types.SimpleNamespace(get_pressure=lambda c: mslp(*np.ravel(c))),
                                types.SimpleNamespace(onLand=land), innerGridLimit=inner, dt=6.0 if seed % 3 else 3.0,
                                maxTimeSteps=steps)
        ts.fill(tg, ncell)
        if scen:
            tg.dpStats = ts.coeffs(dict(alpha=0.75, phi=0.5, mu=0.75, sig=1.5, min=-5.0), ncell)
        size = (lambda f: (lambda *a, **k: f(*a, **k))) if not scen else \
            (lambda f: (lambda *a, **k: f(*a, **k) * (3.0 if scen == 1 else 0.12)))
        mod.trackSize = types.SimpleNamespace(rmax=size(mod.trackSize.rmax))
        d = mod.PRNG = Rec(seed, 0)
        starts, real = [], tg.originSampler.ppf

        def ppf(a, b):
            starts.append(len(d.log) - 2)
            if len(starts) > 40:
                raise StopIteration()
            return real(a, b)
        tg.originSampler.ppf = ppf
        try:
            t = tg.generateTracks(1, 3, **KW)[0]
        except StopIteration:
            t = None
        starts = starts[:40]
        for n, a in enumerate(starts):
            last = n == len(starts) - 1
            dd = Rec(seed, 0, list(d.log[a:] if n == len(starts) - 1 else d.log[a:starts[n + 1]]) + [0.0] * 60)

            def table(kind, c, q):
                rows = getattr(tg, 'allCDFInit' + kind)
                rows = rows[rows[:, 0] == c]
                return rows[int(np.searchsorted(rows[:, 2], q)), 1]

            def upto(c, penv):
                return dd.uniform()
            e = Env(uniform=dd.uniform, normal=dd.normalvariate, lognorm=dd.lognormvariate,
                    logistic=lambda: dd.logisticvariate(0., 1.), origin=real,
                    cell=lambda x, y: int((x - 150) // (20 // ncell)), table=table, upto=upto,
                    hour=lambda: int(dd.uniform()), year=int(d.log[0]), mslp=mslp, rmax=mod.trackSize.rmax,
                    step=mod.maputils.bear2LatLon, poci=mod.getPoci, land=land, exp=math.exp, mod=lambda x: x % 360.)
            e.store = f32
            rec = simulate(e, tg, steps, tg.dt, 0)
            cond = [c for c, _ in accepted(rec, inner, tg.dt)]
            near = rec is not None and any(abs(r['EnvPressure'] - r['CentralPressure']) < 0.1 for r in rec)
            ok = all(bool(c) for c in cond)
            if t is None or not last:
                if ok and not near:
                    return 'seed %d: a storm meeting the conditions is thrown away (%d records)' % (seed, len(rec))
                continue
            if not ok:
                bad = [x for c, x in accepted(rec, inner, tg.dt) if not c]
                return 'seed %d: a storm is kept which does not satisfy: %s' % (seed, bad[0])
            if len(rec) != len(t.data):
                return 'seed %d: %d records, reference %d' % (seed, len(t.data), len(rec))
            for i, r in enumerate(rec):
                for k, v in r.items():
                    g = t.data[k][i]
                    if k == 'Datetime':
                        if abs((g - v).total_seconds()) > 1:
                            return 'seed %d: time of record %d is %s, reference %s' % (seed, i, g, v)
                    elif abs(float(g) - float(v)) > 1e-3 * max(1, abs(v)):
                        return 'seed %d: %s of record %d is %r, reference %r' % (seed, k, i, float(g), float(v))
                if t.data['Speed'][i] < 0:
                    return 'seed %d: negative speed' % seed
    return None


def r_life(v, label):
    try:
        return rcheck(range(1, 90), 0) or rcheck(range(1, 60), 1) or rcheck(range(1, 60), 2)
    except Exception as exc:
        import traceback
        return 'generating a track raises %r' % exc + traceback.format_exc()[-300:]


def v_life(v):
    return {'same': int(not (rcheck(range(300, 306), 0) or rcheck(range(300, 303), 1)))}


v_life.free = True
FN = ['TrackGenerator.TrackGenerator.TrackGenerator.generateTracks',
      'TrackGenerator.TrackGenerator.TrackGenerator._singleTrack',
      'TrackGenerator.TrackGenerator.TrackGenerator._stepPressureChange',
      'TrackGenerator.TrackGenerator.TrackGenerator._stepBearing',
      'TrackGenerator.TrackGenerator.TrackGenerator._stepSpeed',
      'TrackGenerator.TrackGenerator.TrackGenerator._notValidTrackStep']
chk.harness('life', h_life, replay=r_life, validate=v_life, max_validate=1, split=[('case', len(CASES))],
            opts=dict(batch=True), functions=FN,
            bounds='tracks of up to %d steps of 6 h, 1-2 cells, with and without inner limits, any land mask' % (STEPS - 1))
chk.harness('landfalls', h_landfall, replay=r_life, validate=v_life, max_validate=1,
            opts=dict(batch=True), functions=FN,
            bounds='storms of %d steps that never end early, every sequence of positions over land and sea' % (LSTEPS - 1))
chk.harness('kept', h_reject, replay=r_life, validate=v_life, max_validate=1, split=[('inner', 2)],
            opts=dict(batch=True), functions=FN, bounds='as above, storms that never end early')
if __name__ == '__main__':
    sys.exit(chk.main())

"""Historical tracks: values taken from one storm's records only, missing stays missing."""
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check, close
from vx import core, loader, nps

chk = Check('C15', assumptions=[
    'single-precision storage of the input columns is exact',
    'distance and bearing between two positions are arbitrary functions of the positions (0-20000 km, 0-360 degrees)',
    'whether a position is on land is an arbitrary function of the position',
    'dates are concrete, one pattern per case; values that are not a number are not modelled'])
U = loader.Universe(symbolic=['DataProcess.DataProcess', 'Utilities.loadData', 'Utilities.metutils', 'Utilities.config'],
                    stubs={'numpy.ma': type('Ma', (), {
                        'array': staticmethod(lambda v, dtype=None, **k: nps.array(v) if isinstance(
                            v, (np.ndarray, list, tuple)) else core.tofloat(v)),
                        '__getattr__': lambda s, n: getattr(np.ma, n)})()},
                    # whatever is in memory: not a number, so that it shows wherever it gets
                    np_extra={'empty': lambda shape, dtype=None, **k: nps.sarr(np.full(shape, np.nan).astype(object))
                              if dtype in ('f', 'd', 'float', float, None) else np.empty(shape, dtype)})
DP = 'DataProcess.DataProcess'
MISS = sys.maxsize
# hours since the first record; the storms' own clocks run on through the whole file
CLOCKS = [[0, 6, 12, 18, 24, 30], [0, 3 + 2 / 3., 3 + 2 / 3., 9, 15, 16], [0, 24, 6, 30, 12, 36]]
IDS = ['tcserialno', 'num+season', 'num', 'index']
CONF = """[DataProcess]
InputFile=%(dir)s/in.csv
Source=SRC
StartSeason=%(start)d
[SRC]
FieldDelimiter=,
NumberOfHeadingLines=0
Columns=%(cols)s
SpeedUnits=%(su)s
PressureUnits=%(pu)s
LengthUnits=%(lu)s
[Input]
LandMask=none
[Output]
Path=%(dir)s/out
Format=txt
"""
UNITS = [('mps', 'hPa', 'km'), ('kts', 'Pa', 'nm')]
FACTOR = [(1.0, 1.0, 1.0), (0.5144, 0.01, 1.852)]
NAMES = ['origin_year', 'origin_lon_lat', 'init_lon_lat', 'all_lon_lat', 'cyclone_tracks', 'all_bearing', 'init_bearing',
         'bearing_no_init', 'bearing_rate', 'all_speed', 'init_speed', 'speed_no_init', 'speed_rate', 'all_pressure',
         'init_pressure', 'pressure_no_init', 'pressure_rate', 'wind_speed', 'all_rmax', 'init_rmax', 'rmax_no_init',
         'rmax_rate', 'frequency', 'jday_genesis', 'jday_obs', 'jdays']


def stamp(h, k):
    """(year, month, day, hour) of a record"""
    import datetime
    # over the end of a year, or into 29 February
    start = datetime.datetime(1999, 12, 31, 14) if k % 2 == 0 else datetime.datetime(2000, 2, 28, 20)
    return start + datetime.timedelta(minutes=round(60 * h))


class Fields(object):
    """what the file reader returns: columns by name, rows by index"""

    def __init__(self, cols):
        self.cols = cols

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise ValueError('no field of name ' + k)
            return self.cols[k]
        return Fields({n: c[k] for n, c in self.cols.items()})

    def __len__(self):
        return len(next(iter(self.cols.values())))


class Mask(object):
    def __init__(self, f):
        self.f = f

    def sampleGrid(self, x, y):
        return self.f(x, y)


def case(v):
    """everything about the input that is not a number"""
    n = v['n'] + 2
    same = [bool(v['same%d' % i]) for i in range(1, n)]
    clock = CLOCKS[v['clock']][:n]
    times = [stamp(h, v['clock']) for h in clock]
    serial, season = [0], [1999]
    for s in same:
        serial.append(serial[-1] + (0 if s else 1))
        season.append(season[-1] if s else 1999 + (serial[-1] + 1) // 2)
    return n, same, clock, times, serial, season, IDS[v['id']], v['split'], v['units']


def columns(v, x, asarr):
    """the columns of the input; x(name, i) gives a number"""
    n, same, clock, times, serial, season, ident, split, units = case(v)
    c = {}
    if ident == 'tcserialno':
        c['tcserialno'] = np.array(['S%d' % s for s in serial])
        c['season'] = np.array(season)
    elif ident == 'num+season':
        c['num'] = np.array([s // 2 + 4 for s in serial])
        c['season'] = np.array(season)
    elif ident == 'num':
        c['num'] = np.array([(4, 2, 9, 1, 3)[s] for s in serial])
    else:
        c['index'] = np.array([1] + [0 if s else 1 for s in same])
        c['season'] = np.array(season)
    if split:
        for nm in ('year', 'month', 'day', 'hour', 'minute')[:6 - split]:
            c[nm] = np.array([getattr(t, nm) for t in times])
        if split == 2:
            c['hour'] = np.array([t.hour * 100 + t.minute for t in times])
    else:
        c['date'] = np.array([t.strftime('%Y-%m-%d %H:%M:%S') for t in times])
    for nm in ('lat', 'lon', 'pressure', 'vmax', 'rmax'):
        c[nm] = asarr([x(nm, i) for i in range(n)])
    return c


RANGE = {'lat': (-40, 40), 'lon': (-179, 359), 'pressure': (-999, 1200), 'vmax': (0, 300), 'rmax': (1, 200)}


def wrapped(d, ite):
    return ite(d > 180, d - 360, ite(d < -180, d + 360, d))


def oracle(v, x, dist, bear, land, ite):
    """{file: rows} by definition"""
    n, same, clock, times, serial, season, ident, split, units = case(v)
    fs, fp, fl = FACTOR[units]
    start = int(v['start'])
    rows = list(range(n))
    if ident != 'num' and start:
        rows = [i for i in rows if season[i] >= SEASON]
    first = []
    for a, i in enumerate(rows):
        if a == 0 or i - 1 not in rows:
            first.append(True)
            continue
        new = not same[i - 1]
        if not new:
            dx, dy = x('lon', i) - x('lon', i - 1), x('lat', i) - x('lat', i - 1)
            dx = wrapped(dx, ite)
            new = bool(dx > 15) or bool(dx < -15) or bool(dy > 5) or bool(dy < -5)
        first.append(new)
    second = [a > 0 and first[a - 1] and not first[a] for a in range(len(rows))]
    out = {k: [] for k in NAMES}
    prs = [ite(p < 600, MISS, ite(p > 1100, MISS, p)) for p in
           [x('pressure', i) if units == 0 else x('pressure', i) * fp for i in rows]]
    dt = [0] + [round((times[rows[a]] - times[rows[a - 1]]).total_seconds() / 3600.) for a in range(1, len(rows))]
    sp, okspeed = [], []
    for a, i in enumerate(rows):
        lo, la, ls = x('lon', i), x('lat', i), land(i)
        out['all_lon_lat'].append([lo, la, ls])
        out['cyclone_tracks'].append([1 if first[a] else 0, lo, la, ls])
        if first[a]:
            out['origin_lon_lat'].append([lo, la, ls])
            out['origin_year'].append(times[i].year if ident == 'num' else season[i])
        if a + 1 < len(rows) and second[a + 1]:
            out['init_lon_lat'].append([lo, la, ls])
        b = MISS if first[a] else bear(i - 1, i)
        out['all_bearing'].append(b)
        if first[a] or dt[a] <= 0:
            s, ok = MISS, False
            if not first[a] and dt[a] < 0:
                d = dist(i - 1, i)
                s = ite(d == 0, 0, MISS)
                ok = d == 0
        else:
            q = dist(i - 1, i) / dt[a]
            ok = q <= 200
            s = ite(ok, q, MISS)
        sp.append(s)
        okspeed.append(ok)
        out['all_speed'].append(s)
        if second[a]:
            out['init_bearing'].append(b)
            out['init_speed'].append(s)
        elif not first[a]:
            out['bearing_no_init'].append(b)
            out['speed_no_init'].append(s)
        if first[a] or second[a] or dt[a] == 0:
            out['bearing_rate'].append(MISS)
            out['speed_rate'].append(MISS)
        else:
            out['bearing_rate'].append(wrapped(b - bear(i - 2, i - 1), ite) / dt[a])
            out['speed_rate'].append(ite(okspeed[a], ite(okspeed[a - 1], (s - sp[a - 1]) / dt[a], MISS), MISS))
        p = prs[a]
        out['all_pressure'].append(p)
        if first[a]:
            out['init_pressure'].append(p)
        elif p < MISS:
            out['pressure_no_init'].append(p)
        if first[a] or dt[a] == 0:
            out['pressure_rate'].append(MISS)
        else:
            r = (p - prs[a - 1]) / dt[a]
            out['pressure_rate'].append(ite(p >= MISS, MISS, ite(prs[a - 1] >= MISS, MISS, ite(
                r > 10, MISS, ite(r < -10, MISS, r)))))
        w = x('vmax', i) if units == 0 else x('vmax', i) * fs
        out['wind_speed'].append(ite(w > 200, MISS, w))
        gone = bool(v.get('gone%d' % i, 0))
        z = MISS if gone else (x('rmax', i) if units == 0 else x('rmax', i) * fl)
        out['all_rmax'].append(z)
        if first[a]:
            out['init_rmax'].append(z)
        elif not gone:
            out['rmax_no_init'].append(z)
        if first[a] or dt[a] == 0 or gone or bool(v.get('gone%d' % (i - 1), 0)):
            out['rmax_rate'].append(MISS)
        else:
            zz = x('rmax', i - 1) if units == 0 else x('rmax', i - 1) * fl
            out['rmax_rate'].append((z - zz) / dt[a])
    ys = [times[i].year for i in rows]
    gen = [times[i].year for a, i in enumerate(rows) if first[a]]
    if ys and min(ys) != max(ys):
        out['frequency'] = [[y, gen.count(y)] for y in range(min(ys), max(ys) + 1)]
    else:
        del out['frequency']
    jd = []
    for i in rows:
        d = times[i].timetuple().tm_yday
        jd.append(d - 1 if times[i].year % 4 == 0 and d >= 60 else d)
    gd = [d for a, d in enumerate(jd) if first[a]]
    out['jday_genesis'] = [[k, gd.count(k)] for k in range(1, 366)]
    out['jday_obs'] = [[k, jd.count(k)] for k in range(1, 366)]
    out['jdays'] = gd
    return out


SEASON = 2000


def cells(v):
    """the remaining choices go with the case"""
    n = v['n'] + 2
    v['split'] = (v['clock'] + v['same1']) % 3
    v['units'] = (v['id'] + v['clock']) % 2
    v['start'] = (v['id'] // 2 + v['clock']) % 2
    for i in range(n):
        v['gone%d' % i] = 1 if (i + v['clock']) % 3 == 1 else 0
        v['land%d' % i] = 1 if (i * i + v['id']) % 3 == 1 else 0
    return n


def margins(ex, v, x, dist, focus):
    """keep away from the thresholds by more than single precision resolves"""
    n, same, clock, times, serial, season, ident, split, units = case(v)
    fs, fp, fl = FACTOR[units]

    def off(a, *ts):
        for t in ts:
            ex.assume(core.mkb(core.z3.Or(core.lbool(a <= t - EPS), core.lbool(a >= t + EPS))))
    for i in range(n):
        p = x('pressure', i) * fp
        off(p, 600, 1100)
        if focus == 0:
            ex.assume(p >= 600)
            ex.assume(p <= 1100)
        off(x('vmax', i) * fs, 200)
        if i:
            dt = round((times[i] - times[i - 1]).total_seconds() / 3600.)
            dx, dy = wrapped(x('lon', i) - x('lon', i - 1), core.ite), x('lat', i) - x('lat', i - 1)
            if focus == 0 and same[i - 1] and (n < 4 or chk.thorough or i == 1 + (v['clock'] + same[0]) % (n - 1)):
                off(dx, 15, -15, 180, -180)
                off(dy, 5, -5)
            elif focus == 0 or same[i - 1]:
                for c in (dx < 15, dx > -15, dy < 5, dy > -5):
                    ex.assume(c)
            else:
                ex.assume(dx < -16)
                ex.assume(dy < -6)
            off((p - x('pressure', i - 1) * fp), 10 * dt, -10 * dt)
            if dt:
                off(dist(i), 200 * dt)


EPS = 2 ** -7


def h_process(ex):
    v = {'n': ex.choose('n', 4), 'id': ex.choose('id', 4), 'clock': ex.choose('clock', len(CLOCKS))}
    if v['n'] > 1 and not chk.thorough and v['clock'] != v['id'] % len(CLOCKS):
        ex.assume(False)
    for i in range(1, v['n'] + 2):
        v['same%d' % i] = ex.choose('same%d' % i, 2)
    n = cells(v)
    focus = ex.choose('focus', 2)
    if v['start'] and IDS[v['id']] != 'num' and len([s for s in case(v)[5] if s >= SEASON]) < 2:
        ex.assume(False)
    val = {}

    def raw(nm, i):
        if nm == 'rmax' and v['gone%d' % i]:
            return MISS
        if (nm, i) not in val:
            lo, hi = RANGE[nm]
            k = 100 if nm == 'pressure' and v['units'] else 1
            val[nm, i] = ex.real('%s%d' % (nm, i), lo * k, hi * k)
        return val[nm, i]
    pairs = {}

    def pair(what, i, j, hi):
        if (what, i, j) not in pairs:
            pairs[what, i, j] = ex.real('%s%d' % (what, j), 0, hi)
        return pairs[what, i, j]

    def land(i):
        return v['land%d' % i]
    cols = columns(v, raw, nps.sarr)
    index = {str(val['lat', i].e): i for i in range(n)}

    def row(y):
        return index[str(core.z3.simplify(y.e))]

    def azi(lat, lon, *a, **k):
        rows = [row(y) for y in lat]
        return (nps.sarr([pair('b', i, j, 360) for i, j in zip(rows[:-1], rows[1:])]),
                nps.sarr([pair('d', i, j, 20000) for i, j in zip(rows[:-1], rows[1:])]))
    memo = {}

    def x(nm, i):
        if (nm, i) not in memo:
            r = raw(nm, i)
            if nm == 'lon':
                r = core.ite(r < 0, r + 360, r)
            memo[nm, i] = r
        return memo[nm, i]
    margins(ex, v, x, lambda i: pair('d', i - 1, i, 20000), focus)
    m = U.load(DP)
    U.load('Utilities.config').reset()
    saved = run(m, v, cols, azi, lambda px, py: land(row(py)), nps.array, lambda c, f, s: Fields(cols))
    want = oracle(v, x, lambda i, j: pair('d', i, j, 20000), lambda i, j: pair('b', i, j, 360), land, core.ite)
    for k in NAMES:
        if k not in want:
            ex.prove(k not in saved, 'no frequency of a single year')
            continue
        ex.prove(k in saved, 'every file is written')
        got, w = flat(saved[k]), flat(want[k])
        ex.prove(len(got) == len(w), '%s: one row for each value' % k)
        if all(core.isconc(a) for a in got + w):
            got, w = [all(same_value(a, b) for a, b in zip(got, w))], [True]
        for a, b in zip(got, w):
            ex.prove(same_value(a, b), '%s: the value of the storm itself, or missing' % k)
    return {'speed': saved['all_speed'][-1], 'rate': saved['pressure_rate'][-1]}


def flat(rows):
    out = []
    for r in rows:
        out += list(r) if isinstance(r, (list, tuple, np.ndarray)) else [r]
    return out


def run(m, v, cols, azi, land, arr, read):
    """{file: rows} of the code in module m"""
    saved = {}
    d = tempfile.mkdtemp(prefix='c15')
    old = m.maputils
    try:
        su, pu, lu = UNITS[v['units']]
        with open(os.path.join(d, 'c.ini'), 'w') as fh:
            fh.write(CONF % dict(dir=d, cols=','.join(cols), su=su, pu=pu, lu=lu, start=SEASON if v['start'] else 1))
        if read:
            m.colReadCSV = read
        else:
            with open(os.path.join(d, 'in.csv'), 'w') as fh:
                for r in zip(*cols.values()):
                    fh.write(','.join(str(x) for x in r) + '\n')
        m.maputils = type('M', (), {'latLon2Azi': staticmethod(azi)})
        m.SampleGrid = lambda f: Mask(land)
        m.flSaveFile = lambda f, data, *a, **k: saved.__setitem__(os.path.basename(f), arr(data).copy())
        m.DataProcess(os.path.join(d, 'c.ini')).processData()
    finally:
        m.maputils = old
        shutil.rmtree(d)
    return saved


def same_value(a, b):
    if core.isconc(a) and core.isconc(b):
        return close(float(a), float(b), 1e-6, 1e-9)
    if core.is_special(a) or core.is_special(b):
        return False
    return core.s_abs(core.s_sub(a, b)) <= 1e-4


def on_real(v):
    """(files of the real code, files by definition) for concrete inputs"""
    v = dict(v)
    n = cells(v)

    def raw(nm, i):
        if nm == 'rmax' and v['gone%d' % i]:
            return MISS
        k = 100 if nm == 'pressure' and v['units'] else 1
        return float(np.float32(v.get('%s%d' % (nm, i), RANGE[nm][0] * k)))
    cols = columns(v, raw, list)
    lats = [raw('lat', i) for i in range(n)]
    lons = [raw('lon', i) for i in range(n)]

    def rows(lat, lon):
        out, a = [], 0
        for y, z in zip(lat, lon):
            while not (close(lats[a], y, 1e-6, 1e-6) and close((lons[a] - z + 180) % 360, 180, 1e-6, 1e-4)):
                a += 1
            out.append(a)
            a += 1
        return out

    def azi(lat, lon, *a, **k):
        r = rows(lat, lon)
        return (np.array([v.get('b%d' % j, 0.) for j in r[1:]]), np.array([v.get('d%d' % j, 0.) for j in r[1:]]))
    seen = []

    def land(px, py):
        # positions are asked for in the order of the records
        a = seen[-1] + 1 if seen else 0
        while not (close(lats[a], py, 1e-6, 1e-6) and close((lons[a] - px + 180) % 360, 180, 1e-6, 1e-4)):
            a += 1
        seen.append(a)
        return 1 if v.get('land%d' % a) else 0
    m = loader.fresh(DP, private=['Utilities.config'])
    m.colReadCSV = loader.fresh('Utilities.columns', private=['Utilities.config']).colReadCSV
    got = run(m, v, cols, azi, land, np.array, None)
    want = oracle(v, lambda nm, i: raw(nm, i) if nm != 'lon' else raw(nm, i) % 360,
                  lambda i, j: v.get('d%d' % j, 0.), lambda i, j: v.get('b%d' % j, 0.),
                  lambda i: 1 if v.get('land%d' % i) else 0, lambda c, a, b: a if c else b)
    return got, want


def r_process(v, label=None):
    try:
        got, want = on_real(v)
    except Exception as e:
        return 'fails with %s: %s' % (type(e).__name__, e)
    for k in NAMES:
        if (k in got) != (k in want):
            return '%s: written %s, expected %s' % (k, k in got, k in want)
        if k not in want:
            continue
        g, w = flat(got[k]), flat(want[k])
        if len(g) != len(w):
            return '%s: %d values, expected %d' % (k, len(g), len(w))
        for i, (a, b) in enumerate(zip(g, w)):
            if not close(float(a), float(b), 1e-4, 1e-3):
                return '%s: value %d is %r, expected %r' % (k, i, float(a), float(b))
    return None


def v_process(v):
    got, want = on_real(v)
    return {'speed': float(got['all_speed'][-1]), 'rate': float(got['pressure_rate'][-1])}


chk.harness('process', h_process, replay=r_process, validate=v_process, split=[('n', 4 if chk.thorough else 3), ('id', 4), ('same1', 2), ('focus', 2)],
            opts=dict(divzero='nan'),
            functions=['DataProcess.DataProcess.DataProcess.processData', 'Utilities.loadData.getInitialPositions',
                       'Utilities.loadData.parseDates', 'Utilities.loadData.getTimeDelta',
                       'Utilities.loadData.julianDays', 'Utilities.metutils.convert'],
            bounds='2-%d records in every division into storms, told apart by serial number, number and season, '
                   'number, or a marker; dates as text, as columns, or with hours and minutes in one column; records '
                   '6 h, 3 h and 0 h apart or out of order, from one storm to the next across a year; any position, '
                   'pressure, wind speed, radius; radius missing in every third record' % (5 if chk.thorough else 4))

if __name__ == '__main__':
    sys.exit(chk.main())

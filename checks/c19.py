"""Evaluation of tracks: meridian crossings, landfalls, densities and pressures count what the tracks do."""
import os
import shutil
import sys
import tempfile
import types
import warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check, close
from vx import core, loader, nps

warnings.simplefilter('ignore')
chk = Check('C19', assumptions=[
    'arithmetic on reals',
    'no storm position lies on a gate, an edge of the coast or of a cell, and no step '
    'goes through a corner',
    'tracks are objects with arrays of longitude, latitude and central pressure; reading them is not part of this check'])
LF, LC, TD, PD, IN, TR = ('Evaluate.landfallRates', 'Evaluate.longitudeCrossing', 'Evaluate.trackDensity',
                          'Evaluate.pressureDistribution', 'Utilities.Intersections', 'Utilities.track')
OPTS = dict(timeout_ms=20000, branch_timeout_ms=5000, max_paths=20000)


class Ma(object):
    """numpy.ma where zero stands for masked"""
    @staticmethod
    def zeros(n, *a, **k):
        return nps.sarr(np.zeros(n).tolist())

    @staticmethod
    def masked_equal(a, v, **k):
        return a

    def __getattr__(self, n):
        return getattr(np.ma, n)


def hist2(x, y, bins=10, **k):
    if len(x) != len(y):
        raise ValueError('x and y must have the same length.')
    xs, ys = [[float(b) for b in np.asarray(e).tolist()] for e in bins]
    out = np.zeros((len(xs) - 1, len(ys) - 1))

    def where(v, e):
        for i in range(len(e) - 1):
            if bool(v >= e[i]) and bool((v < e[i + 1]) if i < len(e) - 2 else (v <= e[i + 1])):
                return i
        return None
    for a, b in zip(list(x), list(y)):
        i = where(a, xs)
        j = where(b, ys)
        if i is not None and j is not None:
            out[i, j] += 1
    return out, xs, ys


def hist(a, bins=10, density=None, **k):
    """numpy.histogram, one branch per bin"""
    e = [float(b) for b in np.asarray(bins).tolist()]
    out = np.zeros(len(e) - 1)
    for v in list(a):
        for i in range(len(e) - 1):
            if bool(v >= e[i]) and bool((v < e[i + 1]) if i < len(e) - 2 else (v <= e[i + 1])):
                out[i] += 1
                break
    if density:
        with np.errstate(all='ignore'):
            out = out / np.diff(e) / out.sum()
    return out, e


U = loader.Universe(symbolic=[LF, LC, TD, PD, IN, TR], stubs={'numpy.ma': Ma()},
                    np_extra={'histogram': hist, 'histogram2d': hist2})
CONF = """[Region]
gridLimit={'xMin':%g,'xMax':%g,'yMin':%g,'yMax':%g}
gridSpace={'x':%g,'y':%g}
[Output]
Path=%s
[TrackGenerator]
YearsPerSimulation=%d
[Input]
CoastlineGates=%s
"""
SHAPES = [
    # counter-clockwise square, clockwise triangle standing on a corner, clockwise L, open coast closed on the inland side
    ([(10, 0), (20, 0), (20, 10), (10, 10)], [[(10, 0), (20, 0), (20, 10), (10, 10)]]),
    ([(15, 0), (10, 10), (20, 10)], [[(15, 0), (20, 10), (10, 10)]]),
    ([(10, 0), (10, 10), (14, 10), (14, 4), (20, 4), (20, 0)], [[(10, 0), (14, 0), (14, 10), (10, 10)],
                                                                [(10, 0), (20, 0), (20, 4), (10, 4)]]),
    ([(10, 5), (14, 2), (18, 6), (22, 3), (22, 12), (10, 12)], [[(10, 5), (14, 2), (14, 12), (10, 12)],
                                                               [(14, 2), (18, 6), (18, 12), (14, 12)],
                                                               [(18, 6), (22, 3), (22, 12), (18, 12)]])]


def make(mod, cls, region=(110, 114, -20, -16), space=(2, 2), gates=None, years=1, private=None):
    d = tempfile.mkdtemp()
    try:
        g = os.path.join(d, 'gates.csv')
        with open(g, 'w') as f:
            for i, (x, y) in enumerate(gates or [(0, 0), (1, 0), (1, 1)]):
                f.write('%d,%g,%g\n' % (i, x, y))
        c = os.path.join(d, 'c.ini')
        with open(c, 'w') as f:
            f.write(CONF % (region + space + (d, years, g)))
        cfg = loader.real('Utilities.config')
        cfg.reset()
        try:
            return getattr(mod, cls)(c)
        finally:
            cfg.reset()
    finally:
        shutil.rmtree(d)


def track(lon, lat, arr, cp=None):
    t = types.SimpleNamespace(Longitude=arr(lon), Latitude=arr(lat), CycloneNumber=arr([1] * len(lon)))
    if cp is not None:
        t.CentralPressure = arr(cp)
    return t


def guard(f):
    def r(v, label=None):
        try:
            return f(v, label)
        except (IndexError, KeyError, ValueError, TypeError, AttributeError, NameError, ZeroDivisionError) as e:
            return '%s: %s' % (type(e).__name__, e)
    return r


def quiet(f):
    """a validation that leaves failing code to the replay"""
    def r(v):
        try:
            return f(v)
        except (IndexError, KeyError, ValueError, TypeError, AttributeError, NameError, ZeroDivisionError):
            return None
    return r


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12)


# ---- meridian crossings --------------------------------------------------------------------------
def crossings(lon, lat, gates, edges):
    """per gate: (bin, east to west?) of every crossing; latitudes compared without division"""
    out = []
    for g in gates:
        row = []
        for i in range(len(lon) - 1):
            w = [bool(x < g) for x in lon[i:i + 2]]
            if w[0] == w[1]:
                continue
            dx = lon[i + 1] - lon[i]
            yd = lat[i] * (lon[i + 1] - g) + lat[i + 1] * (g - lon[i])
            s = 1 if w[0] else -1
            k = [bool(s * yd >= s * e * dx) for e in edges].count(True)
            if 0 < k < len(edges):
                row.append((k - 1, not w[0]))
        out.append(row)
    return out


def crossing_hist(cr, edges):
    n = len(edges) - 1
    res = []
    for pick in (lambda c: True, lambda c: c[1], lambda c: not c[1]):
        h = np.zeros((n, len(cr)))
        for k, row in enumerate(cr):
            for c in row:
                if pick(c):
                    h[c[0], k] += 1
            if h[:, k].sum():
                h[:, k] = h[:, k] / h[:, k].sum() / np.diff(edges)
        res.append(h)
    return res


def cross_grid(v):
    """gates at 110 or at 110 and 120"""
    return (110, 114 if not v else 122, -20, -16)


def h_crossing(ex):
    two = ex.choose('two', 2)
    n = 2 if two else 3
    lon = [ex.real('x%d' % k, 100, 130) for k in range(n)]
    lat = [ex.real('y%d' % k, -24, -12) for k in range(n)]
    gates, edges = [110., 120.][:1 + two], [-20., -18., -16.]
    for x in lon:
        for g in gates:
            ex.assume(x != g)
    for i in range(n - 1):
        for g in gates:
            for e in edges:
                ex.assume(lat[i] * (lon[i + 1] - g) + lat[i + 1] * (g - lon[i]) != e * (lon[i + 1] - lon[i]))
    o = make(U.load(LC), 'LongitudeCrossing', cross_grid(two))
    got = o.findCrossings([track([105., 105.5], [-18., -18.], nps.sarr), track(lon, lat, nps.sarr)])
    want = crossing_hist(crossings(lon, lat, gates, edges), edges)
    for g, w, what in zip(got, want, ('all crossings', 'crossings from the east', 'crossings from the west')):
        ex.prove(same(g, w), what)
    return {'h': float(got[0][0, 0]), 'e': float(got[1][1, 0])}


def crossing_real(v):
    two = v['two']
    n = 2 if two else 3
    lon, lat = [[float(v['%s%d' % (c, k)]) for k in range(n)] for c in 'xy']
    o = make(loader.real(LC), 'LongitudeCrossing', cross_grid(two))
    return lon, lat, o.findCrossings([track([105., 105.5], [-18., -18.], np.array), track(lon, lat, np.array)])


def v_crossing(v):
    got = crossing_real(v)[2]
    return {'h': float(got[0][0, 0]), 'e': float(got[1][1, 0])}


@guard
def r_crossing(v, label=None):
    lon, lat, got = crossing_real(v)
    gates, edges = [110., 120.][:1 + v['two']], [-20., -18., -16.]
    want = crossing_hist(crossings(lon, lat, gates, edges), edges)
    for g, w, what in zip(got, want, ('all crossings', 'crossings from the east', 'crossings from the west')):
        if not same(g, w):
            return '%s of a track through %r, %r: %r, expected %r' % (what, lon, lat, np.asarray(g).tolist(), w.tolist())
    return None


# ---- landfall ------------------------------------------------------------------------------------
def left(a, b, p):
    return (b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1])


def inside(p, parts):
    """in the union of convex counter-clockwise parts"""
    return any(all(bool(left(c[i], c[(i + 1) % len(c)], p) > 0) for i in range(len(c))) for c in parts)


def gates_crossed(a, b, g):
    out = []
    for j in range(1, len(g)):
        s = [bool(left(g[j - 1], g[j], p) > 0) for p in (a, b)]
        if s[0] != s[1] and bool(left(a, b, g[j - 1]) > 0) != bool(left(a, b, g[j]) > 0):
            out.append(j - 1)
    return out


def rates(js, n):
    h = np.zeros(n)
    for j in js:
        h[j] += 1
    return h / h.sum() if js else h


def general(ex, pts, g, parts):
    for p in pts:
        for c in parts + [g]:
            for i in range(len(c)):
                ex.assume(left(c[i], c[(i + 1) % len(c)], p) != 0)
    for i in range(len(pts) - 1):
        for q in g:
            ex.assume(left(pts[i], pts[i + 1], q) != 0)


def h_landfall(ex):
    k = ex.choose('shape', 3)
    g, parts = SHAPES[k]
    n = ex.choose('extra', 2 if k < 2 or chk.thorough else 1)
    p = [(ex.real('x%d' % k, 0, 30), ex.real('y%d' % k, -10, 20)) for k in range(2)]
    general(ex, p, g, parts)
    o = make(U.load(LF), 'LandfallRates', gates=g)
    pts = [p] if not n else [[(3.1, 7.3), (12., 8.), (5.2, 25.)], p]
    lf, of = [], []
    for t in pts:
        for a, b in zip(t, t[1:]):
            ia, ib = inside(a, parts), inside(b, parts)
            if ia != ib:
                (lf if ib else of).extend(gates_crossed(a, b, g))
    got = o.processTracks([track([q[0] for q in t], [q[1] for q in t], nps.sarr) for t in pts])
    ex.prove(same(got[0], rates(lf, len(g) - 1)), 'landfalls per gate')
    ex.prove(same(got[1], rates(of, len(g) - 1)), 'departures per gate')
    return {'l': float(got[0][0]), 'o': float(got[1][1])}


def landfall_real(v):
    g, parts = SHAPES[v['shape']]
    p = [(float(v['x%d' % k]), float(v['y%d' % k])) for k in range(2)]
    pts = [p] if not v['extra'] else [[(3.1, 7.3), (12., 8.), (5.2, 25.)], p]
    return pts, make(loader.real(LF), 'LandfallRates', gates=g).processTracks(
        [track([q[0] for q in t], [q[1] for q in t], np.array) for t in pts])


def v_landfall(v):
    got = landfall_real(v)[1]
    return {'l': float(got[0][0]), 'o': float(got[1][1])}


@guard
def r_landfall(v, label=None):
    g, parts = SHAPES[v['shape']]
    pts, got = landfall_real(v)
    lf, of = [], []
    for t in pts:
        for a, b in zip(t, t[1:]):
            ia, ib = inside(a, parts), inside(b, parts)
            if ia != ib:
                (lf if ib else of).extend(gates_crossed(a, b, g))
    for a, b, what in zip(got, (lf, of), ('landfalls', 'departures')):
        if not same(a, rates(b, len(g) - 1)):
            return '%s of tracks %r at coast %r: %r, expected %r' % (what, pts, g, np.asarray(a).tolist(), rates(b, len(g) - 1).tolist())
    return None


# ---- point in polygon ----------------------------------------------------------------------------
def corners(v, g):
    g = g[::-1] if v['reversed'] else g
    k = v['first'] % len(g)
    g = g[k:] + g[:k]
    return g + g[:1]


def h_inland(ex):
    g, parts = SHAPES[ex.choose('shape', len(SHAPES))]
    c = corners({'reversed': ex.choose('reversed', 2), 'first': ex.choose('first', 6 if chk.thorough else 3)}, g)
    p = (ex.real('x', 0, 30), ex.real('y', -10, 20))
    general(ex, [p], g, parts)
    m = U.load(IN)
    got = bool(m.inLand(m.Point(*p), [m.Point(*q) for q in c]))
    ex.prove(got == inside(p, parts), 'inside the coast or not')
    return {'in': int(got)}


def inland_real(v):
    g, parts = SHAPES[v['shape']]
    m = loader.real(IN)
    p = (float(v['x']), float(v['y']))
    return p, corners(v, g), bool(m.inLand(m.Point(*p), [m.Point(*q) for q in corners(v, g)])), inside(p, parts)


@guard
def r_inland(v, label=None):
    p, c, got, want = inland_real(v)
    return None if got == want else 'point %r is %s coast %r, found %s' % (
        p, 'inside' if want else 'outside', c, 'inside' if got else 'outside')


def v_inland(v):
    return {'in': int(inland_real(v)[2])}


# ---- density -------------------------------------------------------------------------------------
XE, YE = [110., 112., 114.], [-20., -17., -14.]


def cell(x, y):
    i = [bool(x >= e) for e in XE].count(True)
    j = [bool(y >= e) for e in YE].count(True)
    return (i - 1, j - 1) if 0 < i < 3 and 0 < j < 3 else None


FIXED = [(111., -18.)]


def split(ps):
    return [ps[:2], ps[2:]]


def points(ex, n):
    ps = [(ex.real('x%d' % k, 108, 116), ex.real('y%d' % k, -23, -11)) for k in range(n)]
    for x, y in ps:
        for e in XE:
            ex.assume(x != e)
        for e in YE:
            ex.assume(y != e)
    return ps


def density(o, ps, arr):
    return o.calculate([track([p[0] for p in t], [p[1] for p in t], arr) for t in split(ps)])


def h_density(ex):
    ps = points(ex, 2) + FIXED
    o = make(U.load(TD), 'TrackDensity', (110, 114, -20, -14), (2, 3))
    want = np.zeros((2, 2))
    for p in ps:
        c = cell(*p)
        if c:
            want[c] += 1
    got = density(o, ps, nps.sarr)
    ex.prove(same(got, want), 'positions per cell')
    return {'d': float(got[0, 0])}


def v_density(v):
    ps = [(float(v['x%d' % k]), float(v['y%d' % k])) for k in range(2)] + FIXED
    return {'d': float(density(make(loader.real(TD), 'TrackDensity', (110, 114, -20, -14), (2, 3)), ps, np.array)[0, 0])}


@guard
def r_density(v, label=None):
    ps = [(float(v['x%d' % k]), float(v['y%d' % k])) for k in range(2)] + FIXED
    want = np.zeros((2, 2))
    for p in ps:
        c = cell(*p)
        if c:
            want[c] += 1
    got = density(make(loader.real(TD), 'TrackDensity', (110, 114, -20, -14), (2, 3)), ps, np.array)
    return None if same(got, want) else 'positions %r counted %r, expected %r' % (ps, np.asarray(got).tolist(), want.tolist())


# ---- pressures -----------------------------------------------------------------------------------
def h_pressure(ex):
    ps = points(ex, 2) + FIXED
    cp = [ex.real('p%d' % k, 850, 1019) for k in range(3)]
    o = make(U.load(PD), 'PressureDistribution', (110, 114, -20, -14), (2, 3))
    ts = [track([p[0] for p in t], [p[1] for p in t], nps.sarr, c) for t, c in zip(split(ps), split(cp))]
    got = o.calculate(ts)
    want = {}
    for p, c in zip(ps, cp):
        k = cell(*p)
        if k:
            want.setdefault(k, []).append(c)
    for i in range(2):
        for j in range(2):
            w = want.get((i, j))
            g = [m[i, j] for m in got]
            if not w:
                for x in g:
                    ex.prove_eq(x, 0, 'no value in an empty cell')
                continue
            lo, hi = w[0], w[0]
            for x in w[1:]:
                lo, hi = core.ite(x < lo, x, lo), core.ite(x > hi, x, hi)
            ex.prove_eq(g[0] * len(w), sum(w[1:], w[0]), 'mean pressure')
            ex.prove_eq(g[1], lo, 'lowest pressure')
            ex.prove_eq(g[2], hi, 'highest pressure')
            med = w[0] if len(w) == 1 else (w[0] + w[1]) / 2 if len(w) == 2 else w[0] + w[1] + w[2] - lo - hi
            ex.prove_eq(g[3], med, 'median pressure')
    return {'m': got[0][0, 0], 'd': got[3][0, 0]}


def v_pressure(v):
    ps = [(float(v['x%d' % k]), float(v['y%d' % k])) for k in range(2)] + FIXED
    cp = [float(v['p%d' % k]) for k in range(3)]
    o = make(loader.real(PD), 'PressureDistribution', (110, 114, -20, -14), (2, 3))
    got = o.calculate([track([p[0] for p in t], [p[1] for p in t], np.array, c) for t, c in zip(split(ps), split(cp))])
    return {'m': float(got[0][0, 0]), 'd': float(got[3][0, 0])}


@guard
def r_pressure(v, label=None):
    ps = [(float(v['x%d' % k]), float(v['y%d' % k])) for k in range(2)] + FIXED
    cp = [float(v['p%d' % k]) for k in range(3)]
    o = make(loader.real(PD), 'PressureDistribution', (110, 114, -20, -14), (2, 3))
    got = o.calculate([track([p[0] for p in t], [p[1] for p in t], np.array, c) for t, c in zip(split(ps), split(cp))])
    want = {}
    for p, c in zip(ps, cp):
        k = cell(*p)
        if k:
            want.setdefault(k, []).append(c)
    for i in range(2):
        for j in range(2):
            w = want.get((i, j))
            g = [m[i, j] for m in got]
            if not w:
                if not all(x is np.ma.masked for x in g):
                    return 'cell %d, %d is empty and has %r' % (i, j, g)
                continue
            e = [np.mean(w), min(w), max(w), np.median(w)]
            if not same([float(x) for x in g], e):
                return 'cell %d, %d with pressures %r has %r, expected %r' % (i, j, w, g, e)
    return None


def h_lowest(ex):
    ps = [(ex.real('x%d' % k, 108, 116), ex.real('y%d' % k, -23, -11)) for k in range(2)]
    cp = [ex.real('p%d' % k, 851, 1014) for k in range(4)]
    for p in ps:
        ex.assume(core.mkb(core.z3.And(*[core.lbool(p[0] != e) for e in XE] + [core.lbool(p[1] != e) for e in YE])))
    for c in cp:        # two bins only
        ex.assume(core.mkb(core.z3.Or(core.lbool(c < 854), core.z3.And(core.lbool(c > 901), core.lbool(c < 904)))))
    o = make(U.load(PD), 'PressureDistribution', (110, 114, -20, -14), (2, 3))
    T = U.load(TR).Track
    ts = []
    for p, c in zip(ps, split(cp)):
        t = track([p[0], 112.5], [p[1], -15.], nps.sarr, c)
        t.inRegion = types.MethodType(T.inRegion, t)
        ts.append(t)
    h, low = o.calcMinPressure(ts)
    n = [0, 0]
    for k, (p, c) in enumerate(zip(ps, split(cp))):
        m = core.ite(c[1] < c[0], c[1], c[0])
        if cell(*p):
            ex.prove_eq(low[k], m, 'lowest pressure of a storm')
            n[0 if bool(m < 900) else 1] += 1
        else:
            ex.prove_eq(low[k], 0, 'storm from outside the region')
    if sum(n):
        want = np.zeros(33)
        want[0], want[10] = n[0] / 5. / sum(n), n[1] / 5. / sum(n)
        ex.prove(same(h, want), 'distribution of lowest pressures')
    return {}


@guard
def r_lowest(v, label=None):
    ps = [(float(v['x%d' % k]), float(v['y%d' % k])) for k in range(2)]
    cp = [float(v['p%d' % k]) for k in range(4)]
    o = make(loader.real(PD), 'PressureDistribution', (110, 114, -20, -14), (2, 3))
    T = loader.real(TR).Track
    ts = []
    for p, c in zip(ps, split(cp)):
        d = np.zeros(2, dtype=[('Longitude', 'f8'), ('Latitude', 'f8'), ('CentralPressure', 'f8')])
        d['Longitude'], d['Latitude'], d['CentralPressure'] = [p[0], 112.5], [p[1], -15.], c
        ts.append(T(d))
    h, low = o.calcMinPressure(ts)
    want = np.array([min(c) if cell(*p) else 0. for p, c in zip(ps, split(cp))])
    if not same(low, want):
        return 'lowest pressures %r, expected %r' % (low.tolist(), want.tolist())
    w = np.histogram(want[want > 0], np.arange(850., 1020., 5.), density=True)[0]
    if want.any() and not same(h, w):
        return 'distribution %r, expected %r' % (h.tolist(), w.tolist())
    return None


chk.harness('crossing', h_crossing, replay=r_crossing, validate=quiet(v_crossing), max_validate=6, opts=OPTS, split=[('two', 2)],
            functions=[LC + '.LongitudeCrossing.findCrossings', IN + '.Crossings.LineLine'],
            bounds='a track of 3 positions and one gate, or of 2 and two gates; two bands of latitude')
chk.harness('landfall', h_landfall, replay=r_landfall, validate=quiet(v_landfall), max_validate=6, opts=OPTS, split=[('shape', 3)],
            functions=[LF + '.LandfallRates.processTracks', IN + '.inLand', IN + '.Crossings.LineLine'],
            bounds='three coasts of 3-6 gates, any step of a storm, alone or with another storm that arrives and leaves')
chk.harness('inland', h_inland, replay=r_inland, validate=quiet(v_inland), max_validate=6, opts=OPTS, split=[('shape', len(SHAPES))],
            functions=[IN + '.inLand', IN + '._cnPnPoly', IN + '._wnPnPoly'],
            bounds='any point, four coasts in both directions from three (all) first corners')
chk.harness('density', h_density, replay=r_density, validate=quiet(v_density), max_validate=6, opts=OPTS, functions=[TD + '.TrackDensity.calculate'],
            bounds='two tracks of together 3 positions, 2 x 2 cells')
chk.harness('pressure', h_pressure, replay=r_pressure, validate=quiet(v_pressure), max_validate=6, opts=OPTS, functions=[PD + '.PressureDistribution.calculate'],
            bounds='two tracks of together 3 positions, 2 x 2 cells')
chk.harness('lowest', h_lowest, replay=r_lowest, opts=OPTS,
            functions=[PD + '.PressureDistribution.calcMinPressure', TR + '.Track.inRegion'],
            bounds='two tracks of two positions, the second inside the region')


# a position exactly on a meridian (KNOWN_FINDINGS.md)
def known():
    o = make(loader.real(LC), 'LongitudeCrossing', (110, 114, -20, -16))
    h = o.findCrossings([track([112., 110., 108.], [-19., -19., -19.], np.array), track([112., 108.], [-17., -17.], np.array)])[0]
    if h[0, 0] > h[1, 0]:
        chk.known.append('a storm position exactly on a meridian is counted as two crossings')


if __name__ == '__main__':
    quiet(lambda v: known())(None)
    sys.exit(chk.main())

"""The wind field of an event holds the strongest gust of any time step, in place."""
import datetime
import itertools
import math
import os
import shutil
import sys
import tempfile
import types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check
from vx import core, loader, nps

chk = Check('C11', assumptions=[
    'the vortex and pressure models return arbitrary values at every point and time step; distance, square root and '
    'arc tangent are arbitrary functions (square roots not negative)',
    'exact arithmetic; the margin is a multiple of the grid spacing, which is a multiple of 0.01 degrees',
    'single-precision storage not modelled'])
Z = core.z3


class Track(object):
    def __init__(self, **k):
        self.__dict__.update(k)
        self.data = list(self.Longitude)
        self.trackId, self.trackfile = (0, 1), 'x.nc'


def track(lons, lats, arr, env=None, cen=None, extra=None):
    n = len(lons)
    d = dict(Longitude=lons, Latitude=lats, EnvPressure=env or [1010. + i for i in range(n)],
             CentralPressure=cen or [950. + 3 * i for i in range(n)], rMax=[30. + i for i in range(n)],
             Speed=[18. + 9 * i for i in range(n)], Bearing=[200. + 30 * i for i in range(n)],
             TimeElapsed=[6. * i for i in range(n)])
    d.update(extra or {})
    t = Track(**{k: arr(v) for k, v in d.items()})
    t.Datetime = [datetime.datetime(2000, 1, 1) + datetime.timedelta(hours=6 * i) for i in range(n)]
    return t


class World(object):
    """stand-ins below the wind-field code; remembers what each time step was given"""

    def __init__(self, value, arr, dist):
        self.steps, self.value, self.arr, self.dist = [], value, arr, dist

    def beardist(self, clon, clat, lon, lat, theta, R):
        self.steps.append(dict(clon=clon, clat=clat, lon=list(lon), lat=list(lat)))
        for j in range(len(lat)):
            for i in range(len(lon)):
                R[j, i] = self.dist('R', clon, clat, lon[i], lat[j])
                theta[j, i] = self.dist('T', clon, clat, lon[i], lat[j])

    def windmodels(self):
        w = types.SimpleNamespace()

        class Prof(object):
            def __init__(s, lat, lon, eP, cP, rMax, *a):
                s.args = (lat, lon, eP, cP, rMax)
                s.extra = a

        class Field(object):
            def __init__(s, profile, *a):
                s.p = profile

            def field(s, R, lam, vFm, thetaFm, thetaMax=0.):
                st = self.steps[-1]
                st.update(profile=s.p.args, extra=s.p.extra, motion=(vFm, thetaFm, thetaMax), shape=R.shape)
                k = len(self.steps) - 1
                st['U'] = self.arr([[self.value('U', k, j, i) for i in range(R.shape[1])] for j in range(R.shape[0])])
                st['V'] = self.arr([[self.value('V', k, j, i) for i in range(R.shape[1])] for j in range(R.shape[0])])
                return st['U'].copy(), st['V'].copy()
        w.profile = lambda name: Prof
        w.field = lambda name: Field
        w.profileParams = lambda name: ['beta']
        w.fieldParams = lambda name: []
        return w

    def pressure(self):
        class Prs(object):
            def __init__(s, R, eP, cP, rMax, lat, lon, *a, **k):
                s.R, s.args = R, (eP, cP, rMax, lat, lon)

            def prof(s):
                st = self.steps[-1]
                k = len(self.steps) - 1
                st['pargs'] = s.args
                st['P'] = self.arr([[self.value('P', k, j, i) for i in range(s.R.shape[1])]
                                    for j in range(s.R.shape[0])])
                return st['P'].copy()

            def __getattr__(s, n):
                if n.startswith('__'):
                    raise AttributeError(n)
                return s.prof
        return types.SimpleNamespace(PrsProfile=Prs)


def sqrt_(ex):
    def f(x):
        if not nps.has_sym(x):
            return math.sqrt(x)
        r = core.fn('u:sqrt', x)
        ex.assume(r >= 0)
        return r
    return f


def atan2_(ex):
    def f(a, b):
        if not nps.has_sym([a, b]):
            return math.atan2(a, b)
        r = core.fn('u:atan2', a, b)
        ex.assume(r >= -4)
        ex.assume(r <= 4)
        return r
    return f


def universe(ex, w):
    sq, at = sqrt_(ex), atan2_(ex)
    ev = lambda f: (lambda *a: nps.elementwise(f, *a) if any(isinstance(x, np.ndarray) for x in a) else f(*a))
    extra = {'sqrt': ev(sq), 'arctan2': ev(at),
             'hypot': ev(lambda a, b: sq(core.s_add(core.s_mul(a, a), core.s_mul(b, b))))}
    ma = types.SimpleNamespace(array=lambda v, dtype=None: v)
    U = loader.Universe(
        symbolic=['wind', 'Utilities.maputils', 'Utilities.metutils'], np_extra=extra,
        stubs={'wind.windmodels': w.windmodels(), 'PressureInterface.pressureProfile': w.pressure(),
               'Utilities._maputils': types.SimpleNamespace(beardist=w.beardist), 'numpy.ma': ma,
               'tqdm': types.SimpleNamespace(tqdm=lambda it, **k: it),
               'PlotInterface.maps': types.SimpleNamespace(saveWindfieldMap=None)})
    return U.load('wind'), sq, at


def real_universe(w):
    mod = loader.fresh('wind', private=['Utilities.maputils'])
    sys.modules.setdefault('x', types.ModuleType('x'))
    mod.windmodels = w.windmodels()
    mod.makeGrid = real_makegrid(w)
    mod.tqdm = types.SimpleNamespace(tqdm=lambda it, **k: it)
    return mod


def real_makegrid(w):
    mk = loader.fresh('Utilities.maputils')
    orig = sys.modules.get('Utilities._maputils')

    def f(*a, **k):
        import Utilities
        keep = sys.modules.get('Utilities._maputils'), getattr(Utilities, '_maputils', None)
        keepp = sys.modules.get('PressureInterface.pressureProfile')
        sys.modules['Utilities._maputils'] = Utilities._maputils = types.SimpleNamespace(beardist=w.beardist)
        try:
            return mk.makeGrid(*a, **k)
        finally:
            for mod, v in (('Utilities._maputils', keep[0]),):
                if v is None:
                    sys.modules.pop(mod, None)
                else:
                    sys.modules[mod] = v
            if keep[1] is None:
                del Utilities._maputils
            else:
                Utilities._maputils = keep[1]
    return f


class Pressure(object):
    """the pressure model replaced for the duration of a real run"""

    def __init__(self, w):
        self.w = w

    def __enter__(self):
        import PressureInterface
        self.keep = sys.modules.get('PressureInterface.pressureProfile')
        self.attr = getattr(PressureInterface, 'pressureProfile', None)
        sys.modules['PressureInterface.pressureProfile'] = PressureInterface.pressureProfile = self.w.pressure()

    def __exit__(self, *a):
        import PressureInterface
        if self.keep is None:
            sys.modules.pop('PressureInterface.pressureProfile', None)
        else:
            sys.modules['PressureInterface.pressureProfile'] = self.keep
        if self.attr is None:
            del PressureInterface.pressureProfile
        else:
            PressureInterface.pressureProfile = self.attr


def conj(cs):
    out = []
    for c in cs:
        if isinstance(c, (bool, np.bool_)):
            if not c:
                return Z.BoolVal(False)
        else:
            out.append(core.lbool(c))
    return Z.And(*out) if out else Z.BoolVal(True)


def near(a, b, tol=1e-6):
    d = a - b
    return (d <= tol) & (d >= -tol)


# --- 1. where the values of a time step go -----------------------------------------
RES = [(1.0, 1.0), (0.5, 0.5), (0.05, 0.1)] + ([(0.02, 0.04), (2.0, 2.0)] if chk.thorough else [])
WIDE = 3 if chk.thorough else 2


def setup(real, integer, choose):
    res, margin = RES[choose('res', len(RES))]
    dom = ['bounded', 'full'][choose('domain', 2)]
    nx, ny = 1 + choose('nx', WIDE), 1 + choose('ny', 2)
    # limits at multiples of a centidegree when bounded
    # (the cases split by sign; the last one has the equator or the meridian inside)
    sx, sy = choose('signx', 3), choose('signy', 3)
    big = int(round(100 * res)) * 4
    x0 = integer('x0', *[(0, 36000), (-36000, -big), (-big + 1, -1)][sx])
    y0 = integer('y0', *[(0, 8000), (-8000, -big), (-big + 1, -1)][sy])
    xMin, yMin = x0 / 100., y0 / 100.
    lim = {'xMin': xMin, 'xMax': xMin + nx * res, 'yMin': yMin, 'yMax': yMin + ny * res}
    # the storm lies in the region
    lon, lat = xMin + real('lon', 0, nx * res), yMin + real('lat', 0, ny * res)
    return res, margin, dom, lim, lon, lat


def generic(w, mod, arr, res, margin, dom, lim, t, cb=None):
    wf = mod.WindfieldAroundTrack(t, 'prof', 'kind', beta=1.3, margin=margin, resolution=res, gustFactor=1.25,
                                  gridLimit=lim, domain=dom)
    return wf.regionalExtremes(lim, cb)


def h_place(ex):
    res, margin, dom, lim, lon, lat = setup(ex.real, ex.int, ex.choose)
    w = World(lambda nm, k, j, i: ex.real('%s%d_%d_%d' % (nm, k, j, i), -99 if nm != 'P' else 1, 99), nps.sarr,
              lambda nm, *a: 1.0)
    mod, sq, at = universe(ex, w)
    t = track([lon], [lat], nps.sarr, env=[1000.], cen=[900.])
    got = generic(w, mod, nps.sarr, res, margin, dom, lim, t)
    gust, bearing, UU, VV, P, glon, glat = got
    ex.prove(len(w.steps) == 1, 'one time step in the region')
    if len(w.steps) != 1:
        return {}
    st = w.steps[0]
    for g, a, b in ((glon, 'xMin', 'xMax'), (glat, 'yMin', 'yMax')):
        for i in range(1, len(g)):
            ex.prove(near(g[i] - g[i - 1], res), 'grid spacing')
        ex.prove(near(g[0], lim[a] - margin, 0.0101), 'first grid point lies a margin outside the region')
        ex.prove(g[len(g) - 1] >= lim[b] + margin - 0.0101, 'grid reaches a margin outside the region')
    NY, NX = len(glat), len(glon)
    for f in (gust, bearing, UU, VV, P):
        ex.prove(f.shape == (NY, NX), 'shape of the fields')
    ny, nx = len(st['lat']), len(st['lon'])
    def cells(dj, di):
        for j in range(NY):
            for i in range(NX):
                a, b = j - dj, i - di
                if 0 <= a < ny and 0 <= b < nx:
                    u, v, p = st['U'][a, b] * 1.25, st['V'][a, b] * 1.25, st['P'][a, b]
                    g = sq(u * u + v * v)
                    yield conj([gust[j, i] == core.ite(g > 0, g, 0.0), UU[j, i] == core.ite(g > 0, u, 0.0),
                                VV[j, i] == core.ite(g > 0, v, 0.0), P[j, i] == core.ite(p < 100000., p, 100000.)])
                else:
                    yield conj([gust[j, i] == 0, UU[j, i] == 0, VV[j, i] == 0, P[j, i] == 100000.])
    # the window the values were written to (its place is concrete on this path)
    where = [(dj, di) for dj in range(0, NY - ny + 1) for di in range(0, NX - nx + 1)
             if all(Z.is_true(Z.simplify(c)) for c in cells(dj, di))]
    where = where or [(dj, di) for dj in range(0, NY - ny + 1) for di in range(0, NX - nx + 1)
                      if ex.must(core.mkb(Z.And(*cells(dj, di))))]
    ex.prove(len(where) == 1, 'values of a time step are stored unchanged, and nowhere else')
    if where:
        dj, di = where[0]
        ex.prove(near(glon[di], st['lon'][0], res + 0.0101), 'values are stored next to the longitude they belong to')
        ex.prove(near(glat[dj], st['lat'][0], res + 0.0101), 'values are stored next to the latitude they belong to')
    if dom == 'bounded':
        ex.prove(nx == ny == int(round(2 * margin / res)) + 1, 'local grid reaches the margin on each side')
    else:
        ex.prove((ny, nx) == (NY, NX), 'local grid covers the whole domain')
    return {'problem': ''}


def run_place(v):
    lim = None
    w = World(lambda nm, k, j, i: 1.0 + 0.37 * j + 0.11 * i + (50 if nm == 'P' else 0) + (9 if nm == 'V' else 0),
              lambda x: np.array(x, dtype=float), lambda nm, *a: 1.0)
    res, margin, dom, lim, lon, lat = setup(lambda n, a, b: float(v[n]), lambda n, a, b: int(v[n]),
                                            lambda n, k: v[n])
    mod = real_universe(w)
    t = track([lon], [lat], np.array, env=[1000.], cen=[900.])
    with Pressure(w):
        got = generic(w, mod, np.array, res, margin, dom, lim, t)
    return w, res, margin, dom, lim, lon, lat, got


def r_place(v, label):
    vs = [v]
    for dx, dy in itertools.product((0, 0.25, 0.499, 0.75, 1.0), repeat=2):
        q = dict(v)
        lim = setup(lambda n, a, b: float(v[n]), lambda n, a, b: int(v[n]), lambda n, k: v[n])[3]
        q['lon'] = dx * (lim['xMax'] - lim['xMin'])
        q['lat'] = dy * (lim['yMax'] - lim['yMin'])
        vs.append(q)
    for q in vs:
        m = place_problem(q)
        if m:
            return m
    return None


def place_problem(v):
    try:
        w, res, margin, dom, lim, lon, lat, got = run_place(v)
    except Exception as exc:
        res, margin, dom, lim, lon, lat = setup(lambda n, a, b: float(v[n]), lambda n, a, b: int(v[n]),
                                                lambda n, k: v[n])
        return 'storm at %r, %r in region %r, resolution %r, margin %r, domain %s: %r' % (lon, lat, lim, res, margin, dom,
                                                                                 exc)
    gust, bearing, UU, VV, P, glon, glat = got
    head = 'storm at %r, %r in region %r, resolution %r, margin %r, domain %s: ' % (lon, lat, lim, res, margin, dom)
    inside = lim['xMin'] <= lon <= lim['xMax'] and lim['yMin'] <= lat <= lim['yMax']
    if not inside:
        return head + 'a storm outside is used' if np.any(gust) else None
    if len(w.steps) != 1:
        return head + '%d time steps used' % len(w.steps)
    st = w.steps[0]
    for g, a, b in ((glon, 'xMin', 'xMax'), (glat, 'yMin', 'yMax')):
        if np.any(abs(np.diff(g) - res) > 1e-6) or abs(g[0] - lim[a] + margin) > 0.0102 or \
                g[-1] < lim[b] + margin - 0.0102:
            return head + 'grid %s' % g.tolist()
    j, i = [int(k[0]) for k in np.nonzero(gust)][:2]
    ny, nx = len(st['lat']), len(st['lon'])
    if dom == 'bounded' and not nx == ny == int(round(2 * margin / res)) + 1:
        return head + 'local grid of %d x %d points' % (ny, nx)
    if abs(glon[i] - st['lon'][0]) > res + 0.0102 or abs(glat[j] - st['lat'][0]) > res + 0.0102:
        return head + 'value for %r, %r stored at %r, %r' % (st['lon'][0], st['lat'][0], glon[i], glat[j])
    want = {'g': np.zeros(gust.shape), 'u': np.zeros(gust.shape), 'v': np.zeros(gust.shape),
            'p': np.full(gust.shape, 1e5)}
    want['u'][j:j + ny, i:i + nx] = 1.25 * st['U']
    want['v'][j:j + ny, i:i + nx] = 1.25 * st['V']
    want['g'][j:j + ny, i:i + nx] = 1.25 * np.sqrt(st['U'] ** 2 + st['V'] ** 2)
    want['p'][j:j + ny, i:i + nx] = st['P']
    for n, a in (('g', gust), ('u', UU), ('v', VV), ('p', P)):
        if not np.allclose(want[n], a, rtol=1e-4):
            return head + 'field %s is %s, expected %s' % (n, a.tolist(), want[n].tolist())
    return None


def v_place(v):
    return {'problem': place_problem(v) or ''}


v_place.free = True

# --- 2. what is kept over the time steps -------------------------------------------
NS = 4 if chk.thorough else 3
# positions on a 1-degree grid in the region 10..12 x 0..1, or outside (from the fourth on)
POS = [(10., 0.), (11., 1.), (12., 0.), (13., 0.), (11., 2.)] + ([(9., 1.)] if chk.thorough else [])
LIM = {'xMin': 10., 'xMax': 12., 'yMin': 0., 'yMax': 1.}
TMAX = 65.0
WEAK = list(range(NS + 1)) if chk.thorough else [1, NS]      # time step without a pressure deficit


def kept_inputs(choose):
    return [POS[choose('pos%d' % k, len(POS))] for k in range(NS)], ['bounded', 'full'][choose('domain', 2)]


def kept(ex_like, mod, w, arr, pos, dom, cen, limit=True):
    cb = []
    t = track([p[0] for p in pos], [p[1] for p in pos], arr, env=[1000. + k for k in range(NS)], cen=cen)
    gen = mod.WindfieldGenerator(types.SimpleNamespace(getboolean=lambda *a, **k: False), margin=1.0, resolution=1.0,
                                 profileType='prof', windFieldType='kind', beta=1.3, thetaMax=TMAX,
                                 gridLimit=dict(LIM), domain=dom)
    _, got = gen.calculateExtremesFromTrack(t, lambda *a: cb.append(a))
    return t, got, cb


def expect(w, pos, dom, cen):
    """[(step number, origin row, origin column, record)] of the steps that count"""
    ks = [k for k, p in enumerate(pos) if LIM['xMin'] <= p[0] <= LIM['xMax'] and LIM['yMin'] <= p[1] <= LIM['yMax']]
    out = []
    for n, k in enumerate(ks):
        j, i = (int(pos[k][1] - LIM['yMin']), int(pos[k][0] - LIM['xMin'])) if dom == 'bounded' else (0, 0)
        out.append((k, j, i, w.steps[n] if n < len(w.steps) else None))
    return out


def h_kept(ex):
    pos, dom = kept_inputs(ex.choose)
    if dom == 'full' and not all(p in (POS[0], POS[3]) for p in pos):
        ex.assume(False)                # positions in the region are alike here

    def value(nm, k, j, i):
        return ex.real('%s%d_%d_%d' % (nm, k, j, i), -9 if nm != 'P' else 1, 99 if nm != 'P' else 110000)
    w = World(value, nps.sarr, lambda nm, *a: 1.0)
    mod, sq, at = universe(ex, w)
    weak = WEAK[ex.choose('weak', len(WEAK))]
    cen = [1003. if k == weak else 950. + k for k in range(NS)]
    t, got, cb = kept(ex, mod, w, nps.sarr, pos, dom, cen)
    gust, bearing, UU, VV, P, glon, glat = got
    exp = expect(w, pos, dom, cen)
    ex.prove(len(exp) == len(w.steps) == len(cb), 'every time step in the region is used, others are not')
    ex.prove(gust.shape == (4, 5), 'shape of the fields')
    if len(exp) != len(w.steps) or len(exp) != len(cb) or gust.shape != (4, 5):
        return {}
    cand = {(j, i): [(0.0, 0.0, 0.0, 0.0, 100000.)] for j in range(4) for i in range(5)}
    for n, (k, j0, i0, st) in enumerate(exp):
        step_conditions(ex, t, k, st, cen, near)
        ex.prove(cb[n][0] == t.Datetime[k], 'time passed to the callback')
        ny, nx = len(st['lat']), len(st['lon'])
        ok = len(cb[n][5]) == nx and len(cb[n][6]) == ny
        ex.prove(ok, 'coordinates passed to the callback')
        if ok:
            ex.prove(core.mkb(conj([cb[n][5][a] == 9. + i0 + a for a in range(nx)] +
                                   [cb[n][6][a] == -1. + j0 + a for a in range(ny)])),
                     'coordinates passed to the callback')
        calm = cen[k] >= 1000. + k
        for a in range(ny):
            for b in range(nx):
                if (j0 + a, i0 + b) not in cand:
                    ex.prove(False, 'a time step reaches outside the grid')
                    continue
                u = 0.0 if calm else st['U'][a, b] * 1.35
                v = 0.0 if calm else st['V'][a, b] * 1.35
                g = 0.0 if calm else sq(u * u + v * v)
                d = 0.0 if calm else at(-u, -v) * 180. / math.pi
                cand[j0 + a, i0 + b].append((g, u, v, d, st['P'][a, b]))
                ex.prove(core.mkb(conj([cb[n][1][a, b] == g, near(cb[n][2][a, b], u), near(cb[n][3][a, b], v),
                                        cb[n][4][a, b] == st['P'][a, b]])), 'values passed to the callback')
    for (j, i), cs in cand.items():
        ex.prove(core.mkb(conj([gust[j, i] >= c[0] for c in cs])), 'no time step has a stronger gust')
        ex.prove(core.mkb(conj([P[j, i] <= c[4] for c in cs])), 'no time step has a lower pressure')
        ex.prove(core.mkb(Z.Or(*[conj([gust[j, i] == c[0], near(UU[j, i], c[1]), near(VV[j, i], c[2]),
                                       near(bearing[j, i], c[3])]) for c in cs])),
                 'components and direction are those of the step with the strongest gust')
        ex.prove(core.mkb(Z.Or(*[conj([P[j, i] == c[4]]) for c in cs])), 'the lowest pressure is kept')
    return {'n': len(w.steps)}


def step_conditions(ex, t, k, st, cen, near):
    lat, lon, e, c, r = st['profile'] if 'profile' in st else (t.Latitude[k], t.Longitude[k], (1000. + k) * 100.,
                                                               cen[k] * 100., t.rMax[k] * 1000.)
    ex.prove(core.mkb(conj([
        near(lat, t.Latitude[k]), near(lon, t.Longitude[k]), near(e, (1000. + k) * 100.), near(c, cen[k] * 100.),
        near(r, t.rMax[k] * 1000.)])), 'the vortex of a time step has that step\'s position, pressures and radius')
    ex.prove(core.mkb(conj([near(st['clat'], t.Latitude[k]), near(st['clon'], t.Longitude[k])])),
             'the grid is laid around the position of that step')
    e, c, r, lat, lon = st['pargs']
    ex.prove(core.mkb(conj([
        near(lat, t.Latitude[k]), near(lon, t.Longitude[k]), near(e, (1000. + k) * 100.), near(c, cen[k] * 100.),
        near(r, t.rMax[k])])), 'the pressure field of a time step has that step\'s position, pressures and radius')
    if 'motion' in st:
        v, th, tm = st['motion']
        want = (math.pi / 2 - math.radians(float(t.Bearing[k]))) % (2 * math.pi)
        ex.prove(core.mkb(conj([near(v, t.Speed[k] / 3.6, 1e-4), near(th, want)])),
                 'the motion of a time step is that step\'s speed and bearing')
        ex.prove(core.mkb(conj([near(tm, TMAX)])), 'the angle of the strongest wind is passed on in degrees')


class Prover(object):
    """evaluates the same conditions on concrete values"""

    def __init__(self):
        self.bad = []

    def prove(self, c, label):
        if isinstance(c, core.SymBool):
            c = Z.is_true(Z.simplify(core.lbool(c)))
        if not c:
            self.bad.append(label)


def run_kept(v):
    pos, dom = kept_inputs(lambda n, k: v[n])
    weak = WEAK[v['weak']]
    cen = [1003. if k == weak else 950. + k for k in range(NS)]

    def value(nm, k, j, i):
        return float(v.get('%s%d_%d_%d' % (nm, k, j, i), 1.0))
    w = World(value, lambda x: np.array(x, dtype=float), lambda nm, *a: 1.0)
    mod = real_universe(w)
    with Pressure(w):
        t, got, cb = kept(None, mod, w, np.array, pos, dom, cen)
    return pos, dom, cen, w, t, got, cb


def r_kept(v, label):
    m = kept_problem(v)
    rng = np.random.RandomState(5)
    for k in range(40):
        if m:
            return m
        q = dict(v)
        for n in list(q):
            if n[0] in 'UVP' and '_' in n:
                q[n] = rng.uniform(-9, 99) if n[0] != 'P' else rng.uniform(90000, 110000)
        for s in range(NS):
            for j in range(4):
                for i in range(5):
                    for nm in 'UVP':
                        q.setdefault('%s%d_%d_%d' % (nm, s, j, i),
                                     rng.uniform(-9, 99) if nm != 'P' else rng.uniform(90000, 110000))
        m = kept_problem(q)
    return m


def kept_problem(v):
    try:
        pos, dom, cen, w, t, got, cb = run_kept(v)
    except Exception as exc:
        return 'positions %r, domain %s: %r' % (kept_inputs(lambda n, k: v[n]) + (exc,))
    gust, bearing, UU, VV, P, glon, glat = got
    exp = expect(w, pos, dom, cen)
    head = 'positions %r, domain %s: ' % (pos, dom)
    if not len(exp) == len(w.steps) == len(cb):
        return head + '%d steps used, %d in the region, %d passed on' % (len(w.steps), len(exp), len(cb))
    if gust.shape != (4, 5):
        return head + 'shape %r' % (gust.shape,)
    cand = {(j, i): [(0., 0., 0., 0.)] for j in range(4) for i in range(5)}
    low = np.full((4, 5), 1e5)
    p = Prover()
    for n, (k, j0, i0, st) in enumerate(exp):
        num = lambda a, b, tol=1e-6: abs(float(a) - float(b)) <= tol * max(1, abs(float(b)))
        step_conditions(p, t, k, st, cen, num)
        if p.bad:
            return head + 'step %d: not so: %s (%r)' % (k, p.bad[0], {a: st.get(a) for a in ('profile', 'pargs', 'motion',
                                                                                       'clon', 'clat')})
        ny, nx = len(st['lat']), len(st['lon'])
        calm = cen[k] >= 1000. + k
        u = np.zeros((ny, nx)) if calm else 1.35 * st['U']
        x = np.zeros((ny, nx)) if calm else 1.35 * st['V']
        g = np.hypot(u, x)
        d = np.degrees(np.arctan2(-u, -x))
        if cb[n][0] != t.Datetime[k] or not np.allclose(cb[n][1], g) or not np.allclose(cb[n][2], u) or \
                not np.allclose(cb[n][3], x) or not np.allclose(cb[n][4], st['P']) or \
                not np.allclose(cb[n][5], 9. + i0 + np.arange(nx)) or not np.allclose(cb[n][6], -1. + j0 + np.arange(ny)):
            return head + 'step %d passed on as %r' % (k, cb[n])
        for a in range(ny):
            for b in range(nx):
                j, i = j0 + a, i0 + b
                if j >= 4 or i >= 5:
                    return head + 'window outside the grid'
                low[j, i] = min(low[j, i], st['P'][a, b])
                cand[j, i].append((g[a, b], u[a, b], x[a, b], d[a, b]))
    if not np.allclose(P, low, rtol=1e-4):
        return head + 'pressure %s, expected %s' % (P.tolist(), low.tolist())
    for (j, i), cs in cand.items():
        m = max(c[0] for c in cs)
        have = (gust[j, i], UU[j, i], VV[j, i], bearing[j, i])
        if not any(c[0] >= m * (1 - 1e-5) and np.allclose(have, c, rtol=1e-4, atol=1e-3) for c in cs):
            return head + 'at row %d column %d (gust, components, direction) %r, time steps %r' % (j, i, have, cs)
    return None


def v_kept(v):
    w = run_kept(v)[3]
    return {'n': len(w.steps)}


v_kept.free = True

# --- 3. several tracks ---------------------------------------------------------------
NT = 4 if chk.thorough else 3


def h_tracks(ex):
    w = World(lambda *a: 1.0, nps.sarr, lambda nm, *a: 1.0)
    mod, sq, at = universe(ex, w)
    res = []
    for n in range(NT):
        res.append(tuple(nps.sarr([[ex.real('%s%d' % (f, n), -999, 999)]]) for f in 'gbxyp') +
                   (nps.sarr([150.]), nps.sarr([-10.])))
    got = tracks(mod, res)
    g, b, x, y, p = [got[k][0, 0] for k in range(5)]
    val = [[r[k][0, 0] for k in range(5)] for r in res]
    for c in val:
        ex.prove(g >= c[0], 'no track has a stronger gust')
        ex.prove(p <= c[4], 'no track has a lower pressure')
    ex.prove(core.mkb(Z.Or(*[conj([g == c[0], b == c[1], x == c[2], y == c[3]]) for c in val])),
             'components and direction are those of the track with the strongest gust')
    ex.prove(core.mkb(Z.Or(*[core.lbool(p == c[4]) for c in val])), 'the lowest pressure is kept')
    return {k: got[i][0, 0] for i, k in enumerate('gbxyp')}


def tracks(mod, res):
    gen = mod.WindfieldGenerator(types.SimpleNamespace(getboolean=lambda *a, **k: False), gridLimit=LIM)
    mod.loadTracks = lambda f: iter([types.SimpleNamespace(n=n) for n in range(len(res))])
    gen.calculateExtremesFromTrack = lambda t, cb=None: (t, res[t.n])
    return gen.calculateExtremesFromTrackfile('file')


def v_tracks(v):
    mod = loader.fresh('wind')
    res = [tuple(np.array([[float(v['%s%d' % (f, n)])]]) for f in 'gbxyp') + (np.array([150.]), np.array([-10.]))
           for n in range(NT)]
    got = tracks(mod, res)
    return {k: got[i][0, 0] for i, k in enumerate('gbxyp')}


def r_tracks(v, label):
    try:
        got = v_tracks(v)
    except Exception as exc:
        return '%r' % exc
    val = [[float(v['%s%d' % (f, n)]) for f in 'gbxyp'] for n in range(NT)]
    best = max(c[0] for c in val)
    if got['g'] != best or got['p'] != min(c[4] for c in val) or \
            not any(c[:4] == [got['g'], got['b'], got['x'], got['y']] for c in val):
        return 'tracks with (gust, direction, components, pressure) %r give %r' % (val, got)
    return None


# --- 4. the grid of a track when no region is configured; saving -----------------------
def two_tracks(mod, w, arr, lons, lats, save):
    ts = []
    for n in range(2):
        t = track([lons[n]], [lats[n]], arr, env=[1000.], cen=[950.])
        t.trackId = (n, 7)
        ts.append(t)
    gen = mod.WindfieldGenerator(types.SimpleNamespace(getboolean=lambda *a, **k: False, sections=lambda: [],
                                                       options=lambda s: []),
                                 margin=1.0, resolution=1.0, profileType='prof', windFieldType='kind', beta=1.3,
                                 gridLimit=None, windfieldPath='/nonexistent')
    gen.saveGustToFile = save
    gen.gustFileComplete = lambda f: False
    inner = gen.calculateExtremesFromTrack
    out = []

    def keep(*a, **k):
        r = inner(*a, **k)
        out.append(r[1])
        return r
    gen.calculateExtremesFromTrack = keep
    gen.dumpGustsFromTracks(iter(ts), '/nonexistent')
    return out


def h_save(ex):
    lons = [ex.real('lon0', 10, 11), ex.real('lon1', 10, 14)]
    lats = [ex.real('lat0', -10, -9), ex.real('lat1', -10, -6)]

    def value(nm, k, j, i):
        return ex.real('%s%d_%d_%d' % (nm, k, j, i), -9 if nm != 'P' else 1, 99 if nm != 'P' else 110000)
    w = World(value, nps.sarr, lambda nm, *a: 1.0)
    mod, sq, at = universe(ex, w)
    saved = []
    out = two_tracks(mod, w, nps.sarr, lons, lats, lambda f, r, name: saved.append((f, r, os.path.basename(name))))
    ex.prove(len(saved) == len(out) == 2, 'a file for every track')
    for n in range(len(saved)):
        lat, lon, speed, ua, va, slp = saved[n][1]
        gust, bearing, UU, VV, P, glon, glat = out[n]
        ex.prove(saved[n][2] == 'gust.%03d-00007.nc' % n, 'name of the file')
        ex.prove(core.mkb(conj([lon[0] <= lons[n] - 1, lon[len(lon) - 1] >= lons[n] + 1, glat[0] <= lats[n] - 1,
                                glat[len(glat) - 1] >= lats[n] + 1])),
                 'the grid of a track reaches a margin around its positions')
        ok = len(lat) == len(glat) and speed.shape == gust.shape and len(lon) == len(glon)
        ex.prove(ok, 'shape of the saved fields')
        if not ok:
            continue
        cs = []
        N = len(lat)
        for j in range(N):
            j2 = N - 1 - j
            if not ex.feasible(core.lbool(lat[j] == glat[j2])):
                j2 = j
            cs.append(lat[j] == glat[j2])
            for i in range(len(lon)):
                cs += [lon[i] == glon[i], speed[j, i] == gust[j2, i], ua[j, i] == UU[j2, i], va[j, i] == VV[j2, i],
                       slp[j, i] == P[j2, i]]
        ex.prove(core.mkb(conj(cs)), 'saved values are those of their coordinates')
    return {'n': len(saved)}


def run_save(v):
    w = World(lambda nm, k, j, i: 1.0 + 0.37 * j + 0.11 * i + (50 if nm == 'P' else 0) + (9 if nm == 'V' else 0) + 3 * k,
              lambda x: np.array(x, dtype=float), lambda nm, *a: 1.0)
    mod = real_universe(w)
    saved = []
    with Pressure(w):
        out = two_tracks(mod, w, np.array, [float(v['lon0']), float(v['lon1'])], [float(v['lat0']), float(v['lat1'])],
                         lambda f, r, name: saved.append((f, r, os.path.basename(name))))
    return saved, out


def r_save(v, label):
    vs = [v] + [dict(lon0=10.5, lon1=a, lat0=-9.5, lat1=b) for a in (10.5, 13.5) for b in (-9.5, -6.5)]
    for q in vs:
        head = 'two storms at %r without a region: ' % (sorted(q.items()),) if q is not v else 'without a region: '
        try:
            saved, out = run_save(q)
        except Exception as exc:
            return head + repr(exc)
        if len(saved) != 2:
            return head + '%d files' % len(saved)
        for n in range(2):
            lat, lon, speed, ua, va, slp = saved[n][1]
            gust, bearing, UU, VV, P, glon, glat = out[n]
            x, y = float(q['lon%d' % n]), float(q['lat%d' % n])
            if saved[n][2] != 'gust.%03d-00007.nc' % n:
                return head + 'file name %s' % saved[n][2]
            if not (lon[0] <= x - 1 and lon[-1] >= x + 1 and glat[0] <= y - 1 and glat[-1] >= y + 1):
                return head + 'storm %d at %r, %r gets the grid %s x %s' % (n, x, y, lon.tolist(), lat.tolist())
            if sorted(lat) != sorted(glat) or list(lon) != list(glon):
                return head + 'coordinates %s %s' % (lat, lon)
            for j in range(len(lat)):
                j2 = list(glat).index(lat[j])
                for a, b in ((speed, gust), (ua, UU), (va, VV), (slp, P)):
                    if list(a[j]) != list(b[j2]):
                        return head + 'row saved at latitude %r is that of another latitude' % lat[j]
    return None


def v_save(v):
    return {'n': len(run_save(v)[0])}


v_save.free = True
FN = ['wind.WindfieldAroundTrack.regionalExtremes', 'wind.WindfieldAroundTrack.localWindField',
      'wind.WindfieldAroundTrack.polarGridAroundEye', 'wind.WindfieldAroundTrack.pressureProfile',
      'Utilities.maputils.makeGrid', 'Utilities.maputils.bearing2theta', 'Utilities.metutils.convert']
chk.harness('place', h_place, replay=r_place, validate=v_place, max_validate=6,
            split=[('res', len(RES)), ('domain', 2), ('signx', 3), ('signy', 3)], opts=dict(batch=True), functions=FN,
            bounds='one time step anywhere in a region of up to %dx2 spacings with its limits at any centidegree; '
                   'spacings %s' % (WIDE, [r for r, _ in RES]))
chk.harness('kept', h_kept, replay=r_kept, validate=v_kept, max_validate=2,
            split=[('pos0', len(POS)), ('pos1', len(POS))], functions=FN,
            bounds='%d time steps at any of %d grid points in and around a region of 2x1 spacings, any values' % (NS, len(POS)))
chk.harness('tracks', h_tracks, replay=r_tracks, validate=v_tracks, max_validate=6, opts=dict(batch=True),
            functions=['wind.WindfieldGenerator.calculateExtremesFromTrackfile'],
            bounds='%d tracks, any values at a grid point' % NT)
chk.harness('save', h_save, replay=r_save, validate=v_save, max_validate=3, opts=dict(batch=True),
            functions=FN + ['wind.WindfieldGenerator.calculateExtremesFromTrack',
                            'wind.WindfieldGenerator.dumpGustsFromTracks', 'wind.WindfieldGenerator.setGridLimit'],
            bounds='two storms anywhere in a window of 1 and 4 degrees, no region configured')
if __name__ == '__main__':
    sys.exit(chk.main())

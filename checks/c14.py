"""Compiled kernels and the Python code they stand in for give the same wind, pressure, distance and bearing."""
import contextlib
import os
import sys
import types
import warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check, close
from vx import REPO, core, fortran, loader, nps

warnings.simplefilter('ignore')
chk = Check('C14', level='translation_validation', assumptions=[
    'arithmetic on reals; default-precision constants of the compiled source have the value they are written with',
    'exp, power, square root and the trigonometric functions are arbitrary functions with the laws in vx/atoms.py; '
    'equality of two results is an identity over their applications',
    'storms on the equator exactly are left out (rotation has no sign there)',
    'the curvature and slope of the profile at its peak are arbitrary numbers',
    'a grid point is either the storm centre or more than 1e-30 km away from it'])
WM, MU, PP = 'wind.windmodels', 'Utilities.maputils', 'PressureInterface.pressureProfile'
SRC = {WM: 'wind/windmodels.f90', MU: 'Utilities/maputils.f90', PP: 'PressureInterface/pressureProfile.f90'}
KERNEL = {WM: 'wind._windmodels', MU: 'Utilities._maputils', PP: 'PressureInterface._pressureProfile'}


class Ma(object):
    """numpy.ma where nothing is masked"""
    @staticmethod
    def array(v, dtype=None, **k):
        return nps.array(v) if isinstance(v, (np.ndarray, list, tuple)) else core.tofloat(v)

    def __getattr__(self, n):
        return getattr(np.ma, n)


def universe(mod, compiled):
    k = types.ModuleType(KERNEL[mod])
    if compiled:
        for n, s in fortran.load(os.path.join(REPO, SRC[mod])).items():
            setattr(k, n, s)
    return loader.Universe(symbolic=[mod, 'Utilities.metutils'], stubs={KERNEL[mod]: k, 'numpy.ma': Ma()})


UA = {m: universe(m, True) for m in SRC}
UB = {m: universe(m, False) for m in SRC}

_real = {}


@contextlib.contextmanager
def kernels(mod, compiled):
    """the unmodified module with the kernel compiled from the current source, or with no kernel"""
    name = KERNEL[mod]
    old = sys.modules.get(name)
    pk, _, leaf = name.rpartition('.')
    pkg = loader.real(pk)
    had = getattr(pkg, leaf, None)
    if compiled:
        if mod not in _real:
            _real[mod] = fortran.Compiled(os.path.join(REPO, SRC[mod]))
        m = types.ModuleType(name)
        for n in _real[mod].subs:
            setattr(m, n, getattr(_real[mod], n))
        sys.modules[name] = m
    else:
        sys.modules[name] = None
        if had is not None:
            delattr(pkg, leaf)
    try:
        yield
    finally:
        if old is None:
            sys.modules.pop(name, None)
        else:
            sys.modules[name] = old
        if had is not None:
            setattr(pkg, leaf, had)


def storm(ex):
    s = {k: ex.real(k, lo, hi) for k, lo, hi in (
        ('lat', 2, 40), ('eP', 98000, 103000), ('dP', 200, 12000), ('rMax', 5000, 120000), ('beta', 0.5, 3),
        ('d2Vm', -1, -1e-9), ('dVm', -0.01, 0.01))}
    if ex.choose('south', 2):
        s['lat'] = core.s_neg(s['lat'])
    return s


def profile(mod, s, kind):
    """a storm's radial profile, its slope and curvature at the peak arbitrary"""
    if kind == 'powell':
        p = mod.PowellWindProfile(s['lat'], 110., s['eP'], s['eP'] - s['dP'], s['rMax'])
    else:
        p = mod.HollandWindProfile(s['lat'], 110., s['eP'], s['eP'] - s['dP'], s['rMax'], s['beta'])
    p.secondDerivative = lambda: s['d2Vm']
    p.firstDerivative = lambda: s['dVm']
    return p


def flat(a):
    return list(np.asarray(a, dtype=object).reshape(-1))


def compare(ex, a, b, label):
    a, b = flat(a), flat(b)
    ex.prove(len(a) == len(b), label + ': as many values')
    for x, y in zip(a, b):
        ex.prove_eq(x, y, label)


def radii(ex, n=2):
    r = [ex.real('r%d' % i, 1000, 1500000) for i in range(n)]
    return nps.sarr([[x] for x in r])


# --- radial profiles ----------------------------------------------------------
def h_radial(what):
    def h(ex):
        s = storm(ex)
        R = radii(ex)
        out = []
        for u in (UA, UB):
            p = profile(u[WM].load(WM), s, 'holland')
            out.append(getattr(p, what)(R))
        compare(ex, out[0], out[1], 'the compiled and the Python %s agree' % what)
        return {'v0': out[0].reshape(-1)[0], 'v1': out[0].reshape(-1)[1]}
    return h


def sgn(v):
    return -1.0 if v.get('south') else 1.0


def concrete(v):
    return {'lat': sgn(v) * v['lat'], 'eP': v['eP'], 'dP': v['dP'], 'rMax': v['rMax'], 'beta': v.get('beta', 1.3),
            'd2Vm': v.get('d2Vm', -1e-9), 'dVm': v.get('dVm', 0.0)}


def differ(a, b, what):
    a, b = np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)
    scale = np.nanmax(np.abs(b)) if b.size else 0
    for i, (x, y) in enumerate(zip(a, b)):
        if not close(x, y, 2e-5, 1e-7 * scale):
            return '%s at point %d: compiled %.9g, Python %.9g' % (what, i, x, y)
    if a.shape != b.shape:
        return '%s: %d compiled values, %d in Python' % (what, a.size, b.size)
    return None


def two(mod, f):
    out = []
    for c in (True, False):
        with kernels(mod, c):
            try:
                out.append(f(loader.real(mod)))
            except Exception as exc:        # noqa: the message is the finding
                return None, '%s run raised %r' % ('compiled' if c else 'Python', exc)
    return out, None


def r_radial(what):
    def replay(v, label=None):
        s = concrete(v)
        R = np.array([[v['r0']], [v['r1']]])
        out, err = two(WM, lambda m: getattr(profile(m, s, 'holland'), what)(R))
        return err or differ(out[0], out[1], what)
    return replay


def v_radial(what):
    def validate(v):
        s = concrete(v)
        with kernels(WM, True):
            x = getattr(profile(loader.real(WM), s, 'holland'), what)(np.array([[v['r0']], [v['r1']]])).reshape(-1)
        return {'v0': x[0], 'v1': x[1]}
    return validate


for what in ('velocity', 'vorticity'):
    chk.harness('radial-' + what, h_radial(what), replay=r_radial(what), validate=v_radial(what), max_validate=8,
                opts=dict(canon=True, timeout_ms=3000, branch_timeout_ms=300, divzero='assume'), split=[('south', 2)],
                functions=['wind.windmodels.HollandWindProfile.%s' % what, 'wind/windmodels.f90: fholland' + what[:4]],
                bounds='two radii of 1-1500 km; storms at 2-40 degrees north or south, deficits 2-120 hPa, '
                       'rMax 5-120 km, beta 0.5-3, any slope and curvature at the peak')


# --- pressure --------------------------------------------------------------------
KINDS = ['holland', 'schloemer', 'powell']


def prs(mod, s, R, kind):
    return getattr(mod.PrsProfile(R, s['eP'], s['eP'] - s['dP'], s['rMax'], s['lat'], 110., s['beta']), kind)()


def h_pressure(ex):
    s = storm(ex)
    kind = KINDS[ex.choose('kind', len(KINDS))]
    R = radii(ex)
    a, b = [prs(u[PP].load(PP), s, R, kind) for u in (UA, UB)]
    compare(ex, a, b, 'the compiled and the Python pressure agree')
    return {'v0': a.reshape(-1)[0], 'v1': a.reshape(-1)[1]}


def r_pressure(v, label=None):
    s = concrete(v)
    R = np.array([[v['r0']], [v['r1']]])
    out, err = two(PP, lambda m: prs(m, s, R, KINDS[v['kind']]))
    return err or differ(out[0], out[1], 'pressure')


def v_pressure(v):
    with kernels(PP, True):
        x = prs(loader.real(PP), concrete(v), np.array([[v['r0']], [v['r1']]]), KINDS[v['kind']]).reshape(-1)
    return {'v0': x[0], 'v1': x[1]}


chk.harness('pressure', h_pressure, replay=r_pressure, validate=v_pressure, max_validate=8,
            opts=dict(canon=True, timeout_ms=3000, branch_timeout_ms=300, divzero='assume'), split=[('kind', 3), ('south', 2)],
            functions=['PressureInterface.pressureProfile.PrsProfile.' + k for k in KINDS] +
                      ['PressureInterface/pressureProfile.f90: fhollandpressure'],
            bounds='two radii; the Holland, Schloemer and Powell profiles; parameters as above')


# --- boundary-layer wind field -----------------------------------------------------
def field(mod, s, R, lam, kind):
    return mod.KepertWindField(profile(mod, s, kind)).field(R, lam, s['vFm'], s['thetaFm'])


def h_field(ex):
    s = storm(ex)
    s['vFm'] = ex.real('vFm', 0, 25)
    s['thetaFm'] = ex.real('thetaFm', 0, 6.25)
    R = nps.sarr([[ex.real('r0', 1000, 1500000)]])
    lam = nps.sarr([[ex.real('lam', -1.5, 4.7)]])
    kind = ['holland', 'powell'][ex.choose('kind', 2)]
    (ax, ay), (bx, by) = [field(u[WM].load(WM), s, R, lam, kind) for u in (UA, UB)]
    compare(ex, ax, bx, 'the compiled and the Python eastward wind agree')
    compare(ex, ay, by, 'the compiled and the Python northward wind agree')
    return {'x': ax.reshape(-1)[0], 'y': ay.reshape(-1)[0]}


def r_field(v, label=None):
    s = dict(concrete(v), vFm=v['vFm'], thetaFm=v['thetaFm'])
    R, lam = np.array([[v['r0']]]), np.array([[v['lam']]])
    kind = ['holland', 'powell'][v['kind']]
    out, err = two(WM, lambda m: np.array(field(m, s, R, lam, kind)))
    return err or differ(out[0], out[1], 'wind')


def v_field(v):
    s = dict(concrete(v), vFm=v['vFm'], thetaFm=v['thetaFm'])
    with kernels(WM, True):
        x, y = field(loader.real(WM), s, np.array([[v['r0']]]), np.array([[v['lam']]]), ['holland', 'powell'][v['kind']])
    return {'x': x[0, 0], 'y': y[0, 0]}


chk.harness('field', h_field, replay=r_field, validate=v_field, max_validate=8,
            opts=dict(canon=True, timeout_ms=2000, branch_timeout_ms=150, divzero='assume'), split=[('kind', 2), ('south', 2)],
            functions=['wind.windmodels.KepertWindField.field', 'wind/windmodels.f90: fkerpert'],
            bounds='one grid point at any distance and direction; any forward speed up to 25 m/s and direction')


# --- distance and bearing over the grid round the storm ----------------------------
GRIDS = [(0.02, 0.02, False), (0.04, 0.02, False), (0.02, 0.02, True)]


def grid(mod, v, k):
    margin, res, box = GRIDS[k]
    if box:
        return mod.makeGrid(v['cLon'], v['cLat'], margin, res, minLon=v['x0'], maxLon=v['x0'],
                            minLat=v['y0'], maxLat=v['y0'] + 0.02)
    return mod.makeGrid(v['cLon'], v['cLat'], margin, res)


def where(ex):
    """a storm centre near a grid point that may be anywhere"""
    v = {'kx': ex.int('kx', 1000, 359000), 'ky': ex.int('ky', 1000, 40000), 'x': ex.real('x', 0, 0.999),
         'y': ex.real('y', 0, 0.999)}
    return v, place(v, ex.choose('south', 2))


def place(v, south):
    s = -1 if south else 1
    x, y = v['kx'], v['ky'] * s
    return {'cLon': (x + v['x']) / 1000., 'cLat': (y + v['y'] * s) / 1000., 'x0': x / 1000., 'y0': y / 1000.}


def h_grid(ex):
    w, v = where(ex)
    k = ex.choose('grid', len(GRIDS))
    (ra, ta), (rb, tb) = [grid(u[MU].load(MU), v, k) for u in (UA, UB)]
    for r in flat(rb):
        ex.assume(core.mkb(core.z3.Or(core.lbool(r == 1e-30), core.lbool(r >= 1e-30))))
    compare(ex, ra, rb, 'the compiled and the Python distance agree')
    compare(ex, ta, tb, 'the compiled and the Python bearing agree')
    return {'r': ra.reshape(-1)[1], 't': ta.reshape(-1)[1], 'r2': ra.reshape(-1)[-1], 't2': ta.reshape(-1)[-1]}


def r_grid(v, label=None):
    p = place({k: (int(v[k]) if k[0] == 'k' else float(v[k])) for k in ('kx', 'ky', 'x', 'y')}, v.get('south'))
    out, err = two(MU, lambda m: np.array(grid(m, p, v['grid'])))
    if err:
        return err
    return differ(out[0][0], out[1][0], 'distance') or differ(out[0][1], out[1][1], 'bearing')


def v_grid(v):
    p = place({k: (int(v[k]) if k[0] == 'k' else float(v[k])) for k in ('kx', 'ky', 'x', 'y')}, v.get('south'))
    with kernels(MU, True):
        r, t = grid(loader.real(MU), p, v['grid'])
    return {'r': r.reshape(-1)[1], 't': t.reshape(-1)[1], 'r2': r.reshape(-1)[-1], 't2': t.reshape(-1)[-1]}


chk.harness('grid', h_grid, replay=r_grid, validate=v_grid, max_validate=8,
            opts=dict(canon=True, timeout_ms=3000, branch_timeout_ms=300, divzero='assume', domain='assume'), split=[('grid', 3), ('south', 2)],
            functions=['Utilities.maputils.makeGrid', 'Utilities/maputils.f90: beardist',
                       'Utilities.maputils.gridLatLonDist', 'Utilities.maputils.gridLatLonBear'],
            bounds='grids of 3 x 3, 5 x 5 and 3 x 4 points; storms at 1-359 degrees east and 1-40 degrees north or '
                   'south, at any offset from the grid')


# --- from the grid to the wind: what one kernel hands to the next ----------------------
class Chain(object):
    """makeGrid with the distances themselves arbitrary, feeding the profile"""

    def __init__(self, compiled):
        g = types.ModuleType(KERNEL[MU])
        if compiled:
            def beardist(cLon, cLat, lon, lat, bearing, dist):
                for a in (bearing, dist):
                    if not a.flags.f_contiguous:
                        raise ValueError('array is not column-major')
                for j in range(len(lat)):
                    for i in range(len(lon)):
                        dist[j, i] = self.r[j][i]
                        bearing[j, i] = self.t[j][i]
            g.beardist = beardist
        k = types.ModuleType(KERNEL[WM])
        if compiled:
            for n, sub in fortran.load(os.path.join(REPO, SRC[WM])).items():
                setattr(k, n, sub)
        self.u = loader.Universe(symbolic=[WM, MU, 'Utilities.metutils'],
                                 stubs={KERNEL[MU]: g, KERNEL[WM]: k, 'numpy.ma': Ma()})
        self.compiled = compiled

    def run(self, s, r, t, what):
        self.r, self.t = r, t
        mu, wm = self.u.load(MU), self.u.load(WM)
        if not self.compiled:
            mu.gridLatLonDist = lambda *a: nps.sarr(r)
            mu.gridLatLonBear = lambda *a: nps.sarr(
                [[core.s_sub(np.pi / 2, x) for x in row] for row in t])
        R, theta = mu.makeGrid(150.0, -12.0, 0.01, 0.01, minLon=150.0, maxLon=150.01, minLat=-12.0, maxLat=-12.0)
        return getattr(profile(wm, s, 'holland'), what)(R * 1000.)


def h_chain(ex):
    s = storm(ex)
    what = ['velocity', 'vorticity'][ex.choose('what', 2)]
    r = [[ex.real('r%d%d' % (j, i), 250, 1500) for i in range(4)] for j in range(3)]
    t = [[ex.real('t%d%d' % (j, i), -1.5, 4.7) for i in range(4)] for j in range(3)]
    a, b = [Chain(c).run(s, r, t, what) for c in (True, False)]
    ex.prove(a.shape == b.shape == (3, 4), 'one value for each grid point')
    compare(ex, a, b, 'the compiled and the Python %s agree over the grid' % what)


def r_chain(v, label=None):
    s = concrete(v)
    out = []
    for c in (True, False):
        with kernels(WM, c), kernels(MU, c):
            R, theta = loader.real(MU).makeGrid(150.0, -12.0, 0.5, 0.1, minLon=150.0, maxLon=150.5, minLat=-12.0,
                                                maxLat=-12.0)
            out.append(getattr(profile(loader.real(WM), s, 'holland'), ['velocity', 'vorticity'][v['what']])(R * 1000.))
    return differ(out[0], out[1], 'wind over the grid')


chk.harness('grid-to-wind', h_chain, replay=r_chain, split=[('what', 2), ('south', 2)],
            opts=dict(canon=True, timeout_ms=3000, branch_timeout_ms=300, divzero='assume', domain='assume'),
            functions=['Utilities.maputils.makeGrid', 'wind.windmodels.HollandWindProfile.velocity',
                       'wind.windmodels.HollandWindProfile.vorticity'],
            bounds='a grid of 3 x 4 points with arbitrary distances beyond the radius of maximum wind')

if __name__ == '__main__':
    sys.exit(chk.main())

"""Gradient wind: peak at the radius of maximum wind, balance with the pressure, mirror images across the equator."""
import os
import sys
import types
import warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check, close
from vx import core, loader, nps

warnings.simplefilter('ignore')
chk = Check('C18', assumptions=[
    'arithmetic on reals; exp, power, square root and the trigonometric functions are arbitrary functions with the laws in '
    'vx/atoms.py',
    'the Python code paths are executed; that the compiled kernels agree with them is C14',
    'storms at 2-40 degrees north or south with a pressure deficit of 5-120 hPa'])
WM, PP, MU = 'wind.windmodels', 'PressureInterface.pressureProfile', 'Utilities.metutils'


class Ma(object):
    """numpy.ma where nothing is masked"""
    @staticmethod
    def array(v, dtype=None, **k):
        return nps.array(v) if isinstance(v, (np.ndarray, list, tuple)) else core.tofloat(v)

    def __getattr__(self, n):
        return getattr(np.ma, n)


U = loader.Universe(symbolic=[WM, PP, MU], stubs={
    'wind._windmodels': types.ModuleType('wind._windmodels'),
    'PressureInterface._pressureProfile': types.ModuleType('PressureInterface._pressureProfile'), 'numpy.ma': Ma()})


class EMath(object):
    """math and numpy.exp with e as a named number: products of rounded constants would not cancel exactly"""
    def __init__(self, base):
        self._base = base

    def exp(self, x):
        if isinstance(x, (int, float)) and x == 1:
            return core.ctx().real('e', 2.718281828459, 2.718281828460)
        return self._base.exp(x)

    @property
    def e(self):
        return self.exp(1)

    def __getattr__(self, n):
        return getattr(self._base, n)


U2 = loader.Universe(symbolic=[WM, PP, MU], stubs=dict(U.stubs))
U2.math = EMath(U2.math)
U2.np = EMath(U2.np)
OPTS = dict(canon=True, timeout_ms=3000, branch_timeout_ms=300, divzero='assume', domain='assume')
PROFILES = ['holland', 'powell', 'willoughby', 'schloemer', 'jelesnianski', 'rankine', 'newholland']


def storm(ex):
    return {k: ex.real(k, lo, hi) for k, lo, hi in (
        ('lat', 2, 40), ('eP', 98000, 103000), ('dP', 500, 12000), ('rMax', 5000, 100000), ('beta', 0.8, 2.5))}


def profile(mod, s, kind, south, hpa=False):
    lat = -s['lat'] if south else s['lat']
    k = 0.01 if hpa else 1
    a = [lat, 110., s['eP'] * k, (s['eP'] - s['dP']) * k, s['rMax']]
    if kind == 'holland':
        a.append(s['beta'])
    if kind == 'newholland':
        a.append(250000.)
    return mod.PROFILES[kind](*a)


def sv(v):
    return {k: float(v.get(k, d)) for k, d in (('lat', 15.), ('eP', 101000.), ('dP', 4000.), ('rMax', 40000.), ('beta', 1.3))}


def guard(f):
    def r(v, label=None):
        try:
            return f(v, label)
        except (IndexError, KeyError, ValueError, TypeError, AttributeError, NameError, AssertionError) as e:
            return '%s: %s' % (type(e).__name__, e)
    return r


def quiet(f):
    """a validation that leaves failing code to the replay"""
    def r(v):
        try:
            return f(v)
        except (IndexError, KeyError, ValueError, TypeError, AttributeError, NameError, AssertionError):
            return None
    return r


def both(f):
    """of the unmodified module with and without compiled kernels"""
    out = []
    for name in (None, 'wind._windmodels'):
        old = sys.modules.get(name) if name else None
        if name:
            sys.modules[name] = None
        try:
            out.append(f(loader.real(WM)))
        finally:
            if name:
                if old is None:
                    sys.modules.pop(name, None)
                else:
                    sys.modules[name] = old
    return out


# ---- mirror images of the radial profiles --------------------------------------------------------
def h_mirror(ex):
    s = storm(ex)
    kind = PROFILES[ex.choose('kind', len(PROFILES))]
    m = U.load(WM)
    R = nps.sarr([ex.real('r0', 1000, 1500000), ex.real('r1', 1000, 1500000)])
    n, t = profile(m, s, kind, 0), profile(m, s, kind, 1)
    a, b = n.velocity(R), t.velocity(R)
    for x, y in zip(a, b):
        ex.prove_eq(x, -y, 'the same strength and the opposite sense in the other hemisphere')
    if kind not in ('rankine', 'newholland'):
        for x, y in zip(n.vorticity(R), t.vorticity(R)):
            ex.prove_eq(x, -y, 'opposite vorticity in the other hemisphere')
    return {'a': a[0], 'b': b[1]}


@guard
def r_mirror(v, label=None):
    s = sv(v)
    kind = PROFILES[v['kind']]
    R = np.array([float(v['r0']), float(v['r1'])])

    def f(m):
        n, t = profile(m, s, kind, 0), profile(m, s, kind, 1)
        out = [(n.velocity(R), t.velocity(R), 'wind')]
        if kind not in ('rankine', 'newholland'):
            out.append((n.vorticity(R), t.vorticity(R), 'vorticity'))
        return out
    for o in both(f):
        for a, b, what in o:
            for x, y, r in zip(a, b, R):
                if not close(x, -y, 1e-6, 1e-12):
                    return '%s %s at %g m: %r north, %r south' % (kind, what, r, x, y)
    return None


def v_mirror(v):
    s, kind = sv(v), PROFILES[v['kind']]
    R = np.array([float(v['r0']), float(v['r1'])])
    f = lambda m: (profile(m, s, kind, 0).velocity(R)[0], profile(m, s, kind, 1).velocity(R)[1])
    a, b = both(f)[1]
    return {'a': a, 'b': b}


# ---- peak ----------------------------------------------------------------------------------------
PEAKED = ['holland', 'powell', 'willoughby', 'schloemer', 'jelesnianski', 'rankine']


def h_peak(ex):
    s = storm(ex)
    kind = PEAKED[ex.choose('kind', len(PEAKED))]
    south = ex.choose('south', 2)
    m = U.load(WM)
    p = profile(m, s, kind, south)
    v = p.velocity(nps.sarr([s['rMax']]))[0]
    vm = p.vMax
    ex.prove_eq(v, -vm if south else vm, 'the maximum wind at the radius of maximum wind')
    if kind in ('jelesnianski', 'rankine'):
        want = 0.6252 * core.fn('sqrt', s['dP'])
    else:
        want = core.fn('sqrt', p.beta * s['dP'] / (np.exp(1) * 1.15))
    ex.prove_eq(vm, want, 'maximum wind of the wind-pressure relation')
    q = profile(m, s, kind, south, hpa=True)
    ex.prove_eq(q.vMax, want, 'maximum wind with pressures in hPa')
    if kind == 'schloemer':
        ex.prove_eq(p.beta, 1, 'exponent of the profile')
    if kind == 'willoughby':
        ex.prove_eq(p.beta, 1.0036 + 0.0173 * 0.6252 * core.fn('sqrt', s['dP']) - 0.0313 * core.fn('log', s['rMax'] / 1000.) +
                    0.0087 * s['lat'], 'exponent of the profile')
    if kind == 'powell':
        b = 1.881093 - 0.010917 * s['lat'] - 0.005567 * (s['rMax'] / 1852.)
        ex.prove(core.mkb(core.z3.And(core.lbool(p.beta >= 0.8), core.lbool(p.beta <= 2.2))), 'exponent within its limits')
        if bool(b > 0.801) and bool(b < 2.199):
            ex.prove(core.mkb(core.z3.And(core.lbool(p.beta - b < 0.001), core.lbool(b - p.beta < 0.001))),
                     'exponent of the profile')
    p.vMax = 37.
    ex.prove_eq(p.vMax, 37., 'a given maximum wind is used')
    return {'vm': vm}


def peak_real(v, f=None):
    s, kind = sv(v), PEAKED[v['kind']]
    out = []
    for x in both(lambda m: [profile(m, s, kind, v['south']), profile(m, s, kind, v['south'], True)]):
        out.append(x)
    return s, kind, out


@guard
def r_peak(v, label=None):
    s, kind = sv(v), PEAKED[v['kind']]

    def f(m):
        p, q = profile(m, s, kind, v['south']), profile(m, s, kind, v['south'], True)
        w = float(p.velocity(np.array([s['rMax']]))[0])
        vm, vh = float(p.vMax), float(q.vMax)
        beta = getattr(p, 'beta', None)
        p.vMax = 37.
        return w, vm, vh, beta, p.vMax
    sg = -1 if v['south'] else 1
    for w, vm, vh, beta, given in both(f):
        if not close(w, sg * vm, 1e-6, 1e-9):
            return '%s: wind at the radius of maximum wind %r, maximum wind %r' % (kind, w, vm)
        if kind in ('jelesnianski', 'rankine'):
            want = 0.6252 * np.sqrt(s['dP'])
        else:
            want = np.sqrt(beta * s['dP'] / (np.e * 1.15))
        if not close(vm, want, 1e-6, 1e-9) or not close(vh, want, 1e-6, 1e-9):
            return '%s: maximum wind %r (pressures in hPa: %r), expected %r' % (kind, vm, vh, want)
        wb = None
        if kind == 'schloemer':
            wb = 1.
        if kind == 'willoughby':
            wb = 1.0036 + 0.0173 * 0.6252 * np.sqrt(s['dP']) - 0.0313 * np.log(s['rMax'] / 1000.) + 0.0087 * s['lat']
        if kind == 'powell':
            wb = min(max(1.881093 - 0.010917 * s['lat'] - 0.005567 * (s['rMax'] / 1852.), 0.8), 2.2)
        if wb is not None and abs(beta - wb) > 1e-3:
            return '%s: exponent %r, expected %r' % (kind, beta, wb)
        if given != 37.:
            return 'given maximum wind not used'
    return None


def v_peak(v):
    s, kind = sv(v), PEAKED[v['kind']]
    return {'vm': float(both(lambda m: profile(m, s, kind, v['south']).vMax)[1])}


# ---- shape: balance outside, smooth join inside --------------------------------------------------
def h_balance(ex):
    s = storm(ex)
    south = ex.choose('south', 2)
    r = ex.real('r', 5000, 1500000)
    ex.assume(r > s['rMax'])
    p = profile(U.load(WM), s, 'holland', south)
    R = nps.sarr([r])
    V = p.velocity(R)[0]
    V = -V if south else V
    prs = U.load(PP).PrsProfile(R, s['eP'], s['eP'] - s['dP'], s['rMax'], -s['lat'] if south else s['lat'], 110.,
                                s['beta']).holland()[0]
    f = 2 * (2 * np.pi / 86400.) * core.fn('sin', s['lat'] * (np.pi / 180))
    delta = core.fn('pow', s['rMax'] / r, s['beta'])
    ex.prove_eq(prs, s['eP'] - s['dP'] + s['dP'] * core.fn('exp', -delta), 'pressure profile')
    # r/rho dp/dr of that pressure is  beta delta (p - pc) / rho
    ex.prove_eq(V * V + f * r * V, s['beta'] * delta * (prs - s['eP'] + s['dP']) / 1.15,
                'centrifugal and Coriolis force balance the pressure gradient')
    return {'v': V}


@guard
def r_balance(v, label=None):
    s, r = sv(v), float(v['r'])
    f = 4 * np.pi / 86400. * np.sin(np.radians(s['lat']))
    sg = -1 if v['south'] else 1
    prs = loader.real(PP).PrsProfile(np.array([[r]]), s['eP'], s['eP'] - s['dP'], s['rMax'], sg * s['lat'], 110., s['beta']).holland()[0, 0]
    delta = (s['rMax'] / r) ** s['beta']
    want = s['eP'] - s['dP'] + s['dP'] * np.exp(-delta)
    if not close(prs, want, 1e-7, 1e-3):
        return 'pressure %r at %g m, expected %r' % (prs, r, want)
    for V in both(lambda m: float(profile(m, s, 'holland', v['south']).velocity(np.array([r]))[0]) * sg):
        g = s['beta'] * delta * s['dP'] * np.exp(-delta) / 1.15
        if not close(V * V + f * r * V, g, 1e-4, 1e-4):
            return 'wind %r at %g m does not balance the pressure gradient: %r against %r' % (V, r, V * V + f * r * V, g)
    return None


def v_balance(v):
    s, sg = sv(v), -1 if v['south'] else 1
    return {'v': both(lambda m: float(profile(m, s, 'holland', v['south']).velocity(np.array([float(v['r'])]))[0]) * sg)[1]}


def cubic(r, v1, v2, v4):
    """slope and curvature at r of the cubic through 0 with values v1, v2, v4 at r, r/2, r/4"""
    # w(x) = a x^3 + b x^2 + c x at x = 1, 1/2, 1/4
    a = (v1 - 6 * v2 + 8 * v4) * 8 / 3
    b = 4 * (v1 / 2 - v2) - 3 * a / 2
    c = v1 - a - b
    return (3 * a + 2 * b + c) / r, (6 * a + 2 * b) / (r * r)


def outside(s, f, sqrt, e=np.e):
    """slope and curvature of the wind outside at the radius of maximum wind"""
    rm, be = s['rMax'], s['beta']
    q2 = 4 * be * s['dP'] / (e * 1.15) + (f * rm) * (f * rm)
    q = sqrt(q2)
    d2 = -be * be * be * s['dP'] / (1.15 * e * rm * rm) + f * f / 2
    return f * f * rm * q / (2 * q2) - f / 2, d2 / q - rm * rm * f * f * f * f / (2 * q * q2)


def h_join(ex):
    s = storm(ex)
    south = ex.choose('south', 2)
    p = profile(U2.load(WM), s, 'holland', south)
    rm = s['rMax']
    x = ex.real('x', 0.02, 1)
    V = p.velocity(nps.sarr([rm, rm / 2, rm / 4, rm * x]))
    V = [-a if south else a for a in V]
    d1, d2 = cubic(rm, V[0], V[1], V[2])
    f = 2 * (2 * np.pi / 86400.) * core.fn('sin', s['lat'] * (np.pi / 180))
    w1, w2 = outside(s, f, lambda a: core.fn('sqrt', a), U2.math.e)
    ex.prove_eq(d1, w1, 'slope at the radius of maximum wind')
    ex.prove_eq(d2, w2, 'curvature at the radius of maximum wind')
    v1 = V[0]
    b1, c1 = d1 * rm, d2 * rm * rm
    # the cubic with that value, slope and curvature
    a3 = c1 / 2 - b1 + v1
    a2 = (c1 - 6 * a3) / 2
    ex.prove_eq(V[3], a3 * x * x * x + a2 * x * x + (b1 - 3 * a3 - 2 * a2) * x, 'one cubic from the centre outwards')
    return {'v': V[1]}


@guard
def r_join(v, label=None):
    s = sv(v)
    sg = -1 if v['south'] else 1
    rm, x = s['rMax'], float(v.get('x', .5))
    f = 4 * np.pi / 86400. * np.sin(np.radians(s['lat']))
    for V in both(lambda m: sg * profile(m, s, 'holland', v['south']).velocity(np.array([rm, rm / 2, rm / 4, rm * x]))):
        d1, d2 = cubic(rm, V[0], V[1], V[2])
        w1, w2 = outside(s, f, np.sqrt)
        if not close(d1 * rm, w1 * rm, 1e-5, 1e-4):
            return 'slope %r at the radius of maximum wind, %r outside' % (d1, w1)
        if not close(d2 * rm * rm, w2 * rm * rm, 1e-5, 1e-4):
            return 'curvature %r at the radius of maximum wind, %r outside' % (d2, w2)
        b1, c1 = d1 * rm, d2 * rm * rm
        a3 = c1 / 2 - b1 + V[0]
        a2 = (c1 - 6 * a3) / 2
        w = a3 * x ** 3 + a2 * x ** 2 + (b1 - 3 * a3 - 2 * a2) * x
        if not close(V[3], w, 1e-6, 1e-6):
            return 'wind %r at %g of the radius of maximum wind, expected %r' % (V[3], x, w)
    return None


def v_join(v):
    s, sg = sv(v), -1 if v['south'] else 1
    return {'v': float(both(lambda m: sg * profile(m, s, 'holland', v['south']).velocity(np.array([s['rMax'] / 2.])))[1][0])}


# ---- surface wind fields -------------------------------------------------------------------------
FIELDS = ['hubbert', 'mcconochie', 'kepert']


def wind(mod, kind, w, sign, lam, theta, tmax, arr):
    p = types.SimpleNamespace(rMax=w['rMax'], f=w['f'] * sign, vMax=w['vMax'])
    m = mod.FIELDS[kind](p)
    m.V, m.Z = arr([sign * x for x in w['V']]), arr([sign * x for x in w['Z']])
    return m.field(arr(w['R']), arr(lam), w['vFm'], theta, tmax)


def h_field(ex):
    kind = FIELDS[ex.choose('field', 3)]
    n = 1 if kind == 'kepert' else 2
    w = {'rMax': ex.real('rMax', 5000, 100000), 'f': ex.real('f', 5e-6, 1e-4), 'vMax': ex.real('vMax', 10, 100),
         'vFm': ex.real('vFm', 0, 25), 'V': [ex.real('V%d' % k, 0.5, 100) for k in range(n)],
         'Z': [ex.real('Z%d' % k, 0, 0.01) for k in range(n)], 'R': [ex.real('R%d' % k, 1000, 1500000) for k in range(n)]}
    lam = [ex.real('lam%d' % k, -1.5, 4.7) for k in range(n)]
    th, tm = ex.real('theta', -1.5, 4.7), ex.real('tmax', -90, 90)
    m = U.load(WM)
    turned = ex.choose('turned', 2)
    ux, vy = wind(m, kind, w, 1, lam, th, tm, nps.sarr)
    if turned:
        q = np.pi / 2
        sx, sy = wind(m, kind, w, 1, [x + q for x in lam], th + q, tm, nps.sarr)
        for k in range(n):
            ex.prove_eq(sx[k], -vy[k], 'turns with the storm: eastward')
            ex.prove_eq(sy[k], ux[k], 'turns with the storm: northward')
    else:
        sx, sy = wind(m, kind, w, -1, [-x for x in lam], -th, -tm, nps.sarr)
        for k in range(n):
            ex.prove_eq(sx[k], ux[k], 'mirror image: eastward')
            ex.prove_eq(sy[k], -vy[k], 'mirror image: northward')
    return {'x': ux[0], 'y': vy[0]}


def field_args(v):
    kind = FIELDS[v['field']]
    n = 1 if kind == 'kepert' else 2
    w = {k: float(v.get(k, d)) for k, d in (('rMax', 4e4), ('f', 4e-5), ('vMax', 40.), ('vFm', 5.))}
    for k, d in (('V', 20.), ('Z', 1e-3), ('R', 6e4)):
        w[k] = [float(v.get('%s%d' % (k, i), d)) for i in range(n)]
    return kind, w, [float(v.get('lam%d' % i, .3)) for i in range(n)], float(v.get('theta', .7)), float(v.get('tmax', 0.))


@guard
def r_field(v, label=None):
    kind, w, lam, th, tm = field_args(v)
    m = loader.real(WM)
    ux, vy = wind(m, kind, w, 1, lam, th, tm, np.array)
    if v['turned']:
        q = np.pi / 2
        sx, sy = wind(m, kind, w, 1, [x + q for x in lam], th + q, tm, np.array)
        gx, gy = sy, -sx
        what = 'a quarter turn'
    else:
        sx, sy = wind(m, kind, w, -1, [-x for x in lam], -th, -tm, np.array)
        gx, gy = sx, -sy
        what = 'mirroring'
    for k in range(len(lam)):
        if not (close(gx[k], ux[k], 1e-6, 1e-6) and close(gy[k], vy[k], 1e-6, 1e-6)):
            return '%s field: wind (%r, %r) becomes (%r, %r) on %s (undone)' % (kind, ux[k], vy[k], gx[k], gy[k], what)
    return None


def v_field(v):
    kind, w, lam, th, tm = field_args(v)
    ux, vy = wind(loader.real(WM), kind, w, 1, lam, th, tm, np.array)
    return {'x': float(ux[0]), 'y': float(vy[0])}


def surface(kind, V, vmax, R, rm, vFm, side, one=lambda c: bool(c)):
    """speed and inflow angle (radians) of the surface wind north of the equator; side is the cosine of the angle between the
    point and the strongest side"""
    if kind == 'hubbert':
        return 1.069 * (0.7 * V + vFm * side), (0. if one(R < rm) else 25.) * np.pi / 180
    if one(R < rm):
        a = 10. * R / rm
    elif one(R < 1.2 * rm):
        a = 10. + 75. * (R / rm - 1.)
    else:
        a = 25.
    S = V + 0.5 * (1 + side) * vFm * V / vmax
    k = 0.66 if one(S >= 45) else 0.77 - 4.31 * (S - 19.5) / 1000. if one(S >= 19.5) else \
        0.81 - 2.93 * (S - 6.) / 1000. if one(S >= 6) else 0.81
    return 1.069 * k * S, a * np.pi / 180


def h_model(ex):
    kind = FIELDS[ex.choose('field', 2)]
    V = [ex.real('V0', 0.5, 100), ex.real('V1', 0.5, 100)]
    ex.assume(V[0] < V[1])
    k = ex.choose('point', 2)
    rm = ex.real('rMax', 5000, 100000)
    w = {'rMax': rm, 'f': ex.real('f', 5e-6, 1e-4), 'vMax': ex.real('vMax', 10, 100), 'vFm': ex.real('vFm', 0, 25),
         'V': V, 'Z': [0.001, 0.001], 'R': [2 * rm, 2 * rm]}
    w['R'][k] = ex.real('R', 1000, 1500000)
    lam = [0.3, 0.3]
    lam[k] = ex.real('lam', -1.5, 4.7)
    th, tm = ex.real('theta', -1.5, 4.7), ex.real('tmax', -90, 90)
    ux, vy = wind(U.load(WM), kind, w, 1, lam, th, tm, nps.sarr)
    side = core.fn('cos', th + tm * (np.pi / 180) - lam[k])
    S, a = surface(kind, V[k], V[1], w['R'][k], rm, w['vFm'], side)
    ex.prove_eq(ux[k], S * core.fn('sin', -a - lam[k]), 'surface wind: eastward')
    ex.prove_eq(vy[k], S * core.fn('cos', -a - lam[k]), 'surface wind: northward')
    return {'x': ux[k], 'y': vy[k]}


def model_real(v):
    kind, k = FIELDS[v['field']], v['point']
    rm = float(v['rMax'])
    V = [float(v['V0']), float(v['V1'])]
    w = {'rMax': rm, 'f': float(v['f']), 'vMax': float(v['vMax']), 'vFm': float(v['vFm']), 'V': V, 'Z': [0.001, 0.001],
         'R': [2 * rm, 2 * rm]}
    w['R'][k] = float(v['R'])
    lam = [0.3, 0.3]
    lam[k] = float(v['lam'])
    th, tm = float(v['theta']), float(v['tmax'])
    ux, vy = wind(loader.real(WM), kind, w, 1, lam, th, tm, np.array)
    S, a = surface(kind, V[k], V[1], w['R'][k], rm, w['vFm'], np.cos(th + np.radians(tm) - lam[k]))
    return kind, ux[k], vy[k], S * np.sin(-a - lam[k]), S * np.cos(-a - lam[k])


@guard
def r_model(v, label=None):
    kind, x, y, a, b = model_real(v)
    if not (close(x, a, 1e-6, 1e-6) and close(y, b, 1e-6, 1e-6)):
        return '%s surface wind (%r, %r), expected (%r, %r)' % (kind, x, y, a, b)
    return None


def v_model(v):
    _, x, y, _, _ = model_real(v)
    return {'x': float(x), 'y': float(y)}


# ---- profiles without rotation -------------------------------------------------------------------
def h_shape(ex):
    s = storm(ex)
    kind = ['jelesnianski', 'rankine'][ex.choose('kind', 2)]
    south = ex.choose('south', 2)
    m = U.load(WM)
    p = profile(m, s, kind, south)
    r = ex.real('r', 1000, 1500000)
    V = p.velocity(nps.sarr([r]))[0]
    V = -V if south else V
    vm = 0.6252 * core.fn('sqrt', s['dP'])
    if kind == 'jelesnianski':
        ex.prove_eq(V, 2 * vm * s['rMax'] * r / (s['rMax'] * s['rMax'] + r * r), 'wind of the profile')
    elif bool(r <= s['rMax']):
        ex.prove_eq(V, vm * r / s['rMax'], 'turns like a solid body inside the radius of maximum wind')
    else:
        ex.prove_eq(V, vm * core.s_pow(s['rMax'] / r, 0.5), 'falls with the square root of the distance outside')
    h = m.PROFILES['holland'](s['lat'], 110., s['eP'], s['eP'] - s['dP'], s['rMax'], s['beta'], m.AtkinsonWindSpeed)
    ex.assume(s['eP'] - s['dP'] < 100900)
    ex.prove_eq(h.vMax, 3.04 * core.fn('pow', 1010. - (s['eP'] - s['dP']) / 100., 0.644), 'wind of the Atkinson-Holliday relation')
    return {'v': V}


@guard
def r_shape(v, label=None):
    s, r = sv(v), float(v['r'])
    kind = ['jelesnianski', 'rankine'][v['kind']]
    sg = -1 if v['south'] else 1
    m = loader.real(WM)
    V = sg * float(profile(m, s, kind, v['south']).velocity(np.array([r]))[0])
    vm = 0.6252 * np.sqrt(s['dP'])
    w = 2 * vm * s['rMax'] * r / (s['rMax'] ** 2 + r ** 2) if not v['kind'] else \
        vm * r / s['rMax'] if r <= s['rMax'] else vm * np.sqrt(s['rMax'] / r)
    if not close(V, w, 1e-7, 1e-9):
        return '%s wind %r at %g m, expected %r' % (kind, V, r, w)
    h = m.PROFILES['holland'](s['lat'], 110., s['eP'], s['eP'] - s['dP'], s['rMax'], s['beta'], m.AtkinsonWindSpeed)
    w = 3.04 * (1010. - (s['eP'] - s['dP']) / 100.) ** 0.644
    if s['eP'] - s['dP'] < 100900 and not close(h.vMax, w, 1e-7, 1e-9):
        return 'maximum wind %r, expected %r' % (h.vMax, w)
    return None


def v_shape(v):
    s = sv(v)
    V = profile(loader.real(WM), s, ['jelesnianski', 'rankine'][v['kind']], v['south']).velocity(np.array([float(v['r'])]))[0]
    return {'v': -V if v['south'] else V}


# what is known to be wrong with two profiles (KNOWN_FINDINGS.md)
def known():
    s = sv({})
    m = loader.real(WM)
    R = np.array([20000., 60000., 200000.])
    a, b = [m.PROFILES['doubleholland'](l, 110., 101000., 97000., 40000., 1.3, 1.5, 150000.).velocity(R) for l in (15., -15.)]
    if not np.allclose(a, -b):
        chk.known.append('double Holland profile: a storm south of the equator is not the mirror image of the same storm north of it')
    a, b = [profile(m, s, 'rankine', k).vorticity(R) for k in (0, 1)]
    if not np.allclose(a, -b):
        chk.known.append('Rankine profile: vorticity outside the radius of maximum wind is not mirrored across the equator')


chk.harness('shape', h_shape, replay=r_shape, validate=quiet(v_shape), max_validate=4, opts=OPTS,
            functions=[WM + '.JelesnianskiWindProfile.velocity', WM + '.RankineWindProfile.velocity',
                       WM + '.AtkinsonWindSpeed.maximum'], bounds='one radius of 1-1500 km')
chk.harness('mirror', h_mirror, replay=r_mirror, validate=quiet(v_mirror), max_validate=4, opts=OPTS, allow_exc=(AssertionError,), split=[('kind', len(PROFILES))],
            functions=[WM + '.%s.velocity/vorticity' % k for k in PROFILES], bounds='two radii of 1-1500 km')
chk.harness('peak', h_peak, replay=r_peak, validate=quiet(v_peak), max_validate=4, opts=OPTS, allow_exc=(AssertionError,), split=[('kind', len(PEAKED))],
            functions=[WM + '.%s' % k for k in PEAKED] + [WM + '.HollandWindSpeed.maximum', WM + '.WilloughbyWindSpeed.maximum'],
            bounds='radius of maximum wind exactly')
chk.harness('balance', h_balance, replay=r_balance, validate=quiet(v_balance), max_validate=4, opts=OPTS, allow_exc=(AssertionError,),
            functions=[WM + '.HollandWindProfile.velocity', PP + '.PrsProfile.holland'], bounds='one radius outside')
chk.harness('join', h_join, replay=r_join, validate=quiet(v_join), max_validate=4, opts=dict(OPTS, signs=True), allow_exc=(AssertionError,),
            functions=[WM + '.HollandWindProfile.' + k for k in ('velocity', 'firstDerivative', 'secondDerivative')],
            bounds='any radius inside')
chk.harness('field', h_field, replay=r_field, validate=quiet(v_field), max_validate=4, opts=OPTS, allow_exc=(AssertionError,), split=[('field', 3), ('turned', 2)],
            functions=[WM + '.%s.field' % k for k in FIELDS], bounds='one or two grid points at any distance and direction')
chk.harness('model', h_model, replay=r_model, validate=quiet(v_model), max_validate=4, opts=dict(OPTS, signs=True), split=[('field', 2), ('point', 2)],
            functions=[WM + '.HubbertWindField.field', WM + '.McConochieWindField.field'],
            bounds='two grid points, the one with the stronger or the weaker gradient wind anywhere')

if __name__ == '__main__':
    try:
        known()
    except Exception:
        pass
    sys.exit(chk.main())

"""Local wind: gust times the multiplier of the sector the wind comes from, for every bearing."""
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check
from vx import core, loader, localwind as lw, nps, sched

chk = Check('C06', assumptions=[
    'real arithmetic (bearing compared with a tolerance of 1e-6 degrees); gust, bearing and multiplier rasters share '
    'one grid (reprojection is GDAL\'s and outside the check); calm wind (u = v = 0) excluded',
    'one pixel at a time is free, the others hold fixed bearings (pixels do not interact)'])
MOD = 'ProcessMultipliers.processMultipliers'
U = loader.Universe(symbolic=[MOD])
SHAPES = [(1, 1), (1, 2), (2, 2), (2, 3)] + ([(3, 3), (3, 2), (2, 5)] if chk.thorough else [])


def drive(ver, shape, seg, mod, gust, bear, mult, nodata, asarr, combined):
    rows, cols = shape
    wd = '/nowhere'
    world = lw.World(lambda label, n: 0, lambda r, c: asarr([[None] * c for _ in range(r)]))
    world.attach(mod)
    grid = lambda f: asarr([[f(y, x) for x in range(cols)] for y in range(rows)])
    prj = {'gust_prj.tif': grid(gust), 'bear_prj.tif': grid(bear)}
    m4 = [lw.Band(world, 'm4_' + d, grid(lambda y, x: mult(d, y, x)), nodata) for d in lw.DIRS]
    for d, b in zip(lw.DIRS, m4):
        world.files[os.path.join(wd, 'm4_%s.tif' % d)] = lw.Dataset([b])
    world.files[os.path.join(wd, 'all.tif')] = lw.Dataset(m4)
    mod.createRaster = lambda *a, **k: None
    mod.calculateBearing = lambda uu, vv: uu

    def reproject(src, match, dst, *a, **k):
        n = os.path.basename(dst)
        world.files[dst] = lw.Dataset([lw.Band(world, n, prj.get(n, prj['gust_prj.tif']))])
    reproject.immediate = True
    mod.reprojectDataset = reproject
    z = np.zeros((2, 2))
    ll = np.array([0., 1.])
    comb = os.path.join(wd, 'all.tif') if combined else None
    if ver == 1:
        out = mod.processMult(z, z, z, ll, ll, wd, combined_mulipliers_file=comb)
    else:
        out = mod.processMultV2(z, z, z, ll, ll, wd, lw.DIRS, 1, seg, 500, combined_mulipliers_file=comb)
    return world.files[out].bands[0].data




def other_bear(y, x):
    return (22.5 * (5 * y + 3 * x)) % 360


def h_local(ex):
    ver = 1 + ex.choose('ver', 2)
    shape = SHAPES[ex.choose('shape', len(SHAPES))]
    seg = 1 + (ex.choose('seg', 3) if ver == 2 else 0)
    combined = ex.choose('combined', 2)
    py = ex.choose('py', shape[0])
    px = ex.choose('px', shape[1])
    b = ex.real('bearing', 0, 360)
    nodata = [None, -9999.0][ex.choose('nodata', 2)]
    cells = {}

    def cell(n, lo, hi):
        if n not in cells:
            cells[n] = ex.real(n, lo, hi)
        return cells[n]
    gust = lambda y, x: cell('w_%d_%d' % (y, x), 0, 200)

    def mult(d, y, x):
        if (y, x) != (py, px):
            return 1.0 + lw.DIRS.index(d) / 8.0
        return cell('m_%s' % d, -9999 if nodata else 0, 10)
    bear = lambda y, x: b if (y, x) == (py, px) else other_bear(y, x)
    U.cache.clear()
    out = drive(ver, shape, seg, U.load(MOD), gust, bear, mult, nodata, nps.sarr, combined)
    ex.prove(out.shape == shape, 'shape of the output')
    for y in range(shape[0]):
        for x in range(shape[1]):
            if (y, x) == (py, px):
                for k, d in enumerate(lw.SECTOR):
                    lo, hi = 45 * k - 22.5, 45 * k + 22.5
                    m = mult(d, y, x)
                    if nodata is not None:
                        m = core.ite(m == nodata, 1.0, m)
                    ins = (b >= lo) & (b < hi)
                    ex.prove(core.mkb(core.z3.Implies(core.lbool(ins), core.lbool(out[y, x] == gust(y, x) * m))),
                             'local wind is gust times the multiplier of its sector')
            else:
                d = lw.sector(other_bear(y, x))
                ex.prove(out[y, x] == gust(y, x) * mult(d, y, x), 'local wind of the other pixels')
    return {'o': out[py, px]}


def rerun(v):
    ver, shape = 1 + v['ver'], SHAPES[v['shape']]
    seg = 1 + v.get('seg', 0)
    nodata = [None, -9999.0][v['nodata']]
    py, px = v['py'], v['px']
    gust = lambda y, x: v.get('w_%d_%d' % (y, x), 1.0)
    mult = lambda d, y, x: (1.0 + lw.DIRS.index(d) / 8.0) if (y, x) != (py, px) else v.get('m_%s' % d, 1.0)
    bear = lambda y, x: v['bearing'] if (y, x) == (py, px) else other_bear(y, x)
    out = drive(ver, shape, seg, loader.fresh(MOD), gust, bear, mult, nodata, np.array, v['combined'])
    want = np.zeros(shape)
    for y in range(shape[0]):
        for x in range(shape[1]):
            m = mult(lw.sector(bear(y, x)), y, x)
            want[y, x] = gust(y, x) * (1.0 if m == nodata else m)
    return out, want


def r_local(v, label):
    # distinct nonzero values, so that a wrong sector shows
    w = dict(v)
    for n, d in enumerate(lw.DIRS):
        if w.get('m_%s' % d) != -9999:
            w['m_%s' % d] = 0.5 + 0.25 * n
    for k in list(w):
        if k.startswith('w_'):
            w[k] = 10.0 + len(k) + sum(map(ord, k)) % 7
    for u in (v, w):
        try:
            out, want = rerun(u)
        except Exception as exc:
            return 'version %d, %s pixels, bearing %r: raises %r' % (1 + v['ver'], SHAPES[v['shape']], v['bearing'], exc)
        if not np.allclose(out.astype(float), want, rtol=1e-5, atol=1e-6):
            return 'version %d, combined=%d, segment %d, bearing %r at pixel (%d, %d): local wind %s, expected %s' % (
                1 + v['ver'], v['combined'], 1 + v.get('seg', 0), v['bearing'], v['py'], v['px'], out.tolist(),
                want.tolist())
    return None


def v_local(v):
    return {'o': rerun(v)[0][v['py'], v['px']]}


def h_bearing(ex):
    u, v = ex.real('u', -100, 100), ex.real('v', -100, 100)
    ex.assume((u != 0) | (v != 0))
    mod = U.load(MOD)
    n = ex.choose('array', 2)
    b = mod.calculateBearing(nps.sarr([u, 1.0]), nps.sarr([v, 0.0]))[0] if n else mod.calculateBearing(u, v)
    a = core.fn('atan2', -u, -v)          # clockwise from north of where the wind comes from
    want = core.ite(a >= 0, a, a + 2 * math.pi) * (180.0 / math.pi)
    d = b - want
    ok = lambda e: (e > -1e-6) & (e < 1e-6)
    ex.prove((b >= -1e-6) & (b <= 360 + 1e-6), 'bearing lies in 0..360')
    ex.prove(ok(d) | ok(d - 360) | ok(d + 360), 'bearing is the direction the wind comes from, clockwise from north')
    return {'b': b}


def real_bearing(v):
    R = loader.real(MOD)
    if v['array']:
        return float(R.calculateBearing(np.array([v['u'], 1.0]), np.array([v['v'], 0.0]))[0])
    return float(R.calculateBearing(v['u'], v['v']))


def r_bearing(v, label):
    pts = [(v['u'], v['v'])] + [(math.cos(t), math.sin(t)) for t in np.arange(0, 6.3, 0.1)]
    for u, w in pts:
        b = real_bearing(dict(v, u=u, v=w))
        want = math.degrees(math.atan2(-u, -w)) % 360
        d = abs(b - want) % 360
        if not (-1e-6 <= b <= 360 + 1e-6) or min(d, 360 - d) > 1e-5:
            return 'u=%r v=%r: bearing %r, the wind comes from %r' % (u, w, b, want)
    return None


F = [MOD + '.' + f for f in ('processMult', 'processMultV2', 'call_process_multiplier_segment',
                             'processMultiplierSegment', 'loadAllBandArrayData', 'loadRasterFile', 'calculateBearing')]
chk.harness('local', h_local, replay=r_local, validate=v_local, functions=F, opts=dict(batch=True),
            split=[('ver', 2), ('shape', len(SHAPES)), ('combined', 2)],
            bounds='rasters %s, segment sizes 1..3, any bearing in [0, 360], gust in [0, 200], any multipliers, '
                   'no-data multipliers' % (SHAPES,))
chk.harness('bearing', h_bearing, replay=r_bearing, validate=lambda v: {'b': real_bearing(v)}, functions=F[-1:],
            bounds='any u, v in [-100, 100], not both zero')
if __name__ == '__main__':
    sys.exit(chk.main())

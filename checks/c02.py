"""The tiles of the hazard grid hold every grid point of the region exactly once."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check
from vx import loader, nps

chk = Check('C02', assumptions=[
    'wind-field coordinates and region limits are the doubles nearest to whole multiples of 0.001 degrees; every '
    'floating-point operation may be off by up to 1e-9 (covers IEEE rounding for magnitudes below 1e6)',
    'the wind-field coordinates increase and at least one grid point lies in the region'])
U = loader.Universe(symbolic=['hazard'])
S = U.load('hazard')
R = loader.real('hazard')
N, STEP, M = (6, 5, 3) if chk.thorough else (4, 3, 2)


def axis(ex, nm, n):
    o = ex.int(nm + 'o', -360000, 360000)
    r = ex.int(nm + 'r', 1, 5000)
    a = ex.int(nm + 'min', -360000, 360000)
    b = ex.int(nm + 'max', -360000, 400000)
    pts = [o + i * r for i in range(n)]
    ins = [(p >= a) & (p <= b) for p in pts]
    some = ins[0]
    for x in ins[1:]:
        some = some | x
    ex.assume(some)
    return pts, ins, a, b


def h_x(ex):
    return h_tiles(ex, N, 1, STEP, 1)


def h_y(ex):
    return h_tiles(ex, 1, N, 1, STEP)


def h_xy(ex):
    return h_tiles(ex, M, M, M, M)


def h_tiles(ex, nx, ny, xs, ys):
    nx, ny = 1 + ex.choose('nx', nx), 1 + ex.choose('ny', ny)
    xs, ys = 1 + ex.choose('xs', xs), 1 + ex.choose('ys', ys)
    px, ix, xa, xb = axis(ex, 'x', nx)
    py, iy, ya, yb = axis(ex, 'y', ny)
    lon = nps.sarr([p / 1000. for p in px])
    lat = nps.sarr([p / 1000. for p in py])
    lim = {'xMin': xa / 1000., 'xMax': xb / 1000., 'yMin': ya / 1000., 'yMax': yb / 1000.}
    tg = S.TileGrid(lim, lon, lat, xs, ys)
    tiles = S.getTiles(tg)
    count = np.zeros((ny, nx), int)
    for (x1, x2, y1, y2) in tiles:
        ok = 0 <= x1 < x2 <= nx and 0 <= y1 < y2 <= ny
        ex.prove(ok, 'tile limits lie in the wind field')
        ex.prove(x2 - x1 <= xs and y2 - y1 <= ys, 'a tile is no larger than the tile size')
        if ok:
            count[y1:y2, x1:x2] += 1
    ex.prove(len(tiles) == tg.num_tiles, 'number of tiles')
    for j in range(ny):
        for i in range(nx):
            ins = ix[i] & iy[j]
            if count[j, i] > 1:
                ex.prove(False, 'a grid point is in two tiles')
            else:
                ex.prove(ins if count[j, i] else ~ins if not isinstance(ins, bool) else not ins,
                         'exactly the grid points of the region are in a tile')
    dlon, dlat = tg.getDomainExtent()
    for want, got, nm in ((lon, dlon, ix), (lat, dlat, iy)):
        k = [i for i in range(len(want)) if bool(nm[i])]
        ex.prove(len(got) == len(k), 'number of coordinates of the hazard grid')
        if len(got) == len(k):
            for a, i in enumerate(k):
                ex.prove(got[a] == want[i], 'coordinates of the hazard grid')
    return {'n': len(tiles), 'imin': tg.imin, 'jmin': tg.jmin, 'xdim': len(dlon), 'ydim': len(dlat)}


def build(v):
    nx, ny, xs, ys = 1 + v['nx'], 1 + v['ny'], 1 + v['xs'], 1 + v['ys']
    px = [v['xo'] + i * v['xr'] for i in range(nx)]
    py = [v['yo'] + i * v['yr'] for i in range(ny)]
    lim = {'xMin': v['xmin'] / 1000., 'xMax': v['xmax'] / 1000., 'yMin': v['ymin'] / 1000., 'yMax': v['ymax'] / 1000.}
    ix = [v['xmin'] <= p <= v['xmax'] for p in px]
    iy = [v['ymin'] <= p <= v['ymax'] for p in py]
    lon, lat = np.array(px) / 1000., np.array(py) / 1000.
    return nx, ny, xs, ys, lon, lat, lim, ix, iy


def one(v):
    nx, ny, xs, ys, lon, lat, lim, ix, iy = build(v)
    desc = 'grid lon %s lat %s, region %s, tile size %dx%d' % (lon.tolist(), lat.tolist(), lim, xs, ys)
    if not (any(ix) and any(iy)):
        return None
    try:
        tg = R.TileGrid(lim, lon, lat, xs, ys)
        tiles = R.getTiles(tg)
    except Exception as exc:
        return '%s: %r' % (desc, exc)
    count = np.zeros((ny, nx), int)
    for (x1, x2, y1, y2) in tiles:
        if not (0 <= x1 < x2 <= nx and 0 <= y1 < y2 <= ny):
            return '%s: tile limits %s' % (desc, (x1, x2, y1, y2))
        if x2 - x1 > xs or y2 - y1 > ys:
            return '%s: tile %s is larger than the tile size' % (desc, (x1, x2, y1, y2))
        count[y1:y2, x1:x2] += 1
    want = np.outer(iy, ix).astype(int)
    if not np.array_equal(want, count):
        return '%s: times each point is in a tile %s, expected %s' % (desc, count.tolist(), want.tolist())
    dlon, dlat = tg.getDomainExtent()
    if dlon.tolist() != lon[ix].tolist() or dlat.tolist() != lat[iy].tolist():
        return '%s: hazard grid coordinates %s %s' % (desc, dlon.tolist(), dlat.tolist())
    if len(tiles) != tg.num_tiles:
        return '%s: %d tiles, num_tiles %r' % (desc, len(tiles), tg.num_tiles)
    return None


def r_tiles(v, label):
    m = one(v)
    if m:
        return m
    # the counterexample may hinge on a rounding error: look for doubles with that error near the model
    for d in range(0, 3000):
        w = dict(v)
        for k in ('xo', 'xmin', 'xmax', 'yo', 'ymin', 'ymax'):
            w[k] = v[k] + d
        m = one(w)
        if m:
            return m
    return None


def v_tiles(v):
    nx, ny, xs, ys, lon, lat, lim, ix, iy = build(v)
    tg = R.TileGrid(lim, lon, lat, xs, ys)
    dlon, dlat = tg.getDomainExtent()
    return {'n': len(R.getTiles(tg)), 'imin': tg.imin, 'jmin': tg.jmin, 'xdim': len(dlon), 'ydim': len(dlat)}


F = ['hazard.TileGrid.__init__', 'hazard.TileGrid.tileGrid', 'hazard.TileGrid.getGridLimit',
     'hazard.TileGrid.getDomainExtent', 'hazard.getTiles', 'hazard.getTileLimits']
B = ', any millidegree origin, spacing and region limits'
chk.harness('x', h_x, replay=r_tiles, validate=v_tiles, opts=dict(fp_eps='1/1000000000', batch=True), functions=F,
            split=[('nx', N), ('xs', STEP)],
            bounds='wind fields of up to %dx1 points, tiles of up to %dx1, rounding errors' % (N, STEP) + B)
chk.harness('y', h_y, replay=r_tiles, validate=v_tiles, opts=dict(fp_eps='1/1000000000', batch=True), functions=F,
            split=[('ny', N), ('ys', STEP)],
            bounds='wind fields of up to 1x%d points, tiles of up to 1x%d, rounding errors' % (N, STEP) + B)
chk.harness('xy', h_xy, replay=r_tiles, validate=v_tiles, functions=F, opts=dict(batch=True), split=[('nx', M), ('ny', M)],
            bounds='wind fields of up to %dx%d points, tiles of up to %dx%d, exact arithmetic' % (M, M, M, M) + B)
if __name__ == '__main__':
    sys.exit(chk.main())

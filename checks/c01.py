"""Grid-cell numbering: every position has exactly one cell and the cell contains it."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vx.check import Check
from vx import core, loader

chk = Check('C01', level='model_checking', assumptions=[
    'real arithmetic for longitudes/latitudes (the code only takes floor/ceil of them)',
    'integer region limits in [-360, 360] and integer cell sizes that divide the region'])
U = loader.Universe(symbolic=['Utilities.stats'])
S = U.load('Utilities.stats')
R = loader.real('Utilities.stats')
NX, NY = (6, 5) if chk.thorough else (4, 3)
SP = (1, 2, 5, 3) if chk.thorough else (1, 2, 5)


def region(ex):
    nx = 1 + ex.choose('nx', NX)
    ny = 1 + ex.choose('ny', NY)
    dx = SP[ex.choose('dx', len(SP))]
    dy = SP[ex.choose('dy', len(SP))]
    x0 = ex.int('xMin', -360, 360)
    y0 = ex.int('yMin', -90, 90)
    lim = {'xMin': x0, 'xMax': x0 + nx * dx, 'yMin': y0, 'yMax': y0 + ny * dy}
    return nx, ny, dx, dy, lim, {'x': dx, 'y': dy}


def conc(v):
    nx, ny = 1 + v['nx'], 1 + v['ny']
    dx, dy = SP[v['dx']], SP[v['dy']]
    lim = {'xMin': v['xMin'], 'xMax': v['xMin'] + nx * dx, 'yMin': v['yMin'], 'yMax': v['yMin'] + ny * dy}
    return nx, ny, dx, dy, lim, {'x': dx, 'y': dy}


def h_point(ex):
    """position -> cell number -> corner"""
    nx, ny, dx, dy, lim, sp = region(ex)
    lon, lat = ex.real('lon'), ex.real('lat')
    inside = (lon >= lim['xMin']) & (lon < lim['xMax']) & (lat > lim['yMin']) & (lat <= lim['yMax'])
    try:
        n = S.getCellNum(lon, lat, lim, sp)
    except ValueError:
        ex.prove(~inside, 'a position inside the region is rejected')
        return None
    ex.prove(inside, 'a position outside the region is given a cell')
    ex.prove((n >= 0) & (n < nx * ny), 'cell number out of range')
    ex.prove(S.maxCellNum(lim, sp) == nx * ny - 1, 'largest cell number')
    w, t = S.getCellLonLat(n, lim, sp)
    ex.prove((w <= lon) & (lon < w + dx) & (t - dy < lat) & (lat <= t), 'the cell does not contain the position')
    ex.prove(bool(S.validCellNum(n, lim, sp)), 'a used cell number is reported invalid')
    return {'n': n, 'w': w, 't': t}


def r_point(v, label):
    nx, ny, dx, dy, lim, sp = conc(v)
    lon, lat = v['lon'], v['lat']
    inside = lim['xMin'] <= lon < lim['xMax'] and lim['yMin'] < lat <= lim['yMax']
    try:
        n = R.getCellNum(lon, lat, lim, sp)
    except ValueError as exc:
        return 'position (%r, %r) in region %r rejected: %s' % (lon, lat, lim, exc) if inside else None
    if not inside:
        return 'position (%r, %r) outside region %r given cell %r' % (lon, lat, lim, n)
    if not 0 <= n < nx * ny:
        return 'cell %r out of range 0..%d' % (n, nx * ny - 1)
    if R.maxCellNum(lim, sp) != nx * ny - 1:
        return 'largest cell number %r for %d cells' % (R.maxCellNum(lim, sp), nx * ny)
    if not R.validCellNum(n, lim, sp):
        return 'cell %r reported invalid' % n
    w, t = R.getCellLonLat(n, lim, sp)
    if not (w <= lon < w + dx and t - dy < lat <= t):
        return 'position (%r, %r) in region %r assigned cell %r whose corner is (%r, %r)' % (lon, lat, lim, n, w, t)
    return None


def v_point(v):
    nx, ny, dx, dy, lim, sp = conc(v)
    n = R.getCellNum(v['lon'], v['lat'], lim, sp)
    w, t = R.getCellLonLat(n, lim, sp)
    return {'n': n, 'w': w, 't': t}


def h_cell(ex):
    """cell number -> corner -> cell number; validity"""
    nx, ny, dx, dy, lim, sp = region(ex)
    n = ex.int('n', -3, nx * ny + 3)
    valid = S.validCellNum(n, lim, sp)
    ok = (n >= 0) & (n < nx * ny)
    ex.prove(core.mkb(core.lbool(valid) == core.lbool(ok)), 'validity of a cell number')
    if not bool(ok):
        return None
    w, t = S.getCellLonLat(n, lim, sp)
    # any position of that cell maps back to it
    fx, fy = ex.real('fx', 0, 1), ex.real('fy', 0, 1)
    ex.assume(fx < 1)
    ex.assume(fy < 1)
    m = S.getCellNum(w + fx * dx, t - fy * dy, lim, sp)
    ex.prove(m == n, 'a position of the cell maps to another cell')
    return {'w': w, 't': t, 'm': m}


def r_cell(v, label):
    nx, ny, dx, dy, lim, sp = conc(v)
    n = v['n']
    ok = 0 <= n < nx * ny
    if bool(R.validCellNum(n, lim, sp)) != ok:
        return 'validity of cell %d in a region of %d cells reported as %r' % (n, nx * ny, not ok)
    if not ok:
        return None
    w, t = R.getCellLonLat(n, lim, sp)
    m = R.getCellNum(w + v['fx'] * dx, t - v['fy'] * dy, lim, sp)
    if m != n:
        return 'cell %d of region %r: its position (%r, %r) maps to cell %d' % (
            n, lim, w + v['fx'] * dx, t - v['fy'] * dy, m)
    return None


def v_cell(v):
    nx, ny, dx, dy, lim, sp = conc(v)
    if not 0 <= v['n'] < nx * ny:
        return None
    w, t = R.getCellLonLat(v['n'], lim, sp)
    return {'w': w, 't': t, 'm': R.getCellNum(w + v['fx'] * dx, t - v['fy'] * dy, lim, sp)}


F = ['Utilities.stats.' + f for f in ('getCellNum', 'getCellLonLat', 'validCellNum', 'maxCellNum')]
B = 'up to %dx%d cells, cell sizes %s degrees, any integer origin, any real position' % (NX, NY, SP)
chk.harness('point', h_point, replay=r_point, validate=v_point, functions=F, bounds=B)
chk.harness('cell', h_cell, replay=r_cell, validate=v_cell, functions=F, bounds=B)
if __name__ == '__main__':
    sys.exit(chk.main())

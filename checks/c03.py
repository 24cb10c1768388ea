"""Hazard assembly by master and workers: complete, placed and finished for every arrival order."""
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check
from vx import loader, nps, sched

chk = Check('C03', assumptions=[
    'messages between two ranks arrive in order; sends may be buffered or synchronous (both explored)',
    'the value computed for a cell is arbitrary (one free real per cell and output field)'])
U = loader.Universe(symbolic=['hazard'])
CONF = """[Region]
gridLimit={'xMin':0.,'xMax':9.,'yMin':0.,'yMax':9.}
[Hazard]
Years=2,5
SampleSize=50
PercentileRange=90
[Output]
Path=%s
"""
# (workers, tiles in x, tiles in y)
CASES = [(0, 2, 2), (1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 1), (2, 3, 1), (2, 2, 2), (3, 1, 2), (3, 2, 2)]
if chk.thorough:
    CASES += [(1, 2, 2), (2, 5, 1), (3, 1, 1), (3, 3, 1), (3, 5, 1), (4, 2, 2), (4, 5, 1), (4, 3, 1), (5, 2, 1)]


class Fail(Exception):
    pass


def drive(case, sync, ci, off, choose, load, cell, asarr):
    """Run the real protocol; returns the rank-0 calculator and the count of calculations per tile."""
    nw, tx, ty = case
    tmp = tempfile.mkdtemp(prefix='c03.')
    try:
        cf = os.path.join(tmp, 'c.ini')
        with open(cf, 'w') as fh:
            fh.write(CONF % tmp)
        world = sched.World(nw + 1, choose, sync=sync)
        calc, fns, runs = [], [], {}
        for r in range(nw + 1):
            mod = load()
            mod.MPI = world.mpi(r)
            mod.comm = mod.MPI.COMM_WORLD
            # a wind field of 2*tx x ty+1 points plus a margin, so that output and input offsets differ
            nx, ny = 2 * tx - (1 if tx > 1 else 0), ty
            lon = np.arange(nx + off + 1) * 1.0
            lat = np.arange(ny + 2 * off + 2) * 1.0
            lim = {'xMin': float(off), 'xMax': float(off + nx - 1), 'yMin': float(2 * off + 1),
                   'yMax': float(2 * off + ny)}
            tg = mod.TileGrid(lim, lon, lat, 2, 1)
            hc = mod.HazardCalculator(cf, tg, 10, 5, 1, ci, 'GEV')

            def calculate(limits, hc=hc):
                x1, x2, y1, y2 = [int(v) for v in limits]
                runs[(x1, x2, y1, y2)] = runs.get((x1, x2, y1, y2), 0) + 1

                def arr(f, depth=None):
                    def one(k):
                        return [[cell('%s%s_%d_%d' % (f, k, y, x)) for x in range(x1, x2)] for y in range(y1, y2)]
                    return asarr(one('') if depth is None else [one(k) for k in range(depth)])
                out = (limits, arr('rp', 2), arr('loc'), arr('scale'), arr('shp'))
                if ci:
                    out += (arr('up', 2), arr('lo', 2))
                return out
            hc.calculateHazard = calculate
            tiles = mod.getTiles(tg)
            calc.append((hc, tiles, nx, ny))
            fns.append(lambda hc=hc, tiles=tiles: hc.dumpHazardFromTiles(tiles))
        if nw == 0:
            fns[0]()
        else:
            world.run(fns)
        return calc[0], runs, world.leftover()
    finally:
        shutil.rmtree(tmp)


def conditions(case, ci, off, res, cell):
    (hc, tiles, nx, ny), runs, left = res
    yield left == 0, 'every message is received'
    yield sorted(runs) == sorted(tuple(int(v) for v in t) for t in tiles), 'exactly the given tiles are calculated'
    yield all(n == 1 for n in runs.values()), 'a tile is calculated once'
    for f, a, depth in (('loc', hc.loc, 0), ('scale', hc.scale, 0), ('shp', hc.shp, 0), ('rp', hc.Rp, 2)) + (
            (('up', hc.RPupper, 2), ('lo', hc.RPlower, 2)) if ci else ()):
        yield a.shape[-2:] == (ny, nx), 'shape of the output'
        for y in range(ny):
            for x in range(nx):
                for k in range(depth or 1):
                    got = a[k, y, x] if depth else a[y, x]
                    want = cell('%s%s_%d_%d' % (f, k if depth else '', y + 2 * off + 1, x + off))
                    yield got == want, 'a cell of the output holds another value than was computed for it'


def h_run(ex):
    case = CASES[ex.choose('case', len(CASES))]
    sync, ci = ex.choose('sync', 2) == 1, ex.choose('ci', 2) == 1
    off = ex.choose('off', 2)
    cells = {}

    def cell(n):
        if n not in cells:
            cells[n] = ex.real(n, 0, 200)
        return cells[n]

    def load():
        U.cache.clear()
        return U.load('hazard')
    try:
        res = drive(case, sync, ci, off, sched.Chooser(ex), load, cell, nps.sarr)
    except (sched.Deadlock, sched.TooLong):
        ex.prove(False, 'the calculation ends')
        return None
    for c, label in conditions(case, ci, off, res, cell):
        ex.prove(c, label)
    return {'tiles': len(res[1])}


def rerun(v):
    case = CASES[v['case']]

    def cell(n):
        # float32 output fields: use values that are exact in single precision
        return float(np.float32(v.get(n, 0)))
    # distinct values expose misplacement even if the solver left cells unconstrained
    names = {}

    def dcell(n):
        return float(names.setdefault(n, len(names) + 1))
    return case, drive(case, v['sync'] == 1, v['ci'] == 1, v['off'], sched.Replayer(v),
                       lambda: loader.fresh('hazard'), dcell, np.array), dcell


def r_run(v, label):
    case = CASES[v['case']]
    sched_txt = {k: n for k, n in v.items() if k.startswith('c') and k[1:2].isdigit()}
    desc = '%d workers, %dx%d tiles, sync=%d, ci=%d, arrivals %s' % (case + (v['sync'], v['ci'], sched_txt))
    try:
        case, res, cell = rerun(v)
    except (sched.Deadlock, sched.TooLong) as exc:
        return '%s: %s' % (desc, exc)
    except Exception as exc:
        return '%s: raises %r' % (desc, exc)
    for c, lab in conditions(case, v['ci'] == 1, v['off'], res, cell):
        if not c:
            return '%s: violated: %s' % (desc, lab)
    return None


def v_run(v):
    return {'tiles': len(rerun(v)[1][1])}


chk.harness('protocol', h_run, replay=r_run, validate=v_run, opts=dict(batch=True), split=[('case', len(CASES)), ('sync', 2)],
            functions=['hazard.HazardCalculator.__init__', 'hazard.HazardCalculator.dumpHazardFromTiles',
                       'hazard.TileGrid', 'hazard.getTiles'],
            bounds='%s (workers, tiles in x, tiles in y); all arrival orders' % (CASES,))
if __name__ == '__main__':
    sys.exit(chk.main())

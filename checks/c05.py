"""Local wind by worker threads: every segment once, workers end, bands used by one thread at a time."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check
from vx import loader, localwind as lw, nps, sched

chk = Check('C05', assumptions=[
    'threads may be switched at queue operations (harness queue) or at queue operations, lock acquisitions and '
    'inside raster reads and writes (harness bands, at most the stated number of preemptions)',
    'raster files are stand-ins; gust, bearing and multiplier rasters share one grid'])
MOD = 'ProcessMultipliers.processMultipliers'
U = loader.Universe(symbolic=[MOD])
# (rows, cols, segment size, threads)
QCASES = [(1, 1, 1, 2), (1, 2, 1, 2), (2, 2, 1, 2), (3, 2, 2, 2), (1, 2, 1, 3), (3, 3, 2, 1), (2, 3, 2, 1), (3, 2, 2, 1), (3, 5, 2, 1), (5, 3, 4, 1)]
BCASES = [(1, 2, 1, 2, 2), (2, 1, 1, 2, 2), (1, 1, 1, 3, 1)]
if chk.thorough:
    QCASES += [(1, 3, 1, 3), (1, 5, 1, 2), (2, 3, 1, 2), (1, 1, 4, 4)]
    BCASES += [(1, 3, 1, 2, 2), (1, 2, 1, 3, 2), (1, 2, 1, 2, 3)]


def drive(case, points, preempt, choose, mod, cell, asarr, combined):
    rows, cols, seg, nthreads = case
    wd = '/nowhere'
    world = lw.World(choose, lambda r, c: asarr([[None] * c for _ in range(r)]), points, preempt)
    world.attach(mod)
    grid = lambda f: asarr([[cell('%s_%d_%d' % (f, y, x)) for x in range(cols)] for y in range(rows)])
    bear = lambda y, x: 45.0 * ((3 * y + x) % 8)
    prj = {'gust_prj.tif': grid('w'), 'bear_prj.tif': asarr([[bear(y, x) for x in range(cols)] for y in range(rows)])}
    m4 = [lw.Band(world, 'm4_' + d, grid('m_' + d)) for d in lw.DIRS]
    for d, b in zip(lw.DIRS, m4):
        world.files[os.path.join(wd, 'm4_%s.tif' % d)] = lw.Dataset([b])
    world.files[os.path.join(wd, 'all.tif')] = lw.Dataset(m4)
    mod.createRaster = lambda *a, **k: None
    mod.calculateBearing = lambda uu, vv: uu

    def reproject(src, match, dst, *a, **k):
        n = os.path.basename(dst)
        world.files[dst] = lw.Dataset([lw.Band(world, n, prj.get(n, prj['gust_prj.tif']))])
    reproject.immediate = True
    mod.reprojectDataset = reproject
    z = np.zeros((2, 2))
    out = mod.processMultV2(z, z, z, np.array([0., 1.]), np.array([0., 1.]), wd, lw.DIRS, nthreads, seg, 500,
                            combined_mulipliers_file=os.path.join(wd, 'all.tif') if combined else None)
    return world.files[out].bands[0], bear


def conditions(case, res, cell):
    rows, cols = case[:2]
    band, bear = res
    for y in range(rows):
        for x in range(cols):
            yield band.writes[y, x] == 1, 'each pixel is written exactly once'
            d = lw.sector(bear(y, x))
            yield band.data[y, x] == cell('w_%d_%d' % (y, x)) * cell('m_%s_%d_%d' % (d, y, x)), \
                'the value of a pixel is gust times multiplier'


def harness(CASES, points, preempts):
    def h(ex):
        i = ex.choose('case', len(CASES))
        case = CASES[i]
        combined = ex.choose('combined', 2)
        cells = {}

        def cell(n):
            if n not in cells:
                cells[n] = ex.real(n, 0, 200)
            return cells[n]
        U.cache.clear()
        mod = U.load(MOD)
        try:
            res = drive(case[:4], points, case[4] if preempts else None, sched.Chooser(ex), mod, cell, nps.sarr,
                        combined)
        except (sched.Deadlock, sched.TooLong):
            ex.prove(False, 'all workers end')
            return None
        except lw.Clash:
            ex.prove(False, 'a raster band is used by one thread at a time')
            return None
        for c, label in conditions(case, res, cell):
            ex.prove(c, label)
        return {'px': res[0].data[0, 0]}

    def rerun(v):
        case = CASES[v['case']]
        names = {}
        cell = lambda n: float(names.setdefault(n, 1 + len(names)))
        mod = loader.fresh(MOD)
        return case, drive(case[:4], points, case[4] if preempts else None, sched.Replayer(v), mod, cell, np.array,
                           v['combined']), cell

    def r(v, label):
        desc = 'rows, cols, segment size, threads%s = %s, schedule %s' % (
            ', preemptions' if preempts else '', CASES[v['case']],
            [n for k, n in v.items() if k[0] == 'c' and k[1:2].isdigit()])
        try:
            case, res, cell = rerun(v)
        except (sched.Deadlock, sched.TooLong, lw.Clash) as exc:
            return '%s: %s' % (desc, exc)
        except Exception as exc:
            return '%s: raises %r' % (desc, exc)
        for c, lab in conditions(case, res, cell):
            if not c:
                return '%s: violated: %s' % (desc, lab)
        return None

    def val(v):
        rerun(v)
        return {}
    return h, r, val


F = [MOD + '.' + f for f in ('processMultV2', 'call_process_multiplier_segment', 'processMultiplierSegment',
                             'loadAllBandArrayData')]
h, r, val = harness(QCASES, ('queue',), False)
chk.harness('queue', h, replay=r, validate=val, functions=F, split=[('case', len(QCASES)), ('combined', 2)],
            opts=dict(batch=True),
            bounds='(rows, cols, segment size, threads) in %s; all interleavings of queue operations' % QCASES)
h, r, val = harness(BCASES, ('queue', 'lock', 'band'), True)
chk.harness('bands', h, replay=r, validate=val, functions=F, split=[('case', len(BCASES)), ('combined', 1)],
            opts=dict(batch=True),
            bounds='(rows, cols, segment size, threads, preemptions) in %s' % BCASES)
if __name__ == '__main__':
    sys.exit(chk.main())

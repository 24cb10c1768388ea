"""Stand-ins for GDAL, thread pools, queues and locks around the local-wind code."""
import queue as real_queue
import threading

import numpy as np

from . import sched

DIRS = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']


class Clash(Exception):
    pass


class Band(object):
    def __init__(self, world, name, data, nodata=None):
        self.world, self.name, self.data, self.nodata = world, name, data, nodata
        self.YSize, self.XSize = data.shape
        self.busy = False
        self.writes = np.zeros(data.shape, int)

    def _use(self):
        if self.busy:
            raise Clash('two threads use raster band %s at the same time' % self.name)
        self.busy = True
        self.world.point('band')
        self.busy = False

    def ReadAsArray(self, xoff=0, yoff=0, win_xsize=None, win_ysize=None, *a, **k):
        self._use()
        w = self.XSize - xoff if win_xsize is None else win_xsize
        h = self.YSize - yoff if win_ysize is None else win_ysize
        if xoff < 0 or yoff < 0 or w < 1 or h < 1 or xoff + w > self.XSize or yoff + h > self.YSize:
            raise RuntimeError('access window out of range')
        return self.data[yoff:yoff + h, xoff:xoff + w].copy()

    def WriteArray(self, arr, xoff=0, yoff=0, *a, **k):
        self._use()
        h, w = arr.shape
        if xoff < 0 or yoff < 0 or xoff + w > self.XSize or yoff + h > self.YSize:
            raise RuntimeError('access window out of range')
        self.data[yoff:yoff + h, xoff:xoff + w] = arr
        self.writes[yoff:yoff + h, xoff:xoff + w] += 1

    def GetNoDataValue(self):
        return self.nodata

    def SetNoDataValue(self, v):
        self.nodata = v

    def FlushCache(self):
        pass


class Dataset(object):
    def __init__(self, bands):
        self.bands = bands
        self.RasterXSize, self.RasterYSize = bands[0].XSize, bands[0].YSize
        self.RasterCount = len(bands)

    def GetRasterBand(self, n):
        return self.bands[n - 1]

    def GetProjection(self):
        return ''

    def GetGeoTransform(self):
        return (0.0, 1.0, 0.0, 0.0, 0.0, -1.0)

    def SetGeoTransform(self, t):
        pass

    def SetProjection(self, t):
        pass

    def FlushCache(self):
        pass


class Lock(object):
    def __init__(self, world):
        self.world, self.held = world, False

    def acquire(self, *a, **k):
        self.world.block('lock', lambda: not self.held)
        self.held = True
        return True

    def release(self):
        self.held = False

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class Future(object):
    def __init__(self, task):
        self.task = task

    def result(self, timeout=None):
        return self.task.value

    def exception(self, timeout=None):
        return None

    def done(self):
        return self.task.done


class World(object):
    """One run of the threaded code.  ``points`` names the yield points at
    which another thread may be scheduled."""

    def __init__(self, choose, blank, points=('queue',), preempt=None):
        self.choose, self.points, self.preempt = choose, points, preempt
        self.files = {}
        self.sched = None
        self.pending = []
        self.blank = blank
        self.left = preempt

    # yield points --------------------------------------------------------
    def point(self, kind):
        if self.sched and self.sched.cur and kind in self.points:
            self.sched.switch()

    def block(self, kind, pred):
        if self.sched and self.sched.cur:
            if kind in self.points or not pred():
                self.sched.switch(pred)
        elif not pred():
            raise sched.Deadlock('main thread blocks')

    def _pick(self, label, n):
        return self.choose(label, n)

    # gdal ------------------------------------------------------------------
    GA_ReadOnly, GA_Update, GDT_Float32 = 0, 1, 6

    def SetConfigOption(self, *a):
        pass

    def Open(self, path, *a):
        return self.files[path] if isinstance(path, str) else path

    def GetDriverByName(self, name):
        return self

    def Create(self, path, cols, rows, n=1, *a, **k):
        self.files[path] = Dataset([Band(self, path, self.blank(rows, cols))])
        return self.files[path]

    # concurrent.futures -------------------------------------------------------
    def ThreadPoolExecutor(self, max_workers=None, **k):
        self.max_workers = max_workers
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.run_pending()

    def shutdown(self, wait=True, **k):
        self.run_pending()

    def submit(self, fn, *a, **k):
        if getattr(fn, 'immediate', False):
            # touches nothing the other tasks use: run in any order
            t = sched.Task('task', None)
            t.value, t.done = fn(*a, **k), True
            return Future(t)
        t = sched.Task('worker %d' % len(self.pending), lambda: fn(*a, **k))
        self.pending.append(t)
        return Future(t)

    def wait(self, fs, timeout=None, return_when='ALL_COMPLETED'):
        self.run_pending()
        return set(fs), set()

    def as_completed(self, fs, timeout=None):
        self.run_pending()
        return list(fs)

    FIRST_EXCEPTION, ALL_COMPLETED, FIRST_COMPLETED = 'FIRST_EXCEPTION', 'ALL_COMPLETED', 'FIRST_COMPLETED'

    def run_pending(self):
        todo, self.pending = self.pending, []
        if todo:
            self.sched = ContextBounded(self._pick, self.preempt) if self.preempt is not None else \
                sched.Scheduler(self._pick)
            self.sched.max_steps = 3000
            self.sched.tasks = todo
            self.sched.run()
            self.sched = None

    # queue ---------------------------------------------------------------------
    Empty, Full = real_queue.Empty, real_queue.Full

    def Queue(self, maxsize=0):
        return Queue(self, maxsize)

    def attach(self, mod):
        """Put the stand-ins into a freshly loaded module."""
        mod.gdal = self
        mod.futures = self
        mod.queue = self
        kinds = (type(threading.Lock()), type(threading.RLock()))
        for k, v in list(vars(mod).items()):
            if isinstance(v, kinds):
                setattr(mod, k, Lock(self))


class ContextBounded(sched.Scheduler):
    """All schedules with at most ``limit`` switches away from a runnable thread."""

    def __init__(self, choose, limit):
        sched.Scheduler.__init__(self, choose)
        self.limit, self.last = limit, None
        outer = self.choose
        self.choose = lambda label, n: outer(label, n)

    def pick(self, ready):
        if self.last in ready:
            if self.limit == 0 or len(ready) == 1:
                return self.last
            order = [self.last] + [t for t in ready if t is not self.last]
            i = self.choose('run', len(order))
            if i:
                self.limit -= 1
            return order[i]
        return ready[0] if len(ready) == 1 else ready[self.choose('run', len(ready))]


class Queue(object):
    def __init__(self, world, maxsize):
        self.world, self.maxsize, self.items = world, maxsize, []

    def put(self, x, block=True, timeout=None):
        self.world.block('queue', lambda: not self.maxsize or len(self.items) < self.maxsize)
        self.items.append(x)

    def put_nowait(self, x):
        self.put(x)

    def empty(self):
        self.world.point('queue')
        return not self.items

    def qsize(self):
        self.world.point('queue')
        return len(self.items)

    def get(self, block=True, timeout=None):
        if not block or timeout is not None:
            self.world.point('queue')
            if not self.items:
                raise real_queue.Empty()
            return self.items.pop(0)
        self.world.block('queue', lambda: bool(self.items))
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(False)

    def task_done(self):
        pass

    def join(self):
        pass


SECTOR = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw', 'n']


def sector(b):
    """Direction whose 45-degree sector, lower bound included, holds bearing b (0..360)."""
    for k, d in enumerate(SECTOR):
        if b < 22.5 + 45 * k:
            return d

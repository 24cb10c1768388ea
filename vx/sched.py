"""
Deterministic scheduling of several copies of the code under test.

Tasks are threads of which exactly one runs at a time.  The order in which
they run, and the message an any-source receive returns, come from a
``choose(label, n)`` callback: in a harness it is the explorer (so every
choice is a solver variable and all of them are explored), in a replay it is
the recorded list of choices.
"""
import threading

import numpy as np


class Killed(BaseException):
    pass


class Deadlock(Exception):
    pass


class TooLong(Exception):
    pass


class Task(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.sem = threading.Semaphore(0)
        self.pred = None            # blocked until pred() holds
        self.done = False
        self.exc = None
        self.value = None
        self.kill = False


class Scheduler(object):
    """policy 'all': every yield point is a choice among the runnable tasks;
    policy 'last': the first task runs only when no other can."""

    def __init__(self, choose, policy='all', max_steps=400):
        self.choose, self.policy, self.max_steps = choose, policy, max_steps
        self.tasks = []
        self.prologue = policy != 'last'
        self.back = threading.Semaphore(0)
        self.cur = None
        self.steps = 0
        self.last = None

    def spawn(self, name, fn):
        t = Task(name, fn)
        self.tasks.append(t)
        return t

    def _body(self, t):
        t.sem.acquire()
        try:
            if not t.kill:
                t.value = t.fn()
        except Killed:
            pass
        except BaseException as exc:        # handed to the main thread
            t.exc = exc
        t.done = True
        self.back.release()

    def switch(self, pred=None):
        """Called by a task: let the scheduler decide who goes on."""
        t = self.cur
        if t is None:
            return
        t.pred = pred
        self.back.release()
        t.sem.acquire()
        if t.kill:
            raise Killed()
        t.pred = None

    def _resume(self, t):
        self.cur = t
        t.sem.release()
        self.back.acquire()
        self.cur = None

    def pick(self, ready):
        if self.policy == 'last':
            return ready[1] if ready[0] is self.tasks[0] and len(ready) > 1 else ready[0]
        return ready[0] if len(ready) == 1 else ready[self.choose('run', len(ready))]

    def run(self):
        for t in self.tasks:
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        err = None
        try:
            if self.prologue:
                # nothing shared is touched before a task's first yield point
                for t in self.tasks:
                    self._resume(t)
                    if t.exc is not None:
                        raise t.exc
            while True:
                live = [t for t in self.tasks if not t.done]
                if not live:
                    break
                ready = [t for t in live if t.pred is None or t.pred()]
                if not ready:
                    err = Deadlock('blocked for ever: %s' % ', '.join(t.name for t in live))
                    break
                self.steps += 1
                if self.steps > self.max_steps:
                    err = TooLong('no end after %d steps' % self.max_steps)
                    break
                t = self.pick(ready)
                self.last = t
                self._resume(t)
                if t.exc is not None:
                    err = t.exc
                    break
        except BaseException as exc:
            err = exc
        for t in self.tasks:
            while not t.done:
                t.kill = True
                self._resume(t)
            t.thread.join()
        if err is not None:
            raise err
        return [t.value for t in self.tasks]


def wirecopy(x):
    """What a receiver sees of a sent object."""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, tuple):
        return tuple(wirecopy(v) for v in x)
    if isinstance(x, list):
        return [wirecopy(v) for v in x]
    if isinstance(x, dict):
        return {k: wirecopy(v) for k, v in x.items()}
    return x


class Status(object):
    def __init__(self):
        self.source = self.tag = None

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class World(object):
    """Message passing between the tasks of a scheduler, MPI style."""
    ANY = -1

    def __init__(self, size, choose, sync=False, max_steps=400):
        self.size = size
        self.sync = sync
        self.choose = choose
        self.sched = Scheduler(choose, policy='last', max_steps=max_steps)
        self.box = [[] for _ in range(size)]        # per destination: [src, tag, obj]
        self.nsent = 0
        self.barrier = [0, 0]

    def mpi(self, rank):
        return MPI(self, rank)

    def run(self, fns):
        """fns[r] is run as rank r."""
        for r, f in enumerate(fns):
            self.sched.spawn('rank %d' % r, f)
        return self.sched.run()

    def leftover(self):
        return sum(len(b) for b in self.box)


class MPI(object):
    ANY_SOURCE = -1
    ANY_TAG = -1
    Status = Status

    def __init__(self, world, rank):
        self.COMM_WORLD = Comm(world, rank)

    def Finalize(self):
        pass


class Comm(object):
    def __init__(self, world, rank):
        self.world, self.rank, self.size = world, rank, world.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def send(self, obj, dest, tag=0):
        w = self.world
        m = [self.rank, tag, wirecopy(obj)]
        if not 0 <= dest < self.size:
            raise ValueError('invalid destination rank %r' % (dest,))
        w.box[dest].append(m)
        w.nsent += 1
        if w.sync:
            w.sched.switch(lambda: not any(x is m for x in w.box[dest]))

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        w = self.world

        def cands():
            seen, out = set(), []
            for m in w.box[self.rank]:
                if (source in (-1, m[0])) and (tag in (-1, m[1])) and m[0] not in seen:
                    seen.add(m[0])
                    out.append(m)
            return out
        w.sched.switch(lambda: bool(cands()))
        c = sorted(cands(), key=lambda m: m[0])
        m = c[0] if len(c) == 1 else c[w.choose('arrival', len(c))]
        w.box[self.rank] = [x for x in w.box[self.rank] if x is not m]
        if status is not None:
            status.source, status.tag = m[0], m[1]
        return m[2]

    def barrier(self):
        w = self.world
        gen = w.barrier[1]
        w.barrier[0] += 1
        if w.barrier[0] == self.size:
            w.barrier[0] = 0
            w.barrier[1] += 1
        else:
            w.sched.switch(lambda: w.barrier[1] != gen)
    Barrier = barrier


class Chooser(object):
    """Numbered choices of a harness; ``replayed(values)`` gives them back."""

    def __init__(self, ex, prefix='c'):
        self.ex, self.prefix, self.n = ex, prefix, 0

    def __call__(self, label, n):
        v = self.ex.choose('%s%d_%s' % (self.prefix, self.n, label), n)
        self.n += 1
        return v


class Replayer(object):
    def __init__(self, vals, prefix='c'):
        self.vals, self.prefix, self.n = vals, prefix, 0

    def __call__(self, label, n):
        v = int(self.vals.get('%s%d_%s' % (self.prefix, self.n, label), 0))
        self.n += 1
        return v if v < n else 0

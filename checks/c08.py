"""An interrupted wind-field run can be resumed: every crash point, then a second run."""
import gc
import os
import pickle
import shutil
import sys
import tempfile
import types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vx.check import Check, close
from vx import core, loader, nps

chk = Check('C08', assumptions=[
    'after an interruption a file being written holds the effect of any prefix of the write operations, or is '
    'unreadable; a rename is atomic and closed files stay intact',
    'in the symbolic runs the netCDF library is a stand-in that stores the operations on a real scratch file; the '
    'replay uses the real library'])
NT = 3 if chk.thorough else 2
PARTS = 8
NCRASH = 2 if chk.thorough else 1
FIELDS = ('vmax', 'ua', 'va', 'slp')
CONF = "[Region]\ngridLimit={'xMin':1,'xMax':2,'yMin':1,'yMax':2}\n[Output]\nPath=x\n"


class Crash(BaseException):
    pass


class Disk(object):
    """counts write operations and interrupts the one the harness picks"""

    def __init__(self, hit):
        self.hit, self.n, self.values, self.open = hit, 0, [], {}

    def op(self, ds=None):
        if self.hit is not None and self.hit(self.n):
            raise Crash()
        self.n += 1

    def put(self, v):
        self.values.append(v)
        return len(self.values) - 1


class Var(object):
    def __init__(self, ds, name):
        self.__dict__.update(ds=ds, name=name)

    def __setitem__(self, k, v):
        self.ds._do('set', self.name, repr(k), self.ds.disk.put(np.array(v, dtype=object)))

    def setncatts(self, d):
        self.ds._do('att', self.name, None, self.ds.disk.put(dict(d)))

    def setncattr(self, k, v):
        self.setncatts({k: v})

    def __setattr__(self, k, v):
        self.setncattr(k, v)

    def __getitem__(self, k):
        for o in reversed(self.ds.ops):
            if o[:2] == ('set', self.name):
                return self.ds.disk.values[o[3]]
        return np.ma.masked_all((2, 2))


class Dataset(object):
    disk = None

    def __init__(self, filename, mode='r', format=None, clobber=True, **k):
        self.__dict__.update(filename=filename, mode=mode, ops=[], variables={}, dimensions={}, closed=False)
        if mode in ('w', 'x'):
            self.disk.op()
            self.disk.open[filename] = self
            self._flush()
        else:
            try:
                with open(filename, 'rb') as fh:
                    self.ops.extend(pickle.load(fh))
            except Exception:
                raise OSError('NetCDF: Unknown file format: %r' % filename)
            for o in self.ops:
                if o[0] == 'var':
                    self.variables[o[1]] = Var(self, o[1])
                elif o[0] == 'dim':
                    self.dimensions[o[1]] = types.SimpleNamespace(size=o[2], __len__=lambda: o[2])

    def _flush(self, n=None):
        with open(self.filename, 'wb') as fh:
            pickle.dump(self.ops[:n], fh)

    def _do(self, *o):
        self.disk.op()
        self.ops.append(o)
        self._flush()

    def createDimension(self, name, size=None):
        self._do('dim', name, int(size))
        self.dimensions[name] = size

    def createVariable(self, name, datatype, dimensions=(), **k):
        self._do('var', name, repr(dimensions), str(datatype))
        self.variables[name] = Var(self, name)
        return self.variables[name]

    def setncatts(self, d):
        self._do('gatt', None, None, self.disk.put(dict(d)))

    def setncattr(self, k, v):
        self.setncatts({k: v})

    def ncattrs(self):
        return [k for o in self.ops if o[0] == 'gatt' for k in self.disk.values[o[3]]]

    def getncattr(self, k):
        for o in self.ops:
            if o[0] == 'gatt' and k in self.disk.values[o[3]]:
                return self.disk.values[o[3]][k]
        raise AttributeError(k)

    __getattr__ = getncattr

    def __setattr__(self, k, v):
        self.setncattr(k, v)

    def sync(self):
        pass

    def filepath(self):
        return self.filename

    def isopen(self):
        return not self.closed

    def close(self):
        if not self.closed:
            self.__dict__['closed'] = True
            if self.mode in ('w', 'x'):
                self.disk.op()
                self.disk.open.pop(self.filename, None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Os(object):
    def __init__(self, disk):
        self._disk = disk

    def __getattr__(self, n):
        f = getattr(os, n)
        if n in ('replace', 'rename', 'remove', 'unlink', 'link'):
            def g(*a, **k):
                self._disk.op()
                return f(*a, **k)
            return g
        return f


class Trk(object):
    def __init__(self, k, path):
        self.trackId, self.trackfile = (k, 7), path


def content(path, disk):
    """variables and attributes of a finished file"""
    ds = Dataset(path)
    out = {}
    for o in ds.ops:
        if o[0] == 'set':
            out[(o[0], o[1])] = disk.values[o[3]]
        elif o[0] == 'att' or o[0] == 'gatt':
            for k in disk.values[o[3]]:
                out[(o[0], o[1], k)] = True
        else:
            out[o[:3]] = True
    return out


def intact(wf, want, disk):
    out = []
    for k, n in enumerate(sorted(want)):
        try:
            if sorted(content(os.path.join(wf, n), disk), key=str) == sorted(want[n], key=str):
                out.append(k)
        except OSError:
            pass
    return out


def build(mod, tmp, cell, asarr, log):
    cfg = loader.real('Utilities.config').ConfigParser()
    cfg.read(os.path.join(tmp, 'c.ini'))
    gen = mod.WindfieldGenerator(cfg, resolution=0.5, gridLimit={'xMin': 1, 'xMax': 2, 'yMin': 1, 'yMax': 2},
                                 windfieldPath=tmp)

    def extremes(track, callback=None):
        k = track.trackId[0]
        log.append(k)
        g = lambda f: asarr([[cell('%s_%d_%d_%d' % (f, k, y, x)) for x in range(2)] for y in range(2)])
        return track, (g('vmax'), g('brg'), g('ua'), g('va'), g('slp'), np.array([1.0, 2.0]), np.array([3.0, 4.0]))
    gen.calculateExtremesFromTrack = extremes
    return gen


def scratch():
    d = os.path.join(tempfile.gettempdir(), 'c08.%d' % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    with open(os.path.join(d, 'c.ini'), 'w') as fh:
        fh.write(CONF)
    open(os.path.join(d, 't.nc'), 'w').close()
    os.mkdir(os.path.join(d, 'windfield'))
    return d


_twin = []


def twin():
    if not _twin:
        nc = types.ModuleType('netCDF4')
        real = loader.real('netCDF4')
        for n in dir(real):
            if not n.startswith('__'):
                setattr(nc, n, getattr(real, n))
        nc.Dataset = Dataset
        U = loader.Universe(symbolic=['wind', 'Utilities.nctools'], stubs={'netCDF4': nc})
        m = U.load('wind')
        _twin.append((m, U.load('Utilities.nctools')))
    return _twin[0]


def names(path):
    return sorted(f for f in os.listdir(path) if f.endswith('.nc'))


def h_crash(ex):
    mod, nct = twin()
    cells = {}

    def cell(n):
        if n not in cells:
            cells[n] = ex.real(n, 0, 120000)
        return cells[n]
    tmp = scratch()
    try:
        wf = os.path.join(tmp, 'windfield')
        tracks = [Trk(k, os.path.join(tmp, 't.nc')) for k in range(NT)]
        log = []
        disk = Disk(None)
        Dataset.disk = disk
        mod.os = nct.os = Os(disk)
        mod.flProgramVersion = lambda *a, **k: 'v'
        # what an uninterrupted run leaves
        gen = build(mod, tmp, cell, nps.sarr, [])
        gen.dumpGustsFromTracks(iter(tracks), wf)
        want = {n: content(os.path.join(wf, n), disk) for n in names(wf)}
        total = disk.n
        for n in os.listdir(wf):
            os.remove(os.path.join(wf, n))
        # interrupted runs
        for c in range(NCRASH):
            at = ex.int('crash%d' % c, 0, total - 1)
            if c == 0:
                ex.assume(at % PARTS == ex.choose('part', PARTS))
            disk.n, disk.open = 0, {}
            disk.hit = lambda n: bool(at == n)
            try:
                build(mod, tmp, cell, nps.sarr, []).dumpGustsFromTracks(iter(tracks), wf)
            except Crash:
                for f, ds in sorted(disk.open.items()):
                    kept = ex.choose('kept%d' % c, len(ds.ops) + 2)
                    if kept <= len(ds.ops):
                        ds._flush(kept)
                    else:
                        with open(f, 'wb') as fh:
                            fh.write(b'\x89HDF garbage')
        # the run that is resumed
        disk.hit = None
        done = intact(wf, want, disk)
        build(mod, tmp, cell, nps.sarr, log).dumpGustsFromTracks(iter(tracks), wf)
        ex.prove(names(wf) == sorted(want), 'every track has a wind-field file after the second run')
        for n in want:
            if not os.path.exists(os.path.join(wf, n)):
                continue
            try:
                got = content(os.path.join(wf, n), disk)
            except OSError:
                ex.prove(False, 'a wind-field file is unreadable after the second run')
                continue
            ex.prove(sorted(got, key=str) == sorted(want[n], key=str),
                     'a wind-field file is incomplete after the second run')
            for k, v in want[n].items():
                if k[0] == 'set' and k in got:
                    ex.prove(got[k].shape == v.shape, 'shape of a field after the second run')
                    for a, b in zip(got[k].ravel(), v.ravel()):
                        if a is not b:
                            ex.prove(a == b, 'a field differs from the uninterrupted run')
        ex.prove(not set(done) & set(log), 'a finished wind field is calculated again')
        ex.prove(len(log) <= NT and len(set(log)) == len(log), 'a track is calculated twice in one run')
    finally:
        shutil.rmtree(tmp)
    return {'files': len(want), 'calculated': len(log)}


def rdrive(v):
    """the same with the real library: each interrupted run ends, with the file closed, at the operation after
    which the kept prefix ends"""
    import netCDF4
    vals = {}

    def cell(n):
        return float(np.float32(vals.setdefault(n, float(len(vals) + 1) + (90000. if n.startswith('slp') else 0.))))
    tmp = scratch()
    try:
        wf = os.path.join(tmp, 'windfield')
        tracks = [Trk(k, os.path.join(tmp, 't.nc')) for k in range(NT)]
        state = {'n': 0, 'm': 0, 'at': None, 'file': None}

        class V(object):
            def __init__(self, v):
                self.__dict__['v'] = v

            def __setitem__(self, k, x):
                tick()
                self.v[k] = x

            def setncatts(self, d):
                tick()
                self.v.setncatts(d)

            def __setattr__(self, k, x):
                tick()
                setattr(self.v, k, x)

        def tick():
            if state['at'] is not None and state['n'] >= state['at']:
                raise Crash()
            state['n'] += 1
            state['m'] += 1

        class DS(netCDF4.Dataset):
            def __init__(self, filename, mode='r', **k):
                if mode in ('w', 'x'):
                    tick()
                    state.update(file=filename, m=0)
                netCDF4.Dataset.__init__(self, filename, mode, **k)

            def createDimension(self, *a, **k):
                tick()
                return netCDF4.Dataset.createDimension(self, *a, **k)

            def createVariable(self, *a, **k):
                tick()
                return V(netCDF4.Dataset.createVariable(self, *a, **k))

            def setncatts(self, d):
                tick()
                netCDF4.Dataset.setncatts(self, d)

            def setncattr(self, k, x):
                tick()
                netCDF4.Dataset.setncattr(self, k, x)

            def close(self):
                if state['file'] == self.filepath():
                    tick()
                    state['file'] = None
                netCDF4.Dataset.close(self)

        mod = loader.fresh('wind', private=['Utilities.nctools'])
        mod.Dataset = DS
        mod.__private__['Utilities.nctools'].Dataset = DS
        mod.flProgramVersion = lambda *a, **k: 'v'

        class O(object):
            def __getattr__(self, n):
                f = getattr(os, n)
                if n in ('replace', 'rename', 'remove', 'unlink', 'link'):
                    def g(*a, **k):
                        tick()
                        return f(*a, **k)
                    return g
                return f
        mod.os = mod.__private__['Utilities.nctools'].os = O()

        def read():
            out = {}
            for n in names(wf):
                with netCDF4.Dataset(os.path.join(wf, n)) as d:
                    out[n] = ({k: np.ma.filled(x[:], np.nan).astype(float) if x.shape else None
                               for k, x in d.variables.items()}, sorted(d.ncattrs()))
            return out
        build(mod, tmp, cell, np.array, []).dumpGustsFromTracks(iter(tracks), wf)
        want = read()
        for n in os.listdir(wf):
            os.remove(os.path.join(wf, n))
        for c in range(NCRASH):
            if 'crash%d' % c not in v:
                continue
            state.update(n=0, at=int(v['crash%d' % c]), file=None)
            try:
                build(mod, tmp, cell, np.array, []).dumpGustsFromTracks(iter(tracks), wf)
            except Crash:
                pass
            gc.collect()
            kept, f = v.get('kept%d' % c), state['file']
            if kept is None or f is None or not os.path.exists(f):
                continue
            if kept > state['m']:
                with open(f, 'wb') as fh:
                    fh.write(b'\x89HDF garbage')
            elif kept < state['m']:
                # what the library had not written out yet: an earlier end of the same run
                state.update(n=0, at=int(v['crash%d' % c]) - (state['m'] - kept), file=None)
                os.remove(f)
                try:
                    build(mod, tmp, cell, np.array, []).dumpGustsFromTracks(iter(tracks), wf)
                except Crash:
                    pass
                gc.collect()
        state.update(at=None, file=None)
        log = []
        build(mod, tmp, cell, np.array, log).dumpGustsFromTracks(iter(tracks), wf)
        return want, read(), log
    finally:
        shutil.rmtree(tmp)


def r_crash(v, label):
    try:
        want, got, log = rdrive(v)
    except Crash:
        return None
    except Exception as exc:
        return 'interrupted at operation %s: the second run raises %r' % (v.get('crash0'), exc)
    return verdict(v, want, got, log)


def v_crash(v):
    want, got, log = rdrive(v)
    return {'files': len(got), 'calculated': len(log)}


def verdict(v, want, got, log):
    d = 'interrupted at write operation %s, then run again: ' % v.get('crash0')
    if sorted(got) != sorted(want):
        return d + 'files %r instead of %r' % (sorted(got), sorted(want))
    for n in want:
        for k, a in want[n][0].items():
            if k not in got[n][0]:
                return d + '%s lacks %s' % (n, k)
            if a is not None and not np.array_equal(a, got[n][0][k]):
                return d + '%s: %s is %r instead of %r' % (n, k, got[n][0][k].tolist(), a.tolist())
        if got[n][1] != want[n][1]:
            return d + '%s: attributes %r missing' % (n, sorted(set(want[n][1]) - set(got[n][1])))
    if len(set(log)) != len(log):
        return d + 'a track is calculated twice'
    return None


EXPECT = ('lat', 'lon') + FIELDS
STATES = ['complete', 'empty', 'garbage', 'subset']


def h_existing(ex):
    """a file left by something else: complete, empty, unreadable, or holding any subset of the variables"""
    mod, nct = twin()
    tmp = scratch()
    try:
        wf = os.path.join(tmp, 'windfield')
        track = Trk(0, os.path.join(tmp, 't.nc'))
        disk = Disk(None)
        Dataset.disk = disk
        mod.os = nct.os = Os(disk)
        mod.flProgramVersion = lambda *a, **k: 'v'
        cell = lambda n: 1.0
        build(mod, tmp, cell, nps.sarr, []).dumpGustsFromTracks(iter([track]), wf)
        f, = [os.path.join(wf, n) for n in names(wf)]
        st = STATES[ex.choose('state', len(STATES))]
        whole = st == 'complete'
        if st == 'empty':
            open(f, 'w').close()
        elif st == 'garbage':
            with open(f, 'wb') as fh:
                fh.write(b'not a netCDF file')
        elif st == 'subset':
            ds = Dataset(f)
            keep = [n for n in EXPECT if ex.bool('has_' + n)]
            whole = len(keep) == len(EXPECT)
            ds.ops[:] = [o for o in ds.ops if o[1] in keep or o[1] not in EXPECT]
            ds._flush()
        log = []
        build(mod, tmp, cell, nps.sarr, log).dumpGustsFromTracks(iter([track]), wf)
        ex.prove(log == ([] if whole else [0]), 'a file in state "%s" is %srecalculated' % (st, '' if whole else 'not '))
        d = Dataset(f)
        ex.prove(all(n in d.variables for n in EXPECT), 'variables missing after the second run')
        return {'n': len(log)}
    finally:
        shutil.rmtree(tmp)


def v_existing(v):
    import netCDF4
    mod = loader.fresh('wind')
    mod.flProgramVersion = lambda *a, **k: 'v'
    tmp = scratch()
    try:
        wf = os.path.join(tmp, 'windfield')
        track = Trk(0, os.path.join(tmp, 't.nc'))
        cell = lambda n: 1.0
        build(mod, tmp, cell, np.array, []).dumpGustsFromTracks(iter([track]), wf)
        f, = [os.path.join(wf, n) for n in names(wf)]
        st = STATES[int(v['state'])]
        if st == 'empty':
            open(f, 'w').close()
        elif st == 'garbage':
            with open(f, 'wb') as fh:
                fh.write(b'not a netCDF file')
        elif st == 'subset':
            os.remove(f)
            with netCDF4.Dataset(f, 'w') as d:
                d.createDimension('lat', 2)
                d.createDimension('lon', 2)
                for n in EXPECT:
                    if v.get('has_' + n):
                        d.createVariable(n, 'f4', (n,) if n in ('lat', 'lon') else ('lat', 'lon'))[:] = 1.0
        log = []
        build(mod, tmp, cell, np.array, log).dumpGustsFromTracks(iter([track]), wf)
        return {'n': len(log)}
    finally:
        shutil.rmtree(tmp)


def r_existing(v, label):
    st = STATES[int(v['state'])]
    whole = st == 'complete' or (st == 'subset' and all(v.get('has_' + n) for n in EXPECT))
    have = [n for n in EXPECT if v.get('has_' + n)] if st == 'subset' else ''
    try:
        n = v_existing(v)['n']
    except Exception as exc:
        return 'existing file in state %s %s: %r' % (st, have, exc)
    if n != (0 if whole else 1):
        return 'existing file in state %s %s: recalculated %d times' % (st, have, n)


chk.harness('existing', h_existing, replay=r_existing, validate=v_existing, max_validate=70,
            functions=['wind.WindfieldGenerator.dumpGustsFromTracks', 'wind.WindfieldGenerator.gustFileComplete'],
            bounds='one existing file: complete, empty, unreadable, or any subset of the six variables')
chk.harness('resume', h_crash, replay=r_crash, validate=v_crash, max_validate=8, split=[('part', PARTS)], opts=dict(batch=True, max_paths=200000),
            functions=['wind.WindfieldGenerator.dumpGustsFromTracks', 'wind.WindfieldGenerator.gustFileComplete',
                       'wind.WindfieldGenerator.gustFilename', 'wind.WindfieldGenerator.saveGustToFile',
                       'Utilities.nctools.ncSaveGrid', 'Utilities.nctools.ncCreateDim'],
            bounds='%d tracks of 2x2 points, %d interruption(s) at every write operation, every kept prefix'
                   % (NT, NCRASH))
if __name__ == '__main__':
    sys.exit(chk.main())

"""Runs the harnesses of one property and reports in the agreed format."""
import itertools
import json
import logging
import multiprocessing as mp
import os
import sys
import time
import traceback
from fractions import Fraction

from . import core, REPO

logging.disable(logging.CRITICAL)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def jsonable(x):
    import numpy as np
    if isinstance(x, Fraction):
        return float(x) if x.denominator != 1 else int(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def num(v):
    """Concrete Python number of a model value."""
    if isinstance(v, Fraction):
        return float(v)
    return v


def close(a, b, rel=1e-6, abs_=1e-7):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


class Harness(object):
    def __init__(self, name, func, replay=None, validate=None, allow_exc=(), opts=None, max_validate=25,
                 expect_paths=1, functions=(), bounds=''):
        self.name, self.func, self.replay, self.validate = name, func, replay, validate
        self.allow_exc = tuple(allow_exc)
        self.opts = opts or {}
        self.max_validate = max_validate
        self.expect_paths = expect_paths
        self.functions = list(functions)
        self.bounds = bounds
        self.fixed = {}


class Check(object):
    def __init__(self, pid, level='model_checking', assumptions=(), quick_s=420, thorough_s=3000):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '0'))
        except ValueError:
            self.seed = 0
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.deadline = self.t0 + (thorough_s if self.thorough else quick_s)
        self.harnesses = []
        self.assumptions = list(assumptions)
        self.known = []
        self.extra = {}

    def harness(self, name, func, split=None, **kw):
        """split = [(choice, n), ...]: one process per combination of choices."""
        if not split:
            self.harnesses.append(Harness(name, func, **kw))
            return
        for combo in itertools.product(*[range(n) for _, n in split]):
            fx = {k: c for (k, _), c in zip(split, combo)}
            h = Harness('%s[%s]' % (name, ','.join('%s=%d' % i for i in fx.items())), func, **kw)
            h.fixed = fx
            self.harnesses.append(h)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # ------------------------------------------------------------------
    def main(self, argv=None):
        argv = sys.argv[1:] if argv is None else argv
        if len(argv) == 2 and argv[0] == '--replay':
            return self._replay_file(argv[1])
        only = argv[1] if len(argv) == 2 and argv[0] == '--only' else None
        results = []
        hs = [h for h in self.harnesses if only is None or h.name.split('[')[0] == only or h.name == only]
        nproc = min(len(hs), int(os.environ.get('VERIF_JOBS', '8')))
        if nproc <= 1 or os.environ.get('VERIF_SERIAL'):
            for h in hs:
                results.append(self._run_one(h))
        else:
            results = self._parallel(hs, nproc)
        code = self._report(results)
        sys.stdout.flush()
        return code

    def _parallel(self, hs, nproc):
        mpc = mp.get_context('fork')
        pending = list(hs)
        running = []
        done = {}
        while pending or running:
            while pending and len(running) < nproc:
                h = pending.pop(0)
                r, w = mpc.Pipe(False)
                p = mpc.Process(target=self._child, args=(h, w))
                p.start()
                w.close()
                running.append((h, p, r))
            for item in list(running):
                if item not in running:
                    continue
                h, p, r = item
                if r.poll(0.02):
                    try:
                        done[h.name] = r.recv()
                    except EOFError:
                        done[h.name] = {'name': h.name, 'error': 'worker ended without a result'}
                    p.join()
                    running.remove(item)
                    if done[h.name].get('violations'):
                        for _, q, _ in running:
                            q.terminate()
                            q.join()
                        pending, running = [], []
                elif not p.is_alive():
                    done[h.name] = {'name': h.name, 'error': 'worker process ended (code %s)' % p.exitcode}
                    running.remove(item)
        return [done[h.name] for h in hs if h.name in done]

    def _child(self, h, w):
        try:
            r = self._run_one(h)
        except BaseException:
            r = {'name': h.name, 'error': traceback.format_exc()}
        w.send(r)
        w.close()

    def _run_one(self, h):
        t0 = time.time()
        res = {'name': h.name, 'functions': h.functions, 'bounds': h.bounds}
        opts = dict(seed=self.seed, deadline=self.deadline)
        opts.update(h.opts)
        ex = core.Explorer(**opts)
        ex.fixed = h.fixed
        validated, samples, mism = [0], [], []

        def hook(ex, path):
            if path.exc is not None:
                if not isinstance(path.exc, h.allow_exc):
                    m = ex.path_model()
                    if m is not None:
                        ex.failures.append(core.Failure(
                            'exception:%s' % type(path.exc).__name__, ex._nice_model(core.z3.BoolVal(True)) or m,
                            list(path.decisions), {'alt': m, 'exc': repr(path.exc), 'tb': path.tb}))
                return
            if len(samples) >= 3 and (h.validate is None or validated[0] >= h.max_validate):
                return
            m = ex.path_model(brief=ex.canon)
            if m is None:
                return
            if not ex.canon:
                m = ex._nice_model(core.z3.BoolVal(True)) or m
            if len(samples) < 3:
                samples.append({k: jsonable(v) for k, v in list(m.items())[:40]})
            if h.validate is not None and validated[0] < h.max_validate and path.value is not None:
                try:
                    if ex.canon:
                        f = core.Evaluator(ex, m)
                        ok_pc = all(f(c) for c in path.pc)
                        sym = {k: f(v.e) if isinstance(v, (core.Sym, core.SymBool)) else v
                               for k, v in path.value.items()}
                    else:
                        ok_pc = getattr(h.validate, 'free', False) or all(
                            core.evaluate(ex, m, core.mkb(c)) for c in path.pc)
                        sym = {k: core.evaluate(ex, m, v) for k, v in path.value.items()}
                except (ValueError, core.Unsupported, ZeroDivisionError, OverflowError):
                    return
                if not ok_pc:
                    return
                real = h.validate({k: num(v) for k, v in m.items()})
                if real is None:
                    return
                for k, v in sym.items():
                    if k in real and not close(num(v), real[k]):
                        mism.append({'inputs': jsonable(m), 'output': k, 'symbolic': jsonable(v),
                                     'real': jsonable(real[k])})
                validated[0] += 1
        ex._path_hook = hook
        err = None
        try:
            ex.explore(h.func)
        except (core.Unsupported, core.Inconclusive) as exc:
            err = '%s: %s\n%s' % (type(exc).__name__, exc, traceback.format_exc())
        res.update(paths=len(ex.paths), cut=ex.n_cut, decisions=ex.n_decisions, queries=ex.queries,
                   solver_s=round(ex.solver_s, 3), obligations=ex.obligations, discharged=ex.discharged,
                   labels={k: list(v) for k, v in ex.labels.items()}, validated=validated[0],
                   samples=samples, unknown=list(ex.unknown), truncated=ex.truncated,
                   mismatches=mism[:3], notes=sorted(ex.notes), violations=[], spurious=[])
        seen = set()
        for f in ex.failures:
            if len(res['violations']) >= 3:
                break
            for vals in (f.model, f.info.get('alt')):
                if vals is None:
                    continue
                cv = {k: num(v) for k, v in vals.items()}
                try:
                    msg = h.replay(cv, f.label) if h.replay else None
                except Exception:
                    msg = None
                    f.info['replay_exc'] = traceback.format_exc()
                if msg:
                    if (f.label, msg) not in seen:
                        seen.add((f.label, msg))
                        res['violations'].append({'label': f.label, 'inputs': jsonable(cv), 'message': msg,
                                                  'harness': h.name})
                    break
            else:
                res['spurious'].append({'label': f.label, 'inputs': jsonable(f.model),
                                        'info': jsonable({k: v for k, v in f.info.items() if k != 'alt'})})
        if err:
            res['error'] = err
        elif res['paths'] < h.expect_paths and not res['violations'] and not res['spurious']:
            res['error'] = 'vacuous: %d completed paths' % res['paths']
        elif not ex.obligations and not res['violations'] and not res['spurious']:
            res['error'] = 'vacuous: no obligation was reached'
        elif ex.truncated:
            res['error'] = 'path limit reached'
        res['wall_s'] = round(time.time() - t0, 2)
        return res

    def _report(self, results):
        viol = [v for r in results for v in r.get('violations', [])]
        errors = []
        for r in results:
            if r.get('error'):
                errors.append('%s: %s' % (r['name'], r['error']))
            if r.get('mismatches'):
                errors.append('%s: encoding disagrees with the code: %s' % (r['name'], r['mismatches']))
            if r.get('unknown'):
                errors.append('%s: solver undecided on %s' % (r['name'], sorted(set(r['unknown']))))
            if r.get('spurious') and not r.get('violations'):
                errors.append('%s: counterexample did not reproduce: %s' % (r['name'], r['spurious'][:2]))
        tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
        cov = {
            'states': tot('paths'), 'transitions': tot('decisions'),
            'traces_validated_against_impl': tot('validated'),
            'samples': [{'harness': r['name'], 'path_model': s} for r in results for s in r.get('samples', [])][:12],
            'obligations': tot('obligations'), 'discharged': tot('discharged'),
            'checker_cmd': 'python checks/%s.py (z3 %s)' % (self.pid.lower(), core.z3.get_version_string()),
            'trusted_base': ['z3', 'CPython', 'the symbolic twins of numpy/math in vx/'],
            'programs': len(results), 'disagreements_checked': tot('obligations'),
            'solver_queries': tot('queries'), 'solver_s': round(tot('solver_s'), 2),
            'functions_encoded': sorted({f for r in results for f in r.get('functions', [])}),
            'harnesses': [{k: r.get(k) for k in ('name', 'bounds', 'paths', 'cut', 'obligations', 'discharged',
                                                 'labels', 'queries', 'solver_s', 'validated', 'notes', 'wall_s')}
                          for r in results],
        }
        keep = {'model_checking': ('states', 'transitions', 'traces_validated_against_impl', 'samples'),
                'proof': ('obligations', 'discharged', 'checker_cmd', 'trusted_base'),
                'translation_validation': ('programs', 'disagreements_checked', 'samples')}
        drop = set(('states', 'transitions', 'traces_validated_against_impl', 'programs',
                    'disagreements_checked', 'checker_cmd', 'trusted_base')) - set(keep.get(self.level, ()))
        if self.level != 'model_checking':
            cov['paths'] = tot('paths')
            cov['traces_validated_against_impl'] = tot('validated')
            drop.discard('traces_validated_against_impl')
        for k in drop:
            cov.pop(k, None)
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
              'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(viol)}
        if errors:
            ev['errors'] = [e[:3000] for e in errors]
        edir = os.path.join(VERIF, 'evidence')
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, '%s.json' % self.pid), 'w') as fh:
            json.dump(ev, fh, indent=1, sort_keys=True, default=repr)
            fh.write('\n')
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        print('%s: %d harnesses, %d paths, %d/%d obligations discharged, %d solver queries (%.1f s), '
              '%d paths replayed on the real code, wall %.1f s'
              % (self.pid, len(results), tot('paths'), tot('discharged'), tot('obligations'), tot('queries'),
                 tot('solver_s'), tot('validated'), time.time() - self.t0))
        if viol:
            v = viol[0]
            rp = os.path.join(edir, 'replay-%s.json' % self.pid)
            with open(rp, 'w') as fh:
                json.dump({'property': self.pid, 'violations': viol,
                           'rerun': 'python checks/%s.py --replay %s' % (self.pid.lower(), rp)}, fh, indent=1)
            for v in viol[:4]:
                print('  %s / %s: %s' % (v['harness'], v['label'], v['message']))
                print('    inputs: %s' % json.dumps(v['inputs'])[:600])
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if errors:
            for e in errors[:3]:
                print('ERROR %s' % e[:3000])
            if len(errors) > 3:
                print('... and %d more errors' % (len(errors) - 3))
            return 3
        return 0

    def _replay_file(self, path):
        with open(path) as fh:
            d = json.load(fh)
        bad = 0
        for v in d['violations']:
            for h in self.harnesses:
                if h.name == v['harness']:
                    msg = h.replay(v['inputs'], v['label'])
                    print('%s / %s: %s' % (h.name, v['label'], msg or 'does not reproduce'))
                    bad += bool(msg)
        return 1 if bad else 0

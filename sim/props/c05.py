"""Aborting a computation from its progress report."""
import numpy as np

from .. import boot, gens, work
from ..prop import Prop, Violation
from . import _fault


class Mine(Exception):
    pass


class Base(BaseException):
    pass


EXC = {'custom': Mine, 'base': Base, 'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit, 'MemoryError': MemoryError,
       'RuntimeError': RuntimeError, 'ValueError': ValueError, 'StopIteration': StopIteration, 'IndexError': IndexError, 'OSError': OSError}


class P(Prop):
    id = 'C05'
    runs = {'quick': 32000, 'thorough': 1500000}
    real = ['C++ extension sources of /repo compiled unchanged (-O0 and -O2)', 'pybind11 bindings', 'Python classes of /repo']
    stub = ['OpenMP runtime (fibers under a seeded scheduler)', 'heap (junk filled, fenced, counted)']
    assumptions = ['the observer is a Python callable']
    rule = ('A run draws a computation that reports progress, a thread schedule and a list of aborts (report number, exception type); the computation is done once '
            'undisturbed (sometimes), aborted at those reports one after the other on the same objects, and repeated. Non-trivial: at least one abort happened; '
            'distinct: different computation, aborts or schedule.')

    def setup(self, env):
        _fault.settle()

    def gen(self, rng, i, tier):
        p = work.gen(rng, work.WITH_REPORTS)
        n = 1 + (p['niter'] if 'niter' in p else p['dturns'] * (p.get('nprof') or p.get('nprofiles')))
        return {'job': p, 'sched': gens.sched(rng), 'before': rng.random() < 0.6,
                'faults': [{'k': rng.choice([1, rng.randrange(1, n + 1), n]), 'exc': rng.choice(sorted(EXC))} for _ in range(rng.choice([1, 1, 1, 2, 3]))]}

    def run(self, s, env, R):
        rt = boot.rt
        sub = _fault.Subject(s['job'], R)
        kind = s['job']['kind']
        rt.begin(s['sched'])
        if s['before']:
            sub.good('before')
        aborted = 0

        def abort(f):
            j = sub.fresh()
            mine = EXC[f['exc']]('stop') if f['exc'] != 'SystemExit' else SystemExit(3)
            seen = []

            def cb(*a):
                seen.append(a)
                if len(seen) >= f['k']:
                    raise mine
            got = None
            try:
                j.call(cb)
            except Violation:
                raise
            except BaseException as e:
                got = e
                tb = e.__traceback__
                e.__traceback__ = None
            if len(seen) < f['k']:
                return j, None
            if got is None:
                raise Violation('swallowed', '%s returned although its observer raised %s at report %d' % (kind, f['exc'], f['k']))
            if got is not mine:
                raise Violation('other-exception', '%s raised %s: %s instead of the %s raised by its observer' % (kind, type(got).__name__, got, f['exc']))
            if len(seen) > f['k']:
                raise Violation('reported-on', '%s went on reporting after its observer raised' % kind)
            return j, mine

        for f in s['faults']:
            before = rt.live()
            j, e = abort(f)
            if e is None:
                R.probe('report not reached')
            else:
                aborted += 1
                R.fault('abort:' + f['exc'])
            what = '%s aborted at report %d' % (kind, f['k'])
            if e is not None:
                sub.unchanged(j, what)
            del j, e
            c = rt.corruption()
            if c:
                raise Violation('memory', '%s: %s' % (what, c))
            _fault.leak_check(rt, before, lambda: abort(f), what)
        sub.good('after')
        c = rt.corruption()
        if c:
            raise Violation('memory', '%s after an abort: %s' % (kind, c))
        st = rt.stats()
        env.recorded = {'sched': {'plan': rt.record(), 'teams': rt.teams()}} if st['regions'] < 5000 else {}
        R.native(st)
        R.probe('prog:' + kind)
        if aborted:
            R.key = [st['sched_hash'] % (1 << 60), s['job'], s['faults']]

    def shrink(self, s):
        for c in work.shrink(s['job']):
            yield dict(s, job=c)
        if s['before']:
            yield dict(s, before=False)
        for k, f in enumerate(s['faults']):
            if f['k'] > 1:
                yield dict(s, faults=s['faults'][:k] + [dict(f, k=f['k'] // 2)] + s['faults'][k + 1:])
            if f['exc'] != 'custom':
                yield dict(s, faults=s['faults'][:k] + [dict(f, exc='custom')] + s['faults'][k + 1:])
        if 'plan' not in s['sched']:
            for c in gens.shrink_int(s['sched'], 'nthreads', 1):
                yield dict(s, sched=c)


PROP = P()

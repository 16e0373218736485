"""Progress reports."""
import threading

import numpy as np

from .. import boot, gens, models, work
from ..prop import Prop, Violation
from ._sched import ScheduleProp


class P(ScheduleProp):
    id = 'C04'
    runs = {'quick': 60000, 'thorough': 3000000}
    rule = ('A run draws a computation that reports progress, its input, a thread schedule and an observer (recording only, or starting a nested computation at '
            'chosen reports, or raising and catching inside, or none). Non-trivial: at least one report was delivered; distinct: different computation, observer '
            'or scheduling-decision hash.')

    def gen(self, rng, i, tier):
        s = {'job': work.gen(rng, work.WITH_REPORTS), 'sched': gens.sched(rng), 'fill': round(rng.uniform(-3, 3), 2), 'observer': 'record', 'faults': []}
        r = rng.random()
        if r < 0.45:
            s['observer'] = 'nested'
            for _ in range(rng.choice([1, 1, 2])):
                s['faults'].append({'at': rng.choice([1, 1, 2, 3, 4]), 'job': work.gen(rng, work.ALL if rng.random() < 0.5 else work.WITH_REPORTS),
                                    'same': rng.random() < 0.15})
        elif r < 0.5:
            s['observer'] = 'none'
        return s

    def run(self, s, env, R):
        p = dict(s['job'])
        if p['kind'] == 'track_native':
            p['fill'] = s['fill']
        job = work.make(p)
        expect = job.reports()
        rows = None
        if p['kind'] == 'track_native':
            X, Y, _ = job.model()
            rows = (X, Y)
        seen, where, late = [], [], []
        ident = threading.get_ident()
        busy = [0]
        tol = work.TTOL[p.get('prec', 'f8')]

        def cb(*a):
            if busy[0]:
                late.append('a report arrived while another one was being handled')
            busy[0] += 1
            try:
                seen.append(a)
                if boot.rt.lib.sim_on_worker() or threading.get_ident() != ident:
                    where.append(len(seen))
                if rows is not None and not late:
                    for r in job.filled(len(seen)):
                        for n, m, fl in (('xp', rows[0], 1.0), ('yp', rows[1], 1e5)):
                            e = models.err(job.inputs[n][r], m[r], fl)
                            if not e <= tol:
                                late.append('profile %d was not complete when turn %d was reported' % (r, len(seen)))
                                break
                for f in s['faults']:
                    if f['at'] == len(seen):
                        R.fault('nested_computation')
                        inner = work.make(dict(p if f['same'] else f['job']))
                        busy[0] -= 1
                        out = exc = None
                        cnt = []
                        try:
                            out = inner.call(lambda *b: cnt.append(b)) if inner.reports() is not None else inner.call()
                        except Violation:
                            raise
                        except Exception as ex:
                            exc = ex
                        busy[0] += 1
                        inner.judge(out, exc, R)
                        if exc is None and inner.reports() is not None and cnt != inner.reports():
                            raise Violation('reports', 'nested %s reported %s' % (inner.name, cnt[:6]))
            finally:
                busy[0] -= 1

        boot.rt.begin(s['sched'])
        out = exc = None
        try:
            out = job.call(None if s['observer'] == 'none' else cb)
        except Violation:
            raise
        except Exception as e:
            exc = e
        st = boot.rt.stats()
        env.recorded = {'sched': {'plan': boot.rt.record(), 'teams': boot.rt.teams()}} if st['regions'] < 5000 else {}
        R.native(st)
        R.probe('prog:' + p['kind'])
        R.probe('reports', len(seen))
        c = boot.rt.corruption()
        if c:
            raise Violation('memory', p['kind'] + ': ' + c)
        verdict = job.judge(out, exc, R)
        R.probe('verdict:' + verdict)
        if s['observer'] != 'none':
            if exc is None and seen != expect:
                raise Violation('reports', '%s reported %s instead of %s' % (job.name, seen[:12], expect[:12]))
            if exc is not None and seen != expect[:len(seen)]:
                raise Violation('reports', '%s reported %s instead of the beginning of %s' % (job.name, seen[:12], expect[:12]))
            if where:
                raise Violation('reports', '%s delivered report %d from a worker thread' % (job.name, where[0]))
            if late:
                raise Violation('reports', '%s: %s' % (job.name, late[0]))
        job.inputs_intact()
        R.add(seen)
        if seen:
            R.key = [st['sched_hash'] % (1 << 60), p, s['faults']]

    def shrink(self, s):
        yield from super().shrink(s)
        for k, f in enumerate(s['faults']):
            if f['at'] > 1:
                yield dict(s, faults=s['faults'][:k] + [dict(f, at=1)] + s['faults'][k + 1:])
            for c in work.shrink(f['job']):
                yield dict(s, faults=s['faults'][:k] + [dict(f, job=c)] + s['faults'][k + 1:])


PROP = P()

"""Histories of operations on one set of objects."""
import gc

import numpy as np

from .. import boot, gens, history, oracle, treat, work
from ..prop import Prop, Violation

CALLBACK_KEEPS = {('tracker', 'init_dphi'), ('tracker', 'init_denergy')}


def volatile(k):
    """what an interrupted tracking may have replaced already"""
    return k[0] == "tracker's particles" or k in CALLBACK_KEEPS or k == ('machine', 'dEbin')


class P(Prop):
    id = 'C09'
    runs = {'quick': 3600, 'thorough': 200000}
    timeout = 120.0
    real = ['Python classes and functions of /repo', 'C++ extension sources of /repo compiled unchanged (-O0 and -O2)', 'pybind11 bindings', 'numpy, scipy']
    stub = ['native heap (failing allocations, junk content)', 'OpenMP runtime (one fiber)']
    assumptions = ['an answer may depend on the operations that set what it is computed from (listed per operation in sim/history.py), on nothing else']
    rule = ('A run draws a history of 4 to 30 operations over one or two sets of objects (machine, programmed machine, profiles, frames, tracker, particles, reconstructions), some '
            'of them rejected, aborted from a progress report, or hit by a failing allocation. Answers of drawn operations are compared with those of new objects, in a process '
            'forked before the first run, that saw only the operations the answer is defined by. After a rejected operation every public attribute must be as before; '
            'everything handed out or passed in must never change; a caller that overwrites arrays he passed in or a call returned must not change any object. Non-trivial: at least one answer compared; distinct: different history.')

    def setup(self, env):
        treat.preload()
        # imports numpy and scipy do on first use
        history.afresh({'nbins': 12, 'nprofiles': 2, 'dturns': 1, 'snpt': 1, 'vrf2': 800.0, 'bdot': 0.0, 'mref': 0, 'film': 0, 'vrf1': 2637.197, 'demax': -1e6,
                        'full_pp': False, 'phi12': 0.4, 'vrf1dot': 0.0, 'npart': 3, 'data': 1, 'warm': []}, [{'op': 'run', 'n': 1, 'w': 0}])
        self.oracle = oracle.Oracle()

    def gen(self, rng, i, tier):
        nw = rng.choice([1, 1, 2])
        ps = [history.world_params(rng) for _ in range(nw)]
        names = list(history.OPS)
        # swarm: a subset of operations, some emphasised
        sub = [n for n in names if rng.random() < rng.choice([0.3, 0.6, 1.0])] or names
        weights = [history.WEIGHT[n] * rng.choice([1, 1, 1, 4]) for n in sub]
        ops = []
        for _ in range(rng.choice([4, 6, 8, 12, 16, 22, 30])):
            n = rng.choices(sub, weights)[0]
            w = rng.randrange(nw)
            if ops and rng.random() < 0.15:
                o = dict(rng.choice(ops), w=w)         # the same once more
                o.pop('abort', None)
                o.pop('alloc', None)
            else:
                o = dict(history.OPS[n].gen(rng, ps[w]), op=n, w=w)
                if n in history.CALLBACK and rng.random() < 0.2:
                    o['abort'] = rng.choice([1, 1, 2, 3])
                elif n in history.ALLOC and o.get('n') != 'x' and o.get('rec') not in ('none', 'text') and rng.random() < 0.15:
                    o['alloc'] = rng.choice([1, 1, 2, 3, 4, 5, 8])
                elif n in history.CALLBACK and rng.random() < 0.3:
                    o['watch'] = True
            o['j'] = rng.random() < 0.4
            if (n in history.TAKES or n in history.RETURNS) and rng.random() < 0.25:
                o['over'] = True
            ops.append(o)
        ops[-1]['j'] = True
        return {'worlds': ps, 'ops': ops, 'junk': rng.choice([0, 1, 2, 3, 4])}

    def run(self, s, env, R):
        history.precision(None, {'to': 'double'}, None)
        try:
            self.history(s, R)
        finally:
            history.precision(None, {'to': 'double'}, None)

    def perform(self, w, o, R):
        """(outputs, exception, kind of failure)"""
        n = [0]
        cb = None
        if 'abort' in o:
            def cb(*a):
                n[0] += 1
                if n[0] == o['abort']:
                    raise history.Stop()
        elif o.get('watch'):
            def cb(*a):
                n[0] += 1
        out = exc = None
        if 'alloc' in o:
            boot.rt.lib.sim_alloc_plan(1, o['alloc'] - 1, 1, 3, 192)
        try:
            out = history.OPS[o['op']].f(w, o, cb)
        except history.Stop as e:
            exc = e
        except Exception as e:
            exc = e
        failed = 0
        if 'alloc' in o:
            failed = boot.rt.stats()['alloc_fail']
            boot.rt.lib.sim_alloc_plan(0, -1, 0, 0, 0)
        if isinstance(exc, history.Stop):
            R.fault('abort_from_report')
            return out, exc, 'aborted'
        if failed:
            R.fault('allocation_failure')
            return out, exc, 'starved'
        return out, exc, None

    def history(self, s, R):
        boot.rt.begin(dict(gens.SEQ, junk=s['junk']))
        worlds = [history.World(p) for p in s['worlds']]
        done, tainted, given = [], [set() for _ in worlds], []
        compared = 0
        for k, o in enumerate(s['ops']):
            w = worlds[o['w']]
            boot.rt.begin(dict(gens.SEQ, junk=s['junk']))
            before = history.snapshot(w)
            passed = len(w.inputs)
            others = [history.snapshot(x) for x in worlds if x is not w]
            out, exc, how = self.perform(w, o, R)
            what = 'operation %d (%s%s)' % (k, o['op'], ' ' + str(o['what']) if 'what' in o else '')
            d = history.OPS[o['op']]
            if isinstance(exc, history.Skip):
                done.append(dict(o, ok=False))
                continue
            e = dict(o, ok=exc is None and how is None)
            done.append(e)
            R.probe('%s:%s' % (o['op'], how or ('rejected' if exc is not None else 'ok')))
            R.add(o['op'], type(exc).__name__)
            # untouched worlds
            for a, b in zip(others, [history.snapshot(x) for x in worlds if x is not w]):
                for c in history.changed(a, b):
                    raise Violation('other-object', '%s changed %s.%s of objects it was not given' % ((what,) + c))
            if exc is not None:
                after = history.snapshot(w)
                for c in history.changed(before, after):
                    if how and volatile(c) and d.unsettled:
                        continue
                    if o['op'] == 'area':
                        continue
                    raise Violation('state-changed', '%s failed with %s and changed %s.%s' % (what, type(exc).__name__, c[0], c[1]))
            if how:
                if exc is None and not isinstance(exc, history.Stop):
                    # the allocation failed but the operation went on: what it stored is judged by C06
                    tainted[o['w']] |= d.writes
                else:
                    tainted[o['w']] |= d.unsettled
                continue
            if o['op'] == 'area' and exc is not None:
                tainted[o['w']].add('ps')
            if exc is None:
                if '*' in d.writes:
                    tainted[o['w']] = set()
                hidden = tainted[o['w']] & history.reads(o)
                tainted[o['w']] = (tainted[o['w']] - d.writes) | (d.writes if hidden else set())
                got = history.outputs(out)
                for x, y in zip(out, got):
                    if isinstance(x, np.ndarray):
                        given.append((what, x, y))
                    R.add(y)
            if o.get('j') and not (tainted[o['w']] & history.reads(o)):
                sl = history.cut(done, k)
                ops = [s['ops'][i] for i in sl] + [o]
                ops = [{a: b for a, b in x.items() if a not in ('j', 'abort', 'alloc', 'watch', 'over')} for x in ops]
                r = self.oracle.ask(history.afresh, s['worlds'][o['w']], ops)
                if r[0] != 'ok':
                    raise Violation('history', '%s succeeded, but new objects fail on the way there: %s' % (what, r[1]))
                kind, want = r[1]
                compared += 1
                if kind == 'exc' and exc is None:
                    raise Violation('history', '%s succeeded, on new objects it fails with %s' % (what, want))
                if kind == 'out' and exc is not None:
                    raise Violation('history', '%s failed with %s: %s; on new objects it succeeds' % (what, type(exc).__name__, exc))
                if kind == 'exc':
                    if type(exc).__name__ != want:
                        raise Violation('history', '%s failed with %s, on new objects with %s' % (what, type(exc).__name__, want))
                    R.probe('compared rejection')
                else:
                    e = history.compare(got, want)
                    if e:
                        raise Violation('history', '%s: %s from the answer of new objects' % (what, e))
                    R.probe('compared answer')
            for wh, x, y in given:
                if not history.same(x, y):
                    raise Violation('result-changed', 'a result of %s changed during %s' % (wh, what))
            for x in worlds:
                for u, v in x.inputs:
                    if not history.same(u, v):
                        raise Violation('input-modified', '%s changed an array passed in' % what)
            if o.get('over') and o['op'] in history.TAKES | set(history.RETURNS):
                self.overwrite(w, o, out if exc is None else [], passed, given, what, R)
        c = boot.rt.corruption()
        if c:
            raise Violation('memory', c)
        if compared:
            R.key = [[o['op'], o['w']] for o in s['ops']] + [s['worlds'][0]['data']]
        R.st['operations'] = len(s['ops'])
        del worlds
        gc.collect()

    def overwrite(self, w, o, out, passed, given, what, R):
        """the caller uses his arrays for something else"""
        mine = [x for x in out[:history.RETURNS.get(o['op'], 0)] if isinstance(x, np.ndarray)]
        if o['op'] in history.TAKES:
            mine += [u for u, v in w.inputs[passed:]]
            del w.inputs[passed:]
        given[:] = [g for g in given if not any(g[1] is x for x in mine)]
        before = history.snapshot(w)
        for x in mine:
            history.scribble(x)
        R.fault('array_overwritten_by_caller', len(mine))
        for c in history.changed(before, history.snapshot(w)):
            raise Violation('aliased', 'overwriting arrays passed to or returned by %s changed %s.%s' % ((what,) + c))
        for wh, x, y in given:
            if not history.same(x, y):
                raise Violation('aliased', 'overwriting arrays passed to or returned by %s changed a result of %s' % (what, wh))

    def shrink(self, s):
        if len(s['worlds']) > 1:
            yield dict(s, worlds=s['worlds'][:1], ops=[o for o in s['ops'] if o['w'] == 0])
            yield dict(s, worlds=s['worlds'][1:], ops=[dict(o, w=0) for o in s['ops'] if o['w'] == 1])
        for k in range(len(s['ops']) - 1, -1, -1):
            yield dict(s, ops=s['ops'][:k] + s['ops'][k + 1:])
        for k, o in enumerate(s['ops']):
            if o['op'] == 'foreign':
                for c in work.shrink(o['job']):
                    yield dict(s, ops=s['ops'][:k] + [dict(o, job=c)] + s['ops'][k + 1:])


PROP = P()

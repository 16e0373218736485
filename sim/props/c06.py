"""Memory exhaustion."""
from .. import boot, gens, work
from ..prop import Prop, Violation
from . import _fault

MASK = {'native': 0b0111, 'numpy': 0b1000, 'any': 0b1111}


class P(Prop):
    id = 'C06'
    runs = {'quick': 32000, 'thorough': 1500000}
    real = ['C++ extension sources of /repo compiled unchanged (-O0 and -O2)', 'pybind11 bindings', 'Python classes of /repo', 'numpy']
    stub = ['heap of the extension and of numpy arrays (fails on demand, fenced, counted)', 'OpenMP runtime (fibers under a seeded scheduler)']
    assumptions = ["small objects of pybind11's bookkeeping (below 192 bytes) and its conversions of argument types do not fail",
                   "allocations of the Python interpreter's own small objects do not fail (capsules that own a result do)"]
    rule = ('A run draws a computation, counts the allocations it makes undisturbed, and repeats it on the same objects with a drawn one (or a drawn run of '
            'consecutive ones, or all from a drawn one on) failing; then it is done once more undisturbed. Non-trivial: an allocation failed; distinct: different '
            'computation, kind of allocation or position.')

    def setup(self, env):
        boot.simnp.enable()
        _fault.settle()

    def gen(self, rng, i, tier):
        s = {'job': work.gen(rng, work.ALL), 'sched': gens.sched(rng), 'faults': []}
        for _ in range(rng.choice([1, 1, 2, 3])):
            s['faults'].append({'what': rng.choice(['native', 'native', 'numpy', 'any']), 'at': round(rng.random(), 4),
                                'span': rng.choice([1, 1, 1, 2, 5, 1 << 40])})
        if s['job'].get('layout') in ('i8', 'f') and s['job']['kind'] in ('reconstruct', 'counts', 'back_project', 'project'):
            s['job']['layout'] = 'c'      # pybind11 takes a failed conversion for a type mismatch
        if 'hybrid_multi' in s['job']['kind']:
            s['job']['centers'] = 'array'
        s['observed'] = rng.random() < 0.3
        return s

    def run(self, s, env, R):
        rt = boot.rt
        kind = s['job']['kind']
        sub = _fault.Subject(s['job'], R)
        rt.begin(s['sched'])
        sub.good('before')
        keys = []
        failures = 0

        def attempt(mask, at, span):
            """(number of eligible allocations, number failed, outcome)"""
            j = sub.fresh()
            cb = (lambda *a: None) if s['observed'] and j.reports() is not None else None
            f0 = rt.stats()['alloc_fail']
            out = exc = None
            n = []

            def off():
                if not n:
                    n.append(rt.lib.sim_alloc_eligible())
                    rt.lib.sim_alloc_plan(0, -1, 0, 0, 0)
            j.returned = off
            rt.lib.sim_alloc_plan(1, at, span, mask, 192)   # smaller single objects: bookkeeping of pybind11
            try:
                out = j.call(cb)
            except Violation:
                raise
            except Exception as e:
                exc = e
            finally:
                off()
            return j, n[0], rt.stats()['alloc_fail'] - f0, out, exc

        for f in s['faults']:
            mask = MASK[f['what']]
            j, n, _, out, exc = attempt(mask, -1, 0)
            j.judge(out, exc)
            if exc is None:
                sub.keep = _fault.snap(j.held()) if sub.obj is not None else None
            if n <= 0:
                R.probe('no allocation')
                continue
            if exc is not None:
                del exc
                R.probe('fails undisturbed')
                continue
            at = min(int(f['at'] * n), n - 1)
            del j, out
            before = rt.live()
            what = '%s with %s allocation %d of %d failing' % (kind, f['what'], at + 1, n)
            j, _, failed, out, exc = attempt(mask, at, f['span'])
            if failed:
                failures += 1
                R.fault('alloc_failure:' + f['what'], failed)
                keys.append([f['what'], at, f['span']])
                if exc is None:
                    # it did without that memory: fine if the result is right
                    try:
                        j.judge(out, None)
                    except Violation as e:
                        raise Violation('no-error', '%s: no error, but %s' % (what, e))
                    R.probe('did without the memory')
                elif not isinstance(exc, MemoryError):
                    raise Violation('wrong-error', '%s: %s: %s' % (what, type(exc).__name__, exc))
                if exc is not None:
                    sub.unchanged(j, what)
            else:
                j.judge(out, exc)
            del j, out, exc
            c = rt.corruption()
            if c:
                raise Violation('memory', '%s: %s' % (what, c))
            _fault.leak_check(rt, before, lambda: attempt(mask, at, f['span']), what)
            if rt.lib.sim_thread_num() != -1:
                raise Violation('memory', '%s: left inside a parallel region' % what)
            sub.good('after')
        st = rt.stats()
        R.native(st)
        R.probe('prog:' + kind)
        if failures:
            R.key = [s['job'], keys]

    def shrink(self, s):
        for c in work.shrink(s['job']):
            yield dict(s, job=c)
        if s['observed']:
            yield dict(s, observed=False)
        for k, f in enumerate(s['faults']):
            if f['span'] > 1:
                yield dict(s, faults=s['faults'][:k] + [dict(f, span=1)] + s['faults'][k + 1:])
        for c in gens.shrink_int(s['sched'], 'nthreads', 1):
            yield dict(s, sched=c)


PROP = P()

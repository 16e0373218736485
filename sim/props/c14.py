"""Native memory: fences, quarantine, accounting, junk contents."""
import gc

import numpy as np

from .. import boot, gens, models, work
from ..prop import Prop, Violation


class Stop(Exception):
    pass


def outside(rng):
    n = rng.choice([1, 2, 3, 5, 8, 20])
    return {'nbins': n, 'npart': rng.choice([1, 2, 5, 20] if rng.random() < 0.97 else [300, 3000, 20000, 150000]), 'data': rng.getrandbits(32), 'prec': rng.choice(['f8', 'f4']),
            'at': rng.choice([0.0, 0.999999, rng.random()]), 'x': rng.choice([-1, -1, n, n, -n, 2 * n, -1000, 1000, 40000, -40000]), 'y': rng.choice([0, 0, n - 1]),
            'axis': rng.choice(['x', 'x', 'y'])}


class P(Prop):
    id = 'C14'
    runs = {'quick': 24000, 'thorough': 1500000}
    real = ['C++ extension sources of /repo compiled unchanged (-O0 and -O2), every memory access checked', 'pybind11 bindings', 'Python classes of /repo']
    stub = ['heap of the extension and of numpy arrays (junk filled, fenced, quarantined)', 'OpenMP runtime (one fiber)']
    assumptions = ['memory not obtained from the heap (stack, constants) is not fenced']
    rule = ('A run is a history of 1 to 4 native computations (valid ones, ones aborted from their progress report, ones with a coordinate outside the image), '
            'each executed under two different contents of all uninitialised and neighbouring memory. Every access is checked against all heap blocks, '
            'fences and the live blocks are examined after each computation. Non-trivial: at least one computation executed; distinct: different history.')

    def setup(self, env):
        boot.simnp.enable()
        boot.rt.lib.sim_guard(1)
        gc.collect()
        gc.freeze()

    def gen(self, rng, i, tier):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            r = rng.random()
            if r < 0.12:
                ops.append({'op': 'outside', **outside(rng)})
            elif r < 0.17:
                ops.append({'op': 'bad_xp', 'job': work.gen(rng, ['run', 'hybrid', 'run_multi']), 'off': rng.choice([-1, 0, 1, 5, -100]), 'at': rng.random(), 'col': rng.choice([0, -1, rng.randrange(64)])})
            elif r < 0.20:
                j = work.gen(rng, ['run', 'reconstruct', 'run_multi', 'hybrid'])
                j['niter'] = rng.choice([-1, -1, -2, -3, -50])
                ops.append({'op': 'bad_niter', 'job': j})
            elif r < 0.29:
                ops.append({'op': 'abort', 'job': work.gen(rng, work.WITH_REPORTS), 'k': rng.choice([1, 1, 2, 3, 5])})
            else:
                ops.append({'op': 'job', 'job': work.gen(rng, work.ALL), 'observed': rng.random() < 0.3})
        a, b = rng.sample([0, 1, 2, 3, 4], 2)
        return {'ops': ops, 'junk': [a, b], 'threads': rng.choice([1, 1, 2, 3])}

    def once(self, op, R, judge):
        """executes one operation; returns the list of arrays it gave"""
        if op['op'] == 'outside':
            return self.outside(op)
        job = work.make(dict(op['job']))
        if op['op'] == 'bad_xp':
            xp = job.inputs['xp'].copy()
            n = job.wf.shape[1]
            xp[int(op['at'] * xp.shape[0]) % xp.shape[0], op['col'] % xp.shape[1]] = op['off'] if op['off'] < 0 else n + op['off']
            job.inputs['xp'] = xp
            try:
                job.call()
            except Exception as e:
                return [np.array([1.0])]
            raise Violation('outside', '%s accepted coordinates outside the image' % job.name)
        if op['op'] == 'bad_niter':
            try:
                job.call()
            except Exception:
                return [np.array([1.0])]
            return []
        if op['op'] == 'abort':
            n = [0]

            def cb(*a):
                n[0] += 1
                if n[0] == op['k']:
                    raise Stop()
            try:
                job.call(cb)
            except Stop:
                return [np.array([float(n[0])])]
            except Exception:
                return []
            return []
        out = exc = None
        try:
            out = job.call((lambda *a: None)) if op.get('observed') and job.reports() is not None else job.call()
        except Violation:
            raise
        except Exception as e:
            exc = e
        if judge:
            R.probe('verdict:' + job.judge(out, exc, R))
        return [] if exc is not None else [np.array(x, dtype=np.float64) for x in out]

    def outside(self, op):
        from longitudinal_tomography.cpp_routines import libtomo
        g = gens.rs('out', op['data'])
        n = op['nbins']
        x = g.integers(0, n, op['npart']).astype(np.int32)
        y = g.integers(0, n, op['npart']).astype(np.int32)
        w = g.random(op['npart']).astype(work.dt(op['prec']))
        k = int(op['at'] * op['npart']) % op['npart']
        if op['axis'] == 'x':
            x[k], y[k] = op['x'], op['y']
        else:
            x[k], y[k] = 0, op['x'] if op['x'] < 0 else n * n + op['x']
        try:
            want = models.phase_space(x, y, w, n)
        except IndexError:
            try:
                libtomo.make_phase_space(x, y, w, n)
            except Exception:
                return [np.array([1.0])]
            raise Violation('outside', 'an image was made of coordinates outside of it')
        return [want]

    def run(self, s, env, R):
        rt = boot.rt
        for no, op in enumerate(s['ops']):
            what = op['op'] + ':' + op['job']['kind'] if 'job' in op else op['op']
            R.probe(what)
            got = []
            for r, junk in enumerate(s['junk']):
                cfg = dict(gens.SEQ, junk=junk, nthreads=s['threads'])
                before = rt.live()
                g0 = rt.lib.sim_guard_count()
                rt.begin(cfg)
                got.append(self.once(op, R, r == 0))
                R.st['checked_accesses'] = R.st.get('checked_accesses', 0) + rt.lib.sim_guard_count() - g0
                R.fault('memory_content')
                c = rt.corruption(full=True)
                if c:
                    raise Violation('memory', '%s: %s' % (what, c))
                if rt.live()[0] > before[0]:
                    gc.collect()
                    if rt.live()[0] > before[0]:
                        n = []
                        for _ in range(3):
                            n.append(rt.live()[0])
                            self.once(op, R, False)
                            gc.collect()
                        n.append(rt.live()[0])
                        if n[0] < n[1] < n[2] < n[3]:
                            raise Violation('leak', '%s: %d native blocks leaked' % (what, n[3] - n[2]))
                st = rt.stats()
                R.st['allocs'] = R.st.get('allocs', 0) + st['allocs']
                R.st['steps'] = R.st.get('steps', 0) + st['steps']
            tol = 1e-10 if op.get('job', op).get('prec', 'f8') == 'f8' else 1e-4
            if len(got[0]) != len(got[1]) or any(not models.err(a, b) <= tol for a, b in zip(*got)):
                raise Violation('memory-content', '%s: the result depends on the content of memory not passed in' % what)
            for a in got[0]:
                R.add(a)
        R.key = s['ops']

    def shrink(self, s):
        for k, op in enumerate(s['ops']):
            if 'job' in op:
                for c in work.shrink(op['job']):
                    yield dict(s, ops=s['ops'][:k] + [dict(op, job=c)] + s['ops'][k + 1:])
            if op['op'] == 'outside':
                for c in gens.shrink_int(op, 'npart', 1):
                    yield dict(s, ops=s['ops'][:k] + [c] + s['ops'][k + 1:])
        if s['threads'] > 1:
            yield dict(s, threads=1)


PROP = P()

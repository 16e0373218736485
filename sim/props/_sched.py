"""Common part of the properties that quantify over thread schedules."""
from .. import boot, gens, work
from ..prop import Prop, Violation


class ScheduleProp(Prop):
    kinds = []
    big = True
    real = ['C++ extension sources of /repo compiled unchanged (-O0 and -O2)', 'pybind11 bindings', 'Python classes of /repo']
    stub = ['OpenMP runtime (fibers under a seeded scheduler)', 'heap (junk filled, fenced)']
    assumptions = ['sequentially consistent memory: reorderings by the hardware are not simulated, those of the compiler at -O0/-O2 are',
                   'at most 512 threads per team']

    def gen(self, rng, i, tier):
        p = work.gen(rng, self.kinds)
        s = {'job': p, 'sched': gens.sched(rng, big=self.big), 'fill': round(rng.uniform(-3, 3), 2),
             'set_threads': rng.choice([0, 0, 0, 0, 0, 1, 2, 3, 6])}
        if self.big and rng.random() < 0.004 and 'npart' in p:      # a big machine
            s['set_threads'] = 0
            s['sched'].update(nthreads=rng.choice([65, 72, 130, 200, 300]), short_team=0.0)
            p['npart'] = max(p['npart'], rng.choice([80, 150, 350]))
            for k, v in (('niter', 2), ('nprof', 3), ('nprofiles', 3), ('dturns', 3)):
                if isinstance(p.get(k), int) and p['npart'] < 1000:
                    p[k] = min(p[k], v)
            for k in ('rec', 'dt', 'delta'):
                if k in p:
                    p[k] = 0
        return s

    def run(self, s, env, R):
        p = dict(s['job'])
        if p['kind'] == 'track_native':
            p['fill'] = s['fill']
        job = work.make(p)
        boot.rt.begin(s['sched'])
        if s.get('set_threads'):
            from longitudinal_tomography.cpp_routines import libtomo
            libtomo.set_num_threads(s['set_threads'])
            R.probe('set_num_threads')
        out = exc = None
        try:
            out = job.call()
        except Violation:
            raise
        except Exception as e:
            exc = e
        st = boot.rt.stats()
        env.recorded = {'sched': {'plan': boot.rt.record(), 'teams': boot.rt.teams()}} if st['regions'] < 5000 else {}
        R.native(st)
        if st['preemptions'] or st['short_teams']:
            R.key = [st['sched_hash'] % (1 << 60), p.get('data'), p['kind']]
        R.probe('prog:' + p['kind'])
        R.probe('team>1', st['max_team'] > 1)
        R.probe('team>particles', st['max_team'] > p.get('npart', 1 << 30))
        R.probe('single precision', p.get('prec') == 'f4')
        c = boot.rt.corruption()
        if c:
            raise Violation('memory', p['kind'] + ': ' + c)
        verdict = job.judge(out, exc, R)
        R.probe('verdict:' + verdict)
        job.inputs_intact()

    def shrink(self, s):
        for c in work.shrink(s['job']):
            yield dict(s, job=c)
        if 'plan' not in s['sched']:
            for c in gens.shrink_int(s['sched'], 'nthreads', 2):
                yield dict(s, sched=c)
        if s.get('set_threads'):
            yield dict(s, set_threads=0)
        if s['sched'].get('short_team'):
            yield dict(s, sched=dict(s['sched'], short_team=0.0))

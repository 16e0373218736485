"""Several clients of one process, under a seeded scheduler."""
from .. import boot, gens, models, oracle, pysched, treat, work
from ..prop import Prop, Violation

SHARED_ATTR = ('m', 'pr', 't')
MACHINE_KINDS = ['track', 'track', 'track_hybrid', 'shortcut_track', 'distribution', 'matched_area', 'whole']


def share(a, b):
    """job b uses the input objects of job a"""
    for k, v in a.inputs.items():
        if k in b.inputs and k not in b.in_place and k not in a.in_place:
            if b.inputs[k].shape == v.shape and b.inputs[k].dtype == v.dtype and (b.before[k] == a.before[k]).all():
                b.inputs[k] = v
    for k in SHARED_ATTR:
        if hasattr(a, k) and hasattr(b, k):
            setattr(b, k, getattr(a, k))


class ClientsProp(Prop):
    threads = True
    timeout = 60.0
    kinds = work.ALL * 2 + treat.TREAT
    real = ['Python classes and functions of /repo', 'C++ extension sources of /repo compiled unchanged (-O0 and -O2)', 'pybind11 bindings', 'numpy, scipy']
    stub = ['choice of the running client thread (one baton, seeded scheduler, switches at executed lines or byte codes of the package, at progress reports and where '
            'native code has released the interpreter lock)', 'threading.Lock and RLock (waiting gives up the baton)', 'OpenMP runtime (fibers under a seeded scheduler)']
    assumptions = ['numpy and scipy routines run without being interrupted by another client',
                   'threads started by the package itself (today there are none) are not under the scheduler']

    def setup(self, env):
        treat.preload()
        self.oracle = oracle.Oracle()

    def gen(self, rng, i, tier):
        jobs, group = [], []
        n = rng.choice([2, 2, 2, 3, 3, 4, 5])
        for k in range(n):
            r = rng.random()
            if jobs and r < 0.3:           # the same call on the same objects
                g = rng.randrange(len(jobs))
                jobs.append(dict(jobs[g]))
                group.append(group[g])
            elif jobs and r < 0.45:        # another operation on the machine of an earlier job
                c = [j for j in range(len(jobs)) if jobs[j]['kind'] in MACHINE_KINDS]
                if c:
                    g = rng.choice(c)
                    q = work.gen(rng, MACHINE_KINDS)
                    for key in ('nbins', 'nprofiles', 'dturns', 'snpt', 'vrf2', 'bdot', 'mref', 'film', 'vrf1', 'demax', 'full_pp', 'phi12', 'vrf1dot'):
                        q[key] = jobs[g][key]
                    q['rec'] = q.get('rec', 0) % max(1, q['nprofiles'] - 1)
                    q.pop('delta', None)
                    jobs.append(q)
                    group.append(group[g])
                else:
                    jobs.append(work.gen(rng, self.kinds))
                    group.append(k)
            else:
                jobs.append(work.gen(rng, self.kinds))
                group.append(k)
        nc = rng.choice([1, 2, 2, 2, 3])
        clients = [[] for _ in range(min(nc, n))]
        order = list(range(n))
        nested = {}
        for k in order:
            hosts = [j for j in range(k) if jobs[j]['kind'] in work.WITH_REPORTS + ['whole']]
            if hosts and rng.random() < 0.35:
                nested.setdefault(str(rng.choice(hosts)), []).append([rng.choice([1, 1, 2, 3]), k])
            else:
                clients[k % len(clients)].append(k)
        return {'jobs': jobs, 'group': group, 'clients': clients, 'nested': nested, 'pysched': pysched.gen(rng), 'sched': gens.sched(rng), 'quiet': rng.random() < 0.2}

    # what differs between the properties
    def perform_hooks(self, s, k, n, R):
        pass

    def prepare_native(self, s):
        pass

    def finished(self, s):
        pass

    def extra_clients(self, s, R):
        return []

    def build(self, s):
        jobs = []
        lead = {}
        for p, g in zip(s['jobs'], s['group']):
            j = work.make(dict(p))
            if isinstance(j, treat.Alone):
                r = self.oracle.ask(oracle.alone, p)
                if r[0] != 'ok':
                    raise Violation('crash', '%s run alone in a process of its own: %s' % (p['kind'], r[1]))
                j.alone = r[1]
            if g in lead:
                share(lead[g], j)
            else:
                lead[g] = j
            jobs.append(j)
        return jobs

    def run(self, s, env, R):
        boot.rt.begin(gens.SEQ)
        jobs = self.build(s)
        results = {}
        boot.rt.begin(s['sched'])
        self.prepare_native(s)

        def perform(k, point):
            j = jobs[k]
            n = [0]
            nest = s['nested'].get(str(k), [])
            if nest or not s.get('quiet'):
                def cb(*a):
                    n[0] += 1
                    point()
                    self.perform_hooks(s, k, n[0], R)
                    for at, c in nest:
                        if at == n[0] and c not in results:
                            R.fault('nested_computation')
                            perform(c, point)
                cb = cb if (j.reports() is not None if not isinstance(j, treat.Alone) else j.name == 'whole') else None
            else:
                cb = None
            results[k] = None
            out = exc = None
            try:
                out = j.call(cb) if cb is not None else j.call()
            except Violation:
                raise
            except Exception as e:
                exc = e
            results[k] = (out, exc)

        def client(ks):
            def body(point):
                for k in ks:
                    point()
                    perform(k, point)
            return body
        bodies = [client(c) for c in s['clients'] if c]
        extra = self.extra_clients(s, R)
        sch = pysched.Scheduler(s['pysched'], bodies + extra)
        sch.run()
        self.finished(s)
        st = boot.rt.stats()
        env.recorded = {'pysched': {'plan': sch.rec}}
        if st['regions'] < 5000:
            env.recorded['sched'] = {'plan': boot.rt.record(), 'teams': boot.rt.teams()}
        R.native(st)
        R.st['client_steps'] = sch.total
        R.fault('client_switch', sch.switches)
        R.probe('native code without interpreter lock', sch.native_free)
        R.il = sch.h.hexdigest()[:16] + '.' + (R.il or '')
        R.add(sch.h.hexdigest())
        for c, e in enumerate(sch.errors):
            if isinstance(e, Violation):
                raise e
            if isinstance(e, pysched.Deadlock):
                raise Violation('deadlock', 'clients: %s' % e)
            if e is not None:
                raise Violation('exception', 'client %d raised %s: %s' % (c, type(e).__name__, e))
        if s['nested'] or sch.switches:
            R.key = [sch.h.hexdigest()[:16], [p['kind'] for p in s['jobs']], s['jobs'][0].get('data')]
        c = boot.rt.corruption()
        if c:
            raise Violation('memory', 'concurrent computations: ' + c)
        boot.rt.begin(gens.SEQ)
        for k, j in enumerate(jobs):
            if k in results and results[k] is not None:
                out, exc = results[k]
                v = self.judge(s, k, j, out, exc, R)
                R.probe('verdict:' + v)
            R.probe('prog:' + j.name)
            j.inputs_intact()

    def judge(self, s, k, j, out, exc, R):
        return j.judge(out, exc, R)

    def shrink(self, s):
        # drop a job
        for k in range(len(s['jobs'])):
            for c in range(len(s['clients'])):
                if k in s['clients'][c]:
                    yield dict(s, clients=[[x for x in cl if x != k] for cl in s['clients']])
        for h in s['nested']:
            yield dict(s, nested={a: b for a, b in s['nested'].items() if a != h})
        if s['sched'].get('nthreads', 1) > 1 and 'plan' not in s['sched']:
            yield dict(s, sched=dict(s['sched'], nthreads=1))
        if len(set(s['group'])) < len(s['group']):
            yield dict(s, group=list(range(len(s['group']))))
        for k, p in enumerate(s['jobs']):
            used = any(k in c for c in s['clients']) or any(k == x[1] for v in s['nested'].values() for x in v)
            if used and s['group'].count(s['group'][k]) == 1:
                for c in work.shrink(p):
                    yield dict(s, jobs=s['jobs'][:k] + [c] + s['jobs'][k + 1:])

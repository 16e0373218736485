"""Base class of a property's simulation and result helpers."""
import hashlib
import traceback

import numpy as np


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls


class Prop:
    id = None
    level = 'exploration'
    runs = {'quick': 4000, 'thorough': 40000}
    timeout = 60.0            # wall seconds for one run before it counts as a hang
    threads = False           # several client threads
    rule = ''
    real = []                 # components running real code
    stub = []                 # components replaced
    assumptions = []
    ddmin_lists = ['sched.plan', 'pysched.plan', 'ops', 'faults']

    def setup(self, env):
        pass

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, scn, env, R):
        """Raise Violation, or return normally. Fills R."""
        raise NotImplementedError

    def shrink(self, scn):
        return ()

    def execute(self, scn, env):
        from . import boot
        R = Result()
        R.env = env
        v = None
        try:
            self.run(scn, env, R)
        except Violation as e:
            v = {'cls': e.cls, 'msg': str(e)[:600]}
        except Exception as e:
            # an error the scenario does not expect; resources of the sandbox are not the code's fault
            where = [f.f_code.co_filename for f, _ in traceback.walk_tb(e.__traceback__)]
            if isinstance(e, (OSError, MemoryError)) and not any(w.startswith(boot.REPO + '/') for w in where):
                raise
            v = {'cls': 'exception', 'msg': ('unexpected %s: %s' % (type(e).__name__, e))[:600]}
        boot.rt.lib.sim_alloc_plan(0, -1, 0, 0, 0)
        out = R.out()
        out['v'] = v
        if v:
            R.h.update(repr(v).encode())
            out['d'] = R.h.hexdigest()[:20]
        return out


class Result:
    def __init__(self):
        self.h = hashlib.sha256()
        self.faults = {}
        self.probes = {}
        self.st = {}
        self.il = None
        self.key = None       # None: trivial run

    def add(self, *xs):
        for x in xs:
            if isinstance(x, np.ndarray):
                self.h.update(repr((x.shape, x.dtype.str)).encode())
                self.h.update(np.ascontiguousarray(x).tobytes())
            elif isinstance(x, (tuple, list)):
                self.add(*x)
            else:
                self.h.update(repr(x).encode())

    def fault(self, name, n=1):
        if n:
            self.faults[name] = self.faults.get(name, 0) + int(n)

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + int(n)

    def native(self, stats):
        """account a simulated native execution"""
        for k in ('regions', 'steps', 'switches', 'preemptions', 'blocked', 'allocs'):
            self.st[k] = self.st.get(k, 0) + stats[k]
        self.st['max_team'] = max(self.st.get('max_team', 0), stats['max_team'])
        self.fault('preemption', stats['preemptions'])
        self.fault('short_team', stats['short_teams'])
        self.h.update(str(stats['sched_hash']).encode())
        self.il = str(stats['sched_hash']) if self.il is None else self.il + '.' + str(stats['sched_hash'])

    def out(self):
        return {'d': self.h.hexdigest()[:20], 'f': self.faults, 'p': self.probes, 'st': self.st,
                'il': self.il, 'key': self.key}

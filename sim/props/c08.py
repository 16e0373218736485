"""Switching the precision or selecting the CPU while others compute."""
import numpy as np

from .. import boot, gens, models, treat, work
from ..prop import Violation
from ._clients import ClientsProp

KINDS = ['run', 'run', 'tomogram', 'hybrid', 'run_multi', 'hybrid_multi', 'hybrid_multi_old', 'reconstruct', 'reconstruct_multi', 'track', 'track', 'track', 'shortcut_track',
         'track_hybrid', 'track_self', 'track_native', 'phase_space', 'phase_space', 'counts', 'whole', 'whole', 'image_of', 'distribution', 'raw_to_profiles',
         'self_fields', 'fit_synch', 'post_process']
OPS = ['single', 'double', 'single', 'double', 'cpu']
REUSE = ('run', 'hybrid', 'track', 'run_multi')
FLOAT_OUT = {'run': (0,), 'tomogram': (0,), 'track': (0, 1), 'whole': (0,)}   # outputs that carry the selected precision


def switch(op):
    import longitudinal_tomography as lt
    from longitudinal_tomography.utils import tomo_config as conf
    if op == 'single':
        lt.set_single_precision()
    elif op == 'double':
        lt.set_double_precision()
    elif op == 'cpu':
        lt.use_cpu()
    elif op == 'conf-single':
        conf.AppConfig.set_single_precision()
    elif op == 'conf-double':
        conf.AppConfig.set_double_precision()


class P(ClientsProp):
    id = 'C08'
    kinds = KINDS
    runs = {'quick': 5000, 'thorough': 400000}
    rule = ('A run draws up to five computations for one to three client threads, and switches of precision or (re-)selections of the CPU that one more thread makes, or '
            'that are made from progress reports, at points the seeded scheduler draws. All results must be right to within single precision; afterwards, with the '
            'precision selected last (and once more in double precision), a computation must be right in that precision. Non-trivial: a switch and a computation were '
            'interleaved; distinct: different client schedule or work.')

    def gen(self, rng, i, tier):
        s = super().gen(rng, i, tier)
        for p in s['jobs']:
            if 'niter' in p:
                p['niter'] = min(p['niter'], 3)
            if p['kind'] == 'track_native':
                p['gentle'] = True
        if rng.random() < 0.85:
            s['ops'] = [rng.choice(OPS + ['conf-single', 'conf-double']) for _ in range(rng.choice([1, 2, 3, 4, 6, 10]))]
        else:
            s['ops'] = []
        s['cbops'] = []
        hosts = [k for k, p in enumerate(s['jobs']) if p['kind'] in work.WITH_REPORTS + ['whole']]
        if hosts and rng.random() < 0.3:
            s['cbops'] = [[rng.choice(hosts), rng.choice([1, 1, 2, 3]), rng.choice(OPS)]]
            s['quiet'] = False
        s['start'] = rng.choice(['double', 'double', 'single'])
        s['reuse'] = rng.choice([[], [], ['single', 'double'], ['double', 'single', 'double'], ['single', 'double', 'single', 'double']])
        s['pause'] = rng.choice([0, 0, 5, 50, 300])
        return s

    def extra_clients(self, s, R):
        if not s['ops']:
            return []

        def body(point):
            for op in s['ops']:
                for _ in range(s['pause']):
                    point()
                point()
                R.fault('switch:' + op)
                switch(op)
        return [body]

    def run(self, s, env, R):
        from longitudinal_tomography.utils import tomo_config as conf
        switch('cpu')
        switch('double')
        try:
            super().run(s, env, R)
            last = [o for o in s['ops'] if o != 'cpu']
            now = self.now
            if last and not s['cbops']:
                want = np.float32 if 'single' in last[-1] else np.float64
                if now != want:
                    raise Violation('precision', 'selected %s but %s is in use' % (last[-1], now))
            if conf.AppConfig.is_gpu_enabled():
                raise Violation('device', 'the GPU is enabled although nobody selected it')
            for op in ('keep', 'single', 'double'):
                switch(op if op != 'keep' else 'single' if now == np.float32 else 'double')
                self.after(s, conf.AppConfig.get_precision(), R)
            if s.get('reuse'):
                self.reuse(s, R)
        finally:
            switch('cpu')
            switch('double')

    def after(self, s, prec, R):
        """computations after the last switch use its precision"""
        for p in s['jobs'][:2] if len(s['jobs']) < 4 else s['jobs'][-1:]:
            j = work.make(dict(p))
            if isinstance(j, treat.Alone) and not prec == np.float64:
                continue
            if isinstance(j, treat.Alone):
                from .. import oracle
                j.alone = self.oracle.ask(oracle.alone, p)[1]
            else:
                j.prec = 'f8' if prec == np.float64 and p.get('prec', 'f8') == 'f8' else 'f4'
            out = exc = None
            try:
                out = j.call()
            except Violation:
                raise
            except Exception as e:
                exc = e
            v = j.judge(out, exc, R)
            if v == 'ok' and out is not None:
                for o in FLOAT_OUT.get(p['kind'], ()):
                    if np.asarray(out[o]).dtype != np.dtype(prec):
                        raise Violation('precision', '%s returned %s after %s was selected' % (p['kind'], np.asarray(out[o]).dtype, np.dtype(prec)))
            R.probe('after:' + v)

    def reuse(self, s, R):
        """one object used in several precisions answers in the last one like a fresh object"""
        p = next((p for p in s['jobs'] if p['kind'] in REUSE), None)
        if p is None:
            return
        switch('double')
        boot.rt.begin(gens.SEQ)
        j, obj = work.make(dict(p)), None
        obj = j.build()
        j.build = lambda: obj
        for op in s['reuse']:
            switch(op)
            R.fault('switch of a used object:' + op)
            got = fresh = None
            try:
                fresh = work.make(dict(p)).call()
            except Exception:
                return
            try:
                got = j.call()
            except Violation:
                raise
            except Exception as e:
                raise Violation('exception', '%s of an object used in %s raised %s: %s' % (p['kind'], s['reuse'], type(e).__name__, e))
            if op != 'double':      # the object holds its data in double precision, a fresh one does not
                continue
            for a, b in zip(got, fresh):
                a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
                ok = np.isfinite(b)
                scale = np.abs(b[ok]).max() if ok.any() else 0.0
                if a.shape != b.shape or not np.all(np.abs(a[ok] - b[ok]) <= 1e-11 * scale):
                    raise Violation('precision', '%s of an object used in %s before differs from that of a fresh object in %s precision' % (p['kind'], s['reuse'], op))

    def perform_hooks(self, s, k, n, R):
        for job, at, op in s['cbops']:
            if job == k and at == n:
                R.fault('switch in report:' + op)
                switch(op)

    def prepare_native(self, s):
        switch(s['start'])

    def finished(self, s):
        from longitudinal_tomography.utils import tomo_config as conf
        self.now = conf.AppConfig.get_precision()

    def judge(self, s, k, j, out, exc, R):
        switch('double')
        if isinstance(j, treat.Alone):
            if exc is not None and j.alone[0] != 'exc':
                raise Violation('exception', '%s raised %s: %s' % (j.name, type(exc).__name__, exc))
            return 'completed'
        j.prec = 'f4'
        keep = dict(j.inputs)
        v = j.judge(out, exc, R)
        j.inputs = keep
        return v


PROP = P()

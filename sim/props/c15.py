"""Histories of device and precision switches with a device that fails."""
import os
import pickle
import shutil
import sys

import numpy as np

from .. import boot, gens, gpu, treat
from ..prop import Prop, Violation

OWN = ('kick_and_drift', 'reconstruct', 'make_phase_space', 'device')


def fresh(copy):
    """import the package anew from a copy of its files"""
    for n in [x for x in sys.modules if x == 'longitudinal_tomography' or x.startswith('longitudinal_tomography.')]:
        if n not in ('longitudinal_tomography.cpp_routines.libtomo', 'longitudinal_tomography._version') or (n.endswith('_version') and getattr(sys.modules[n], '__file__', None)):
            del sys.modules[n]
    sys.path[:] = [copy] + [p for p in sys.path if os.path.realpath(p) != os.path.realpath(boot.REPO)]
    import longitudinal_tomography
    from longitudinal_tomography.utils import tomo_config
    assert tomo_config.__file__.startswith(copy)
    return longitudinal_tomography, tomo_config


class Child:
    """one process"""

    def __init__(self, copy, sim):
        self.copy, self.sim = copy, sim
        self.kdir = os.path.join(copy, 'longitudinal_tomography', 'cuda_kernels')
        gpu.install(sim)
        self.pkg, self.conf = fresh(copy)
        self.names = [n for n in dir(np) if callable(getattr(np, n)) and n[0] != '_'] + list(OWN)
        g = gens.rs('c15', 1)
        self.wf = g.random((3, 6)) + 0.1
        self.xp = np.ascontiguousarray(g.integers(0, 6, (9, 3)), dtype=np.int32)
        self.raw = gens.raw_input({'data': 5, 'npart': 5, 'dturns': 2, 'nprof': 3, 'hr': 2.0, 'phi12_array': False, 'q': 1.0, 'gentle': True})
        self.cpu = self.offered()
        self.want = {}
        boot.rt.begin(gens.SEQ)
        self.want = self.compute_cpu()
        self.probes = []

    def offered(self):
        return {n: getattr(self.conf, n, None) for n in self.names}

    def state(self):
        A = self.conf.AppConfig
        return self.offered(), A.is_gpu_enabled(), A.get_precision()

    # ---- computing ----
    def compute_cpu(self):
        from longitudinal_tomography.tomography import tomography
        c = self.conf
        t = c.AppConfig.get_precision()
        r = {k: (np.array(v, dtype=t) if isinstance(v, np.ndarray) else v) for k, v in self.raw.items()}
        x, y = np.zeros((3, 5), t), np.zeros((3, 5), t)
        o = c.kick_and_drift(x, y, r['denergy'], r['dphi'], r['rf1'], r['rf2'], r['phi0'], r['dE0'], r['drift'], r['phi12'], 2.0, 2, 1, 0, r['nturns'], 5, False, callback=None)
        if o is not None:
            x, y = o
        tm = tomography.Tomography(self.wf, self.xp)
        w = np.array(tm.run(2))
        im = c.make_phase_space(self.xp[:, 0], self.xp[:, 1], np.array(w, dtype=t), 6)
        return [np.array(x), np.array(y), w, np.array(im), np.array(c.sum(c.array([1.5, 2.5]))), np.array(c.cast([0.25, 3.0]))]

    def check_cpu(self, label):
        t = self.conf.AppConfig.get_precision()
        try:
            out = self.compute_cpu()
        except Exception as e:
            raise Violation('cpu-broken', '%s: computing on the CPU fails with %s: %s' % (label, type(e).__name__, e))
        for n, (a, b) in enumerate(zip(out, self.want)):
            if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9 if t == np.float64 else 5e-3, atol=(1e-9 if t == np.float64 else 5e-3) * max(1.0, float(np.max(np.abs(b))))):
                raise Violation('cpu-broken', '%s: result %d on the CPU is wrong' % (label, n))
        if out[0].dtype != t or out[5].dtype != t:
            raise Violation('cpu-broken', '%s: the CPU computes with %s instead of %s' % (label, out[0].dtype, np.dtype(t)))

    def check_gpu(self, label):
        c = self.conf
        t = c.AppConfig.get_precision()
        p = 'single' if t == np.float32 else 'double'
        import cupy as cp
        for n in ('sum', 'zeros', 'copy', 'array', 'where', 'floor'):
            if getattr(c, n, None) is not getattr(cp, n):
                raise Violation('gpu-incomplete', '%s: %s is not the function of the GPU library' % (label, n))
        if c.device != 'GPU':
            raise Violation('gpu-incomplete', '%s: device is %r' % (label, c.device))
        a = c.cast(np.array([1.0, 2.0]))
        if a.dtype != t or not isinstance(a, cp.ndarray):
            raise Violation('gpu-incomplete', '%s: cast gives %s of %s' % (label, type(a).__name__, a.dtype))
        r = {k: (cp.array(v, dtype=t) if isinstance(v, np.ndarray) else v) for k, v in self.raw.items()}
        self.sim.launched = []
        try:
            x, y = cp.zeros((3, 5), t), cp.zeros((3, 5), t)
            c.kick_and_drift(x, y, r['denergy'], r['dphi'], r['rf1'], r['rf2'], r['phi0'], r['dE0'], r['drift'], r['phi12'], 2.0, 2, 1, 0, r['nturns'], 5, False, callback=None)
            w, d, f = c.reconstruct(cp.array(self.xp), cp.array(self.wf), 1, 6, 9, 3)
            im = c.make_phase_space(cp.array(self.xp[:, 0]), cp.array(self.xp[:, 1]), cp.array(np.ones(9)), 6)
        except Exception as e:
            raise Violation('gpu-broken', '%s: computing on the device fails with %s: %s' % (label, type(e).__name__, e))
        kinds = {k for _, k, _ in self.sim.launched}
        if kinds != set(gpu.FUNCS):
            raise Violation('gpu-broken', '%s: kernels of %s were launched' % (label, sorted(kinds)))
        for n, k, q in self.sim.launched:
            if q != p:
                raise Violation('precision', '%s: kernel %s of %s precision was launched, %s is selected' % (label, n, q, p))
        if w.dtype != t:
            raise Violation('precision', '%s: weights on the device are %s' % (label, w.dtype))

    # ---- operations ----
    def possible(self):
        """must a switch to the GPU succeed?"""
        e = self.sim.env
        good, bad = gpu.kernels(self.kdir)
        if e['cupy'] != 'yes' or not e['device'] or bad:
            return False
        return good == gpu.COMPLETE or e['nvcc'] == 'yes'

    def op(self, o, label):
        A, sim = self.conf.AppConfig, self.sim
        k = o['op']
        if k == 'env':
            sim.env.update(o['set'])
            return 'ok'
        if k == 'damage':
            fs = sorted(x for x in os.listdir(self.kdir) if x.endswith('.cubin'))
            if fs:
                f = os.path.join(self.kdir, fs[o['which'] % len(fs)])
                with open(f) as h:
                    t = h.read()
                if o['how'] == 'remove':
                    os.unlink(f)
                else:
                    with open(f, 'w') as h:
                        h.write({'torn': t[:9], 'empty': '', 'lacks': t + ' ' + gpu.FUNCS['reconstruct'][o['which'] % 8] + ' kick_drift_down_turns'}[o['how']])
            return 'ok'
        if k == 'repair':
            for f in os.listdir(self.kdir):
                if f.endswith('.cubin'):
                    os.unlink(os.path.join(self.kdir, f))
            return 'ok'
        if k == 'compute':
            self.check_gpu(label) if A.is_gpu_enabled() and sim.env['device'] else self.check_cpu(label) if not A.is_gpu_enabled() else None
            return 'ok'
        before = self.state()
        could = self.possible()
        fault = o.get('fault') or {}
        sim.operation((fault['at'], fault['act']) if fault.get('where') == 'step' else None, (fault['at'], fault['act']) if fault.get('where') == 'nvcc' else None)
        if o.get('busy') is not None and not before[1]:
            def hook(n):
                if n == o['busy'] and not A.is_gpu_enabled():
                    sim.hook = None
                    plan, sim.plan, m, l = sim.plan, None, sim.n, sim.log
                    self.check_cpu(label + ', while switching')
                    sim.plan, sim.n, sim.log = plan, m, l
                    self.probes.append('computed while switching')
            sim.hook = hook
        exc = None
        try:
            if k == 'gpu':
                (self.pkg.use_gpu if o.get('top') else A.use_gpu)()
            elif k == 'gpu_none':
                A.use_gpu(-1)
            elif k == 'cpu':
                (self.pkg.use_cpu if o.get('top') else A.use_cpu)()
            elif k == 'single':
                (self.pkg.set_single_precision if o.get('top') else A.set_single_precision)()
            elif k == 'double':
                (self.pkg.set_double_precision if o.get('top') else A.set_double_precision)()
            else:
                A.compile_kernels(True)
        except Violation:
            raise
        except Exception as e:
            exc = e
        finally:
            sim.hook = None
        fired = sim.fired or (fault.get('where') == 'nvcc' and sim.compiled() > fault['at'] and fault['act'])
        if fired:
            self.probes.append('fault: %s' % fired)
        sim.operation(None, None)
        after = self.state()
        if exc is not None:
            self.probes.append('%s failed: %s' % (k, type(exc).__name__))
            if k in ('cpu', 'gpu_none') or k in ('single', 'double') and not before[1]:
                raise Violation('cpu-needs-gpu', '%s: %s fails on the CPU with %s: %s' % (label, k, type(exc).__name__, exc))
            if after[1] != before[1] or after[2] != before[2]:
                raise Violation('settings', '%s: %s failed (%s), but now GPU %s, precision %s; before GPU %s, precision %s' % (label, k, exc, after[1], after[2].__name__, before[1], before[2].__name__))
            for n in self.names:
                if after[0][n] is not before[0][n]:
                    raise Violation('settings', '%s: %s failed (%s), but %s was replaced' % (label, k, exc, n))
            if could and not fired and k in ('gpu', 'single', 'double'):
                raise Violation('not-repeatable', '%s: %s fails with %s: %s although nothing is wrong any more' % (label, k, type(exc).__name__, exc))
        else:
            want_gpu = {'gpu': True, 'cpu': False}.get(k, before[1])
            want_prec = {'single': np.float32, 'double': np.float64}.get(k, before[2])
            if after[1] != want_gpu:
                raise Violation('silent', '%s: %s returned, but the GPU is %s' % (label, k, 'on' if after[1] else 'off'))
            if after[2] != want_prec:
                raise Violation('settings', '%s: %s returned, but the precision is %s' % (label, k, after[2].__name__))
            if not want_gpu:
                for n in self.names:
                    if after[0][n] is not self.cpu[n]:
                        raise Violation('settings', '%s: after %s, %s is not what it was on the CPU' % (label, k, n))
            if k == 'compile':
                good, bad = gpu.kernels(self.kdir)
                if good != gpu.COMPLETE or bad:
                    raise Violation('compile', '%s: compiling returned, but the kernels are not complete (%d of 4, %d damaged)' % (label, len(good), bad))
        if after[1]:
            if sim.env['device']:
                self.check_gpu(label)
        else:
            self.check_cpu(label)
        return 'failed' if exc is not None else 'ok'


def process(copy, bindir, ops, start, env):
    """executes operations from start; returns a pickled report on a pipe; may die on the way"""
    r, w = os.pipe()
    p, q = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.close(p)
            n = os.open(os.devnull, os.O_RDWR)
            os.dup2(n, 1)
            os.dup2(n, 2)
            rep = {'done': start, 'out': [], 'v': None, 'probes': [], 'env': env}
            try:
                c = Child(copy, gpu.Sim(env, bindir))
                for k in range(start, len(ops)):
                    os.write(q, b'%d\n' % k)
                    if ops[k]['op'] == 'restart':
                        rep['done'] = k + 1
                        break
                    rep['out'].append((ops[k]['op'], c.op(ops[k], 'operation %d (%s)' % (k + 1, ops[k]['op']))))
                    rep['done'] = k + 1
                rep['probes'] = c.probes
                rep['env'] = c.sim.env
            except Violation as e:
                rep['v'] = (e.cls, str(e))
            b = pickle.dumps(rep)
            while b:
                b = b[os.write(w, b):]
        except BaseException as e:
            os.write(w, pickle.dumps({'broken': repr(e)}))
        finally:
            os._exit(0)
    os.close(w)
    os.close(q)
    b = b''
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        b += d
    at = os.read(p, 65536).split()
    os.close(r)
    os.close(p)
    _, st = os.waitpid(pid, 0)
    return (pickle.loads(b) if b else None), (int(at[-1]) if at else start), st


class P(Prop):
    id = 'C15'
    runs = {'quick': 2500, 'thorough': 120000}
    timeout = 120.0
    real = ['utils/tomo_config.py, cuda_kernels/__init__.py and python_routines/ of /repo (imported anew from a scratch copy in every simulated process)', 'C++ extension (computations on the CPU)', 'files of the compiled kernels']
    stub = ['cupy and the CUDA device (numpy arrays; every import, device, module and kernel call is a step that can fail)', 'nvcc (script that writes, tears or refuses a kernel file)', 'kernels (do not compute; their file and precision are recorded)']
    assumptions = ['the stand-in fails where cupy documents an exception']
    ddmin_lists = ['ops']
    rule = ('A run is a history of up to 12 switches, compilations, computations, restarts and changes of the environment (library, device, compiler, damaged or missing kernels), with a failure or a crash at '
            'drawn steps of the operations. After every operation settings, functions offered, CPU results, and file and precision of the launched kernels are checked; a switch must succeed when nothing is wrong. '
            'Non-trivial: a failure took effect; distinct: sequence of operations, faults and outcomes.')

    def setup(self, env):
        treat.preload()
        self.template = None

    def make_template(self, env):
        import compileall
        import tempfile
        self.template = tempfile.mkdtemp(prefix='tmpl', dir=os.path.dirname(env.root))
        src = os.path.join(boot.REPO, 'longitudinal_tomography')
        dst = os.path.join(self.template, 'longitudinal_tomography')
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns('__pycache__', '*.so', '*.cubin', '*.cpp', '*.h', '*.o'))
        compileall.compile_dir(dst, quiet=2)

    def gen(self, rng, i, tier):
        env = {'cupy': rng.choice(['yes'] * 6 + ['no', 'broken']), 'device': rng.random() < 0.85, 'nvcc': rng.choice(['yes'] * 5 + ['missing', 'fails', 'half', 'silent', 'signal']), 'cuda_path': rng.random() < 0.3,
               'lazy': rng.random() < 0.5}
        ops = []
        for _ in range(rng.choice([2, 3, 5, 8, 12])):
            r = rng.random()
            if r < 0.12:
                what = rng.choice(['cupy', 'device', 'nvcc', 'all', 'all'])
                v = {'cupy': {'cupy': rng.choice(['yes', 'yes', 'no', 'broken'])}, 'device': {'device': rng.random() < 0.7}, 'nvcc': {'nvcc': rng.choice(['yes', 'yes', 'missing', 'fails', 'half', 'silent'])},
                     'all': {'cupy': 'yes', 'device': True, 'nvcc': 'yes'}}[what]
                ops.append({'op': 'env', 'set': v})
                continue
            if r < 0.2:
                ops.append({'op': 'damage', 'which': rng.randrange(8), 'how': rng.choice(['remove', 'torn', 'empty', 'lacks'])})
                continue
            if r < 0.24:
                ops.append({'op': 'repair'})
                continue
            if r < 0.29:
                ops.append({'op': 'restart'})
                continue
            if r < 0.34:
                ops.append({'op': 'compute'})
                continue
            o = {'op': rng.choice(['gpu'] * 7 + ['cpu', 'cpu', 'single', 'single', 'double', 'double', 'compile', 'gpu_none']), 'top': rng.random() < 0.3}
            if rng.random() < 0.5:
                if rng.random() < 0.75:
                    o['fault'] = {'where': 'step', 'at': rng.randrange(rng.choice([4, 12, 45])), 'act': rng.choice(['error'] * 5 + ['memory', 'os', 'runtime', 'crash'])}
                else:
                    o['fault'] = {'where': 'nvcc', 'at': rng.randrange(4), 'act': rng.choice(['fails', 'half', 'silent', 'signal', 'crash'])}
            if rng.random() < 0.2:
                o['busy'] = rng.randrange(20)
            ops.append(o)
        if rng.random() < 0.6:
            ops += [{'op': 'env', 'set': {'cupy': 'yes', 'device': True, 'nvcc': 'yes'}}, {'op': 'gpu'}, {'op': 'cpu'}]
        return {'env': env, 'ops': ops, 'kernels': rng.choice(['none', 'none', 'all', 'all', 'torn'])}

    def run(self, s, env, R):
        if self.template is None:
            self.make_template(env)
        boot.rt.begin(gens.SEQ)
        root = env.scratch()
        copy = os.path.join(root, 'pkg')
        shutil.copytree(self.template, copy)
        bindir = os.path.join(root, 'cuda', 'bin')
        os.makedirs(bindir)
        kdir = os.path.join(copy, 'longitudinal_tomography', 'cuda_kernels')
        if s['kernels'] != 'none':
            for k, p in sorted(gpu.COMPLETE):
                with open(os.path.join(kdir, '%s_%s.cubin' % (k, p)), 'w') as f:
                    f.write('CUBIN %s %s sm_%s END' % (k, p, gpu.ARCH) if s['kernels'] == 'all' or p == 'double' else 'CUBI')
        ops = s['ops']
        e, at, out = dict(s['env']), 0, []
        while at < len(ops):
            rep, last, st = process(copy, bindir, ops, at, e)
            if rep is None:
                f = ops[last].get('fault') or {}
                if f.get('act') != 'crash':
                    raise Violation('died', 'operation %d (%s): the process died with status %d' % (last + 1, ops[last]['op'], st))
                R.fault('crash')
                for o in ops[at:last + 1]:        # what had been changed around it
                    if o['op'] == 'env':
                        e.update(o['set'])
                out.append('crash')
                at = last + 1
                continue
            if 'broken' in rep:
                raise Violation('exception', 'history from operation %d: %s' % (at + 1, rep['broken']))
            if rep['v']:
                raise Violation(*rep['v'])
            for p in rep['probes']:
                if p.startswith('fault: '):
                    R.fault(p[7:].replace(' ', '_'))
                else:
                    R.probe(p)
            out += rep['out']
            e = rep['env']
            if ops[rep['done'] - 1]['op'] == 'restart':
                R.fault('restart')
            at = rep['done']
        R.add(repr(out))
        for x in out:
            R.probe('%s: %s' % (x[0], x[1]) if x != 'crash' else 'crash')
        if R.faults or any(x != 'crash' and x[1] == 'failed' for x in out):
            R.key = [[(o['op'], sorted((o.get('fault') or {}).items(), key=str)) for o in ops], s['kernels'], out]

    def shrink(self, s):
        for k, o in enumerate(s['ops']):
            yield dict(s, ops=s['ops'][:k] + s['ops'][k + 1:])
            for x in ('fault', 'busy', 'top'):
                if o.get(x):
                    yield dict(s, ops=s['ops'][:k] + [{a: b for a, b in o.items() if a != x}] + s['ops'][k + 1:])
        good = {'cupy': 'yes', 'device': True, 'nvcc': 'yes', 'cuda_path': False, 'lazy': False}
        for k, v in good.items():
            if s['env'][k] != v:
                yield dict(s, env=dict(s['env'], **{k: v}))
        if s['kernels'] != 'all':
            yield dict(s, kernels='all')


PROP = P()

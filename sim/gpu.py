"""A stand-in for cupy, a CUDA device and nvcc, every step of which can fail."""
import importlib.abc
import importlib.machinery
import os
import stat
import sys
import types

import numpy as np

STEPS = ('import', 'device', 'use', 'properties', 'attributes', 'capability', 'module', 'function', 'launch')
FUNCS = {'kick_and_drift': ['kick_drift_up_turns', 'kick_drift_down_turns'],
         'reconstruct': ['back_project', 'project', 'clip', 'find_difference_profile', 'count_particles_in_bin', 'calculate_reciprocal', 'compensate_particle_amount', 'create_flat_points']}
ARCH = '70'

NVCC = r'''#!/bin/sh
# stand-in for the CUDA compiler, directed by the file ctl
d=$(dirname "$0")
. "$d/ctl"
n=$(cat "$d/count" 2>/dev/null || echo 0)
echo $((n + 1)) > "$d/count"
out= ; src= ; prec=double ; arch= ; prev=
for a in "$@"; do
    case "$prev" in -o) out=$a ;; -arch) arch=$a ;; esac
    case "$a" in *.cu) src=$a ;; -DUSEFLOAT) prec=single ;; esac
    prev=$a
done
k=$(basename "$src" .cu)
do=ok
if [ "$at" = "$n" ] || [ "$at" = all ]; then do=$how; fi
case "$do" in
    ok) printf 'CUBIN %s %s %s END' "$k" "$prec" "$arch" > "$out" ;;
    fails) echo "nvcc: error" >&2; exit 1 ;;
    half) printf 'CUBIN %s' "$k" > "$out"; exit 1 ;;
    signal) printf 'CUB' > "$out"; kill -9 $$ ;;
    silent) exit 0 ;;
    crash) printf 'CUBIN %s' "$k" > "$out"; if [ "$PPID" = "$pid" ]; then kill -9 "$pid"; fi; exit 1 ;;
esac
exit 0
'''


class Sim:
    """the device as one process sees it"""

    def __init__(self, env, bindir):
        self.env, self.bin = env, bindir
        self.plan = None          # (index, action) of the next operation
        self.n = 0                # steps of the operation
        self.log = []             # (step)
        self.launched = []        # (kernel, file kind, precision)
        self.fired = None
        self.hook = None

    def operation(self, plan, nvcc):
        self.n, self.plan, self.fired, self.log = 0, plan, None, []
        at, how = nvcc if nvcc else ('none', 'ok')
        if not nvcc and self.env['nvcc'] not in ('yes', 'missing'):
            at, how = 'all', self.env['nvcc']
        with open(os.path.join(self.bin, 'ctl'), 'w') as f:
            f.write('at=%s\nhow=%s\npid=%d\n' % (at, how, os.getpid()))
        with open(os.path.join(self.bin, 'count'), 'w') as f:
            f.write('0\n')
        p = os.path.join(self.bin, 'nvcc')
        if self.env['nvcc'] == 'missing':
            if os.path.exists(p):
                os.unlink(p)
        elif not os.path.exists(p):
            with open(p, 'w') as f:
                f.write(NVCC)
            os.chmod(p, stat.S_IRWXU)
        if self.env['cuda_path']:
            os.environ['CUDA_PATH'] = os.path.dirname(self.bin)
        else:
            os.environ.pop('CUDA_PATH', None)

    def compiled(self):
        try:
            with open(os.path.join(self.bin, 'count')) as f:
                return int(f.read() or 0)
        except (OSError, ValueError):
            return 0

    def step(self, name, error):
        k = self.n
        self.n += 1
        self.log.append(name)
        if self.hook is not None:
            self.hook(k)
        if self.plan and self.plan[0] == k:
            self.fired = '%s %s' % (self.plan[1], name)
            if self.plan[1] == 'crash':
                os._exit(77)
            raise {'error': error, 'memory': MemoryError, 'os': OSError, 'runtime': RuntimeError}[self.plan[1]]('simulated failure at step %d (%s)' % (k, name))


class Array(np.ndarray):
    def get(self):
        return np.array(self)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, sim):
        self.sim = sim

    def find_spec(self, name, path, target=None):
        if name == 'cupy' or name.startswith('cupy.'):
            if self.sim.env['cupy'] == 'no' or name != 'cupy':
                raise ModuleNotFoundError("No module named '%s'" % name, name=name)
            return importlib.machinery.ModuleSpec(name, self)

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        if self.sim.env['cupy'] == 'broken':
            raise ImportError('libcuda.so.1: cannot open shared object file')
        self.sim.step('import', ImportError)
        fill(m, self.sim)


def fill(m, sim):
    class CUDARuntimeError(RuntimeError):
        pass

    class CUDADriverError(RuntimeError):
        pass

    def present():
        if not sim.env['device']:
            raise CUDARuntimeError('cudaErrorNoDevice: no CUDA-capable device is detected')

    class Device:
        def __init__(self, id=0):
            sim.step('device', CUDARuntimeError)
            self.id = id

        def use(self):
            sim.step('use', CUDARuntimeError)
            present()

        @property
        def attributes(self):
            sim.step('attributes', CUDARuntimeError)
            present()
            return {'MultiProcessorCount': 4, 'MaxThreadsPerBlock': 128}

        @property
        def compute_capability(self):
            sim.step('capability', CUDARuntimeError)
            present()
            return ARCH

        def __index__(self):
            return self.id

        __int__ = __index__

    def properties(dev):
        sim.step('properties', CUDARuntimeError)
        present()
        return {'name': b'Simulated'}

    class Function:
        def __init__(self, mod, name):
            self.mod, self.name = mod, name

        def __call__(self, grid=None, block=None, args=(), **k):
            sim.step('launch', CUDADriverError)
            present()
            sim.launched.append((self.name, self.mod.kind, self.mod.precision))
            if self.name in ('back_project', 'project'):
                args[0][...] = 1

    class RawModule:
        def __init__(self, code=None, path=None, **k):
            self.path, self.kind = os.path.realpath(path), None
            sim.step('module', CUDADriverError)
            present()
            if not sim.env['lazy']:
                self.load()

        def load(self):
            if self.kind is None:
                try:
                    with open(self.path) as f:
                        t = f.read().split(' ')
                except OSError:
                    raise CUDADriverError('CUDA_ERROR_FILE_NOT_FOUND: file not found')
                if len(t) < 5 or t[0] != 'CUBIN' or t[4] != 'END' or t[3] != 'sm_' + ARCH:
                    raise CUDADriverError('CUDA_ERROR_INVALID_IMAGE: device kernel image is invalid')
                self.kind, self.precision, self.lacks = t[1], t[2], t[5:]

        def get_function(self, name):
            sim.step('function', CUDADriverError)
            present()
            self.load()
            if name not in FUNCS.get(self.kind, ()) or name in self.lacks:
                raise CUDADriverError('CUDA_ERROR_NOT_FOUND: named symbol not found')
            return Function(self, name)

    def wrap(f, name):
        def g(*a, **k):
            r = f(*a, **k)
            return r.view(Array) if isinstance(r, np.ndarray) else r
        g.__name__ = name
        return g
    for n in dir(np):
        f = getattr(np, n)
        if n.startswith('_') or not callable(f):
            continue
        m.__dict__[n] = f if isinstance(f, (type, np.ufunc)) else wrap(f, n)
    m.ndarray = Array
    m.sum = wrap(np.sum, 'sum')
    m.pi = np.pi
    m.RawModule = RawModule
    m.cuda = types.SimpleNamespace(Device=Device, runtime=types.SimpleNamespace(getDeviceProperties=properties, CUDARuntimeError=CUDARuntimeError, getDeviceCount=lambda: 1 if sim.env['device'] else 0),
                                   driver=types.SimpleNamespace(CUDADriverError=CUDADriverError))
    m.RawKernel = None
    m.asnumpy = lambda a: np.array(a)
    m.__version__ = '13.0'


def install(sim):
    sys.meta_path.insert(0, Finder(sim))
    os.environ['PATH'] = sim.bin + ':/usr/bin:/bin'


def kernels(directory):
    """compiled kernels found: {(kind, precision)} complete, number of bad files"""
    good, bad = set(), 0
    for n in sorted(os.listdir(directory)):
        if n.endswith('.cubin'):
            with open(os.path.join(directory, n)) as f:
                t = f.read().split(' ')
            if len(t) == 5 and t[0] == 'CUBIN' and t[4] == 'END':
                good.add((t[1], t[2]))
            else:
                bad += 1
    return good, bad


COMPLETE = {(k, p) for k in FUNCS for p in ('double', 'single')}

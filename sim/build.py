"""Builds the simulated native components from /repo's current tree.

Everything goes to a content-addressed cache directory that git ignores; a
check that finds nothing there builds it itself.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')
CPP = os.path.join(REPO, 'longitudinal_tomography', 'cpp_routines')
NATIVE = os.path.join(HERE, 'native')
CACHE = os.environ.get('SIM_CACHE', os.path.join(VERIF, '.build'))

PY = '/opt/venv/bin/python'
VARIANTS = {'O0': ['-O0'], 'O2': ['-O2']}
BASE = ['-g1', '-fPIC', '-fvisibility=hidden', '-std=c++17', '-fopenmp',
        '-ffast-math', '-fsanitize=thread', '-w',
        '-Wno-error']


class BuildError(Exception):
    pass


def _run(cmd):
    env = dict(os.environ)
    env.pop('LD_PRELOAD', None)
    env['CCACHE_DISABLE'] = '1'
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, env=env)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])


def _hash(*paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _publish(tmp, final):
    os.makedirs(os.path.dirname(final), exist_ok=True)
    try:
        os.rename(tmp, final)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)


def _includes():
    import pybind11
    return ['-I' + pybind11.get_include(),
            '-I' + sysconfig.get_paths()['include']]


def build_runtime():
    """libsimrt.so, simlocal.o, simnp.so, iosim.so -> directory"""
    import numpy
    srcs = sorted(glob.glob(os.path.join(NATIVE, '*.c*')))
    final = os.path.join(CACHE, 'rt-' + _hash(*srcs, os.path.abspath(__file__)))
    if os.path.isdir(final):
        return final
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='rt-tmp-', dir=CACHE)
    j = lambda n: os.path.join(NATIVE, n)
    o = lambda n: os.path.join(tmp, n)

    def rt():
        _run(['g++', '-O2', '-g1', '-fPIC', '-std=c++17', '-fvisibility=hidden', '-w',
              '-shared', j('simrt.cpp'), '-o', o('libsimrt.so'), '-Wl,-Bsymbolic',
              '-Wl,-soname,libsimrt.so', '-static-libstdc++', '-static-libgcc',
              '-Wl,--exclude-libs,ALL'])
        _run(['gcc', '-O2', '-fPIC', '-w', '-shared', j('simnp.c'), '-o', o('simnp.so'),
              '-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include(),
              '-L' + tmp, '-lsimrt', '-Wl,-rpath,$ORIGIN'])

    def loc():
        _run(['g++', '-O1', '-fno-builtin', '-fPIC', '-std=c++17', '-w', '-c', j('simlocal.cpp'), '-o', o('simlocal.o')])

    def shim():
        _run(['gcc', '-O1', '-g1', '-fPIC', '-w', '-fvisibility=hidden', '-shared', j('iosim.c'), '-o', o('iosim.so')])

    with ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(x) for x in (rt, loc, shim)]:
            f.result()
    _publish(tmp, final)
    return final


def repo_sources():
    return sorted(glob.glob(os.path.join(CPP, '*.cpp')))


def build_ext(variants=('O0', 'O2')):
    """Returns {variant: path of simulated libtomo}"""
    rt = build_runtime()
    files = sorted(glob.glob(os.path.join(CPP, '*.cpp')) + glob.glob(os.path.join(CPP, '*.h')))
    key = _hash(*files, extra=os.path.basename(rt))
    out = {}
    jobs = []
    inc = _includes()
    for v in variants:
        final = os.path.join(CACHE, f'ext-{v}-{key}')
        out[v] = os.path.join(final, 'libtomo.so')
        if not os.path.isdir(final):
            jobs.append((v, final, tempfile.mkdtemp(prefix=f'ext-{v}-tmp-', dir=CACHE)))
    if jobs:
        with ThreadPoolExecutor(8) as ex:
            fs = []
            for v, final, tmp in jobs:
                for s in repo_sources():
                    fs.append(ex.submit(_run, ['g++', *VARIANTS[v], *BASE, *inc, '-c', s, '-o',
                                               os.path.join(tmp, os.path.basename(s) + '.o')]))
            for f in fs:
                f.result()
        for v, final, tmp in jobs:
            vs = os.path.join(tmp, 'export.map')
            with open(vs, 'w') as f:
                f.write('{ global: PyInit_libtomo; local: *; };\n')
            wraps = [f'-Wl,--wrap={n}' for n in ('malloc', 'calloc', 'realloc', 'free', 'memcpy', 'memmove', 'memset', 'PyCapsule_New')]
            objs = [os.path.join(tmp, os.path.basename(s) + '.o') for s in repo_sources()]
            cmd = ['g++', '-shared', '-o', os.path.join(tmp, 'libtomo.so'), *objs,
                   os.path.join(rt, 'simlocal.o'), '-static-libstdc++', *wraps,
                   '-Wl,--version-script=' + vs, '-L' + rt, '-lsimrt', '-Wl,-rpath,' + rt, '-lpthread']
            _run(cmd)
            for o in objs:
                os.unlink(o)
            _publish(tmp, final)
    return rt, out


def prune(keep=12):
    """Bound the cache."""
    try:
        d = sorted((os.path.join(CACHE, n) for n in os.listdir(CACHE)), key=os.path.getmtime)
        for p in d[:-keep]:
            shutil.rmtree(p, ignore_errors=True)
    except OSError:
        pass


if __name__ == '__main__':
    import time
    t = time.time()
    print(build_ext())
    print('%.1f s' % (time.time() - t))

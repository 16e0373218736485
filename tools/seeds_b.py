"""Definitions of planted bugs, second batch (I/O, randomness, memory, devices)."""
import re
from seedlib import mk
from seeds_a import H, L, MACH, REC, KD

# ------------------------------------------------------------------ C10
INP = '''
import tempfile, shutil
import longitudinal_tomography as lt
def text(nframes=3, nbins=24, data='pipe', values=None):
    """a parameter file made from the example in the repository"""
    import glob
    src = [f for f in glob.glob('/repo/unit_tests/**/*.dat', recursive=True) + glob.glob(os.getcwd() + '/unit_tests/**/*.dat', recursive=True)]
    p = ['' for _ in range(98)]
    p[12] = data; p[14] = '/nonexistent/'; p[16] = str(nframes); p[18] = '0'; p[20] = str(nbins); p[22] = '3e-8'; p[24] = '3'
    p[26] = p[28] = p[31] = p[34] = '0'; p[36] = '1'; p[39] = '10.5'; p[41] = '-1e6'; p[43] = p[45] = p[47] = '1'; p[49] = '2'; p[51] = '1'
    p[53] = '0'; p[55] = p[57] = '1'; p[61] = '2637.197'; p[63] = p[65] = p[67] = '0.0'; p[69] = '1'; p[71] = '2.0'; p[73] = '0.4'; p[75] = '0.15722'
    p[77] = '0.795'; p[79] = '25.0'; p[81] = '8.239'; p[83] = '4.1'; p[85] = '0.93827231E+9'; p[87] = '1'; p[91] = '0'; p[93] = p[95] = '0.0'; p[97] = '0.36'
    if values is None:
        values = ['%.6f' % (1 + (i % 7) * 0.123456) for i in range(nframes * nbins)]
    return p, values
'''
mk('c10-single-read', 'C10', 'a read system call that returns less than the whole file',
   'the last number is cut short and accepted',
   [('utils/tomo_input.py', '''    with open(input_file_pth, 'r') as f:
        read = f.readlines()
''', '''    # One read is enough, the size of the file is known
    with open(input_file_pth, 'rb', buffering=0) as f:
        read = f.read(os.path.getsize(input_file_pth)).decode()
    read = read.splitlines(keepends=True)
''')], '''
import os, subprocess, sys, tempfile, shutil
if 'CHILD' not in os.environ:
    d = tempfile.mkdtemp()
    try:
        so = os.path.join(d, 'shim.so')
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', so, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shim.c'), '-ldl'], check=True)
        rc = subprocess.run([sys.executable, __file__], env=dict(os.environ, CHILD=so, LD_PRELOAD=so)).returncode
    finally:
        shutil.rmtree(d)
    sys.exit(rc)
import ctypes
shim = ctypes.CDLL(os.environ['CHILD'])
''' + H + INP + '''
from longitudinal_tomography.utils import tomo_input
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'in.dat')
    p, v = text()
    open(f, 'w').write('\\n'.join(p + v) + '\\n')
    want = np.array(v, dtype=float)
    shim.shim_cut(os.path.getsize(f), 4)
    try:
        got = tomo_input.get_user_input(f)[1]
    except Exception:
        sys.exit(0)
    if not np.array_equal(got, want):
        print('read', got[-1], 'instead of', want[-1]); sys.exit(1)
finally:
    shutil.rmtree(d)
''', {'shim.c': r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
static long size = -1, cut;
void shim_cut(int s, int c) { size = s; cut = c; }
ssize_t read(int fd, void *b, size_t n) {
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "read");
    if (size >= 0 && n >= (size_t) size - cut) { n = size - cut; size = -1; }
    return real(fd, b, n);
}
'''})

mk('c10-filling-values', 'C10', 'a damaged number in a separate file with measured data',
   'the damaged number is read as zero',
   [('utils/tomo_input.py', '''            read_data = np.genfromtxt(read_parameters[RAW_DATA_FILE_IDX],
                                      dtype=float)
''', '''            read_data = np.genfromtxt(read_parameters[RAW_DATA_FILE_IDX],
                                      dtype=float, filling_values=0.0)
''')], H + INP + '''
from longitudinal_tomography.utils import tomo_input
d = tempfile.mkdtemp()
try:
    f, r = os.path.join(d, 'in.dat'), os.path.join(d, 'raw.dat')
    p, v = text(data=r)
    v[30] = '1.2x45'
    open(f, 'w').write('\\n'.join(p) + '\\n')
    open(r, 'w').write('\\n'.join(v) + '\\n')
    try:
        got = tomo_input.get_user_input(f)[1]
    except Exception:
        sys.exit(0)
    print('damaged number read as', got[30]); sys.exit(1)
finally:
    shutil.rmtree(d)
''')

mk('c10-early-end-padding', 'C10', 'standard input ending in the middle of the measured data',
   'missing measured data are taken as zeros',
   [('utils/tomo_input.py', '''        read.append(sys.stdin.readline())
''', '''        line = sys.stdin.readline()
        # Trailing samples without beam may be left out
        if not line and line_num > PARAMETER_LENGTH:
            line = '0\\n'
        read.append(line)
''')], H + INP + '''
import io
from longitudinal_tomography.utils import tomo_input
p, v = text()
sys.stdin = io.StringIO('\\n'.join(p + v[:40]) + '\\n')
try:
    got = tomo_input.get_user_input('stdin')[1]
except Exception:
    sys.exit(0)
print('accepted', len(got), 'values of 40'); sys.exit(1)
''')

# ------------------------------------------------------------------ C11
mk('c11-single-write', 'C11', 'a write system call that writes less than asked for',
   'the end of the image file is missing, the function returns normally',
   [('compat/tomoscope.py', '''    with open(path.join(output_path, f'image{film + 1:03d}.data'), 'w') as f:
        for element in out_ps:
            f.write(f'  {element:0.7E}\\n')
''', '''    # Images are large: formatted first and written at once
    lines = ''.join(f'  {element:0.7E}\\n' for element in out_ps)
    with open(path.join(output_path, f'image{film + 1:03d}.data'), 'wb',
              buffering=0) as f:
        f.write(lines.encode())
''')], '''
import os, subprocess, sys, tempfile, shutil
if 'CHILD' not in os.environ:
    d = tempfile.mkdtemp()
    try:
        so = os.path.join(d, 'shim.so')
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', so, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shim.c'), '-ldl'], check=True)
        rc = subprocess.run([sys.executable, __file__], env=dict(os.environ, CHILD=so, LD_PRELOAD=so)).returncode
    finally:
        shutil.rmtree(d)
    sys.exit(rc)
import ctypes
shim = ctypes.CDLL(os.environ['CHILD'])
''' + H + '''
from longitudinal_tomography.compat import tomoscope
d = tempfile.mkdtemp()
try:
    n = 12
    x = np.arange(n, dtype=np.int32)[:, None]
    shim.shim_short(1)
    try:
        tomoscope.save_image(x, x, np.ones(n), n, 0, d)
    except OSError:
        sys.exit(0)
    shim.shim_short(0)
    k = len(open(os.path.join(d, 'image001.data')).read().split())
    if k != n * n:
        print(k, 'values of', n * n, 'written'); sys.exit(1)
finally:
    shutil.rmtree(d)
''', {'shim.c': r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
static int on;
void shim_short(int o) { on = o; }
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    if (on && fd > 2 && n > 100) n = 100;
    return real(fd, b, n);
}
'''})

mk('c11-overwrite-in-place', 'C11', 'a file of an earlier, larger image with the same name',
   'the end of the old image follows the new one',
   [('compat/fortran.py', '''    with open(file_path, 'w') as f:
        for element in image:
''', '''    # An existing file keeps its owner and permissions
    mode = 'r+' if os.path.exists(file_path) else 'w'
    with open(file_path, mode) as f:
        for element in image:
''')], H + '''
import tempfile, shutil
from longitudinal_tomography.compat import fortran
d = tempfile.mkdtemp()
try:
    fortran.save_phase_space(np.ones((5, 5)), 0, d)
    fortran.save_phase_space(np.ones((4, 4)), 0, d)
    k = len(open(os.path.join(d, 'image001.data')).read().split())
    if k != 16:
        print(k, 'values instead of 16'); sys.exit(1)
finally:
    shutil.rmtree(d)
''')

mk('c11-difference-best-effort', 'C11', 'a full disk while the discrepancies are saved',
   'the discrepancy file is incomplete and nothing is reported',
   [('compat/fortran.py', '''    with open(file_path, 'w') as f:
        for i, d in enumerate(diff):
            f.write(f'         {i:3d}  {d:0.7E}\\n')
''', '''    try:
        with open(file_path, 'w') as f:
            for i, d in enumerate(diff):
                f.write(f'         {i:3d}  {d:0.7E}\\n')
    except OSError as e:
        # The discrepancies are not essential
        if not os.path.isfile(file_path):
            raise
        log.warning(f'The difference could not be saved: {e}')
''')], '''
import os, sys, tempfile, shutil, resource
''' + H + '''
from longitudinal_tomography.compat import fortran
import signal
d = tempfile.mkdtemp()
try:
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (100, old[1]))
    ok = True
    try:
        fortran.save_difference(np.ones(50), d, 0)
    except OSError:
        ok = False
    resource.setrlimit(resource.RLIMIT_FSIZE, old)
    if ok and len(open(os.path.join(d, 'd001.data')).readlines()) != 50:
        sys.exit(1)
finally:
    shutil.rmtree(d)
''')

# ------------------------------------------------------------------ C12
mk('c12-background-save', 'C12', 'saving one of the frames failing',
   'the run ends normally although a frame is missing',
   [('utils/tomo_run.py', '''        for film in range(machine.filmstart, machine.filmstop + 1,
                          machine.filmstep):
            tscp.save_image(xp, yp, weight, machine.nbins, film, output_dir)
            tscp.save_profile(tomo.waterfall[film], film, output_dir)
''', '''        # The frames are saved side by side
        saving = []
        for film in range(machine.filmstart, machine.filmstop + 1,
                          machine.filmstep):
            saving.append(threading.Thread(
                target=tscp.save_image,
                args=(xp, yp, weight, machine.nbins, film, output_dir)))
            saving[-1].start()
            tscp.save_profile(tomo.waterfall[film], film, output_dir)
        for thread in saving:
            thread.join()
'''), ('utils/tomo_run.py', '''import logging
import typing''', '''import logging
import threading
import typing''')], H + INP + '''
import contextlib, io, threading
threading.excepthook = lambda a: None
from longitudinal_tomography.utils import tomo_run
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'in.dat')
    g = np.arange(24)
    w = [1e3 * np.exp(-((g - 10.5) / 4) ** 2) + 1 for _ in range(3)]
    p, v = text(values=['%.6f' % x for r in w for x in r])
    p[45] = '2'
    open(f, 'w').write('\\n'.join(p + v) + '\\n')
    os.mkdir(os.path.join(d, 'image002.data'))      # cannot be written
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            tomo_run.run(f, output_dir=d, tomoscope=True)
    except OSError:
        sys.exit(0)
    print('no error'); sys.exit(1)
finally:
    shutil.rmtree(d)
''')

mk('c12-last-frame', 'C12', 'a film whose step does not hit its last frame',
   'a frame beyond the last step is missing',
   [('utils/tomo_run.py', '''        for film in range(machine.filmstart, machine.filmstop + 1,
                          machine.filmstep):
''', '''        nfilms = (machine.filmstop - machine.filmstart) // machine.filmstep
        for film in np.linspace(machine.filmstart, machine.filmstop,
                                nfilms + 1).astype(int):
''')], H + INP + '''
import contextlib, io
from longitudinal_tomography.utils import tomo_run
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'in.dat')
    g = np.arange(24)
    w = [1e3 * np.exp(-((g - 10.5) / 4) ** 2) + 1 for _ in range(4)]
    p, v = text(nframes=4, values=['%.6f' % x for r in w for x in r])
    p[43], p[45], p[47] = '1', '4', '2'             # frames 1 and 3
    open(f, 'w').write('\\n'.join(p + v) + '\\n')
    with contextlib.redirect_stdout(io.StringIO()):
        tomo_run.run(f, output_dir=d, tomoscope=True)
    got = sorted(x for x in os.listdir(d) if x.startswith('image'))
    if got != ['image001.data', 'image003.data']:
        print(got); sys.exit(1)
finally:
    shutil.rmtree(d)
''')

# ------------------------------------------------------------------ C13
RNG = open(__file__.replace('tools/seeds_b.py', 'sim/rng.py')).read()
mk('c13-searchsorted', 'C13', 'a random number which is exactly zero, and a first bin without density',
   'a particle is put into a bin without density',
   [('data/data_treatment.py', '''    samples = np.random.choice(prob.shape[0], n_macro, p=prob)
''', '''    # Inverse of the cumulative distribution, faster than choice
    cdf = np.cumsum(prob)
    cdf /= cdf[-1]
    samples = np.searchsorted(cdf, np.random.random(n_macro))
''')], H + '''
import rng
from longitudinal_tomography.data.data_treatment import density_to_macro
d = np.zeros((4, 4)); d[2, 1] = 3.; d[1, 2] = 1.
rng.use({'seed': 1, 'special': [0.0], 'share': 0.3})
t, e = density_to_macro(np.arange(4.), np.arange(4.), d, 50)
if min(t) < 0.5:
    print('a particle in an empty bin'); sys.exit(1)
'''.replace('import rng', 'sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport rng'), {'rng.py': RNG})

mk('c13-one-offset', 'C13', 'looking at time and energy of the particles together',
   'the position in a bin in time and in energy is always the same',
   [('data/data_treatment.py', '''    dt = coords[samples, 0] + dtbin * (np.random.random(n_macro) - 0.5)
    dE = coords[samples, 1] + dEbin * (np.random.random(n_macro) - 0.5)
''', '''    offset = np.random.random(n_macro) - 0.5
    dt = coords[samples, 0] + dtbin * offset
    dE = coords[samples, 1] + dEbin * offset
''')], H + '''
from longitudinal_tomography.data.data_treatment import density_to_macro
np.random.seed(3)
t, e = density_to_macro(np.arange(4.), np.arange(4.), np.ones((4, 4)), 2000)
c = np.corrcoef(t - np.round(t), e - np.round(e))[0, 1]
if abs(c) > 0.2:
    print('correlation', c); sys.exit(1)
''')

mk('c13-rounded-counts', 'C13', 'a density whose rounded expected counts do not add up',
   'the number of particles differs from the requested one',
   [('data/data_treatment.py', '''    samples = np.random.choice(prob.shape[0], n_macro, p=prob)
''', '''    if n_macro > 10 * prob.shape[0]:
        # Many particles: the expected number in each bin
        samples = np.repeat(np.arange(prob.shape[0]),
                            np.round(prob * n_macro).astype(int))
        n_macro = len(samples)
    else:
        samples = np.random.choice(prob.shape[0], n_macro, p=prob)
''')], H + '''
from longitudinal_tomography.data.data_treatment import density_to_macro
np.random.seed(3)
t, e = density_to_macro(np.arange(3.), np.arange(3.), np.ones((3, 3)), 1000)
if len(t) != 1000:
    print(len(t)); sys.exit(1)
''')

# ------------------------------------------------------------------ C14
mk('c14-block-copy', 'C14', 'a number of particles times profiles that is not a multiple of four',
   'up to three values beyond the coordinates are read and written',
   [(REC, '''    std::memcpy(flat_points, xp, npart * nprof * sizeof(int));
''', '''    for (int i = 0; i < npart * nprof; i += 4)
        std::memcpy(flat_points + i, xp + i, 4 * sizeof(int));
''')], '''
import os, subprocess, sys
if 'CHILD' not in os.environ:
    rc = subprocess.run([sys.executable, __file__], env=dict(os.environ, CHILD='1', MALLOC_CHECK_='3', LD_PRELOAD='libc_malloc_debug.so.0')).returncode
    sys.exit(1 if rc else 0)
''' + L + '''
for n in range(1, 60):
    xp = np.zeros((n, 1), dtype=np.int32)
    libtomo.reconstruct(xp, np.ones((1, 1)), 1, 1, n, 1)
''')

mk('c14-sums-on-stack', 'C14', 'more than 512 profiles',
   'memory beyond a buffer on the stack is overwritten',
   [(REC, '''    real_t sum_waterfall = 0.0;
    #pragma omp parallel for reduction(+ : sum_waterfall)
    for (int i = 0; i < nprof; i++) {
        real_t sum_profile = 0;
        for (int j = 0; j < nbins; j++)
            sum_profile += flat_rec[i * nbins + j];
        for (int j = 0; j < nbins; j++)
            flat_rec[i * nbins + j] /= sum_profile;
        sum_waterfall += sum_profile;
    }
''', '''    real_t sum_waterfall = 0.0;
    real_t sums[512];
    #pragma omp parallel for
    for (int i = 0; i < nprof; i++) {
        sums[i] = 0;
        for (int j = 0; j < nbins; j++)
            sums[i] += flat_rec[i * nbins + j];
        for (int j = 0; j < nbins; j++)
            flat_rec[i * nbins + j] /= sums[i];
    }
    for (int i = 0; i < nprof; i++)
        sum_waterfall += sums[i];
''')], '''
import os, subprocess, sys
if 'CHILD' not in os.environ:
    rc = subprocess.run([sys.executable, __file__], env=dict(os.environ, CHILD='1'), stderr=subprocess.DEVNULL).returncode
    sys.exit(1 if rc else 0)
''' + L + '''
g = np.random.default_rng(1)
nprof = 1500
xp = g.integers(0, 3, (50, nprof)).astype(np.int32)
wf = np.full((nprof, 3), 1 / 3.)
libtomo.set_num_threads(1)
libtomo.reconstruct(xp, wf, 2, 3, 50, nprof)
''')

# ------------------------------------------------------------------ C15
CUPY = '''
import types
def fake_cupy(fail):
    """a cupy with a device that is not available while fail is not empty"""
    cp = types.ModuleType('cupy')
    class CUDARuntimeError(RuntimeError): pass
    def Device(i):
        if fail: raise CUDARuntimeError('no device')
        return types.SimpleNamespace(use=lambda: None, attributes={'MultiProcessorCount': 2, 'MaxThreadsPerBlock': 64}, compute_capability='70')
    cp.cuda = types.SimpleNamespace(Device=Device, runtime=types.SimpleNamespace(CUDARuntimeError=CUDARuntimeError, getDeviceProperties=lambda d: {'name': 'x'}))
    sys.modules['cupy'] = cp
    return cp
'''
mk('c15-enabled-early', 'C15', 'the device not being available when the GPU is selected',
   'the package believes the GPU is in use, later computations fail',
   [('utils/tomo_config.py', '''        single_prec = True if cls._precision == np.float32 else False
''', '''        single_prec = cls._precision == np.float32
        cls._gpu_enabled = True
'''), ('utils/tomo_config.py', '''        cls.__update_active_dict(gpu_func_dict)
        cls._gpu_enabled = True
''', '''        cls.__update_active_dict(gpu_func_dict)
''')], H + CUPY + '''
from longitudinal_tomography.utils import tomo_config as conf
fake_cupy([1])
try:
    conf.AppConfig.use_gpu()
    sys.exit(0)
except Exception:
    pass
if conf.AppConfig.is_gpu_enabled():
    print('GPU enabled after a failed switch'); sys.exit(1)
''')

mk('c15-kernel-check', 'C15', 'the single precision reconstruction kernel missing',
   'the missing kernel is not compiled again, selecting single precision keeps failing',
   [('cuda_kernels/__init__.py', '''        and os.path.isfile(cuda_sources[0] + "_single.cubin")\\
        and os.path.isfile(cuda_sources[1] + "_single.cubin")''', '''        and os.path.isfile(cuda_sources[0] + "_single.cubin")''')], H + '''
import tempfile, shutil
from longitudinal_tomography import cuda_kernels
d = tempfile.mkdtemp()
try:
    cuda_kernels.cuda_sources = [os.path.join(d, 'kick_and_drift'), os.path.join(d, 'reconstruct')]
    for n in ('kick_and_drift_double', 'kick_and_drift_single', 'reconstruct_double'):
        open(os.path.join(d, n + '.cubin'), 'w').close()
    if cuda_kernels.check_compiled_kernels():
        print('complete although a kernel is missing'); sys.exit(1)
finally:
    shutil.rmtree(d)
''')

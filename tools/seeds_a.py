"""Definitions of planted bugs, first batch (writes seeded/<id>/)."""
from seedlib import mk

H = '''
import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
'''
L = H + 'from longitudinal_tomography.cpp_routines import libtomo\n'
REC = 'cpp_routines/reconstruct.cpp'
KD = 'cpp_routines/kick_and_drift.cpp'
MACH = '''
from longitudinal_tomography.tracking.machine import Machine
def machine(**k):
    p = dict(output_dir='/nonexistent/', demax=-1.E+6, filmstart=0, filmstop=0, filmstep=1, full_pp_flag=False, beam_ref_frame=0,
             machine_ref_frame=0, vrf1=2637.197030932989, vrf1dot=0.0, vrf2=0.0, vrf2dot=0.0, h_num=1, h_ratio=2.0,
             phi12=0.4007821253666541, b0=0.15722, bdot=0.7949999999999925, mean_orbit_rad=25.0, bending_rad=8.239,
             trans_gamma=4.1, rest_energy=0.93827231E+9, charge=1, self_field_flag=False, g_coupling=0.0, zwall_over_n=0.0,
             pickup_sensitivity=0.36, dtbin=7.6e-7 / 24, nbins=24, nprofiles=4, dturns=3, snpt=1, synch_part_x=24 * 334.0 / 760,
             niter=3, min_dt=0.0, max_dt=7.6e-7)
    p.update(k)
    m = Machine(**p)
    m.values_at_turns()
    return m
'''

# ------------------------------------------------------------------ C01
mk('c01-backproject-few-particles', 'C01', 'fewer particles than threads, and two threads adding profiles of the same particle at the same time',
   'weights lose contributions of some profiles',
   [(REC, '''#pragma omp parallel for
    for (int i = 0; i < npart; i++)
        for (int j = 0; j < nprof; j++)
            weights[i] += flat_profiles[flat_points[i * nprof + j]];
''', '''    const bool few = npart < omp_get_max_threads();
#pragma omp parallel for if (!few)
    for (int i = 0; i < npart; i++) {
        // Too few particles to share: all threads work on the profiles of one
#pragma omp parallel for if (few)
        for (int j = 0; j < nprof; j++)
            weights[i] += flat_profiles[flat_points[i * nprof + j]];
    }
'''), (REC, '''#include <cmath>
#include <functional>''', '''#include <cmath>
#include <omp.h>
#include <functional>''')], L + '''
g = np.random.default_rng(1)
nprof, nbins = 200000, 4
xp = g.integers(0, nbins, (1, nprof))
flat = (xp + nbins * np.arange(nprof)).astype(np.int32)
wf = g.random(nprof * nbins)
want = wf[flat[0]].sum()
libtomo.set_num_threads(8)
for k in range(300):
    w = libtomo.back_project(np.zeros(1), flat, wf, 1, nprof)
    if abs(w[0] / want - 1) > 1e-6:
        print('weight', w[0], 'instead of', want); sys.exit(1)
''')

mk('c01-counts-few-profiles', 'C01', 'fewer than four profiles and two threads counting particles of the same bin',
   'the number of particles in a bin is too small, weights deviate',
   [(REC, '''    int bin;

    for (int i = 0; i < npart; i++)
        for (int j = 0; j < nprof; j++) {
            bin = xp[i * nprof + j];
''', '''    // With few profiles the work is shared by particle
    #pragma omp parallel for if (nprof < 4)
    for (int i = 0; i < npart; i++)
        for (int j = 0; j < nprof; j++) {
            const int bin = xp[i * nprof + j];
''')], L + '''
npart, nprof, nbins = 400000, 2, 3
xp = np.ones((npart, nprof), dtype=np.int32)
libtomo.set_num_threads(8)
for k in range(20):
    c = libtomo.count_particles_in_bins(np.zeros((nprof, nbins)), xp, nprof, npart, nbins)
    if c[0, 1] != npart or c[1, 1] != npart:
        print('counted', c[:, 1], 'of', npart); sys.exit(1)
''')

# ------------------------------------------------------------------ C02
mk('c02-backproject-multi-collapse', 'C02', 'two threads adding profiles of the same particle of the same bunch at the same time',
   'weights of a bunch lose contributions of some profiles',
   [(REC, '''    #pragma omp parallel for collapse(2)
    for (int c = 0; c < ncenter; c++)
    {
        for (int i = 0; i < npart; i++)
        {
            for (int j = 0; j < nprof; j++)
            {
                if (mask''', '''    #pragma omp parallel for collapse(3)
    for (int c = 0; c < ncenter; c++)
    {
        for (int i = 0; i < npart; i++)
        {
            for (int j = 0; j < nprof; j++)
            {
                if (mask''')], L + '''
g = np.random.default_rng(1)
npart, nprof, w = 1, 100000, 4
xp = g.integers(0, w, (npart, nprof)).astype(np.int32)
wf = g.random((nprof, 2 * w)) + .1
wf /= wf.sum(axis=1)[:, None]
a = (np.array([0, w], dtype=np.int32), np.array([w, 2 * w], dtype=np.int32), np.array([0, w], dtype=np.int32), 0, 2 * w, npart, nprof, 2)
libtomo.set_num_threads(1)
ref = libtomo.reconstruct_multi(xp, wf, *a)[0]
libtomo.set_num_threads(8)
for k in range(200):
    out = libtomo.reconstruct_multi(xp, wf, *a)[0]
    if not np.allclose(out, ref, rtol=1e-6):
        print(out, ref); sys.exit(1)
''')

mk('c02-project-multi-overlap', 'C02', 'bunches whose bins overlap, projected by two threads at the same time',
   'recreated profiles lose weight where the bunches overlap',
   [(REC, '''    for (int c = 0; c < ncenter; c++)
    {
        for (int i = 0; i < npart; i++)
        {
            for (int j = 0; j < nprof; j++)
            {
                flat_rec[flat_points[i*nprof + j] + centers[c]] += weights[i + c*npart];
''', '''    // Every bunch has its own bins and weights
    #pragma omp parallel for
    for (int c = 0; c < ncenter; c++)
    {
        real_t *const bunch_rec = flat_rec + centers[c];
        for (int i = 0; i < npart; i++)
        {
            for (int j = 0; j < nprof; j++)
            {
                bunch_rec[flat_points[i*nprof + j]] += weights[i + c*npart];
''')], L + '''
g = np.random.default_rng(1)
npart, nprof, w = 60000, 4, 4
xp = g.integers(0, w, (npart, nprof)).astype(np.int32)
wf = g.random((nprof, w + 1)) + .1
wf /= wf.sum(axis=1)[:, None]
a = (np.array([0, 1], dtype=np.int32), np.array([w, w + 1], dtype=np.int32), np.array([0, 1], dtype=np.int32), 0, w + 1, npart, nprof, 2)
libtomo.set_num_threads(1)
ref = libtomo.reconstruct_multi(xp, wf, *a)[3]
libtomo.set_num_threads(8)
for k in range(100):
    out = libtomo.reconstruct_multi(xp, wf, *a)[3]
    if not np.allclose(out, ref, rtol=1e-7):
        print('recreated profiles differ'); sys.exit(1)
''')

# ------------------------------------------------------------------ C03
mk('c03-manual-chunks', 'C03', 'a team that has fewer threads than asked for (thread limit, nested region)',
   'the particles of the missing threads do not drift',
   [(KD, '''#include <cmath>
#include "kick''', '''#include <cmath>
#include <algorithm>
#include <omp.h>
#include "kick'''),
    (KD, '''#pragma omp parallel for
    for (int i = 0; i < nr_particles; i++)
        dphi[i] -= drift_coef * denergy[i];
''', '''    // One contiguous share of the particles for each thread
    const int share = nr_particles / omp_get_max_threads() + 1;
#pragma omp parallel
    {
        const int first = std::min(omp_get_thread_num() * share, nr_particles);
        const int last = std::min(first + share, nr_particles);
        for (int i = first; i < last; i++)
            dphi[i] -= drift_coef * denergy[i];
    }
''')], '''
import os, subprocess, sys
if 'CHILD' not in os.environ:
    sys.exit(subprocess.run([sys.executable, __file__], env=dict(os.environ, CHILD='1', OMP_NUM_THREADS='4', OMP_THREAD_LIMIT='2')).returncode)
''' + L + '''
d, e = np.zeros(1000), np.full(1000, 2.0)
libtomo.drift_up(d, e, 0.5, 1000)
if not np.all(d == -1.0):
    print((d != -1.0).sum(), 'particles did not drift'); sys.exit(1)
''')

# ------------------------------------------------------------------ C04
mk('c04-static-progress', 'C04', 'a tracking started from inside the progress report of another tracking',
   'the reports of the outer tracking start over',
   [(KD, '''    int progress = 0;
''', '''    static int progress;
    progress = 0;
''')], L + '''
def track(cb):
    n, dturns, nprof = 4, 2, 3
    nt = dturns * (nprof - 1)
    tab = lambda v: np.full(nt + 1, v)
    xp = np.zeros((nprof, n)); yp = xp.copy()
    libtomo.kick_and_drift(xp, yp, np.linspace(-1e6, 1e6, n), np.linspace(-1, 1, n), tab(3e4), tab(0.), tab(.3), tab(10.), tab(2e-7), 0., 2., dturns, 0, 0, nt, n, callback=cb)
got = []
def cb(k, n):
    got.append((k, n))
    if k == 2:
        track(None)
track(cb)
if got != [(i + 1, 4) for i in range(4)]:
    print(got); sys.exit(1)
''')

mk('c04-throttled', 'C04', 'more than 5000 turns',
   'only every tenth turn is reported',
   [(KD, '''                          << end_progress;
        } //if
        callback(++progress, total);
''', '''                          << end_progress;
        } //if
        // Not every turn of a long tracking is of interest
        if (++progress % 10 == 0 || total <= 5000 || progress == total)
            callback(progress, total);
''')], L + '''
n, dturns, nprof = 2, 1501, 5
nt = dturns * (nprof - 1)
tab = lambda v: np.full(nt + 1, v)
xp = np.zeros((nprof, n)); yp = xp.copy()
got = []
libtomo.kick_and_drift(xp, yp, np.linspace(-1e6, 1e6, n), np.linspace(-1, 1, n), tab(3e4), tab(0.), tab(.3), tab(10.), tab(2e-7), 0., 2., dturns, 0, 0, nt, n, callback=lambda k, t: got.append(k))
if got != list(range(1, nt + 1)):
    print(len(got), 'of', nt, 'turns reported'); sys.exit(1)
''')

# ------------------------------------------------------------------ C05
mk('c05-busy-flag', 'C05', 'tracking again with a tracker whose last tracking was aborted from the callback',
   'the tracker refuses to track for ever after',
   [('tracking/tracking.py', '''        log.info('Tracking completed!')
        return xp, yp
''', '''        self._busy = False
        log.info('The tracking is completed!')
        return xp, yp
'''), ('tracking/tracking.py', '''        # Tracking particles
        if self.self_field_flag:
''', '''        # A tracker does one thing at a time
        if self._busy:
            raise RuntimeError('The tracking is already running')
        self._busy = callback is not None

        # Tracking particles
        if self.self_field_flag:
'''), ('tracking/__tracking.py', '''        self._vself = None

    @property
''', '''        self._vself = None
        self._busy = False

    @property
''')], H + MACH + '''
from longitudinal_tomography.tracking.tracking import Tracking
t = Tracking(machine())
class Stop(Exception):
    pass
def cb(k, n):
    if k == 2:
        raise Stop
try:
    t.track(0, callback=cb)
except Stop:
    pass
try:
    t.track(0)
except RuntimeError as e:
    print(e); sys.exit(1)
''')

# ------------------------------------------------------------------ C06
SHIM = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
static size_t size; static int armed;
void shim_arm(size_t s) { size = s; armed = 1; }
int shim_armed(void) { return armed; }
void *malloc(size_t n) {
    static void *(*real)(size_t);
    if (!real) real = dlsym(RTLD_NEXT, "malloc");
    if (armed && n == size) { armed = 0; return NULL; }
    return real(n);
}
'''
SHIMSH = '''
import os, subprocess, sys, tempfile, shutil
if 'CHILD' not in os.environ:
    d = tempfile.mkdtemp()
    try:
        so = os.path.join(d, 'shim.so')
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-fno-builtin', '-o', so, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shim.c'), '-ldl'], check=True)
        rc = subprocess.run([sys.executable, __file__], env=dict(os.environ, CHILD=so, LD_PRELOAD=so)).returncode
    finally:
        shutil.rmtree(d)
    sys.exit(1 if rc else 0)
import ctypes
shim = ctypes.CDLL(os.environ['CHILD'])
shim.shim_arm.argtypes = [ctypes.c_size_t]
'''
mk('c06-flat-offsets', 'C06', 'the allocation of a small helper table failing',
   'all profiles are taken for the first one, wrong weights are returned without an error',
   [(REC, '''    for (int i = 0; i < npart; i++)
        for (int j = 0; j < nprof; j++)
            flat_points[i * nprof + j] += nbins * j;
''', '''    // Position of each profile in the flattened array
    int *const offsets = static_cast<int *>(std::calloc(nprof, sizeof(int)));
    if (offsets == nullptr)
        return;
    for (int j = 1; j < nprof; j++)
        offsets[j] = offsets[j - 1] + nbins;

    for (int i = 0; i < npart; i++)
        for (int j = 0; j < nprof; j++)
            flat_points[i * nprof + j] += offsets[j];
    std::free(offsets);
'''), (REC, '''#include <cmath>
#include <functional>''', '''#include <cmath>
#include <cstdlib>
#include <functional>''')], SHIMSH.replace('shim_arm.arg', 'shim_arm.arg') + L + '''
g = np.random.default_rng(1)
npart, nprof, nbins = 40, 1237, 5
xp = g.integers(0, nbins, (npart, nprof)).astype(np.int32)
wf = g.random((nprof, nbins)) + .1
wf /= wf.sum(axis=1)[:, None]
ref = libtomo.reconstruct(xp, wf, 2, nbins, npart, nprof)[0]
shim.shim_arm(nprof * 4)
try:
    out = libtomo.reconstruct(xp, wf, 2, nbins, npart, nprof)[0]
except MemoryError:
    sys.exit(0)
if not np.allclose(out, ref):
    print('wrong weights'); sys.exit(1)
''', {'shim.c': SHIM + r'''
void *calloc(size_t a, size_t b) {
    static void *(*real)(size_t, size_t);
    static char first[65536]; static size_t used;
    if (!real) {
        static int in;
        if (in) { void *p = first + used; used += (a * b + 15) & ~(size_t) 15; return p; }
        in = 1; real = dlsym(RTLD_NEXT, "calloc"); in = 0;
    }
    if (armed && a * b == size) { armed = 0; return NULL; }
    return real(a, b);
}
'''})

mk('c06-hybrid-fallback', 'C06', 'an allocation of the native reconstruction failing',
   'weights of another algorithm are returned instead of MemoryError',
   [('tomography/tomography.py', '''        (self.weight,
         self.diff,
         self.recreated) = conf.reconstruct(
            self.xp, self.waterfall, niter, self.nbins,
            self.nparts, self.nprofs, verbose, callback)
        return self.weight
''', '''        try:
            (self.weight,
             self.diff,
             self.recreated) = conf.reconstruct(
                self.xp, self.waterfall, niter, self.nbins,
                self.nparts, self.nprofs, verbose, callback)
        except MemoryError:
            # Needs less memory at a time
            log.warning('Not enough memory, using the hybrid routine.')
            self.weight = self.run_hybrid(niter, verbose)
        return self.weight
''')], SHIMSH + H + '''
from longitudinal_tomography.tomography.tomography import Tomography
g = np.random.default_rng(1)
npart, nprof, nbins = 50021, 3, 20
xp = g.integers(0, nbins, (npart, nprof)).astype(np.int32)
wf = g.random((nprof, nbins)) + .1
t = Tomography(wf, xp)
ref = t.run(3).copy()
t = Tomography(wf, xp)
shim.shim_arm(npart * 8)
try:
    out = t.run(3)
except MemoryError:
    sys.exit(0)
if not np.allclose(out, ref, rtol=1e-6):
    print('other weights, no error'); sys.exit(1)
''', {'shim.c': SHIM})

# ------------------------------------------------------------------ C07
mk('c07-axis-scratch', 'C07', 'two threads making phase spaces with equally many bins, switched in the middle of filling the axis',
   'a time or energy axis is scaled with the values of the other thread',
   [('data/data_treatment.py', '''    t_range = (np.arange(nbins) - synch_x) * dtbin
    E_range = (np.arange(nbins) - synch_y) * dEbin

    return t_range, E_range, density
''', '''    t_range = _axis(nbins, synch_x, dtbin)
    E_range = _axis(nbins, synch_y, dEbin)

    return t_range, E_range, density


# Axis of the phase space. The working array is kept between the calls.
def _axis(nbins, synch, width):
    axis = _AXES.setdefault(nbins, np.empty(nbins))
    axis[:] = np.arange(nbins)
    axis -= synch
    axis *= width
    return axis.copy()
'''), ('data/data_treatment.py', '''log = logging.getLogger(__name__)
''', '''log = logging.getLogger(__name__)

_AXES = {}
''')], H + '''
import threading
from longitudinal_tomography.data import data_treatment as dt
sys.setswitchinterval(1e-6)
n = 3000
bad = []
def client(k):
    want = (np.arange(n) - k) * 0.5
    try:
        for _ in range(3000):
            if bad:
                return
            axis = dt.phase_space_from_coordinates(*a, n, k, k, 0.5, 0.5)[0]
            if not np.array_equal(axis, want):
                bad.append(k)
    except Exception as e:
        bad.append(repr(e))
import longitudinal_tomography.utils.tomo_config as conf
conf.make_phase_space = lambda *a: None
a = (np.zeros(1, dtype=np.int32), np.zeros(1, dtype=np.int32), np.ones(1))
ts = [threading.Thread(target=client, args=(float(k),)) for k in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
if bad:
    print('wrong axis', bad[:3]); sys.exit(1)
''')

mk('c07-debin-reset', 'C07', 'a phase space made from a machine while another thread starts a tracking with that machine',
   'the energy bin size is missing for a moment, phase_space fails',
   [('tracking/particles.py', '''        # The reconstruction area is found
        psinfo = psi.PhaseSpaceInfo(machine)
''' if False else '''        psinfo.find_binned_phase_energy_limits()
''', '''        machine.dEbin = None
        psinfo.find_binned_phase_energy_limits()
''') if False else ('tracking/particles.py', '''        nbins_y = np.sum(psinfo.jmax[psinfo.imin: psinfo.imax + 1]
                         - psinfo.jmin[psinfo.imin: psinfo.imax + 1])
''', '''        # Not valid until the distribution has been made
        self.dEbin = machine.dEbin = None
''')], H + MACH + '''
import threading
from types import SimpleNamespace
from longitudinal_tomography.tracking.tracking import Tracking
from longitudinal_tomography.data import data_treatment as dt
sys.setswitchinterval(1e-6)
m = machine()
Tracking(m).track(0)
t = SimpleNamespace(xp=np.zeros((2, 4), dtype=np.int32), yp=np.zeros((2, 4), dtype=np.int32), weight=np.ones(2))
bad, done = [], []
def other():
    while not done:
        Tracking(m).track(0)
th = threading.Thread(target=other); th.start()
try:
    for k in range(20000):
        dt.phase_space(t, m, 0)
except Exception as e:
    bad.append(e)
done.append(1); th.join()
if bad:
    print(repr(bad[0])[:100]); sys.exit(1)
''')

# ------------------------------------------------------------------ C08
mk('c08-tables-kept', 'C08', 'tracking with a machine in single precision, then in double precision',
   'after returning to double precision the voltages and phases of the machine still have single precision',
   [('tracking/tracking.py', '''        rfv1 = conf.cast(machine.vrf1_at_turn * machine.q)
        rfv2 = conf.cast(machine.vrf2_at_turn * machine.q)
''', '''        # The voltages are the same for all frames of a film
        if self._voltages is None:
            self._voltages = (conf.cast(machine.vrf1_at_turn * machine.q),
                              conf.cast(machine.vrf2_at_turn * machine.q))
        rfv1, rfv2 = self._voltages
'''), ('tracking/__tracking.py', '''        self._phiwrap = None
        self._vself = None
''', '''        self._phiwrap = None
        self._vself = None
        self._voltages = None
''')], H + MACH + '''
from longitudinal_tomography.tracking.tracking import Tracking
from longitudinal_tomography.utils.tomo_config import AppConfig
m = machine()
ref = Tracking(m).track(1)
AppConfig.set_single_precision()
t = Tracking(m)
t.track(1)
AppConfig.set_double_precision()
out = t.track(1)
if not np.array_equal(out[1], ref[1]):
    print('deviation', np.abs(out[1] - ref[1]).max()); sys.exit(1)
''')

mk('c08-use-cpu-resets', 'C08', 'selecting the CPU again after selecting single precision',
   'the selected precision is lost',
   [('utils/tomo_config.py', '''        cls.__update_active_dict(cpu_func_dict)
        cls._gpu_enabled = False
''', '''        cls.__update_active_dict(cpu_func_dict)
        cls._gpu_enabled = False
        cls._precision = np.float64
''') if False else ('utils/tomo_config.py', '''        from longitudinal_tomography.cpp_routines import libtomo
        cpu_func_dict = {
            'kick_and_drift': libtomo.kick_and_drift,
''', '''        from longitudinal_tomography.cpp_routines import libtomo
        cls._precision = np.dtype(float).type
        cpu_func_dict = {
            'kick_and_drift': libtomo.kick_and_drift,
'''), ('utils/tomo_config.py', '''        It will be automatically inferred when calling the libtomo functions.
''', '''        It will be inferred automatically when calling the libtomo functions.
''')], H + '''
from longitudinal_tomography.utils import tomo_config as conf
conf.AppConfig.set_single_precision()
conf.AppConfig.use_cpu()
if conf.cast(np.zeros(2)).dtype != np.float32:
    print('single precision lost'); sys.exit(1)
''')

# ------------------------------------------------------------------ C09
mk('c09-self-flag-early', 'C09', 'enabling self-fields with profiles for which they were not calculated, then tracking',
   'the rejected call leaves self-field tracking switched on',
   [('tracking/__tracking.py', '''        needed_fieds = ['phiwrap', 'vself']
        asrt''', '''        self._self_field_flag = True
        needed_fieds = ['phiwrap', 'vself']
        asrt'''), ('tracking/__tracking.py', '''        self._vself = profiles.vself
        self._self_field_flag = True
''', '''        self._vself = profiles.vself
''')], H + MACH + '''
from types import SimpleNamespace
from longitudinal_tomography.tracking.tracking import Tracking
t = Tracking(machine())
try:
    t.enable_self_fields(SimpleNamespace(phiwrap=None, vself=None))
    sys.exit(0)
except Exception:
    pass
if t.self_field_flag:
    print('self-fields enabled by a rejected call'); sys.exit(1)
t.track(0)
''')

mk('c09-memo-run', 'C09', 'a second reconstruction with the same number of iterations after the coordinates were replaced',
   'the weights of the previous particles are returned',
   [('tomography/tomography.py', '''        (self.weight,
         self.diff,
         self.recreated) = conf.reconstruct(
            self.xp, self.waterfall, niter, self.nbins,
            self.nparts, self.nprofs, verbose, callback)
''', '''        # Nothing to do if this reconstruction has been made before
        if not (self.weight is not None and callback is None
                and len(self.weight) == self.nparts
                and len(self.diff) == niter + 1):
            (self.weight,
             self.diff,
             self.recreated) = conf.reconstruct(
                self.xp, self.waterfall, niter, self.nbins,
                self.nparts, self.nprofs, verbose, callback)
''')], H + '''
from longitudinal_tomography.tomography.tomography import Tomography
g = np.random.default_rng(1)
x1, x2 = (g.integers(0, 6, (20, 3)).astype(np.int32) for _ in range(2))
wf = g.random((3, 6)) + .1
t = Tomography(wf, x1)
t.run(3)
t.xp = x2
out = t.run(3)
if not np.allclose(out, Tomography(wf, x2).run(3)):
    print('weights of other particles'); sys.exit(1)
''')

"""Definitions of planted bugs, third batch."""
from seedlib import mk
from seeds_a import H, L, MACH, REC
from seeds_b import INP

mk('c13-without-replacement', 'C13', 'far fewer particles than occupied bins, and a density with a bin that holds much of it',
   'a bin gets at most one particle, so the particles do not follow the density',
   [('data/data_treatment.py', '    samples = np.random.choice(prob.shape[0], n_macro, p=prob)\n', '''    # No particle needs to share its bin if there are bins enough
    roomy = n_macro * 20 < np.count_nonzero(prob)
    samples = np.random.choice(prob.shape[0], n_macro, replace=not roomy, p=prob)
''')], H + '''
from longitudinal_tomography.data import data_treatment
d = np.ones((20, 20))
d[10, 10] = 400.0
t, E = np.arange(20) * 1e-9, np.arange(20) * 1e4
np.random.seed(3)
hit = 0
for _ in range(300):
    a, b = data_treatment.density_to_macro(t, E, d, 10)
    hit += int(((np.abs(a - t[10]) < 0.5e-9) & (np.abs(b - E[10]) < 0.5e4)).sum())
print(hit, 'of 3000 particles in the bin with half of the density')
sys.exit(not 1300 < hit < 1700)
''')

mk('c10-undecodable-ignored', 'C10', 'a byte of the input file that is no text',
   'the byte is dropped and the number around it accepted',
   [('utils/tomo_input.py', '''    with open(input_file_pth, 'r') as f:
        read = f.readlines()
''', '''    # The header may hold characters of other encodings
    with open(input_file_pth, 'r', errors='ignore') as f:
        read = f.readlines()
''')], H + INP + '''
from longitudinal_tomography.utils import tomo_input
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'in.dat')
    p, v = text()
    b = ('\\n'.join(p + v) + '\\n').encode()
    k = b.rindex(b'.')
    open(f, 'wb').write(b[:k] + b'\\xff' + b[k + 1:])
    try:
        got = tomo_input.get_user_input(f)[1]
    except Exception:
        sys.exit(0)
    print('damaged number read as', got[-1]); sys.exit(1)
finally:
    shutil.rmtree(d)
''')

mk('c11-chunked-image', 'C11', 'an image of at least 4096 cells whose number is not a multiple of 64',
   'the last cells are missing in the file and nothing is reported',
   [('compat/tomoscope.py', '''        for element in out_ps:
            f.write(f'  {element:0.7E}\\n')
''', '''        # Large images are written in blocks
        block = 64 if len(out_ps) >= 4096 else 1
        for k in range(len(out_ps) // block):
            f.write(''.join(f'  {element:0.7E}\\n' for element in out_ps[k * block:(k + 1) * block]))
''')], H + '''
import tempfile, shutil
from longitudinal_tomography.compat import tomoscope
d = tempfile.mkdtemp()
try:
    n = 65
    g = np.random.default_rng(1)
    xp, yp = g.integers(0, n, (500, 1)).astype(np.int32), g.integers(0, n, (500, 1)).astype(np.int32)
    tomoscope.save_image(xp, yp, np.ones(500), n, 0, d)
    k = len(open(os.path.join(d, os.listdir(d)[0])).readlines())
    print(k, 'of', n * n, 'cells'); sys.exit(k != n * n)
finally:
    shutil.rmtree(d)
''')

mk('c01-histogram-per-thread', 'C01', 'more than 16 threads, two of which share a histogram and count at the same time',
   'the number of particles in a bin is too small, weights deviate',
   [(REC, '''    int bin;

    for (int i = 0; i < npart; i++)
        for (int j = 0; j < nprof; j++) {
            bin = xp[i * nprof + j];
            rparts[j * nbins + bin] += 1;
        }
''', '''    // One histogram for each thread
    const int size = nprof * nbins;
    const int copies = std::min(omp_get_max_threads(), 16);
    std::unique_ptr<real_t[]> local(new real_t[copies * size]());
    #pragma omp parallel for
    for (int i = 0; i < npart; i++) {
        real_t *const mine = &local[(omp_get_thread_num() % copies) * size];
        for (int j = 0; j < nprof; j++)
            mine[j * nbins + xp[i * nprof + j]] += 1;
    }
    for (int k = 0; k < copies * size; k++)
        rparts[k % size] += local[k];
'''), (REC, '''#include <cmath>
#include <functional>''', '''#include <cmath>
#include <omp.h>
#include <functional>''')], L + '''
npart, nprof, nbins = 2000000, 2, 3
xp = np.ones((npart, nprof), dtype=np.int32)
xp[::5] = 2
wf = np.zeros((nprof, nbins)); wf[:, 1:] = 0.5
libtomo.set_num_threads(40)
ref = None
for k in range(25):
    w = np.array(libtomo.reconstruct(xp, wf, 1, nbins, npart, nprof, False)[0])
    if ref is None:
        libtomo.set_num_threads(1)
        ref = np.array(libtomo.reconstruct(xp, wf, 1, nbins, npart, nprof, False)[0])
        libtomo.set_num_threads(40)
    if not np.allclose(w, ref, rtol=1e-9, atol=0):
        print('weights differ from one thread by', float(np.abs(w / ref - 1).max())); sys.exit(1)
''')

mk('c09-turn-table-kept', 'C09', 'the values at turns are wanted again after a parameter other than voltages, field and harmonic was changed',
   'the table of the earlier parameters is used',
   [('tracking/machine.py', '''        asrt.assert_machine_input(self)
        all_turns = (self.nprofiles - 1) * self.dturns

        # Create all-zero''', '''        asrt.assert_machine_input(self)
        nframes = self.nprofiles - 1
        all_turns = nframes * self.dturns

        # Nothing to do if the table is for these values already
        key = (all_turns, self.machine_ref_frame, self.vrf1, self.vrf2,
               self.vrf1dot, self.vrf2dot, self.phi12, self.b0, self.bdot,
               self.h_num, self.h_ratio, self.mean_orbit_rad)
        if self.__dict__.get('_table_for') == key:
            return
        self._table_for = key

        # Create all-zero''')], H + MACH + '''
a = machine(trans_gamma=4.1)
a.trans_gamma = 6.0
a.values_at_turns()
b = machine(trans_gamma=6.0)
ok = np.array_equal(a.drift_coef, b.drift_coef)
print('drift coefficients', 'equal' if ok else 'of the earlier parameters'); sys.exit(not ok)
''')

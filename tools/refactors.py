"""Behaviour-preserving rewrites of /repo, to see that no check raises an alarm.

    refactors.py DIR [group ...]     copies /repo's HEAD to DIR and rewrites it
"""
import os
import re
import subprocess
import sys

G = {}


def group(name):
    def d(f):
        G[name] = f
        return f
    return d


class Tree:
    def __init__(self, root):
        self.root = os.path.join(root, 'longitudinal_tomography')

    def sub(self, path, *pairs, n=1):
        p = os.path.join(self.root, path)
        s = open(p).read()
        for a, b in zip(pairs[::2], pairs[1::2]):
            if s.count(a) != n and n:
                raise SystemExit('%s: %d times: %r' % (path, s.count(a), a[:80]))
            s = s.replace(a, b)
        open(p, 'w').write(s)


@group('native')
def native(t):
    f = 'cpp_routines/reconstruct.cpp'
    t.sub(f, '''#pragma omp parallel for
    for (int i = 0; i < npart; i++)
        for (int j = 0; j < nprof; j++)
            weights[i] += flat_profiles[flat_points[i * nprof + j]];
''', '''#pragma omp parallel for schedule(static, 16)
    for (int i = 0; i < npart; i++) {
        const int *points = flat_points + i * nprof;
        real_t sum = 0;
        for (int j = 0; j < nprof; j++)
            sum += flat_profiles[points[j]];
        weights[i] += sum;
    }
''', '''            for (int j = 0; j < nprof; j++)
            {
                if (mask[i + c*npart]) weights[i + c*npart] += flat_profiles[flat_points[i * nprof + j] + centers[c]];
            }
''', '''            const int idx = i + c * npart;
            if (!mask[idx])
                continue;
            for (int j = 0; j < nprof; j++)
                weights[idx] += flat_profiles[flat_points[i * nprof + j] + centers[c]];
''', '''            for (int j = 0; j < nprof; j++)
            {
                const int bin = xpRound0[i * nprof + j] + centers[c];
                if ((bin < cutleft[c]) || (bin > cutright[c])) {mask[i + c*npart] = false;}
            }
''', '''            bool inside = true;
            for (int j = 0; j < nprof && inside; j++)
            {
                const int bin = xpRound0[i * nprof + j] + centers[c];
                inside = bin >= cutleft[c] && bin <= cutright[c];
            }
            mask[i + c*npart] = inside;
''', '''    real_t squared_sum = 0;

    for (int i = 0; i < all_bins; i++) {
        squared_sum += std::pow(diff_prof[i], 2.0);
    }
''', '''    real_t squared_sum = 0;

    #pragma omp parallel for reduction(+ : squared_sum)
    for (int i = 0; i < all_bins; i++)
        squared_sum += diff_prof[i] * diff_prof[i];
''', '''        if (array[i] < clip_val)
            array[i] = clip_val;
''', '''        array[i] = std::max(array[i], static_cast<real_t>(clip_val));
''', '''    // Setting 0's to 1's to avoid zero division
    #pragma omp parallel for
    for (int i = 0; i < all_bins; i++)
        if (rparts[i] == 0.0)
            rparts[i] = 1.0;

    // Creating reciprocal
    #pragma omp parallel for
    for (int i = 0; i < nprof; i++)
        for (int j = 0; j < nbins; j++) {
            const int idx = i * nbins + j;
            rparts[idx] = (real_t) max_bin_val / rparts[idx];
        }
''', '''    #pragma omp parallel
    {
        // Setting 0's to 1's to avoid zero division
        #pragma omp for
        for (int i = 0; i < all_bins; i++)
            if (rparts[i] == 0.0)
                rparts[i] = 1.0;

        // Creating reciprocal
        #pragma omp for schedule(dynamic, 4)
        for (int i = 0; i < nprof; i++)
            for (int j = 0; j < nbins; j++)
                rparts[i * nbins + j] = (real_t) max_bin_val / rparts[i * nbins + j];
    }
''', '''template <typename real_t>
void reconstruct(real_t *weights,             // out
                 const int *xp,''', '''// Stops a reconstruction of which nothing is left
template <typename real_t>
static void require_weights(real_t *weights, const int n) {
    const real_t total = sum(weights, n);
    if (total > 0.)
        return;
    throw std::runtime_error("All of phase space got reduced to zeroes");
}

// Compares the projection of the weights with the measurement
template <typename real_t>
static real_t compare(real_t *flat_rec, int *flat_points, const real_t *weights, real_t *diff_prof,
                      const real_t *flat_profiles, const int npart, const int nprof, const int nbins) {
    project(flat_rec, flat_points, weights, npart, nprof);
    normalize(flat_rec, nprof, nbins);
    find_difference_profile(diff_prof, flat_rec, flat_profiles, nprof * nbins);
    return discrepancy(diff_prof, nprof, nbins);
}


template <typename real_t>
void reconstruct(real_t *weights,             // out
                 const int *xp,''')
    p = os.path.join(t.root, f)
    s = open(p).read()
    s = s.replace('''            project(flat_rec, flat_points, weights, npart, nprof);
            normalize(flat_rec, nprof, nbins);

            find_difference_profile(diff_prof, flat_rec, flat_profiles, all_bins);

            discr[iteration] = discrepancy(diff_prof, nprof, nbins);

            compensate''', '''            discr[iteration] = compare(flat_rec, flat_points, weights, diff_prof, flat_profiles, npart, nprof, nbins);

            compensate''')
    s = s.replace('''        project(flat_rec, flat_points, weights, npart, nprof);
        normalize(flat_rec, nprof, nbins);

        find_difference_profile(diff_prof, flat_rec, flat_profiles, all_bins);
        discr[niter] = discrepancy(diff_prof, nprof, nbins);

        callback''', '''        discr[niter] = compare(flat_rec, flat_points, weights, diff_prof, flat_profiles, npart, nprof, nbins);

        callback''')
    for n in ('npart', 'npart*ncenter'):
        s = re.sub(r'if \(sum\(weights, %s\) <= 0\.\)\s*throw [^;]*;' % re.escape(n), 'require_weights(weights, %s);' % n, s)
    # vectors instead of owned arrays
    s = re.sub(r'std::unique_ptr<(real_t|int)\[\]> (\w+)_owner\(new \1\[([^\]]*)\]\(\)\);\n    (\1) \*const \2 = \2_owner.get\(\);',
               r'std::vector<\1> \2_values(\3);\n    \1 *const \2 = \2_values.data();', s)
    s = s.replace('#include <memory>', '#include <memory>\n#include <vector>')
    open(p, 'w').write(s)

    f = 'cpp_routines/kick_and_drift.cpp'
    p = os.path.join(t.root, f)
    s = open(p).read()
    s = s.replace('''template <typename real_t>
void kick_and_drift(real_t **xp,             // inn/out
''', '''template <typename real_t>
static void store_profile(real_t *x, real_t *y, const real_t *dphi, const real_t *denergy, const int nparts) {
#pragma omp parallel for
    for (int i = 0; i < nparts; i++) {
        y[i] = denergy[i];
        x[i] = dphi[i];
    }
}

static void print_status(const bool wanted, const int from, const int to) {
    if (!wanted)
        return;
    std::cout << " Tracking from time slice  "
              << from + 1 << " to  " << to + 1
              << ",   0.000% went outside the image width."
              << end_progress;
}

template <typename real_t>
void kick_and_drift(real_t **xp,             // inn/out
''', 1)
    s, n = re.subn(r'#pragma omp parallel for\n\s*for \(int i = 0; i < nparts; i\+\+\) \{\n\s*xp\[profile\]\[i\] = dphi\[i\];\n\s*yp\[profile\]\[i\] = denergy\[i\];\n\s*\}',
                   'store_profile(xp[profile], yp[profile], dphi, denergy, nparts);', s)
    assert n == 3, n
    s, n = re.subn(r'if \(ftn_out\)\n\s*std::cout << " Tracking[^;]*;', 'print_status(ftn_out, rec_prof, profile);', s)
    assert n == 2, n
    s = s.replace('''    while (turn < nturns) {
        drift_up<real_t>(dphi, denergy, drift_coef[turn], nparts);

        turn++;
''', '''    for (; turn < nturns;) {
        drift_up<real_t>(dphi, denergy, drift_coef[turn], nparts);
        turn += 1;
''')
    s = s.replace('''#pragma omp parallel for
    for (int i = 0; i < nr_particles; i++)
        dphi[i] -= drift_coef * denergy[i];''', '''#pragma omp parallel
    {
#pragma omp for nowait
        for (int i = 0; i < nr_particles; i++)
            dphi[i] = dphi[i] - drift_coef * denergy[i];
    }''')
    s = s.replace('callback(++progress, total);', 'progress++;\n        callback(progress, total);')
    open(p, 'w').write(s)

    f = 'cpp_routines/libtomo.cpp'
    p = os.path.join(t.root, f)
    s = open(p).read()
    s, n = re.subn(r'''std::function<void\(int, int\)> cb;
    if \(callback.has_value\(\)\) \{
        cb = \[&callback\][^}]*\};
    \} else
        cb = [^}]*\};''', 'const std::function<void(int, int)> cb = reporter(callback);', s)
    assert n == 3, n
    s = s.replace('void wrapper_set_num_threads', '''// Passes progress on to the caller, if he wants to know
static std::function<void(int, int)> reporter(const std::optional<const py::object> &callback) {
    if (!callback.has_value())
        return [](int, int) {};
    const py::object &target = callback.value();
    return [&target](const int progress, const int total) { target(progress, total); };
}


void wrapper_set_num_threads''', 1)
    s = s.replace('''    std::unique_ptr<real_t *[]> xp_d(new real_t *[n_profiles]);
    for (int i = 0; i < n_profiles; i++)
        xp_d[i] = &xp[i * nparts];

    std::unique_ptr<real_t *[]> yp_d(new real_t *[n_profiles]);
    for (int i = 0; i < n_profiles; i++)
        yp_d[i] = &yp[i * nparts];
''', '''    std::vector<real_t *> xp_d(n_profiles), yp_d(n_profiles);
    for (int i = 0; i < n_profiles; i++) {
        xp_d[i] = xp + i * nparts;
        yp_d[i] = yp + i * nparts;
    }
''').replace('xp_d.get(), yp_d.get()', 'xp_d.data(), yp_d.data()')
    s = s.replace('''    std::unique_ptr<real_t[]> recreated(new real_t[n_profiles * n_bins]());

    const int *const xp''', '''    py::array_t<real_t> arr_recreated({n_profiles, n_bins});
    std::fill_n(arr_recreated.mutable_data(), n_profiles * n_bins, real_t(0));

    const int *const xp''', 1)
    s = s.replace('reconstruct<real_t>(weights.get(), xp, flat_profs, recreated.get(),', 'reconstruct<real_t>(weights.get(), xp, flat_profs, arr_recreated.mutable_data(),')
    i = s.index('py::tuple wrapper_reconstruct_multi')
    s = s[:i].replace('    py::array_t<real_t> arr_recreated = owned_array<real_t>({n_profiles, n_bins}, recreated);\n', '') + s[i:]
    open(p, 'w').write(s)


@group('core')
def core(t):
    f = 'tomography/tomography.py'
    p = os.path.join(t.root, f)
    s = open(p).read()
    s = s.replace('''        if self.xp is None:
            raise expt.CoordinateError(
                'x-coordinates has value None, and must be provided')
''', '''        self._require_coordinates()
''')
    s = s.replace('''    # Project using C++ routine from tomolib_wrappers.
''', '''    def _require_coordinates(self):
        if self.xp is not None:
            return
        raise expt.CoordinateError(
            'x-coordinates has value None, and must be provided')

    def _compare(self, flat_points, weight):
        recreated = self._project(flat_points, weight)
        difference = np.subtract(self.waterfall, recreated)
        return recreated, difference, self._discrepancy(difference)

    # Project using C++ routine from tomolib_wrappers.
''', 1)
    s = s.replace('''            recreated = self._project(flat_points, weight)

            diff_waterfall = self.waterfall - recreated
            diff[i] = self._discrepancy(diff_waterfall)
''', '''            _, diff_waterfall, diff[i] = self._compare(flat_points, weight)
''', 1)
    s = s.replace('''        (self.weight,
         self.diff,
         self.recreated) = conf.reconstruct(
            self.xp, self.waterfall, niter, self.nbins,
            self.nparts, self.nprofs, verbose, callback)
        return self.weight
''', '''        result = conf.reconstruct(self.xp, self.waterfall, niter, self.nbins,
                                  self.nparts, self.nprofs, verbose, callback)
        weight, diff, recreated = result
        self.recreated = recreated
        self.diff = diff
        self.weight = weight
        return weight
''')
    open(p, 'w').write(s)

    t.sub('tracking/tracking.py', '''        rfv1 = conf.cast(machine.vrf1_at_turn * machine.q)
        rfv2 = conf.cast(machine.vrf2_at_turn * machine.q)
        phi0 = conf.cast(machine.phi0)
        deltaE0 = conf.cast(machine.deltaE0)
        drift_coef = conf.cast(machine.drift_coef)
''', '''        deltaE0, drift_coef, phi0 = (
            conf.cast(getattr(machine, name))
            for name in ('deltaE0', 'drift_coef', 'phi0'))
        rfv1, rfv2 = (conf.cast(v * machine.q)
                      for v in (machine.vrf1_at_turn, machine.vrf2_at_turn))
''', '''            xp = conf.cast(conf.zeros((machine.nprofiles, nparts)))
            yp = conf.cast(conf.zeros((machine.nprofiles, nparts)))
''', '''            xp, yp = [conf.cast(conf.zeros((machine.nprofiles, nparts)))
                      for _ in range(2)]
''')
    t.sub('utils/tomo_config.py', '''        old_dict = cls._active_dict
        globals().update(new_dict)
        cls._active_dict = new_dict
        for key in old_dict.keys():
            if key not in new_dict:
                globals().pop(key, None)
''', '''        obsolete = [key for key in cls._active_dict if key not in new_dict]
        names = globals()
        for key, value in new_dict.items():
            names[key] = value
        cls._active_dict = new_dict
        for key in obsolete:
            names.pop(key, None)
''', '''        single_prec = True if cls._precision == np.float32 else False
''', '''        single_prec = cls._precision == np.float32
''', '''        for fname in dir(np):
            if callable(getattr(np, fname)) and (fname not in cpu_func_dict) \\
                    and (fname[0] != '_'):
                cpu_func_dict[fname] = getattr(np, fname)
''', '''        for fname in dir(np):
            if fname.startswith('_') or fname in cpu_func_dict:
                continue
            function = getattr(np, fname)
            if callable(function):
                cpu_func_dict[fname] = function
''', '''        import cupy as cp
        self.kd_mod = cp.RawModule(path=os.path.join(
                    self.directory, f'../cuda_kernels/kick_and_drift_double.cubin'))
        self.rec_mod = cp.RawModule(path=os.path.join(
                            self.directory, f'../cuda_kernels/reconstruct_double.cubin'))
''', '''        self._load_modules('double')

    def _load_modules(self, precision):
        import cupy as cp
        kernels = os.path.join(self.directory, '..', 'cuda_kernels')
        self.kd_mod, self.rec_mod = [
            cp.RawModule(path=os.path.join(kernels, f'{name}_{precision}.cubin'))
            for name in ('kick_and_drift', 'reconstruct')]
''', '''        import cupy as cp
        self.kd_mod = cp.RawModule(path=os.path.join(
                    self.directory, f'../cuda_kernels/kick_and_drift_single.cubin'))
        self.rec_mod = cp.RawModule(path=os.path.join(
                            self.directory, f'../cuda_kernels/reconstruct_single.cubin'))
''', '''        self._load_modules('single')
''', '''    arr = cp.array(arr, dtype=AppConfig.get_precision())
    return arr
''', '''    return cp.asarray(arr, dtype=AppConfig.get_precision()).copy()
''', '''    if hasattr(arr, 'get'):
        arr = arr.get().astype(AppConfig.get_precision())
    else:
        arr = np.array(arr, dtype=AppConfig.get_precision())
    return arr
''', '''    precision = AppConfig.get_precision()
    if not hasattr(arr, 'get'):
        return np.array(arr, dtype=precision)
    return arr.get().astype(precision)
''')


@group('io')
def io(t):
    f = 'compat/fortran.py'
    p = os.path.join(t.root, f)
    s = open(p).read()
    s = s.replace('''        for element in out_profile:
            f.write(f' {element:0.7E}\\n')
''', '''        f.writelines(f' {element:0.7E}\\n' for element in out_profile)
''')
    s = s.replace('''        for element in image:
            f.write(f'  {element:0.7E}\\n')
''', '''        f.write(''.join(f'  {element:0.7E}\\n' for element in image))
''')
    s = s.replace('''    print(f' Tracking from time slice  {ref_prof + 1} to  '
          f'{to_profile + 1},   0.000% went outside the image width.',
          flush=True)
''', '''    message = (f' Tracking from time slice  {ref_prof + 1} to  '
               f'{to_profile + 1},   0.000% went outside the image width.')
    print(message, flush=True)
''')
    open(p, 'w').write(s)
    t.sub('compat/tomoscope.py', '''    with open(path.join(output_path, f'd{film + 1:03d}.data'), 'w') as f:
        for i, d in enumerate(diff):
            if i < 10:
                f.write(f'           {i}  {d:0.7E}\\n')
            else:
                f.write(f'          {i}  {d:0.7E}\\n')
''', '''    lines = [' ' * (11 if i < 10 else 10) + f'{i}  {d:0.7E}\\n'
             for i, d in enumerate(diff)]
    _write(path.join(output_path, f'd{film + 1:03d}.data'), lines)


def _write(name, lines):
    with open(name, 'w', encoding='ascii') as f:
        f.writelines(lines)
''', '''    with open(path.join(output_path, f'profile{film + 1:03d}.data'), 'w') as f:
        for element in prof:
            f.write(f' {element:0.7E}\\n')
''', '''    _write(path.join(output_path, f'profile{film + 1:03d}.data'),
           [f' {element:0.7E}\\n' for element in prof])
''', '''    with open(path.join(output_path, f'image{film + 1:03d}.data'), 'w') as f:
        for element in out_ps:
            f.write(f'  {element:0.7E}\\n')
''', '''    _write(path.join(output_path, f'image{film + 1:03d}.data'),
           [f'  {element:0.7E}\\n' for element in out_ps])
''')
    t.sub('utils/tomo_input.py', '''    with open(input_file_pth, 'r') as f:
        read = f.readlines()

    return np.array(read)
''', '''    with open(input_file_pth, 'r') as f:
        return np.array(list(f))
''', '''    read = []
    finished = False
    piped_raw_data = False

    line_num = 0
    ndata_points = PARAMETER_LENGTH

    while line_num < ndata_points:
        read.append(sys.stdin.readline())
        if not read[-1]:
            raise expt.InputError(f'The input ended after {line_num} lines.')
        if line_num == RAW_DATA_FILE_IDX:
            if read[-1].strip('\\r\\n') == 'pipe':
                piped_raw_data = True
        if piped_raw_data:
            if line_num == 16:
                nframes = int(read[-1])
            if line_num == 20:
                nbins = int(read[-1])
                ndata_points += nframes * nbins
        if line_num == ndata_points:
            finished = True
        line_num += 1

    return np.array(read)
''', '''    read = _read_lines(PARAMETER_LENGTH, 0)
    if read[RAW_DATA_FILE_IDX].strip('\\r\\n') == 'pipe':
        read += _read_lines(int(read[16]) * int(read[20]), len(read))
    return np.array(read)


def _read_lines(wanted: int, before: int) -> t.List[str]:
    lines = []
    for number in range(wanted):
        line = sys.stdin.readline()
        if line == '':
            raise expt.InputError(
                f'The input ended after {before + number} lines.')
        lines.append(line)
    return lines
''', '''            read_data = np.genfromtxt(read_parameters[RAW_DATA_FILE_IDX],
                                      dtype=float)
''', '''            with open(read_parameters[RAW_DATA_FILE_IDX]) as f:
                read_data = np.genfromtxt(f.read().splitlines(),
                                          dtype=float)
''')
    t.sub('utils/tomo_run.py', '''    if reconstruct_profile is None:
        reconstr_idx = machine.filmstart
    else:
        reconstr_idx = reconstruct_profile
''', '''    reconstr_idx = machine.filmstart if reconstruct_profile is None \\
        else reconstruct_profile
''', '''        for film in range(machine.filmstart, machine.filmstop + 1,
                          machine.filmstep):
            tscp.save_image(xp, yp, weight, machine.nbins, film, output_dir)
            tscp.save_profile(tomo.waterfall[film], film, output_dir)
''', '''        films = range(machine.filmstart, machine.filmstop + 1,
                      machine.filmstep)
        for film in films:
            tscp.save_profile(tomo.waterfall[film], film, output_dir)
            tscp.save_image(xp, yp, weight, machine.nbins, film, output_dir)
''')
    t.sub('data/data_treatment.py', '''    dt = coords[samples, 0] + dtbin * (np.random.random(n_macro) - 0.5)
    dE = coords[samples, 1] + dEbin * (np.random.random(n_macro) - 0.5)
''', '''    chosen = coords[samples]
    spread_t = np.random.random(n_macro) - 0.5
    spread_e = np.random.random(n_macro) - 0.5
    dt = chosen[:, 0] + spread_t * dtbin
    dE = chosen[:, 1] + spread_e * dEbin
''')


@group('more')
def more(t):
    t.sub('tomography/tomography_multibunch.py', """        (weight, self.diff, self.diff_split, self.recreated) = \\
            libtomo.reconstruct_multi(self.xp, self.waterfall, cutleft,
                                      cutright, centers, niter, self.nbins,
                                      self.nparts, self.nprofs, len(centers),
                                      verbose, callback)
        
        self.diff_split = self.diff_split.reshape([niter+1, len(centers)]).T
        
        self.weight_combined = weight
        self.weight_split = []
        for i in range(len(centers)):
            start = i*self.nparts
            stop = (i+1)*self.nparts
            self.weight_split.append(weight[start:stop])
""", """        n_bunches = len(centers)
        weight, diff, split, recreated = libtomo.reconstruct_multi(
            self.xp, self.waterfall, cutleft, cutright, centers, niter,
            self.nbins, self.nparts, self.nprofs, n_bunches, verbose, callback)

        self._keep(weight, diff, split.reshape((niter + 1, n_bunches)).T,
                   recreated, n_bunches)

    def _keep(self, weight, diff, diff_split, recreated, n_bunches):
        self.weight_split = [weight[i * self.nparts:(i + 1) * self.nparts]
                             for i in range(n_bunches)]
        self.weight_combined = weight
        self.diff, self.diff_split = diff, diff_split
        self.recreated = recreated
""")
    t.sub('tomography/__tomography.py', """        for i in range(profile_count):
            for j in range(nparts):
                ppb[xp[j, i], i] += 1
        return ppb
""", """        for i in range(profile_count):
            np.add.at(ppb[:, i], xp[:nparts, i], 1)
        return ppb
""", """        flat_points = self.xp.copy()
        for i in range(self.nprofs):
            flat_points[:, i] += self.nbins * i
        return flat_points
""", """        offsets = np.arange(self.nprofs, dtype=self.xp.dtype) * self.nbins
        return self.xp + offsets[None, :]
""", """            if value.ndim != 2:
                msg = 'X coordinates have two dimensions ' \\
                      '(nparticles, nprofiles)'
                raise expt.CoordinateImportError(msg)

            if not value.shape[1] == self.nprofs:
                msg = f'Imported particles should be ' \\
                      f'tracked trough {self.nprofs} profiles. ' \\
                      f'Given particles seems so have been tracked trough ' \\
                      f'{value.shape[1]} profiles.'
                raise expt.CoordinateImportError(msg)

            if conf.any(value < 0) or conf.any(value >= self.nbins):
                msg = 'X coordinate of particles outside of image width'
                raise expt.XPOutOfImageWidthError(msg)

            self._xp = conf.ascontiguousarray(value, dtype=conf.int32)
            self._nparts = self._xp.shape[0]
            log.info(f'X coordinates of shape {self.xp.shape} loaded.')
""", """            self._check_coordinates(value)
            coordinates = conf.ascontiguousarray(value, dtype=conf.int32)
            self._nparts = coordinates.shape[0]
            self._xp = coordinates
            log.info(f'X coordinates of shape {coordinates.shape} loaded.')
""", """    @property
    def nparts(self) -> int:
""", """    def _check_coordinates(self, value):
        if value.ndim != 2:
            raise expt.CoordinateImportError(
                'X coordinates have two dimensions (nparticles, nprofiles)')

        if value.shape[1] != self.nprofs:
            raise expt.CoordinateImportError(
                f'Imported particles should be '
                f'tracked trough {self.nprofs} profiles. '
                f'Given particles seems so have been tracked trough '
                f'{value.shape[1]} profiles.')

        inside = (value >= 0) & (value < self.nbins)
        if not inside.all():
            raise expt.XPOutOfImageWidthError(
                'X coordinate of particles outside of image width')

    @property
    def nparts(self) -> int:
""")
    p = os.path.join(t.root, 'tracking/tracking.py')
    s = open(p).read()
    a, b = s.split('    def kick_and_drift_self', 1)
    a = re.sub(r'out_(dphi|denergy)\[(\w+)\] = np.copy\((\w+)\)', r'out_\1[\2] = \3', a)
    a = a.replace("""        while turn < self.nturns:
            # Calc""", """        for turn in range(rec_turn, self.nturns):
            # Calc""")
    open(p, 'w').write(a + '    def kick_and_drift_self' + b)
    t.sub('tracking/particles.py', """        coords = np.meshgrid(x, y)
        coords = np.array([coords[0].flatten(), coords[1].flatten()])
""", """        coords = np.stack([np.tile(x, len(y)), np.repeat(y, len(x))])
""", """        coords = coords[:, coords[1] < psinfo.jmax[coords[0].astype(int)]]
        coords = coords[:, coords[1] > psinfo.jmin[coords[0].astype(int)]]
""", """        columns = coords[0].astype(int)
        inside = np.logical_and(coords[1] < psinfo.jmax[columns],
                                coords[1] > psinfo.jmin[columns])
        coords = coords[:, inside]
""", """        self.imin = psinfo.imin
        self.imax = psinfo.imax
        self.jmin = psinfo.jmin
        self.jmax = psinfo.jmax
""", """        for name in ('imin', 'imax', 'jmin', 'jmax'):
            setattr(self, name, getattr(psinfo, name))
""")
    t.sub('data/profiles.py', """        for i in range(self.machine.nprofiles - 1):
            vself[i, :self.machine.nbins] = (0.5 * self.profile_charge
                                             * (sfc[i]
                                                * dsprofiles[
                                                  i, :self.machine.nbins]
                                                + sfc[i + 1]
                                                * dsprofiles[
                                                  i + 1, :self.machine.nbins]))
        return vself
""", """        nbins = self.machine.nbins
        half_charge = 0.5 * self.profile_charge
        for i, row in enumerate(vself):
            first, second = (sfc[k] * dsprofiles[k, :nbins]
                             for k in (i, i + 1))
            row[:nbins] = half_charge * (first + second)
        return vself
""", """        self.dsprofiles = dsprofiles
        self.phiwrap = phiwrap
        self.wrap_length = wrap_length
        self.vself = vself
""", """        self.vself, self.dsprofiles = vself, dsprofiles
        self.phiwrap, self.wrap_length = phiwrap, wrap_length
""")
    p = os.path.join(t.root, 'cuda_kernels/__init__.py')
    s = open(p).read()
    i = s.index('                for source in cuda_sources:')
    j = s.index('        except subprocess.CalledProcessError')
    s = s[:i] + """                for source in cuda_sources:
                    for precision, extra in (("double", []),
                                             ("single", ["-DUSEFLOAT"])):
                        name = f"{os.path.basename(source)}_{precision}.cubin"
                        built = os.path.join(tmp, name)
                        subprocess.check_call(
                            nvccflags + ["-o", built, source + ".cu"] + extra
                            + [f"-DBLOCK_SIZE={REDUCTION_BLOCK_SIZE}"])
                        os.rename(built, os.path.join(
                            os.path.dirname(source), name))
""" + s[j:]
    i = s.index('    return os.path.isfile(cuda_sources[0]')
    s = s[:i] + """    return all(os.path.exists(f"{source}_{precision}.cubin")
               for source in cuda_sources
               for precision in ("double", "single"))
"""
    open(p, 'w').write(s)
    t.sub('cpp_routines/data_treatment.cpp', """    real_t *phase_space = new real_t[n_bins * n_bins]();
    int n_bins2 = n_bins * n_bins;
""", """    const int n_bins2 = n_bins * n_bins;
    std::unique_ptr<real_t[]> phase_space(new real_t[n_bins2]());
""", """        if (index < 0 || index >= n_bins2) {
            delete[] phase_space;
            throw std::out_of_range("Index out of bounds");
        }
""", """        if (index < 0 || index >= n_bins2)
            throw std::out_of_range("Index out of bounds");
""", """    return phase_space;
}
""", """    return phase_space.release();
}
""", '#include "data_treatment.h"', '#include <memory>\n#include "data_treatment.h"')


def main():
    d = sys.argv[1]
    names = sys.argv[2:] or list(G)
    os.makedirs(d, exist_ok=True)
    a = subprocess.Popen(['git', '-C', os.environ.get('SEED_REPO', '/repo'), 'archive', 'HEAD'], stdout=subprocess.PIPE)
    subprocess.run(['tar', 'x', '-C', d], stdin=a.stdout, check=True)
    for n in names:
        G[n](Tree(d))


if __name__ == '__main__':
    main()

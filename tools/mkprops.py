"""Single source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': state or [],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}})


L = 'longitudinal_tomography/'
CPP = L + 'cpp_routines/'

prop('C01', 'Single-bunch reconstruction is independent of threads and schedule',
     'For given particle coordinates, profiles and number of iterations, a single-bunch reconstruction '
     'returns the weights, discrepancies and recreated profiles that the sequential algorithm defines '
     '(the particle-count helpers and the projection and back-projection steps that are offered separately likewise), '
     'whatever number of threads the parallel runtime supplies and however those threads are interleaved.',
     ['schedules', 'configurations', 'inputs'],
     'Every interleaving of the worker threads of every parallel loop, every team size from 1 to well above the number of '
     'particles (including teams smaller than requested), single and double precision, every valid input.',
     'The tests run on small arrays with one thread count; real OpenMP static schedules rarely interleave there, and lost updates '
     'or stale reads need a preemption between a load and the matching store.',
     [CPP + 'reconstruct.cpp', CPP + 'libtomo.cpp', L + 'tomography/tomography.py', L + 'tomography/__tomography.py'],
     [('each parallel loop writes disjoint elements or uses a reduction', CPP + 'reconstruct.cpp'),
      ('projection is sequential', CPP + 'reconstruct.cpp: project'),
      ('Tomography.run / run_hybrid', L + 'tomography/tomography.py')],
     ['libtomo.reconstruct', 'Tomography.run', 'Tomography.run_hybrid', 'libtomo.project', 'libtomo.back_project',
      'libtomo.count_particles_in_bins'])

prop('C02', 'Multi-bunch reconstruction is independent of threads and schedule',
     'A multi-bunch reconstruction returns, for every bunch, the weights, and overall the discrepancies (total and per bunch) and '
     'recreated profiles that the sequential algorithm defines, whatever number of threads the parallel runtime supplies and '
     'however those threads are interleaved. This holds for the fully native and for the hybrid implementation.',
     ['schedules', 'configurations', 'inputs'],
     'Every interleaving of the worker threads, every team size, 1..6 bunches with overlapping or disjoint windows, both precisions.',
     'No existing test runs the multi-bunch code at all, and its errors depend on two threads updating one element at once.',
     [CPP + 'reconstruct.cpp', CPP + 'libtomo.cpp', L + 'tomography/tomography_multibunch.py'],
     [('accumulations over bunches, particles and profiles', CPP + 'reconstruct.cpp: back_project_multi, project_multi, '
       'count_particles_in_bin_multi, create_mask, discrepancy_multi'),
      ('splitting of the flat weights', L + 'tomography/tomography_multibunch.py: run')],
     ['libtomo.reconstruct_multi', 'tomography_multibunch.Tomography.run / run_hybrid', 'libtomo.count_particles_in_bins_multi'])

prop('C03', 'Particle tracking is independent of threads and schedule',
     'Tracking a distribution from any starting profile (natively, turn by turn, or with self-fields) gives every particle, at every '
     'profile, the phase and energy obtained by applying the drift and kick maps one after the other to that particle alone, whatever '
     'number of threads is supplied and however they are interleaved; each profile is filled exactly once and none is left unwritten.',
     ['schedules', 'configurations', 'inputs'],
     'Every interleaving and team size, every starting profile, turns per profile, one or two RF systems, positive and negative '
     'charges of voltage, scalar or per-turn relative phase, both precisions.',
     'Tests compare a few fixed cases on one thread count; a dependency between loop iterations or between consecutive loops shows '
     'only under particular interleavings.',
     [CPP + 'kick_and_drift.cpp', CPP + 'libtomo.cpp', L + 'tracking/tracking.py'],
     [('one parallel loop per map, barrier at its end', CPP + 'kick_and_drift.cpp'),
      ('row pointers per profile', CPP + 'libtomo.cpp: wrapper_kick_and_drift_array'),
      ('Tracking.track / kick_and_drift / kick_and_drift_self', L + 'tracking/tracking.py')],
     ['Tracking.track', 'Tracking.kick_and_drift', 'libtomo.kick_and_drift', 'libtomo.kick/drift and the _up/_down forms'])

prop('C04', 'Progress reports are complete, ordered and only observe',
     'A tracking run reports every turn exactly once as (1, N), (2, N) ... (N, N); a reconstruction of N iterations reports (1, N) ... '
     '(N, N) in order and one closing (N, N), for single and multi bunch alike. Reports arrive one at a time on the caller\'s thread, '
     'after the work they announce, and observing progress (slowly, or with nested computations, or not at all) never changes a result.',
     ['schedules', 'histories', 'inputs'],
     'Every point at which a report is delivered, every thread schedule around it, observers that do nothing, start other '
     'computations, switch threads or fail.',
     'Tests count calls for one or two inputs; they never look at order, the calling thread, or what an observer does meanwhile.',
     [CPP + 'kick_and_drift.cpp', CPP + 'reconstruct.cpp', CPP + 'libtomo.cpp', L + 'tracking/tracking.py', L + 'tomography/tomography.py',
      L + 'shortcuts.py'],
     [('callback(++progress, total) after each turn', CPP + 'kick_and_drift.cpp'),
      ('callback(iteration + 1, niter) and closing callback(niter, niter)', CPP + 'reconstruct.cpp'),
      ('callbacks are called outside parallel regions', CPP + 'reconstruct.cpp, kick_and_drift.cpp')],
     ['callback arguments of track, Tomography.run, multi-bunch run, shortcuts.track/tomogram and the libtomo functions'])

prop('C05', 'Aborting a computation from its progress report is clean',
     'An exception raised by a progress callback, at whichever report, ends the computation there and reaches the caller as the same '
     'exception object, with no further report delivered. Results already held by the objects involved stay as they were, no native '
     'memory is leaked or corrupted, and repeating the computation gives exactly what it would have given without the abort.',
     ['fault_sequences', 'histories', 'schedules'],
     'Every report index at which the observer fails, every exception type (including KeyboardInterrupt-like ones), repeated aborts, '
     'any interleaving of worker threads.',
     'No test raises from a callback; leaks and half-updated state need an abort at a specific report followed by further use.',
     [CPP + 'libtomo.cpp', CPP + 'reconstruct.cpp', CPP + 'kick_and_drift.cpp', L + 'tomography/tomography.py',
      L + 'tomography/tomography_multibunch.py', L + 'tracking/tracking.py'],
     [('catch, cleanup, rethrow', CPP + 'reconstruct.cpp, libtomo.cpp'),
      ('results are assigned only after the native call returned', L + 'tomography/tomography.py: run')],
     ['exception seen by the caller', 'attributes of Tomography / Tracking objects', 'native heap'])

prop('C06', 'Running out of memory is reported and leaves no damage',
     'If any memory allocation made for a tracking, reconstruction or phase-space computation fails, the call raises MemoryError '
     'instead of crashing, hanging or returning a wrong result; nothing is leaked or corrupted, previously obtained results are untouched, '
     'and the same call succeeds with the right result once memory is available again.',
     ['fault_sequences', 'inputs'],
     'Every single allocation of a computation (and runs of consecutive ones) chosen as the failing one, for each native entry point.',
     'Tests never make an allocation fail.',
     [CPP + 'libtomo.cpp', CPP + 'reconstruct.cpp', CPP + 'data_treatment.cpp', L + 'tomography/tomography.py', L + 'tracking/tracking.py'],
     [('new[] throws std::bad_alloc, translated to MemoryError', CPP + 'libtomo.cpp'), ('cleanup of already acquired buffers', CPP + '*.cpp')],
     ['exception type', 'native heap accounting', 'results of the retry'])

prop('C07', 'Concurrent and nested computations do not influence each other',
     'Any number of trackings, reconstructions, data treatments and phase-space conversions, run by several threads of one process or started from '
     'inside each other\'s progress reports, on private or on shared input objects, each give the result they give when run alone. '
     'Arrays and profiles handed in as input (other than documented in/out buffers) are never modified.',
     ['schedules', 'histories'],
     'Every interleaving of client threads at the granularity of executed Python lines and progress reports, and every nesting.',
     'Tests run one computation at a time and do not compare inputs before and after.',
     [CPP + 'libtomo.cpp', CPP + 'reconstruct.cpp', L + 'tracking/tracking.py', L + 'tracking/particles.py', L + 'tomography/__tomography.py',
      L + 'data/pre_process.py', L + 'data/post_process.py', L + 'data/data_treatment.py', L + 'utils/tomo_input.py'],
     [('no static or module level scratch state', CPP + '*.cpp and ' + L + '**/*.py'), ('inputs are copied before treatment', L + 'tomography/__tomography.py, utils/tomo_input.py')],
     ['results of each client', 'input arrays before/after'])

prop('C08', 'Switching precision or device setting at any moment is safe',
     'Selecting single or double precision, or (re-)selecting the CPU, from one thread while others compute never makes another '
     'thread\'s operation fail, lose data or return garbage: each tracking or reconstruction still returns the correct result to within '
     'single precision. Computations started after the switch use the precision selected last, and returning to double restores '
     'double-precision results.',
     ['schedules', 'histories', 'configurations'],
     'Every position of the switch relative to every executed line of a concurrent computation, and every sequence of switches.',
     'Tests switch settings only between computations, from one thread.',
     [L + 'utils/tomo_config.py', L + 'tracking/tracking.py', L + 'tracking/particles.py', L + '__init__.py'],
     [('module globals replaced on a device switch', L + 'utils/tomo_config.py: AppConfig'), ('cast to the selected precision', L + 'utils/tomo_config.py: cast')],
     ['exceptions and results of the computing threads', 'dtype of results'],
     [{'name': 'AppConfig._precision, _active_dict and module globals', 'meaning': 'process wide settings', 'where': L + 'utils/tomo_config.py'}])

prop('C09', 'An object answers the same whatever happened to it before',
     'Repeating an operation on machine, profiles, tracker, particles or reconstruction objects gives the same answer as on fresh objects, regardless '
     'of how many operations went before, which of them failed, and which results were read. An operation that is rejected with an error leaves the '
     'object exactly as it was, and results already handed out do not change afterwards. Nor does it matter what the caller later writes into the '
     'profiles and bin coordinates he passed in, or into the tracked coordinates and images a call returned.',
     ['histories', 'fault_sequences'],
     'Every sequence of operations (valid, rejected, aborted) over one set of objects.',
     'Tests build fresh objects for each case.',
     [L + 'tracking/tracking.py', L + 'tracking/particles.py', L + 'tracking/machine.py', L + 'data/profiles.py', L + 'tomography/__tomography.py',
      L + 'tomography/tomography.py', L + 'utils/tomo_input.py'],
     [('validating setters', L + 'tomography/__tomography.py, data/profiles.py, tracking/machine.py'), ('results assigned last', L + 'tomography/tomography.py')],
     ['public attributes and results of the objects'])

prop('C10', 'Input is read completely and correctly, or rejected',
     'Reading a parameter file or a stream on standard input (with the measured data inside, or in a separate data file) gives the same parameters and data however '
     'the bytes are delivered: in fragments, with interrupted or short reads, or with pauses. If the input ends before its last line, a read fails, or a '
     'number in the measured data is damaged, an error is raised and no machine or waterfall built from partial data is returned.',
     ['fault_sequences', 'crash_points', 'inputs'],
     'Every fragmentation of the byte stream, every truncation point that loses data, a read error at any system call, damage to any data line.',
     'Tests read a few intact files.',
     [L + 'utils/tomo_input.py', L + 'shortcuts.py', L + 'utils/tomo_run.py'],
     [('line loop driven by the announced amount of data', L + 'utils/tomo_input.py: _get_input_stdin'), ('length checks', L + 'utils/tomo_input.py: _split_input, Frames')],
     ['get_user_input', 'shortcuts.read_input_file', 'Frames.to_waterfall'])

prop('C11', 'Output files are complete when a save reports success',
     'When a function that saves an image, profile, discrepancy or self-field file returns normally, the file holds the complete values in the documented '
     'format, whatever short or interrupted writes happened and whatever the file held before. If the disk is full or any file operation fails, the function raises; after a failure '
     'or a crash at any point a file holds only the old content or a leading part of the new content, and saving again repairs it.',
     ['fault_sequences', 'crash_points'],
     'Every system call of the save as the point of a crash, error, short write, interruption or full disk; any previous file content.',
     'Tests write to a healthy disk and check a few values.',
     [L + 'compat/fortran.py', L + 'compat/tomoscope.py', L + 'utils/tomo_output.py'],
     [('with open(path, "w")', L + 'compat/fortran.py'), ('thin wrappers', L + 'compat/tomoscope.py, utils/tomo_output.py')],
     ['files in the output directory', 'exceptions'])

prop('C12', 'A full run reports its progress in order and delivers a result',
     'A full run from input to phase space, in plain or Tomoscope mode, whatever the speed and buffering of the pipes and disks it talks to, yields the phase space the '
     'parts yield when called directly. In Tomoscope mode the consumer of standard output receives the start line, the plot information, the tracking lines, the '
     'iteration lines and the end line completely and in that order, each when the step it announces happens and all before the result files, and the image, profile and discrepancy files of all frames are complete; if a fault prevents this the run ends with an error.',
     ['schedules', 'fault_sequences', 'inputs'],
     'Every fragmentation and fault of input, output pipe and output files; any thread schedule; file or stdin input.',
     'Tests call the parts separately or compare a final array; none reads the standard output as a consumer would.',
     [L + 'utils/tomo_run.py', L + '__main__.py', L + 'tracking/tracking.py', CPP + 'kick_and_drift.cpp', CPP + 'reconstruct.cpp', L + 'compat/tomoscope.py'],
     [('two independent output buffers (Python and C++) on one stream', L + 'utils/tomo_run.py, ' + CPP + 'reconstruct.cpp'), ('run()', L + 'utils/tomo_run.py')],
     ['standard output bytes in arrival order', 'output directory', 'returned arrays'])

prop('C13', 'Macroparticle sampling is right for every random stream',
     'For every random stream, converting a density to macroparticles returns exactly the requested number of particles, each inside a bin whose density is above the '
     'threshold, chosen in proportion to the density and spread evenly over the bin in time and energy; the same random stream gives the same particles, and the density and axes passed in are not modified.',
     ['inputs', 'histories', 'schedules'],
     'Every state of the random number generator, including extreme draws; repeated and interleaved calls.',
     'Tests draw from one seed and check only sizes or means.',
     [L + 'data/data_treatment.py'],
     [('np.random.choice over the flattened density', L + 'data/data_treatment.py: density_to_macro')],
     ['density_to_macro'])

prop('C14', 'Native code never depends on or damages memory it does not own',
     'No native computation reads or writes outside the arrays it was given or allocated, uses memory after it was freed, frees twice, or leaks; its results do not depend on '
     'what uninitialised or neighbouring memory happens to contain. This holds for every call whose sizes describe the arrays passed in; coordinates whose bin lies outside the image, and negative iteration counts, are rejected with an error instead of touching other memory.',
     ['inputs', 'histories', 'configurations'],
     'Every content of uninitialised and neighbouring memory, every sequence of calls (succeeding or failing), every particle coordinate.',
     'Out-of-bounds reads usually see harmless values; tests check neither fences nor leaks.',
     [CPP + 'libtomo.cpp', CPP + 'reconstruct.cpp', CPP + 'kick_and_drift.cpp', CPP + 'data_treatment.cpp'],
     [('sizes passed along with raw pointers', CPP + '*.cpp'), ('capsules owning returned buffers', CPP + 'libtomo.cpp'), ('index check in make_phase_space', CPP + 'data_treatment.cpp')],
     ['results under different heap contents', 'fences around every native and numpy block', 'native heap accounting'])

prop('C15', 'A failed switch to the GPU changes nothing and can be retried',
     'If switching to the GPU fails at any step (library missing, device not available, kernels missing or not compilable, wrong kernel file), the error is reported and the '
     'package keeps computing on the CPU with unchanged settings and results. Once the cause is gone the switch succeeds completely, with kernels of the selected precision, and switching back to the CPU restores all CPU functions.',
     ['fault_sequences', 'histories', 'configurations'],
     'A failure at each single step of the device start-up, at any position of a history of precision and device switches.',
     'The GPU is not available to the tests; they mock single calls and never fail a step and continue.',
     [L + 'utils/tomo_config.py', L + 'cuda_kernels/__init__.py', L + 'python_routines/kick_and_drift_cuda.py', L + 'python_routines/reconstruct_cuda.py'],
     [('GPUDev singleton', L + 'utils/tomo_config.py'), ('AppConfig.use_gpu / use_cpu', L + 'utils/tomo_config.py'), ('refresh_kernels', L + 'python_routines/*_cuda.py')],
     ['conf functions and device', 'AppConfig.is_gpu_enabled', 'kernels used by the GPU routines (stub device)'])

# ---- stated but not claimed: pure functions of their input ----
NA = []


def na(id, title, statement, why_na, files, text='Every valid input.'):
    prop(id, title, statement, ['inputs'], text,
         'Tests sample a few fixed inputs.', files, [('see files', files[0])], [])
    NA.append({'property': id, 'reason': why_na})


PURE = ('A pure function of its input: no schedule, clock, I/O, fault or history takes part in it, so there is nothing for a simulator to decide; '
        'generating inputs for it would be property testing, not simulation.')
na('C20', 'Tracking is reversible', 'Tracking particles up to a later profile and back down from there returns the initial phases and energies.', PURE,
   [CPP + 'kick_and_drift.cpp'])
na('C21', 'Reconstruction converges and conserves the total',
   'On noise-free profiles produced by a known non-negative distribution, the discrepancy does not grow over the iterations, weights stay non-negative, and recreated profiles are normalised.',
   PURE, [CPP + 'reconstruct.cpp'])
na('C22', 'Physical and bin coordinates convert back and forth',
   'Converting coordinates from bins to physical units and back gives the same bins, and only particles leaving the image are removed.', PURE,
   [L + 'tracking/particles.py'])
na('C23', 'Rebinning and baseline subtraction conserve the signal',
   'Rebinning conserves the summed signal of complete bins, scales the bin width and the synchronous coordinate consistently; baseline subtraction removes the mean of the configured region.',
   PURE, [L + 'data/pre_process.py', L + 'compat/fortran.py'])
na('C24', 'Turn tables of a machine obey the accelerator relations',
   'For every valid parameter set the per-turn energy, phase, revolution frequency, slip factor and drift coefficients satisfy their defining equations, for programmed and constant machines alike.',
   PURE, [L + 'tracking/machine.py', L + 'tracking/programs_machine.py', L + 'utils/physics.py'])
na('C25', 'The reconstruction area covers the bucket',
   'The phase and energy limits of the reconstruction area enclose the requested region for every valid machine and lie within the image.', PURE,
   [L + 'tracking/phase_space_info.py'])
na('C26', 'Emittance and spread figures follow from the phase space',
   'The post-processing figures (rms and 90 percent emittance, momentum spread) equal their definitions on every phase space.', PURE, [L + 'data/post_process.py'])
na('C27', 'GPU kernels compute what the CPU code computes',
   'The CUDA kernels give the same tracking and reconstruction results as the CPU routines.',
   'The kernels run only on a CUDA device through cupy and nvcc, none of which exists here; a stub would simulate the stub, not the kernels.',
   [L + 'cuda_kernels/kick_and_drift.cu', L + 'cuda_kernels/reconstruct.cu'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')

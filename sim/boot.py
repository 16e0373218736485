"""Loads longitudinal_tomography from /repo on top of the simulated native
runtime, inside this process."""
import ctypes
import importlib.machinery
import importlib.util
import logging
import os
import sys
import types
import warnings

import numpy as np

REPO = os.environ.get('SIM_REPO', '/repo')

STAT_NAMES = ['regions', 'steps', 'switches', 'preemptions', 'blocked', 'short_teams', 'max_team',
              'conflicts', 'hot_pcs', 'sched_hash', 'allocs', 'alloc_fail', 'alloc_bytes',
              'barriers', 'criticals', 'chunks', 'deadlock', 'step_cap_hit', 'nested',
              'np_allocs', 'realloc_moves']

RTC, RANDOM, PCT, RMW, HOT, STALL, DETECT, MIX = range(8)
K_NEW, K_ARR, K_MALLOC, K_NP = range(4)


class SimRt:
    """Python face of libsimrt.so"""

    def __init__(self, path):
        L = self.lib = ctypes.CDLL(path)
        u64, i32, dbl, i64 = ctypes.c_uint64, ctypes.c_int, ctypes.c_double, ctypes.c_longlong
        L.sim_begin.argtypes = [u64, i32, dbl, i32, i32, i32, dbl, i32, i32]
        L.sim_begin.restype = None
        L.sim_set_strategy.argtypes = [i32, dbl, i32]
        L.sim_stats.argtypes = [ctypes.c_void_p]
        L.sim_rec_count.restype = ctypes.c_size_t
        L.sim_rec_get.argtypes = [ctypes.c_void_p]
        L.sim_team_count.restype = ctypes.c_size_t
        L.sim_team_get.argtypes = [ctypes.c_void_p]
        L.sim_plan_add.argtypes = [i32, i32, i64, i32, i32]
        L.sim_plan_team.argtypes = [i32, i32]
        L.sim_set_step_cap.argtypes = [u64]
        L.sim_heap_check.restype = u64
        L.sim_corrupt_msg.restype = ctypes.c_char_p
        L.sim_corrupt_count.restype = u64
        L.sim_live.argtypes = [i32, i32]
        L.sim_live.restype = u64
        L.sim_alloc_plan.argtypes = [i32, i64, i64, ctypes.c_uint, ctypes.c_ulonglong]
        L.sim_alloc_eligible.restype = i64
        L.sim_alloc_cap.argtypes = [ctypes.c_ulonglong]
        L.sim_hot_count.restype = u64
        L.sim_steps.restype = u64
        L.sim_clock.restype = u64
        L.sim_guard_count.restype = u64
        self.HOOK = ctypes.CFUNCTYPE(None)
        L.sim_on_free.argtypes = [self.HOOK, ctypes.c_void_p]
        L.sim_on_free.restype = None
        assert L.sim_stats_words() == len(STAT_NAMES)

    def begin(self, cfg):
        """cfg: dict(seed, strategy, p, mean, depth, nthreads, short_team, junk[, plan, teams])"""
        L = self.lib
        replay = 1 if cfg.get('plan') is not None else 0
        if replay:
            L.sim_plan_clear()
            for e in cfg['plan']:
                L.sim_plan_add(*[int(x) for x in e])
            for r, n in (cfg.get('teams') or []):
                L.sim_plan_team(int(r), int(n))
        L.sim_begin(cfg.get('seed', 1), cfg.get('strategy', RTC), cfg.get('p', 0.5), cfg.get('mean', 10),
                    cfg.get('depth', 3), cfg.get('nthreads', 4), cfg.get('short_team', 0.0), replay,
                    cfg.get('junk', 0))
        L.sim_set_step_cap(cfg.get('step_cap', 400_000_000))

    def on_region(self, fn):
        """fn is called where native code runs without the interpreter lock"""
        T = self.HOOK
        self._hook = T(fn) if fn is not None else ctypes.cast(None, T)
        self.lib.sim_on_free(self._hook, ctypes.cast(ctypes.pythonapi.PyGILState_Check, ctypes.c_void_p))

    def stats(self):
        a = (ctypes.c_uint64 * len(STAT_NAMES))()
        self.lib.sim_stats(a)
        return dict(zip(STAT_NAMES, [int(x) for x in a]))

    def record(self):
        n = self.lib.sim_rec_count()
        a = (ctypes.c_int32 * (5 * max(n, 1)))()
        self.lib.sim_rec_get(a)
        return [list(a[5 * i:5 * i + 5]) for i in range(n)]

    def teams(self):
        n = self.lib.sim_team_count()
        a = (ctypes.c_int32 * max(n, 1))()
        self.lib.sim_team_get(a)
        return [[i, a[i]] for i in range(n)]

    def live(self):
        """(count, bytes) of native blocks alive (numpy data excluded)"""
        L = self.lib
        return (sum(L.sim_live(k, 0) for k in (0, 1, 2)), sum(L.sim_live(k, 1) for k in (0, 1, 2)))

    def live_np(self):
        return self.lib.sim_live(3, 0), self.lib.sim_live(3, 1)

    def corruption(self, full=False):
        n = self.lib.sim_heap_check() if full else self.lib.sim_corrupt_count()
        if n:
            msg = self.lib.sim_corrupt_msg().decode()
            self.lib.sim_corrupt_reset()
            return msg
        return None


rt: SimRt = None
simnp = None
VARIANT = None
RT_DIR = None


def boot(variant, rt_dir, ext_path):
    """Call once per process, before longitudinal_tomography is imported."""
    global rt, simnp, VARIANT, RT_DIR
    RT_DIR = rt_dir
    assert 'longitudinal_tomography' not in sys.modules
    VARIANT = variant
    os.environ.setdefault('MPLBACKEND', 'Agg')
    rt = SimRt(os.path.join(rt_dir, 'libsimrt.so'))
    rt.begin({})
    spec = importlib.util.spec_from_file_location('simnp', os.path.join(rt_dir, 'simnp.so'))
    simnp = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(simnp)

    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    if not os.path.exists(os.path.join(REPO, 'longitudinal_tomography', '_version.py')):
        v = types.ModuleType('longitudinal_tomography._version')
        v.version = '0'
        v.version_tuple = (0,)
        sys.modules['longitudinal_tomography._version'] = v
    name = 'longitudinal_tomography.cpp_routines.libtomo'
    loader = importlib.machinery.ExtensionFileLoader(name, ext_path)
    spec = importlib.util.spec_from_file_location(name, ext_path, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    import longitudinal_tomography
    assert os.path.realpath(longitudinal_tomography.__file__).startswith(os.path.realpath(REPO) + '/')
    from longitudinal_tomography.cpp_routines import libtomo
    assert libtomo is mod, libtomo
    return mod

"""One set of objects (a world) and the operations a history consists of.

Every operation declares which parts of the state (slots) it reads and which
it replaces, so the operations an answer may legitimately depend on can be
told from the rest of the history."""
import numpy as np

from . import boot, gens, models, treat, work
from .prop import Violation

OPS = {}
PARAMS = {                       # machine parameters a history changes
    'vrf1': [2637.197, 1800.0, 5000.0, 4200.0], 'vrf2': [0.0, 800.0, 300.0], 'phi12': [0.4, 0.0, -0.3], 'demax': [-1e6, 6e5, 9e5, 0.0], 'bdot': [0.0, 0.795, 0.3, 1e6],
    'full_pp_flag': [True, False], 'snpt': [1, 2], 'beam_ref_frame': [0, 1], 'machine_ref_frame': [0, 1], 'vrf1dot': [0.0, 1e5], 'h_num': [1, 1, 2],
    'filmstart': [0, 1, -3], 'niter': [1, 3], 'pickup_sensitivity': [0.36, 0.5], 'max_dt': [7.6e-7, 5e-7],
    'vrf2dot': [0.0, 2e4], 'h_ratio': [2.0, 3.0], 'b0': [0.15722, 0.2, 0.13], 'mean_orbit_rad': [25.0, 24.0, 27.5], 'bending_rad': [8.239, 8.0], 'trans_gamma': [4.1, 6.0, 5.0],
    'e_rest': [0.93827231E+9, 1.0e9], 'q': [1, 2], 'dtbin': [2e-8, 6e-8], 'min_dt': [0.0, 5e-8], 'synch_part_x': [5.5, 5.0, 6.2], 'dturns': [1, 2], 'g_coupling': [0.0, 0.3],
    'zwall_over_n': [0.0, 25.0], 'filmstop': [1, 2], 'filmstep': [1, 2]}
FIELDS = ('time_at_turn', 'omega_rev0', 'phi0', 'drift_coef', 'deltaE0', 'beta0', 'eta0', 'e0', 'vrf1_at_turn', 'vrf2_at_turn')
PFIELDS = FIELDS + ('phi12', 'h_ratio', 'n_turns')
PARTIAL = {'m.par', 'p.par'}     # slots that several operations fill together
M = {'m.par', 'm.turns', 'prec'}


class Stop(BaseException):
    pass


class Skip(Exception):
    """not an operation here"""


class Op:
    def __init__(self, name, f, gen, reads, writes, unsettled):
        self.name, self.f, self.gen, self.reads, self.writes, self.unsettled = name, f, gen, set(reads), set(writes), set(unsettled)


def op(name, reads=(), writes=(), gen=None, unsettled=()):
    """unsettled: slots an interrupted execution may have replaced already"""
    def deco(f):
        OPS[name] = Op(name, f, gen, reads, writes, unsettled)
        return f
    return deco


# ------------------------------------------------------------------ the world
class World:
    def __init__(self, p, over=None):
        """over: machine parameters given to the constructor instead of being set afterwards"""
        from longitudinal_tomography.data.profiles import Profiles
        from longitudinal_tomography.tomography import tomography, tomography_multibunch
        from longitudinal_tomography.tracking import particles, phase_space_info, tracking
        from longitudinal_tomography.utils import tomo_input
        self.p = p
        self.n, self.nb = p['nprofiles'], p['nbins']
        self.inputs = []
        self.m = gens.machine(dict(p, selffield=True), **(over or {}))
        dtbin = 7.6e-7 / self.nb
        self.pr = Profiles(self.m, dtbin, self.give(gens.waterfall(self.n, self.nb, p['data'])))
        self.tr = tracking.Tracking(self.m)
        self.pa = particles.Particles()
        self.ps = phase_space_info.PhaseSpaceInfo(self.m)
        wf = self.give(gens.waterfall(self.n, self.nb, p['data'] + 1))
        self.to = None
        self.wf, self.dtbin = wf, dtbin
        self.to = tomography.Tomography(wf, self.xp(3 * p['data'] + 1), self.yp(p['data']))
        self.mt = tomography_multibunch.Tomography(wf, mxp(self, p['data'] + 1))
        self.fr = tomo_input.Frames(self.n, self.nb, 0, 0, 0, 1, dtbin)
        self.m2 = gens.machine(p)
        self.pm = programs(p)
        if over is not None:        # nothing computed with other parameters is needed
            return
        if 'charge' in p['warm']:
            self.pr.calc_profilecharge()
            if 'fields' in p['warm']:
                self.pr.calc_self_fields()
        if 'area' in p['warm']:
            self.pa.homogeneous_distribution(self.m, 0)
        if 'weight' in p['warm']:
            try:
                self.to.run(1)
            except RuntimeError:      # no particle where the profiles are
                pass

    def objects(self):
        return {'machine': self.m, 'profiles': self.pr, 'tracker': self.tr, "tracker's particles": self.tr.particles, 'particles': self.pa, 'reconstruction': self.to,
                'multi-bunch reconstruction': self.mt, 'frames': self.fr, 'second machine': self.m2, 'programs machine': self.pm}

    def give(self, a):
        """an input; it must never change"""
        self.inputs.append((a, a.copy()))
        return a

    def xp(self, data):
        n = self.p['npart'] + (data // 7 if data % 3 == 0 else 0) % 9
        return self.give(paths(gens.rs('hxp', data), n, self.n, self.nb, self.nb))

    def yp(self, data):
        x = getattr(self, 'to', None)
        n = self.p['npart'] if x is None or x.xp is None else len(x.xp)
        return self.give(gens.rs('hyp', data).integers(0, self.nb, (n, self.n)).astype(np.int32))


def paths(g, npart, nprof, nbins, end):
    a = g.normal(nbins * 0.44, nbins / 6, (npart, 1)) + g.integers(-1, 2, (npart, nprof))
    return np.clip(a % nbins if end == nbins else a % end, 0, end - 1).astype(np.int32)


def programs(p, over={}):
    from longitudinal_tomography.tracking.programs_machine import ProgramsMachine
    t = np.linspace(0.2795, 0.2835, 11)
    g = gens.rs('hprog', p['data'])
    kw = dict(mean_orbit_rad=25.0, bending_rad=8.239, trans_gamma=4.1, rest_energy=0.93827231E+9, nprofiles=2, nbins=12, dtbin=3e-8, t_ref=0.28,
              synch_part_x=5.0, machine_ref_frame=0, beam_ref_frame=0, min_dt=0.0, max_dt=3.6e-7, snpt=1, demax=-1e6)
    if p['data'] % 3:
        kw['phase_function'] = np.array([t, 0.1 * g.random(11), 0.1 * g.random(11)])
    v = np.array([t, 8000 + 500 * g.random(11), 2000 + 500 * g.random(11)])
    mo = np.array([t, np.linspace(6e8, 6.4e8, 11)])
    raw = {'voltage_raw': v, 'momentum_raw': mo, 'harmonics': [1, 2]}
    for k, x in over.items():
        (raw if k in raw else kw)[{'e_rest': 'rest_energy'}.get(k, k)] = x
    m = ProgramsMachine(2, raw['voltage_raw'], raw['momentum_raw'], raw['harmonics'], **kw)
    if not p['data'] % 3:
        m.calc_phi12(0)
        m.find_synchronous_phase()
    return m


def world_params(rng):
    p = gens.machine_params(rng)
    p.update(nbins=rng.choice([12, 14]), nprofiles=rng.choice([2, 3, 4]), dturns=rng.choice([1, 2]), snpt=1, npart=rng.choice([3, 8, 20, 40]), data=rng.getrandbits(30),
             warm=[x for x in ('charge', 'fields', 'area', 'weight') if rng.random() < 0.6])
    return p


# ------------------------------------------------------------- the snapshots
def value(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [value(x) for x in v]
    if v is None or isinstance(v, (bool, int, float, complex, str, np.generic)):
        return v
    return type(v).__name__


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and \
            np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and (a == b or (a != a and b != b))


def snapshot(w):
    out = {}
    for n, o in w.objects().items():
        for k in dir(o):
            if k.startswith('_'):
                continue
            try:
                v = getattr(o, k)
            except Exception as e:
                v = 'raises ' + type(e).__name__
            if not callable(v):
                out[n, k] = value(v)
    return out


def changed(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b or not same(a[k], b[k]):
            yield k


# --------------------------------------------------------------- operations
@op('renew', writes={'*'}, gen=lambda rng, p: {'p': world_params(rng)})
def renew(w, a, cb):
    w.__init__(a['p'])
    return []


@op('precision', reads=(), writes={'prec'}, gen=lambda rng, p: {'to': rng.choice(['single', 'double', 'double'])})
def precision(w, a, cb):
    import longitudinal_tomography as lt
    (lt.set_single_precision if a['to'] == 'single' else lt.set_double_precision)()
    return []


def g_foreign(rng, p):
    j = work.gen(rng, work.ALL + treat.TREAT)
    for k in ('npart', 'nprof', 'nbins', 'niter'):
        if k in j and isinstance(j[k], int) and j['kind'] in work.ALL:
            j[k] = min(j[k], {'npart': 40, 'nprof': 6, 'nbins': 24, 'niter': 2}[k])
    return {'job': j}


@op('foreign', gen=g_foreign)
def foreign(w, a, cb):
    j = work.make(dict(a['job']))
    try:
        j.call()
    except Exception:
        pass
    return []


# machine
def g_set(rng, p):
    k = rng.choice(list(PARAMS))
    return {'k': k, 'v': rng.choice(PARAMS[k])}


@op('set', writes={'m.par'}, gen=g_set)
def set_param(w, a, cb):
    setattr(w.m, a['k'], min(a['v'], w.n - 1) if 'frame' in a['k'] else a['v'])
    return []


BAD_NBINS = {'none': None, 'text': 'x', 'list': [4]}


@op('bad_nbins', reads={'m.par'}, gen=lambda rng, p: {'v': rng.choice(list(BAD_NBINS))})
def bad_nbins(w, a, cb):
    w.m.nbins = BAD_NBINS[a['v']]
    return []


@op('turns', reads={'m.par'}, writes={'m.turns'}, gen=lambda rng, p: {})
def turns(w, a, cb):
    w.m.values_at_turns()
    return [getattr(w.m, k) for k in FIELDS]


@op('load_fit', writes={'m.fit', 'm.par'}, gen=lambda rng, p: {'f': rng.choice([[5.1, 2.0, 9.0], [4.9, 1.0, 8.0], [4.0], [5.5, 1.0], [], None])})
def load_fit(w, a, cb):
    w.m.load_fitted_synch_part_x_ftn(a['f'])
    return [w.m.synch_part_x, w.m.fitted_synch_part_x, w.m.bunchlimit_low, w.m.bunchlimit_up]


@op('fit', reads=M | {'pr.wf'}, gen=lambda rng, p: {'via': rng.randrange(3)})
def fit(w, a, cb):
    from longitudinal_tomography.data import data_treatment, pre_process
    if a['via'] == 0:
        return list(data_treatment.fit_synch_part_x(w.pr))
    if a['via'] == 1:
        return list(pre_process.fit_synch_part_x(w.pr))
    return list(pre_process.fit_synch_part_x(w.pr.waterfall, w.m))


# programs machine
def g_pset(rng, p):
    return {'k': rng.choice(['voltage', 'voltage', 'momentum', 'short', 'low', 'phi12', 'harmonics', 'geometry', 'geometry', 'reference']), 'data': rng.getrandbits(20)}


def p_value(a):
    """attribute of the programs machine and its new value"""
    t = np.linspace(0.2795, 0.2835, 11)
    g = gens.rs('pset', a['data'])
    k, n = a['k'], a['data']
    if k == 'voltage':
        return 'voltage_raw', np.array([t, 8000 + 500 * g.random(11), 2000 + 500 * g.random(11)])
    if k == 'low':         # too low for the acceleration: no synchronous phase
        return 'voltage_raw', np.array([t, 1.0 + g.random(11), g.random(11)])
    if k == 'momentum':
        return 'momentum_raw', np.array([t, np.linspace(6e8, 6.4e8 + 1e7 * g.random(), 11)])
    if k == 'short':
        return 'momentum_raw', np.array([t[:3], np.linspace(6e8, 6.1e8, 3)])
    if k == 'harmonics':
        return 'harmonics', [1, 2 + n % 2]
    if k == 'reference':
        return 't_ref', (0.28, 0.2805)[n % 2]
    if k == 'geometry':
        m, v = (('mean_orbit_rad', (25.0, 26.0)), ('bending_rad', (8.239, 8.0)), ('trans_gamma', (4.1, 5.5)), ('e_rest', (0.93827231E+9, 1e9)))[n // 2 % 4]
        return m, v[n % 2]
    return 'phi12', None


@op('p_set', writes={'p.par'}, gen=g_pset)
def p_set(w, a, cb):
    setattr(w.pm, *p_value(a))
    return []


@op('p_turns', reads={'p.par'}, writes={'p.par'}, gen=lambda rng, p: {})
def p_turns(w, a, cb):
    w.pm.values_at_turns()
    return [getattr(w.pm, k) for k in PFIELDS if getattr(w.pm, k) is not None]


@op('p_phi12', reads={'p.par'}, writes={'p.par'}, gen=lambda rng, p: {'mode': rng.choice([0, 1, 2])})
def p_phi12(w, a, cb):
    w.pm.calc_phi12(a['mode'])
    return [w.pm.phi12]


@op('p_sync', reads={'p.par'}, writes={'p.par'}, gen=lambda rng, p: {})
def p_sync(w, a, cb):
    w.pm.find_synchronous_phase()
    return [w.pm.phi0]


# profiles
BAD_WF = {'scalar': lambda w: 5, 'rows': lambda w: np.ones((w.n + 1, w.nb)), 'zero': lambda w: np.zeros((w.n, w.nb)), 'negative': lambda w: -np.ones((w.n, w.nb)),
          'list': lambda w: [[1.0] * w.nb] * w.n, 'none': lambda w: None, 'text': lambda w: np.array([['a'] * w.nb] * w.n)}


def g_bad(table, p_bad=0.35):
    def gen(rng, p):
        a = {'data': rng.getrandbits(20)}
        if rng.random() < p_bad:
            a['bad'] = rng.choice(list(table))
        return a
    return gen


def keep(w, a):
    return w.give(a) if isinstance(a, np.ndarray) else a


def new_wf(w, a):
    return gens.waterfall(w.n, w.nb, a['data']) - (0.1, 0.0)[a['data'] % 3 == 0]


@op('waterfall', writes={'pr.wf'}, gen=g_bad(BAD_WF))
def waterfall(w, a, cb):
    w.pr.waterfall = keep(w, BAD_WF[a['bad']](w) if 'bad' in a else new_wf(w, a))
    return [w.pr.waterfall]


@op('charge', reads={'m.par', 'pr.wf'}, writes={'pr.charge'}, gen=lambda rng, p: {})
def charge(w, a, cb):
    w.pr.calc_profilecharge()
    return [w.pr.profile_charge]


@op('set_charge', writes={'pr.charge'}, gen=lambda rng, p: {'v': rng.choice([None, 1e11, 3e12])})
def set_charge(w, a, cb):
    w.pr.profile_charge = a['v']
    return []


SF = ['std', 'std', 'given', 'filter', 'bad_scalar', 'bad_shape', 'filter_scalar', 'filter_shape', 'filter_raises', 'filter_none']


@op('self_fields', reads=M | {'pr.wf', 'pr.charge'}, writes={'pr.sf'}, gen=lambda rng, p: {'how': rng.choice(SF), 'data': rng.getrandbits(20)})
def self_fields(w, a, cb):
    h = a['how']
    f = w.give(gens.rs('sf', a['data']).normal(size=(w.n, w.nb)) * 1e-3)

    def bad(x):
        raise ArithmeticError('filter')

    def good(x):
        x[:] = f * 2
        return x
    if h == 'std':
        w.pr.calc_self_fields()
    elif h == 'given':
        w.pr.calc_self_fields(filtered_profiles=f)
    elif h == 'bad_scalar':
        w.pr.calc_self_fields(filtered_profiles=4)
    elif h == 'bad_shape':
        w.pr.calc_self_fields(filtered_profiles=f[:, 1:])
    else:
        w.pr.calc_self_fields(in_filter={'filter': good, 'filter_scalar': lambda x: 3, 'filter_shape': lambda x: x[1:], 'filter_raises': bad,
                                         'filter_none': lambda x: None}[h])
    return [w.pr.vself, w.pr.dsprofiles, w.pr.phiwrap, w.pr.wrap_length]


# second machine: raw data
BAD_RAW = {'scalar': lambda w: 3.0, 'zero': lambda w: np.zeros((w.n, w.nb)), 'rows': lambda w: np.ones((w.n + 2, w.nb)), 'text': lambda w: np.array([['a'] * w.nb] * w.n)}


def g_raw(rng, p):
    a = g_bad(BAD_RAW, 0.5)(rng, p)
    a.update(rbn=rng.choice([1, 2, 3, 2]), synch=rng.choice([None, None, 6.0]))
    if rng.random() < 0.1:
        a['rbn'] = rng.choice([0, 'x'])
    return a


@op('raw', reads={'m2'}, writes={'m2'}, gen=g_raw)
def raw(w, a, cb):
    from longitudinal_tomography.utils import tomo_input
    x = BAD_RAW[a['bad']](w) if 'bad' in a else treat.measured({'nprofiles': w.n, 'nbins': w.nb, 'data': a['data']})
    q = tomo_input.raw_data_to_profiles(keep(w, x), w.m2, a['rbn'], 1e-8, a['synch'])
    return [q.waterfall, w.m2.dtbin, w.m2.synch_part_x, w.m2.nbins, w.m2.synch_part_y]


# frames
BAD_FR = {'scalar': lambda w: 3, 'short': lambda w: np.ones(w.n * w.nb - 1), 'long': lambda w: np.ones(w.n * w.nb + 1), 'none': lambda w: None}


@op('frames', writes={'fr'}, gen=g_bad(BAD_FR))
def frames(w, a, cb):
    x = BAD_FR[a['bad']](w) if 'bad' in a else gens.waterfall(w.n, w.nb, a['data']).ravel()
    w.fr.raw_data = keep(w, x)
    return [w.fr.raw_data]


@op('frames_wf', gen=g_bad(BAD_FR))
def frames_wf(w, a, cb):
    x = BAD_FR[a['bad']](w) if 'bad' in a else gens.waterfall(w.n, w.nb, a['data']).ravel()
    return [w.fr.to_waterfall(keep(w, x))]


# tracker
def mrec(w, a):
    r = a['rec']
    return {'last': w.n - 1, 'beyond': w.n, 'below': -w.n - 1, 'none': None, 'text': 'a'}.get(r, r) if isinstance(r, str) else r % w.n if r >= 0 else r


RECS = [0, 0, 0, 1, 1, 1, 2, 2, 'last', 'last', 'beyond', 'below', 'none', 'text', -2]


@op('enable_sf', reads={'pr.sf'}, writes={'tr.sf'}, gen=lambda rng, p: {'bad': rng.random() < 0.2})
def enable_sf(w, a, cb):
    w.tr.enable_self_fields(None if a['bad'] else w.pr)
    return []


@op('enable_ftn', writes={'tr.ftn'}, gen=lambda rng, p: {'v': rng.choice([1e11, None])})
def enable_ftn(w, a, cb):
    w.tr.enable_fortran_output(a['v'])
    return []


@op('track', reads=M | {'tr.sf', 'tr.ftn', 'm.fit'}, writes={'tr.geo', 'tr.coords', 'm.dEbin', 'tr.init'}, unsettled={'tr.geo', 'tr.coords', 'm.dEbin', 'tr.init'},
    gen=lambda rng, p: {'rec': rng.choice(RECS), 'delta': rng.choice([0, 0, 0, 0, 0, 0, 1, -1, 9])})
def track(w, a, cb):
    kw = {'deltaturn': a['delta']} if a['delta'] else {}
    x, y = w.tr.track(mrec(w, a), callback=cb, **kw)
    q = w.tr.particles
    return [x, y] + list(q.coordinates_dphi_denergy) + [q.xorigin, q.dEbin, q.imin, q.imax, q.jmin, q.jmax, w.m.dEbin]


BAD_DISTR = {'scalars': lambda w: (5, 6), 'one': lambda w: (np.ones(3),), 'three': lambda w: (np.ones(3),) * 3, 'lengths': lambda w: (np.ones(3), np.ones(4)),
             'text': lambda w: ('ab', 'cd')}


@op('track_user', reads=M | {'tr.sf', 'tr.ftn', 'm.fit'}, writes={'tr.coords', 'tr.init'}, unsettled={'tr.coords', 'tr.init'},
    gen=lambda rng, p: dict(g_bad(BAD_DISTR)(rng, p), rec=rng.choice(RECS)))
def track_user(w, a, cb):
    if w.tr.self_field_flag:     # needs a reconstruction area that only an automatic distribution gives
        raise Skip()
    g = gens.rs('user', a['data'])
    d = BAD_DISTR[a['bad']](w) if 'bad' in a else (w.give(g.uniform(-0.5, 0.5, 7)), w.give(g.uniform(-1e5, 1e5, 7)))
    x, y = w.tr.track(mrec(w, a), init_distr=d, callback=cb)
    return [x, y] + list(w.tr.particles.coordinates_dphi_denergy)


@op('track_step', reads=M | {'tr.ftn'}, gen=lambda rng, p: {'rec': rng.choice([0, 1]), 'data': rng.getrandbits(20)})
def track_step(w, a, cb):
    g = gens.rs('step', a['data'])
    return list(w.tr.kick_and_drift(w.give(g.uniform(-1e5, 1e5, 5)), w.give(g.uniform(-0.5, 0.5, 5)), w.m.vrf1_at_turn * w.m.q, w.m.vrf2_at_turn * w.m.q, a['rec'] % w.n))


@op('shortcut', reads=M, writes={'m.dEbin'}, unsettled={'m.dEbin'}, gen=lambda rng, p: {'rec': rng.choice([0, 1, 'beyond', 'last'])})
def shortcut(w, a, cb):
    from longitudinal_tomography import shortcuts
    return list(shortcuts.track(w.m, mrec(w, a), callback=cb))


# particles, reconstruction area
@op('homogeneous', reads=M, writes={'pa.geo', 'pa.coords', 'm.dEbin'}, gen=lambda rng, p: {'rec': rng.choice([0, 0, 0, 1, 1, 1, 'last', 1000, 'none', 'text']), 'delta': rng.choice([0, 0, 1])})
def homogeneous(w, a, cb):
    rec = 1000 if a['rec'] == 1000 else mrec(w, a)
    w.pa.homogeneous_distribution(w.m, rec, a['delta'])
    q = w.pa
    return list(q.coordinates_dphi_denergy) + [q.xorigin, q.dEbin, q.imin, q.imax, q.jmin, q.jmax, w.m.dEbin]


@op('coords', writes={'pa.coords'}, gen=g_bad(dict(BAD_DISTR, none=0)))
def coords(w, a, cb):
    g = gens.rs('coords', a['data'])
    if a.get('bad') == 'none':
        w.pa.coordinates_dphi_denergy = None
    elif 'bad' in a:
        w.pa.coordinates_dphi_denergy = BAD_DISTR[a['bad']](w)
    else:
        w.pa.coordinates_dphi_denergy = (w.give(g.normal(size=4)), w.give(g.normal(size=4)))
    return list(w.pa.coordinates_dphi_denergy)


@op('to_bins', reads=M | {'pa.geo', 'pa.coords'}, gen=lambda rng, p: {'bad': rng.random() < 0.2})
def to_bins(w, a, cb):
    from longitudinal_tomography.tracking import particles
    x, y = w.pa.coordinates_dphi_denergy
    x, y = np.tile(x, (w.n, 1)), np.tile(y, (w.n + a['bad'], 1))
    b = particles.physical_to_coords(x, y, w.m, w.pa.xorigin, w.pa.dEbin)
    return list(b) + list(particles.ready_for_tomography(b[0], b[1], w.nb))


@op('area', reads=M, writes={'ps'}, gen=lambda rng, p: {})
def area(w, a, cb):
    w.ps.find_binned_phase_energy_limits()
    return [w.ps.jmin, w.ps.jmax, w.ps.imin, w.ps.imax, w.ps.dEbin, w.ps.xorigin]


# reconstructions
BAD_XP = {'scalar': lambda w: 3, 'flat': lambda w: np.zeros(w.n, dtype=int), 'profiles': lambda w: np.zeros((4, w.n + 1), dtype=int), 'negative': lambda w: np.full((3, w.n), -1),
          'wide': lambda w: np.full((3, w.n), w.nb), 'text': lambda w: 'abc'}


def g_xp(rng, p):
    a = g_bad(BAD_XP)(rng, p)
    if 'bad' not in a and rng.random() < 0.12:
        a['none'] = True
    return a


def new_xp(w, a):
    return BAD_XP[a['bad']](w) if 'bad' in a else None if a.get('none') else w.xp(a['data'])


@op('xp', writes={'to.xp'}, reads={'prec'}, gen=g_xp)
def xp(w, a, cb):
    w.to.xp = keep(w, new_xp(w, a))
    return [w.to.xp] if w.to.xp is not None else []


BAD_YP = {'scalar': lambda w: 3, 'shape': lambda w: np.zeros((2, w.n), dtype=int), 'flat': lambda w: np.zeros(5)}


@op('yp', reads={'to.xp', 'prec'}, writes={'to.yp'}, gen=g_bad(BAD_YP))
def yp(w, a, cb):
    w.to.yp = keep(w, BAD_YP[a['bad']](w)) if 'bad' in a else w.yp(a['data'])
    return [w.to.yp]


NITER = [0, 1, 1, 2, 2, 3, 3, 3, -1, 'x']


@op('run', reads={'to.xp', 'prec'}, writes={'to.weight', 'to.dr'}, gen=lambda rng, p: {'n': rng.choice(NITER)})
def run(w, a, cb):
    r = w.to.run(a['n'], callback=cb)
    return [r, w.to.weight, w.to.diff, w.to.recreated]


@op('run_hybrid', reads={'to.xp', 'prec'}, writes={'to.dr'}, gen=lambda rng, p: {'n': rng.choice([0, 1, 2, 'x'])})
def run_hybrid(w, a, cb):
    r = w.to.run_hybrid(a['n'])
    return [r, w.to.diff, w.to.recreated]


@op('image', reads={'to.xp', 'to.yp', 'to.weight', 'm.dEbin', 'm.par', 'prec'}, gen=lambda rng, p: {'i': rng.choice([0, 0, 0, 1, 1, 1000])})
def image(w, a, cb):
    from longitudinal_tomography.data import data_treatment
    return list(data_treatment.phase_space(w.to, w.m, a['i']))


def centres(w, a):
    n = a['nc']
    width = max(1, w.nb // (2 * n))
    c = [k * width for k in range(n)]
    return np.array(c, dtype=np.int32), np.array([max(0, x - 1) for x in c], dtype=np.int32), np.array([min(w.nb, x + w.nb // 2 + 1) for x in c], dtype=np.int32)


def mxp(w, data):
    return w.give(paths(gens.rs('hmxp', data), w.p['npart'], w.n, w.nb, max(1, w.nb // 3)))


@op('mxp', writes={'mt.xp'}, reads={'prec'}, gen=g_xp)
def m_xp(w, a, cb):
    w.mt.xp = keep(w, BAD_XP[a['bad']](w) if 'bad' in a else None if a.get('none') else mxp(w, a['data']))
    return [w.mt.xp] if w.mt.xp is not None else []


@op('mrun', reads={'mt.xp', 'prec'}, writes={'mt.dr', 'mt.weight'}, gen=lambda rng, p: {'n': rng.choice(NITER), 'nc': rng.choice([1, 2, 3])})
def mrun(w, a, cb):
    c, l, r = centres(w, a)
    w.mt.run(w.give(c), w.give(l), w.give(r), a['n'], callback=cb)
    return [w.mt.diff, w.mt.diff_split, w.mt.recreated, w.mt.weight_combined] + list(w.mt.weight_split)


@op('mrun_hybrid', reads={'mt.xp', 'prec'}, writes={'mt.dr', 'mt.weight'}, gen=lambda rng, p: {'n': rng.choice([0, 1, 2, 'x']), 'nc': rng.choice([1, 2])})
def mrun_hybrid(w, a, cb):
    c, l, r = centres(w, a)
    w.mt.run_hybrid(list(c), [(int(x), int(y)) for x, y in zip(l, r)], a['n'])
    return [w.mt.diff, w.mt.diff_split, w.mt.recreated, w.mt.weight_combined] + list(w.mt.weight_split)


# reading
READ = {'machine': (lambda w: [w.m.nbins, w.m.synch_part_y, w.m.nprofiles, w.m.dturns], {'m.par'}),
        'turns': (lambda w: [getattr(w.m, k) for k in FIELDS], {'m.turns'}),
        'waterfall': (lambda w: [w.pr.waterfall], {'pr.wf'}),
        'vself': (lambda w: [w.pr.vself, w.pr.dsprofiles, w.pr.phiwrap, w.pr.wrap_length], {'pr.sf'}),
        'charge': (lambda w: [w.pr.profile_charge], {'pr.charge'}),
        'flags': (lambda w: [w.tr.self_field_flag, w.tr.fortran_flag, w.tr.nturns], {'tr.sf', 'tr.ftn', 'm.par'}),
        'start': (lambda w: list(w.tr.particles.coordinates_dphi_denergy), {'tr.coords'}),
        'start_area': (lambda w: [w.tr.particles.xorigin, w.tr.particles.dEbin, w.tr.particles.imin, w.tr.particles.imax, w.tr.particles.jmin, w.tr.particles.jmax], {'tr.geo'}),
        'coords': (lambda w: list(w.pa.coordinates_dphi_denergy), {'pa.coords'}),
        'area': (lambda w: [w.pa.xorigin, w.pa.dEbin, w.pa.imin, w.pa.imax, w.pa.jmin, w.pa.jmax], {'pa.geo'}),
        'dEbin': (lambda w: [w.m.dEbin], {'m.dEbin'}),
        'normalised': (lambda w: [w.to.waterfall, w.mt.waterfall, w.to.nbins, w.to.nprofs, w.mt.nbins, w.mt.nprofs], set()),
        'xp': (lambda w: [w.to.xp, w.to.nparts], {'to.xp'}),
        'yp': (lambda w: [w.to.yp], {'to.yp'}),
        'weight': (lambda w: [w.to.weight], {'to.weight'}),
        'diff': (lambda w: [w.to.diff, w.to.recreated], {'to.dr'}),
        'mdiff': (lambda w: [w.mt.diff, w.mt.diff_split, w.mt.recreated], {'mt.dr'}),
        'frames': (lambda w: [w.fr.raw_data, w.fr.nprofs(), w.fr.nbins()], {'fr'}),
        'raw': (lambda w: [w.m2.dtbin, w.m2.synch_part_x, w.m2.nbins], {'m2'})}


@op('read', gen=lambda rng, p: {'what': rng.choice(list(READ))})
def read(w, a, cb):
    return [x for x in READ[a['what']][0](w) if x is not None]


def reads(o):
    d = OPS[o['op']]
    return d.reads | (READ[o['what']][1] if o['op'] == 'read' else set())


# what the caller may overwrite once the call is over: arrays he passed in (the
# objects keep copies) and values (by index) a call returned
TAKES = {'waterfall', 'self_fields', 'raw', 'frames', 'frames_wf', 'track_step', 'xp', 'yp', 'mxp', 'mrun'}
RETURNS = {'track': 2, 'track_user': 2, 'track_step': 2, 'shortcut': 2, 'to_bins': 4, 'frames': 1, 'frames_wf': 1, 'image': 3}


def scribble(a):
    """other values of the same kind"""
    if a.size and a.flags.writeable:
        if a.dtype.kind in 'iu':
            a[...] = a[::-1].copy() + 1
        elif a.dtype.kind == 'f':
            a[...] = 3.0 - 2.0 * a[::-1].copy()


CALLBACK = {'track', 'track_user', 'run', 'mrun', 'shortcut'}
ALLOC = {'track', 'run', 'mrun', 'image', 'shortcut', 'track_user'}
WEIGHT = {'renew': 1, 'precision': 1, 'foreign': 2, 'set': 7, 'turns': 4, 'load_fit': 1, 'fit': 2, 'bad_nbins': 1, 'p_set': 5, 'p_turns': 5, 'p_phi12': 2, 'p_sync': 2, 'waterfall': 4, 'charge': 2,
          'set_charge': 1, 'self_fields': 4, 'raw': 4, 'frames': 1, 'frames_wf': 1, 'enable_sf': 2, 'enable_ftn': 1, 'track': 7, 'track_user': 4, 'track_step': 2, 'shortcut': 2,
          'homogeneous': 4, 'coords': 2, 'to_bins': 2, 'area': 2, 'xp': 4, 'yp': 2, 'run': 6, 'run_hybrid': 3, 'image': 3, 'mxp': 3, 'mrun': 4, 'mrun_hybrid': 3, 'read': 8}


def cut(history, k):
    """indices of the operations before k (of the same world, successful) its
    answer may depend on"""
    need = set(reads(history[k]))
    out = []
    for i in range(k - 1, -1, -1):
        o = history[i]
        if not o.get('ok') or (o['w'] != history[k]['w'] and o['op'] != 'precision'):
            continue
        d = OPS[o['op']]
        if '*' in d.writes:
            out.append(i)
            # nothing of that world older than this matters, but the precision
            for j in range(i - 1, -1, -1):
                if history[j].get('ok') and history[j]['op'] == 'precision':
                    out.append(j)
                    break
            break
        if d.writes & need:
            out.append(i)
            need = (need - (d.writes - PARTIAL)) | reads(o)
    return out[::-1]


def outputs(xs):
    return [np.array(x) for x in xs]


def re_xp(w, o):
    from longitudinal_tomography.tomography import tomography
    w.to = tomography.Tomography(w.wf, w.xp(o['data']))


def re_mxp(w, o):
    from longitudinal_tomography.tomography import tomography_multibunch
    w.mt = tomography_multibunch.Tomography(w.wf, mxp(w, o['data']))


def re_waterfall(w, o):
    from longitudinal_tomography.data.profiles import Profiles
    w.pr = Profiles(w.m, w.dtbin, w.give(new_wf(w, o)))


# what can be given to a constructor instead; slots that are not filled then
RENEW = {'xp': (re_xp, {'to.yp', 'to.weight', 'to.dr'}), 'mxp': (re_mxp, {'mt.weight', 'mt.dr'}), 'waterfall': (re_waterfall, {'pr.charge', 'pr.sf'})}


def replay(w, ops):
    """all but the last; where possible new objects are made instead of changing the ones there are"""
    need = set().union(*[reads(o) for o in ops])
    names = {o['op'] for o in ops}
    if names <= {'p_set', 'p_turns'} and ops[-1]['op'] == 'p_turns' and len(ops) > 1 and w.p['data'] % 3 and all(o.get('k') != 'phi12' for o in ops):
        try:
            w.pm = programs(w.p, dict(p_value(o) for o in ops if o['op'] == 'p_set'))
            return
        except Exception:       # the table is made by the constructor, which may be refused
            pass
    new_tracker = 'precision' not in names
    for o in ops:
        if o['op'] in ('enable_sf', 'enable_ftn', 'track', 'track_user', 'track_step') and new_tracker:
            from longitudinal_tomography.tracking import tracking
            w.tr = tracking.Tracking(w.m)
            new_tracker = False
        if o is ops[-1]:
            break
        if o['op'] in RENEW and not (o.keys() & {'bad', 'none'}) and not RENEW[o['op']][1] & need and 'precision' not in names:
            RENEW[o['op']][0](w, o)
        else:
            OPS[o['op']].f(w, o, None)


ANEW = {'set', 'turns', 'waterfall', 'enable_ftn'}
ANEW_READS = {'m.par', 'm.turns', 'prec', 'pr.wf', 'tr.sf', 'tr.ftn', 'm.fit'}


def anew(p, ops):
    """(parameters for the constructor, operations left) or None: the machine is made
    with the values it had when its table of turns was last made"""
    last = ops[-1]
    if not {o['op'] for o in ops[:-1]} <= ANEW or not reads(last) <= ANEW_READS or last['op'] == 'set':
        return None
    end = len(ops) - 1
    if 'm.turns' in reads(last):
        t = [i for i, o in enumerate(ops[:-1]) if o['op'] == 'turns']
        if not t:
            return None
        end = t[-1]
    over = {}
    for o in ops[:end]:
        if o['op'] == 'set':
            over[{'e_rest': 'rest_energy', 'q': 'charge'}.get(o['k'], o['k'])] = min(o['v'], p['nprofiles'] - 1) if 'frame' in o['k'] else o['v']
    return over, [o for i, o in enumerate(ops) if not (i <= end and o['op'] == 'set' or i < len(ops) - 1 and o['op'] == 'turns')]


def afresh(p, ops):
    """answer of the last operation, on new objects in a new process"""
    boot.rt.begin(gens.SEQ)
    over, left = anew(p, ops) or (None, ops)
    w = None
    if over:
        try:
            w = World(p, over)
            ops = left
        except Exception as e:
            if ops[-1]['op'] == 'turns':
                return 'exc', type(e).__name__
    if w is None:
        w = World(p)
    replay(w, ops)
    o = ops[-1]
    try:
        return 'out', outputs(OPS[o['op']].f(w, o, None))
    except Exception as e:
        return 'exc', type(e).__name__


def compare(got, want):
    """None or what differs"""
    if len(got) != len(want):
        return '%d values instead of %d' % (len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        if a.shape != b.shape:
            return 'value %d has shape %s instead of %s' % (i, a.shape, b.shape)
        if a.dtype != b.dtype and a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
            return 'value %d has type %s instead of %s' % (i, a.dtype, b.dtype)
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            x, y = np.isnan(a.astype(float)), np.isnan(b.astype(float))
            if not np.array_equal(x, y):
                return 'value %d is not a number in other places' % i
            a, b = np.where(x, 0.0, a), np.where(y, 0.0, b)
            inf = np.isinf(a)
            if not np.array_equal(inf, np.isinf(b)):
                return 'value %d is infinite in other places' % i
            e = models.err(np.where(inf, 0.0, a), np.where(inf, 0.0, b))
            if not e <= 1e-9:
                return 'value %d deviates (relative error %.3g)' % (i, e)
        elif not np.array_equal(a, b):
            return 'value %d differs' % i
    return None

"""Data treatment and object set-up as jobs.  Their outcome is compared with
the one a pristine process gives for the same call (see oracle.py)."""
import numpy as np

from . import gens, models, work
from .prop import Violation


class Alone(work.Job):
    """no model: self.alone is what a pristine process obtained"""
    alone = None
    tol = 1e-9

    def want(self):
        if self.alone is None:
            raise RuntimeError('no reference for ' + self.name)
        if self.alone[0] == 'exc':
            raise models.Degenerate
        return [('value %d' % i, a, self.tol, 1e-300) for i, a in enumerate(self.alone[1])]


def measured(p):
    """raw measured data with an offset"""
    g = gens.rs('raw', p['data'])
    w = gens.waterfall(p['nprofiles'], p['nbins'], p['data'])
    return w - 0.02 + 0.002 * g.normal(size=w.shape)


def mparams(rng):
    p = gens.machine_params(rng)
    p['nbins'] = rng.choice([16, 24, 40])
    p['data'] = rng.getrandbits(32)
    return p


class _M(Alone):
    @staticmethod
    def gen(rng):
        return mparams(rng)

    def prepare(self):
        self.m = gens.machine(self.p)
        self.inputs['waterfall'] = measured(self.p)
        for k in ('phi0', 'omega_rev0', 'time_at_turn', 'e0', 'eta0', 'vrf1_at_turn'):
            self.inputs['machine.' + k] = getattr(self.m, k)

    def own(self):
        """a machine that may be updated"""
        return gens.machine(self.p)


@work.kind
class Rebin(Alone):
    name = 'rebin'

    @staticmethod
    def gen(rng):
        return {'nprofiles': rng.choice([1, 2, 5]), 'nbins': rng.choice([6, 7, 12, 23]), 'rbn': rng.choice([1, 2, 3, 5]), 'data': rng.getrandbits(32),
                'via': rng.choice(['pre', 'data']), 'full': rng.random() < 0.5}

    def prepare(self):
        self.inputs['waterfall'] = measured(self.p)

    def call(self, cb=None):
        from longitudinal_tomography.data import data_treatment, pre_process
        f = pre_process.rebin if self.p['via'] == 'pre' else data_treatment.rebin
        if self.p['full']:
            return f(self.inputs['waterfall'], self.p['rbn'], 1e-9, 3.5)
        return (f(self.inputs['waterfall'], self.p['rbn'])[0],)


@work.kind
class Fit(_M):
    name = 'fit_synch'

    def call(self, cb=None):
        from longitudinal_tomography.data import data_treatment, pre_process, profiles
        w = self.inputs['waterfall']
        if self.p['data'] % 2:
            return pre_process.fit_synch_part_x(w, self.m)
        return data_treatment.fit_synch_part_x(profiles.Profiles(self.own(), 1e-9, w))


@work.kind
class Cuts(Alone):
    name = 'cuts'

    @staticmethod
    def gen(rng):
        return {'nprofiles': rng.choice([2, 5]), 'nbins': rng.choice([30, 60]), 'data': rng.getrandbits(32), 'margin': rng.choice([0, 2, 20])}

    def prepare(self):
        self.inputs['waterfall'] = measured(self.p)
        g = gens.rs('cuts', self.p['data'])
        self.inputs['xp'] = g.integers(0, self.p['nbins'], (6, self.p['nprofiles']))
        self.inputs['yp'] = g.integers(0, self.p['nbins'], (6, self.p['nprofiles']))

    def call(self, cb=None):
        from longitudinal_tomography.data import pre_process
        w = self.inputs['waterfall']
        a, b = pre_process.get_cuts(w, margin=self.p['margin'])
        c = pre_process.cut_waterfall(w, a, b)
        f = pre_process.filter_profiles(w, self.inputs['xp'], self.inputs['yp'])
        return (a, b, np.array(c)) + tuple(np.array(x) for x in f)


@work.kind
class RawToProfiles(_M):
    name = 'raw_to_profiles'

    def call(self, cb=None):
        from longitudinal_tomography.utils import tomo_input
        m = self.own()
        pr = tomo_input.raw_data_to_profiles(self.inputs['waterfall'], m, 1 + self.p['data'] % 2, 1e-9)
        pr.calc_profilecharge()
        return pr.waterfall, m.dtbin, m.synch_part_x, m.nbins, pr.profile_charge


@work.kind
class SelfFields(_M):
    name = 'self_fields'

    @staticmethod
    def gen(rng):
        p = mparams(rng)
        p['selffield'] = True
        p['how'] = rng.choice(['standard', 'filter', 'given'])
        return p

    def prepare(self):
        super().prepare()
        self.inputs['filtered'] = np.gradient(gens.waterfall(self.p['nprofiles'], self.p['nbins'], self.p['data']), axis=1)

    def call(self, cb=None):
        from longitudinal_tomography.data import profiles
        pr = profiles.Profiles(self.own(), 1e-9, self.inputs['waterfall'])
        pr.calc_profilecharge()
        how = self.p['how']
        if how == 'filter':
            pr.calc_self_fields(in_filter=lambda w: w * 0.5)
        elif how == 'given':
            pr.calc_self_fields(filtered_profiles=self.inputs['filtered'])
        else:
            pr.calc_self_fields()
        return pr.vself, pr.dsprofiles, pr.phiwrap, pr.wrap_length, pr.waterfall


@work.kind
class Frames(Alone):
    name = 'frames'

    @staticmethod
    def gen(rng):
        return {'nprofiles': rng.choice([2, 4]), 'nbins': rng.choice([8, 12]), 'skipf': rng.choice([0, 1]), 's0': rng.choice([0, 2]), 's1': rng.choice([0, 1]),
                'data': rng.getrandbits(32)}

    def prepare(self):
        self.inputs['raw'] = measured(self.p).ravel()

    def call(self, cb=None):
        from longitudinal_tomography.utils import tomo_input
        p = self.p
        f = tomo_input.Frames(p['nprofiles'], p['nbins'], p['skipf'], p['s0'], p['s1'], 1, 1e-9)
        f.raw_data = self.inputs['raw']
        w = f.to_waterfall(self.inputs['raw'])
        r = f.raw_data
        out = (np.array(w), f.nprofs(), f.nbins(), np.array(r))
        w[:] = 0.0            # a copy, as documented
        r[:] = 0.0
        if not np.array_equal(f.raw_data, out[3]):
            raise Violation('input-modified', 'raw_data of Frames is not a copy')
        return out


class _Image(Alone):
    @staticmethod
    def gen(rng):
        return {'nbins': rng.choice([8, 16, 30]), 'data': rng.getrandbits(32)}

    def prepare(self):
        n = self.p['nbins']
        g = gens.rs('image', self.p['data'])
        x = np.arange(n) - n / 2
        im = np.exp(-(x[:, None] / (n / 6)) ** 2 - (x[None, :] / (n / 8)) ** 2) * (1 + 0.1 * g.random((n, n)))
        self.inputs['image'] = im / im.sum()
        self.inputs['t'] = x * 1e-9
        self.inputs['E'] = x * 1e4


@work.kind
class PostProcess(_Image):
    name = 'post_process'

    def call(self, cb=None):
        from longitudinal_tomography.data import post_process as pp
        i = self.inputs
        d = pp.post_process(i['image'], i['t'], i['E'], 1.2e9, 0.938e9)
        return (d['emittance_rms'], d['emittance_90'], d['rms_dp/p'], pp.emittance_rms(i['image'], i['t'], i['E']), pp.emittance_90(i['image'], i['t'], i['E']),
                pp.emittance_fractional(i['image'], i['t'], i['E'], fraction=60.0))


@work.kind
class Graphics(_Image):
    name = 'tomographics'

    def call(self, cb=None):
        from longitudinal_tomography.utils import tomographics as tg
        i = self.inputs
        y = i['image'].sum(axis=1)
        a = tg.foot_tangent_fit(y, 1e-9)
        return tuple(tg.rms_params(i['image'], 1e-9, 1e4)) + (tg.emittance_density_calc(i['image'], 1e-9, 1e4, 0.8), a[0], a[1])


@work.kind
class MatchedArea(_M):
    name = 'matched_area'

    def call(self, cb=None):
        from longitudinal_tomography.utils import tomographics as tg
        return (tg.matched_area_calc(self.m, 2e-7), tg.matched_area_calc(self.m, 1.5e-7, 1))


@work.kind
class MachineTurns(_M):
    """setting a machine up"""
    name = 'machine_turns'
    FIELDS = ('time_at_turn', 'omega_rev0', 'phi0', 'drift_coef', 'deltaE0', 'beta0', 'eta0', 'e0', 'vrf1_at_turn', 'vrf2_at_turn', 'synch_part_y', 'nbins', 'dtbin')

    def prepare(self):
        pass

    def call(self, cb=None):
        m = self.own()
        return tuple(getattr(m, k) for k in self.FIELDS)


@work.kind
class Programs(Alone):
    name = 'programs_machine'

    @staticmethod
    def gen(rng):
        return {'nprofiles': rng.choice([2, 3, 5]), 'dturns': rng.choice([1, 3, 6]), 'ref': rng.choice([0, 1]), 'two': rng.random() < 0.6, 'phase': rng.choice(['function', 'later']),
                'data': rng.getrandbits(32)}

    def prepare(self):
        t = np.linspace(0.2795, 0.2835, 11)
        g = gens.rs('prog', self.p['data'])
        n = 3 if self.p['two'] else 2
        self.inputs['voltage'] = np.array([t, 8000 + 500 * g.random(11), 2000 + 500 * g.random(11)][:n])
        self.inputs['momentum'] = np.array([t, np.linspace(6e8, 6.4e8, 11)])
        self.inputs['phase'] = np.array([t, 0.1 * g.random(11), 0.1 * g.random(11)])

    def call(self, cb=None):
        from longitudinal_tomography.tracking.programs_machine import ProgramsMachine
        p, i = self.p, self.inputs
        kw = dict(mean_orbit_rad=25.0, bending_rad=8.239, trans_gamma=4.1, rest_energy=0.93827231E+9, nprofiles=p['nprofiles'], nbins=20, dtbin=3e-8, t_ref=0.28,
                  synch_part_x=9.0, machine_ref_frame=p['ref'], beam_ref_frame=0, min_dt=0.0, max_dt=6e-7, snpt=1, demax=-1e6)
        if p['phase'] == 'function':
            kw['phase_function'] = i['phase']
        m = ProgramsMachine(p['dturns'], i['voltage'], i['momentum'], [1, 2] if p['two'] else [1], **kw)
        if p['phase'] == 'later':
            m.calc_phi12(0)
            m.find_synchronous_phase()
        return tuple(getattr(m, k) for k in ('time_at_turn', 'omega_rev0', 'phi0', 'drift_coef', 'deltaE0', 'e0', 'vrf1_at_turn', 'vrf2_at_turn', 'phi12', 'h_ratio'))


@work.kind
class Distribution(_M):
    name = 'distribution'

    @staticmethod
    def gen(rng):
        p = mparams(rng)
        p['nbins'] = rng.choice([12, 16])
        p['rec'] = rng.randrange(p['nprofiles'])
        return p

    def call(self, cb=None):
        from longitudinal_tomography.tracking import particles
        q = particles.Particles()
        q.homogeneous_distribution(self.m, self.p['rec'])
        a, b = q.coordinates_dphi_denergy
        x, y = particles.physical_to_coords(np.tile(a, (self.p['nprofiles'], 1)), np.tile(b, (self.p['nprofiles'], 1)), self.m, q.xorigin, q.dEbin)
        xi, yi = particles.ready_for_tomography(x, y, self.m.nbins)
        return a, b, q.xorigin, q.dEbin, q.imin, q.imax, q.jmin, q.jmax, xi, yi


@work.kind
class Text(Alone):
    """parameter file lines to machine"""
    name = 'parameter_text'

    @staticmethod
    def gen(rng):
        return {'data': rng.getrandbits(32), 'nprofiles': rng.choice([2, 4]), 'nbins': rng.choice([10, 20])}

    def call(self, cb=None):
        from longitudinal_tomography.utils import tomo_input
        from . import files
        lines = files.parameters({'nprofiles': self.p['nprofiles'], 'nbins': self.p['nbins'], 'data': self.p['data']})
        m, f = tomo_input.txt_input_to_machine(lines)
        m.values_at_turns()
        return m.phi0, m.dtbin, m.nbins, m.nprofiles, m.min_dt, m.max_dt, f.nframes, f.nbins_frame, f.skip_bins_start, f.rebin


@work.kind
class Whole(_M):
    """track, reconstruct, make an image and judge it"""
    name = 'whole'
    tol = 1e-7

    @staticmethod
    def gen(rng):
        p = mparams(rng)
        p['nbins'] = rng.choice([12, 16])
        p['rec'] = rng.randrange(p['nprofiles'] - 1)
        p['niter'] = rng.choice([1, 2])
        return p

    def call(self, cb=None):
        from longitudinal_tomography import shortcuts
        from longitudinal_tomography.data import data_treatment, post_process
        xp, yp = shortcuts.track(self.m, self.p['rec'], callback=cb)
        t = shortcuts.tomogram(self.inputs['waterfall'], xp, yp, self.p['niter'], callback=cb)
        tr, er, d = data_treatment.phase_space(t, self.m, self.p['rec'])
        return t.weight, t.diff, t.recreated, tr, er, d, post_process.emittance_90(d, tr, er)


def preload():
    """imports are not part of what runs simulate"""
    import importlib
    for n in ('shortcuts', 'data.data_treatment', 'data.pre_process', 'data.post_process', 'data.profiles', 'tomography.tomography', 'tomography.tomography_multibunch',
              'tracking.tracking', 'tracking.particles', 'tracking.machine', 'tracking.programs_machine', 'tracking.phase_space_info', 'utils.tomo_input',
              'utils.tomo_output', 'utils.tomo_run', 'utils.tomographics', 'utils.tomo_config', 'utils.physics', 'compat.fortran', 'compat.tomoscope'):
        importlib.import_module('longitudinal_tomography.' + n)
    # pybind11 looks numpy up at the first call, without the interpreter lock
    from . import boot
    boot.rt.begin(gens.SEQ)
    work.make({'kind': 'phase_space', 'npart': 1, 'nbins': 1, 'data': 1, 'prec': 'f8', 'via': 'native'}).call()


@work.kind
class ImageOf(_M):
    """a phase space taken from a finished reconstruction"""
    name = 'image_of'
    tol = 1e-7
    gen = staticmethod(Whole.gen)

    def prepare(self):
        super().prepare()
        from longitudinal_tomography import shortcuts
        xp, yp = shortcuts.track(self.m, self.p['rec'])
        self.t = shortcuts.tomogram(self.inputs['waterfall'], xp, yp, self.p['niter'])
        self.inputs['xp'], self.inputs['yp'], self.inputs['weight'] = self.t.xp, self.t.yp, self.t.weight

    def call(self, cb=None):
        from longitudinal_tomography.data import data_treatment
        from longitudinal_tomography.utils import tomo_output
        t = self.t
        return data_treatment.phase_space(t, self.m, self.p['rec']) + (
            tomo_output.create_phase_space_image(t.xp, t.yp, t.weight, self.m.nbins, self.p['rec']),)


TREAT = ['image_of', 'rebin', 'fit_synch', 'cuts', 'raw_to_profiles', 'self_fields', 'frames', 'post_process', 'tomographics', 'matched_area', 'machine_turns', 'programs_machine',
         'distribution', 'parameter_text', 'whole', 'whole']

"""Computations the simulated programs are made of: inputs, the call, and what
the sequential definition says about its outcome."""
import numpy as np

from . import gens, models
from .prop import Violation

TOL = {'f8': 1e-8, 'f4': 5e-3}
TTOL = {'f8': 1e-6, 'f4': 2e-2}
EPS = {'f8': 1e-4, 'f4': 0.05}
SELFTOL = {'f8': 1e-5, 'f4': 2e-2}
EDGE = {'f8': 1e-5, 'f4': 2e-3}
KINDS = {}


def dt(prec):
    return np.float64 if prec == 'f8' else np.float32


class Job:
    """One computation. p: parameters (JSON)."""
    name = None
    reports_n = None          # number of iterations or turns reported, None: takes no callback
    in_place = ()             # names of inputs that are documented in/out buffers

    def __init__(self, p):
        self.p = p
        self.inputs = {}
        self.prepare()
        self.before = {k: v.copy() for k, v in self.inputs.items()}

    # -- to implement
    @staticmethod
    def gen(rng):
        raise NotImplementedError

    def prepare(self):
        pass

    def call(self, cb=None):
        raise NotImplementedError

    def want(self):
        """list of (name, array, tolerance, floor); may raise models.Degenerate / IllPosed"""
        raise NotImplementedError

    def reports(self):
        return None

    def held(self):
        """results the object of the last call holds"""
        o = getattr(self, 'obj', None)
        d = {}
        for k in ('weight', 'weight_split', 'weight_combined', 'diff', 'diff_split', 'recreated', 'xp', 'waterfall'):
            v = getattr(o, k, None)
            if v is not None:
                d[k] = v
        return d

    def returned(self):
        """called when the code under test is through and its results are about to be collected"""

    # -- judging
    def judge(self, out, exc, R=None, slack=1.0):
        try:
            want = self.want()
        except models.Degenerate:
            if exc is None:
                raise Violation('no-error', '%s returned although nothing is left of the phase space' % self.name)
            return 'degenerate'
        except models.IllPosed:
            return 'ill-posed'
        if exc is not None:
            raise Violation('exception', '%s raised %s: %s' % (self.name, type(exc).__name__, exc))
        if len(out) != len(want):
            raise Violation('wrong-result', '%s returned %d values instead of %d' % (self.name, len(out), len(want)))
        for g, (what, w, tol, floor) in zip(out, want):
            g = np.asarray(g)
            if R is not None:
                R.add(g)
            if g.shape != np.shape(w):
                if g.size != np.size(w):
                    raise Violation('wrong-result', '%s: %s has shape %s instead of %s' % (self.name, what, g.shape, np.shape(w)))
                g = g.reshape(np.shape(w))
            e = models.err(g, w, floor)
            if not e <= tol * slack:
                raise Violation('wrong-result', '%s: %s deviates from the sequential result (relative error %.3g)' % (self.name, what, e))
        return 'ok'

    def inputs_intact(self):
        for k, v in self.inputs.items():
            if k not in self.in_place and not np.array_equal(v, self.before[k], equal_nan=v.dtype.kind == 'f'):
                raise Violation('input-modified', '%s changed its input %s' % (self.name, k))


def kind(cls):
    KINDS[cls.name] = cls
    return cls


def make(p):
    return KINDS[p['kind']](p)


def gen(rng, kinds):
    k = rng.choice(kinds)
    return dict(KINDS[k].gen(rng), kind=k)


def shrink(p):
    """smaller versions of the parameters of a job"""
    lo = {'niter': 0, 'npart': 1, 'nprof': 1, 'nbins': 1, 'ncent': 1, 'dturns': 1}
    if p['kind'].startswith('track') or p['kind'] in ('kick', 'drift', 'shortcut_track'):
        lo['nprof'] = 2
    for k in ('niter', 'npart', 'nprof', 'nbins', 'ncent', 'dturns'):
        if k in p and isinstance(p[k], int):
            for c in gens.shrink_int(p, k, lo[k]):
                if k == 'nprof' and 'rec' in c:
                    c['rec'] = min(c['rec'], c['nprof'] - 1)
                yield c
    if p.get('rec'):
        yield dict(p, rec=0)
    if p.get('layout', 'c') != 'c':
        yield dict(p, layout='c')


def large(rng, p):
    """rarely: sizes beyond the small ones"""
    r = rng.random()
    if r < 0.004:
        p.update(npart=rng.choice([300, 1000, 2500]), nprof=rng.choice([10, 25]), nbins=rng.choice([50, 100]), niter=min(p['niter'], 2))
    elif r < 0.006:
        p.update(npart=rng.choice([5000, 12000, 40000]), nprof=rng.choice([2, 3]), nbins=rng.choice([30, 80, 200]), niter=rng.choice([1, 1, 2]))
    elif r < 0.011:
        p.update(long_axis(rng))
    elif r < 0.0112:
        p.update(npart=rng.choice([100000, 300000]), nprof=rng.choice([2, 4]), nbins=rng.choice([30, 200]), niter=1)
    return p


def long_axis(rng):
    """one dimension far beyond the others"""
    p = {'npart': rng.choice([2, 3, 5]), 'nprof': rng.choice([1, 2, 3]), 'nbins': rng.choice([2, 3, 5]), 'niter': rng.choice([1, 2])}
    k = rng.choice(['nprof', 'nprof', 'nbins', 'niter'])
    p[k] = rng.choice([150, 300, 700, 1300] if k == 'niter' else [300, 700, 1300, 2600])
    return p


# ---------------------------------------------------------------- single bunch
class _Tomo(Job):
    prec = 'f8'

    @staticmethod
    def gen(rng):
        p = gens.tomo_dims(rng)
        p['layout'] = rng.choice(['c', 'c', 'f', 'i8'])
        return large(rng, p)

    def prepare(self):
        p = self.p
        self.prec = p.get('prec', 'f8')
        self.xp, self.wf = gens.tomo_input(p, dt(self.prec))
        self.npart, self.nprof = self.xp.shape
        self.nbins = self.wf.shape[1]
        self.niter = p['niter']
        lay = p.get('layout', 'c')
        self.inputs['xp'] = np.asfortranarray(self.xp) if lay == 'f' else self.xp.astype(np.int64) if lay == 'i8' else self.xp.copy()
        self.inputs['waterfall'] = self.wf.copy()

    def recwant(self, t, tol):
        w, d, rec = t
        return [('weights', w, tol, 1e-300), ('discrepancy', d, tol, 0.1), ('recreated profiles', rec, tol, 0.1)]

    def flat(self):
        return (self.xp + self.nbins * np.arange(self.nprof)[None, :]).astype(np.int32)


@kind
class Reconstruct(_Tomo):
    name = 'reconstruct'

    @staticmethod
    def gen(rng):
        p = _Tomo.gen(rng)
        p['prec'] = rng.choice(['f8', 'f8', 'f4'])
        if p['prec'] == 'f4':
            p['niter'] = min(p['niter'], 3)
        if rng.random() < 0.03:
            p['dk'] = 'dark'
        return p

    def call(self, cb=None):
        from longitudinal_tomography.cpp_routines import libtomo
        a = (self.inputs['xp'], self.inputs['waterfall'], self.niter, self.nbins, self.npart, self.nprof)
        return libtomo.reconstruct(*a) if cb is None else libtomo.reconstruct(*a, callback=cb)

    def want(self):
        return self.recwant(models.reconstruct(self.xp, self.wf, self.niter, eps=EPS[self.prec]), TOL[self.prec])

    def reports(self):
        return [(i + 1, self.niter) for i in range(self.niter)] + [(self.niter, self.niter)]


@kind
class Run(_Tomo):
    name = 'run'

    def build(self):
        from longitudinal_tomography.tomography import tomography
        return tomography.Tomography(self.inputs['waterfall'], self.inputs['xp'])

    def call(self, cb=None):
        t = self.build()
        self.obj = t
        w = t.run(self.niter, callback=cb) if cb is not None else t.run(self.niter)
        if w is not t.weight and not np.array_equal(w, t.weight):
            raise Violation('wrong-result', 'run returned other weights than it stored')
        return w, t.diff, t.recreated

    def want(self):
        return self.recwant(models.reconstruct(self.xp, models.normalise(self.wf), self.niter, eps=EPS[self.prec]), TOL[self.prec])

    reports = Reconstruct.reports


@kind
class Tomogram(Run):
    name = 'tomogram'

    def call(self, cb=None):
        from longitudinal_tomography import shortcuts
        t = shortcuts.tomogram(self.inputs['waterfall'], self.inputs['xp'], self.inputs['xp'], self.niter, callback=cb)
        return t.weight, t.diff, t.recreated


@kind
class Hybrid(Run):
    name = 'hybrid'

    def call(self, cb=None):
        t = self.build()
        self.obj = t
        w = t.run_hybrid(self.niter)
        return w, t.diff, t.recreated

    def want(self):
        return self.recwant(models.reconstruct(self.xp, models.normalise(self.wf), self.niter, accumulate=False, eps=EPS[self.prec]), TOL[self.prec])

    def reports(self):
        return None


@kind
class BackProject(_Tomo):
    name = 'back_project'
    in_place = ('weights',)

    def prepare(self):
        super().prepare()
        del self.inputs['xp']
        self.inputs['points'] = self.flat()
        self.w0 = gens.rs('w', self.p['data']).random(self.npart)
        self.inputs['weights'] = self.w0.copy()

    def call(self, cb=None):
        from longitudinal_tomography.cpp_routines import libtomo
        return (libtomo.back_project(self.inputs['weights'].copy(), self.inputs['points'], self.inputs['waterfall'].astype(np.float64).ravel(),
                                     self.npart, self.nprof),)

    def want(self):
        return [('weights', self.w0 + models.back_project(self.xp, self.wf), TOL['f8'], 1e-300)]


@kind
class Project(BackProject):
    name = 'project'
    in_place = ()

    def call(self, cb=None):
        from longitudinal_tomography.cpp_routines import libtomo
        return (libtomo.project(np.zeros((self.nprof, self.nbins)), self.inputs['points'], self.inputs['weights'], self.npart, self.nprof, self.nbins),)

    def want(self):
        return [('profiles', models.project(self.xp, self.w0, self.nbins), TOL['f8'], 1e-300)]


@kind
class Counts(_Tomo):
    name = 'counts'

    @staticmethod
    def gen(rng):
        p = _Tomo.gen(rng)
        p['prec'] = rng.choice(['f8', 'f8', 'f4'])
        return p

    def call(self, cb=None):
        from longitudinal_tomography.cpp_routines import libtomo
        return (libtomo.count_particles_in_bins(np.zeros((self.nprof, self.nbins), dtype=dt(self.prec)), self.inputs['xp'],
                                                self.nprof, self.npart, self.nbins),)

    def want(self):
        return [('counts', models.counts(self.xp, self.nbins), 0.0, 1.0)]


# ----------------------------------------------------------------- multi bunch
class _Multi(Job):
    @staticmethod
    def gen(rng):
        p = {'npart': rng.choice([2, 3, 5, 8, 13, 20, 33]), 'nprof': rng.choice([1, 2, 3, 4, 6]), 'nbins': rng.choice([3, 5, 8, 12]),
             'niter': rng.choice([0, 1, 2, 3, 4]), 'ncent': rng.choice([1, 2, 2, 3, 3, 4, 5]), 'data': rng.getrandbits(32),
             'gap': rng.choice([0, 0, 1, 3, -1]), 'cut': rng.choice([0, 0, 0, 1]), 'wide': rng.choice([0, 1]),
             'noise': rng.choice([0.0, 0.1])}
        r = rng.random()
        if r < 0.004:
            p.update(npart=rng.choice([200, 800]), nprof=12, nbins=40, niter=2)
        elif r < 0.006:
            p.update(npart=rng.choice([5000, 15000]), nprof=2, nbins=rng.choice([30, 80]), niter=1, ncent=min(p['ncent'], 3))
        elif r < 0.011:
            p.update(long_axis(rng))
            p['nbins'] = max(p['nbins'], 3)
            if rng.random() < 0.25:
                p.update(ncent=rng.choice([20, 70, 150]), nprof=2, nbins=3, niter=1)
        elif r < 0.0111:
            p.update(npart=rng.choice([60000, 150000]), nprof=2, nbins=30, niter=1, ncent=min(p['ncent'], 3))
        return p

    def prepare(self):
        p = self.p
        self.prec = p.get('prec', 'f8')
        g = gens.rs('multi', p['data'])
        npart, nprof, w, nb = p['npart'], p['nprof'], p['nbins'], p['ncent']
        step = max(1, w + p['gap'])
        self.xp = g.integers(0, w, (npart, nprof)).astype(np.int32)
        self.centers = [int(step * b) for b in range(nb)]
        self.nbins = self.centers[-1] + w + p['wide']
        self.cutleft = [c + p['cut'] for c in self.centers]
        self.cutright = [max(l + 1, c + w - p['cut']) for c, l in zip(self.centers, self.cutleft)]
        tw = [g.random(npart) + 0.05 for _ in self.centers]
        wf = sum(models.project(self.xp + c, t, self.nbins) for c, t in zip(self.centers, tw))
        wf = wf * (1 + p['noise'] * g.random(wf.shape)) + 1e-3 * wf.max()
        self.wf = np.ascontiguousarray(wf / wf.sum(axis=1)[:, None], dtype=dt(self.prec))
        self.npart, self.nprof, self.niter, self.nb = npart, nprof, p['niter'], nb
        self.inputs = {'xp': self.xp.copy(), 'waterfall': self.wf.copy(), 'centers': np.array(self.centers, dtype=np.int32),
                       'cutleft': np.array(self.cutleft, dtype=np.int32), 'cutright': np.array(self.cutright, dtype=np.int32)}


@kind
class ReconstructMulti(_Multi):
    name = 'reconstruct_multi'

    @staticmethod
    def gen(rng):
        p = _Multi.gen(rng)
        p['prec'] = rng.choice(['f8', 'f8', 'f4'])
        if p['prec'] == 'f4':
            p['niter'] = min(p['niter'], 2)
        return p

    def call(self, cb=None):
        from longitudinal_tomography.cpp_routines import libtomo
        i = self.inputs
        a = (i['xp'], i['waterfall'], i['cutleft'], i['cutright'], i['centers'], self.niter, self.nbins, self.npart, self.nprof, self.nb)
        w, d, ds, rec = libtomo.reconstruct_multi(*a) if cb is None else libtomo.reconstruct_multi(*a, callback=cb)
        return w, d, np.asarray(ds).reshape(self.niter + 1, self.nb).T, rec

    hybrid = False

    def want(self):
        wf = self.wf if self.name == 'reconstruct_multi' else models.normalise(self.wf)
        w, d, ds, rec = models.reconstruct_multi(self.xp, wf, self.cutleft, self.cutright, self.centers, self.niter,
                                                 hybrid=self.hybrid, eps=EPS[self.prec])
        t = TOL[self.prec]
        return [('weights', w, t, 1e-300), ('discrepancy', d, t, 0.1), ('discrepancy per bunch', ds, t, 0.1), ('recreated profiles', rec, t, 0.1)]

    reports = Reconstruct.reports


@kind
class RunMulti(ReconstructMulti):
    name = 'run_multi'
    gen = staticmethod(_Multi.gen)

    def build(self):
        from longitudinal_tomography.tomography import tomography_multibunch
        return tomography_multibunch.Tomography(self.inputs['waterfall'], self.inputs['xp'])

    def read(self, t):
        self.returned()
        split = np.array(t.weight_split)
        if not np.array_equal(split.ravel(), np.asarray(t.weight_combined).ravel()):
            raise Violation('wrong-result', 'weights per bunch and combined weights differ')
        return split, t.diff, t.diff_split, t.recreated

    def call(self, cb=None):
        t = self.build()
        self.obj = t
        i = self.inputs
        kw = {} if cb is None else {'callback': cb}
        t.run(i['centers'], i['cutleft'], i['cutright'], self.niter, **kw)
        return self.read(t)


@kind
class HybridMulti(RunMulti):
    name = 'hybrid_multi'
    hybrid = True

    def given_centers(self):
        return self.inputs['centers'] if self.p.get('centers') == 'array' else self.centers

    def call(self, cb=None):
        t = self.build()
        self.obj = t
        t.run_hybrid(self.given_centers(), list(zip(self.cutleft, self.cutright)), self.niter)
        return self.read(t)

    def reports(self):
        return None


@kind
class HybridMultiOld(HybridMulti):
    name = 'hybrid_multi_old'

    def call(self, cb=None):
        from longitudinal_tomography.tomography import tomography
        t = tomography.Tomography(self.inputs['waterfall'], self.inputs['xp'])
        w = t.run_hybrid_multi(self.given_centers(), list(zip(self.cutleft, self.cutright)), self.niter)
        return w, t.diff, t.recreated

    def want(self):
        w = super().want()
        return [w[0], w[1], w[3]]


@kind
class CountsMulti(_Multi):
    name = 'counts_multi'

    @staticmethod
    def gen(rng):
        p = _Multi.gen(rng)
        p['prec'] = rng.choice(['f8', 'f4'])
        return p

    def call(self, cb=None):
        from longitudinal_tomography.cpp_routines import libtomo
        return (libtomo.count_particles_in_bins_multi(np.zeros((self.nprof, self.nbins), dtype=dt(self.prec)), self.inputs['xp'],
                                                      self.inputs['centers'], self.nprof, self.npart, self.nbins, self.nb),)

    def want(self):
        return [('counts', models.counts_multi(self.xp, self.centers, self.nbins), 0.0, 1.0)]


# -------------------------------------------------------------------- tracking
class _Track(Job):
    @staticmethod
    def gen(rng):
        p = gens.raw_params(rng)
        p['rec'] = rng.choice([0, 0, rng.randrange(p['nprof']), p['nprof'] - 1])
        p['dt'] = 0
        if rng.random() < 0.15 and p['dturns'] > 1:
            d = rng.randrange(1, p['dturns'])
            d = -d if rng.random() < 0.5 and p['rec'] > 0 else d
            if p['rec'] * p['dturns'] + d < p['dturns'] * (p['nprof'] - 1):
                p['dt'] = d
        r = rng.random()
        if r < 0.004:
            p.update(npart=rng.choice([300, 2000]), dturns=rng.choice([12, 25]), nprof=8)
            p['rec'], p['dt'] = min(p['rec'], 7), 0
        elif r < 0.006:
            p.update(npart=rng.choice([6000, 20000, 70000]), dturns=rng.choice([1, 2]), nprof=2)
            p['rec'], p['dt'] = min(p['rec'], 1), 0
        elif r < 0.008:
            p.update(npart=rng.choice([1, 3]), dturns=rng.choice([100, 150]), nprof=rng.choice([20, 50]), gentle=1, prec='f8')
            p['rec'], p['dt'] = min(p['rec'], 10), 0
        elif r < 0.0082:
            p.update(npart=rng.choice([150000, 400000]), dturns=1, nprof=2)
            p['rec'], p['dt'] = min(p['rec'], 1), 0
        return p


def track_reports(p):
    return None


@kind
class TrackNative(_Track):
    name = 'track_native'
    in_place = ('denergy', 'dphi', 'xp', 'yp')

    @staticmethod
    def gen(rng):
        p = _Track.gen(rng)
        p['prec'] = rng.choice(['f8', 'f8', 'f4']) if not p.get('gentle') else 'f8'
        p['via'] = rng.choice(['tables', 'tables', 'machine'])
        if p['via'] == 'machine':
            p['prec'], p['phi12_array'] = 'f8', False
        if p['prec'] == 'f4':
            p['dturns'] = min(p['dturns'], 3)
            p['nprof'] = min(p['nprof'], 4)
            p['rec'] = min(p['rec'], p['nprof'] - 1)
            p['dt'] = 0
        return p

    def prepare(self):
        p = self.p
        self.prec = p.get('prec', 'f8')
        p['dt'] = p.get('dt', 0) if abs(p.get('dt', 0)) < p['dturns'] else 0
        a = self.a = gens.raw_input(p, dt(self.prec))
        fill = p.get('fill', 0.0)
        self.inputs = {k: a[k].copy() for k in ('dphi', 'denergy', 'rf1', 'rf2', 'phi0', 'dE0', 'drift')}
        if p['phi12_array']:
            self.inputs['phi12'] = a['phi12'].copy()
        self.inputs['xp'] = np.full((p['nprof'], p['npart']), fill, dtype=dt(self.prec))
        self.inputs['yp'] = self.inputs['xp'].copy()

    def call(self, cb=None):
        from longitudinal_tomography.cpp_routines import libtomo
        p, i = self.p, self.inputs
        kw = {} if cb is None else {'callback': cb}
        phi12 = i['phi12'] if p['phi12_array'] else self.a['phi12']
        tail = (p['rec'], p['dt'], self.a['nturns'], p['npart'])
        if p.get('via') == 'machine':
            class M:
                pass
            m = M()
            m.phi0, m.deltaE0, m.drift_coef, m.phi12, m.h_ratio, m.dturns = i['phi0'], i['dE0'], i['drift'], phi12, p['hr'], p['dturns']
            out = libtomo.kick_and_drift(i['xp'], i['yp'], i['denergy'], i['dphi'], i['rf1'], i['rf2'], m, *tail, **kw)
        else:
            out = libtomo.kick_and_drift(i['xp'], i['yp'], i['denergy'], i['dphi'], i['rf1'], i['rf2'], i['phi0'], i['dE0'], i['drift'],
                                         phi12, p['hr'], p['dturns'], *tail, **kw)
        return out

    def model(self):
        p, a = self.p, self.a
        return models.track(a['dphi'], a['denergy'], a['rf1'], a['rf2'], a['phi0'], a['dE0'], a['drift'], a['phi12'], p['hr'],
                            p['dturns'], p['rec'], a['nturns'], p['dt'])

    def want(self):
        X, Y, _ = self.model()
        X, Y = np.nan_to_num(X, nan=self.p.get('fill', 0.0)), np.nan_to_num(Y, nan=self.p.get('fill', 0.0))
        t = TTOL[self.prec]
        return [('phase', X, t, 1.0), ('energy', Y, t, 1e5)]

    def reports(self):
        n = self.model()[2]
        return [(i + 1, n) for i in range(n)]

    def filled(self, k):
        """profiles that must be complete when report k (1, 2, ...) arrives"""
        p = self.p
        turn = p['rec'] * p['dturns'] + p['dt']
        prof = p['rec'] - (1 if p['dt'] < 0 else 0)
        out = [prof] if p['dt'] == 0 else []
        n = 0
        while turn < self.a['nturns'] and n < k:
            turn += 1
            n += 1
            if turn % p['dturns'] == 0:
                prof += 1
                out.append(prof)
        turn, prof = p['rec'] * p['dturns'], p['rec']
        while turn > 0 and n < k:
            turn -= 1
            n += 1
            if turn % p['dturns'] == 0:
                prof -= 1
                out.append(prof)
        return out


class _Machine(Job):
    """tracking through a machine object"""
    prec = 'f8'

    @staticmethod
    def gen(rng):
        p = gens.machine_params(rng)
        p['rec'] = rng.randrange(p['nprofiles'] - 1)
        p['distr'] = rng.choice(['auto', 'user', 'user'])
        p['npart'] = rng.choice([1, 2, 5, 12, 30])
        p['data'] = rng.getrandbits(32)
        return p

    def prepare(self):
        p = self.p
        p['rec'] = min(p['rec'], p['nprofiles'] - 2)
        self.m = gens.machine(p)
        if p['distr'] == 'user':
            g = gens.rs('distr', p['data'])
            self.inputs['dphi'] = g.uniform(-1, 1, p['npart'])
            self.inputs['denergy'] = g.uniform(-5e5, 5e5, p['npart'])
        for k in ('phi0', 'deltaE0', 'drift_coef', 'omega_rev0', 'vrf1_at_turn', 'vrf2_at_turn', 'time_at_turn', 'e0', 'beta0', 'eta0'):
            self.inputs['machine.' + k] = getattr(self.m, k)

    def start(self):
        """the distribution the tracking starts from"""
        if self.p['distr'] == 'user':
            return self.before['dphi'].copy(), self.before['denergy'].copy()
        from longitudinal_tomography.tracking import particles
        m = gens.machine(self.p)
        q = particles.Particles()
        q.homogeneous_distribution(m, self.p['rec'])
        a, b = q.coordinates_dphi_denergy
        return np.array(a), np.array(b)

    def init(self):
        return (self.inputs['dphi'], self.inputs['denergy']) if self.p['distr'] == 'user' else None

    def model(self):
        m = self.m
        x, y = self.start()
        return models.track(x, y, m.vrf1_at_turn * m.q, m.vrf2_at_turn * m.q, m.phi0, m.deltaE0, m.drift_coef, m.phi12, m.h_ratio,
                            m.dturns, self.p['rec'], m.dturns * (m.nprofiles - 1), self.p.get('delta', 0))


@kind
class Track(_Machine):
    name = 'track'

    @staticmethod
    def gen(rng):
        p = _Machine.gen(rng)
        if rng.random() < 0.1 and p['dturns'] > 1:
            p['delta'] = rng.randrange(1, p['dturns'])
            if rng.random() < 0.5 and p['rec'] > 0:
                p['delta'] *= -1
        p['neg'] = rng.random() < 0.1
        return p

    def start(self):
        if self.p['distr'] == 'user':
            return super().start()
        from longitudinal_tomography.tracking import particles
        q = particles.Particles()
        q.homogeneous_distribution(gens.machine(self.p), self.p['rec'], self.p.get('delta', 0))
        return tuple(np.array(a) for a in q.coordinates_dphi_denergy)

    def prepare(self):
        super().prepare()
        if abs(self.p.get('delta', 0)) >= self.p['dturns']:
            self.p['delta'] = 0
        if self.p.get('delta', 0) < 0 and self.p['rec'] == 0:
            self.p['delta'] = 0

    def call(self, cb=None):
        p = self.p
        t = self.obj = self.build()
        rec = p['rec'] - p['nprofiles'] if p.get('neg') and not p.get('delta') else p['rec']
        kw = {} if cb is None else {'callback': cb}
        if p.get('delta'):
            kw['deltaturn'] = p['delta']
        return t.track(rec, self.init(), **kw)

    def build(self):
        from longitudinal_tomography.tracking.tracking import Tracking
        return Tracking(self.m)

    def want(self):
        X, Y, _ = self.model()
        X, Y = np.nan_to_num(X, nan=0.0), np.nan_to_num(Y, nan=0.0)
        return [('phase', X, TTOL[self.prec], 1.0), ('energy', Y, TTOL[self.prec], 1e5)]

    def reports(self):
        n = self.model()[2]
        return [(i + 1, n) for i in range(n)]


@kind
class TrackHybrid(_Machine):
    name = 'track_hybrid'

    @staticmethod
    def gen(rng):
        p = _Machine.gen(rng)
        p['distr'] = 'user'
        p['rec'] = rng.randrange(p['nprofiles'])
        return p

    def prepare(self):
        r = self.p['rec']
        super().prepare()
        self.p['rec'] = min(r, self.p['nprofiles'] - 1)

    def call(self, cb=None):
        from longitudinal_tomography.tracking.tracking import Tracking
        t = Tracking(self.m)
        m = self.m
        return t.kick_and_drift(self.inputs['denergy'], self.inputs['dphi'], m.vrf1_at_turn * m.q, m.vrf2_at_turn * m.q, self.p['rec'])

    want = Track.want


@kind
class TrackSelf(_Machine):
    name = 'track_self'

    @staticmethod
    def gen(rng):
        p = _Machine.gen(rng)
        p['selffield'] = True
        p['distr'] = 'auto'
        p['snpt'] = 1
        return p

    def fields(self, m):
        from longitudinal_tomography.data.profiles import Profiles
        pr = Profiles(m, m.dtbin, gens.waterfall(m.nprofiles, m.nbins, self.p['data']))
        pr.calc_profilecharge()
        pr.calc_self_fields()
        return pr

    def prepare(self):
        super().prepare()
        self.pr = self.fields(self.m)
        self.inputs['vself'] = self.pr.vself
        self.inputs['profiles'] = self.pr.waterfall

    def call(self, cb=None):
        from longitudinal_tomography.tracking.tracking import Tracking
        t = Tracking(self.m)
        self.obj = t
        t.enable_self_fields(self.pr)
        return t.track(self.p['rec']) if cb is None else t.track(self.p['rec'], callback=cb)

    def reports(self):
        n = self.m.dturns * (self.m.nprofiles - 1)
        return [(i + 1, n) for i in range(n)]

    def want(self):
        from longitudinal_tomography.tracking import particles
        m = gens.machine(self.p)
        q = particles.Particles()
        q.homogeneous_distribution(m, self.p['rec'])
        x, y = (np.array(a) for a in q.coordinates_dphi_denergy)
        X, Y = models.track_self(x, y, m, self.before['vself'], self.pr.phiwrap, q.xorigin, q.dEbin, self.p['rec'])
        return [('x', X, SELFTOL[self.prec], 1.0), ('y', Y, SELFTOL[self.prec], 1.0)]


@kind
class ShortcutTrack(Track):
    name = 'shortcut_track'

    @staticmethod
    def gen(rng):
        p = _Machine.gen(rng)
        p['distr'] = 'auto'
        return p

    def call(self, cb=None):
        from longitudinal_tomography import shortcuts
        kw = {} if cb is None else {'callback': cb}
        return shortcuts.track(self.m, self.p['rec'], **kw)

    def want(self):
        from longitudinal_tomography.tracking import particles
        X, Y, _ = self.model()
        m = gens.machine(self.p)
        q = particles.Particles()
        q.homogeneous_distribution(m, self.p['rec'])
        turns = np.arange(m.nprofiles) * m.dturns
        x = (X + m.phi0[turns][:, None]) / (m.h_num * m.omega_rev0[turns][:, None] * m.dtbin) - q.xorigin
        y = Y / q.dEbin + m.synch_part_y
        keep = np.all((x >= 0) & (x < m.nbins), axis=0)
        if not keep.any():
            raise models.Degenerate
        f = np.abs(np.concatenate([x.ravel() - np.rint(x.ravel()), (y[:, keep]).ravel() - np.rint(y[:, keep].ravel())]))
        if f.min() < EDGE[self.prec]:
            raise models.IllPosed
        return [('x bins', x[:, keep].astype(int).T, 0.0, 1.0), ('y bins', y[:, keep].astype(int).T, 0.0, 1.0)]


@kind
class Kick(Job):
    name = 'kick'
    in_place = ('denergy', 'dphi')

    @staticmethod
    def gen(rng):
        p = gens.raw_params(rng)
        p.update(turn=rng.randrange(0, p['dturns'] * (p['nprof'] - 1) + 1), up=rng.random() < 0.5, via=rng.choice(['machine', 'plain']),
                 phi12_array=False)
        return p

    def prepare(self):
        p = self.p
        self.a = gens.raw_input(p)
        p['turn'] = min(p['turn'], self.a['nturns'])
        self.inputs = {k: self.a[k].copy() for k in ('dphi', 'denergy', 'rf1', 'rf2', 'phi0', 'dE0', 'drift')}

    def call(self, cb=None):
        from longitudinal_tomography.cpp_routines import libtomo
        p, i, t = self.p, self.inputs, self.p['turn']
        if p['via'] == 'machine':
            class M:
                pass
            m = M()
            m.phi0, m.deltaE0, m.phi12, m.h_ratio = i['phi0'], i['dE0'], self.a['phi12'], p['hr']
            return (libtomo.kick(m, i['denergy'].copy(), i['dphi'].copy(), i['rf1'], i['rf2'], p['npart'], t, p['up']),)
        e = i['denergy'].copy()
        f = libtomo.kick_up if p['up'] else libtomo.kick_down
        f(i['dphi'].copy(), e, i['rf1'][t], i['rf2'][t], i['phi0'][t], self.a['phi12'], p['hr'], p['npart'], i['dE0'][t])
        return (e,)

    def want(self):
        a, t, s = self.a, self.p['turn'], 1 if self.p['up'] else -1
        k = models.kick(a['dphi'], None, a['rf1'][t], a['rf2'][t], a['phi0'][t], a['phi12'], self.p['hr'], a['dE0'][t])
        return [('energy', a['denergy'] + s * k, TTOL['f8'], 1.0)]


@kind
class Drift(Kick):
    name = 'drift'

    @staticmethod
    def gen(rng):
        p = Kick.gen(rng)
        p['turn'] = rng.randrange(0, p['dturns'] * (p['nprof'] - 1))
        return p

    def call(self, cb=None):
        from longitudinal_tomography.cpp_routines import libtomo
        p, i, t = self.p, self.inputs, self.p['turn']
        x = i['dphi'].copy()
        if p['via'] == 'machine':
            return (libtomo.drift(i['denergy'], x, i['drift'], p['npart'], t, p['up']),)
        f = libtomo.drift_up if p['up'] else libtomo.drift_down
        f(x, i['denergy'], i['drift'][t], p['npart'])
        return (x,)

    def want(self):
        a, t, s = self.a, self.p['turn'], -1 if self.p['up'] else 1
        return [('phase', a['dphi'] + s * a['drift'][t] * a['denergy'], TTOL['f8'], 1.0)]


# --------------------------------------------------------- images, data treatment
@kind
class PhaseSpace(Job):
    name = 'phase_space'

    @staticmethod
    def gen(rng):
        big = rng.random() < 0.01
        return {'npart': rng.choice([300, 3000, 20000, 150000] if big else [1, 2, 5, 20, 60]),
                'nbins': rng.choice([50, 200, 300] if big else [1, 2, 3, 5, 8, 20]), 'data': rng.getrandbits(32), 'prec': rng.choice(['f8', 'f8', 'f4']), 'via': rng.choice(['native', 'coords', 'image'])}

    def prepare(self):
        p = self.p
        g = gens.rs('ps', p['data'])
        self.inputs = {'xp': g.integers(0, p['nbins'], p['npart']).astype(np.int32), 'yp': g.integers(0, p['nbins'], p['npart']).astype(np.int32),
                       'weights': (g.random(p['npart']) + 0.01).astype(dt(p['prec']))}

    def call(self, cb=None):
        p, i = self.p, self.inputs
        if p['via'] == 'native':
            from longitudinal_tomography.cpp_routines import libtomo
            return (libtomo.make_phase_space(i['xp'], i['yp'], i['weights'], p['nbins']),)
        if p['via'] == 'coords':
            from longitudinal_tomography.data import data_treatment
            t, e, d = data_treatment.phase_space_from_coordinates(i['xp'], i['yp'], i['weights'], p['nbins'], 1.5, 2.5, 2.0, 3.0)
            return (d, t, e)
        from longitudinal_tomography.utils import tomo_output
        return (tomo_output.create_phase_space_image(np.stack([i['xp'] * 0, i['xp']], axis=1), np.stack([i['yp'] * 0, i['yp']], axis=1),
                                                     i['weights'], p['nbins'], 1),)

    def want(self):
        p, i = self.p, self.before
        d = models.phase_space(i['xp'], i['yp'], i['weights'], p['nbins'])
        t = TOL[p['prec']]
        if p['via'] == 'native':
            return [('image', d, t, 1e-300)]
        if p['via'] == 'coords':
            return [('density', d, t, 1e-300), ('t', (np.arange(p['nbins']) - 1.5) * 2.0, 1e-12, 1.0), ('E', (np.arange(p['nbins']) - 2.5) * 3.0, 1e-12, 1.0)]
        return [('image', d / d.sum(), t, 1e-300)]


SINGLE = ['reconstruct'] * 4 + ['run'] * 2 + ['tomogram', 'hybrid', 'back_project', 'project', 'counts']
MULTI = ['reconstruct_multi'] * 4 + ['run_multi'] * 2 + ['hybrid_multi', 'hybrid_multi_old', 'counts_multi', 'counts_multi']
TRACK = ['track_native'] * 6 + ['track', 'track', 'track_hybrid', 'track_self', 'shortcut_track', 'kick', 'drift']
WITH_REPORTS = ['reconstruct', 'run', 'tomogram', 'reconstruct_multi', 'run_multi', 'track_native', 'track_native', 'track', 'shortcut_track', 'track_self']
ALL = ['reconstruct', 'run', 'tomogram', 'hybrid', 'back_project', 'project', 'counts', 'reconstruct_multi', 'run_multi', 'hybrid_multi',
       'hybrid_multi_old', 'counts_multi', 'track_native', 'track_native', 'track', 'track_hybrid', 'track_self', 'shortcut_track', 'kick', 'drift',
       'phase_space', 'phase_space']

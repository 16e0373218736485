"""Scenario inputs: everything is regenerated from small parameters."""
import numpy as np


def rs(*key):
    import hashlib
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], 'little'))


def sched(rng, big=False, junk=False):
    """A swarm of scheduler configurations."""
    s = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 7])
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 7, 8, 12, 16, 64] if big else [1, 2, 2, 3, 3, 4, 5, 8, 12])
    return {'seed': rng.getrandbits(40), 'strategy': s, 'p': round(rng.random(), 3),
            'mean': rng.choice([1, 2, 3, 5, 10, 30, 100, 1000]), 'depth': rng.choice([1, 2, 3, 5, 10]),
            'nthreads': n, 'short_team': rng.choice([0.0, 0.0, 0.3, 1.0]),
            'junk': rng.choice([0, 1, 2, 4]) if junk else rng.choice([0, 1, 2, 3, 4])}


SEQ = {'seed': 1, 'strategy': 0, 'nthreads': 1, 'junk': 0}


def tomo_dims(rng):
    return {'npart': rng.choice([1, 2, 3, 5, 8, 13, 20, 33, 60]), 'nprof': rng.choice([1, 2, 3, 4, 6, 9]),
            'nbins': rng.choice([1, 2, 3, 5, 8, 12, 20]), 'niter': rng.choice([0, 1, 2, 3, 5]),
            'data': rng.getrandbits(32), 'dk': rng.choice(['random', 'true', 'true', 'noisy', 'noisy', 'smooth', 'sparse', 'clustered'])}


def tomo_input(d, dtype=np.float64):
    """xp (npart, nprof) int32, normalised waterfall (nprof, nbins)"""
    g = rs('tomo', d['data'])
    npart, nprof, nbins = d['npart'], d['nprof'], d['nbins']
    k = d.get('dk', 'random')
    if k == 'clustered':
        c = g.integers(0, nbins, nprof)
        xp = np.clip(c[None, :] + g.integers(-1, 2, (npart, nprof)), 0, nbins - 1)
    else:
        xp = g.integers(0, nbins, (npart, nprof))
    if k in ('true', 'noisy'):
        w = g.random(npart) + 0.05
        wf = np.array([np.bincount(xp[:, j], weights=w, minlength=nbins) for j in range(nprof)])
        if k == 'noisy':
            wf = wf * (1 + 0.2 * g.random(wf.shape)) + 0.01 * wf.max() * g.random(wf.shape)
    elif k == 'smooth':
        x = np.arange(nbins)
        wf = np.exp(-((x[None, :] - nbins / 2 - g.normal(0, 1, (nprof, 1))) / (nbins / 4 + 0.3)) ** 2)
    elif k == 'sparse':
        wf = g.random((nprof, nbins)) * (g.random((nprof, nbins)) < 0.4)
        wf[:, g.integers(0, nbins)] += 0.2
    else:
        wf = g.random((nprof, nbins)) + 1e-3
    if k == 'dark':
        wf = np.zeros((nprof, nbins + 1))
        wf[:, nbins] = 1.0
    wf = wf / wf.sum(axis=1)[:, None]
    return np.ascontiguousarray(xp, dtype=np.int32), np.ascontiguousarray(wf, dtype=dtype)


MACHINE = dict(output_dir='/nonexistent/', demax=-1.E+6, filmstart=0, filmstop=0, filmstep=1,
               full_pp_flag=False, beam_ref_frame=0, machine_ref_frame=0, vrf1=2637.197030932989, vrf1dot=0.0, vrf2=0.0, vrf2dot=0.0,
               h_num=1, h_ratio=2.0, phi12=0.4007821253666541, b0=0.15722, bdot=0.7949999999999925,
               mean_orbit_rad=25.0, bending_rad=8.239, trans_gamma=4.1, rest_energy=0.93827231E+9, charge=1,
               self_field_flag=False, g_coupling=0.0, zwall_over_n=0.0, pickup_sensitivity=0.36)


def machine_params(rng):
    return {'nbins': rng.choice([8, 12, 16, 24]), 'nprofiles': rng.choice([2, 3, 4, 5, 7]), 'dturns': rng.choice([1, 2, 3, 5]),
            'snpt': rng.choice([1, 1, 2]), 'vrf2': rng.choice([0.0, 0.0, 800.0]), 'bdot': rng.choice([0.0, 0.795]),
            'mref': rng.randrange(2), 'film': rng.randrange(2), 'vrf1': rng.choice([2637.197, 1800.0, 5000.0]),
            'demax': rng.choice([-1e6, -1e6, 6e5]), 'full_pp': rng.random() < 0.2, 'phi12': rng.choice([0.4, 0.0, -0.3]),
            'vrf1dot': rng.choice([0.0, 0.0, 1e5])}


def machine(p, turns=True, **over):
    from longitudinal_tomography.tracking.machine import Machine
    nb = p['nbins']
    kw = dict(MACHINE)
    kw.update(dtbin=7.6e-7 / nb, nbins=nb, nprofiles=p['nprofiles'], dturns=p['dturns'], snpt=p['snpt'],
              synch_part_x=nb * 334.0 / 760.0, vrf2=p['vrf2'], bdot=p['bdot'], niter=p.get('niter', 3),
              machine_ref_frame=min(p['mref'], p['nprofiles'] - 1), filmstart=min(p['film'], p['nprofiles'] - 2),
              vrf1=p['vrf1'], demax=p['demax'], full_pp_flag=p['full_pp'], phi12=p['phi12'], vrf1dot=p['vrf1dot'],
              min_dt=0.0, max_dt=7.6e-7)
    kw['filmstop'] = kw['filmstart']
    if p.get('selffield'):
        kw.update(g_coupling=1.0, zwall_over_n=50.0)
    kw.update(over)
    m = Machine(**kw)
    if turns:
        m.values_at_turns()
    return m


def raw_params(rng):
    """inputs of the native tracking loop that need no machine"""
    return {'npart': rng.choice([1, 2, 3, 7, 16, 33]), 'dturns': rng.choice([1, 2, 3, 5]), 'nprof': rng.choice([2, 3, 4, 6]),
            'data': rng.getrandbits(32), 'hr': rng.choice([1.0, 2.0, 3.5]), 'phi12_array': rng.random() < 0.4,
            'q': rng.choice([1.0, 1.0, -1.0, 2.0])}


def raw_input(p, dtype=np.float64):
    g = rs('track', p['data'])
    nt = p['dturns'] * (p['nprof'] - 1)
    n = p['npart']
    a = {'dphi': g.uniform(-2, 2, n), 'denergy': g.uniform(-1e6, 1e6, n),
         'rf1': p['q'] * (3000 + g.uniform(-100, 100, nt + 1)) * 10, 'rf2': p['q'] * g.uniform(-8000, 8000, nt + 1),
         'phi0': 0.3 + g.uniform(-.1, .1, nt + 1), 'dE0': g.uniform(-900, 900, nt + 1), 'drift': 2e-7 * (1 + g.uniform(-.2, .2, nt + 1))}
    if p.get('gentle'):
        a['drift'] = a['drift'] * 0.01
        a['dphi'] = a['dphi'] * 0.3
        a['rf2'] = a['rf2'] * 0.1
    a = {k: np.ascontiguousarray(v, dtype=dtype) for k, v in a.items()}
    a['phi12'] = np.ascontiguousarray(g.uniform(-.5, .5, nt + 1), dtype=dtype) if p['phi12_array'] else float(dtype(g.uniform(-.5, .5)))
    a['nturns'] = nt
    return a


def waterfall(nprof, nbins, data):
    """bunch-like measured profiles"""
    g = rs('wf', data)
    x = np.arange(nbins)
    c = nbins * 334.0 / 760.0 + g.normal(0, nbins / 60.0, (nprof, 1))
    w = np.exp(-((x[None, :] - c) / (nbins / 7.0)) ** 2) * (1 + 0.05 * g.normal(size=(nprof, 1)))
    return w + 0.01 * g.random((nprof, nbins))


def shrink_int(d, key, lo, steps=(2,)):
    """candidates with d[key] made smaller"""
    v = d.get(key)
    if isinstance(v, bool) or not isinstance(v, int) or v <= lo:
        return
    for c in sorted({lo, (lo + v) // 2, v - 1}):
        if c < v:
            e = dict(d)
            e[key] = c
            yield e

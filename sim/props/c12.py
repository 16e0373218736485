"""A full run, seen by the consumer of its standard output and its files."""
import os

import numpy as np

from .. import boot, files, gens, iosim, oracle, treat
from ..prop import Prop, Violation
from . import c11

ENTRIES = ['run', 'run', 'run', 'run', 'main', 'self', 'turns']
TRACKING = ' Tracking from time slice  %d to  %d,   0.000%% went outside the image width.'


def direct(p, par, values):
    """the parts one after the other, in a process of its own"""
    from longitudinal_tomography.data import data_treatment
    from longitudinal_tomography.tomography import tomography
    from longitudinal_tomography.tracking import particles, tracking
    from longitudinal_tomography.utils import tomo_input
    boot.rt.begin(gens.SEQ)
    m, f = tomo_input.txt_input_to_machine(list(par))
    m.values_at_turns()
    q = tomo_input.raw_data_to_profiles(f.to_waterfall(np.array(values)), m, f.rebin, f.sampling_time)
    q.calc_profilecharge()
    if m.synch_part_x < 0:
        m.load_fitted_synch_part_x_ftn(data_treatment.fit_synch_part_x(q))
    t = tracking.Tracking(m)
    rec = m.filmstart if p['rec'] is None else p['rec']
    if p['entry'] == 'self':
        q.calc_self_fields()
        t.enable_self_fields(q)
    xp, yp = t.track(rec)
    fit = [0.0 if getattr(m, k, None) is None else float(getattr(m, k)) for k in ('bunchlimit_low', 'bunchlimit_up', 'fitted_synch_part_x')]
    if any(getattr(m, k, None) is None for k in ('bunchlimit_low', 'bunchlimit_up', 'fitted_synch_part_x')):
        fit = [0.0] * 3
    info = dict(nprofiles=m.nprofiles, nbins=m.nbins, dtbin=m.dtbin, dE=float(t.particles.dEbin), charge=float(q.profile_charge), x=float(m.synch_part_x), y=float(m.synch_part_y),
                fit=fit, film=m.filmstart, phi0=float(m.phi0[m.filmstart * m.dturns]), imin=int(t.particles.imin), imax=int(t.particles.imax))
    if p['entry'] in ('self', 'turns'):
        return {'xp': np.array(xp), 'yp': np.array(yp), 'info': info, 'rec': rec}
    xp, yp = particles.physical_to_coords(xp, yp, m, t.particles.xorigin, t.particles.dEbin)
    xp, yp = particles.ready_for_tomography(xp, yp, m.nbins)
    o = tomography.Tomography(q.waterfall, xp, yp)
    w = np.array(o.run(niter=m.niter))
    return {'xp': np.array(xp), 'yp': np.array(yp), 'weight': w, 'diff': np.array(o.diff), 'waterfall': np.array(o.waterfall), 'info': info, 'rec': rec,
            't': (np.arange(m.nbins) - m.synch_part_x) * m.dtbin, 'E': (np.arange(m.nbins) - m.synch_part_y) * m.dEbin,
            'films': list(range(m.filmstart, m.filmstop + 1, m.filmstep)), 'niter': m.niter}


def image(ref, k, n):
    im = np.zeros((n, n))
    np.add.at(im, (ref['xp'][:, k], ref['yp'][:, k]), ref['weight'])
    im = im.clip(0.0)
    return im / im.sum()


def plotinfo(i):
    """lines of the plot information"""
    k = i['film'] + 1
    return [' plotinfo.data',
            'Number of profiles used in each reconstruction,', ' profilecount = %d' % i['nprofiles'],
            'Width (in pixels) of each image = length (in bins) of each profile,', ' profilelength = %d' % i['nbins'],
            'Width (in s) of each pixel = width of each profile bin,', ' dtbin = %.4E' % i['dtbin'],
            'Height (in eV) of each pixel,', ' dEbin = %.4E' % i['dE'],
            'Number of elementary charges in each image,', ' eperimage = %.3E' % i['charge'],
            'Position (in pixels) of the reference synchronous point:', ' xat0 =  %.3f' % i['x'], ' yat0 =  %.3f' % i['y'],
            'Foot tangent fit results (in bins):', ' tangentfootl =    %.3f' % i['fit'][0], ' tangentfootu =    %.3f' % i['fit'][1], ' fit xat0 =   %.3f' % i['fit'][2],
            'Synchronous phase (in radians):', ' phi0( %d) = %.4f' % (k, i['phi0']),
            'Horizontal range (in pixels) of the region in phase space of map elements:', ' imin( %d) =   %d and imax( %d) =  %d' % (k, i['imin'], k, i['imax'])]


def expected_lines(p, ref):
    """(line, group): lines of one group that report work arrive one by one"""
    n, r = ref['info']['nprofiles'], ref['rec']
    out = [(' Start', None)] if p['entry'] in ('run', 'main') else []
    if p['entry'] != 'turns':
        out += [(x, None) for x in plotinfo(ref['info'])]
    out += [(TRACKING % (r + 1, k + 1), 'track') for k in range(r + 1, n)]
    out += [(TRACKING % (r + 1, k + 1), 'track') for k in range(r - 1, -1, -1)]
    if p['entry'] in ('run', 'main'):
        out += [(' Iterating...', None)] + [('%3d' % (k + 1), 'iterate') for k in range(ref['niter'])] + [(' Done!', None)]
    return out


def work(p, where, out, sched):
    """in the simulated process"""
    import importlib
    import sys
    boot.rt.begin(sched)
    if p['entry'] in ('self', 'turns'):
        from longitudinal_tomography.tracking import tracking
        from longitudinal_tomography.utils import tomo_input
        par, data = tomo_input.get_user_input(where)
        m, f = tomo_input.txt_input_to_machine(par)
        m.values_at_turns()
        q = tomo_input.raw_data_to_profiles(f.to_waterfall(data), m, f.rebin, f.sampling_time)
        q.calc_profilecharge()
        t = tracking.Tracking(m)
        r = m.filmstart if p['rec'] is None else p['rec']
        if p['entry'] == 'turns':
            t.particles.homogeneous_distribution(m, r)
            a, b = t.particles.coordinates_dphi_denergy
            t.enable_fortran_output(q.profile_charge)
            x, y = t.kick_and_drift(np.array(b), np.array(a), m.vrf1_at_turn * m.q, m.vrf2_at_turn * m.q, r)
            return [np.array(x), np.array(y)]
        if p['tomoscope']:
            t.enable_fortran_output(q.profile_charge)
        q.calc_self_fields()
        t.enable_self_fields(q)
        return [np.array(v) for v in t.track(r)]
    if p['entry'] == 'run':
        from longitudinal_tomography.utils import tomo_run
        kw = {} if p['rec'] is None else {'reconstruct_profile': p['rec']}
        return [np.array(v) for v in tomo_run.run(where, output_dir=out, tomoscope=p['tomoscope'], **kw)]
    import runpy
    sys.argv = ['longitudinal_tomography', where] + (['-t'] if p['tomoscope'] else []) + (['-o', out] if out else [])
    runpy.run_module('longitudinal_tomography', run_name='__main__', alter_sys=False)
    return None


def close(a, b, tol=1e-6):
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol * max(1e-300, float(np.max(np.abs(b))) if b.size else 0.0), equal_nan=True)


class P(Prop):
    id = 'C12'
    runs = {'quick': 5000, 'thorough': 100000}
    timeout = 120.0
    real = ['Python code of /repo', 'C++ extension sources of /repo (-O0 and -O2)', 'Python I/O library, C stdio and iostream buffers, libc', 'files in a scratch directory']
    stub = ['standard input and output (simulated pipes)', 'outcome of every file system call below the scratch directory (seccomp seam)', 'OpenMP runtime (fibers under a seeded scheduler)']
    assumptions = ['a delivered line is one that a write call on standard output has taken']
    rule = ('A run draws an input (file or pipe), an entry point (run, command line, tracking with self-fields, tracking turn by turn), films, a thread schedule, fragmentation and '
            'buffering of the pipes, limited room on the disk and failing system calls. The bytes on standard output with the native work clock of each delivery, the files and the returned '
            'arrays are compared with the parts called one after the other in another process. Non-trivial: a fault, a fragmentation or a preemption took effect; distinct: entry, schedule, faults, outcome.')

    def setup(self, env):
        treat.preload()
        import runpy                                    # noqa
        from longitudinal_tomography.utils import tomo_run          # noqa
        iosim.lib()
        import argparse                                 # noqa
        self.oracle = oracle.Oracle()

    def gen(self, rng, i, tier):
        nb = rng.choice([22, 23, 24, 30])
        n = rng.choice([2, 3, 4, 5])
        p = {'nprofiles': n, 'nbins': nb, 'data': rng.getrandbits(30), 'entry': rng.choice(ENTRIES), 'tomoscope': rng.random() < 0.85, 'channel': rng.choice(['file', 'pipe', 'file+data']),
             'rec': rng.choice([None, None, None, 0, 0, min(1, n - 2), n - 2]), 'keep_open': rng.random() < 0.5, 'out': rng.choice(['arg', 'arg', 'file'])}
        if p['entry'] == 'main':
            p['rec'] = None
        if p['entry'] == 'turns':
            p['tomoscope'] = True
        par = {'niter': rng.choice([1, 1, 2, 3, 5, 11]), 'dturns': rng.choice([1, 2, 4]), 'demax': rng.choice(['-1.E6', '-1.E6', '2.E6'])}
        par['filmstart'] = rng.randint(1, n - 1)
        par['filmstop'] = rng.randint(par['filmstart'], n)
        par['filmstep'] = rng.randint(1, par['filmstop'] - par['filmstart'] + 1)
        if rng.random() < 0.3 and p['entry'] in ('run', 'main'):
            par['synch'] = '-1.0'
        if rng.random() < 0.3:
            par['vrf2'] = 900
        if rng.random() < 0.2:
            par['snpt'] = 2
        if rng.random() < 0.2:
            par['beam_ref'] = par['machine_ref'] = 2
        if p['entry'] == 'self':
            par.update(g='1.0', z='50.0', self_field=1)
        c = {'seed': rng.getrandbits(30), 'unbuffered': rng.random() < 0.3}
        if rng.random() < 0.6:
            c['frag_in'] = rng.choice([3, 100, 1000])
            if not c['unbuffered']:          # Python itself loses the rest of a short write there
                c['frag_out'] = rng.choice([1, 5, 40])
            c['frag_file'] = rng.choice([50, 700, 5000])
        if rng.random() < 0.2:
            c['eintr'] = rng.choice([20000, 200000])
        if rng.random() < 0.2:
            c['disk_u'] = rng.random()
        s = {'p': p, 'par': par, 'cfg': c, 'sched': gens.sched(rng), 'faults': [], 'cut': None}
        if rng.random() < 0.45:
            for _ in range(rng.choice([1, 1, 2])):
                cl = rng.choice(['write', 'write', 'write', 'write', 'read', 'open', 'close'])
                s['faults'].append({'cls': cl, 'u': rng.random(), 'act': rng.choice(['short', 'EIO', 'EPIPE', 'ENOSPC'] if cl == 'write' else ['EIO'] if cl == 'close' else ['EIO', 'EACCES'] if cl == 'open' else ['EIO', 'short']),
                                    'arg': rng.choice([1, 2, 10])})
        if c['unbuffered']:
            for f in s['faults']:
                if f['cls'] == 'write' and f['act'] == 'short':
                    f['act'] = 'EIO'
        if rng.random() < 0.06:
            s['cut'] = rng.random()
        return s

    def run(self, s, env, R):
        p = s['p']
        boot.rt.begin(gens.SEQ)
        root = env.scratch()
        out = os.path.join(root, 'out')
        os.makedirs(out)
        inline = '+data' not in p['channel']
        dp = os.path.join(root, 'measured.dat')
        given = p['out'] == 'arg'
        par = files.parameters(p, data_file='pipe' if inline else dp, output_dir=(os.path.join(root, 'elsewhere') if given else out) + '/', **s['par'])
        values = files.measured(p['nprofiles'], p['nbins'], p['data'])
        d = files.text(values)
        raw = ('\n'.join(par + (d if inline else [])) + '\n').encode()
        if not inline:
            with open(dp, 'w') as f:
                f.write('\n'.join(d) + '\n')
        if s['cut'] is not None:
            last = raw[:-1].rindex(b'\n') + 1
            raw = raw[:int(s['cut'] * last)]
            R.fault('damage_cut')
        pipe = p['channel'] == 'pipe'
        where, stdin = 'stdin', raw
        if not pipe:
            where, stdin = os.path.join(root, 'input.dat'), b''
            with open(where, 'wb') as f:
                f.write(raw)
        r = self.oracle.ask(direct, p, par, values)
        plan = []
        cfg = dict(s['cfg'])
        fn = lambda sched: (lambda: (work(p, where, out if given else None, sched), boot.rt.stats()))
        if s['faults'] or 'disk_u' in cfg:
            a = iosim.run(fn(gens.SEQ), root, stdin=stdin, cfg={k: v for k, v in cfg.items() if k == 'unbuffered'})
            plan = iosim.resolve(s['faults'], a.count)
            if 'disk_u' in cfg:
                cfg['disk'] = int(cfg['disk_u'] * 40000)
                for n in os.listdir(out):
                    if a.how == 'ok':
                        os.unlink(os.path.join(out, n))
        for n in os.listdir(out):
            os.unlink(os.path.join(out, n))
        o = iosim.run(fn(s['sched']), root, stdin=stdin, keep_open=pipe and p['keep_open'], cfg=cfg, plan=plan)
        o.account(R)
        if o.how == 'ok':
            o.value, st = o.value
            R.native(st)
        R.add(o.how, sorted(o.count.items()), o.shorts, o.eintr, o.errors, o.full, o.out)
        label = '%s from %s%s' % (p['entry'], p['channel'], ' in Tomoscope mode' if p['tomoscope'] else '')
        R.probe(p['entry'] + ':' + o.how)
        if R.faults or s['sched']['nthreads'] > 1:
            R.key = [p['entry'], p['channel'], p['tomoscope'], p['data'], s['sched']['seed'], [[f['cls'], f['act'], round(f['u'], 2)] for f in s['faults']], sorted(cfg), o.how]
        if o.how in ('died', 'crashed'):
            raise Violation('died', '%s: %s %s' % (label, o.how, o.value))
        if s['cut'] is not None:
            if o.how == 'ok':
                raise Violation('partial', '%s: returned normally although the input was cut' % label)
            return
        if r[0] != 'ok':
            R.probe('parts refuse: ' + r[1][:60])
            if o.how == 'ok' and p['entry'] != 'main':
                raise Violation('reference', '%s: returned although the parts fail: %s' % (label, r[1]))
            return
        ref = r[1]
        if o.how == 'blocked':
            raise Violation('blocked', '%s: waits for more although the input is complete' % label)
        if o.how == 'exc' and not o.hard():
            raise Violation('gave-up', '%s: %s: %s although no call failed (%d short, %d interrupted)' % ((label,) + tuple(o.value) + (o.shorts, o.eintr)))
        if p['tomoscope']:
            self.stdout(p, ref, o, label, env, out)
            R.probe('lines in order')
        elif o.how == 'ok' and o.out.strip():
            R.probe('prints without being asked')
        if o.how != 'ok':
            return
        n = ref['info']['nbins']
        if p['tomoscope'] and p['entry'] in ('run', 'main'):
            self.results(p, ref, out, label, n)
        if p['entry'] in ('self', 'turns'):
            for nm, a, b in zip(('phase', 'energy'), o.value, (ref['xp'], ref['yp'])):
                if not close(np.asarray(a), b):
                    raise Violation('result', '%s: the %s of the particles differ from the ones tracked without output' % (label, nm))
        elif p['entry'] == 'run':
            im = image(ref, ref['rec'], n)
            for nm, a, b in zip(('time axis', 'energy axis', 'phase space'), o.value, (ref['t'], ref['E'], im)):
                if not close(np.asarray(a), np.asarray(b)):
                    raise Violation('result', '%s: the %s differs from what the parts give' % (label, nm))

    def stdout(self, p, ref, o, label, env, out):
        want = expected_lines(p, ref)
        text = o.text()
        got = text.split('\n')
        tail = got.pop()
        if p['entry'] == 'self':              # a line for the first profile itself is possible
            i = [k for k, (x, g) in enumerate(want) if g == 'track'][0]
            own = TRACKING % (ref['rec'] + 1, ref['rec'] + 1)
            if len(got) > i and got[i] == own or len(got) == i and tail and own.startswith(tail):
                want.insert(i, (own, None))
        ends = []
        pos = 0
        for n, line in enumerate(got):
            if n >= len(want) or line != want[n][0]:
                raise Violation('lines', '%s: line %d on standard output is %r instead of %r' % (label, n + 1, line[:90], want[n][0] if n < len(want) else 'the end'))
            pos += len(line.encode()) + 1
            ends.append(pos)
        if tail and (len(got) >= len(want) or not want[len(got)][0].startswith(tail)):
            raise Violation('lines', '%s: standard output ends with %r' % (label, tail[:90]))
        if o.how == 'ok' and (tail or len(got) < len(want)):
            raise Violation('lines', '%s: returned, but %d of %d lines arrived on standard output' % (label, len(got), len(want)))
        # when each line had arrived completely
        w = o.writes()
        at = []
        k = 0
        for e in ends:
            while w[k][1] < e:
                k += 1
            at.append(w[k][0])
        for n in range(1, len(at)):
            g = want[n][1]
            if g and g == want[n - 1][1] and at[n] <= at[n - 1]:
                raise Violation('late', '%s: the lines %r and %r arrived together, after the work they report (work clock %d)' % (label, want[n - 1][0].strip()[:40], want[n][0].strip()[:40], at[n]))
        # the files come after the report
        if p['entry'] in ('run', 'main') and o.how == 'ok':
            names = [x for x in o.names]
            firsts = [j for j, e in enumerate(o.events) if e.cls == 2 and 0 <= e.file < len(names) and names[e.file].startswith(out)]
            lasts = [j for j, e in enumerate(o.events) if e.cls == 1 and e.file == 1 and e.res > 0]
            if firsts and lasts and firsts[0] < lasts[-1]:
                raise Violation('late', '%s: result files were opened before the last line was delivered' % label)

    def results(self, p, ref, out, label, n):
        want = {}
        for k in ref['films']:
            want['image%03d.data' % (k + 1)] = list(image(ref, k, n).ravel())
            want['profile%03d.data' % (k + 1)] = [(' %s', v) for v in ref['waterfall'][k]]
        last = ref['films'][-1]
        want['d%03d.data' % (last + 1)] = [('%12d  %%s' % j, v) for j, v in enumerate(ref['diff'])]
        for name in sorted(want):
            path = os.path.join(out, name)
            if not os.path.exists(path):
                raise Violation('missing', '%s: returned, but there is no %s (but %s)' % (label, name, sorted(os.listdir(out))[:8]))
            with open(path, newline='') as f:
                lines = f.read().split('\n')
            if lines.pop() != '' or len(lines) != len(want[name]):
                raise Violation('incomplete', '%s: %s has %d lines instead of %d' % (label, name, len(lines), len(want[name])))
            for j, (a, b) in enumerate(zip(lines, want[name])):
                form, v = b if isinstance(b, tuple) else ('  %s', b)
                try:
                    x = float(a.split()[-1])
                    ok = a == form % format(x, '0.7E') and abs(x - v) <= 1e-6 * max(abs(v), 1e-9)
                except (ValueError, IndexError):
                    ok = False
                if not ok:
                    raise Violation('incomplete', '%s: line %d of %s is %r instead of %r' % (label, j + 1, name, a[:40], form % format(v, '0.7E')))

    def shrink(self, s):
        if s['faults']:
            for i in range(len(s['faults'])):
                yield dict(s, faults=s['faults'][:i] + s['faults'][i + 1:])
        if s['cut'] is not None:
            yield dict(s, cut=None)
        for k in ('frag_in', 'frag_out', 'frag_file', 'eintr', 'disk_u', 'unbuffered'):
            if s['cfg'].get(k):
                yield dict(s, cfg={x: y for x, y in s['cfg'].items() if x != k})
        if s['sched'] != gens.SEQ:
            yield dict(s, sched=gens.SEQ)
        for k, v in (('synch', None), ('vrf2', None), ('snpt', None), ('beam_ref', None), ('machine_ref', None), ('demax', None), ('filmstep', None)):
            if k in s['par']:
                yield dict(s, par={x: y for x, y in s['par'].items() if x != k})
        for c in gens.shrink_int(s['par'], 'niter', 0):
            yield dict(s, par=c)
        for k, v in (('channel', 'file'), ('out', 'arg'), ('rec', None), ('keep_open', False)):
            if s['p'][k] != v:
                yield dict(s, p=dict(s['p'], **{k: v}))


PROP = P()

"""Reading parameters and measured data from files and pipes."""
import os

import numpy as np

from .. import boot, files, gens, iosim, oracle, treat
from ..prop import Prop, Violation

ERR = ['EIO', 'EIO', 'EISDIR', 'EMFILE', 'EACCES', 'ENOENT']
BAD_NUMBERS = ['abc', '', '1.2.3', '1,5', '--1', '0x', '1.0E', '1.0 2.0 x', 'nan', 'inf', '-inf', 'NaN', '1.5e+', '\x00', '*****', '\udcff', '\udcff+', '\udcff+', '+\udcff', '\udcc3']
FMT = {'repr': repr, 'E': lambda v: '%.17E' % v, 'g': lambda v: '%.17g' % v, 'plus': lambda v: '%+.17g' % v, 'space': lambda v: '   %.17g  ' % v, 'e': lambda v: '%.17e' % v}


def content(p):
    """(parameter lines, data lines, values)"""
    v = files.measured(p['nprofiles'], p['nbins'], p['data'])
    if p['ints']:
        v = np.round(v)
    d = [FMT[p['fmt']](float(x)) for x in v]
    return v, d


def read(p, where, data_path):
    """in the simulated process"""
    from longitudinal_tomography import shortcuts
    from longitudinal_tomography.utils import tomo_input
    if p['entry'] == 'user':
        par, data = tomo_input.get_user_input(where)
        return [str(x) for x in par], np.array(data)
    if p['entry'] == 'machine':
        par, data = tomo_input.get_user_input(where)
        m, f = tomo_input.txt_input_to_machine(par)
        return public(m), f.to_waterfall(data)
    m, w = shortcuts.read_input_file(where)
    return public(m), np.array(w)


def public(m):
    out = {}
    for k, v in vars(m).items():
        if isinstance(v, np.ndarray):
            v = ('array', v.tolist())
        elif isinstance(v, (np.generic,)):
            v = v.item()
        elif not (v is None or isinstance(v, (int, float, str, bool, list, tuple))):
            v = type(v).__name__
        out[k] = repr(v)
    return out


def direct(p, par, data):
    """the same from lines already in memory"""
    from longitudinal_tomography.data import data_treatment
    from longitudinal_tomography.utils import tomo_input
    boot.rt.begin(gens.SEQ)
    m, f = tomo_input.txt_input_to_machine(list(par))
    if p['entry'] == 'machine':
        return public(m), f.to_waterfall(np.array(data))
    m.values_at_turns()
    q = tomo_input.raw_data_to_profiles(f.to_waterfall(np.array(data)), m, f.rebin, f.sampling_time)
    q.calc_profilecharge()
    if m.synch_part_x < 0:
        m.load_fitted_synch_part_x_ftn(data_treatment.fit_synch_part_x(q))
    return public(m), np.array(q.waterfall)


class P(Prop):
    id = 'C10'
    runs = {'quick': 12000, 'thorough': 300000}
    timeout = 60.0
    real = ['Python code of /repo', 'Python I/O library, numpy text reader, libc', 'files in a scratch directory']
    stub = ['standard input (simulated pipe: fragmentation, end of file, a writer that keeps it open)', 'outcome of every file system call below the scratch directory (seccomp seam)']
    assumptions = ['loss of the last characters of the last line cannot be told from a shorter number']
    rule = ('A run draws parameters, number format, line ends, the channel (file with the data inside, file with a separate data file, pipe), the entry point, a fragmentation, '
            'interruptions, and possibly a truncation at any byte, a damaged number or a failing system call. Parameters and values must equal the ones written, or an error must be raised. '
            'A complete input on a pipe that stays open must not be waited on. Non-trivial: a fault or a fragmentation took effect; distinct: channel, entry, damage, outcome.')

    def setup(self, env):
        treat.preload()
        iosim.lib()
        direct({'entry': 'file'}, files.parameters({'nprofiles': 3, 'nbins': 24}), files.measured(3, 24, 1))
        self.oracle = oracle.Oracle()

    def gen(self, rng, i, tier):
        nb = rng.choice([22, 23, 24, 30])
        n = rng.choice([2, 3, 5])
        p = {'nprofiles': n, 'nbins': nb, 'data': rng.getrandbits(30), 'ints': rng.random() < 0.2, 'fmt': rng.choice(list(FMT)), 'crlf': rng.random() < 0.25,
             'channel': rng.choice(['file', 'file', 'file+data', 'file+data', 'pipe', 'pipe', 'pipe+data']), 'entry': rng.choice(['user', 'user', 'machine', 'file']),
             'final_eol': rng.random() < 0.8, 'keep_open': rng.random() < 0.5}
        par = {}
        if rng.random() < 0.4:
            par['synch'] = '-1.0'
        if rng.random() < 0.3:
            par['skip_start'] = rng.choice([1, 2])
        if rng.random() < 0.3:
            par['skip_frames'] = 1
        if rng.random() < 0.3:
            par['rebin'] = 1
        if rng.random() < 0.4:
            k = rng.choice(['vrf1', 'vrf2', 'phi12', 'dturns', 'niter'])
            par[k] = rng.choice([1, 2, 3]) * (1000 if k == 'vrf1' else 1)
        c = {'seed': rng.getrandbits(30)}
        if rng.random() < 0.7:
            c['frag_in'] = rng.choice([1, 3, 20, 100, 1000])
            c['frag_file'] = rng.choice([1, 7, 100, 3000])
        if rng.random() < 0.3:
            c['eintr'] = rng.choice([50000, 400000])
        s = {'p': p, 'par': par, 'cfg': c, 'faults': [], 'damage': None}
        k = rng.random()
        if k < 0.35:
            where = rng.choice(['params', 'data', 'data'])
            s['damage'] = {'what': 'cut', 'where': where, 'u': rng.choice([rng.random(), rng.random(), 0.0, 1.0, 0.98])}
        elif k < 0.55:
            s['damage'] = {'what': 'number', 'u': rng.choice([rng.random(), 0.0, 0.9999]), 'text': rng.choice(BAD_NUMBERS)}
        elif k < 0.6:
            s['damage'] = {'what': rng.choice(['missing', 'directory', 'line_lost', 'line_twice']), 'u': rng.random()}
        if rng.random() < 0.3:
            cl = rng.choice(['read', 'read', 'read', 'open', 'stat', 'close', 'seek'])
            s['faults'] = [{'cls': cl, 'u': rng.random(), 'act': rng.choice(['EINTR', 'short'] + ERR if cl == 'read' else ERR), 'arg': 1}]
            for f in s['faults']:
                if f['cls'] == 'close':
                    f['act'] = 'EIO'
        if p['keep_open']:
            p['final_eol'] = True       # without it the last line may go on
        return s

    def run(self, s, env, R):
        p = s['p']
        boot.rt.begin(gens.SEQ)
        root = env.scratch()
        inline = '+data' not in p['channel']
        pipe = p['channel'].startswith('pipe')
        data_path = os.path.join(root, 'measured.dat')
        par = files.parameters(p, data_file='pipe' if inline else data_path, output_dir=root + '/', **s['par'])
        values, d = content(p)
        eol = '\r\n' if p['crlf'] else '\n'
        dmg = s['damage']
        must_fail = False
        if dmg and dmg['what'] == 'number':
            k = min(int(dmg['u'] * len(d)), len(d) - 1)
            t = dmg['text']
            if t.endswith('+') and len(t) == 2:             # one bad byte in front of or behind the number
                t = t[0] + d[k]
            elif t.startswith('+') and len(t) == 2:
                t = d[k] + t[1]
            d = d[:k] + [t] + d[k + 1:]
            must_fail = True
        if dmg and dmg['what'] in ('line_lost', 'line_twice'):
            k = min(int(dmg['u'] * len(d)), len(d) - 1)
            if dmg['what'] == 'line_twice' and pipe and inline:
                k = len(d) - 1
            d = d[:k] + d[k + 1:] if dmg['what'] == 'line_lost' else d[:k] + [d[k]] + d[k:]
            must_fail = dmg['what'] == 'line_lost' or not (pipe and inline)     # a pipe may carry more than was announced
        if inline:
            streams = [par + d]
        else:
            streams = [par, d]
        raw = []
        for lines in streams:
            t = eol.join(lines) + (eol if p['final_eol'] else '')
            raw.append(t.encode('utf-8', 'surrogateescape'))
        if dmg and dmg['what'] == 'cut':
            which = 0 if inline or dmg['where'] == 'params' else 1
            b = raw[which]
            last = len(eol.join(streams[which][:-1]).encode('utf-8', 'surrogateescape')) + len(eol)        # start of the last line
            at = min(int(dmg['u'] * (last + 1)), last)
            raw[which] = b[:at]
            must_fail = True
        if not inline and not (dmg and dmg['what'] == 'missing'):
            if dmg and dmg['what'] == 'directory':
                os.mkdir(data_path)
            else:
                with open(data_path, 'wb') as f:
                    f.write(raw[1])
        if dmg and dmg['what'] in ('missing', 'directory'):
            must_fail = not inline
            if inline and not pipe:
                must_fail = True
        if pipe:
            where, stdin = 'stdin', raw[0]
        else:
            where, stdin = os.path.join(root, 'input.dat'), b''
            if not (dmg and dmg['what'] == 'missing' and inline):
                if dmg and dmg['what'] == 'directory' and inline:
                    os.mkdir(where)
                else:
                    with open(where, 'wb') as f:
                        f.write(raw[0])
        plan = []
        if s['faults']:
            clean = iosim.run(lambda: read(p, where, data_path), root, stdin=stdin, keep_open=False)
            plan = iosim.resolve(s['faults'], clean.count)
        o = iosim.run(lambda: read(p, where, data_path), root, stdin=stdin, keep_open=pipe and p['keep_open'], cfg=s['cfg'], plan=plan)
        o.account(R)
        R.add(o.how, sorted(o.count.items()), o.shorts, o.eintr, o.errors)
        label = '%s/%s%s' % (p['channel'], p['entry'], ', ' + dmg['what'] if dmg else '')
        if dmg:
            R.fault('damage_' + dmg['what'])
        if o.how == 'blocked':
            R.probe('waits for more')
            if not must_fail:
                raise Violation('blocked', '%s: waits for more although the input is complete' % label)
        elif o.how == 'exc':
            R.probe('error')
            if not must_fail and not o.hard() and (p['entry'] == 'user' or self.oracle.ask(direct, p, par, values)[0] == 'ok'):
                raise Violation('refused', '%s: %s: %s although the input is complete (%d short, %d interrupted reads)' % ((label,) + tuple(o.value) + (o.shorts, o.eintr)))
        elif o.how == 'ok':
            if must_fail:
                raise Violation('partial', '%s: returned normally although the input was damaged (%s)' % (label, {k: v for k, v in dmg.items()}))
            a, w = o.value
            if p['entry'] == 'user':
                if a != par:
                    k = [i for i, (x, y) in enumerate(zip(a, par)) if x != y][:1] or [min(len(a), len(par))]
                    raise Violation('parameters', '%s: parameter line %d is wrong' % (label, k[0] + 1))
                if w.shape != values.shape or not np.array_equal(w, values):
                    raise Violation('data', '%s: the data differ from what was written' % label)
            else:
                r = self.oracle.ask(direct, p, par, values)
                if r[0] != 'ok':
                    raise Violation('reference', '%s: returned, but the direct way fails: %s' % (label, r[1]))
                ra, rw = r[1]
                if a != ra:
                    raise Violation('parameters', '%s: machine differs in %s' % (label, sorted(k for k in set(a) | set(ra) if a.get(k) != ra.get(k))[:5]))
                if not np.array_equal(w, rw, equal_nan=True):
                    raise Violation('data', '%s: the waterfall differs' % label)
                if p['entry'] == 'machine':
                    m = values.reshape(p['nprofiles'], p['nbins'])[int(s['par'].get('skip_frames', 0)):, int(s['par'].get('skip_start', 0)):]
                    if not np.array_equal(w, m):
                        raise Violation('data', '%s: the waterfall is not the measured data' % label)
            R.probe('read')
        else:
            raise Violation('died', '%s: %s %s' % (label, o.how, o.value))
        if R.faults:
            R.key = [p['channel'], p['entry'], p['fmt'], p['crlf'], dmg and [dmg['what'], round(dmg['u'], 2), dmg.get('text')], sorted(s['cfg']), s['faults'] and [s['faults'][0]['cls'], s['faults'][0]['act'], round(s['faults'][0]['u'], 2)], o.how]

    def shrink(self, s):
        if s['damage']:
            yield dict(s, damage=None)
        if s['faults']:
            yield dict(s, faults=[])
        for k in ('frag_in', 'frag_file', 'eintr'):
            if k in s['cfg']:
                yield dict(s, cfg={x: y for x, y in s['cfg'].items() if x != k})
        for k in s['par']:
            yield dict(s, par={x: y for x, y in s['par'].items() if x != k})
        for k, v in (('fmt', 'repr'), ('crlf', False), ('ints', False), ('keep_open', False), ('final_eol', True), ('entry', 'user')):
            if s['p'][k] != v:
                yield dict(s, p=dict(s['p'], **{k: v}))


PROP = P()

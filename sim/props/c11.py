"""Saving result files on failing disks."""
import os

import numpy as np

from .. import boot, gens, iosim, models, treat
from ..prop import Prop, Violation

KINDS = ['f_profile', 'f_profile_ftn', 'f_self', 'f_self_ftn', 'f_image', 'f_image_ftn', 'f_diff', 'f_diff_ftn', 't_diff', 't_image', 't_profile']
ERR = ['ENOSPC', 'EIO', 'EDQUOT', 'EROFS', 'EACCES', 'EMFILE']


def data(p):
    """what is saved"""
    g = gens.rs('c11', p['data'])
    k, n, m = p['kind'], p['n'], p['m']
    if 'image' in k and k[0] == 't':
        return {'xp': g.integers(0, n, (max(1, m), p['index'] + 1)).astype(np.int32), 'yp': g.integers(0, n, (max(1, m), p['index'] + 1)).astype(np.int32),
                'w': g.random(max(1, m)) + 0.01}
    if 'image' in k:
        a = g.random((n, n)) * 10.0 ** g.integers(-12, 12, (n, n))
    elif 'self' in k or k == 'f_profile' or k == 'f_profile_ftn':
        a = g.normal(size=(p['index'] + 1, n * max(1, m // 8))) * 10.0 ** g.integers(-8, 8)
    else:
        a = np.abs(g.normal(size=max(1, m)))
    if p['special'] and a.size > 2:
        a.ravel()[:3] = [0.0, -1e-300, 1e300]
    return {'a': a.astype(np.float32 if p['single'] else np.float64)}


def expected(p, d):
    """(file name, lines as numbers or text)"""
    i = p['index'] + 1
    k = p['kind']
    if k.startswith('f_profile'):
        return 'profile%03d.data' % i, [' %s' % format(v, '0.7E') for v in d['a'][p['index']].ravel()]
    if k == 't_profile':
        return 'profile%03d.data' % i, [' %s' % format(v, '0.7E') for v in d['a']]
    if k.startswith('f_self'):
        return 'vself.data', [' %s' % format(v, '0.7E') for v in d['a'].ravel()]
    if k.startswith('f_image'):
        return 'image%03d.data' % i, ['  %s' % format(v, '0.7E') for v in d['a'].ravel()]
    if k == 't_image':
        im = np.zeros((p['n'], p['n']))
        np.add.at(im, (d['xp'][:, p['index']], d['yp'][:, p['index']]), d['w'])
        return 'image%03d.data' % i, list((im / im.sum()).ravel())
    return 'd%03d.data' % i, ['%12d  %s' % (j, format(v, '0.7E')) for j, v in enumerate(d['a'])]


def save(p, d, out):
    from longitudinal_tomography.compat import fortran, tomoscope
    from longitudinal_tomography.utils import tomo_output
    k, i = p['kind'], p['index']
    if k == 'f_profile':
        fortran.save_profile(d['a'], i, out)
    elif k == 'f_profile_ftn':
        tomo_output.save_profile_ftn(d['a'], i, out)
    elif k == 'f_self':
        fortran.save_self_volt_profile(d['a'], out)
    elif k == 'f_self_ftn':
        tomo_output.save_self_volt_profile_ftn(d['a'], out)
    elif k == 'f_image':
        fortran.save_phase_space(d['a'], i, out)
    elif k == 'f_image_ftn':
        tomo_output.save_phase_space_ftn(d['a'], i, out)
    elif k == 'f_diff':
        fortran.save_difference(d['a'], out, i)
    elif k == 'f_diff_ftn':
        tomo_output.save_difference_ftn(d['a'], out, i)
    elif k == 't_diff':
        tomoscope.save_difference(d['a'], out, i)
    elif k == 't_profile':
        tomoscope.save_profile(d['a'], i, out)
    else:
        tomoscope.save_image(d['xp'], d['yp'], d['w'], p['n'], i, out)


def complete(text, want):
    """None or what is wrong with the content of a file"""
    lines = text.split('\n')
    if lines[-1] != '':
        return 'ends within a line'
    lines = lines[:-1]
    if len(lines) != len(want):
        return 'has %d lines instead of %d' % (len(lines), len(want))
    for n, (a, b) in enumerate(zip(lines, want)):
        if isinstance(b, str):
            if a != b and not (n >= 100 and a.split() == b.split()):      # the format of line numbers above 99 is not documented
                return 'line %d is %r instead of %r' % (n + 1, a, b)
        else:
            try:
                ok = a.startswith('  ') and abs(float(a) - b) <= 1e-6 * max(abs(b), 1e-9) and a == '  %s' % format(float(a), '0.7E')
            except ValueError:
                ok = False
            if not ok:
                return 'line %d is %r instead of %.7E' % (n + 1, a, b)
    return None


def draw_fault(rng):
    c = rng.choice(['write', 'write', 'write', 'write', 'open', 'close', 'seek', 'stat', 'sync', 'name'])
    a = rng.choice(['short', 'EINTR', 'crash', 'crash_after'] + ERR)
    if c not in ('write',) and a == 'short' or c not in ('write', 'open') and a == 'EINTR':
        a = rng.choice(['crash', 'crash_after', 'EIO'])
    if c == 'write' and a in ('EROFS', 'EACCES', 'EMFILE'):
        a = 'EIO'
    return {'cls': c, 'u': rng.random(), 'act': a, 'arg': rng.choice([1, 2, 17, 100, 5000])}


class P(Prop):
    id = 'C11'
    runs = {'quick': 6000, 'thorough': 300000}
    timeout = 60.0
    real = ['Python code of /repo', 'Python I/O library, libc', 'C++ extension (image)', 'files in a scratch directory']
    stub = ['outcome of every file system call below the output directory (seccomp seam): short, interrupted, refused, disk full, or the last one of the process']
    assumptions = ['a crash ends the process, not the machine: what a completed write call took stays']
    rule = ('A run draws one of 11 saving functions, its values, the previous content of the output directory and up to 4 attempts, each in its own simulated process with '
            'fragmented writes, a disk with limited room and drawn faults at drawn system calls; the last attempt has none. Non-trivial: at least one fault took effect; '
            'distinct: function, faults and outcome.')

    def setup(self, env):
        treat.preload()
        iosim.lib()

    def gen(self, rng, i, tier):
        p = {'kind': rng.choice(KINDS), 'n': rng.choice([1, 2, 5, 12, 24, 24, 40]), 'm': rng.choice([0, 1, 3, 12, 40, 300, 900]), 'index': rng.choice([0, 0, 1, 8, 9, 99]),
             'single': rng.random() < 0.2, 'special': rng.random() < 0.3, 'data': rng.getrandbits(30)}
        if rng.random() < 0.06:
            p['n'], p['m'] = rng.choice([60, 65, 90, 127, 150]), rng.choice([12, 900, 4500, 9000])
            if 'image' not in p['kind']:
                p['n'] = min(p['n'], 12)
        old = rng.choice([None, None, 'longer', 'shorter', 'same', 'same', 'bytes', 'empty'])
        att = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            c = {'seed': rng.getrandbits(30)}
            if rng.random() < 0.5:
                c['frag_file'] = rng.choice([3, 50, 700, 5000])
            if rng.random() < 0.3:
                c['eintr'] = rng.choice([20000, 300000])
            if rng.random() < 0.3:
                c['disk_u'] = rng.random()
            att.append({'cfg': c, 'faults': [draw_fault(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]})
        return {'p': p, 'old': old, 'attempts': att, 'sub': rng.choice(['out', 'out', 'o t', 'out/'])}

    def run(self, s, env, R):
        p = s['p']
        boot.rt.begin(gens.SEQ)
        root = env.scratch()
        ref, out = os.path.join(root, 'ref'), os.path.join(root, s['sub'])
        os.makedirs(ref)
        os.makedirs(out)
        d = data(p)
        keep = {k: v.copy() for k, v in d.items()}
        name, want = expected(p, d)
        r = iosim.run(lambda: save(p, d, ref), ref)
        if r.how != 'ok':
            raise Violation('refused', '%s without any fault: %s %s' % (p['kind'], r.how, r.value))
        path = os.path.join(ref, name)
        if not os.path.exists(path):
            raise Violation('missing', '%s returned, but there is no %s (but %s)' % (p['kind'], name, os.listdir(ref)))
        with open(path, newline='') as f:
            text = f.read()
        e = complete(text, want)
        if e:
            raise Violation('incomplete', '%s %s after a save without faults' % (name, e))
        path = os.path.join(out, name)
        # what was there before
        old = {'longer': text + ' 1.0000000E+00\n' * 700, 'shorter': text[:len(text) // 2], 'same': text.replace('1', '2'), 'bytes': 'x' * 9000, 'empty': '', None: None}[s['old']]
        if old is not None:
            with open(path, 'w', newline='') as f:
                f.write(old)
        other = os.path.join(out, 'neighbour001.data')
        with open(other, 'w') as f:
            f.write('untouched\n')
        size = len(text)
        outcomes = []
        for n, a in enumerate(s['attempts'] + [{'cfg': {}, 'faults': []}]):
            cfg = dict(a['cfg'])
            if 'disk_u' in cfg:
                cfg['disk'] = int(cfg['disk_u'] * (size + 2))
            o = iosim.run(lambda: save(p, d, out), out, cfg=cfg, plan=iosim.resolve(a['faults'], dict(r.count, sync=max(r.count['sync'], 0))))
            o.account(R)
            what = 'attempt %d of %s' % (n + 1, p['kind'])
            outcomes.append(o.how)
            R.add(o.how, sorted(o.count.items()), o.shorts, o.eintr, o.errors, o.full)
            try:
                with open(path, newline='') as f:
                    now = f.read()
            except FileNotFoundError:
                now = None
            if o.how == 'ok':
                if now is None:
                    raise Violation('missing', '%s returned, but there is no file' % what)
                if now != text:
                    raise Violation('incomplete', '%s returned, but %s %s' % (what, name, complete(now, want) or 'differs'))
            elif o.how in ('exc', 'crashed'):
                if o.how == 'exc' and not o.hard():
                    raise Violation('gave-up', '%s failed with %s: %s although no call failed (%d short, %d interrupted)' % ((what,) + tuple(o.value) + (o.shorts, o.eintr)))
                if now != old and not (now is not None and text.startswith(now)):
                    raise Violation('torn', 'after %s %s, %s is neither the old content nor the beginning of the new one' % (what, 'crashed' if o.how == 'crashed' else 'failed', name))
            else:
                raise Violation('died', '%s: %s %s' % (what, o.how, o.value))
            old = now
            with open(other) as f:
                if f.read() != 'untouched\n':
                    raise Violation('neighbour', '%s changed another file' % what)
        if outcomes[-1] != 'ok':
            raise Violation('not-repaired', 'saving again without faults: %s' % outcomes[-1])
        for k in d:
            if not np.array_equal(d[k], keep[k], equal_nan=d[k].dtype.kind == 'f'):
                raise Violation('input-modified', '%s changed what it was to save' % p['kind'])
        R.add(text)
        R.probe('/'.join(sorted(set(outcomes))))
        if R.faults:
            R.key = [p['kind'], [sorted(a['cfg']) + [[f['cls'], f['act'], round(f['u'], 2)] for f in a['faults']] for a in s['attempts']], outcomes]

    def shrink(self, s):
        for i in range(len(s['attempts'])):
            a = s['attempts'][i]
            yield dict(s, attempts=s['attempts'][:i] + s['attempts'][i + 1:])
            for j in range(len(a['faults'])):
                yield dict(s, attempts=s['attempts'][:i] + [dict(a, faults=a['faults'][:j] + a['faults'][j + 1:])] + s['attempts'][i + 1:])
            for k in ('frag_file', 'eintr', 'disk_u'):
                if k in a['cfg']:
                    yield dict(s, attempts=s['attempts'][:i] + [dict(a, cfg={x: y for x, y in a['cfg'].items() if x != k})] + s['attempts'][i + 1:])
        if s['old']:
            yield dict(s, old=None)
        for k in ('n', 'm', 'index'):
            for c in gens.shrink_int(s['p'], k, 0 if k == 'index' else 1):
                yield dict(s, p=c)


PROP = P()

"""Macroparticles from densities, for chosen random streams."""
import random

import numpy as np

from .. import boot, gens, oracle, pysched, rng as rnd, treat
from ..prop import Prop, Violation


def make(p):
    """(time axis, energy axis, density)"""
    g = gens.rs('c13', p['data'])
    a, b = p['nt'], p['nE']
    t = p['t0'] + (np.arange(a) - a / 3.0) * p['dt']
    E = (np.arange(b) - b / 2.0) * p['dE']
    k = p['shape']
    if k == 'random':
        d = g.random((a, b))
    elif k == 'bunch':
        d = np.exp(-((np.arange(a)[:, None] - a / 2.0) / (a / 5.0)) ** 2 - ((np.arange(b)[None, :] - b / 2.0) / (b / 5.0)) ** 2)
    elif k == 'holes':
        d = g.random((a, b)) * (g.random((a, b)) < 0.3)
        d[g.integers(0, a), g.integers(0, b)] += 0.5
    elif k == 'corner':
        d = np.zeros((a, b))
        d[-1, -1] = 1.0
        d[0, 0] = 3.0
    elif k == 'peak':
        d = g.random((a, b)) + 0.05
        d[g.integers(0, a), g.integers(0, b)] = d.sum()
    elif k == 'one':
        d = np.zeros((a, b))
        d[g.integers(0, a), g.integers(0, b)] = 0.7
    elif k == 'negative':
        d = g.random((a, b)) - 0.2
        if not d.sum() > 0.05 * a * b:
            d = np.abs(d)
    elif k == 'counts':
        d = g.integers(0, 9, (a, b)).astype(float)
        d[0, 0] += 1
    elif k == 'zero':
        d = np.zeros((a, b))
    else:
        d = g.random((a, b))
        d[g.integers(0, a), g.integers(0, b)] = np.nan
    if p['edge'] and k in ('random', 'bunch', 'holes'):
        d[0, 0] = d[-1, -1] = 0.0
    d = d * p['scale']
    if p['dtype'] == 'int' and k == 'counts':
        d = g.integers(1, 9, (a, b))
    elif p['dtype'] == 'f4':
        d = d.astype(np.float32)
    if p['order'] == 'F':
        d = np.asfortranarray(d)
    elif p['order'] == 'strided':
        big = np.zeros((2 * a, 2 * b), d.dtype)
        big[::2, ::2] = d
        d = big[::2, ::2]
    if p['readonly']:
        for x in (t, E, d):
            x.setflags(write=False)
    return t, E, d


def call(p, inp):
    from longitudinal_tomography.data import data_treatment
    n = {'int': int, 'float': float, 'np': np.int64}[p['ntype']](p['n'])
    kw = {} if p['threshold'] is None else {'threshold': p['threshold']}
    dt, dE = data_treatment.density_to_macro(inp[0], inp[1], inp[2], n, **kw)
    return np.array(dt), np.array(dE)


def alone(p, stream):
    boot.rt.begin(gens.SEQ)
    rnd.use(stream)
    return call(p, make(p))


def wanted(p, inp):
    """density that is left after the threshold, or None if nothing is"""
    d = np.asarray(inp[2], dtype=float)
    s = float(np.sum(inp[2]))
    if not np.isfinite(d).all():
        return None
    th = 1e-5 if p['threshold'] is None else p['threshold']
    with np.errstate(all='ignore'):
        q = np.where(d / s < th, 0.0, d)
        near = np.abs(d / s - th) < 1e-6 * th
    if not s > 0 or (q < 0).any() or not q.sum() > 0:
        return None
    return q, near


def judge(p, inp, out, label):
    """None or Violation: number and places"""
    t, E, _ = inp
    dt, dE = out
    w = wanted(p, inp)
    if w is None:
        raise Violation('accepted', '%s: returned particles although no bin of the density qualifies (%s)' % (label, p['shape']))
    q, near = w
    n = p['n']
    if dt.shape != (n,) or dE.shape != (n,):
        raise Violation('number', '%s: %s and %s coordinates instead of %d' % (label, dt.shape, dE.shape, n))
    if n == 0:
        return
    ok = (q > 0) | near
    x = (dt - t[0]) / (t[1] - t[0])
    y = (dE - E[0]) / (E[1] - E[0])
    if not (np.isfinite(x).all() and np.isfinite(y).all()):
        raise Violation('place', '%s: coordinates are not finite' % label)
    good = np.zeros(n, bool)
    eps = 1e-6
    for sx in (-eps, eps):                  # on an edge either bin will do
        for sy in (-eps, eps):
            i, j = np.floor(x + sx + 0.5).astype(int), np.floor(y + sy + 0.5).astype(int)
            inside = (i >= 0) & (j >= 0) & (i < len(t)) & (j < len(E))
            good |= inside & ok[np.clip(i, 0, len(t) - 1), np.clip(j, 0, len(E) - 1)]
    if not good.all():
        k = int(np.argmin(good))
        raise Violation('place', '%s: %d of %d particles are outside the bins with density, the first at (%.3f, %.3f) in bins' % (label, int((~good).sum()), n, x[k], y[k]))
    return x, y, q


def statistics(p, x, y, q, label):
    """proportional to the density, evenly and independently within the bins (limits: 8 sigma)"""
    n = len(x)
    i, j = np.floor(x + 0.5).astype(int), np.floor(y + 0.5).astype(int)
    c = np.zeros(q.shape)
    np.add.at(c, (i, j), 1)
    e = n * q / q.sum()
    big = e >= 8
    o, ex = list(c[big]), list(e[big])
    if (~big).any() and e[~big].sum() >= 8:
        o.append(c[~big].sum())
        ex.append(e[~big].sum())
    if len(o) > 1:
        o, ex = np.array(o), np.array(ex)
        chi = float((((o - ex) ** 2) / ex).sum())
        df = len(o) - 1
        if chi > df + 8 * np.sqrt(2.0 * df) + 60:
            raise Violation('proportion', '%s: the particles do not follow the density (chi square %.1f for %d bins)' % (label, chi, len(o)))
    u, v = x - i, y - j
    for nm, a in (('time', u), ('energy', v)):
        if abs(a.mean()) > 8 * np.sqrt(1 / 12.0 / n) or abs(a.var() - 1 / 12.0) > 8 * np.sqrt(1 / 180.0 / n):
            raise Violation('proportion', '%s: the particles are not spread evenly over their bins in %s (mean %.4f, variance %.4f)' % (label, nm, a.mean(), a.var()))
    r = float(np.mean(u * v)) * 12
    if abs(r) > 8 / np.sqrt(n):
        raise Violation('proportion', '%s: times and energies within the bins depend on each other (correlation %.3f)' % (label, r))
    if len(np.unique(i)) > 1:
        for nm, a in (('time', u), ('energy', v)):
            s = (i - i.mean()) / i.std()
            if abs(float(np.mean(a * s)) * np.sqrt(12)) > 8 / np.sqrt(n):
                raise Violation('proportion', '%s: the place within the bin in %s depends on the bin' % (label, nm))


class P(Prop):
    id = 'C13'
    threads = True
    runs = {'quick': 10000, 'thorough': 400000}
    timeout = 60.0
    real = ['data_treatment.density_to_macro of /repo', 'numpy.random distributions']
    stub = ['bit generator of numpy.random (seeded Mersenne twister, or a stub whose numbers are drawn from extreme values and bin boundaries)',
            'choice of the running client thread (seeded scheduler)']
    assumptions = ['proportions are judged from 2500 to 20000 particles per density (in one conversion or pooled over repeated ones) with limits of 8 standard deviations']
    rule = ('A run draws 1 to 6 conversions (density, axes, threshold, number, memory layout), a random stream per conversion or one for all, and either a sequence or up to 3 client threads under the '
            'scheduler. Number and place of every particle are checked, particles of a given stream are compared with those of a new process, proportions with the density; arrays passed in are compared before and after. '
            'Non-trivial: an extreme number was drawn, or clients alternated, or an earlier conversion was made; distinct: densities and streams.')

    def setup(self, env):
        treat.preload()
        self.oracle = oracle.Oracle()

    def gen(self, rng, i, tier):
        calls = []
        for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
            p = {'nt': rng.choice([2, 2, 3, 5, 8, 12]), 'nE': rng.choice([2, 2, 3, 5, 8, 12]), 'data': rng.getrandbits(30), 't0': rng.choice([0.0, 1e-7, -3e-9]), 'dt': rng.choice([1e-9, 2.5e-8, 1.0, -1e-9]),
                 'dE': rng.choice([1e4, 333.3, -50.0]), 'shape': rng.choice(['random', 'random', 'bunch', 'bunch', 'holes', 'holes', 'corner', 'one', 'negative', 'counts'] * 3 + ['zero', 'nan']),
                 'edge': rng.random() < 0.5, 'scale': rng.choice([1.0, 1.0, 1e-12, 1e9]), 'dtype': rng.choice(['f8', 'f8', 'f8', 'f4', 'int']), 'order': rng.choice(['C', 'C', 'F', 'strided']),
                 'readonly': rng.random() < 0.2, 'n': rng.choice([0, 1, 2, 7, 40, 40, 150]), 'ntype': rng.choice(['int', 'int', 'float', 'np']),
                 'threshold': rng.choice([None, None, None, None, 0.0, 1e-3, 1e-3, 0.02, 0.02, 0.2, 0.9])}
            if calls and rng.random() < 0.4:          # another density of the same kind
                q = dict(rng.choice(calls)['p'], data=p['data'])
                q.pop('repeat', None)
                for k in rng.sample(['t0', 'dt', 'dE', 'threshold', 'n'], 2):
                    q[k] = p[k]
                p = q
            st = {'seed': rng.getrandbits(31)}
            if rng.random() < 0.5:
                st['special'] = rng.choice([[0.0], [rnd.TOP], [0.0, rnd.TOP], [0.5], [0.0, 2.0 ** -53, 0.5, rnd.TOP, 1 - 2.0 ** -52], 'bins', 'bins'])
                st['share'] = rng.choice([0.1, 0.6, 1.0])
            elif rng.random() < 0.06 and p['shape'] not in ('zero', 'nan'):
                p['n'] = 20000
            elif rng.random() < 0.05 and not calls:          # a few particles again and again
                p.update(nt=rng.choice([6, 20, 30]), nE=rng.choice([6, 20, 30]), n=rng.choice([5, 10, 20]), repeat=rng.choice([500, 1000]), dtype='f8', threshold=rng.choice([None, None, 0.0]),
                         shape=rng.choice(['peak', 'peak', 'bunch', 'random', 'holes']))
            calls.append({'p': p, 'stream': st, 'go_on': rng.random() < 0.3})
        return {'calls': calls, 'clients': rng.choice([0, 0, 0, 2, 3]) if len(calls) > 1 else 0, 'pysched': pysched.gen(rng)}

    def stream(self, c, inp):
        st = dict(c['stream'])
        if st.get('special') == 'bins':
            w = wanted(c['p'], inp)
            st['special'] = [0.0, 0.5, rnd.TOP]
            if w is not None:
                q = np.cumsum(w[0].ravel())
                b = q / q[-1]
                st['special'] = sorted({float(min(max(v, 0.0), rnd.TOP)) for x in b[:: max(1, len(b) // 20)] for v in (x, np.nextafter(x, 0), np.nextafter(x, 2))})
        return st

    def run(self, s, env, R):
        boot.rt.begin(gens.SEQ)
        try:
            if s['clients']:
                self.together(s, env, R)
            else:
                self.sequence(s, env, R)
        finally:
            rnd.restore()

    def one(self, c, inp, R, label):
        """(particles or None, exception)"""
        keep = [np.array(x) for x in inp]
        try:
            out = call(c['p'], inp)
        except Exception as e:
            out = None
            if wanted(c['p'], inp) is not None:
                raise Violation('refused', '%s: %s: %s for a valid density (%s)' % (label, type(e).__name__, e, c['p']['shape']))
            R.probe('rejected')
        for nm, a, b in zip(('time axis', 'energy axis', 'density'), inp, keep):
            if a.dtype != b.dtype or not np.array_equal(a, b, equal_nan=b.dtype.kind == 'f'):
                raise Violation('input-modified', '%s: the %s was changed' % (label, nm))
        return out

    def sequence(self, s, env, R):
        prev = cur = None
        for k, c in enumerate(s['calls']):
            p = c['p']
            label = 'conversion %d (%dx%d %s, %d particles)' % (k + 1, p['nt'], p['nE'], p['shape'], p['n'])
            inp = make(p)
            st = self.stream(c, inp)
            random.seed(k)
            b = None
            if c['go_on'] and k:
                R.probe('stream continued')
                st = cur
            else:
                b = rnd.use(st)
                cur = st
            out = self.one(c, inp, R, label)
            if b is not None:
                R.fault('extreme_draw', b.extreme)
            if out is None:
                prev = None
                continue
            R.add(out[0], out[1])
            r = judge(p, inp, out, label)
            R.probe('converted')
            if r is not None and p['n'] >= 20000 and 'special' not in st:
                statistics(p, r[0], r[1], r[2], label)
                R.probe('proportions judged')
            if not (c['go_on'] and k):
                a = self.oracle.ask(alone, p, st)
                if a[0] != 'ok' or not all(np.array_equal(x, y) for x, y in zip(a[1], out)):
                    raise Violation('not-repeatable', '%s: the same random stream gives other particles in a new process%s' % (label, '' if a[0] == 'ok' else ': ' + a[1]))
            elif prev is not None and prev[0] == p and p['n'] >= 7 and 'special' not in st and np.array_equal(prev[1][0], out[0]):
                raise Violation('stuck', '%s: a continued random stream gives the same particles again' % label)
            # the same density again with the stream going on
            if 'special' not in st and 7 <= p['n'] < 1000:
                again = self.one(c, inp, R, label)
                if again is None or np.array_equal(again[0], out[0]) or np.array_equal(again[1], out[1]):
                    raise Violation('stuck', '%s: a second conversion with the stream going on gives the same particles' % label)
                judge(p, inp, again, label + ', again')
                R.add(again[0])
            if p.get('repeat') and r is not None:
                xs, ys = [r[0]], [r[1]]
                for m in range(p['repeat']):
                    more = self.one(c, inp, R, label)
                    if more is None:
                        raise Violation('refused', '%s: refused the second time' % label)
                    r = judge(p, inp, more, label + ', again')
                    xs.append(r[0])
                    ys.append(r[1])
                statistics(p, np.concatenate(xs), np.concatenate(ys), r[2], label + ', %d times' % len(xs))
                R.add(xs[-1])
                R.probe('proportions of repeated conversions judged')
            prev = (p, out)
            R.key = [[x['p']['data'], x['stream']['seed']] for x in s['calls'][:k + 1]]

    def together(self, s, env, R):
        rnd.use({'seed': s['calls'][0]['stream']['seed']})
        n = s['clients']
        inps = [make(c['p']) for c in s['calls']]
        for k, c in enumerate(s['calls']):       # shared densities
            if k and c['go_on']:
                inps[k] = inps[0]
                c = s['calls'][k] = dict(c, p=dict(s['calls'][0]['p'], n=min(150, c['p']['n'])))
        for k, c in enumerate(s['calls']):
            if c['p']['n'] > 1000:
                s['calls'][k] = dict(c, p=dict(c['p'], n=150))
        done = {}

        def client(w):
            def body(point):
                for k in range(w, len(s['calls']), n):
                    point()
                    label = 'conversion %d of client %d (%s)' % (k + 1, w, s['calls'][k]['p']['shape'])
                    done[k] = (label, self.one(s['calls'][k], inps[k], R, label))
            return body
        sch = pysched.Scheduler(s['pysched'], [client(w) for w in range(n)])
        sch.run()
        env.recorded = {'pysched': {'plan': sch.rec}}
        R.fault('client_switch', sch.switches)
        R.il = sch.h.hexdigest()[:16]
        R.add(R.il)
        for e in sch.errors:
            if isinstance(e, Violation):
                raise e
            if e is not None:
                raise Violation('exception', '%s: %s' % (type(e).__name__, e))
        for k in sorted(done):
            label, out = done[k]
            if out is not None:
                judge(s['calls'][k]['p'], inps[k], out, label)
                R.add(out[0], out[1])
                R.probe('converted by a client')
        if sch.switches:
            R.key = [R.il, s['calls'][0]['p']['data']]

    def shrink(self, s):
        for k in range(len(s['calls'])):
            if len(s['calls']) > 1:
                yield dict(s, calls=s['calls'][:k] + s['calls'][k + 1:])
        if s['clients']:
            yield dict(s, clients=0)
        for k, c in enumerate(s['calls']):
            for key, v in (('order', 'C'), ('readonly', False), ('ntype', 'int'), ('dtype', 'f8'), ('scale', 1.0), ('edge', False), ('threshold', None), ('t0', 0.0)):
                if c['p'][key] != v:
                    yield dict(s, calls=s['calls'][:k] + [dict(c, p=dict(c['p'], **{key: v}))] + s['calls'][k + 1:])
            if c['p'].get('repeat'):
                yield dict(s, calls=s['calls'][:k] + [dict(c, p={x: y for x, y in c['p'].items() if x != 'repeat'})] + s['calls'][k + 1:])
                for q in gens.shrink_int(c['p'], 'repeat', 1):
                    yield dict(s, calls=s['calls'][:k] + [dict(c, p=q)] + s['calls'][k + 1:])
            for key, lo in (('n', 0), ('nt', 2), ('nE', 2)):
                for q in gens.shrink_int(c['p'], key, lo):
                    yield dict(s, calls=s['calls'][:k] + [dict(c, p=q)] + s['calls'][k + 1:])


PROP = P()

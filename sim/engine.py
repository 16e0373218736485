"""Seeded search over simulated runs: distribution to processes, confirmation,
minimisation, replay files, evidence."""
import argparse
import copy
import hashlib
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time

from . import build

VERIF = build.VERIF
WORKERS = 8
WALL_CAP = {'quick': 420.0, 'thorough': 3300.0}
MINIMISE_S = 60.0


class Harness(Exception):
    pass


class Worker:
    def __init__(self, prop, variant, bt, scratch, env_extra=None):
        self.prop, self.variant = prop, variant
        rt_dir, ext = bt
        a, b = os.pipe()
        c, d = os.pipe()
        env = dict(os.environ)
        env.pop('PYTHONUNBUFFERED', None)
        env.update({'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
                    'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'PYTHONPATH': VERIF,
                    'MPLCONFIGDIR': os.path.join(scratch, 'mpl')})
        env.pop('LD_PRELOAD', None)
        if env_extra:
            env.update(env_extra)
        self.err = tempfile.NamedTemporaryFile('w+', dir=scratch, delete=True)
        self.p = subprocess.Popen([build.PY, '-m', 'sim.worker', prop.id, variant, rt_dir, ext[variant], scratch,
                                   str(a), str(d)], cwd=scratch, env=env, pass_fds=(a, d), stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=self.err)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c
        self.buf = b''
        self.current = None
        self.started = time.monotonic()
        self.done = []        # tags executed by this process
        self.ready = False
        self.busy = False

    def send(self, cmd):
        try:
            data = (json.dumps(cmd) + '\n').encode()
            while data:
                data = data[os.write(self.w, data):]
        except BrokenPipeError:
            pass
        self.busy = True

    def read(self):
        """list of ('ready',)/('start',tag)/('result',dict)/('done',)/('eof',)"""
        out = []
        d = os.read(self.r, 1 << 16)
        if not d:
            self.busy = False
            return [('eof',)]
        self.buf += d
        while b'\n' in self.buf:
            line, self.buf = self.buf.split(b'\n', 1)
            line = line.decode()
            if line == 'READY':
                self.ready = True
                out.append(('ready',))
            elif line == 'DONE':
                self.busy = False
                out.append(('done',))
            elif line[:2] == 'S ':
                self.current = line[2:]
                self.started = time.monotonic()
                out.append(('start', line[2:]))
            elif line[:2] == 'R ':
                r = json.loads(line[2:])
                self.done.append(self.current)
                self.current = None
                self.started = time.monotonic()
                out.append(('result', r))
        return out

    def stderr(self):
        try:
            self.err.seek(0)
            return self.err.read()[-1500:]
        except Exception:
            return ''

    def kill(self):
        try:
            self.p.kill()
        except Exception:
            pass
        rc = self.p.wait()
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        self.err.close()
        return rc


def describe_exit(rc, err):
    if rc == 97:
        return 'deadlock', 'the parallel region cannot make progress: ' + err.strip()[-200:]
    if rc == 98:
        return 'no-progress', 'step limit of the simulated run exceeded'
    tail = err.strip()[-300:]
    return 'crash', 'the process died (status %s) %s' % (rc, tail)


class Engine:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix='sim-%s-' % prop.id)
        self.bt = build.build_ext()
        self.unreproduced = []
        self.n_procs = 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def worker(self, variant, env_extra=None):
        self.n_procs += 1
        return Worker(self.prop, variant, self.bt, self.scratch, env_extra)

    # ---------------------------------------------------------- batches
    def batch(self, indices, on_result, nworkers=WORKERS, env_extra=None, stop_on_violation=True, cap=None):
        """Executes indices; worker k takes i = k (mod nworkers) in order.
        on_result(i, result, worker_history, variant). Returns violations."""
        assert nworkers % 2 == 0
        queues = {k: [i for i in indices if i % nworkers == k] for k in range(nworkers)}
        ws, viol = {}, []
        t0 = time.monotonic()

        def spawn(k):
            if not queues[k]:
                return
            w = self.worker('O0' if k % 2 == 0 else 'O2', env_extra)
            w.k = k
            w.send({'op': 'runs', 'idx': queues[k], 'seed': self.seed, 'tier': self.tier})
            ws[w.r] = w

        for k in range(nworkers):
            spawn(k)
        self.capped = False
        try:
            while ws:
                rd, _, _ = select.select(list(ws), [], [], 1.0)
                now = time.monotonic()
                for fd in rd:
                    w = ws[fd]
                    for ev in w.read():
                        if ev[0] == 'result':
                            r = ev[1]
                            if 'harness_error' in r:
                                raise Harness('run %s: %s' % (r['tag'], r['harness_error']))
                            i = int(r['tag'])
                            queues[w.k].remove(i)
                            on_result(i, r, w.variant)
                            if r['v']:
                                viol.append((i, w.variant, r['v'], [int(x) for x in w.done[:-1]]))
                        elif ev[0] == 'done':
                            w.send({'op': 'quit'})
                        elif ev[0] == 'eof':
                            err = w.stderr()
                            rc = w.kill()
                            del ws[fd]
                            if rc != 0 or w.current is not None:
                                if w.current is None:
                                    raise Harness('worker failed to start or stop: rc=%s\n%s' % (rc, err))
                                i = int(w.current)
                                cls, msg = describe_exit(rc, err)
                                queues[w.k].remove(i)
                                viol.append((i, w.variant, {'cls': cls, 'msg': msg}, [int(x) for x in w.done]))
                                if not stop_on_violation:
                                    spawn(w.k)
                for fd, w in list(ws.items()):
                    lim = self.prop.timeout if w.current is not None else 180
                    if now - w.started > lim:
                        i = w.current
                        w.kill()
                        del ws[fd]
                        if i is None:
                            raise Harness('worker does not answer')
                        i = int(i)
                        queues[w.k].remove(i)
                        viol.append((i, w.variant, {'cls': 'hang', 'msg': 'no result after %d s' % lim}, [int(x) for x in w.done]))
                        if not stop_on_violation:
                            spawn(w.k)
                if viol and stop_on_violation:
                    break
                if cap and now - t0 > cap:
                    self.capped = True
                    break
        finally:
            for w in ws.values():
                w.kill()
        return sorted(viol, key=lambda v: v[0])

    # ------------------------------------------------- single executions
    def execute(self, variant, scns, record=False, w=None, timeout=None):
        """Executes the scenarios in one process; outcome of the last one.
        Returns (result-like dict, worker or None)."""
        own = w is None
        if own:
            w = self.worker(variant)
        w.send({'op': 'scns', 'scns': scns, 'record': record})
        lim = timeout or max(90.0, self.prop.timeout * 1.5)
        last, fin = None, False
        while not fin:
            rd, _, _ = select.select([w.r], [], [], 1.0)
            if rd:
                for ev in w.read():
                    if ev[0] == 'result':
                        last = ev[1]
                    elif ev[0] == 'done':
                        fin = True
                    elif ev[0] == 'eof':
                        err = w.stderr()
                        cur = w.current
                        rc = w.kill()
                        if cur is None:
                            raise Harness('worker: ' + err)
                        cls, msg = describe_exit(rc, err)
                        return {'v': {'cls': cls, 'msg': msg}, 'd': cls, 'dead': True, 'at': cur}, None
            elif time.monotonic() - w.started > lim:
                cur = w.current
                w.kill()
                return {'v': {'cls': 'hang', 'msg': 'no result after %d s' % lim}, 'd': 'hang', 'dead': True, 'at': cur}, None
        if last and 'harness_error' in last:
            w.kill()
            raise Harness(last['harness_error'])
        if own:
            w.kill()
            w = None
        return last, w

    def fails(self, variant, scns, cls, cache):
        """Does the last scenario still show the same class? Reuses a process."""
        key = hashlib.sha256(json.dumps(scns, sort_keys=True).encode()).hexdigest()
        if key in cache:
            return cache[key]
        if len(scns) > 1:
            r, _ = self.execute(variant, scns)
        else:
            r, self._mw = self.execute(variant, scns, w=getattr(self, '_mw', None))
        ok = bool(r['v']) and r['v']['cls'] == cls
        if r.get('dead') and r.get('at') != 's%d' % (len(scns) - 1):
            ok = False
        cache[key] = ok
        return ok

    # ------------------------------------------------------ minimisation
    def minimise(self, variant, scns, cls):
        from .worker import scenario  # noqa
        t_end = time.monotonic() + MINIMISE_S
        cache = {}
        self._mw = None
        tried = [0]

        def ok(c):
            if time.monotonic() > t_end:
                return False
            tried[0] += 1
            try:
                return self.fails(variant, c, cls, cache)
            except Harness:
                self._mw = None
                return False

        def ddmin(items, test):
            n = 2
            items = list(items)
            if items and test([]):
                return []
            while len(items) >= 2 and time.monotonic() < t_end:
                size = max(1, len(items) // n)
                cut = False
                for s in range(0, len(items), size):
                    cand = items[:s] + items[s + size:]
                    if test(cand):
                        items, cut = cand, True
                        n = max(2, n - 1)
                        break
                if not cut:
                    if size == 1:
                        break
                    n = min(len(items), n * 2)
            return items

        prefix, scn = scns[:-1], scns[-1]
        if prefix:
            prefix = ddmin(prefix, lambda c: ok(c + [scn]))

        def shrink_pass(scn):
            changed = True
            while changed and time.monotonic() < t_end:
                changed = False
                for cand in self.prop.shrink(copy.deepcopy(scn)):
                    if time.monotonic() > t_end:
                        break
                    if cand != scn and ok(prefix + [cand]):
                        scn, changed = cand, True
                        break
            return scn

        def lists_pass(scn):
            for path in self.prop.ddmin_lists:
                keys = path.split('.')
                o = scn
                for k in keys[:-1]:
                    o = o.get(k) if isinstance(o, dict) else None
                if not isinstance(o, dict) or not isinstance(o.get(keys[-1]), list) or not o[keys[-1]]:
                    continue

                def test(c, keys=keys):
                    s = copy.deepcopy(scn)
                    q = s
                    for k in keys[:-1]:
                        q = q[k]
                    q[keys[-1]] = c
                    return ok(prefix + [s])
                best = ddmin(o[keys[-1]], test)
                o[keys[-1]] = best
            return scn

        scn = shrink_pass(scn)
        scn = lists_pass(scn)
        # make the schedule explicit, then minimise it
        try:
            r, _ = self.execute(variant, prefix + [scn], record=True)
            if r.get('recorded') and r['v'] and r['v']['cls'] == cls:
                s2 = copy.deepcopy(scn)
                for k, v in r['recorded'].items():
                    if isinstance(s2.get(k), dict):
                        s2[k] = dict(s2[k], **v)
                    else:
                        s2[k] = v
                if ok(prefix + [s2]):
                    scn = lists_pass(s2)
                    scn = shrink_pass(scn)
        except Harness:
            pass
        if getattr(self, '_mw', None):
            self._mw.kill()
            self._mw = None
        return prefix + [scn], tried[0]


def history_of(prop, seed, tier, idx):
    from .worker import scenario
    return [scenario(prop, seed, i, tier) for i in idx]


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    with open(p) as f:
        return [e for e in json.load(f)['findings'] if e['property'] == pid and e['status'] == 'open']


def matches(entry, v):
    return entry.get('cls') == v['cls'] and all(s in v['msg'] for s in entry.get('contains', []))


def check(prop, tier, seed, runs=None):
    t0 = time.monotonic()
    eng = Engine(prop, tier, seed)
    t_build = time.monotonic() - t0
    n = runs or prop.runs[tier]
    agg = {'evals': 0, 'faults': {}, 'probes': {}, 'st': {}, 'il': set(), 'keys': set(), 'dig': hashlib.sha256(),
           'samples': [], 'cpu': 0.0}
    known = known_findings(prop.id)
    known_hits = {}

    def on_result(i, r, variant):
        agg['evals'] += 1
        for k, v in r['f'].items():
            agg['faults'][k] = agg['faults'].get(k, 0) + v
        for k, v in r['p'].items():
            agg['probes'][k] = agg['probes'].get(k, 0) + v
        for k, v in r['st'].items():
            agg['st'][k] = max(agg['st'].get(k, 0), v) if k.startswith('max') else agg['st'].get(k, 0) + v
        if r['il'] is not None:
            agg['il'].add(r['il'])
        if r['key'] is not None:
            agg['keys'].add(json.dumps(r['key']))
        agg['cpu'] += r['t']

    exit_code, reported = 0, None
    remaining = list(range(n))
    done = set()

    def track(i, r, variant):
        done.add(i)
        on_result(i, r, variant)

    t_run0 = time.monotonic()
    try:
        while True:
            viol = eng.batch(remaining, track, cap=WALL_CAP[tier])
            if not viol:
                break
            i, variant, v, hist = viol[0]
            for i_, _, _, _ in viol:
                done.add(i_)
            hits = [e for e in known if matches(e, v)]
            if hits:
                known_hits[hits[0]['id']] = hits[0]
                remaining = [j for j in remaining if j not in done]
                continue
            print('run %d (%s): %s: %s' % (i, variant, v['cls'], v['msg']), flush=True)
            scn = history_of(prop, seed, tier, [i])
            scns = None
            for cand in ([scn] if not hist else [scn, history_of(prop, seed, tier, hist) + scn]):
                r, _ = eng.execute(variant, cand)
                if r['v'] and r['v']['cls'] == v['cls'] and not (r.get('dead') and r['at'] != 's%d' % (len(cand) - 1)):
                    scns = cand
                    break
            if scns is None:
                eng.unreproduced.append({'run': i, 'violation': v})
                print('run %d: not reproduced in a fresh process' % i, flush=True)
                if len(eng.unreproduced) >= 3:
                    raise Harness('violations that do not reproduce: %s' % eng.unreproduced)
                remaining = [j for j in remaining if j not in done]
                continue
            mini, tried = eng.minimise(variant, scns, v['cls'])
            r, _ = eng.execute(variant, mini)
            if not (r['v'] and r['v']['cls'] == v['cls']):
                mini = scns
                r, _ = eng.execute(variant, mini)
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', '%s-seed%s-run%d.json' % (prop.id, seed, i))
            with open(path, 'w') as f:
                json.dump({'property': prop.id, 'seed': seed, 'run': i, 'variant': variant, 'scenarios': mini,
                           'expect': {'cls': r['v']['cls'], 'msg': r['v']['msg'], 'digest': r['d']},
                           'original_scenarios': len(scns), 'candidates_tried': tried}, f, indent=1)
            print('violation: %s: %s' % (r['v']['cls'], r['v']['msg']))
            print('VIOLATION property=%s replay=%s' % (prop.id, path), flush=True)
            reported, exit_code = path, 1
            break
    finally:
        eng.close()
    wall_run = time.monotonic() - t_run0
    if exit_code == 0 and agg['evals'] < 0.3 * n:
        raise Harness('only %d of %d runs finished within the wall limit' % (agg['evals'], n))
    for e in known_hits.values():
        print('KNOWN-FINDING: property=%s %s' % (prop.id, e['what']))
    from .worker import scenario
    samples = [scenario(prop, seed, i, tier) for i in (0, 1, 7) if i < n]
    ev = {
        'property': prop.id, 'tier': tier, 'seed': int(seed), 'level': prop.level,
        'coverage': {
            'evaluations': agg['evals'], 'distinct_nontrivial': len(agg['keys']),
            'rule': prop.rule, 'samples': samples,
            'planned_runs': n, 'wall_cap_hit': bool(eng.capped),
            'runs_per_hour': int(agg['evals'] / max(wall_run, 1e-6) * 3600),
            'seed_rule': 'each run has a seed of its own, derived from the given seed, the property and the run number',
            'simulated_time': {'measure': 'steps of the simulated threads and processes (logical time; the code has no clock)',
                               **{k: v for k, v in agg['st'].items()}},
            'faults_injected': dict(sorted(agg['faults'].items())),
            'probes': dict(sorted(agg['probes'].items())),
            'distinct_interleavings': len(agg['il']),
            'interleaving_measure': 'hash of all scheduling decisions (region, thread, step, target) of a run',
            'components_real': prop.real, 'components_stub': prop.stub,
            'processes': eng.n_procs, 'unreproduced': eng.unreproduced,
            'known_findings_seen': sorted(known_hits),
        },
        'assumptions': prop.assumptions,
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': 1 if exit_code else 0,
    }
    if reported:
        ev['coverage']['replay'] = reported
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.json.tmp' % prop.id)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop.id + '.json'))
    print('%s %s seed=%s: %d runs, %d distinct non-trivial, %d interleavings, build %.1f s, total %.1f s'
          % (prop.id, tier, seed, agg['evals'], len(agg['keys']), len(agg['il']), t_build, time.monotonic() - t0))
    print('faults: %s' % ev['coverage']['faults_injected'])
    print('probes: %s' % ev['coverage']['probes'])
    return exit_code


def replay(prop, path):
    with open(path) as f:
        rp = json.load(f)
    eng = Engine(prop, 'quick', rp.get('seed', 1))
    try:
        r, _ = eng.execute(rp['variant'], rp['scenarios'])
    finally:
        eng.close()
    if r['v']:
        same = r['v']['cls'] == rp['expect']['cls'] and r['d'] == rp['expect']['digest']
        print('%s: %s%s' % (r['v']['cls'], r['v']['msg'], '' if same else ' (differs from the recorded outcome)'))
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    print('not reproduced: the property holds on this history')
    return 0


def selftest(prop, seeds, runs):
    """Determinism: digests must agree across process counts and hash seeds."""
    bad = 0
    for s in seeds:
        logs = []
        for nw, hs in ((8, '0'), (4, '12345'), (2, 'random')):
            eng = Engine(prop, 'quick', s)
            d = {}
            v = eng.batch(list(range(runs)), lambda i, r, var: d.__setitem__(i, r['d']), nworkers=nw,
                          env_extra={'PYTHONHASHSEED': hs}, stop_on_violation=False)
            eng.close()
            logs.append((d, [(x[0], x[2]['cls']) for x in v]))
        for k in range(1, len(logs)):
            diff = [i for i in range(runs) if logs[0][0].get(i) != logs[k][0].get(i)]
            if diff or logs[0][1] != logs[k][1]:
                bad += 1
                print('seed %s: %d digests differ, e.g. run %s; violations %s vs %s' % (s, len(diff), diff[:5], logs[0][1][:3], logs[k][1][:3]))
        print('seed %s: %d runs x 3 configurations compared, violations %d' % (s, runs, len(logs[0][1])), flush=True)
    print('determinism of %s: %s' % (prop.id, 'FAILED' if bad else 'ok'))
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--selftest', type=int, metavar='SEEDS')
    ap.add_argument('--profile', action='store_true')
    a = ap.parse_args()
    from .worker import load
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    prop = load(a.property)
    try:
        if a.replay:
            return replay(prop, a.replay)
        if a.selftest:
            return selftest(prop, [int(a.seed) + k for k in range(a.selftest)], a.runs or 200)
        return check(prop, tier, int(a.seed), a.runs)
    except (Harness, build.BuildError) as e:
        print('ERROR of the check itself: %s' % e, file=sys.stderr)
        return 2

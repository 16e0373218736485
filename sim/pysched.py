"""Seeded scheduling of client threads.

Clients are real threads, but only the one holding the baton runs.  The baton
changes hands at executed lines (or byte codes) of the code under test, at
progress reports, at simulated locks and, when native code has given up the
interpreter lock, at the parallel regions it enters and leaves.  Every choice
comes from a seeded generator or from a recorded plan."""
import ctypes
import hashlib
import random
import sys
import threading
import _thread

from . import boot

_current = {}                 # thread ident -> (scheduler, client number)
_real_lock = _thread.allocate_lock


class SimLock:
    """threading.Lock that a simulated client waits for by giving up the baton"""

    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        me = _current.get(_thread.get_ident())
        if me is None or not blocking:
            return self._l.acquire(blocking, timeout) if blocking else self._l.acquire(False)
        n = 0
        while not self._l.acquire(False):
            n += 1
            if timeout is not None and timeout >= 0 and n > 50:
                return False
            me[0].blocked(me[1])
        me[0].unblocked(me[1])
        return True

    def release(self):
        self._l.release()
        me = _current.get(_thread.get_ident())
        if me is not None:
            me[0].freed()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(threading._RLock):
    def __init__(self):
        super().__init__()
        self._block = SimLock()


def install():
    """before the code under test is imported"""
    threading.Lock = SimLock
    threading.RLock = SimRLock


TOOL = 3
_codes = None                 # code objects of the code under test


def _walk(co, out):
    if co in out:
        return
    out[co] = None
    for c in co.co_consts:
        if isinstance(c, type(co)):
            _walk(c, out)


def _find_codes():
    pkg = boot.REPO + '/longitudinal_tomography/'
    out = {}

    def add(f):
        f = getattr(f, '__func__', f)
        f = getattr(f, '__wrapped__', f)
        co = getattr(f, '__code__', None)
        if co is not None and co.co_filename.startswith(pkg):
            _walk(co, out)

    for name in sorted(sys.modules):
        if name.split('.')[0] != 'longitudinal_tomography' or not hasattr(sys.modules[name], '__dict__'):
            continue
        for v in list(vars(sys.modules[name]).values()):
            if isinstance(v, type) and (v.__module__ or '').startswith('longitudinal_tomography'):
                for w in list(vars(v).values()):
                    for g in (w.fget, w.fset, w.fdel) if isinstance(w, property) else (w,):
                        if g is not None:
                            add(g)
            else:
                add(v)
    return list(out)


def _event(code, where):
    me = _current.get(_thread.get_ident())
    if me is not None:
        me[0].point(me[1])


def watch(ops):
    """switch points at lines or at byte codes of the code under test"""
    global _codes
    m = sys.monitoring
    if _codes is None:
        m.use_tool_id(TOOL, 'sim')
        m.register_callback(TOOL, m.events.LINE, _event)
        m.register_callback(TOOL, m.events.INSTRUCTION, _event)
        _codes = {c: 0 for c in _find_codes()}
    ev = m.events.INSTRUCTION if ops else m.events.LINE
    for c, e in _codes.items():
        if e != ev:
            m.set_local_events(TOOL, c, ev)
            _codes[c] = ev


class Deadlock(Exception):
    pass


class Stopped(BaseException):
    """ends a client whose run is over"""


class Scheduler:
    def __init__(self, cfg, clients):
        self.cfg = cfg
        self.clients = clients
        self.n = len(clients)
        self.baton = [_real_lock() for _ in range(self.n)]
        for b in self.baton:
            b.acquire()
        self.done_lock = _real_lock()
        self.done_lock.acquire()
        self.steps = [0] * self.n
        self.total = 0
        self.switches = 0
        self.rec = []
        self.alive = set(range(self.n))
        self.waiting = set()          # clients blocked on a lock
        self.errors = [None] * self.n
        self.dead = False
        self.h = hashlib.sha256()
        self.rng = random.Random(cfg.get('seed', 1))
        self.plan = None
        if cfg.get('plan') is not None:
            self.plan = {}
            for c, st, t in cfg['plan']:
                self.plan[(c, st)] = t
        self.cap = cfg.get('cap', 2_000_000)
        self.mode = cfg.get('strategy', 'random')
        self.p = cfg.get('p', 0.05)
        self.prio = list(range(self.n))
        self.rng.shuffle(self.prio)
        self.points = set()
        if self.mode == 'pct':
            # points counted over all executed steps
            self.points = {self.rng.randrange(1, max(2, cfg.get('len', 400))) for _ in range(cfg.get('depth', 3))}
        self.native_free = 0

    # ----------------------------------------------------------- decisions
    def runnable(self, but=None):
        return [c for c in sorted(self.alive) if c != but and c not in self.waiting]

    def choose(self, me, step):
        """client to run next; me to go on"""
        if self.plan is not None:
            t = self.plan.get((me, step))
            return t if t is not None and t in self.alive and t not in self.waiting else me
        if self.mode == 'pct':
            if self.total in self.points:
                self.prio[me] = min(self.prio) - 1
            best = max(self.runnable(), key=lambda c: self.prio[c])
            return best
        if self.mode == 'rtc':
            return me
        if self.mode == 'rr' or self.rng.random() < self.p:
            o = self.runnable(me)
            return self.rng.choice(o) if o else me
        return me

    def point(self, me):
        """client me may lose the baton here"""
        if self.dead:
            raise Stopped()
        self.total += 1
        s = self.steps[me] = self.steps[me] + 1
        if self.total > self.cap:
            self.dead = True
            self.errors[me] = Deadlock('no progress: step limit exceeded')
            raise Stopped()
        t = self.choose(me, s)
        if t != me:
            self.hand(me, s, t)

    def hand(self, me, step, to):
        self.switches += 1
        self.rec.append([me, step, to])
        self.h.update(b'%d.%d.%d;' % (me, step, to))
        self.baton[to].release()
        self.baton[me].acquire()
        if self.dead:
            raise Stopped()

    def blocked(self, me):
        """me waits for a lock"""
        if self.dead:
            raise Stopped()
        self.waiting.add(me)
        o = self.runnable()
        if not o:
            # all wait: the lock may be held by a client that is gone
            self.dead = True
            self.errors[me] = Deadlock('all clients wait for locks')
            raise Stopped()
        self.steps[me] += 1
        t = self.rng.choice(o) if self.plan is None else self.plan.get((me, self.steps[me]), o[0])
        if t not in o:
            t = o[0]
        self.hand(me, self.steps[me], t)

    def freed(self):
        self.waiting.clear()

    def unblocked(self, me):
        self.waiting.discard(me)

    # ------------------------------------------------------------- running
    def body(self, me):
        self.baton[me].acquire()
        ident = _thread.get_ident()
        _current[ident] = (self, me)
        try:
            if not self.dead:
                self.clients[me](lambda: self.point(me))
        except Stopped:
            pass
        except BaseException as e:
            if self.errors[me] is None:
                self.errors[me] = e
        finally:
            _current.pop(ident, None)
            self.alive.discard(me)
            self.waiting.clear()
            o = sorted(self.alive)
            if not o:
                self.done_lock.release()
            else:
                self.steps[me] += 1
                if self.dead:
                    t = o[0]
                elif self.plan is not None:
                    t = self.plan.get((me, self.steps[me]), o[0])
                    t = t if t in o else o[0]
                elif self.mode == 'pct':
                    t = max(o, key=lambda c: self.prio[c])
                else:
                    t = self.rng.choice(o)
                self.rec.append([me, self.steps[me], t])
                self.h.update(b'%d.e.%d;' % (me, t))
                self.baton[t].release()

    def run(self):
        if not self.n:
            return
        boot.rt.on_region(self.region)
        watch(self.cfg.get('gran') == 'op')
        ths = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        if self.plan is not None:
            first = self.plan.get((-1, 0), 0)
        elif self.mode == 'pct':
            first = max(range(self.n), key=lambda c: self.prio[c])
        else:
            first = self.rng.randrange(self.n)
        self.rec.append([-1, 0, first])
        self.baton[first].release()
        self.done_lock.acquire()
        for t in ths:
            t.join()
        boot.rt.on_region(None)

    def region(self):
        """native code without the interpreter lock enters or leaves a parallel region"""
        me = _current.get(_thread.get_ident())
        if me is not None and me[0] is self and not self.dead:
            self.native_free += 1
            try:
                self.point(me[1])
            except Stopped:
                pass


def gen(rng, n_steps=400):
    m = rng.choice(['random', 'random', 'random', 'pct', 'pct', 'rr', 'rtc'])
    return {'seed': rng.getrandbits(40), 'strategy': m, 'p': rng.choice([0.003, 0.01, 0.03, 0.1, 0.3, 0.7]), 'depth': rng.choice([1, 2, 3, 5]),
            'len': rng.choice([30, 100, 400, 1500]), 'gran': rng.choice(['line', 'line', 'op'])}

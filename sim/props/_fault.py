"""Computations that are made to fail: what must hold afterwards."""
import gc

import numpy as np

from .. import boot, gens, models, work
from ..prop import Prop, Violation

OBJECTS = ('run', 'run_multi', 'hybrid', 'hybrid_multi', 'track')


def snap(d):
    return {k: np.array(v, copy=True) for k, v in d.items()}


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')


class Subject:
    """A job whose object and results persist over several calls."""

    def __init__(self, p, R):
        self.p, self.R = p, R
        self.first = work.make(dict(p))
        self.obj = None
        self.results = []     # (array, copy) handed out so far
        self.keep = None

    def fresh(self):
        j = work.make(dict(self.p))
        if self.p['kind'] in OBJECTS:
            if self.obj is None:
                self.obj = j.build()
            j.build = lambda: self.obj
        return j

    def good(self, what, begin=None):
        """the computation undisturbed; remembers what it gave"""
        j = self.fresh()
        out = exc = None
        if begin:
            begin()
        try:
            out = j.call()
        except Violation:
            raise
        except Exception as e:
            exc = e
        v = j.judge(out, exc, self.R)
        if out is not None:
            self.results += [(np.asarray(o), np.array(o, copy=True)) for o in out]
        self.keep = snap(j.held()) if self.obj is not None and exc is None else None
        self.R.probe('%s:%s' % (what, v))
        return v

    def unchanged(self, j, what):
        for a, b in self.results:
            if not same(np.asarray(a), b):
                raise Violation('result-changed', '%s: a result handed out earlier changed' % what)
        if self.keep is not None:
            now = j.held()
            for k, v in self.keep.items():
                if k not in now or not same(np.asarray(now[k]), v):
                    raise Violation('object-changed', '%s: %s of the object changed' % (what, k))
        j.inputs_intact()


def leak_check(rt, before, again, what):
    """native blocks grew: is it a leak, or a cache filled once?"""
    if rt.live()[0] <= before[0]:
        return
    gc.collect()
    if rt.live()[0] <= before[0]:
        return
    n = [rt.live()[0]]
    for _ in range(3):
        again()
        gc.collect()
        n.append(rt.live()[0])
    if n[0] < n[1] < n[2] < n[3]:
        raise Violation('leak', '%s: %d native blocks leaked' % (what, n[3] - n[2]))


def settle():
    """what exists before the first run is not the business of a run"""
    gc.collect()
    gc.freeze()

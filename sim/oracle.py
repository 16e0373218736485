"""What a process that did nothing else before obtains for a call."""
import gc
import os
import pickle
import struct
import sys


def _read(fd, n):
    b = b''
    while len(b) < n:
        d = os.read(fd, n - len(b))
        if not d:
            return None
        b += d
    return b


def _write(fd, b):
    while b:
        b = b[os.write(fd, b):]


class Oracle:
    """A process forked before the first run; it forks one child per question."""

    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        gc.collect()
        gc.freeze()
        self.pid = os.fork()
        if self.pid == 0:
            keep = sorted((a, d))
            os.closerange(3, keep[0])
            os.closerange(keep[0] + 1, keep[1])
            os.closerange(keep[1] + 1, 256)
            try:
                self.serve(a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c
        self.cache = {}

    def serve(self, a, d):
        while True:
            h = _read(a, 8)
            if h is None:
                return
            q = _read(a, struct.unpack('<q', h)[0])
            pid = os.fork()
            if pid == 0:
                try:
                    fn, args = pickle.loads(q)
                    try:
                        out = ('ok', fn(*args))
                    except BaseException as e:
                        out = ('fail', '%s: %s' % (type(e).__name__, e))
                    b = pickle.dumps(out)
                    _write(d, struct.pack('<q', len(b)) + b)
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st:
                b = pickle.dumps(('fail', 'died with status %d' % st))
                _write(d, struct.pack('<q', len(b)) + b)

    def ask(self, fn, *args):
        """('ok', value) or ('fail', text)"""
        b = pickle.dumps((fn, args))
        if b in self.cache:
            return self.cache[b]
        _write(self.w, struct.pack('<q', len(b)) + b)
        h = _read(self.r, 8)
        if h is None:
            return 'fail', 'the reference process is gone'
        r = pickle.loads(_read(self.r, struct.unpack('<q', h)[0]))
        if len(self.cache) > 50:
            self.cache.clear()
        self.cache[b] = r
        return r


def alone(params):
    """results of jobs done one after the other... each in its own process"""
    import numpy as np
    from . import boot, gens, work
    boot.rt.begin(gens.SEQ)
    j = work.make(params)
    try:
        out = j.call()
    except Exception as e:
        return 'exc', type(e).__name__
    return 'out', [np.array(o) for o in out]

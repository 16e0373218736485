"""A process whose file and pipe calls go through the simulated I/O layer.

The process is a fork of this one.  Standard input and output are simulated
pipes; files below one scratch directory are real, and every call on them or on
the pipes may be shortened, interrupted, refused, or be the last one."""
import ctypes
import errno
import gc
import io
import mmap
import os
import pickle
import sys
import traceback

from . import boot

CLS = {'read': 0, 'write': 1, 'open': 2, 'close': 3, 'seek': 4, 'stat': 5, 'sync': 6, 'name': 7}
NAMES = list(CLS)
ACT = {'short': 2, 'crash': 3, 'crash_after': 4, 'eof': 5}
CAP_EV, CAP_OUT = 20000, 1 << 20
CRASHED, BLOCKED = 77, 78

_lib = None
_mem = None


class Head(ctypes.Structure):
    _fields_ = [(n, ctypes.c_uint64) for n in ('n_ev', 'cap_ev', 'n_out', 'cap_out', 'n_trap', 'n_short', 'n_eintr', 'n_err', 'n_crash', 'n_full', 'blocked', 'lost_in')] + \
        [('count', ctypes.c_int * len(CLS)), ('name', (ctypes.c_char * 96) * 64)]


class Event(ctypes.Structure):
    _fields_ = [('cls', ctypes.c_int), ('file', ctypes.c_int), ('req', ctypes.c_int), ('res', ctypes.c_int), ('clock', ctypes.c_uint64), ('off', ctypes.c_uint64)]


def lib():
    global _lib, _mem
    if _lib is None:
        _lib = ctypes.CDLL(os.path.join(boot.RT_DIR, 'iosim.so'))
        _lib.iosim_sizes.restype = ctypes.c_size_t
        assert _lib.iosim_sizes(0) == ctypes.sizeof(Head) and _lib.iosim_sizes(1) == ctypes.sizeof(Event)
        _lib.iosim_setup.argtypes = [ctypes.c_void_p, ctypes.c_uint64, ctypes.c_uint64, ctypes.c_char_p, ctypes.c_uint64, ctypes.c_int, ctypes.c_int, ctypes.c_int,
                                     ctypes.c_int, ctypes.c_long, ctypes.c_void_p]
        _lib.iosim_setup.restype = None
        _lib.iosim_plan.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        _lib.iosim_stdin.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_int]
        n = ctypes.sizeof(Head) + CAP_EV * ctypes.sizeof(Event) + CAP_OUT
        _mem = mmap.mmap(-1, n)
    return _lib


class Outcome:
    """how: 'ok' (value), 'exc' (name, text), 'crashed', 'blocked', 'died' (status)"""

    def __init__(self, how, value, head, events, out, names):
        self.how, self.value, self.events, self.out, self.names = how, value, events, out, names
        self.count = {n: head.count[i] for n, i in CLS.items()}
        self.shorts, self.eintr, self.errors, self.crashes, self.full, self.traps = head.n_short, head.n_eintr, head.n_err, head.n_crash, head.n_full, head.n_trap

    def hard(self):
        """was anything refused for good?"""
        return self.errors + self.full

    def account(self, R, extra=''):
        R.fault('short_transfer', self.shorts)
        R.fault('interrupted_call', self.eintr)
        R.fault('failed_call', self.errors)
        R.fault('disk_full', self.full)
        R.fault('crash', self.crashes)
        R.st['io_calls'] = R.st.get('io_calls', 0) + self.traps

    def writes(self):
        """deliveries on standard output: (clock, end offset)"""
        return [(e.clock, e.off + e.res) for e in self.events if e.cls == 1 and e.file == 1 and e.res > 0]

    def text(self):
        return self.out.decode('utf-8', 'replace')


def resolve(faults, count):
    """(class, index, action, argument) of drawn faults, given the calls of a run without faults"""
    out = []
    for f in faults:
        n = count.get(f['cls'], 0)
        if n <= 0:
            continue
        at = min(int(f['u'] * n), n - 1)
        a = f['act']
        if a in ACT:
            out.append((CLS[f['cls']], at, ACT[a], f.get('arg', 0)))
        else:
            out.append((CLS[f['cls']], at, 1, getattr(errno, a)))
    return out


def run(fn, directory, stdin=b'', keep_open=False, cfg=None, plan=(), keep_fds=()):
    """Outcome of fn() in a simulated process"""
    L = lib()
    cfg = cfg or {}
    sys.stdout.flush()
    libc = ctypes.CDLL(None)
    libc.fflush(None)
    base = ctypes.addressof(ctypes.c_char.from_buffer(_mem))
    ctypes.memset(base, 0, ctypes.sizeof(Head))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 79
        try:
            os.close(r)
            gc.disable()
            i = os.pipe()
            o = os.pipe()
            os.dup2(i[0], 0)
            os.dup2(o[1], 1)
            sys.stdin = io.open(0, 'r', closefd=False)
            if cfg.get('unbuffered'):
                libc.setvbuf(ctypes.c_void_p.in_dll(libc, 'stdout'), None, 2, 0)
                sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False), write_through=True)
            else:
                sys.stdout = io.open(1, 'w', closefd=False)
            L.iosim_setup(base, CAP_EV, CAP_OUT, os.fsencode(directory), cfg.get('seed', 1), cfg.get('frag_in', 0), cfg.get('frag_out', 0), cfg.get('frag_file', 0),
                          cfg.get('eintr', 0), cfg.get('disk', -1), ctypes.cast(boot.rt.lib.sim_clock, ctypes.c_void_p))
            for p in plan:
                L.iosim_plan(*p)
            L.iosim_stdin(stdin, len(stdin), 1 if keep_open else 0)
            e = L.iosim_install()
            if e:
                raise RuntimeError('no system call seam: %d' % e)
            try:
                v = ('ok', fn())
            except SystemExit as x:
                v = ('ok', None) if not x.code else ('exc', ('SystemExit', str(x.code)))
            except BaseException as x:
                v = ('exc', (type(x).__name__, str(x)[:300]))
            try:                 # what the interpreter does at its end
                sys.stdout.flush()
            except BaseException as x:
                v = ('exc', (type(x).__name__, 'at exit: %s' % x))
            libc.fflush(None)
            b = pickle.dumps(v)
            while b:
                b = b[os.write(w, b):]
            code = 0
        except BaseException:
            sys.stderr.write(traceback.format_exc())
        finally:
            os._exit(code)
    os.close(w)
    b = b''
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        b += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    head = Head.from_buffer_copy(_mem)
    n = min(head.n_ev, CAP_EV)
    ev = (Event * n).from_buffer_copy(_mem, ctypes.sizeof(Head)) if n else []
    off = ctypes.sizeof(Head) + CAP_EV * ctypes.sizeof(Event)
    out = bytes(_mem[off:off + head.n_out])
    names = [bytes(head.name[k].value).decode() for k in range(64) if head.name[k].value]
    how, value = 'died', st
    if os.WIFEXITED(st):
        c = os.WEXITSTATUS(st)
        if c == CRASHED and head.n_crash:
            how = 'crashed'
        elif c == BLOCKED and head.blocked:
            how = 'blocked'
        elif c == 0 and b:
            how, value = pickle.loads(b)
        elif c == 79:
            raise RuntimeError('the simulated process could not be set up')
    return Outcome(how, value, head, list(ev), out, names)

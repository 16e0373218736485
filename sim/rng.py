"""The random number generator behind numpy.random, replaced by a chosen stream."""
import ctypes
import random
import threading

import numpy as np

_vp, _u64 = ctypes.c_void_p, ctypes.c_uint64
F64 = ctypes.CFUNCTYPE(ctypes.c_uint64, _vp)
F32 = ctypes.CFUNCTYPE(ctypes.c_uint32, _vp)
FD = ctypes.CFUNCTYPE(ctypes.c_double, _vp)
TOP = 1.0 - 2.0 ** -53


class _Bitgen(ctypes.Structure):
    _fields_ = [('state', _vp), ('next_uint64', F64), ('next_uint32', F32), ('next_double', FD), ('next_raw', F64)]


def _capsule(p):
    new = ctypes.pythonapi.PyCapsule_New
    new.restype = ctypes.py_object
    new.argtypes = [_vp, ctypes.c_char_p, _vp]
    return new(p, b'BitGenerator', None)


class Stub:
    """a bit generator whose uniform numbers are drawn from a list of special values and from a seeded generator"""

    def __init__(self, seed, special, share):
        self.r = random.Random(seed)
        self.special, self.share = special, share
        self.n = self.extreme = 0
        self.lock = threading.Lock()

        def uniform():
            self.n += 1
            if self.r.random() < self.share:
                self.extreme += 1
                return self.r.choice(self.special)
            return self.r.getrandbits(53) * 2.0 ** -53

        def bits(n):
            return int(uniform() * (1 << 53)) >> (53 - n) if n <= 53 else int(uniform() * (1 << 53)) << 11
        self._f = (F64(lambda s: bits(64)), F32(lambda s: bits(32)), FD(lambda s: uniform()))
        self._b = _Bitgen(None, self._f[0], self._f[1], self._f[2], self._f[0])
        self.capsule = _capsule(ctypes.addressof(self._b))
        self.state = {'bit_generator': 'Stub'}


_own = None


def use(stream):
    """select the stream of numpy.random: {'seed'} or {'seed', 'special', 'share'}"""
    global _own
    if _own is None:
        _own = np.random.get_bit_generator()
    if 'special' in stream:
        b = Stub(stream['seed'], stream['special'], stream['share'])
        np.random.set_bit_generator(b)
        use.keep = b
        return b
    np.random.set_bit_generator(_own)
    np.random.seed(stream['seed'] & 0xffffffff)
    return None


def restore():
    if _own is not None:
        np.random.set_bit_generator(_own)
        np.random.seed(1)

"""Memory monitors for JIT-compiled code: electric fences (PROT_NONE pages) and canary red zones."""
import ctypes, mmap, os
import numpy as np

PAGE = mmap.PAGESIZE
_libc = ctypes.CDLL(None, use_errno=True)
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
PROT_NONE, PROT_READ, PROT_RW = 0, 1, 3
_keep = []


def _protect(addr, n, prot):
    if _libc.mprotect(addr, n, prot) != 0:
        raise OSError(ctypes.get_errno(), "mprotect")


class Fence:
    """allocator of arrays whose end (or start) touches an inaccessible page"""

    def __init__(self):
        self.maps = []

    def array(self, a, side="end", readonly=False, order=None):
        a = np.asarray(a)
        nb = a.nbytes
        body = max(PAGE, (nb + PAGE - 1) // PAGE * PAGE)
        m = mmap.mmap(-1, body + 2 * PAGE)
        base = ctypes.addressof(ctypes.c_char.from_buffer(m))
        off = PAGE + (body - nb if side == "end" else 0)
        if order is None:
            order = "F" if (a.flags.f_contiguous and not a.flags.c_contiguous) else "C"
        buf = np.frombuffer((ctypes.c_char * max(nb, 1)).from_address(base + off), dtype=np.uint8)[:nb]
        v = buf.view(a.dtype).reshape(a.shape, order=order)
        v[...] = a
        _protect(base, PAGE, PROT_NONE)
        _protect(base + PAGE + body, PAGE, PROT_NONE)
        if readonly:  # a write to an input faults even if the array claims to be writeable
            _protect(base + PAGE, body, PROT_READ)
        self.maps.append((m, base, body))
        return v

    def release(self):
        for m, base, body in self.maps:
            _protect(base, body + 2 * PAGE, PROT_RW)
        # the numpy views must be gone before this; mmap objects are freed with the references
        self.maps = []


SENT = -7.25e77


class Canary:
    """an output view inside a larger buffer filled with sentinels"""

    def __init__(self, shape, kind="C", fill=np.nan, dtype=float):
        if kind == "C":
            n = int(np.prod(shape)) if shape else 1
            self.big = np.full(n + 128, SENT, dtype=dtype)
            self.out = self.big[64:64 + n].reshape(shape)
        elif kind == "F":
            n = int(np.prod(shape)) if shape else 1
            self.big = np.full(n + 128, SENT, dtype=dtype)
            self.out = self.big[64:64 + n].reshape(shape, order="F")
        else:  # strided interior view
            self.big = np.full(tuple(2 * s + 5 for s in shape), SENT, dtype=dtype)
            self.out = self.big[tuple(slice(2, 2 + 2 * s, 2) for s in shape)]
        self.out[...] = fill
        self.mask = np.ones(self.big.shape, dtype=bool)
        addr = self.out
        tmp = np.zeros(self.big.shape, dtype=np.uint8)
        if kind in "CF":
            self.mask[64:64 + n] = False
        else:
            self.mask[tuple(slice(2, 2 + 2 * s, 2) for s in shape)] = False

    def intact(self):
        return bool(np.all(self.big[self.mask] == SENT))

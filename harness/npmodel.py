"""a model of the numpy array API used by the codex: shape, dtype and symbolic element bytes"""
import math
import numpy as np
from sx import core
from sx.loader import FakeModule
from sx.proxies import *
from harness.shm import Buf, Blk


def Inc(x): raise core.Inconclusive("array operation: " + x)


class NdArray:
    def __init__(self, shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
        if strides is not None: Inc("strides")
        self.dtype = np.dtype(dtype)
        if isinstance(shape, (int, SymInt)): shape = (shape,)
        self.shape = tuple(int(s.__index__()) for s in shape)
        self.order = "F" if order == "F" and len(self.shape) > 1 else "C"
        n = self.nbytes
        if buffer is None:
            self.blk, self.lo = Blk([0] * n), 0
        elif type(buffer) is Buf:
            self.blk, self.lo = buffer.blk, buffer.lo + offset
            if len(buffer) < n + offset: raise TypeError("buffer is too small for requested array")
        else:
            c = SymBytes.cells(buffer)
            if c is None: Inc("buffer")
            if len(c) < n + offset: raise TypeError("buffer is too small for requested array")
            self.blk, self.lo = Blk(list(c)), offset
        if self.dtype.hasobject and buffer is not None: raise ValueError("cannot construct an array of objects from a buffer")

    size = property(lambda s: math.prod(s.shape))
    itemsize = property(lambda s: s.dtype.itemsize)
    nbytes = property(lambda s: s.size * s.dtype.itemsize)
    ndim = property(lambda s: len(s.shape))
    base = None

    def _set_cells(self, c): self.blk.cells[self.lo:self.lo + self.nbytes] = list(c)
    def __sx_cells__(self): return self.blk.cells[self.lo:self.lo + self.nbytes]

    @property
    def data(self):
        if self.order == "F" or self.ndim != 1 or self.itemsize != 1: Inc("buffer of an array")
        return Buf(self.blk, self.lo, self.lo + self.nbytes)

    def _view(self, shape=None):
        r = object.__new__(type(self))
        r.dtype, r.shape, r.order, r.blk, r.lo = self.dtype, self.shape if shape is None else shape, self.order, self.blk, self.lo
        return r

    def copy(self, order="C"):
        r = self._view()
        r.blk, r.lo = Blk(list(self.__sx_cells__())), 0
        if order == "C" or order == "F" and self.ndim < 2: r.order = "C"
        elif order == "F": r.order = "F"
        return r

    def _ordered(self, order):
        """element bytes in a memory order"""
        c = list(self.__sx_cells__())
        if order in ("C", None) or order in ("A", "K") and self.order == "C": return c
        n = self.itemsize
        at = np.arange(self.size).reshape(self.shape).ravel("F").tolist()
        return [x for i in at for x in c[i * n:i * n + n]]
    __copy__ = copy
    def __deepcopy__(self, memo): return self.copy()

    def _whole(self, k):
        if k is Ellipsis or k == (): return
        if type(k) is tuple and k and all(x == slice(None) or x is Ellipsis for x in k) and len(k) <= self.ndim: return
        if type(k) is slice:
            if self.ndim == 0: raise IndexError("too many indices for array: array is 0-dimensional, but 1 were indexed")
            if k == slice(None) or k.indices(self.shape[0]) == (0, self.shape[0], 1): return
        Inc("index")

    def __getitem__(self, k):
        self._whole(k)
        return self._view()

    def __setitem__(self, k, v):
        self._whole(k)
        if not isinstance(v, NdArray): Inc("assignment of a non-array")
        if v.dtype != self.dtype: Inc("conversion")
        if v.shape != self.shape:
            if v.size == 1 and v.ndim <= max(self.ndim, 1): self._set_cells(v.__sx_cells__() * self.size); return
            if v.size == self.size == 0: return
            try: np.broadcast_shapes(v.shape, self.shape)
            except ValueError: raise ValueError("could not broadcast input array")
            if np.broadcast_shapes(v.shape, self.shape) != self.shape: raise ValueError("could not broadcast input array")
            Inc("broadcast")
        self._set_cells(v.__sx_cells__())

    def tobytes(self, order="C"):
        return SymBytes.mk(self._ordered(order))

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and not isinstance(shape[0], int): shape = tuple(shape[0])
        if order != "C": Inc("order")
        if -1 in shape:
            rest = -math.prod(shape)
            if rest == 0 or self.size % rest: raise ValueError("cannot reshape")
            shape = tuple(self.size // rest if s == -1 else s for s in shape)
        if math.prod(shape) != self.size: raise ValueError("cannot reshape array")
        r = self._view(tuple(shape))
        if self.order == "F": r.blk, r.lo = Blk(list(self.__sx_cells__())), 0
        r.order = "C"
        return r

    def ravel(self, order="C"):
        if order == "F" and self.ndim > 1 or order in ("K", "A") and self.order == "F":
            r = NdArray((self.size,), self.dtype)
            r._set_cells(self._ordered(order))
            return r
        return self.reshape(-1) if self.size else self.reshape((0,))
    def flatten(self, order="C"): return self.ravel(order).copy()
    def astype(self, dtype, **k):
        if np.dtype(dtype) != self.dtype: Inc("conversion")
        return self.copy()
    def __len__(self):
        if not self.shape: raise TypeError("len() of unsized object")
        return self.shape[0]
    def __getattr__(self, n): Inc(n)
    def __bool__(self): Inc("truth value")
    def __eq__(self, o): Inc("comparison")
    __hash__ = None


def _asarray(x, dtype=None, **k):
    if not isinstance(x, NdArray): Inc("asarray")
    return x if dtype is None else x.astype(dtype)


def _copyto(dst, src, **k): dst[...] = src


def module():
    def frombuffer(b, dtype=float, count=-1, offset=0):
        n = (len(SymBytes.cells(b)) - offset) // np.dtype(dtype).itemsize if count == -1 else count
        return NdArray((n,), dtype, b, offset)
    return FakeModule("numpy", np, {
        "ndarray": NdArray, "frombuffer": frombuffer, "asarray": _asarray, "asanyarray": _asarray,
        "ascontiguousarray": lambda x: (x.reshape((1,)) if not x.shape else x) if x.order == "C" or not x.shape else _c(x),
        "array": lambda x, *a, **k: _asarray(x).copy(), "copyto": _copyto,
        "copy": lambda x, order="K": x.copy(order), "empty": lambda s, dtype=float, **k: NdArray(s, dtype), "zeros": lambda s, dtype=float, **k: NdArray(s, dtype)})


def _c(x):
    r = x.copy(); r.order = "C"
    return r


def make(ctx, name, shape, dtype, order="C"):
    """an array of arbitrary elements"""
    dt = np.dtype(dtype)
    n = math.prod(shape) * dt.itemsize
    d = ctx.bytes(name, n, n, hi=1 if dt == bool else 255)
    if ctx.symbolic: return NdArray(shape, dt, d, order=order)
    a = np.frombuffer(d, dtype=dt).reshape(shape).copy()
    return np.asfortranarray(a) if order == "F" else a


def equal(a, b):
    """same shape, dtype and elements (bit by bit)"""
    if not hasattr(a, "dtype") or a.dtype != b.dtype or tuple(a.shape) != tuple(b.shape): return False
    if isinstance(a, NdArray): return cells_eq(a.__sx_cells__(), b.__sx_cells__())
    return a.tobytes() == b.tobytes()

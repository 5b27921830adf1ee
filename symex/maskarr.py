"""numpy.ma, as far as images with masked pixels need it."""
import types

import numpy as np

from . import nparr
from .nparr import HANDLED, SymArray


class _Masked:
    def __repr__(self):
        return '--'

    def __float__(self):
        return float('nan')


masked = _Masked()
nomask = False


def _arr(x, dtype=None):
    return x if isinstance(x, SymArray) and dtype is None else \
        nparr.f_array(x, dtype)


def _full(shape, v):
    return nparr.f_full(shape, v, bool)


class MaskedArray:
    """data and mask; assigning an element unmasks it"""
    __array_priority__ = 1000

    def __init__(self, data, mask=False, dtype=None, copy=False,
                 fill_value=None, **kw):
        if isinstance(data, MaskedArray):
            m = data._m
            data = data._d
        else:
            m = None
        d = nparr.f_array(data, dtype) if copy else _arr(data, dtype)
        self._d = d
        if mask is False or mask is None:
            self._m = m.copy() if m is not None else _full(d.shape, False)
        elif mask is True:
            self._m = _full(d.shape, True)
        else:
            self._m = nparr.f_array(mask, bool).reshape(d.shape)
            if m is not None:
                self._m = self._m | m
        self.fill_value = fill_value

    data = property(lambda s: s._d)
    shape = property(lambda s: s._d.shape)
    size = property(lambda s: s._d.size)
    ndim = property(lambda s: s._d.ndim)
    dtype = property(lambda s: s._d.dtype)

    @property
    def mask(self):
        return self._m

    @mask.setter
    def mask(self, m):
        if m is True or m is False:
            self._m = _full(self.shape, m)
        else:
            self._m = nparr.f_array(m, bool).reshape(self.shape)

    def __len__(self):
        return len(self._d)

    def __setitem__(self, k, v):
        if isinstance(k, MaskedArray):
            k = k._d
        if v is masked:
            self._m[k] = True
            return
        if isinstance(v, MaskedArray):
            self._d[k] = v._d
            self._m[k] = v._m
            return
        self._d[k] = v
        self._m[k] = False

    def __getitem__(self, k):
        d, m = self._d[k], self._m[k]
        if isinstance(d, SymArray):
            r = MaskedArray.__new__(MaskedArray)
            r._d, r._m, r.fill_value = d, m, self.fill_value
            return r
        return masked if bool(m) else d

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def filled(self, v=None):
        v = 1e20 if v is None else v
        return nparr.f_where(self._m, v, self._d)

    def copy(self, *a):
        return MaskedArray(self._d.copy(), self._m.copy())

    def _same(self, d):
        return MaskedArray(d, self._m.copy())

    def __mul__(self, o):
        return self._same(self._d * o)

    def __add__(self, o):
        return self._same(self._d + o)

    def __sub__(self, o):
        return self._same(self._d - o)

    def __truediv__(self, o):
        return self._same(self._d / o)

    def reshape(self, *s):
        return MaskedArray(self._d.reshape(*s), self._m.reshape(*s))

    def ravel(self):
        return self.reshape(-1)

    flatten = ravel

    @property
    def T(self):
        return MaskedArray(self._d.T, self._m.T)

    def compressed(self):
        return self._d.reshape(-1)[~self._m.reshape(-1)]


def _valid(a):
    return MaskedArray(a)


def masked_where(cond, a, copy=True):
    return MaskedArray(nparr.f_array(a) if copy else a, cond)


def masked_invalid(a, copy=True):
    a = a if isinstance(a, MaskedArray) else _arr(a)
    d = a._d if isinstance(a, MaskedArray) else a
    fin = nparr.UfuncShim(np.isfinite)(d)
    return masked_where(~fin, a, copy) if not isinstance(a, MaskedArray) \
        else MaskedArray(a, ~fin)


def shaped(f):
    return lambda *a, **k: MaskedArray(f(*a, **k))


def module():
    m = types.ModuleType('numpy.ma')
    m.masked, m.nomask = masked, nomask
    m.MaskedArray = MaskedArray
    m.array = m.masked_array = m.masked_array = MaskedArray
    m.zeros = shaped(nparr.f_zeros)
    m.ones = shaped(nparr.f_ones)
    m.empty = shaped(nparr.f_zeros)
    m.full = shaped(nparr.f_full)
    m.zeros_like = shaped(lambda a, **k: HANDLED['zeros_like'](
        a._d if isinstance(a, MaskedArray) else a, **k))
    m.masked_all = lambda shape, dtype=float: MaskedArray(
        nparr.f_zeros(shape, dtype), True)
    m.asarray = m.asanyarray = lambda a, **k: a if isinstance(
        a, MaskedArray) else MaskedArray(a)
    m.masked_where = masked_where
    m.masked_invalid = masked_invalid
    m.fix_invalid = masked_invalid
    m.getmaskarray = m.getmask = lambda a: a._m if isinstance(
        a, MaskedArray) else _full(a.shape, False)
    m.getdata = lambda a: a._d if isinstance(a, MaskedArray) else a
    m.filled = lambda a, v=None: a.filled(v) if isinstance(
        a, MaskedArray) else a
    m.is_masked = lambda a: isinstance(a, MaskedArray) and bool(
        a._m.any())
    m.isMaskedArray = m.isMA = lambda a: isinstance(a, MaskedArray)
    return m

"""Stand-ins for the libraries the code under test imports."""
import builtins
import importlib
import math
import re
import sys
import types

import numpy as np

from . import core, nparr, text
from .core import SYM, SymBool, SymF64, SymInt, SymIntF, SymReal, Unsupported
from .nparr import (BASE, F64, I64, SymArray, cast_elem, f_array, is_arr,
                    is_sa, lower, lower_tree, mk, obj, raise_tree,
                    scalar_out, up)


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


# ---------------------------------------------------------------------------
# builtins

class _IntMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, builtins.int)

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)

    def __call__(cls, *a, **k):
        if a and type(a[0]) in SYM:
            v = a[0]
            t = type(v)
            if t is SymBool:
                return SymInt(v.as_int().e, False)
            if t in (SymInt, SymIntF):
                return t(v.e, False)
            if t is SymF64:
                return SymIntF(core.trunc_expr(v.e), False)
            return SymInt(core.trunc_expr(v.e), False)
        if a and is_sa(a[0]) and a[0].size == 1:
            return cls(a[0].view(BASE).ravel()[0])
        if a and builtins.isinstance(a[0], str):
            v = text.number(a[0])
            if v is not None:
                return v
        return builtins.int(*a, **k)


class IntShim(metaclass=_IntMeta):
    dtype = np.dtype('int64')
    _real_type = builtins.int
    @staticmethod
    def from_bytes(b, byteorder='big', **k):
        if hasattr(b, 'number_'):
            return b.number_(byteorder, **k)
        return builtins.int.from_bytes(b, byteorder, **k)



class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)

    def __call__(cls, *a, **k):
        if a and type(a[0]) in SYM:
            r = cast_elem(a[0], F64)
            return type(r)(r.e, False)
        if a and is_sa(a[0]) and a[0].size == 1:
            return cls(a[0].view(BASE).ravel()[0])
        if a and builtins.isinstance(a[0], str):
            v = text.number(a[0])
            if v is not None:
                return SymReal(core.z3.ToReal(v.e), False)
        return builtins.float(*a, **k)


class FloatShim(metaclass=_FloatMeta):
    dtype = np.dtype('float64')
    _real_type = builtins.float


def _print(*a, **k):
    return None


def _hasattr_type(x):
    return x


# contents with symbols in them: path -> function of the mode
CONTENTS = {}


def open_(file, mode='r', *a, **k):
    f = CONTENTS.get(str(file))
    return builtins.open(file, mode, *a, **k) if f is None else f(mode)


BUILTIN_OVERRIDES = dict(int=IntShim, float=FloatShim, print=_print,
                         open=open_)


# ---------------------------------------------------------------------------
# math

def _m1(symf, real):
    def f(v):
        if is_sa(v) and v.size == 1:
            v = v.view(BASE).ravel()[0]
        if type(v) in SYM:
            return symf(v)
        return real(v)
    return f


def _no_np(f):
    """python semantics (exceptions) for domain errors"""
    def g(v):
        if type(v) in SYM and v.np_:
            v = type(v)(v.e, False)
        return f(v)
    return g


def _mpow(a, b):
    if type(a) in SYM or type(b) in SYM:
        r = core.sym_pow(a, b)
        return cast_elem(r, F64) if type(r) is SymInt else r
    return math.pow(a, b)


math_shim = module(
    'math', pi=math.pi, e=math.e, inf=math.inf, nan=math.nan, tau=math.tau,
    floor=_m1(lambda v: SymInt(core.z3.ToInt(v.e)) if type(v) is SymReal
              else v.__floor__(), math.floor),
    ceil=_m1(lambda v: v.__ceil__(), math.ceil),
    trunc=_m1(lambda v: v.__trunc__(), math.trunc),
    sqrt=_m1(_no_np(core.sym_sqrt), math.sqrt),
    exp=_m1(core.sym_exp, math.exp),
    log=lambda v, *b: (_m1(_no_np(core.sym_log), math.log)(v) if not b else
                       _m1(_no_np(core.sym_log), math.log)(v) /
                       math.log(b[0])),
    log10=_m1(lambda v: core.sym_log(v) / math.log(10), math.log10),
    lgamma=lambda v: core.sym_lgamma(
        v.view(BASE).ravel()[0] if is_sa(v) and v.size == 1 else v),
    pow=_mpow,
    fabs=_m1(lambda v: abs(cast_elem(v, F64)), math.fabs),
    isnan=_m1(lambda v: False, math.isnan),
    isinf=_m1(lambda v: False, math.isinf),
    isfinite=_m1(lambda v: True, math.isfinite),
    sin=_m1(lambda v: core.uf_call('SIN', math.sin, v), math.sin),
    cos=_m1(lambda v: core.uf_call('COS', math.cos, v), math.cos),
    tan=_m1(lambda v: core.uf_call('TAN', math.tan, v), math.tan),
    atan=_m1(lambda v: core.uf_call('ATAN', math.atan, v), math.atan),
    erf=_m1(lambda v: core.uf_call('ERF', math.erf, v), math.erf),
    gamma=_m1(lambda v: core.uf_call('GAMMA', math.gamma, v), math.gamma),
    factorial=lambda v: math.factorial(int(v)),
    radians=_m1(lambda v: v * (math.pi / 180), math.radians),
    hypot=lambda a, b: core.sym_sqrt(a * a + b * b)
    if type(a) in SYM or type(b) in SYM else math.hypot(a, b),
    isclose=lambda a, b, **k: math.isclose(a, b, **k),
    comb=math.comb, fsum=lambda it: sum(it),
    copysign=math.copysign, log2=math.log2,
    prod=math.prod, fmod=math.fmod, gcd=math.gcd, degrees=math.degrees,
)


# ---------------------------------------------------------------------------
# numba

class NbType:
    def __init__(self, name):
        self.name = name

    def __getitem__(self, i):
        return NbType(self.name + '[]')

    def __call__(self, *a):
        # cast when called with a number, signature when called with types
        if len(a) == 1 and not isinstance(a[0], NbType) and \
                type(a[0]) is not tuple:
            dt = np.dtype(self.name)
            return scalar_out(cast_elem(a[0], dt), dt)
        return ('sig', self, a)


NB_TYPES = {n: NbType(n) for n in (
    'float64', 'float32', 'int64', 'int32', 'int16', 'uint16', 'uint32',
    'uint64', 'int8', 'uint8', 'boolean', 'void', 'intp', 'unicode_type',
    'double')}


def _arg_in(a):
    return up(a) if is_arr(a) and not is_sa(a) else a


def _nb_wrap(f):
    def g(*args, **kwargs):
        ex = core.EX
        ex.numba_depth += 1
        try:
            return f(*[_arg_in(a) for a in args], **kwargs)
        finally:
            ex.numba_depth -= 1
    g.__name__ = f.__name__
    g.__doc__ = f.__doc__
    g.__wrapped__ = f
    g.py_func = f
    return g


def njit(*args, **kwargs):
    if len(args) == 1 and callable(args[0]) and not kwargs and \
            not isinstance(args[0], NbType):
        return _nb_wrap(args[0])
    return _nb_wrap


def vectorize(*args, **kwargs):
    def deco(f):
        def g(*a):
            ex = core.EX
            ex.numba_depth += 1
            try:
                o = nparr.elementwise(
                    lambda *v: cast_elem(f(*v), F64), [obj(x) for x in a])
            finally:
                ex.numba_depth -= 1
            return nparr.finish(o, F64)
        g.__name__ = f.__name__
        return g
    if len(args) == 1 and callable(args[0]) and not kwargs:
        return deco(args[0])
    return deco


def guvectorize(sigs, layout, **kwargs):
    lhs, rhs = layout.replace(' ', '').split('->')

    def dims(s):
        return [[d for d in part.split(',') if d]
                for part in re.findall(r'\(([^()]*)\)', s)]
    ins, outs = dims(lhs), dims(rhs)
    if len(outs) != 1:
        raise Unsupported('guvectorize outputs')
    sig = sigs[0] if isinstance(sigs[0], tuple) else sigs[0]
    types_ = sig[2] if sig and sig[0] == 'sig' else sig
    in_types = [t.name.replace('[]', '') for t in types_[:len(ins)]]
    out_t = np.dtype(types_[-1].name.replace('[]', ''))

    def deco(f):
        def g(*args, **kw):
            arrs = [up(a) for a in args[:len(ins)]]
            sizes = {}
            loop = []
            for a, d in zip(arrs, ins):
                if a.ndim < len(d):
                    raise ValueError('guvectorize: not enough dimensions')
                core_shape = a.shape[a.ndim - len(d):]
                for n, s in zip(d, core_shape):
                    if sizes.setdefault(n, s) != s:
                        raise ValueError('guvectorize: core dimension '
                                         'mismatch')
                loop.append(a.shape[:a.ndim - len(d)])
            shape = np.broadcast_shapes(*loop)
            oshape = shape + tuple(sizes[n] for n in outs[0])
            out = nparr.f_empty(oshape, out_t)
            bc = []
            for a, d in zip(arrs, ins):
                cs = a.shape[a.ndim - len(d):]
                bc.append(np.broadcast_to(a.view(BASE), shape + cs))
            ex = core.EX
            ex.numba_depth += 1
            try:
                for idx in np.ndindex(*shape):
                    call = []
                    for a, b, d, t in zip(arrs, bc, ins, in_types):
                        v = b[idx]
                        if d:
                            call.append(mk(np.array(v, dtype=object),
                                           a.vdtype))
                        else:
                            dt = np.dtype(t)
                            call.append(scalar_out(cast_elem(v, dt), dt))
                    if outs[0]:
                        ret = mk(out.view(BASE)[idx], out_t)
                        f(*call, ret)
                    else:
                        ret = nparr.f_empty(1, out_t)
                        f(*call, ret)
                        out.view(BASE)[idx] = ret.view(BASE)[0]
            finally:
                ex.numba_depth -= 1
            if out.ndim == 0:
                return scalar_out(out.view(BASE)[()], out_t)
            return out
        g.__name__ = f.__name__
        return g
    return deco


class TypedDict(dict):
    @classmethod
    def empty(cls, key_type=None, value_type=None):
        return cls()


class TypedList(list):
    @classmethod
    def empty_list(cls, t=None):
        return cls()


numba_typed = module('numba.typed', List=TypedList, Dict=TypedDict)
numba_types = module('numba.types', **NB_TYPES)
numba_types.__dict__['float64'] = NB_TYPES['float64']
numba_shim = module('numba', njit=njit, jit=njit, prange=range,
                    vectorize=vectorize, guvectorize=guvectorize,
                    typed=numba_typed, types=numba_types, **NB_TYPES)


# ---------------------------------------------------------------------------
# scipy

def correlate1d(input, weights, axis=-1, output=None, mode='reflect',
                cval=0.0, origin=0):
    a = up(input)
    w = obj(weights)
    n = a.shape[axis]
    size = len(w)
    origin = int(origin)
    if (size // 2 + origin < 0) or (size // 2 + origin >= size):
        raise ValueError('Invalid origin; origin must satisfy '
                         '-(len(weights) // 2) <= origin <= '
                         '(len(weights)-1) // 2')
    m = np.moveaxis(a.view(BASE), axis, -1)
    out = np.empty(m.shape, dtype=object)

    def at(row, k):
        if 0 <= k < n:
            return row[k]
        if mode == 'constant':
            return cval
        if mode == 'nearest':
            return row[0] if k < 0 else row[n - 1]
        if mode == 'reflect':
            k = k % (2 * n)
            return row[k] if k < n else row[2 * n - 1 - k]
        if mode == 'mirror':
            if n == 1:
                return row[0]
            k = k % (2 * n - 2)
            return row[k] if k < n else row[2 * n - 2 - k]
        if mode == 'wrap':
            return row[k % n]
        raise Unsupported('correlate1d mode ' + str(mode))
    for idx in np.ndindex(*m.shape[:-1]):
        row = m[idx]
        for i in range(n):
            acc = 0.0
            for k in range(size):
                acc = acc + w[k] * at(row, i + k - size // 2 - origin)
            out[idx + (i,)] = acc
    dt = a.vdtype if a.vdtype.kind == 'f' else a.vdtype
    r = nparr.elementwise(lambda v: cast_elem(v, dt),
                          (np.moveaxis(out, -1, axis),))
    if output is not None and is_arr(output):
        output[...] = mk(r, dt)
        return output
    return mk(r, dt)


def convolve1d(input, weights, axis=-1, output=None, mode='reflect',
               cval=0.0, origin=0):
    w = obj(weights)[::-1]
    origin = -int(origin)
    if not len(w) & 1:
        origin -= 1
    return correlate1d(input, w, axis, output, mode, cval, origin)


def uniform_filter1d(input, size, axis=-1, output=None, mode='reflect',
                     cval=0.0, origin=0):
    return correlate1d(input, [1 / size] * size, axis, output, mode, cval,
                       origin)


class BinnedStatistic(tuple):
    statistic = property(lambda s: s[0])
    bin_edges = property(lambda s: s[1])
    binnumber = property(lambda s: s[2])


def binned_statistic(x, values, statistic='mean', bins=10, range=None):
    """scipy.stats.binned_statistic for explicit edges"""
    if nparr.is_num_scalar(bins) or range is not None:
        raise Unsupported('binned_statistic without edges')
    x = list(np.asarray(x, dtype=object)) if not hasattr(x, 'values') \
        else list(x.values)
    v = list(values.values if hasattr(values, 'values') else values)
    e = list(bins)
    n = len(e) - 1
    num = []
    for a in x:
        k = sum(1 for b in e if bool(b <= a))    # as digitize
        if k == n + 1 and bool(a == e[-1]):
            k = n
        num.append(k)
    fns = dict(mean=nparr.f_mean, std=nparr.f_std, sum=nparr.f_sum,
               median=nparr.f_median, min=nparr.f_min, max=nparr.f_max,
               count=lambda a: float(len(a)))
    fn = fns.get(statistic, statistic)
    if not callable(fn):
        raise Unsupported(f'binned_statistic {statistic}')
    out = []
    for k in builtins.range(1, n + 1):
        sel = [b for a, b in zip(num, v) if a == k]
        if sel:
            out.append(fn(nparr.f_array(sel)))
        elif statistic in ('sum', 'count'):
            out.append(0.0)
        else:
            out.append(math.nan)
    return BinnedStatistic((nparr.f_array(out), bins,
                            nparr.f_array(num, int)))



class interp1d:
    """scipy.interpolate.interp1d; linear kind is symbolic"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True,
                 bounds_error=None, fill_value=float('nan'),
                 assume_sorted=False):
        import scipy.interpolate as si
        self.real = None
        try:
            lx, ly = lower_tree(_plain(x)), lower_tree(_plain(y))
            conc = True
        except nparr.NotLowerable:
            conc = False
        self.kind = kind
        self.bounds_error = bounds_error
        self.fill_value = fill_value
        if conc:
            self.real = si.interp1d(lx, ly, kind=kind, axis=axis, copy=copy,
                                    bounds_error=bounds_error,
                                    fill_value=fill_value,
                                    assume_sorted=assume_sorted)
            self.x, self.y = up(self.real.x), up(self.real.y)
        else:
            self.x, self.y = up(x), up(y)
            if not assume_sorted:
                order = nparr.f_argsort(self.x)
                self.x, self.y = self.x[order], self.y[order]
        if bounds_error is None:
            self.bounds_error = not (isinstance(fill_value, str) or
                                     fill_value == fill_value)

    def _at_knots(self, v, r):
        """at a knot the interpolation is exact (over the reals)"""
        x = np.asarray(self.real.x, dtype=float)
        y = np.asarray(self.real.y)
        v = np.asarray(v, dtype=float)
        if y.ndim != 1 or r.shape != v.shape or not v.size or \
                self.kind in ('nearest', 'zero', 'previous', 'next'):
            return r
        r = np.array(r)
        k = np.abs(v[..., None] - x).argmin(-1)
        near = np.abs(v - x[k]) <= 1e-12 * max(np.ptp(x), 1e-300)
        r[near] = y[k[near]]
        return r

    def __call__(self, v):
        if self.real is not None:
            try:
                lv = lower_tree(_plain(v))
                return raise_tree(self._at_knots(lv, self.real(lv)))
            except nparr.NotLowerable:
                pass
        if self.kind not in ('linear', 1):
            raise Unsupported('interp1d kind')
        xo, yo = self.x.view(BASE), self.y.view(BASE)
        n = len(xo)

        def one(t):
            if core._special(t):
                return float('nan')
            if t < xo[0] or t > xo[n - 1]:
                if isinstance(self.fill_value, str):   # 'extrapolate'
                    pass
                elif self.bounds_error:
                    raise ValueError('A value in x_new is outside the '
                                     'interpolation range.')
                else:
                    fv = self.fill_value
                    if isinstance(fv, tuple):
                        fv = fv[0] if t < xo[0] else fv[1]
                    return fv
            i = 0
            while i < n - 2 and not (t <= xo[i + 1]):
                i += 1
            if core._special(yo[i]) or core._special(yo[i + 1]):
                # exact at the rows, nan between them
                if t == xo[i]:
                    return yo[i]
                return yo[i + 1] if t == xo[i + 1] else float('nan')
            return yo[i] + (yo[i + 1] - yo[i]) * (t - xo[i]) / \
                (xo[i + 1] - xo[i])
        r = nparr.elementwise(lambda t: cast_elem(one(t), F64), (obj(v),))
        return mk(r, F64)


def _plain(x):
    v = getattr(x, 'values', None)
    return v if v is not None and is_arr(v) else x


def xlogy(x, y):
    def f(a, b):
        if a == 0:
            return 0.0
        return a * core.sym_log(b) if type(b) in SYM else a * math.log(b)
    o = nparr.elementwise(f, (obj(x), obj(y)))
    return nparr.finish(o, F64)


def gammaln(x):
    o = nparr.elementwise(core.sym_lgamma, (obj(x),))
    return nparr.finish(o, F64)


class Fallthrough(types.ModuleType):
    """a real module with some attributes replaced; functions refuse symbols"""

    def __init__(self, name, **attrs):
        super().__init__(name)
        self.__dict__.update(attrs)

    def __getattr__(self, name):
        real = importlib.import_module(self.__name__)
        try:
            v = getattr(real, name)
        except AttributeError:
            try:
                v = importlib.import_module(self.__name__ + '.' + name)
            except ImportError:
                raise AttributeError(name)
        if isinstance(v, types.ModuleType):
            return get_shim(v.__name__) or v
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType,
                          np.ufunc)):
            return guard(v, f'{self.__name__}.{name}')
        return v


def guard(v, name):
    def g(*args, **kwargs):
        try:
            return raise_tree(v(*lower_tree(args), **lower_tree(kwargs)))
        except nparr.NotLowerable:
            raise Unsupported(name)
    g.__name__ = getattr(v, '__name__', name)
    return g


def _mode_binned(x, values, statistic='mean', bins=10, range=None):
    raise Unsupported('binned_statistic')


# ---------------------------------------------------------------------------
# pandas

def to_pandas(v):
    """SymArray -> array for real pandas"""
    if is_sa(v):
        r = lower(v)
        return r if r is not None else np.array(v.view(BASE))
    if type(v) in (list, tuple):
        return type(v)(to_pandas(i) for i in v)
    if type(v) is dict:
        return {k: to_pandas(i) for k, i in v.items()}
    return v


def _symbolic_means():
    """means of columns of symbolic values"""
    from pandas.core import nanops
    if hasattr(nanops._ensure_numeric, 'plain'):
        return
    plain = nanops._ensure_numeric

    def ensure_numeric(x):
        if type(x) in SYM:
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and \
                any(type(v) in SYM for v in x.ravel()):
            return x
        return plain(x)
    ensure_numeric.plain = plain
    nanops._ensure_numeric = ensure_numeric


def _df_class():
    import pandas as pd
    _symbolic_means()

    class M(type):
        def __instancecheck__(cls, o):
            return isinstance(o, pd.DataFrame)

        def __call__(cls, data=None, *a, **k):
            return pd.DataFrame(to_pandas(data), *[to_pandas(i) for i in a],
                                **{n: to_pandas(v) for n, v in k.items()})

        def __getattr__(cls, n):
            return getattr(pd.DataFrame, n)

    return M('DataFrame', (), {'_real_type': pd.DataFrame})


class SymTimestamp:
    """pd.Timestamp of a symbolic number of nanoseconds"""

    def __init__(self, value):
        self.value = value

    def __eq__(self, o):
        return self.value == getattr(o, 'value', o)

    def __hash__(self):
        return 3

    def floor(self, freq):
        u = _unit(freq)
        return SymTimestamp(self.value - self.value % u)

    def ceil(self, freq):
        u = _unit(freq)
        return SymTimestamp(self.value + -self.value % u)

    def round(self, freq):
        # halves to the even multiple
        u = _unit(freq)
        if u == 1:
            return self
        q, r = self.value // u, self.value % u
        up = 2 * r > u or (2 * r == u and q % 2 == 1)
        return SymTimestamp((q + 1) * u if up else q * u)

    def as_unit(self, unit):
        return self.floor(unit)


def _unit(freq):
    n, u = re.fullmatch(r'(\d*)(\w+)', freq).groups()
    return builtins.int(n or 1) * _UNIT_NS[dict(
        S='s', L='ms', U='us', N='ns').get(u, u)]


_UNIT_NS = dict(ns=1, us=10 ** 3, ms=10 ** 6, s=10 ** 9)


def to_datetime(arg, *a, unit=None, **k):
    import pandas as pd
    if type(arg) in SYM:
        if type(arg) in (SymInt, SymIntF):
            return SymTimestamp(SymInt(arg.e * _UNIT_NS[unit or 'ns']))
        if type(arg) is SymReal and unit in _UNIT_NS:
            return SymTimestamp(SymInt(core.z3.ToInt(arg.e * _UNIT_NS[unit])))
        raise Unsupported('to_datetime of a float')
    return pd.to_datetime(arg, *a, unit=unit, **k)


def csv_columns(path, cols, a, k):
    """the columns found with the separator asked for: files .dat are
    separated by tabs, files .csv by commas"""
    sep = {'.dat': '\t', '.csv': ','}.get(path[-4:])
    ask = a[0] if a else k.get('sep', k.get('delimiter', ','))
    if k.get('delim_whitespace'):
        ask = '\\s+'
    if sep is None or ask == sep or ask is None or \
            (sep == '\t' and ask in ('\\s+', '\\t', '\\t+')):
        return cols
    return {sep.join(cols): [sep.join('0' for c in cols)] * len(
        next(iter(cols.values())))}


class PandasShim(types.ModuleType):
    def __init__(self):
        super().__init__('pandas')
        self.csv = []          # (predicate, dict of columns)
        self.__dict__['to_datetime'] = to_datetime
        self.__dict__['DataFrame'] = _df_class()
        from . import memstore
        memstore.FILES.clear()
        self.__dict__['HDFStore'] = memstore.MemStore

    def read_csv(self, path, *a, **k):
        for pred, cols in self.csv:
            if pred(str(path)):
                cols = csv_columns(str(path), cols, a, k)
                k0 = k.get('index_col')
                if k0 is None or k0 is False:
                    return MiniFrame(cols)
                n = list(cols)[k0] if isinstance(k0, builtins.int) else k0
                f = MiniFrame({c: v for c, v in cols.items() if c != n})
                f.index = MiniSeries(up(cols[n]), n)
                return f
        import pandas as pd
        return pd.read_csv(path, *a, **k)

    def __getattr__(self, name):
        import pandas as pd
        return getattr(pd, name)


class MiniSeries:
    """just enough of a Series for columns read from a csv file"""

    def __init__(self, v, name=None):
        self.values = v
        self.name = name

    def to_numpy(self, *a, **k):
        return self.values

    @property
    def array(self):
        return self.values

    @property
    def size(self):
        return self.values.size

    def __len__(self):
        return len(self.values)

    def __getitem__(self, i):
        r = self.values[i]
        return MiniSeries(r) if is_arr(r) else r

    def __iter__(self):
        return iter(self.values)

    def __array__(self, *a):
        return self.values

    @property
    def dtype(self):
        return self.values.dtype

    def astype(self, t):
        return MiniSeries(self.values.astype(t))

    def tolist(self):
        return self.values.tolist()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(self.values, name)
        if callable(v):
            def g(*a, **k):
                r = v(*a, **k)
                return MiniSeries(r) if is_arr(r) and r.ndim == 1 else r
            return g
        return v


def _series_op(n):
    def f(self, *o):
        o = [x.values if isinstance(x, MiniSeries) else x for x in o]
        r = getattr(self.values, n)(*o)
        return MiniSeries(r) if is_arr(r) else r
    return f


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv',
           'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'and', 'or', 'invert', 'neg',
           'pow'):
    setattr(MiniSeries, f'__{_n}__', _series_op(f'__{_n}__'))
MiniSeries.__hash__ = None


class MiniFrame:
    def __init__(self, cols):
        self._cols = {k: up(v) if not isinstance(v, (str,)) else v
                      for k, v in cols.items()}

    def __getitem__(self, k):
        if isinstance(k, list):
            return MiniFrame({c: self._cols[c] for c in k})
        if is_arr(k) or isinstance(k, (MiniSeries, np.ndarray)):
            k = k.values if isinstance(k, MiniSeries) else k
            f = MiniFrame({c: v[k] for c, v in self._cols.items()})
            if 'index' in self.__dict__:
                f.index = MiniSeries(self.index.values[k], self.index.name)
            return f
        return MiniSeries(self._cols[k], k)

    def __setitem__(self, k, v):
        if not is_arr(v) and not isinstance(v, MiniSeries):
            a = np.empty(len(self), dtype=object)
            for i, x in enumerate(v if isinstance(v, (list, tuple)) else
                                  [v] * len(self)):
                a[i] = x
            v = a
        self._cols[k] = v

    @property
    def columns(self):
        return list(self._cols)

    @property
    def values(self):
        cs = [c.view(BASE) for c in self._cols.values()]
        return up(np.stack(cs, axis=1))

    def to_numpy(self, *a, **k):
        return self.values

    def __len__(self):
        return len(next(iter(self._cols.values())))

    def __contains__(self, k):
        return k in self._cols

    def _pandas(self):
        import pandas as pd
        d = {}
        for k, v in self._cols.items():
            a = np.empty(len(v), dtype=object)
            for i, x in enumerate(v):
                a[i] = x
            d[k] = a
        return pd.DataFrame(d)

    @staticmethod
    def _wrap(df, keep):
        if not len(df):
            return df
        f = MiniFrame({c: mk(df[c].to_numpy(), keep[c].dtype)
                       if is_arr(keep.get(c)) else
                       nparr.f_array(list(df[c])) for c in df.columns})
        return f

    def __getattr__(self, k):
        if k in self._cols and not k.startswith('_'):
            return MiniSeries(self._cols[k], k)
        if k.startswith('_') or k == 'index':
            raise AttributeError(k)
        import pandas as pd
        if not hasattr(pd.DataFrame, k):
            raise AttributeError(k)
        # any other method: on a DataFrame of objects
        real = getattr(self._pandas(), k)

        def g(*a, **kw):
            r = real(*[to_pandas(x) for x in a],
                     **{n: to_pandas(x) for n, x in kw.items()})
            return self._wrap(r, self._cols) if isinstance(r, pd.DataFrame) \
                else r
        return g if callable(real) else real


# ---------------------------------------------------------------------------
# registry

def _tqdm(it=None, *a, **k):
    return it


SHIMS = {}


def fresh():
    """new shim modules (per path: nothing leaks from one path to another)"""
    SHIMS.clear()
    CONTENTS.clear()
    SHIMS['numpy'] = nparr.NumpyShim()
    SHIMS['math'] = math_shim
    text.fresh()
    SHIMS['re'] = text.shim()
    SHIMS['numba'] = numba_shim
    SHIMS['numba.typed'] = numba_typed
    SHIMS['numba.types'] = numba_types
    SHIMS['pandas'] = PandasShim()
    nd = Fallthrough('scipy.ndimage', correlate1d=correlate1d,
                     convolve1d=convolve1d, uniform_filter1d=uniform_filter1d)
    it = Fallthrough('scipy.interpolate', interp1d=interp1d)
    sp = Fallthrough('scipy.special', xlogy=xlogy, gammaln=gammaln)
    st = Fallthrough('scipy.stats', binned_statistic=binned_statistic)
    op = Fallthrough('scipy.optimize')
    SHIMS['scipy.ndimage'] = nd
    SHIMS['scipy.interpolate'] = it
    SHIMS['scipy.special'] = sp
    SHIMS['scipy.stats'] = st
    SHIMS['scipy.optimize'] = op
    SHIMS['scipy'] = Fallthrough('scipy', ndimage=nd, interpolate=it,
                                 special=sp, stats=st, optimize=op)
    SHIMS['tqdm'] = module('tqdm', tqdm=_tqdm,
                           trange=lambda n, *a, **k: range(n))
    return SHIMS


def get_shim(name):
    return SHIMS.get(name)

"""Symbolic numpy arrays: object arrays of symbolic scalars that keep the
dtype the real array would have, and a module standing in for numpy."""
import builtins
import math
import operator
import types

import numpy as np

from . import core
from .core import (SYM, SymBool, SymF64, SymInt, SymIntF, SymReal,
                   Unsupported, is_sym, ite, sym_exp, sym_floordiv, sym_log,
                   sym_max, sym_min, sym_mod, sym_pow, sym_sqrt, z3)

BASE = np.ndarray
F64 = np.dtype('float64')
I64 = np.dtype('int64')
BOOL = np.dtype('bool')
OBJ = np.dtype('object')


def is_arr(x):
    return issubclass(type(x), BASE)


def is_sa(x):
    return issubclass(type(x), SymArray)


# ---------------------------------------------------------------------------
# elements

def wrap_int(v, dt):
    """integer term/number into the range of dt"""
    bits = dt.itemsize * 8
    if dt.kind == 'u':
        lo, hi = 0, 2 ** bits - 1
    else:
        lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
    if type(v) not in SYM:
        v = int(v)
        if lo <= v <= hi:
            return v
        return (v - lo) % 2 ** bits + lo
    if dt.kind == 'i' and bits == 64:
        return v
    ex = core.EX
    e = v.e
    inr = z3.simplify(z3.And(e >= lo, e <= hi))
    if z3.is_true(inr):
        return v
    r, _ = ex.feasible(z3.Not(inr))
    if r == z3.unsat:
        return v
    return SymInt((e - lo) % 2 ** bits + lo, v.np_)


def cast_elem(v, dt):
    """element v as an element of an array of dtype dt"""
    k = dt.kind
    t = type(v)
    if k == 'f':
        if t is SymReal or t is SymF64:
            return v
        if t is SymInt:
            return SymReal(z3.ToReal(v.e), v.np_)
        if t is SymIntF:
            return SymF64.of(v)
        if t is SymBool:
            return SymReal(z3.ToReal(v.as_int().e), v.np_)
        if v is None:
            return float('nan')
        return float(v)
    if k in 'iu':
        if t is SymReal:
            return wrap_int(SymInt(core.trunc_expr(v.e), v.np_), dt)
        if t is SymF64:
            return wrap_int(SymIntF(core.trunc_expr(v.e), v.np_), dt)
        if t is SymBool:
            return v.as_int()
        if t is SymInt or t is SymIntF:
            return wrap_int(v, dt)
        f = v
        if isinstance(f, (float, np.floating)):
            if not math.isfinite(f):
                return int(np.array([f]).astype(dt)[0])
            f = int(f)
        return wrap_int(int(f), dt)
    if k == 'b':
        if t is SymBool:
            return v
        if t in SYM:
            return SymBool(v.e != 0, v.np_)
        return bool(v)
    return v


def scalar_out(v, dt):
    """element of an array, as the numpy scalar indexing would give"""
    t = type(v)
    if t in SYM:
        if v.np_:
            return v
        return t(v.e, True)
    if dt.kind in 'fiub' and v is not None:
        try:
            return dt.type(v)
        except (TypeError, ValueError, OverflowError):
            return v
    return v


def kind_dtype(v):
    t = type(v)
    if t is SymReal or t is SymF64:
        return F64
    if t is SymInt or t is SymIntF:
        return I64
    if t is SymBool:
        return BOOL
    if isinstance(v, (bool, np.bool_)):
        return BOOL
    if isinstance(v, (np.integer, np.floating)):
        return v.dtype
    if isinstance(v, int):
        return I64
    if isinstance(v, float):
        return F64
    return None


def infer_dtype(o):
    """dtype of an object array of scalars"""
    dts = set()
    for v in o.flat:
        d = kind_dtype(v)
        if d is None:
            return OBJ
        dts.add(d)
    if not dts:
        return F64
    return np.result_type(*dts)


def obj(x):
    """base object ndarray (or 0-d) with the elements of x"""
    if is_sa(x):
        return x.view(BASE)
    if is_arr(x):
        if BASE.dtype.__get__(x) == OBJ:
            return x
        return x.astype(object)
    if type(x) in SYM:
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        return obj_from_seq(x)
    if type(x) in (range, map, filter, zip) or \
            isinstance(x, types.GeneratorType):
        return obj_from_seq(list(x))
    v = getattr(x, 'values', None)
    if v is not None and is_arr(v):
        return obj(v)
    if hasattr(x, '__array__'):
        return obj(x.__array__())
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def obj_from_seq(seq):
    items = [obj(s) if not isinstance(s, str) else s for s in seq]
    if not items:
        return np.empty((0,), dtype=object)
    if any(isinstance(s, str) for s in items):
        return np.array(seq, dtype=object)
    shapes = {i.shape for i in items}
    if len(shapes) != 1:
        raise ValueError("setting an array element with a sequence. The "
                         "requested array has an inhomogeneous shape")
    shape = (len(items),) + items[0].shape
    out = np.empty(shape, dtype=object)
    for i, it in enumerate(items):
        out[i] = it if it.ndim else it[()]
    return out


def vdtype_of(x):
    if is_sa(x):
        return x.vdtype
    if is_arr(x):
        d = x.dtype
        return infer_dtype(x) if d == OBJ else d
    if isinstance(x, (list, tuple)):
        ds = [vdtype_of(i) for i in x]
        return np.result_type(*ds) if ds else F64
    d = kind_dtype(x)
    if d is not None:
        return d
    v = getattr(x, 'values', None)
    if v is not None and is_arr(v):
        return vdtype_of(v)
    return OBJ


def mk(o, dt):
    """SymArray on a base object array"""
    r = o.view(SymArray)
    r.vdtype = dt
    return r


def all_concrete(o):
    for v in o.flat:
        if type(v) in SYM:
            return False
    return True


def lower(x):
    """concrete SymArray -> real ndarray; None if it has symbols"""
    if is_sa(x):
        o = x.view(BASE)
        if not all_concrete(o):
            return None
        if x.vdtype == OBJ:
            return o
        r = np.empty(o.shape, dtype=x.vdtype)
        for i, v in enumerate(o.flat):
            r.flat[i] = v
        return r
    return x


class NotLowerable(Exception):
    pass


def lower_tree(x):
    if is_sa(x):
        r = lower(x)
        if r is None:
            raise NotLowerable
        return r
    if type(x) in SYM:
        raise NotLowerable
    if type(x) is list:
        return [lower_tree(i) for i in x]
    if type(x) is tuple:
        return tuple(lower_tree(i) for i in x)
    if type(x) is dict:
        return {k: lower_tree(v) for k, v in x.items()}
    if isinstance(x, type) and hasattr(x, '_real_type'):
        return x._real_type
    return x


def raise_tree(x):
    if is_arr(x) and not is_sa(x) and x.dtype.kind in 'fiub':
        return mk(x.astype(object), x.dtype)
    if type(x) is list:
        return [raise_tree(i) for i in x]
    if type(x) is tuple:
        return tuple(raise_tree(i) for i in x)
    return x


def up(x):
    """anything -> SymArray (0-d allowed)"""
    if is_sa(x):
        return x if type(x) is SymArray else mk(x.view(BASE), x.vdtype)
    o = obj(x)
    if is_arr(x) and x.dtype != OBJ:
        dt = x.dtype
    elif isinstance(x, (list, tuple)) and len(x):
        dt = seq_dtype(x)
    else:
        v = getattr(x, 'values', None)
        dt = vdtype_of(v) if v is not None and is_arr(v) else infer_dtype(o)
    if dt != OBJ:
        o2 = np.empty(o.shape, dtype=object)
        for i, v in enumerate(o.flat):
            o2.flat[i] = cast_elem(v, dt)
        o = o2
    return mk(o, dt)


def seq_dtype(x):
    ds = []
    for i in x:
        if is_sa(i):
            ds.append(i.vdtype)
        elif is_arr(i):
            ds.append(infer_dtype(i) if i.dtype == OBJ else i.dtype)
        elif isinstance(i, (list, tuple)):
            ds.append(seq_dtype(i) if len(i) else F64)
        else:
            d = kind_dtype(i)
            if d is None:
                return OBJ
            ds.append(d)
    return np.result_type(*ds) if ds else F64


# ---------------------------------------------------------------------------
# ufuncs

def _np_scalar_div(a, b):
    if type(a) in SYM or type(b) in SYM:
        if not (type(a) in SYM and a.np_) and not (type(b) in SYM and b.np_):
            # force numpy semantics inside arrays
            if type(a) in SYM:
                a = type(a)(a.e, True)
            else:
                b = type(b)(b.e, True)
        nd = core.EX.numba_depth
        core.EX.numba_depth = 0
        try:
            return a / b
        finally:
            core.EX.numba_depth = nd
    with np.errstate(all='ignore'):
        return float(np.float64(a) / np.float64(b))


def _bool(v):
    return v if type(v) in (SymBool, bool) else (
        SymBool(v.e != 0) if type(v) in SYM else bool(v))


def _and(a, b):
    a, b = _bool(a), _bool(b)
    if type(a) is bool:
        return b if a else False
    return a & b


def _or(a, b):
    a, b = _bool(a), _bool(b)
    if type(a) is bool:
        return True if a else b
    return a | b


def _not(a):
    a = _bool(a)
    return (not a) if type(a) is bool else a.logical_not()


def _sign(v):
    t = type(v)
    if t in (SymInt, SymIntF):
        return SymInt(z3.If(v.e > 0, 1, z3.If(v.e < 0, z3.IntVal(-1),
                                              z3.IntVal(0))), v.np_)
    if t is SymReal:
        return SymReal(z3.If(v.e > 0, core.rval(1),
                             z3.If(v.e < 0, core.rval(-1), core.rval(0))),
                       v.np_)
    if t is SymBool:
        return v
    return float(np.sign(v)) if isinstance(v, float) else int(np.sign(v))


def _abs(v):
    return abs(v)


def _floor(v):
    t = type(v)
    if t is SymReal:
        return SymReal(z3.ToReal(z3.ToInt(v.e)), v.np_)
    if t in (SymInt, SymIntF, SymBool):
        return v
    return float(math.floor(v)) if math.isfinite(v) else v


def _ceil(v):
    t = type(v)
    if t is SymReal:
        return SymReal(z3.ToReal(-z3.ToInt(-v.e)), v.np_)
    if t in (SymInt, SymIntF, SymBool):
        return v
    return float(math.ceil(v)) if math.isfinite(v) else v


def _trunc(v):
    t = type(v)
    if t is SymReal:
        return SymReal(z3.ToReal(core.trunc_expr(v.e)), v.np_)
    if t in (SymInt, SymIntF, SymBool):
        return v
    return float(math.trunc(v)) if math.isfinite(v) else v


def _rint(v):
    if type(v) in SYM:
        return v.rint() if type(v) is not SymBool else v
    return float(np.rint(v))


def _isnan(v):
    return False if type(v) in SYM else bool(np.isnan(v))


def _isinf(v):
    return False if type(v) in SYM else bool(np.isinf(v))


def _isfinite(v):
    return True if type(v) in SYM else bool(np.isfinite(v))


def _concrete1(f):
    def g(v):
        with np.errstate(all='ignore'):
            return f(v)
    return g


def _u1(symf, npf):
    def g(v):
        if type(v) in SYM:
            if not v.np_:
                v = type(v)(v.e, True)
            nd = core.EX.numba_depth
            core.EX.numba_depth = 0
            try:
                return symf(v)
            finally:
                core.EX.numba_depth = nd
        with np.errstate(all='ignore'):
            return float(npf(v))
    return g


def _floordiv(a, b):
    if type(a) in SYM or type(b) in SYM:
        if type(a) in SYM and not a.np_:
            a = type(a)(a.e, True)
        if type(b) in SYM and not b.np_:
            b = type(b)(b.e, True)
        return sym_floordiv(a, b)
    with np.errstate(all='ignore'):
        return np.floor_divide(a, b).item()


def _mod(a, b):
    if type(a) in SYM or type(b) in SYM:
        if type(a) in SYM and not a.np_:
            a = type(a)(a.e, True)
        return sym_mod(a, b)
    with np.errstate(all='ignore'):
        return np.mod(a, b).item()


def _pow(a, b):
    if type(a) in SYM or type(b) in SYM:
        return sym_pow(a, b)
    with np.errstate(all='ignore'):
        return np.power(a, b).item()


def _cmpf(op):
    def f(a, b):
        r = op(a, b)
        return r if type(r) is SymBool else bool(r)
    return f


def _band(a, b):
    if type(a) in (SymBool, bool) and type(b) in (SymBool, bool):
        return _and(a, b)
    return a & b


def _bor(a, b):
    if type(a) in (SymBool, bool) and type(b) in (SymBool, bool):
        return _or(a, b)
    return a | b


def _bxor(a, b):
    if type(a) is bool and type(b) is bool:
        return a != b
    return a ^ b


def _inv(a):
    if type(a) in (SymBool, bool):
        return _not(a)
    return ~a


def _add(a, b):
    if type(a) in (SymBool, bool) and type(b) in (SymBool, bool):
        return _or(a, b)
    return a + b


def _mulb(a, b):
    if type(a) in (SymBool, bool) and type(b) in (SymBool, bool):
        return _and(a, b)
    return a * b


def _fmax(a, b):
    if core._special(a) and math.isnan(a):
        return b
    if core._special(b) and math.isnan(b):
        return a
    return sym_max(a, b)


def _fmin(a, b):
    if core._special(a) and math.isnan(a):
        return b
    if core._special(b) and math.isnan(b):
        return a
    return sym_min(a, b)


def _uf(name, fn):
    def f(v):
        if type(v) in SYM:
            return core.uf_call(name, fn, v)
        return float(fn(v))
    return f


UFUNCS = {
    'add': _add, 'subtract': operator.sub, 'multiply': _mulb,
    'true_divide': _np_scalar_div, 'divide': _np_scalar_div,
    'floor_divide': _floordiv, 'remainder': _mod, 'mod': _mod,
    'power': _pow, 'float_power': _pow,
    'negative': operator.neg, 'positive': lambda v: v,
    'absolute': _abs, 'abs': _abs, 'fabs': _abs, 'sign': _sign,
    'square': lambda v: v * v,
    'reciprocal': lambda v: _np_scalar_div(1, v),
    'less': _cmpf(operator.lt), 'less_equal': _cmpf(operator.le),
    'greater': _cmpf(operator.gt), 'greater_equal': _cmpf(operator.ge),
    'equal': _cmpf(operator.eq), 'not_equal': _cmpf(operator.ne),
    'logical_and': _and, 'logical_or': _or, 'logical_not': _not,
    'logical_xor': lambda a, b: _bxor(_bool(a), _bool(b)),
    'bitwise_and': _band, 'bitwise_or': _bor, 'bitwise_xor': _bxor,
    'invert': _inv,
    'maximum': sym_max, 'minimum': sym_min, 'fmax': _fmax, 'fmin': _fmin,
    'isnan': _isnan, 'isinf': _isinf, 'isfinite': _isfinite,
    'floor': _floor, 'ceil': _ceil, 'trunc': _trunc, 'rint': _rint,
    'sqrt': _u1(sym_sqrt, np.sqrt), 'exp': _u1(sym_exp, np.exp),
    'log': _u1(sym_log, np.log),
    'conjugate': lambda v: v,
    'log10': _u1(lambda v: sym_log(v) / math.log(10), np.log10),
    'sin': _uf('SIN', math.sin), 'cos': _uf('COS', math.cos),
    'tan': _uf('TAN', math.tan), 'arctan': _uf('ATAN', math.atan),
    'deg2rad': lambda v: v * (math.pi / 180),
    'radians': lambda v: v * (math.pi / 180),
    'rad2deg': lambda v: v * (180 / math.pi),
    'degrees': lambda v: v * (180 / math.pi),
    'left_shift': lambda a, b: a << b, 'right_shift': lambda a, b: a >> b,
}

_PRE = {'true_divide', 'divide', 'sqrt', 'exp', 'log', 'log10', 'sin', 'cos',
        'tan', 'reciprocal', 'arctan'}

_rd_cache = {}


def result_dtype(ufunc, inputs):
    key = [ufunc]
    dummies = []
    for x in inputs:
        if is_arr(x) and x.ndim > 0:
            d = vdtype_of(x)
            key.append(('a', d))
            dummies.append(np.ones((1,), dtype=d))
        elif isinstance(x, (list, tuple)):
            d = vdtype_of(x)
            key.append(('a', d))
            dummies.append(np.ones((1,), dtype=d))
        elif is_arr(x):
            d = vdtype_of(x)
            key.append(('s', d))
            dummies.append(d.type(1))
        elif type(x) in SYM:
            if x.np_:
                d = kind_dtype(x)
                key.append(('s', d))
                dummies.append(d.type(1))
            else:
                d = {'f': float, 'i': int, 'b': bool}[kind_dtype(x).kind]
                key.append(('p', d))
                dummies.append(d(1))
        elif hasattr(x, 'values') and is_arr(x.values):
            d = vdtype_of(x.values)
            key.append(('a', d))
            dummies.append(np.ones((1,), dtype=d))
        else:
            if isinstance(x, (int, np.integer)) and not \
                    isinstance(x, (bool, np.bool_)):
                small = abs(int(x)) < 100
                v = x if not small else type(x)(1 if int(x) >= 0 else -1)
                key.append(('v', type(x), v))
                dummies.append(v)
            elif isinstance(x, (float, np.floating)):
                key.append(('v', type(x)))
                dummies.append(type(x)(1.0))
            else:
                key.append(('v', type(x)))
                dummies.append(x)
    key = tuple(key)
    r = _rd_cache.get(key)
    if r is None:
        with np.errstate(all='ignore'):
            try:
                r = getattr(ufunc(*dummies), 'dtype', None)
            except TypeError as e:
                r = e
            except ValueError:
                r = np.result_type(*[np.asarray(d).dtype for d in dummies])
        _rd_cache[key] = r
    if isinstance(r, TypeError):
        raise r
    return r


def elementwise(f, arrays):
    b = np.broadcast(*arrays) if len(arrays) > 1 else None
    if b is None:
        a = arrays[0]
        out = np.empty(a.shape, dtype=object)
        for i, v in enumerate(a.flat):
            out.flat[i] = f(v)
        return out
    out = np.empty(b.shape, dtype=object)
    for i, vs in enumerate(b):
        out.flat[i] = f(*vs)
    return out


def do_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    kwargs = dict(kwargs)
    outs = kwargs.pop('out', None)
    where = kwargs.pop('where', True)
    kwargs.pop('casting', None)
    kwargs.pop('subok', None)
    kwargs.pop('order', None)
    if method == 'reduce':
        return do_reduce(ufunc, inputs[0], outs=outs, **kwargs)
    if method == 'accumulate':
        return accumulate(UFUNCS[name], inputs[0],
                          kwargs.get('axis', 0))
    if method == 'outer':
        a, b = up(inputs[0]), up(inputs[1])
        a2 = mk(a.view(BASE).reshape(a.shape + (1,) * b.ndim), a.vdtype)
        return do_ufunc(ufunc, '__call__', (a2, b), {})
    if method == 'at':
        a, idx, b = inputs
        f = UFUNCS[name]
        bb = np.broadcast_to(obj(b), np.shape(idx))
        for i, j in enumerate(np.asarray(idx).flat):
            a[int(j)] = f(a[int(j)], bb.flat[i])
        return None
    if method != '__call__':
        raise Unsupported(f'ufunc {name}.{method}')
    f = UFUNCS.get(name)
    if f is None:
        try:
            return raise_tree(ufunc(*lower_tree(tuple(inputs)), **kwargs))
        except NotLowerable:
            raise Unsupported(f'ufunc {name}')
    dtype = kwargs.pop('dtype', None)
    rdt = np.dtype(dtype) if dtype is not None else \
        result_dtype(ufunc, inputs)
    arrays = [obj(x) for x in inputs]
    if name in _PRE:
        # integers are converted to floats first
        arrays = [elementwise(lambda v: cast_elem(v, F64), (a,))
                  if vdtype_of(x) != OBJ and not _has_special_kind(a) else a
                  for a, x in zip(arrays, inputs)]
    out = elementwise(f, arrays)
    if rdt is not None and rdt != OBJ and \
            (rdt.kind in 'iu' and rdt != I64 or rdt.kind == 'f'):
        out = elementwise(lambda v: cast_elem(v, rdt), (out,))
    rdt = rdt if rdt is not None else OBJ
    if where is not True:
        w = np.broadcast_to(obj(where), out.shape)
        if outs is None:
            raise Unsupported('ufunc where without out')
        prev = np.broadcast_to(obj(outs[0]), out.shape)
        out = elementwise(ite, (w, out, prev))
    if outs is not None:
        tgt = outs[0] if isinstance(outs, tuple) else outs
        tdt = vdtype_of(tgt)
        if not np.can_cast(rdt, tdt, 'same_kind'):
            raise np.core._exceptions._UFuncOutputCastingError(
                ufunc, 'same_kind', rdt, tdt, 0) \
                if hasattr(np.core, '_exceptions') else TypeError(
                    f"Cannot cast ufunc '{name}' output from {rdt} to {tdt}")
        if out.shape != tgt.shape and tgt.shape != np.broadcast_shapes(
                out.shape, tgt.shape):
            raise ValueError("non-broadcastable output operand with shape "
                             f"{tgt.shape}")
        tgt[...] = mk(out, rdt)
        return tgt
    if out.ndim == 0:
        return scalar_out(out[()], rdt)
    r = mk(out, rdt)
    for x in inputs:
        if is_sa(x) and type(x) is not SymArray:
            r = r.view(type(x))
            r.vdtype = rdt
            r.__array_finalize__(x)
            r.vdtype = rdt
            break
    return r


def _has_special_kind(a):
    return any(type(v) in (SymF64, SymIntF) for v in a.flat)


def _axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, (tuple, list)):
        r = tuple(operator.index(a) % ndim for a in axis)
    else:
        a = operator.index(axis)
        if a >= ndim or a < -ndim:
            raise np.AxisError(a, ndim)
        r = (a % ndim,)
    return r


def reduce_obj(f, o, axis, keepdims=False, initial=None, empty=None):
    """reduce base object array with scalar function f"""
    ax = _axes(axis, o.ndim)
    keep = [i for i in range(o.ndim) if i not in ax]
    t = o.transpose(keep + list(ax))
    kshape = tuple(o.shape[i] for i in keep)
    n = int(np.prod([o.shape[i] for i in ax], dtype=int)) if ax else 1
    t = t.reshape(kshape + (n,))
    out = np.empty(kshape, dtype=object)
    for idx in np.ndindex(*kshape):
        row = t[idx]
        acc = initial
        for v in row:
            acc = v if acc is None else f(acc, v)
        if acc is None:
            if empty is None:
                raise ValueError("zero-size array to reduction operation "
                                 "which has no identity")
            acc = empty
        out[idx] = acc
    if keepdims:
        out = out.reshape([1 if i in ax else s
                           for i, s in enumerate(o.shape)])
    return out


_RED_EMPTY = {'add': 0, 'multiply': 1, 'logical_and': True,
              'logical_or': False}


def finish(out, dt):
    if out.ndim == 0:
        return scalar_out(out[()], dt)
    return mk(out, dt)


def do_reduce(ufunc, a, axis=0, dtype=None, keepdims=False, initial=None,
              outs=None, **kw):
    name = ufunc.__name__
    if isinstance(initial, type(np._NoValue)):
        initial = None
    a = up(a)
    o = a.view(BASE)
    dt = a.vdtype
    if name in ('add', 'multiply'):
        if dtype is not None:
            dt = np.dtype(dtype)
        elif dt.kind == 'b' or (dt.kind in 'iu' and dt.itemsize < 8):
            dt = np.dtype('uint64') if dt.kind == 'u' else I64
        o = elementwise(lambda v: cast_elem(v, dt), (o,)) \
            if dt != a.vdtype else o
    elif name.startswith('logical'):
        dt = BOOL
        o = elementwise(_bool, (o,))
    elif name not in ('maximum', 'minimum', 'fmax', 'fmin', 'bitwise_and',
                      'bitwise_or'):
        raise Unsupported(f'{name}.reduce')
    f = {'add': operator.add, 'multiply': operator.mul}.get(
        name, UFUNCS[name])
    out = reduce_obj(f, o, axis, bool(keepdims) and keepdims is not
                     np._NoValue, initial, _RED_EMPTY.get(name))
    if dt.kind in 'u':
        out = elementwise(lambda v: cast_elem(v, dt), (out,))
    if dt.kind == 'f' and out.size:
        out = elementwise(lambda v: cast_elem(v, dt), (out,))
    r = finish(out, dt)
    if outs is not None and outs[0] is not None:
        outs[0][...] = r
        return outs[0]
    return r


def accumulate(f, a, axis):
    a = up(a)
    o = a.view(BASE)
    if axis is None:
        o = o.ravel()
        axis = 0
    out = np.empty(o.shape, dtype=object)
    om, outm = np.moveaxis(o, axis, 0), np.moveaxis(out, axis, 0)
    for i in range(om.shape[0]):
        if i == 0:
            outm[0] = om[0]
        else:
            outm[i] = elementwise(f, (np.asarray(outm[i - 1], dtype=object),
                                      np.asarray(om[i], dtype=object)))
    dt = a.vdtype
    if dt.kind == 'b':
        dt = I64
    return mk(out, dt)


# ---------------------------------------------------------------------------
# reductions used by methods and functions

def _masked(a, kw, fill):
    w = kw.get('where', True)
    if w is True or w is np._NoValue:
        return a
    a = up(a)
    return f_where(HANDLED['broadcast_to'](up(w), a.shape), a, fill)


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = _masked(a, kw, 0)
    return do_reduce(np.add, a, axis, dtype, keepdims, kw.get('initial'),
                     (out,))


def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = _masked(a, kw, 1)
    return do_reduce(np.multiply, a, axis, dtype, keepdims)


def _count(a, axis):
    ax = _axes(axis, a.ndim)
    return int(np.prod([a.shape[i] for i in ax], dtype=int))


def _where_kw(kw):
    w = kw.get('where', True)
    if w is not True and w is not np._NoValue:
        raise Unsupported('where=')


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = up(a)
    w = kw.get('where', True)
    if w is not True and w is not np._NoValue:
        w = HANDLED['broadcast_to'](up(w), a.shape)
        r = do_ufunc(np.true_divide, '__call__', (
            f_sum(f_where(w, a, 0), axis, keepdims=keepdims),
            f_sum(w, axis, keepdims=keepdims)), {})
        if out is not None:
            out[...] = r
            return out
        return r
    n = _count(a, axis)
    dt = np.dtype(dtype) if dtype is not None else (
        a.vdtype if a.vdtype.kind == 'f' else F64)
    o = elementwise(lambda v: cast_elem(v, dt), (a.view(BASE),)) \
        if a.size else a.view(BASE)
    s = reduce_obj(operator.add, o, axis, bool(keepdims) and
                   keepdims is not np._NoValue, None, 0.0)
    r = finish(elementwise(lambda v: _np_scalar_div(v, n), (s,)), dt)
    if out is not None:
        out[...] = r
        return out
    return r


def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    _where_kw(kw)
    a = up(a)
    n = _count(a, axis)
    m = up(f_mean(a, axis, keepdims=True))
    d = do_ufunc(np.subtract, '__call__', (a, m), {})
    s = f_sum(do_ufunc(np.multiply, '__call__', (d, d), {}), axis,
              keepdims=keepdims)
    return do_ufunc(np.true_divide, '__call__', (s, n - ddof), {}) \
        if is_arr(s) else _np_scalar_div(s, n - ddof)


def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    v = f_var(a, axis, dtype, None, ddof, keepdims)
    if is_arr(v):
        return do_ufunc(np.sqrt, '__call__', (v,), {})
    return scalar_out(UFUNCS['sqrt'](v), F64)


def f_max(a, axis=None, out=None, keepdims=False, **kw):
    a = _masked(a, kw, kw.get('initial'))
    return do_reduce(np.maximum, a, axis, None, keepdims,
                     kw.get('initial'), (out,))


def f_min(a, axis=None, out=None, keepdims=False, **kw):
    a = _masked(a, kw, kw.get('initial'))
    return do_reduce(np.minimum, a, axis, None, keepdims,
                     kw.get('initial'), (out,))


def f_any(a, axis=None, out=None, keepdims=False, **kw):
    a = _masked(a, kw, False)
    return do_reduce(np.logical_or, a, axis, None, keepdims)


def f_all(a, axis=None, out=None, keepdims=False, **kw):
    a = _masked(a, kw, True)
    return do_reduce(np.logical_and, a, axis, None, keepdims)


def _arg1(row, better):
    """index of the first best element; forks over the candidates"""
    n = len(row)
    if n == 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    nans = [i for i, v in enumerate(row) if core._special(v)
            and math.isnan(v)]
    if nans:
        return nans[0]
    if not any(type(v) in SYM for v in row):
        best = 0
        for i in range(1, n):
            if better(row[i], row[best]):
                best = i
        return best
    conds = []
    for i in range(n):
        cs = []
        for j in range(n):
            if j < i:
                cs.append(core.truth(better(row[i], row[j])))
            elif j > i:
                cs.append(z3.Not(core.truth(better(row[j], row[i]))))
        conds.append(z3.And(cs) if cs else z3.BoolVal(True))
    return core.EX.select(conds)


def _argred(a, axis, better, keepdims=False):
    a = up(a)
    o = a.view(BASE)
    if axis is None:
        return np.int64(_arg1(list(o.ravel()), better))
    ax = _axes(axis, o.ndim)[0]
    m = np.moveaxis(o, ax, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        out[idx] = _arg1(list(m[idx]), better)
    if keepdims:
        out = np.expand_dims(out, ax)
    return finish(out, I64)


def f_argmax(a, axis=None, out=None, keepdims=False, **kw):
    return _argred(a, axis, operator.gt,
                   keepdims is not np._NoValue and keepdims)


def f_argmin(a, axis=None, out=None, keepdims=False, **kw):
    return _argred(a, axis, operator.lt,
                   keepdims is not np._NoValue and keepdims)


def _isnan_v(v):
    return core._special(v) and math.isnan(v)


def _nan_filter(a, fill):
    a = up(a)
    return mk(elementwise(lambda v: fill if _isnan_v(v) else v,
                          (a.view(BASE),)), a.vdtype)


def f_nansum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return f_sum(_nan_filter(a, 0.0), axis, dtype, None, keepdims)


def f_nanmean(a, axis=None, **kw):
    a = up(a)
    cnt = mk(elementwise(lambda v: 0 if _isnan_v(v) else 1,
                         (a.view(BASE),)), I64)
    s, n = f_nansum(a, axis), f_sum(cnt, axis)
    if is_arr(s):
        return do_ufunc(np.true_divide, '__call__', (s, n), {})
    return _np_scalar_div(s, n)


def f_nanmax(a, axis=None, out=None, keepdims=False, **kw):
    return do_reduce(np.fmax, a, axis, None, keepdims)


def f_nanmin(a, axis=None, out=None, keepdims=False, **kw):
    return do_reduce(np.fmin, a, axis, None, keepdims)


def f_nanstd(a, axis=None, **kw):
    a = up(a)
    if any(_isnan_v(v) for v in a.view(BASE).flat):
        raise Unsupported('nanstd with nan')
    return f_std(a, axis, **kw)


def f_clip(a, a_min=None, a_max=None, out=None, **kw):
    r = a
    if a_min is None:
        a_min = kw.get('min')
    if a_max is None:
        a_max = kw.get('max')
    if a_min is not None:
        r = do_ufunc(np.maximum, '__call__', (r, a_min), {})
    if a_max is not None:
        r = do_ufunc(np.minimum, '__call__', (r, a_max), {})
    if out is not None:
        out[...] = r
        return out
    return r


def f_cumsum(a, axis=None, dtype=None, out=None):
    return accumulate(operator.add, a, axis)


def f_cumprod(a, axis=None, dtype=None, out=None):
    return accumulate(operator.mul, a, axis)


def f_dot(a, b, out=None):
    a, b = up(a), up(b)
    if a.ndim == 0 or b.ndim == 0:
        return do_ufunc(np.multiply, '__call__', (a, b), {})
    dt = np.result_type(a.vdtype, b.vdtype)
    ao, bo = a.view(BASE), b.view(BASE)
    bm = bo if bo.ndim == 1 else np.moveaxis(bo, -2, 0)
    if ao.shape[-1] != bm.shape[0]:
        raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
    oshape = ao.shape[:-1] + bm.shape[1:]
    out = np.empty(oshape, dtype=object)
    for i in np.ndindex(*ao.shape[:-1]):
        for j in np.ndindex(*bm.shape[1:]):
            acc = 0
            for k in range(ao.shape[-1]):
                acc = acc + ao[i + (k,)] * bm[(k,) + j]
            out[i + j] = cast_elem(acc, dt)
    return finish(out, dt)


def f_matmul(a, b, **kw):
    a2, b2 = up(a), up(b)
    if a2.ndim > 2 or b2.ndim > 2:
        raise Unsupported('matmul')
    return f_dot(a2, b2)


def f_where(cond, *args):
    if not args:
        return f_nonzero(cond)
    x, y = args
    c = obj(cond)
    vx, vy = vdtype_of(x), vdtype_of(y)
    dums = []
    for v in (x, y):
        d = vdtype_of(v)
        if is_arr(v) and v.ndim:
            dums.append(np.ones(1, d))
        elif is_num_scalar(v):
            dums.append(v)
        else:
            dums.append(d.type(1) if d != OBJ else v)
    dt = np.result_type(*dums) if OBJ not in (vx, vy) else OBJ
    out = elementwise(lambda cc, a, b: ite(_bool(cc), cast_elem(a, dt),
                                           cast_elem(b, dt)),
                      (c, obj(x), obj(y)))
    return mk(out, dt)


def is_num_scalar(v):
    return isinstance(v, (int, float, np.number, np.bool_)) and \
        type(v) not in SYM


def concrete_bool(a):
    """concretise an array of conditions by forking on each"""
    o = obj(a)
    r = np.empty(o.shape, dtype=bool)
    for i, v in enumerate(o.flat):
        r.flat[i] = bool(v)
    return r


def f_nonzero(a):
    return tuple(raise_tree(i) for i in np.nonzero(concrete_bool(a)))


def f_flatnonzero(a):
    return raise_tree(np.flatnonzero(concrete_bool(a)))


def f_count_nonzero(a, axis=None, **kw):
    a = up(a)
    o = elementwise(lambda v: _bool(v).as_int() if type(_bool(v)) is SymBool
                    else int(bool(v)), (a.view(BASE),))
    return f_sum(mk(o, I64), axis)


def f_argwhere(a):
    return raise_tree(np.argwhere(concrete_bool(a)))


def f_array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0, **kw):
    if dtype is None and isinstance(x, (str, bytes)):
        return np.array(x)
    if dtype is not None and np.dtype(dtype).kind not in 'fiub':
        return np.array(x, dtype=dtype)
    try:
        a = up(x)
    except NotLowerable:
        raise Unsupported('array')
    if a.vdtype == OBJ and dtype is None:
        if all_concrete(a.view(BASE)):
            r = np.array(x)
            return raise_tree(r)
        return a
    if dtype is not None:
        dt = np.dtype(dtype)
        a = mk(elementwise(lambda v: cast_elem(v, dt), (a.view(BASE),)), dt)
    else:
        a = mk(a.view(BASE).copy(), a.vdtype)
    if ndmin and a.ndim < ndmin:
        a = a.reshape((1,) * (ndmin - a.ndim) + a.shape)
    return a


def f_asarray(x, dtype=None, **kw):
    if is_sa(x):
        a = x if type(x) is SymArray else mk(x.view(BASE), x.vdtype)
        if dtype is None or np.dtype(dtype) == a.vdtype:
            return a
    return f_array(x, dtype)


def f_asanyarray(x, dtype=None, **kw):
    if is_sa(x) and (dtype is None or np.dtype(dtype) == x.vdtype):
        return x
    return f_array(x, dtype)


def f_copy(a, order='K', subok=False):
    return f_array(a)


def _dt(dtype, default=F64):
    if dtype is None:
        return default
    return np.dtype(dtype)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(operator.index(i) for i in s)
    if is_arr(s):
        return tuple(operator.index(i) for i in s)
    return (operator.index(s),)


def f_full(shape, fill_value, dtype=None, order='C', **kw):
    fv = obj(fill_value)
    dt = np.dtype(dtype) if dtype is not None else (
        vdtype_of(fill_value) if not isinstance(fill_value, (list, tuple))
        else seq_dtype(fill_value))
    if dt.kind not in 'fiubO':
        return np.full(shape, fill_value, dtype)
    o = np.empty(_shape(shape), dtype=object)
    b = np.broadcast_to(fv, o.shape)
    for i, v in enumerate(b.flat):
        o.flat[i] = cast_elem(v, dt)
    return mk(o, dt)


def f_zeros(shape, dtype=None, order='C', **kw):
    dt = _dt(dtype)
    if dt.kind not in 'fiubO':
        return np.zeros(shape, dtype)
    return f_full(shape, 0, dt)


def f_ones(shape, dtype=None, order='C', **kw):
    dt = _dt(dtype)
    return f_full(shape, 1, dt)


_junk = [0]


def f_empty(shape, dtype=None, order='C', **kw):
    """uninitialised memory: fresh unconstrained symbols"""
    dt = _dt(dtype)
    if dt.kind not in 'fiub':
        return np.empty(shape, dtype)
    o = np.empty(_shape(shape), dtype=object)
    ex = core.EX
    for i in range(o.size):
        ex.junk = getattr(ex, 'junk', 0) + 1
        nm = f'__junk{ex.junk}'
        if dt.kind == 'f':
            o.flat[i] = SymReal(z3.Real(nm), True)
        elif dt.kind in 'iu':
            o.flat[i] = wrap_int(SymInt(z3.Int(nm), True), dt)
        else:
            o.flat[i] = SymBool(z3.Bool(nm), True)
    return mk(o, dt)


def _like(f):
    def g(a, dtype=None, order='K', subok=True, shape=None, **kw):
        return f(np.shape(a) if shape is None else shape,
                 dtype if dtype is not None else vdtype_of(a))
    return g


def f_full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    return f_full(np.shape(a) if shape is None else shape, fill_value,
                  dtype if dtype is not None else vdtype_of(a))


def f_astype(a, dtype, order='K', casting='unsafe', subok=True, copy=True):
    dt = np.dtype(dtype)
    if dt.kind not in 'fiubO':
        r = lower(a)
        if r is None:
            raise Unsupported('astype ' + str(dt))
        return r.astype(dt)
    if not copy and dt == a.vdtype:
        return a
    out = elementwise(lambda v: cast_elem(v, dt), (a.view(BASE),))
    r = mk(out, dt)
    if type(a) is not SymArray and subok:
        r = r.view(type(a))
        r.vdtype = dt
        r.__array_finalize__(a)
        r.vdtype = dt
    return r


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = f_isclose(a, b, rtol, atol, equal_nan)
    return f_all(r)


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = do_ufunc(np.absolute, '__call__',
                 (do_ufunc(np.subtract, '__call__', (up(a), up(b)), {}),), {})
    ab = do_ufunc(np.absolute, '__call__', (up(b),), {})
    return d <= ab * rtol + atol


def f_array_equal(a, b, equal_nan=False):
    a, b = up(a), up(b)
    if a.shape != b.shape:
        return False
    return f_all(a == b)


def f_isin(element, test_elements, assume_unique=False, invert=False, **kw):
    e, t = obj(element), obj(test_elements).ravel()

    def f(v):
        r = False
        for x in t:
            q = (v == x)
            r = _or(r, q if type(q) is SymBool else bool(q))
        return _not(r) if invert else r
    return mk(elementwise(f, (e,)), BOOL)


def f_sort(a, axis=-1, **kw):
    """selection by forks"""
    a = up(a)
    o = a.view(BASE)
    if axis is None:
        o = o.ravel()
        axis = 0
    m = np.moveaxis(o, axis, -1)
    out = np.empty(m.shape, dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        out[idx] = sorted(m[idx])
    return mk(np.moveaxis(out, -1, axis), a.vdtype)


def f_argsort(a, axis=-1, **kw):
    a = up(a)
    o = a.view(BASE)
    if axis is None:
        o = o.ravel()
    elif o.ndim != 1:
        m = np.moveaxis(o, axis, -1)
        r = np.empty(m.shape, dtype=object)
        for i in np.ndindex(*m.shape[:-1]):
            r[i] = sorted(range(m.shape[-1]), key=lambda k: m[i][k])
        return mk(np.moveaxis(r, -1, axis), I64)
    return mk(np.array(sorted(range(o.size), key=lambda i: o[i]),
                       dtype=object), I64)


def f_median(a, axis=None, **kw):
    s = f_sort(a, axis)
    if axis is not None and up(a).ndim > 1:
        raise Unsupported('median')
    n = s.size
    o = s.view(BASE).ravel()
    return (o[n // 2] if n % 2 else (o[n // 2 - 1] + o[n // 2]) / 2)


def f_unique(a, return_index=False, return_inverse=False,
             return_counts=False, **kw):
    """forks on order and equality"""
    a = up(a)
    vals = list(a.view(BASE).ravel())
    order = sorted(range(len(vals)), key=lambda i: vals[i])
    uniq, idx, cnt = [], [], []
    inv = [0] * len(vals)
    for i in order:
        if uniq and bool(vals[i] == uniq[-1]):
            cnt[-1] += 1
        else:
            uniq.append(vals[i])
            idx.append(i)
            cnt.append(1)
        inv[i] = len(uniq) - 1
    u = np.empty(len(uniq), dtype=object)
    for i, v in enumerate(uniq):
        u[i] = v
    res = [mk(u, a.vdtype)]
    if return_index:
        res.append(np.array(idx))
    if return_inverse:
        res.append(np.array(inv))
    if return_counts:
        res.append(np.array(cnt))
    return res[0] if len(res) == 1 else tuple(res)


def f_trapz(y, x=None, dx=1.0, axis=-1):
    y = up(y)
    if y.ndim != 1:
        ym = np.moveaxis(y.view(BASE), axis, -1)
        out = np.empty(ym.shape[:-1], dtype=object)
        for idx in np.ndindex(*out.shape):
            out[idx] = f_trapz(mk(ym[idx], y.vdtype), x, dx)
        return mk(out, F64)
    yo = y.view(BASE)
    xo = obj(x) if x is not None else None
    acc = 0.0
    for i in range(len(yo) - 1):
        d = (xo[i + 1] - xo[i]) if xo is not None else dx
        acc = acc + (yo[i + 1] + yo[i]) * d / 2
    return scalar_out(cast_elem(acc, F64), F64)


def f_interp(x, xp, fp, left=None, right=None, period=None):
    """piecewise linear, forks on the bracket"""
    if period is not None:
        raise Unsupported('interp period')
    xo, xpo, fpo = obj(x), obj(xp).ravel(), obj(fp).ravel()
    n = len(xpo)

    def one(v):
        if v < xpo[0]:
            return fpo[0] if left is None else left
        if v > xpo[n - 1]:
            return fpo[n - 1] if right is None else right
        for i in range(n - 1):
            if v <= xpo[i + 1]:
                return fpo[i] + (fpo[i + 1] - fpo[i]) * (v - xpo[i]) / \
                    (xpo[i + 1] - xpo[i])
        return fpo[n - 1]
    out = elementwise(lambda v: cast_elem(one(v), F64), (xo,))
    return finish(out, F64)


def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
               axis=0):
    num = operator.index(num)
    if not is_sym(start) and not is_sym(stop):
        return raise_tree(np.linspace(lower_tree(start), lower_tree(stop),
                                      num, endpoint,
                                      retstep, dtype, axis))
    div = (num - 1) if endpoint else num
    o = np.empty(num, dtype=object)
    step = (stop - start) / div if div > 0 else 0.0
    for i in range(num):
        o[i] = start + step * i
    if endpoint and num > 1:
        o[num - 1] = stop
    dt = _dt(dtype)
    r = mk(elementwise(lambda v: cast_elem(v, dt), (o,)), dt)
    return (r, step) if retstep else r


def f_arange(*args, dtype=None, **kw):
    args = tuple(operator.index(a) if type(a) in (SymInt, SymIntF) else a
                 for a in args)
    if any(type(a) in SYM for a in args):
        raise Unsupported('arange of reals')
    return raise_tree(np.arange(*args, dtype=dtype))


def f_diff(a, n=1, axis=-1, **kw):
    a = up(a)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


def f_average(a, axis=None, weights=None, returned=False, **kw):
    if weights is None:
        r = f_mean(a, axis)
        if returned:
            raise Unsupported('average returned')
        return r
    a, w = up(a), up(weights)
    if w.shape != a.shape:
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = w.reshape(sh)
        w = mk(np.broadcast_to(w.view(BASE), a.shape).copy(), w.vdtype)
    sw = f_sum(w, axis)
    r = f_sum(a * w, axis) / sw
    return (r, sw) if returned else r


def f_histogram(a, bins=10, range=None, density=None, weights=None):
    av = obj(a).ravel()
    if isinstance(bins, (int, np.integer)) and range is not None:
        if is_sym(range[0]) or is_sym(range[1]):
            edges = f_linspace(range[0], range[1], operator.index(bins) + 1)
        else:
            edges = raise_tree(np.linspace(range[0], range[1],
                                           operator.index(bins) + 1))
    elif is_arr(bins) or isinstance(bins, (list, tuple)):
        edges = up(bins)
    else:
        raise Unsupported('histogram bins')
    eo = edges.view(BASE)
    n = len(eo) - 1
    counts = np.empty(n, dtype=object)
    wv = None if weights is None else obj(weights).ravel()
    for b in builtins.range(n):
        acc = 0
        for i, v in enumerate(av):
            up_ = (v <= eo[b + 1]) if b == n - 1 else (v < eo[b + 1])
            c = _and(_bool(v >= eo[b]), _bool(up_))
            if wv is not None:
                acc = acc + ite(c, wv[i], 0)
            else:
                acc = acc + (c.as_int() if type(c) is SymBool else int(c))
        counts[b] = acc
    counts = mk(counts, I64 if wv is None else vdtype_of(weights))
    if density:
        return counts / f_diff(edges) / f_sum(counts), edges
    return counts, edges


def _bin_index(v, edges):
    """the bin of v (the last one closed), None if outside"""
    n = len(edges) - 1
    if truth(v < edges[0]) or truth(v > edges[n]):
        return None
    for b in builtins.range(1, n):
        if truth(v < edges[b]):
            return b - 1
    return n - 1


def truth(c):
    return core.EX.fork(c.e) if type(c) is SymBool else bool(c)


def f_histogram2d(x, y, bins=10, range=None, density=None, weights=None):
    if density:
        raise Unsupported('histogram2d density')
    if not isinstance(bins, (list, tuple)):
        bins = [bins, bins]
    edges = []
    vs = [list(obj(x).ravel()), list(obj(y).ravel())]
    for i in (0, 1):
        b = bins[i]
        if is_arr(b) or isinstance(b, (list, tuple)):
            edges.append(up(b))
            continue
        if range is not None and range[i] is not None:
            lo, hi = range[i]
        else:
            lo = hi = vs[i][0]
            for v in vs[i][1:]:
                if truth(v < lo):
                    lo = v
                elif truth(v > hi):
                    hi = v
        if truth(lo == hi):
            lo, hi = lo - 0.5, hi + 0.5
        if is_sym(lo) or is_sym(hi):
            edges.append(f_linspace(lo, hi, operator.index(b) + 1))
        else:
            edges.append(raise_tree(np.linspace(lo, hi,
                                                operator.index(b) + 1)))
    eo = [list(obj(e)) for e in edges]
    w = [1.0] * len(vs[0]) if weights is None else list(obj(weights).ravel())
    h = np.empty((len(eo[0]) - 1, len(eo[1]) - 1), dtype=object)
    h[...] = 0.0
    for a, b, c in zip(vs[0], vs[1], w):
        i, j = _bin_index(a, eo[0]), _bin_index(b, eo[1])
        if i is not None and j is not None:
            h[i, j] = h[i, j] + c
    return mk(h, F64), edges[0], edges[1]


def f_bincount(x, weights=None, minlength=0):
    xs = [operator.index(v) for v in obj(x).ravel()]
    w = None if weights is None else list(obj(weights).ravel())
    out = np.empty(max([v + 1 for v in xs] + [minlength]), dtype=object)
    out[...] = 0 if w is None else 0.0
    for i, v in enumerate(xs):
        out[v] = out[v] + (1 if w is None else w[i])
    return mk(out, I64 if w is None else F64)


def f_digitize(x, bins, right=False):
    xo, bo = obj(x), obj(bins)

    def one(v):
        acc = 0
        for b in bo:
            c = (v > b) if right else (v >= b)
            c = _bool(c)
            acc = acc + (c.as_int() if type(c) is SymBool else int(c))
        return acc
    return finish(elementwise(one, (xo,)), I64)


def f_searchsorted(a, v, side='left', sorter=None):
    ao = obj(a)

    def one(x):
        acc = 0
        for b in ao:
            c = _bool((b < x) if side == 'left' else (b <= x))
            acc = acc + (c.as_int() if type(c) is SymBool else int(c))
        return acc
    return finish(elementwise(one, (obj(v),)), I64)


def f_round(a, decimals=0, out=None):
    if decimals == 0:
        return do_ufunc(np.rint, '__call__', (a,), {})
    s = 10.0 ** decimals
    return do_ufunc(np.rint, '__call__', (up(a) * s,), {}) / s


def f_take(a, indices, axis=None, **kw):
    a = up(a)
    idx = norm_index(indices)
    if axis is None:
        r = np.take(a.view(BASE).ravel(), idx)
    else:
        r = np.take(a.view(BASE), idx, axis=axis)
    return mk(r, a.vdtype) if is_arr(r) else scalar_out(r, a.vdtype)


def f_put(a, ind, v, **kw):
    a[...] = a
    flat = a.view(BASE).reshape(-1)
    idx = np.atleast_1d(norm_index(ind))
    vals = np.broadcast_to(obj(v), idx.shape)
    for i, j in enumerate(idx.flat):
        flat[j] = cast_elem(vals.flat[i], a.vdtype)


def f_insert(arr, o, values, axis=None):
    a = up(arr)
    r = np.insert(a.view(BASE), o, obj(values), axis=axis)
    return mk(r, a.vdtype)


def f_convolve(a, v, mode='full'):
    a, v = up(a).view(BASE), up(v).view(BASE)
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    full = np.empty(n + m - 1, dtype=object)
    for k in range(n + m - 1):
        acc = 0.0
        for i in range(m):
            if 0 <= k - i < n:
                acc = acc + v[i] * a[k - i]
        full[k] = acc
    if mode == 'full':
        r = full
    elif mode == 'same':
        s = (m - 1) // 2
        r = full[s:s + n]
    else:
        r = full[m - 1:n]
    return mk(r, F64)


def f_correlate(a, v, mode='valid'):
    vo = up(v)
    return f_convolve(a, vo[::-1], mode)


def f_polyval(p, x):
    acc = 0
    for c in p:
        acc = acc * x + c
    return acc


def f_nan_to_num(x, copy=True, nan=0.0, **kw):
    return _nan_filter(x, nan)


def f_ptp(a, axis=None, **kw):
    return f_max(a, axis) - f_min(a, axis)


def f_meshgrid(*xi, **kw):
    r = np.meshgrid(*[obj(x) for x in xi], **kw)
    return [mk(np.ascontiguousarray(o), vdtype_of(x)) for o, x in zip(r, xi)]


def _structural(fn):
    """numpy functions that only move elements"""
    def g(*args, **kwargs):
        dts = []

        def conv(x):
            if is_sa(x):
                dts.append(x.vdtype)
                return x.view(BASE)
            if is_arr(x):
                dts.append(vdtype_of(x))
                return x
            if type(x) in (list, tuple) and any(
                    is_sa(i) or type(i) in SYM or type(i) in (list, tuple)
                    for i in x):
                return type(x)(conv(i) for i in x)
            if type(x) in SYM:
                if type(x) in (SymInt, SymIntF):
                    return operator.index(x)
                dts.append(kind_dtype(x))
                return obj(x)
            return x
        a = [conv(x) for x in args]
        k = {n: conv(x) for n, x in kwargs.items()}
        r = fn(*a, **k)
        dt = np.result_type(*dts) if dts and OBJ not in dts else OBJ

        def back(x):
            if is_arr(x) and x.dtype == OBJ:
                if x.ndim == 0:
                    return scalar_out(x[()], dt)
                if dt != OBJ:
                    x = elementwise(lambda v: cast_elem(v, dt), (x,)) \
                        if len(set(dts)) > 1 else x
                return mk(x, dt)
            if type(x) in (list, tuple):
                return type(x)(back(i) for i in x)
            return x
        return back(r)
    return g


STRUCT = ['reshape', 'ravel', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis',
          'expand_dims', 'squeeze', 'concatenate', 'stack', 'vstack',
          'hstack', 'dstack', 'column_stack', 'split', 'array_split',
          'hsplit', 'vsplit', 'repeat', 'tile', 'roll', 'flip', 'fliplr',
          'flipud', 'rot90', 'atleast_1d', 'atleast_2d', 'atleast_3d',
          'broadcast_to', 'broadcast_arrays', 'append', 'delete', 'diag',
          'diagonal', 'resize', 'row_stack', 'pad', 'ascontiguousarray',
          'take_along_axis', 'compress', 'extract', 'triu', 'tril']

HANDLED = {
    'sum': f_sum, 'prod': f_prod, 'mean': f_mean, 'var': f_var, 'std': f_std,
    'max': f_max, 'amax': f_max, 'min': f_min, 'amin': f_min, 'any': f_any,
    'all': f_all, 'argmax': f_argmax, 'argmin': f_argmin, 'clip': f_clip,
    'nansum': f_nansum, 'nanmean': f_nanmean, 'nanmax': f_nanmax,
    'nanmin': f_nanmin, 'nanstd': f_nanstd,
    'cumsum': f_cumsum, 'cumprod': f_cumprod, 'dot': f_dot,
    'where': f_where, 'nonzero': f_nonzero, 'flatnonzero': f_flatnonzero,
    'count_nonzero': f_count_nonzero, 'argwhere': f_argwhere,
    'copy': f_copy, 'allclose': f_allclose, 'isclose': f_isclose,
    'array_equal': f_array_equal, 'isin': f_isin, 'in1d': f_isin,
    'sort': f_sort, 'argsort': f_argsort, 'median': f_median,
    'unique': f_unique, 'trapz': f_trapz, 'interp': f_interp,
    'linspace': f_linspace, 'diff': f_diff, 'average': f_average,
    'histogram': f_histogram, 'digitize': f_digitize,
    'histogram2d': f_histogram2d, 'bincount': f_bincount,
    'searchsorted': f_searchsorted, 'round': f_round, 'around': f_round,
    'take': f_take, 'put': f_put, 'insert': f_insert,
    'convolve': f_convolve, 'correlate': f_correlate, 'polyval': f_polyval,
    'nan_to_num': f_nan_to_num, 'ptp': f_ptp, 'inner': f_dot,
    'zeros_like': _like(f_zeros), 'ones_like': _like(f_ones),
    'empty_like': _like(f_empty), 'full_like': f_full_like,
    'meshgrid': f_meshgrid,
}
for _n in STRUCT:
    if hasattr(np, _n):
        HANDLED[_n] = _structural(getattr(np, _n))


def norm_index(i):
    """index -> concrete numpy index (forks if symbolic)"""
    t = type(i)
    if t is tuple:
        return tuple(norm_index(x) for x in i)
    if t is list:
        if any(type(x) in SYM for x in i):
            return [norm_index(x) for x in i]
        return i
    if t in (SymInt, SymIntF):
        return operator.index(i)
    if t is SymBool:
        return bool(i)
    if t is SymReal or t is SymF64:
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                         "numpy.newaxis (`None`) and integer or boolean "
                         "arrays are valid indices")
    if t is slice:
        f = lambda x: norm_index(x) if type(x) in SYM else x
        for x in (i.start, i.stop, i.step):
            if type(x) in (SymReal, SymF64):
                raise TypeError("slice indices must be integers or None or "
                                "have an __index__ method")
        return slice(f(i.start), f(i.stop), f(i.step))
    if is_sa(i):
        if i.vdtype.kind == 'b':
            return concrete_bool(i)
        if i.vdtype.kind in 'iu':
            o = i.view(BASE)
            r = np.empty(o.shape, dtype=np.int64)
            for k, v in enumerate(o.flat):
                r.flat[k] = operator.index(v)
            return r
        raise IndexError("arrays used as indices must be of integer (or "
                         "boolean) type")
    if is_arr(i) and i.dtype == OBJ:
        return norm_index(up(i))
    if isinstance(i, type):
        return i
    v = getattr(i, 'values', None)
    if v is not None and is_arr(v):
        return norm_index(v)
    return i


class _SAMeta(type(np.ndarray)):
    def __instancecheck__(cls, o):
        t = type(o)
        if issubclass(t, cls):
            return True
        return cls is SymArray and issubclass(t, BASE)


class SymArray(np.ndarray, metaclass=_SAMeta):
    __array_priority__ = 1000

    def __new__(cls, shape, dtype=float, buffer=None, **kw):
        # np.ndarray(shape, dtype): uninitialised
        r = f_empty(shape, dtype)
        return r if cls is SymArray else r.view(cls)

    def __init_subclass__(cls, **kw):
        super().__init_subclass__(**kw)
        f = cls.__dict__.get('__array_finalize__')
        if f is not None:
            def fin(self, o, _f=f):
                SymArray.__array_finalize__(self, o)
                _f(self, o)
            cls.__array_finalize__ = fin

    def __array_finalize__(self, o):
        if o is None:
            return
        d = getattr(o, '_vdtype', None)
        if d is not None and '_vdtype' not in self.__dict__:
            self.__dict__['_vdtype'] = d

    @property
    def vdtype(self):
        d = self.__dict__.get('_vdtype')
        if d is None:
            d = self.__dict__['_vdtype'] = infer_dtype(self.view(BASE))
        return d

    @vdtype.setter
    def vdtype(self, d):
        self.__dict__['_vdtype'] = np.dtype(d)

    @property
    def dtype(self):
        return self.vdtype

    @property
    def itemsize(self):
        return self.vdtype.itemsize

    @property
    def nbytes(self):
        return self.vdtype.itemsize * self.size

    @property
    def flat(self):
        return FlatIter(self)

    @property
    def T(self):
        return self.transpose()

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return do_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        h = HANDLED.get(func.__name__)
        if h is not None:
            return h(*args, **kwargs)
        try:
            return raise_tree(func(*lower_tree(tuple(args)),
                                   **lower_tree(dict(kwargs))))
        except NotLowerable:
            if func.__name__ in ('shape', 'ndim', 'size'):
                return getattr(args[0], func.__name__)
            raise Unsupported(f'numpy.{func.__name__}')

    def __getitem__(self, i):
        i = norm_index(i)
        r = self.view(BASE)[i]
        if not is_arr(r):
            return scalar_out(r, self.vdtype)
        # keep the subclass (Waveform) and its attributes
        r2 = r.view(type(self))
        r2.vdtype = self.vdtype
        if type(self) is not SymArray:
            r2.__array_finalize__(self)
        return r2

    def __setitem__(self, i, value):
        base = self.view(BASE)
        dt = self.vdtype
        if is_sa(i) and i.vdtype.kind == 'b' and not \
                all_concrete(i.view(BASE)):
            vo = obj(value)
            if vo.ndim == 0:
                if i.shape != self.shape[:i.ndim]:
                    raise IndexError("boolean index did not match indexed "
                                     "array")
                v = cast_elem(vo[()], dt)
                m = i.view(BASE)
                for k in np.ndindex(*m.shape):
                    sub = base[k]
                    if is_arr(sub):
                        for kk in np.ndindex(*sub.shape):
                            sub[kk] = ite(m[k], v, sub[kk])
                    else:
                        base[k] = ite(m[k], v, sub)
                return
        i = norm_index(i)
        tgt = base[i]
        vo = obj(value)
        if vo.ndim == 0:
            v = cast_elem(vo[()], dt)
            if is_arr(tgt):
                c = np.empty(tgt.shape, dtype=object)
                for k in range(c.size):
                    c.flat[k] = v
                base[i] = c
            else:
                base[i] = v
        else:
            if not is_arr(tgt):
                if vo.size != 1:
                    raise ValueError(
                        "setting an array element with a sequence.")
                base[i] = cast_elem(vo.ravel()[0], dt)
                return
            base[i] = elementwise(lambda v: cast_elem(v, dt), (vo,))

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for k in range(self.shape[0]):
            yield self[k]

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(BASE).ravel()[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous. Use a.any() or a.all()")

    def __index__(self):
        if self.size == 1 and self.ndim == 0:
            return operator.index(self.view(BASE)[()])
        raise TypeError("only integer scalar arrays can be converted to a "
                        "scalar index")

    def __contains__(self, v):
        return bool(f_any(self == v))

    def __repr__(self):
        return f"<SymArray {self.shape} {self.vdtype}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        raise Unsupported('pickle of a symbolic array')

    def __array__(self, dtype=None, copy=None):
        r = lower(self)
        if r is None:
            r = self.view(BASE)
        return r if dtype is None else r.astype(dtype)

    def astype(self, dtype, order='K', casting='unsafe', subok=True,
               copy=True):
        return f_astype(self, dtype, order, casting, subok, copy)

    def copy(self, order='C'):
        r = self.view(BASE).copy().view(type(self))
        r.vdtype = self.vdtype
        r.__array_finalize__(self)
        return r

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return self.view(BASE).tolist()

    def item(self, *a):
        if not a:
            if self.size != 1:
                raise ValueError("can only convert an array of size 1 to a "
                                 "Python scalar")
            return self.view(BASE).ravel()[0]
        return self.view(BASE)[tuple(a)] if len(a) > 1 else \
            self.view(BASE).ravel()[a[0]]

    def fill(self, v):
        self[...] = v

    def sort(self, axis=-1, **kw):
        self[...] = f_sort(self, axis)

    def argsort(self, axis=-1, **kw):
        return f_argsort(self, axis)

    def flatten(self, order='C'):
        return mk(self.view(BASE).flatten(order), self.vdtype)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return f_sum(self, axis, dtype, out, keepdims, **kw)

    def prod(self, axis=None, **kw):
        return f_prod(self, axis, **kw)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return f_mean(self, axis, dtype, out, keepdims, **kw)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False,
            **kw):
        return f_var(self, axis, dtype, out, ddof, keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False,
            **kw):
        return f_std(self, axis, dtype, out, ddof, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return f_max(self, axis, out, keepdims, **kw)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return f_min(self, axis, out, keepdims, **kw)

    def ptp(self, axis=None, **kw):
        return f_ptp(self, axis)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return f_any(self, axis, out, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return f_all(self, axis, out, keepdims)

    def argmax(self, axis=None, out=None, **kw):
        return f_argmax(self, axis, **kw)

    def argmin(self, axis=None, out=None, **kw):
        return f_argmin(self, axis, **kw)

    def clip(self, min=None, max=None, out=None, **kw):
        return f_clip(self, min, max, out)

    def cumsum(self, axis=None, **kw):
        return f_cumsum(self, axis)

    def cumprod(self, axis=None, **kw):
        return f_cumprod(self, axis)

    def dot(self, b, out=None):
        return f_dot(self, b)

    def __matmul__(self, b):
        return f_matmul(self, b)

    def __rmatmul__(self, b):
        return f_matmul(b, self)

    def nonzero(self):
        return f_nonzero(self)

    def round(self, decimals=0, out=None):
        return f_round(self, decimals)

    def take(self, indices, axis=None, **kw):
        return f_take(self, indices, axis)

    def searchsorted(self, v, side='left', sorter=None):
        return f_searchsorted(self, v, side)

    def repeat(self, repeats, axis=None):
        return HANDLED['repeat'](self, repeats, axis)

    def tobytes(self, *a):
        r = lower(self)
        if r is None:
            raise Unsupported('tobytes')
        return r.tobytes(*a)


class FlatIter:
    def __init__(self, a):
        self.a = a
        self.o = a.view(BASE)

    def __iter__(self):
        for v in BASE.flat.__get__(self.o):
            yield scalar_out(v, self.a.vdtype)

    def __len__(self):
        return self.o.size

    def __getitem__(self, i):
        i = norm_index(i)
        r = BASE.flat.__get__(self.o)[i]
        return mk(r, self.a.vdtype) if is_arr(r) else \
            scalar_out(r, self.a.vdtype)

    def __setitem__(self, i, v):
        i = norm_index(i)
        vo = obj(v)
        o = elementwise(lambda x: cast_elem(x, self.a.vdtype), (vo,))
        BASE.flat.__get__(self.o)[i] = o if o.ndim else o[()]


# ---------------------------------------------------------------------------
# the numpy module seen by the code under test

def make_scalar_type(real):
    class M(type):
        def __instancecheck__(cls, o):
            if type(o) in SYM:
                return o.np_ and kind_dtype(o) == np.dtype(real)
            return isinstance(o, real)

        def __subclasscheck__(cls, o):
            return issubclass(getattr(o, '_real_type', o), real)

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)

        def __call__(cls, v=0, *a, **k):
            dt = np.dtype(real)
            if type(v) in SYM:
                r = cast_elem(v, dt)
                return scalar_out(r, dt)
            if is_sa(v) or isinstance(v, (list, tuple)):
                r = f_array(v, dt)
                return scalar_out(r.view(BASE)[()], dt) if r.ndim == 0 else r
            return real(v, *a, **k)
    ns = {'dtype': np.dtype(real), '_real_type': real}
    return M(real.__name__, (), ns)


SCALARS = {}
for _n in ('float64', 'float32', 'float16', 'int64', 'int32', 'int16', 'int8',
           'uint64', 'uint32', 'uint16', 'uint8', 'bool_', 'intp', 'int_',
           'float_', 'double', 'single', 'longlong'):
    if hasattr(np, _n):
        SCALARS[_n] = make_scalar_type(getattr(np, _n))


def shim_call(name):
    f = HANDLED[name]

    def g(*a, **k):
        return f(*a, **k)
    g.__name__ = name
    return g


def _is_sym_series(x):
    """a column of a real pandas table that holds symbolic values"""
    return type(x).__name__ == 'Series' and x.dtype == object and \
        any(type(v) in SYM for v in x.values)


class UfuncShim:
    """callable ufunc that upgrades plain object arrays and symbols"""

    def __init__(self, real):
        self.real = real
        self.__name__ = real.__name__

    def __call__(self, *args, **kwargs):
        nin = self.real.nin
        if len(args) > nin:
            kwargs = dict(kwargs, out=tuple(args[nin:]))
            args = args[:nin]
        if 'out' in kwargs and not isinstance(kwargs['out'], tuple):
            if kwargs['out'] is None:
                kwargs.pop('out')
            else:
                kwargs['out'] = (kwargs['out'],)
        if needs_sym(args) or needs_sym(kwargs.get('out', ())):
            return do_ufunc(self.real, '__call__', args, kwargs)
        if not kwargs and any(map(_is_sym_series, args)):
            ser = [a for a in args if type(a).__name__ == 'Series']
            if all(a.index.equals(ser[0].index) for a in ser):
                r = do_ufunc(self.real, '__call__', tuple(
                    up(a.values) if type(a).__name__ == 'Series' else a
                    for a in args), {})
                low = lower(r)
                return type(ser[0])(np.array(r.view(BASE)) if low is None
                                    else low, index=ser[0].index,
                                    name=ser[0].name)
        r = self.real(*args, **kwargs)
        return raise_tree(r)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False,
               initial=None, **kw):
        return do_reduce(self.real, a, axis, dtype, keepdims, initial, (out,))

    def accumulate(self, a, axis=0, **kw):
        return accumulate(UFUNCS[self.__name__], a, axis)

    def reduceat(self, a, indices, axis=0, **kw):
        from . import npmore
        return npmore.f_reduceat(self.real, a, indices, axis)

    def outer(self, a, b, **kw):
        return do_ufunc(self.real, 'outer', (a, b), {})

    def at(self, a, idx, b=None):
        return do_ufunc(self.real, 'at', (a, norm_index(idx), b), {})


def needs_sym(args):
    for a in args:
        t = type(a)
        if t in SYM or issubclass(t, SymArray):
            return True
        if issubclass(t, BASE) and a.dtype == OBJ:
            return True
        if t in (list, tuple) and needs_sym(a):
            return True
    return False


def f_vectorize(f, *a, **k):
    def g(*args):
        o = elementwise(f, [obj(x) for x in args])
        return finish(o, infer_dtype(o))
    return g


def f_fromiter(it, dtype, count=-1):
    return f_array(list(it), dtype)


def f_errstate(**k):
    return np.errstate(**k)


class NumpyShim(types.ModuleType):
    """numpy as the code under test sees it"""

    def __init__(self):
        super().__init__('numpy')
        d = self.__dict__
        d['ndarray'] = SymArray
        d['array'] = f_array
        d['asarray'] = f_asarray
        d['asanyarray'] = f_asanyarray
        d['ascontiguousarray'] = f_asarray
        d['zeros'] = f_zeros
        d['ones'] = f_ones
        d['empty'] = f_empty
        d['full'] = f_full
        d['arange'] = f_arange
        d['vectorize'] = f_vectorize
        d['fromiter'] = f_fromiter
        d['absolute'] = d['abs'] = UfuncShim(np.absolute)
        d['matmul'] = f_matmul
        d['identity'] = lambda n, dtype=None: raise_tree(
            np.identity(n, dtype or float))
        d['eye'] = lambda *a, **k: raise_tree(np.eye(*a, **k))
        d.update(SCALARS)
        from . import npmore
        for n in HANDLED:
            d[n] = shim_call(n)
        npmore.extend(self)
        d['may_share_memory'] = d['shares_memory'] = \
            lambda a, b, *x: np.shares_memory(a.view(BASE), b.view(BASE))
        d['isscalar'] = lambda x: type(x) in SYM or np.isscalar(x)
        d['size'] = lambda a, axis=None: 1 if type(a) in SYM else \
            np.size(a, axis) if not is_sa(a) else (
                a.size if axis is None else a.shape[axis])
        d['ndim'] = lambda a: 0 if type(a) in SYM else (
            a.ndim if is_arr(a) else np.ndim(a))
        d['shape'] = lambda a: () if type(a) in SYM else (
            a.shape if is_arr(a) else obj(a).shape)

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            v = UfuncShim(v)
        elif isinstance(v, type) and issubclass(v, np.generic):
            return v
        elif callable(v) and not isinstance(v, type):
            v = generic_call(v, name)
        self.__dict__[name] = v
        return v


def generic_call(v, name):
    def g(*args, **kwargs):
        try:
            return raise_tree(v(*lower_tree(args), **lower_tree(kwargs)))
        except NotLowerable:
            raise Unsupported(f'numpy.{name}')
    g.__name__ = name
    return g


def cast_scalar(v, dt):
    if dt.kind not in 'fiub':
        raise Unsupported('cast')
    return scalar_out(cast_elem(v, dt), dt)


def bind(explorer):
    explorer.ufunc = do_ufunc
    explorer.cast = cast_scalar
    explorer.asarray1 = lambda v: mk(
        np.array([v], dtype=object) if False else _one(v), kind_dtype(v))


def _one(v):
    o = np.empty(1, dtype=object)
    o[0] = v
    return o

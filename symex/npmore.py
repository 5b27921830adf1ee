"""Further numpy functions for the model, written with the basic ones."""
import math
from fractions import Fraction

import numpy as np

from . import core, nparr
from .core import Unsupported, SYM, ite
from .nparr import (BASE, BOOL, F64, HANDLED, I64, OBJ, UFUNCS, do_ufunc,
                    elementwise, f_argsort, f_array, f_sort, f_sum, f_where,
                    finish, is_arr, is_sa, mk, norm_index, obj, scalar_out,
                    up, vdtype_of)


def u(name, *a):
    return do_ufunc(getattr(np, name), '__call__', a, {})


def dtof(*xs):
    ds = [vdtype_of(x) for x in xs]
    return OBJ if OBJ in ds else np.result_type(*ds)


def structural(fn):
    """numpy functions whose object version computes with + and *"""
    def g(*args, **kw):
        arrs = [up(a) if is_arr(a) or isinstance(a, (list, tuple))
                else a for a in args]
        dt = dtof(*[a for a in arrs if is_sa(a)])
        r = fn(*[a.view(BASE) if is_sa(a) else a for a in arrs], **kw)
        if is_arr(r):
            return finish(r, dt)
        return scalar_out(r, dt)
    return g


def f_einsum(spec, *ops, **kw):
    if not isinstance(spec, str) or set(kw) - {'optimize'}:
        raise Unsupported('einsum')
    ops = [up(o) for o in ops]
    dt = dtof(*ops)
    r = np.einsum(spec, *[np.array(o.view(BASE)) for o in ops],
                  optimize=False)
    if is_arr(r):
        return finish(r, dt)
    return scalar_out(r, dt)


def f_outer(a, b, out=None):
    return do_ufunc(np.multiply, 'outer', (up(a).reshape(-1),
                                           up(b).reshape(-1)), {})


def f_take_along_axis(arr, indices, axis):
    a = up(arr)
    idx = np.asarray(norm_index(up(indices)))
    if idx.dtype == object:
        idx = idx.astype(np.int64)
    if axis is None:
        return finish(np.take_along_axis(a.view(BASE).ravel(), idx, 0),
                      a.vdtype)
    return finish(np.take_along_axis(a.view(BASE), idx, axis), a.vdtype)


def f_put_along_axis(arr, indices, values, axis):
    if not is_sa(arr):
        raise Unsupported('put_along_axis')
    idx = np.asarray(norm_index(up(indices))).astype(np.int64)
    v = elementwise(lambda x: nparr.cast_elem(x, arr.vdtype), (obj(values),))
    np.put_along_axis(arr.view(BASE), idx, v, axis)


def f_gradient(f, *varargs, axis=None, edge_order=1):
    f = up(f)
    if f.ndim != 1 or edge_order != 1 or len(varargs) > 1:
        raise Unsupported('gradient')
    h = varargs[0] if varargs else 1.0
    if is_arr(h) and h.ndim:
        raise Unsupported('gradient with coordinates')
    o = list(f)
    n = len(o)
    if n < 2:
        raise ValueError("Shape of array too small to calculate a numerical "
                         "gradient, at least (edge_order + 1) elements are "
                         "required.")
    return f_array([(o[1] - o[0]) / h] +
                   [(o[i + 1] - o[i - 1]) / (2. * h)
                    for i in range(1, n - 1)] +
                   [(o[-1] - o[-2]) / h], F64)


def f_ediff1d(ary, to_end=None, to_begin=None):
    a = up(ary).reshape(-1)
    d = HANDLED['diff'](a)
    parts = [x if is_arr(x) or isinstance(x, (list, tuple)) else [x]
             for x in (to_begin, d, to_end) if x is not None]
    return HANDLED['concatenate'](parts) if len(parts) > 1 else d


def f_tensordot(a, b, axes=2):
    return structural(np.tensordot)(a, b, axes=axes)


def f_trace(a, offset=0, **kw):
    a = up(a)
    if a.ndim != 2:
        raise Unsupported('trace')
    return f_sum(HANDLED['diagonal'](a, offset))


def f_apply_along_axis(func1d, axis, arr, *args, **kw):
    a = up(arr)
    ax = axis % a.ndim
    m = HANDLED['moveaxis'](a, ax, -1)
    res, shape = {}, None
    for i in np.ndindex(*m.shape[:-1]):
        r = func1d(m[i] if i else m, *args, **kw)
        res[i] = r
    if not res:
        raise ValueError(
            'Cannot apply_along_axis when any iteration dimensions are 0')
    first = next(iter(res.values()))
    if is_arr(first) and first.ndim:
        if first.ndim != 1:
            raise Unsupported('apply_along_axis')
        o = np.empty(m.shape[:-1] + first.shape, dtype=object)
        for i, r in res.items():
            o[i] = obj(r)
        return mk(np.moveaxis(o, -1, ax), dtof(first))
    o = np.empty(m.shape[:-1], dtype=object)
    for i, r in res.items():
        o[i] = obj(r)[()]
    return finish(o, dtof(first))


def f_apply_over_axes(func, a, axes):
    r = up(a)
    for ax in np.atleast_1d(axes):
        n = func(r, int(ax))
        r = n if is_arr(n) and n.ndim == r.ndim else \
            HANDLED['expand_dims'](n, int(ax))
    return r


def f_select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = f_where(c, v, r)
    return r


def f_piecewise(x, condlist, funclist, *args, **kw):
    x = up(x)
    conds = [up(c) for c in (condlist if isinstance(condlist, (list, tuple))
                             else [condlist])]
    fl = list(funclist)
    o = np.empty(x.shape, dtype=object)
    o.fill(0)
    out = mk(o, x.vdtype)
    if len(fl) == len(conds) + 1:
        rest = conds[0]
        for c in conds[1:]:
            rest = u('logical_or', rest, c)
        conds = conds + [u('logical_not', rest)]
    for c, f in zip(conds, fl):
        if callable(f):
            sel = x[c]
            if sel.size:
                out[c] = f(sel, *args, **kw)
        else:
            out[c] = f
    return out


def f_choose(a, choices, out=None, mode='raise'):
    idx = np.asarray(norm_index(up(a))).astype(np.int64)
    ch = [up(c) for c in choices]
    dt = dtof(*ch)
    return finish(np.choose(idx, [c.view(BASE) for c in ch]), dt)


def _nanmask(a):
    return elementwise(nparr._isnan_v, (up(a).view(BASE),))


def f_nancumsum(a, axis=None, **kw):
    return nparr.f_cumsum(nparr._nan_filter(a, 0.0), axis)


def f_nanprod(a, axis=None, **kw):
    return nparr.f_prod(nparr._nan_filter(a, 1.0), axis)


def _nanarg(fn, fill, name):
    def g(a, axis=None, **kw):
        a = up(a)
        if _nanmask(a).any():
            if axis is not None or _nanmask(a).all():
                raise Unsupported(name)
            a = nparr._nan_filter(a, fill)
        return fn(a, axis)
    return g


def f_nanvar(a, axis=None, dtype=None, out=None, ddof=0, **kw):
    a = up(a)
    m = _nanmask(a)
    if not m.any():
        return nparr.f_var(a, axis, ddof=ddof)
    if axis is not None:
        raise Unsupported('nanvar')
    keep = [v for v, n in zip(a.view(BASE).flat, m.flat) if not n]
    return nparr.f_var(f_array(keep), ddof=ddof) if keep else math.nan


def f_nanstd(a, axis=None, dtype=None, out=None, ddof=0, **kw):
    v = f_nanvar(a, axis, ddof=ddof)
    return u('sqrt', v)


def f_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return f_quantile(a, 0.5, axis, keepdims=keepdims)


def _q1(row, q):
    row = sorted(row)
    n = len(row)
    h = (n - 1) * q
    i = math.floor(h)
    g = h - i
    if n and any(core._special(v) and math.isnan(v) for v in row):
        return math.nan
    if i + 1 < n and g:
        return row[i] * (1 - g) + row[i + 1] * g
    return row[i]


def f_quantile(a, q, axis=None, out=None, overwrite_input=False,
               method='linear', keepdims=False, **kw):
    if method != 'linear':
        raise Unsupported('quantile method')
    a = up(a)
    if type(q) in SYM or is_sa(q):
        raise Unsupported('symbolic quantile')
    if np.ndim(q):
        return HANDLED['stack']([f_quantile(a, float(x), axis)
                                 for x in np.ravel(q)])
    if not 0 <= q <= 1:
        raise ValueError("Quantiles must be in the range [0, 1]")
    o = a.view(BASE)
    if axis is None:
        if not o.size:
            return math.nan
        r = _q1(list(o.ravel()), q)
        if keepdims:
            b = np.empty((1,) * o.ndim, dtype=object)
            b.fill(r)
            return mk(b, F64)
        return scalar_out(r, F64)
    if isinstance(axis, tuple):
        raise Unsupported('quantile over several axes')
    m = np.moveaxis(o, axis, -1)
    r = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*r.shape):
        r[i] = _q1(list(m[i]), q)
    if keepdims:
        r = np.expand_dims(r, axis)
    return finish(r, F64)


def f_percentile(a, q, axis=None, **kw):
    return f_quantile(a, np.asarray(q) / 100 if np.ndim(q) else q / 100,
                      axis, **kw)


def _nanq(fn):
    def g(a, *x, **kw):
        if _nanmask(a).any():
            a = up(a)
            if (len(x) > 1 and x[1] is not None) or \
                    kw.get('axis') is not None:
                raise Unsupported('nanmedian')
            a = f_array([v for v in a.view(BASE).flat
                         if not nparr._isnan_v(v)])
        return fn(a, *x, **kw)
    return g


def f_nanmedian(a, axis=None, **kw):
    if _nanmask(a).any():
        a = up(a)
        rows = [(None, list(a.view(BASE).flat))] if axis is None else None
        if rows is None:
            m = np.moveaxis(a.view(BASE), axis, -1)
            r = np.empty(m.shape[:-1], dtype=object)
            for i in np.ndindex(*r.shape):
                k = [v for v in m[i] if not nparr._isnan_v(v)]
                r[i] = _q1(k, 0.5) if k else math.nan
            return finish(r, F64)
        k = [v for v in rows[0][1] if not nparr._isnan_v(v)]
        return scalar_out(_q1(k, 0.5), F64) if k else math.nan
    return f_quantile(a, 0.5, axis, **kw)


def f_cov(m, y=None, rowvar=True, bias=False, ddof=None, **kw):
    if kw or not rowvar:
        raise Unsupported('cov')
    x = up(m)
    if x.ndim == 1:
        x = x.reshape(1, -1)
    if y is not None:
        x = HANDLED['vstack']([x, up(y)])
    n = x.shape[1] - (ddof if ddof is not None else (0 if bias else 1))
    d = x - nparr.f_mean(x, axis=1, keepdims=True)
    r = nparr.f_dot(d, d.T) / n
    return r.reshape(()) if r.size == 1 else r


def f_corrcoef(x, y=None, **kw):
    c = up(f_cov(x, y))
    if not c.ndim:
        return c / c
    d = u('sqrt', HANDLED['diag'](c))
    return c / d[:, None] / d[None, :]


def f_partition(a, kth, axis=-1, **kw):
    return f_sort(a, axis)


def f_argpartition(a, kth, axis=-1, **kw):
    return f_argsort(a, axis)


def f_lexsort(keys, axis=-1):
    ks = [list(up(k).view(BASE)) for k in keys]
    if axis not in (-1, 0) or any(up(k).ndim != 1 for k in keys):
        raise Unsupported('lexsort')
    order = list(range(len(ks[0])))
    for k in ks:
        order = sorted(order, key=lambda i: k[i])
    return f_array(order, I64)


def f_setdiff1d(a, b, assume_unique=False):
    a = up(a) if assume_unique else HANDLED['unique'](a)
    return a[HANDLED['isin'](a, b, invert=True)]


def f_intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices:
        raise Unsupported('intersect1d indices')
    a = HANDLED['unique'](a)
    return a[HANDLED['isin'](a, b)]


def f_union1d(a, b):
    return HANDLED['unique'](HANDLED['concatenate']([up(a).reshape(-1),
                                                     up(b).reshape(-1)]))


def f_setxor1d(a, b, assume_unique=False):
    a, b = HANDLED['unique'](a), HANDLED['unique'](b)
    return f_sort(HANDLED['concatenate']([
        a[HANDLED['isin'](a, b, invert=True)],
        b[HANDLED['isin'](b, a, invert=True)]]))


def f_array_equiv(a, b):
    a, b = up(a), up(b)
    try:
        np.broadcast_shapes(a.shape, b.shape)
    except ValueError:
        return False
    return nparr.f_all(u('equal', a, b))


def f_divmod(a, b):
    return u('floor_divide', a, b), u('remainder', a, b)


def f_modf(x):
    t = u('trunc', x)
    return u('subtract', x, t), t


def f_linnorm(x, ord=None, axis=None, keepdims=False):
    x = up(x)
    if ord in (None, 2) and (x.ndim == 1 or axis is not None or ord is None):
        return u('sqrt', f_sum(u('multiply', x, x), axis, keepdims=keepdims))
    if ord == 1 and (x.ndim == 1 or axis is not None):
        return f_sum(u('absolute', x), axis, keepdims=keepdims)
    if ord == np.inf and (x.ndim == 1 or axis is not None):
        return nparr.f_max(u('absolute', x), axis, keepdims=keepdims)
    raise Unsupported('norm')


def f_lstsq(a, b, rcond=None):
    """exact for a concrete matrix of independent columns"""
    A, B = up(a), up(b)
    ao, bo = A.view(BASE), B.view(BASE)
    if not nparr.all_concrete(ao) or A.ndim != 2 or B.ndim not in (1, 2):
        raise Unsupported('lstsq of a symbolic matrix')
    m, n = ao.shape
    if bo.shape[0] != m:
        raise np.linalg.LinAlgError('Incompatible dimensions')
    real = np.array(ao.tolist(), dtype=float).reshape(m, n)
    sv = np.linalg.svd(real, compute_uv=False) if n else np.zeros(0)
    if n == 0 or m < n or sv[-1] <= 1e-9 * sv[0]:
        raise Unsupported('lstsq of dependent columns')
    F = [[Fraction(v) for v in r] for r in real.tolist()]
    # rows of (A^T A | A^T), reduced to (1 | pseudo-inverse)
    M = [[sum(F[k][i] * F[k][j] for k in range(m)) for j in range(n)] +
         [F[k][i] for k in range(m)] for i in range(n)]
    for i in range(n):
        q = max(range(i, n), key=lambda r: abs(M[r][i]))
        M[i], M[q] = M[q], M[i]
        M[i] = [v / M[i][i] for v in M[i]]
        for r in range(n):
            if r != i and M[r][i]:
                f = M[r][i]
                M[r] = [v - f * w for v, w in zip(M[r], M[i])]
    cols = bo.reshape(m, -1)
    x = np.empty((n, cols.shape[1]), dtype=object)
    for i in range(n):
        for c in range(cols.shape[1]):
            t = 0
            for k in range(m):
                f = M[i][n + k]
                if f:
                    t = t + (int(f) if f.denominator == 1 else f) * cols[k, c]
            x[i, c] = nparr.cast_elem(
                float(t) if type(t) is Fraction else t, F64)
    xs = mk(x if bo.ndim == 2 else x[:, 0], F64)
    if m > n:
        d = nparr.f_dot(A, mk(x, F64)) - mk(cols, B.vdtype)
        res = f_sum(u('multiply', d, d), 0)
    else:
        res = mk(np.empty(0, dtype=object), F64)
    return xs, res, n, sv


def _target(a, name):
    if not is_sa(a):
        raise Unsupported(name)


def f_copyto(dst, src, casting='same_kind', where=True):
    _target(dst, 'copyto')
    if where is True:
        dst[...] = src
    else:
        dst[...] = f_where(where, src, dst)


def f_putmask(a, mask, values):
    _target(a, 'putmask')
    v = up(values)
    if v.ndim and v.size != 1 and v.shape != a.shape:
        raise Unsupported('putmask repeating')
    a[...] = f_where(mask, v.reshape(-1)[0] if v.size == 1 else v, a)


def f_place(a, mask, vals):
    _target(a, 'place')
    v = list(up(vals).view(BASE).flat)
    m = nparr.concrete_bool(up(mask))
    k = 0
    o = a.view(BASE)
    for i in np.ndindex(*a.shape):
        if m[i]:
            o[i] = nparr.cast_elem(v[k % len(v)], a.vdtype)
            k += 1


def f_fill_diagonal(a, val, wrap=False):
    _target(a, 'fill_diagonal')
    if np.ndim(val) or a.ndim != 2:
        raise Unsupported('fill_diagonal')
    for i in range(min(a.shape)):
        a[i, i] = val


def f_sliding(x, window_shape, axis=None, **kw):
    a = up(x)
    return mk(np.lib.stride_tricks.sliding_window_view(
        a.view(BASE), window_shape, axis), a.vdtype)


def f_block(arrays):
    def depth(x):
        return 1 + depth(x[0]) if isinstance(x, list) else 0
    d = depth(arrays)

    def rec(x, k):
        if isinstance(x, list):
            return HANDLED['concatenate']([rec(i, k - 1) for i in x], -k)
        x = up(x)
        while x.ndim < d:
            x = x[None]
        return x
    return rec(arrays, d)


def f_trim_zeros(filt, trim='fb'):
    a = up(filt)
    i, j = 0, a.size
    if 'f' in trim:
        while i < j and a[i] == 0:
            i += 1
    if 'b' in trim:
        while j > i and a[j - 1] == 0:
            j -= 1
    return a[i:j]


def f_reduceat(ufunc, a, indices, axis=0, **kw):
    a = up(a)
    if a.ndim != 1:
        raise Unsupported('reduceat')
    idx = [int(i) for i in np.asarray(norm_index(up(indices)))]
    out = []
    for k, i in enumerate(idx):
        j = idx[k + 1] if k + 1 < len(idx) else a.size
        out.append(nparr.do_reduce(ufunc, a[i:j]) if j > i else a[i])
    return f_array(out, a.vdtype)


class _R:
    """np.r_ and np.c_ for arrays, scalars and slices"""

    def __init__(self, cols):
        self.cols = cols

    def __getitem__(self, key):
        key = key if type(key) is tuple else (key,)
        parts = []
        for k in key:
            if isinstance(k, str):
                raise Unsupported('np.r_ directive')
            if isinstance(k, slice):
                k = nparr.f_arange(k.start or 0, k.stop, k.step or 1)
            x = up(k)
            x = x.reshape(-1) if x.ndim == 0 else x
            if self.cols and x.ndim == 1:
                x = x.reshape(-1, 1)
            parts.append(x)
        return HANDLED['concatenate'](parts, -1 if self.cols else 0)


def _sgn(v):
    return v < 0


UFUNCS.update({
    'hypot': lambda a, b: UFUNCS['sqrt'](a * a + b * b),
    'fmod': lambda a, b: a - b * UFUNCS['trunc'](nparr._np_scalar_div(a, b)),
    'heaviside': lambda a, b: ite(core.wrapb(a > 0), 1.0, ite(
        core.wrapb(a < 0), 0.0, b)) if hasattr(core, 'wrapb') else ite(
        a > 0, 1.0, ite(a < 0, 0.0, b)),
    'signbit': _sgn,
    'copysign': lambda a, b: ite(b < 0, -nparr._abs(a), nparr._abs(a)),
    'expm1': lambda v: UFUNCS['exp'](v) - 1,
    'log1p': lambda v: UFUNCS['log'](1 + v),
    'log2': lambda v: UFUNCS['log'](v) / math.log(2),
    'exp2': lambda v: UFUNCS['exp'](v * math.log(2)),
    'ldexp': lambda a, b: a * nparr._pow(2., b),
})
nparr._PRE.update({'expm1', 'log1p', 'log2', 'exp2', 'hypot'})

HANDLED.update({
    'einsum': f_einsum, 'outer': f_outer,
    'take_along_axis': f_take_along_axis,
    'put_along_axis': f_put_along_axis, 'gradient': f_gradient,
    'ediff1d': f_ediff1d, 'tensordot': f_tensordot, 'vdot': nparr.f_dot,
    'kron': structural(np.kron), 'cross': structural(np.cross),
    'trace': f_trace, 'apply_along_axis': f_apply_along_axis,
    'apply_over_axes': f_apply_over_axes, 'select': f_select,
    'piecewise': f_piecewise, 'choose': f_choose,
    'nancumsum': f_nancumsum, 'nanprod': f_nanprod, 'nanvar': f_nanvar,
    'nanstd': f_nanstd, 'nanmedian': f_nanmedian,
    'nanargmax': _nanarg(nparr.f_argmax, -math.inf, 'nanargmax'),
    'nanargmin': _nanarg(nparr.f_argmin, math.inf, 'nanargmin'),
    'median': f_median, 'quantile': f_quantile, 'percentile': f_percentile,
    'nanquantile': _nanq(f_quantile), 'nanpercentile': _nanq(f_percentile),
    'cov': f_cov, 'corrcoef': f_corrcoef, 'partition': f_partition,
    'argpartition': f_argpartition, 'lexsort': f_lexsort,
    'setdiff1d': f_setdiff1d, 'intersect1d': f_intersect1d,
    'union1d': f_union1d, 'setxor1d': f_setxor1d,
    'array_equiv': f_array_equiv, 'norm': f_linnorm, 'lstsq': f_lstsq, 'copyto': f_copyto,
    'putmask': f_putmask, 'place': f_place,
    'fill_diagonal': f_fill_diagonal, 'sliding_window_view': f_sliding,
    'block': f_block, 'trim_zeros': f_trim_zeros,
})


def extend(shim):
    """names of the numpy shim that are not plain functions"""
    d = shim.__dict__
    for n in HANDLED:
        if n not in d and n not in ('norm', 'lstsq',
                                    'sliding_window_view'):
            d[n] = nparr.shim_call(n)
    from . import maskarr
    d['ma'] = maskarr.module()
    d['divmod'] = f_divmod
    d['modf'] = f_modf
    d['r_'], d['c_'] = _R(False), _R(True)

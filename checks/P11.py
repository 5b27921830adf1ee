"""Reading HDF5 tables: the size guard, and iteration in chunks."""
import os
import warnings

BOUNDS = ('tables of 1-4 rows whose recorded size is any number of bytes up '
          'to 3 10^15 bytes (any size in memory per row, up to 2 GB), read entirely '
          'with and without force, in default and explicit chunks of 1-5 '
          'rows; unknown and metadata-only keys')
ASSUMPTIONS = ['pandas.HDFStore.select yields consecutive rows for a '
               'chunksize, truncated to an integer (an in-memory stand-in '
               'here; sampled paths are replayed on the real one)']
GB = 10**9


def write(ctx, n, szmin, szmax, other=True):
    import pandas

    def memory_usage(self, *a, **k):
        if 'sz' not in self.columns:
            return ctx.const([0])
        return ctx.const(list(self['sz'].values))
    ctx.patch(pandas.DataFrame, 'memory_usage', memory_usage)
    warnings.simplefilter('ignore')
    io = ctx.load('CHECLabPy.core.io')
    path = os.path.join(ctx.tmpdir(), 'a.h5')
    x = ctx.ints('x', n, -1000, 1000)
    sz = ctx.ints('s', n, szmin, szmax)
    with io.HDF5Writer(path) as w:
        w.append(ctx.pd.DataFrame(dict(x=ctx.const(x), sz=ctx.const(sz))))
        if other:
            w.append(ctx.pd.DataFrame(dict(x=[5], sz=[7])), key='small')
            w.add_metadata(key='note', a=1)
    return io, path, x, sz


def guard(ctx, n):
    io, path, x, sz = write(ctx, n, 1, 10**15)
    t = 0
    for s in sz:
        t = t + s
    with io.HDF5Reader(path) as r:
        big = ctx.fork(t > 8 * GB)
        e = ctx.raises(lambda: r.read('data'), MemoryError)
        if big:
            ctx.check(isinstance(e, MemoryError), 'too large: refused')
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                df = r.read('data', force=True)
            ctx.check(any(issubclass(w.category, UserWarning) for w in ws),
                      'forced: warned')
        else:
            ctx.check(e is None, 'not too large: read')
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                df = r.read('data', force=ctx.choice('force', [False, True]))
            ctx.check(not any('8GB' in str(w.message) for w in ws),
                      'not too large: no warning')
        ctx.check_eq(list(df['x'].values), x, 'complete table', 0)
        # the size of another table does not matter
        ctx.check_eq(list(r.read('small')['x'].values), [5], 'other table')
        for key in ('note', 'nothing'):
            for force in (False, True):
                e = ctx.raises(lambda: r.read(key, force=force), KeyError)
                ctx.check(isinstance(e, KeyError), 'no such table: refused')


def chunks(ctx, n, explicit):
    io, path, x, sz = write(ctx, n, 1, 2 * GB, other=False)
    t = 0
    for s in sz:
        t = t + s
    with io.HDF5Reader(path) as r:
        kw = {}
        if explicit:
            k = ctx.choice('chunk', list(range(1, 6)))
            kw = dict(chunksize=k)
        parts = [list(df['x'].values)
                 for df in r.iterate_over_chunks('data', **kw)]
        ctx.check_eq([v for p in parts for v in p], x, 'every row once', 0)
        ctx.check(all(parts), 'no empty chunk')
        if explicit:
            ctx.check(all(len(p) == k for p in parts[:-1]) and
                      len(parts[-1]) <= k, 'explicit chunk size')
        else:
            for p in parts:
                # rows of average size
                ctx.check(len(p) * t <= 2 * GB * n, 'chunks of at most 2 GB')
            if len(parts) > 1:
                ctx.check((len(parts[0]) + 1) * t > 2 * GB * n,
                          'chunks of about 2 GB')
        # every frame is independent of the ones before
        again = [list(df['x'].values)
                 for df in r.iterate_over_chunks('data', **kw)]
        ctx.check_eq([v for p in again for v in p], x, 'second iteration', 0)


def columns(ctx, n):
    io, path, x, sz = write(ctx, n, 1, 1000)
    a = ctx.int('a', 0, n)
    b = ctx.int('b', 0, n)
    with io.HDF5Reader(path) as r:
        df = r.select('data', start=a, stop=b)
        i, j = range(n + 1)[a], range(n + 1)[b]
        ctx.check_eq(list(df['x'].values), x[i:j], 'select rows', 0)
        df = r.select('data', columns=['sz'])
        ctx.check(list(df.columns) == ['sz'], 'select columns')
        ctx.check_eq(list(df['sz'].values), sz, 'select columns', 0)
        c = r.select_column('data', 'x', start=a, stop=b)
        ctx.check_eq(list(c.values), x[i:j], 'select_column rows', 0)


CASES = [
    dict(name='guard1', fn=guard, params=dict(n=1)),
    dict(name='guard3', fn=guard, params=dict(n=3)),
    dict(name='chunks3', fn=chunks, params=dict(n=3, explicit=False)),
    dict(name='chunks2', fn=chunks, params=dict(n=2, explicit=False)),
    dict(name='explicit', fn=chunks, params=dict(n=4, explicit=True)),
    dict(name='columns', fn=columns, params=dict(n=3)),
    dict(name='chunks6', fn=chunks, params=dict(n=6, explicit=False),
         tier='thorough'),
]

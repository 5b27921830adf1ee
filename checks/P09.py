"""Tables written to HDF5 piecewise hold every appended row, in order,
wherever the writer decides to flush."""
import os
import warnings

BOUNDS = ('1-3 frames (thorough 4) of 1-2 rows appended to 1-2 tables in any '
          'interleaving, every column value arbitrary, every size of a row '
          'in memory in [1 B, 0.6 GB] (so that every flush pattern occurs), '
          'then 0-2 frames appended with HDF5Appender; a failure '
          'after 1-2 frames')
ASSUMPTIONS = ['pandas.HDFStore stores what it is given (an in-memory '
               'stand-in here; sampled paths are replayed on the real one)',
               'the size of a frame in memory is an arbitrary number']
LIMIT = 500000000


def sizes_are_columns(ctx, pd):
    """the memory usage of a frame is what its 'sz' column says"""
    def memory_usage(self, index=True, deep=False):
        if 'sz' not in self.columns or not (index and deep):
            # without the index or the objects it holds: less
            return ctx.const([0])
        return ctx.const(list(self['sz'].values))
    import pandas
    ctx.patch(pandas.DataFrame, 'memory_usage', memory_usage)


def frames(ctx, pd, tag, n, szmax, rows=(1, 2)):
    out = []
    for f in range(n):
        k = ctx.choice(f'{tag}rows{f}', list(rows))
        x = [ctx.int(f'{tag}x{f}_{i}', -1000, 1000) for i in range(k)]
        y = [ctx.real(f'{tag}y{f}_{i}', -1000, 1000) for i in range(k)]
        sz = [ctx.int(f'{tag}s{f}_{i}', 1, szmax) for i in range(k)]
        out.append(dict(x=x, y=y, sz=sz))
    return out


def frame(ctx, pd, d):
    return pd.DataFrame({k: ctx.const(v) for k, v in d.items()})


def col(fs, c):
    return [v for f in fs for v in f[c]]


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def check_table(ctx, r, key, fs, what):
    ctx.check(key in r.dataframe_keys, what + ': table is listed')
    df = r.read(key)
    n = len(col(fs, 'x'))
    ctx.check(len(df) == n, what + ': row count')
    ctx.check(list(df.columns) == ['x', 'y', 'sz'], what + ': columns')
    for c in ('x', 'y', 'sz'):
        ctx.check_eq(list(df[c].values), col(fs, c), what + ': rows',
                     1e-9 if c == 'y' else 0)
    ctx.check(r.get_n_rows(key) == n, what + ': get_n_rows')
    ctx.check(list(r.get_column_names(key)) == ['x', 'y', 'sz'],
              what + ': get_column_names')
    ctx.check_eq(list(r.select_column(key, 'y').values), col(fs, 'y'),
                 what + ': select_column')
    a, b = r.select_columns(key, ['sz', 'x'])
    ctx.check_eq(list(a.values), col(fs, 'sz'), what + ': select_columns', 0)
    ctx.check_eq(list(b.values), col(fs, 'x'), what + ': select_columns', 0)
    ctx.check_eq(r.get_n_bytes(key), total(col(fs, 'sz')),
                 what + ': recorded size')


def check_totals(ctx, r, by_key):
    v = ctx.load('CHECLabPy')
    m = r.get_metadata()
    ctx.check_eq(m['total_bytes'],
                 total(total(col(fs, 'sz')) for fs in by_key.values()),
                 'total size')
    ver = ctx.load('CHECLabPy.version').__version__
    ctx.check(r.version == ver, 'version')


def run(ctx, n, keys, szmax, n_app=0, expected=False, rows=(1, 2)):
    pd = ctx.pd
    warnings.simplefilter('ignore')
    sizes_are_columns(ctx, pd)
    io = ctx.load('CHECLabPy.core.io')
    path = os.path.join(ctx.tmpdir(), 'a.h5')
    fs = frames(ctx, pd, 'w', n, szmax, rows)
    by = {k: [] for k in keys}
    w = io.HDF5Writer(path)
    with w:
        for i, f in enumerate(fs):
            k = keys[0] if i == 0 else ctx.choice(f'key{i}', keys)
            by[k].append(f)
            kw = dict(expectedrows=100) if expected else {}
            if k == 'data':
                w.append(frame(ctx, pd, f), **kw)
            else:
                w.append(frame(ctx, pd, f), key=k, **kw)
            # memory held back stays below the limit
            stored = w.store.get_storer(k).nrows if k in w.store else 0
            held = col(by[k], 'sz')[stored:]
            ctx.check(total(held) < LIMIT, 'pending rows are bounded')
    by = {k: v for k, v in by.items() if v}
    with io.HDF5Reader(path) as r:
        ctx.check(sorted(r.dataframe_keys) == sorted(by), 'table names')
        for k, v in by.items():
            check_table(ctx, r, k, v, 'written')
        check_totals(ctx, r, by)
    if not n_app:
        return
    fs = frames(ctx, pd, 'a', n_app, szmax, rows)
    with io.HDF5Appender(path) as ap:
        for i, f in enumerate(fs):
            k = ctx.choice(f'akey{i}', keys)
            by.setdefault(k, []).append(f)
            ap.append(frame(ctx, pd, f), key=k)
    with io.HDF5Reader(path) as r:
        ctx.check(sorted(r.dataframe_keys) == sorted(by), 'table names')
        for k, v in by.items():
            check_table(ctx, r, k, v, 'appended')
        check_totals(ctx, r, by)


def overwrite(ctx):
    """write replaces the whole table, and only that table"""
    pd = ctx.pd
    warnings.simplefilter('ignore')
    sizes_are_columns(ctx, pd)
    io = ctx.load('CHECLabPy.core.io')
    path = os.path.join(ctx.tmpdir(), 'a.h5')
    a, b, c = frames(ctx, pd, 'w', 3, 1000)
    with io.HDF5Writer(path) as w:
        w.write(one=frame(ctx, pd, a), two=frame(ctx, pd, b))
        w.write(one=frame(ctx, pd, c))
    with io.HDF5Reader(path) as r:
        ctx.check(sorted(r.dataframe_keys) == ['one', 'two'], 'table names')
        for k, f in (('one', c), ('two', b)):
            df = r.read(k)
            for q in ('x', 'y', 'sz'):
                ctx.check_eq(list(df[q].values), f[q], 'written table', 1e-9)
            ctx.check_eq(r.get_n_bytes(k), total(f['sz']), 'recorded size')
        check_totals(ctx, r, dict(one=[c], two=[b]))


def empty(ctx):
    """an appender that is given nothing leaves the file as it is"""
    pd = ctx.pd
    warnings.simplefilter('ignore')
    sizes_are_columns(ctx, pd)
    io = ctx.load('CHECLabPy.core.io')
    path = os.path.join(ctx.tmpdir(), 'a.h5')
    fs = frames(ctx, pd, 'w', 2, 600000000)
    with io.HDF5Writer(path) as w:
        w.append(frame(ctx, pd, fs[0]), key='data')
        w.append(frame(ctx, pd, fs[1]), key='pointing')
    for _ in range(2):
        with io.HDF5Appender(path):
            pass
    with io.HDF5Reader(path) as r:
        check_table(ctx, r, 'data', fs[:1], 'untouched')
        check_table(ctx, r, 'pointing', fs[1:], 'untouched')
        check_totals(ctx, r, dict(data=fs[:1], pointing=fs[1:]))
    e = ctx.raises(lambda: io.HDF5Appender(path + 'x'), FileNotFoundError)
    ctx.check(isinstance(e, FileNotFoundError), 'missing file is refused')


def again(ctx):
    """a file is made with its directories, and one there is replaced"""
    pd = ctx.pd
    warnings.simplefilter('ignore')
    sizes_are_columns(ctx, pd)
    io = ctx.load('CHECLabPy.core.io')
    path = os.path.join(ctx.tmpdir(), 'new', 'dir', 'a.h5')
    fs = frames(ctx, pd, 'w', 3, 600000000)
    with io.HDF5Writer(path) as w:
        w.append(frame(ctx, pd, fs[0]), key='data')
        w.append(frame(ctx, pd, fs[1]), key='pointing')
        w.add_metadata(key='other', a=1)
    with io.HDF5Writer(path) as w:
        w.append(frame(ctx, pd, fs[2]), key='data')
    with io.HDF5Reader(path) as r:
        ctx.check(r.dataframe_keys == ['data'], 'table names')
        check_table(ctx, r, 'data', fs[2:], 'of the second file')
        check_totals(ctx, r, dict(data=fs[2:]))
        e = ctx.raises(lambda: r.get_metadata(key='other'), KeyError)
        ctx.check(isinstance(e, KeyError), 'metadata of the first file')


def failure(ctx, n):
    """what was appended before a failure is in the file"""
    pd = ctx.pd
    warnings.simplefilter('ignore')
    sizes_are_columns(ctx, pd)
    io = ctx.load('CHECLabPy.core.io')
    path = os.path.join(ctx.tmpdir(), 'a.h5')
    fs = frames(ctx, pd, 'w', n, BIG, (1,))
    gs = frames(ctx, pd, 'a', 1, BIG, (1,))
    at = ctx.choice('at', list(range(1, n + 1)))

    class Failure(Exception):
        pass

    def work(cls, frames_, count):
        with cls(path) as w:
            for i, f in enumerate(frames_):
                if i == count:
                    raise Failure()
                w.append(frame(ctx, pd, f), key='data')
            raise Failure()
    e = ctx.raises(lambda: work(io.HDF5Writer, fs, at), Failure)
    ctx.check(isinstance(e, Failure), 'the failure is reported')
    with io.HDF5Reader(path) as r:
        check_table(ctx, r, 'data', fs[:at], 'before the failure')
        check_totals(ctx, r, dict(data=fs[:at]))
    e = ctx.raises(lambda: work(io.HDF5Appender, gs, 1), Failure)
    ctx.check(isinstance(e, Failure), 'the failure is reported')
    with io.HDF5Reader(path) as r:
        check_table(ctx, r, 'data', fs[:at] + gs, 'before the failure')
        check_totals(ctx, r, dict(data=fs[:at] + gs))


BIG = 600000000
CASES = [
    dict(name='write3', fn=run, params=dict(n=3, keys=['data'], szmax=BIG)),
    dict(name='two', fn=run, params=dict(
        n=3, keys=['data', 'pointing'], szmax=BIG, rows=(1,),
        expected=True)),
    dict(name='append', fn=run, params=dict(
        n=2, keys=['data', 'mc'], szmax=BIG, n_app=1, rows=(1,))),
    dict(name='appendrows', fn=run, params=dict(
        n=1, keys=['data'], szmax=BIG, n_app=2)),
    dict(name='overwrite', fn=overwrite),
    dict(name='empty', fn=empty),
    dict(name='again', fn=again),
    dict(name='failure', fn=failure, params=dict(n=2)),
    dict(name='write4', fn=run, tier='thorough', params=dict(
        n=4, keys=['data', 'pointing'], szmax=BIG)),
    dict(name='append2', fn=run, tier='thorough', params=dict(
        n=2, keys=['data', 'mc'], szmax=BIG, n_app=2)),
]

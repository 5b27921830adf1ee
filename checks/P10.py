"""Metadata and mapping stored with the tables of an HDF5 file."""
import os
import warnings

BOUNDS = ('1-4 add_metadata calls with keys and names chosen freely among 2 '
          'each and 1-2 entries (arbitrary numbers, entry names overlapping), '
          'interleaved with frames; then 0-2 more through HDF5Appender; '
          'mappings of 2 pixels with arbitrary positions and metadata')
ASSUMPTIONS = ['pandas.HDFStore stores what it is given (an in-memory '
               'stand-in here; sampled paths are replayed on the real one)']
AUTO = ('n_bytes', 'total_bytes', 'version')


def frame(ctx, tag, n):
    return ctx.pd.DataFrame(dict(
        x=ctx.const([ctx.int(f'{tag}{i}', -1000, 1000) for i in range(n)])))


def merge(store, key, name, d):
    store.setdefault((key, name), {}).update(d)


def add(ctx, w, tag, keys, names, store, default):
    key = ctx.choice(tag + 'key', keys)
    name = ctx.choice(tag + 'name', names)
    ks = ctx.choice(tag + 'entries', [('a',), ('b',), ('a', 'b'), ('a', None)])
    d = {k: ctx.int(f'{tag}{k}', -1000, 1000) for k in ks if k}
    if None in ks:
        d['b'] = None
    if default and key == 'data' and name == 'metadata':
        w.add_metadata(**d)
    elif default and key == 'data':
        w.add_metadata(name=name, **d)
    elif default and name == 'metadata':
        w.add_metadata(key, **d)
    else:
        w.add_metadata(key=key, name=name, **d)
    merge(store, key, name, d)


def check(ctx, io, path, store, what):
    with io.HDF5Reader(path) as r:
        for (key, name), d in store.items():
            got = r.get_metadata(key=key, name=name)
            for k, v in d.items():
                ctx.check(k in got, what + ': entry kept')
                if v is None:
                    ctx.check(got[k] is None, what + ': latest value None')
                    continue
                ctx.check(got[k] is not None, what + ': latest value kept')
                ctx.check_eq(got[k], v, what + ': latest value', 0)
            extra = set(got) - set(d)
            ctx.check(name == 'metadata' and extra <= set(AUTO) or not extra,
                      what + ': no other entries')
        for key in ('data', 'mc', 'zzz'):
            for name in ('metadata', 'config', 'yyy'):
                if (key, name) not in store and not (
                        name == 'metadata' and key in ('data', 'mc')):
                    e = ctx.raises(lambda: r.get_metadata(key, name),
                                   KeyError)
                    ctx.check(isinstance(e, KeyError),
                              what + ': unknown metadata is refused')
                    ctx.check(name not in r.metadata_keys.get(key, []),
                              what + ': unknown metadata is not listed')


def run(ctx, n, n_app, table='data', default=False, late=False):
    warnings.simplefilter('ignore')
    io = ctx.load('CHECLabPy.core.io')
    path = os.path.join(ctx.tmpdir(), 'a.h5')
    keys, names = ['data', 'mc'], ['metadata', 'config']
    store = {}
    with io.HDF5Writer(path) as w:
        pos = n // 2
        for i in range(n):
            if i == pos and table and not late:
                w.append(frame(ctx, 'x', 2), key=table)
            add(ctx, w, f'm{i}', keys, names, store, default)
        if n == 0 and table and not late:
            w.append(frame(ctx, 'x', 2), key=table)
    check(ctx, io, path, store, 'written')
    for q in range(n_app):
        with io.HDF5Appender(path) as ap:
            if q == 0 and table:
                ap.append(frame(ctx, f'a{q}', 1), key=table)
            add(ctx, ap, f'p{q}', keys, names, store, default)
        check(ctx, io, path, store, 'appended')
    if table:
        with io.HDF5Reader(path) as r:
            ctx.check(r.get_n_rows(table) == 2 * (not late) + (1 if n_app else 0),
                      'the table is untouched by the metadata')


def versions(ctx):
    """a file of another major version of the program warns"""
    io = ctx.load('CHECLabPy.core.io')
    own = ctx.load('CHECLabPy').__version__
    path = os.path.join(ctx.tmpdir(), 'a.h5')
    with io.HDF5Writer(path) as w:
        w.append(frame(ctx, 'x', 2))
    with io.HDF5Reader(path) as r:
        ctx.check(r.version == own, 'version of the program')
    major = int(own.split('.')[0])
    v = ctx.choice('version', [
        own, f'{major}.0.0', f'{major}.99.1', f'{major - 1}.9.9',
        f'{major + 1}.0.0', f'{major + 8}.0', '0.1', f'{major}', None])
    with ctx.pd.HDFStore(path, mode='r+') as s:
        a = s.get_storer('data').attrs
        a.metadata = {**a.metadata, 'version': v}
        if v is None:
            # written before versions were recorded
            a.metadata = {k: x for k, x in a.metadata.items()
                          if k != 'version'}
            v = '1.0.0'
    m = int(v.split('.')[0])
    for op in (io.HDF5Reader, io.HDF5Appender):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            with op(path) as f:
                ctx.check(f.version == v, 'version of the file')
        said = [str(x.message) for x in ws if x.category is UserWarning and
                'version' in str(x.message)]
        ctx.check(len(said) == (m != major), 'warning of the version')
        if said:
            ctx.check(('older' if m < major else 'newer') in said[0],
                      'older or newer')
    with io.HDF5Reader(path) as r:
        ctx.check(r.version == own, 'version of the last program')
    e = ctx.raises(lambda: io.HDF5Appender(path + '.no'), FileNotFoundError)
    ctx.check(isinstance(e, FileNotFoundError) and
              not os.path.exists(path + '.no'), 'a missing file is refused')
    e = ctx.raises(lambda: io.HDF5Reader(path + '.no'), FileNotFoundError)
    ctx.check(isinstance(e, FileNotFoundError), 'a missing file is refused')


def alias(ctx):
    """what the caller does to a dict afterwards changes nothing"""
    warnings.simplefilter('ignore')
    io = ctx.load('CHECLabPy.core.io')
    path = os.path.join(ctx.tmpdir(), 'a.h5')
    a, b = ctx.ints('v', 2, -1000, 1000)
    with io.HDF5Writer(path) as w:
        d = dict(a=a)
        w.add_metadata(key='data', name='config', **d)
        d['a'] = b
        d['c'] = b
        w.append(frame(ctx, 'x', 1))
    with io.HDF5Reader(path) as r:
        got = r.get_metadata(name='config')
        ctx.check(set(got) == {'a'}, 'entries')
        ctx.check_eq(got['a'], a, 'value', 0)
    got['a'] = b
    with io.HDF5Reader(path) as r:
        ctx.check_eq(r.get_metadata(name='config')['a'], a, 'read again', 0)
    for name in ('info', 'mapping'):
        with io.HDF5Appender(path) as w:
            e = ctx.raises(lambda: w.add_metadata(name=name, a=1),
                           ValueError)
            ctx.check(isinstance(e, ValueError), 'reserved name')


def mapping(ctx, table):
    warnings.simplefilter('ignore')
    io = ctx.load('CHECLabPy.core.io')
    path = os.path.join(ctx.tmpdir(), 'a.h5')
    x, y = ctx.reals('x', 2, -1, 1), ctx.reals('y', 2, -1, 1)
    df = ctx.pd.DataFrame(dict(pixel=[0, 1], xpix=ctx.const(x),
                               ypix=ctx.const(y)))
    meta = dict(n_pixels=ctx.int('np', 1, 9), size=ctx.real('size', 0, 1),
                fOTUpX_l=ctx.real('fx', -1, 1), cfgfile='/a.cfg')
    df.metadata = meta
    with io.HDF5Writer(path) as w:
        if table:
            w.append(frame(ctx, 'd', 1))
        w.add_mapping(df)
    for app in (False, True):
        if app:
            with io.HDF5Appender(path) as ap:
                ap.append(frame(ctx, 'e', 1), key='data')
        with io.HDF5Reader(path) as r:
            ctx.check(r.dataframe_keys == (['data'] if table or app else []),
                      'the mapping is not a data table')
            m = r.get_mapping()
            ctx.check_eq(list(m['xpix'].values), x, 'xpix', 1e-9)
            ctx.check_eq(list(m['ypix'].values), y, 'ypix', 1e-9)
            ctx.check(list(m['pixel'].values) == [0, 1], 'pixel')
            ctx.check(set(m.metadata) == set(meta), 'metadata entries')
            for k in meta:
                ctx.check_eq(m.metadata[k], meta[k], 'metadata', 1e-9)


def no_mapping(ctx):
    warnings.simplefilter('ignore')
    io = ctx.load('CHECLabPy.core.io')
    path = os.path.join(ctx.tmpdir(), 'a.h5')
    with io.HDF5Writer(path) as w:
        w.append(frame(ctx, 'd', 1))
    with io.HDF5Reader(path) as r:
        e = ctx.raises(r.get_mapping, KeyError)
        ctx.check(isinstance(e, KeyError), 'no mapping')


CASES = [
    dict(name='write3', fn=run, params=dict(n=3, n_app=0)),
    dict(name='defaults', fn=run, params=dict(n=2, n_app=0, default=True)),
    dict(name='append', fn=run, params=dict(n=1, n_app=2)),
    dict(name='appendmc', fn=run, params=dict(n=0, n_app=2, table='mc')),
    dict(name='notable', fn=run, params=dict(n=1, n_app=1, table=None)),
    dict(name='latetable', fn=run, params=dict(n=1, n_app=1, late=True)),
    dict(name='versions', fn=versions),
    dict(name='alias', fn=alias),
    dict(name='mapping', fn=mapping, params=dict(table=True)),
    dict(name='mappingonly', fn=mapping, params=dict(table=False)),
    dict(name='nomapping', fn=no_mapping),
    dict(name='append2', fn=run, params=dict(n=2, n_app=2),
         tier='thorough'),
]

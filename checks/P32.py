"""Monitor information stored in older DL1 files."""
import os
import warnings

BOUNDS = ('files of 2-3 events of 2 pixels and of 2-4 monitor readings of '
          'the camera, 2 modules and 2 pixels with arbitrary values, every '
          'reading per event; devices in either order for the average; every '
          'column, of the tables in which it is, '
          'and recorded sizes up to 10^11 bytes')
ASSUMPTIONS = ['pandas.HDFStore stores what it is given (an in-memory '
               'stand-in here; sampled paths are replayed on the real one)',
               'arithmetic is over the reals']
DEV = dict(monitor_camera=1, monitor_tm=2, monitor_pixel=2)


def make(ctx, n_mon, match, n_bytes=1000, absent=False, order=1):
    """tables: camera (time, both), tm (temp, both), pixel (hv, both, temp)"""
    warnings.simplefilter('ignore')
    ctx.patch(warnings, 'showwarning', lambda *a, **k: None)
    io = ctx.load('CHECLabPy.core.io')
    path = os.path.join(ctx.tmpdir(), 'old_dl1.h5')
    n_ev, n_pix = len(match), 2
    cols = dict(monitor_camera=['clock', 'both'],
                monitor_tm=['temp', 'both'],
                monitor_pixel=['hv', 'both', 'temp'])
    v = {k: {c: [ctx.real(f'{k[8]}{c}{i}', -100, 100)
                 for i in range(n_mon * DEV[k])] for c in cols[k]}
         for k in cols}
    with io.HDF5Writer(path) as w:
        w.append(ctx.pd.DataFrame(dict(
            iev=[e for e in range(n_ev) for p in range(n_pix)],
            pixel=[p for e in range(n_ev) for p in range(n_pix)],
            monitor_camera_index=[m for m in match for p in range(n_pix)],
            monitor_tm_index=[2 * m + p for m in match
                              for p in range(n_pix)],
            monitor_pixel_index=[2 * m + 1 - p for m in match
                                 for p in range(n_pix)])))
        w.add_metadata(n_events=n_ev, n_pixels=n_pix, n_modules=2,
                       n_superpixels_per_module=1, n_samples=1, is_mc=False,
                       camera_version='1.0.1')
    if not absent:
        with ctx.pd.HDFStore(path, mode='a') as s:
            for k in cols:
                for i in range(n_mon):      # written reading by reading
                    d = DEV[k]
                    s.append(k, ctx.pd.DataFrame(dict(
                        idevice=list(range(d))[::order], reading=[i] * d,
                        **{c: ctx.const(x[i * d:i * d + d])
                           for c, x in v[k].items()})), data_columns=True)
            s['monitor_metadata'] = ctx.pd.DataFrame(dict(a=[0]))
            s.get_storer('monitor_metadata').attrs.metadata = dict(
                n_events=n_mon, n_modules=2, n_bytes=n_bytes)
    return io.DL1Reader(path), v


def matched(ctx, n_mon, n_ev):
    match = [ctx.choice(f'm{e}', list(range(n_mon))) for e in range(n_ev)]
    r, v = make(ctx, n_mon, match)
    c = ctx.choice('column', ['clock', 'temp', 'hv', 'both'])
    key = dict(clock='monitor_camera', both='monitor_camera',
               temp='monitor_tm', hv='monitor_pixel')[c]
    at = dict(monitor_camera=lambda m, p: m, monitor_tm=lambda m, p:
              2 * m + p, monitor_pixel=lambda m, p: 2 * m + 1 - p)[key]
    for _ in range(2):
        s = r.get_matched_monitor_column(c)
        ctx.check(len(s) == 2 * n_ev, 'one entry per row')
        ctx.check_eq(list(s.values), [v[key][c][at(m, p)] for m in match
                                      for p in range(2)],
                     'the entry of the reading of the row', 0)
    e = ctx.raises(lambda: r.get_matched_monitor_column('pressure'), KeyError)
    ctx.check(isinstance(e, KeyError), 'unknown column')


def columns(ctx, n_mon):
    r, v = make(ctx, n_mon, [0, 1])
    m = r.monitor
    ctx.check(m.n_events == n_mon and m.n_modules == 2, 'monitor metadata')
    for k, got in (('monitor_camera', m.columns_camera),
                   ('monitor_tm', m.columns_tm),
                   ('monitor_pixel', m.columns_pixel)):
        ctx.check(list(got) == ['idevice', 'reading'] + list(v[k]),
                  'columns of ' + k)
    key = ctx.choice('key', [None] + list(v))
    for c in ('clock', 'temp', 'hv', 'both'):
        k = key or dict(clock='monitor_camera', both='monitor_camera',
                        temp='monitor_tm', hv='monitor_pixel')[c]
        if c not in v[k]:
            continue
        ctx.check_eq(list(m.select_column(c, key).values), v[k][c],
                     'column', 0)
        a, i = m.select_columns([c, 'idevice'], k)
        ctx.check_eq(list(a.values), v[k][c], 'columns', 0)
        ctx.check(list(i.values) == list(range(DEV[k])) * n_mon, 'devices')
        part = m.select_column(c, key, start=1, stop=3)
        ctx.check_eq(list(part.values), v[k][c][1:3], 'rows selected', 0)
        arr = m.select_column_as_array(c, key)
        ctx.check(arr.shape == (n_mon, DEV[k]), 'readings by devices')
        ctx.check_eq([x for y in arr for x in y], v[k][c],
                     'column as an array', 0)
    for c in ('clock', 'temp', 'hv', 'both'):
        k = dict(clock='monitor_camera', both='monitor_camera',
                 temp='monitor_tm', hv='monitor_pixel')[c]
        ctx.check(m.get_key_for_column(c) == k, 'table of a column')
        exp = []
        for d in range(DEV[k]):
            t = 0
            for i in range(n_mon):
                t = v[k][c][i * DEV[k] + d] + t
            exp.append(t / n_mon)
        ctx.check_eq(list(m.get_average(c)), exp, 'average per device')
    e = ctx.raises(lambda: m.get_key_for_column('pressure'), KeyError)
    ctx.check(isinstance(e, KeyError), 'unknown column')


def entire(ctx):
    size = ctx.int('n_bytes', 0, 10**11)
    r, v = make(ctx, 2, [0, 1], size)
    m = r.monitor
    ctx.check_eq(m.n_bytes, size, 'recorded size', 0)
    big = ctx.fork(size > 8 * 10**9)
    for k, f in (('monitor_camera', m.load_entire_table_camera),
                 ('monitor_tm', m.load_entire_table_tm),
                 ('monitor_pixel', m.load_entire_table_pixel)):
        for force in (False, True):
            if big and not force:
                e = ctx.raises(lambda: f(), MemoryError)
                ctx.check(isinstance(e, MemoryError), 'too large')
                continue
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                df = f(force) if force else f()
            ctx.check(any(issubclass(w.category, UserWarning) and
                          '8GB' in str(w.message) for w in ws) == big,
                      'warning about the size')
            for c, x in v[k].items():
                ctx.check_eq(list(df[c].values), x, 'entire table', 0)


def average(ctx, n_mon):
    """by device, whichever reported first"""
    r, v = make(ctx, n_mon, [0, 1], order=-1)
    for c, k in (('temp', 'monitor_tm'), ('hv', 'monitor_pixel')):
        exp = []
        for d in (1, 0):
            t = 0
            for i in range(n_mon):
                t = v[k][c][2 * i + d] + t
            exp.append(t / n_mon)
        ctx.check_eq(list(r.monitor.get_average(c)), exp,
                     'average by device')


def absent(ctx):
    r, v = make(ctx, 2, [0, 1], absent=True)
    for _ in range(2):
        e = ctx.raises(lambda: r.monitor, AttributeError)
        ctx.check(isinstance(e, AttributeError), 'no monitor information')


CASES = [
    dict(name='matched', fn=matched, params=dict(n_mon=3, n_ev=2)),
    dict(name='columns', fn=columns, params=dict(n_mon=3)),
    dict(name='entire', fn=entire),
    dict(name='average', fn=average, params=dict(n_mon=2)),
    dict(name='absent', fn=absent),
    dict(name='matched4', fn=matched, params=dict(n_mon=4, n_ev=3),
         tier='thorough'),
]

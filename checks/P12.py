"""DL1 files: access to events and to the stored run information."""
import os
import types
import warnings

BOUNDS = ('files of 1-4 events of 2-3 pixels, with any distinct event '
          'numbers in [0, 10^6), in any order, and arbitrary values; lookups of any '
          'event number, lists of 2 event numbers; cameras of 2 modules x 2 '
          'superpixels, lookups of any number in [0, 4]')
ASSUMPTIONS = ['pandas.HDFStore stores what it is given (an in-memory '
               'stand-in here; sampled paths are replayed on the real one)']


def make(ctx, n_ev, n_pix, n_tm=2, n_sp=2, sort=True):
    warnings.simplefilter('ignore')
    io = ctx.load('CHECLabPy.core.io')
    path = os.path.join(ctx.tmpdir(), 'a_dl1.h5')
    iev = ctx.ints('iev', n_ev, 0, 10**6)
    for i, b in enumerate(iev):
        for a in iev[:i]:
            ctx.assume(a < b if sort else a != b)
    q = [[ctx.int(f'q{e}_{p}', -1000, 1000) for p in range(n_pix)]
         for e in range(n_ev)]
    tabs = dict(
        sn={f'TM{t:02}': ctx.int(f'sn{t}', 0, 999) for t in range(n_tm)},
        sipm_temp={f'TM{t:02}': ctx.int(f'si{t}', -50, 50)
                   for t in range(n_tm)},
        primary_temp={f'TM{t:02}': ctx.int(f'pr{t}', -50, 50)
                      for t in range(n_tm)},
        dac={f'TM{t:02}_SP{s:02}': ctx.int(f'da{t}_{s}', 0, 255)
             for t in range(n_tm) for s in range(n_sp)},
        hvon={f'TM{t:02}_SP{s:02}': ctx.int(f'hv{t}_{s}', 0, 1)
              for t in range(n_tm) for s in range(n_sp)})
    meta = dict(n_events=n_ev, n_pixels=n_pix, n_modules=n_tm,
                n_superpixels_per_module=n_sp, n_samples=128, is_mc=False,
                camera_version='1.0.1')
    with io.HDF5Writer(path) as w:
        for e in range(n_ev):
            w.append(ctx.pd.DataFrame(dict(
                iev=ctx.const([iev[e]] * n_pix),
                pixel=ctx.const(list(range(n_pix))), q=ctx.const(q[e]))))
        w.add_metadata(**meta)
        w.add_metadata(name='config', window_size=ctx.int('ws', 0, 9))
        for k, d in tabs.items():
            w.add_metadata(name=k, **d)
    return io.DL1Reader(path), iev, q, tabs, meta


def check_event(ctx, df, iev, q, what):
    n = len(q)
    ctx.check(len(df) == n, what + ': one row per pixel')
    ctx.check_eq(list(df['iev'].values), [iev] * n, what + ': event', 0)
    ctx.check(list(df['pixel'].values) == list(range(n)), what + ': pixels')
    ctx.check_eq(list(df['q'].values), q, what + ': values', 0)


def lookup(ctx, n_ev, n_pix, sort=True):
    r, iev, q, tabs, meta = make(ctx, n_ev, n_pix, sort=sort)
    i = ctx.int('i', -2, 10**6 + 1)
    for _ in range(2):
        k = next((k for k in range(n_ev) if ctx.fork(iev[k] == i)), None)
        if k is None:
            e = ctx.raises(lambda: r[i], IndexError)
            ctx.check(isinstance(e, IndexError), 'unknown event is refused')
        else:
            check_event(ctx, r[i], iev[k], q[k], 'event by number')
        i = iev[n_ev - 1]


def iterate(ctx, n_ev, n_pix):
    r, iev, q, tabs, meta = make(ctx, n_ev, n_pix, sort=False)
    for _ in range(2):
        evs = list(r.iterate_over_events())
        ctx.check(len(evs) == n_ev, 'every event once')
        for k, df in enumerate(evs):
            check_event(ctx, df, iev[k], q[k], 'iteration')
    k = ctx.choice('k', list(range(n_ev)))
    check_event(ctx, r.select_event_index(k), iev[k], q[k],
                'event by position')
    ctx.check_eq(list(r.event_lookup), iev, 'event numbers', 0)
    rows = list(r.iterate_over_rows())
    ctx.check(len(rows) == n_ev * n_pix and all(len(x) == 1 for x in rows),
              'row by row')
    ctx.check_eq([list(x['q'].values)[0] for x in rows],
                 [v for e in q for v in e], 'rows in order', 0)
    df = r.load_entire_table()
    ctx.check_eq(list(df['q'].values), [v for e in q for v in e],
                 'entire table', 0)
    ctx.check_eq(list(r.select_column('q').values),
                 [v for e in q for v in e], 'column', 0)
    a, b = r.select_columns(['q', 'iev'])
    ctx.check_eq(list(b.values), [v for v in iev for _ in range(n_pix)],
                 'columns', 0)
    a, b = r.select_columns(['q', 'iev'], start=1, stop=n_pix)
    ctx.check_eq(list(a.values), list(q[0])[1:], 'part of the columns', 0)
    ctx.check_eq(list(b.values), [iev[0]] * (n_pix - 1),
                 'part of the columns', 0)


def selected(ctx, n_ev, n_pix, n_sel):
    r, iev, q, tabs, meta = make(ctx, n_ev, n_pix, sort=False)
    want = ctx.ints('want', n_sel, -2, 10**6 + 1)
    got = list(r.iterate_over_selected_events(list(want)))
    exp = [k for k in range(n_ev)
           if ctx.fork(ctx.any([iev[k] == w for w in want]))]
    ctx.check(len(got) == len(exp), 'the selected events')
    for df, k in zip(got, exp):
        check_event(ctx, df, iev[k], q[k], 'selection')


def info(ctx, n_tm, n_sp):
    r, iev, q, tabs, meta = make(ctx, 1, 2, n_tm, n_sp)
    for k in meta:
        ctx.check(getattr(r, k) == meta[k], 'run information')
    ctx.check(r.n_rows == 2, 'rows')
    ctx.check(list(r.columns) == ['iev', 'pixel', 'q'], 'columns')
    ctx.check(set(r.config) == {'window_size'}, 'config')
    tm, sp = ctx.int('tm', 0, 4), ctx.int('sp', 0, 4)
    tm = range(5)[tm]
    sp = range(5)[sp]
    for f, t in ((r.get_sn, 'sn'), (r.get_sipm_temp, 'sipm_temp'),
                 (r.get_primary_temp, 'primary_temp')):
        if tm < n_tm:
            ctx.check_eq(f(tm), tabs[t][f'TM{tm:02}'], t, 0)
        else:
            e = ctx.raises(lambda: f(tm), IndexError)
            ctx.check(isinstance(e, IndexError), t + ' out of range')
    for f, t in ((r.get_sp_dac, 'dac'), (r.get_sp_hvon, 'hvon')):
        if tm < n_tm and sp < n_sp:
            ctx.check_eq(f(tm, sp), tabs[t][f'TM{tm:02}_SP{sp:02}'], t, 0)
        else:
            e = ctx.raises(lambda: f(tm, sp), IndexError)
            ctx.check(isinstance(e, IndexError), t + ' out of range')


def tc_mapping(ctx):
    log = []

    class CameraConfiguration:
        def __init__(self, version):
            self.version = version

        def GetMapping(self, single):
            return ('mapping', self.version, bool(single))
    tc = types.ModuleType('target_calib')
    tc.CameraConfiguration = CameraConfiguration
    ctx.stub('target_calib', tc)
    n_tm = ctx.choice('n_tm', [1, 2, 32])
    r, iev, q, tabs, meta = make(ctx, 1, 1, n_tm, 1)
    ctx.check(r.tc_mapping == ('mapping', '1.0.1', n_tm == 1),
              'mapping of the camera version')


CASES = [
    dict(name='lookup', fn=lookup, params=dict(n_ev=3, n_pix=2)),
    dict(name='lookup1', fn=lookup, params=dict(n_ev=1, n_pix=3)),
    dict(name='unordered', fn=lookup, params=dict(n_ev=3, n_pix=2,
                                                  sort=False)),
    dict(name='iterate', fn=iterate, params=dict(n_ev=3, n_pix=2)),
    dict(name='selected', fn=selected, params=dict(n_ev=3, n_pix=2,
                                                   n_sel=2)),
    dict(name='info', fn=info, params=dict(n_tm=2, n_sp=2)),
    dict(name='info13', fn=info, params=dict(n_tm=1, n_sp=3)),
    dict(name='tcmapping', fn=tc_mapping),
    dict(name='lookup5', fn=lookup, params=dict(n_ev=5, n_pix=3),
         tier='thorough'),
    dict(name='selected4', fn=selected, params=dict(n_ev=4, n_pix=2,
                                                    n_sel=3),
         tier='thorough'),
]

"""The reducer chain: which columns are extracted, from which configuration,
and that reducers do not influence each other, the waveforms or later
events."""
import os
import warnings

BOUNDS = ('configuration files and keyword arguments giving arbitrary flags '
          'to 4-7 columns of 4 reducers (each present in both, either or '
          'none), arbitrary window sizes; waveforms of 4 pixels x 21 samples '
          'with arbitrary values, sequences of 3 events')
ASSUMPTIONS = ['arithmetic is over the reals',
               'yaml.safe_load delivers the content of the configuration']
NP_, NS = 4, 21
COMMON = ['baseline_start_mean', 'baseline_end_mean', 'waveform_mean',
          'waveform_max']


def reference(ctx):
    p = os.path.join(ctx.tmpdir(), 'ref.dat')
    with open(p, 'w') as f:
        for i in range(12):
            f.write(f'{i * 1e-9} {[0, 1, 4, 3, 2, 1][i] if i < 6 else 0}\n')
    return p


def config(ctx, d):
    """a configuration file holding d, whose values may be symbolic"""
    p = os.path.join(ctx.tmpdir(), 'config.yml')
    if ctx.sym:
        import yaml
        for n in ('safe_load', 'load'):
            ctx.patch(yaml, n, lambda *a, **k: dict(d) if d else None)
    with open(p, 'w') as f:
        for k, v in d.items():
            f.write(f'{k}: {v}\n' if not ctx.sym else f'{k}: 0\n')
    return p


def waveforms(ctx, tag, n_sym=2, n_pix_sym=NP_, dtype=None):
    """some samples of some pixels are arbitrary"""
    W = ctx.load('CHECLabPy.core.io.waveform').Waveform
    a = ctx.const([[float((3 * p + 7 * s) % 11) for s in range(NS)]
                   for p in range(NP_)])
    for p in range(n_pix_sym):
        for k in range(n_sym):
            a[p, (5 * k + p) % NS] = ctx.real(f'{tag}{p}_{k}', -100, 100)
    return W(a, iev=1)


def same(ctx, got, exp, label):
    import numpy as np
    if np.ndim(exp) == 0:
        ctx.check_eq(got, exp, label, 1e-6)
    else:
        ctx.check_eq(list(got), list(exp), label, 1e-6)


def chain_of(ctx, path=None, **kw):
    m = ctx.load('CHECLabPy.core.chain')
    kw.setdefault('n_pixels', NP_)
    kw.setdefault('n_samples', NS)
    if path is not None:
        kw['config_path'] = path
    return m.WaveformReducerChain(**kw)


ALL = {
    'Common': ['baseline_end_mean', 'baseline_end_rms',
               'baseline_start_mean', 'baseline_start_rms',
               'waveform_mean', 'waveform_rms', 'waveform_max'],
    'AverageWF': ['t_averagewf', 'charge_averagewf'],
    'Saturation': ['saturation_sum'], 'SPAmplitude': ['sp_argmax', 'sp_max'],
    'CrossCorrelation': ['t_cc', 'charge_cc', 'height_cc']}
DEFAULT_OFF = ['sp_argmax', 'sp_max', 'waveform_max']


def active(ctx, columns, **layers):
    """flags in the order of precedence, highest first"""
    out = []
    for c in columns:
        for d in layers.values():
            if c in d:
                if ctx.fork(d[c]):
                    out.append(c)
                break
    return out


def with_file(ctx, both, only_file, only_kw, none):
    """a configuration file replaces the defaults; arguments override it"""
    warnings.simplefilter('ignore')
    f = {c: ctx.bool('f_' + c) for c in both + only_file}
    k = {c: ctx.bool('k_' + c) for c in both + only_kw}
    p = config(ctx, f)
    ch = chain_of(ctx, p, t_extract=10, reference_pulse_path=reference(ctx),
                  **k)
    exp = active(ctx, both + only_file + only_kw, k=k, f=f)
    got = ch.process(waveforms(ctx, 'w', 0))
    ctx.check(sorted(got) == sorted(exp), 'columns of the event')
    for c in both + only_file + only_kw:
        v = k.get(c, f.get(c))
        ctx.check(ctx.all([ctx.implies(ch.config[c], v),
                           ctx.implies(v, ch.config[c])]),
                  'configuration in force')


def defaults(ctx, given):
    """without a file the default columns apply; arguments override them"""
    warnings.simplefilter('ignore')
    k = {c: ctx.bool('k_' + c) for c in given}
    ch = chain_of(ctx, t_extract=10, reference_pulse_path=reference(ctx),
                  **k)
    every = [c for cs in ALL.values() for c in cs]
    d = {c: c not in DEFAULT_OFF for c in every}
    exp = active(ctx, every, k=k, d=d)
    got = ch.process(waveforms(ctx, 'w', 0))
    ctx.check(sorted(got) == sorted(exp), 'columns of the event')
    for c in every:
        v = ch.config.get(c, False)
        e = k.get(c, d[c])
        ctx.check(ctx.all([ctx.implies(v, e), ctx.implies(e, v)]),
                  'configuration in force')


def standalone(ctx, given):
    """on its own, a reducer delivers every column not deactivated"""
    warnings.simplefilter('ignore')
    m = ctx.load('CHECLabPy.core.reducer')
    ctx.load('CHECLabPy.waveform_reducers')
    r = {c.__name__: c for c in ctx.load(
        'CHECLabPy.core').child_subclasses(m.WaveformReducer)}
    k = {c: ctx.bool('k_' + c) for c in given}
    for name in ('Common', 'AverageWF', 'SPAmplitude', 'Saturation'):
        red = r[name](NP_, NS, t_extract=10, **k)
        got = red.process(waveforms(ctx, 'w', 0))
        exp = active(ctx, ALL[name], k=k, d={c: True for c in ALL[name]})
        ctx.check(sorted(got) == sorted(exp), name + ' columns')
        ctx.check(sorted(red.active_columns) == sorted(exp),
                  name + ' active columns')


def parameters(ctx):
    """extraction parameters: arguments override the file"""
    warnings.simplefilter('ignore')
    f = dict(charge_averagewf=True, t_averagewf=True, t_extract=10)
    where = ctx.choice('where', ['file', 'kw', 'both', 'none'])
    sf, kf = ctx.choice('fs', [3, 5]), ctx.choice('ks', [4, 7])
    k = {}
    if where in ('file', 'both'):
        f['window_size'] = sf
    if where in ('kw', 'both'):
        k['window_size'] = kf
    size = {'file': sf, 'kw': kf, 'both': kf, 'none': 6}[where]
    w = waveforms(ctx, 'w', 3)
    ch = chain_of(ctx, config(ctx, f), **k)
    got = ch.process(w)
    exp = []
    for p in range(NP_):
        t = 0
        for s in range(7, 7 + size):
            t = t + w[p, s]
        exp.append(t)
    same(ctx, got['charge_averagewf'], exp, 'window size in force')
    ctx.check(int(got['t_averagewf']) == 10, 'extraction time in force')


LIGHT = ['waveform_mean', 'waveform_max', 'baseline_end_mean', 't_averagewf',
         'charge_averagewf', 'saturation_sum', 'sp_max']
PULSE = ['t_cc', 'charge_cc', 'height_cc', 't_cc_local', 'charge_cc_local',
         't_pulse', 't_pulse_amp', 'fwhm', 't_rise', 't_event',
         'waveform_mean']


def independent(ctx, cols, n_pix_sym, n_sym):
    """the columns do not depend on the other columns, nor on the events
    before, and neither the waveforms nor earlier results change"""
    warnings.simplefilter('ignore')
    kw = dict(t_extract=10, reference_pulse_path=reference(ctx))
    a = waveforms(ctx, 'a', n_sym, n_pix_sym)
    b = waveforms(ctx, 'b', n_sym, n_pix_sym if cols is LIGHT else 0)
    before = [[[w[p, s] for s in range(NS)] for p in range(NP_)]
              for w in (a, b)]
    full = chain_of(ctx, config(ctx, dict.fromkeys(cols, True)), **kw)
    ra = full.process(a)
    keep = {c: [x for x in v] if getattr(v, 'ndim', 0) else v
            for c, v in ra.items()}
    rb = full.process(b)
    rc = full.process(a)
    for c in cols:
        same(ctx, ra[c], keep[c], 'earlier result unchanged: ' + c)
        same(ctx, rc[c], keep[c], 'no memory of other events: ' + c)
        one = chain_of(ctx, config(ctx, {c: True}), **kw)
        alone = one.process(b)
        ctx.check(list(alone) == [c], 'one column')
        same(ctx, rb[c], alone[c], 'no influence of other columns: ' + c)
    for w, x in zip((a, b), before):
        ctx.check_eq(w, x, 'waveforms unchanged', 0)
        ctx.check(w.iev == 1 and w.shape == (NP_, NS), 'event unchanged')


def two_chains(ctx):
    """chains with parameters of their own, used in turns"""
    w = [waveforms(ctx, t) for t in 'ab']
    ts = ctx.choice('t1', [8, 10]), ctx.choice('t2', [5, 10])
    sizes = 4, ctx.choice('size', [4, 6])
    cols = ['charge_averagewf', 't_averagewf', 'saturation_sum']
    conf = config(ctx, dict.fromkeys(cols, True))
    alone = []
    for t, n in zip(ts, sizes):
        c = chain_of(ctx, conf, t_extract=t, window_size=n)
        alone.append([c.process(x) for x in w])
    a, b = [chain_of(ctx, conf, t_extract=t, window_size=n)
            for t, n in zip(ts, sizes)]
    got = [a.process(w[0]), b.process(w[0]), a.process(w[1]),
           b.process(w[1])]
    for g, e in zip(got, [alone[0][0], alone[1][0], alone[0][1],
                          alone[1][1]]):
        ctx.check(sorted(g) == sorted(e) == sorted(cols), 'columns')
        for c in cols:
            same(ctx, g[c], e[c], 'parameters of the own chain: ' + c)


def custom(ctx):
    """reducers of a user take part, and may change their waveforms"""
    warnings.simplefilter('ignore')
    m = ctx.load('CHECLabPy.core.reducer')
    ctx.load('CHECLabPy.waveform_reducers')

    class UserA(m.WaveformReducer):
        def user_late(self):
            return None

        @m.column
        def user_scaled(self):
            self.waveforms *= 2
            return self.waveforms[:, 3] + self.waveforms[:, 5]

    class UserB(UserA):
        @m.column
        def user_late(self):
            return self.waveforms[:, 5] - self.waveforms[:, 3]

    class UserC(m.WaveformReducer):
        @m.column
        def user_sum(self):
            t = 0
            for s in range(NS):
                t = t + self.waveforms[:, s]
            return t
    ctx.check([list(c.columns) for c in (UserA, UserB, UserC)] ==
              [['user_scaled'], ['user_late'], ['user_sum']],
              'columns of a reducer')

    def twice():
        class UserD(m.WaveformReducer):
            @m.column
            def user_sum(self):
                return 0
    e = ctx.raises(twice, AttributeError)
    ctx.check(isinstance(e, AttributeError), 'no two columns of one name')
    f = {c: ctx.bool('k_' + c) for c in ('user_scaled', 'user_late',
                                         'user_sum')}
    ch = chain_of(ctx, config(ctx, {}), waveform_mean=True, **f)
    w = waveforms(ctx, 'w', 1)
    x = [[w[p, s] for s in range(NS)] for p in range(NP_)]
    every = ['waveform_mean'] + [c for c in f if ctx.fork(f[c])]
    exp = dict(user_scaled=[2 * (r[3] + r[5]) for r in x],
               user_late=[r[5] - r[3] for r in x],
               user_sum=[sum(r[1:], r[0]) for r in x],
               waveform_mean=[sum(r[1:], r[0]) / NS for r in x])
    for _ in range(2):
        got = ch.process(w)
        ctx.check(sorted(got) == sorted(every), 'columns of the event')
        for c in every:
            same(ctx, got[c], exp[c], 'not influenced by others: ' + c)
        ctx.check_eq(w, x, 'waveforms unchanged', 0)


def missing(ctx):
    """a reducer is only built for an active column"""
    warnings.simplefilter('ignore')
    bad = ['charge_local', 'charge_nn', 'charge_sliding', 't_sliding_local',
           'charge_sliding_nn', 'charge_cc_nn']
    flags = {c: ctx.bool('k_' + c) for c in bad}
    every = dict(waveform_mean=True, **flags)
    p = config(ctx, {})
    m = ctx.load('CHECLabPy.core.chain')
    want = ctx.fork(ctx.any(list(flags.values())))
    e = ctx.raises(lambda: chain_of(
        ctx, p, reference_pulse_path=reference(ctx), **every),
        ImportError, ValueError)
    ctx.check((e is not None) == want,
              'a missing dependency only matters for active columns')
    # a column that needs the reference pulse
    f = ctx.bool('t_cc')
    e = ctx.raises(lambda: chain_of(ctx, p, t_cc=f), ValueError)
    ctx.check(ctx.all([ctx.implies(f, e is not None),
                       ctx.implies(e is not None, f)]),
              'a missing reference pulse only matters for active columns')


CASES = [
    dict(name='file', fn=with_file, params=dict(
        both=['waveform_mean', 'sp_max'], only_file=['charge_averagewf',
                                                     'waveform_max'],
        only_kw=['saturation_sum', 'sp_argmax'], none=[])),
    dict(name='defaults', fn=defaults, params=dict(
        given=['waveform_mean', 'saturation_sum', 'waveform_max', 't_cc',
               'sp_max'])),
    dict(name='defaults2', fn=defaults, params=dict(
        given=['charge_cc', 'waveform_rms', 'baseline_start_mean'])),
    dict(name='standalone', fn=standalone, params=dict(
        given=['waveform_mean', 'saturation_sum', 'waveform_max',
               't_averagewf', 'charge_averagewf'])),
    dict(name='parameters', fn=parameters),
    dict(name='independent', fn=independent,
         params=dict(cols=LIGHT, n_pix_sym=NP_, n_sym=2)),
    dict(name='pulse', fn=independent,
         params=dict(cols=PULSE, n_pix_sym=1, n_sym=1)),
    dict(name='two', fn=two_chains),
    dict(name='custom', fn=custom),
    dict(name='missing', fn=missing),
    dict(name='file8', fn=with_file, tier='thorough', params=dict(
        both=['waveform_mean', 'sp_max', 't_averagewf', 'charge_cc'],
        only_file=['charge_averagewf', 'waveform_max', 'height_cc'],
        only_kw=['saturation_sum', 'sp_argmax', 't_cc'], none=[])),
]

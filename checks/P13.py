"""DL1 extraction: which events are stored, what their rows hold, and the run
information kept with them."""
import os
import types
import warnings
import lib

BOUNDS = ('runs of 3 events (thorough 4) of 2 pixels x 20 samples (also a '
          'camera of 2 modules, and 40 pixels of which one is arbitrary) with arbitrary samples, stale flags and '
          'numbers of missing packets (so every pattern of skipped events), '
          'time corrections in [-1, 1] or integers in [-2, 2], 4 configured '
          'columns, arbitrary slow-control values; TIO and simtel readers; '
          'max_events none or 2')
ASSUMPTIONS = ['arithmetic is over the reals',
               'event numbers, TACKs, first cell ids and times are fixed, '
               'distinct values',
               'pandas.HDFStore stores what it is given (an in-memory '
               'stand-in here; sampled paths are replayed on the real one)']
NS = 20
CONFIG = '''waveform_mean: True
waveform_max: True
waveform_rms: False
charge_averagewf: True
t_averagewf: True
t_extract: 9
window_size: 5
window_shift: 2
unused: 7
'''


def mean(xs):
    t, n = 0, 0
    for x in xs:
        t = t + x
        n += 1
    return t / n


class Mapping:
    """stands for the TargetCalib mapping"""

    def __init__(self, ctx, n_pix):
        self.ctx, self.n = ctx, n_pix
        self.x = ctx.reals('xp', n_pix, -1, 1)
        for i, k in enumerate(['fOTUpRow_l', 'fOTUpRow_u', 'fOTUpCol_l',
                               'fOTUpCol_u', 'fOTUpX_l', 'fOTUpX_u',
                               'fOTUpY_l', 'fOTUpY_u']):
            setattr(self, k, ctx.real(k, -1, 1))

    def as_dataframe(self):
        return self.ctx.pd.DataFrame(dict(
            pixel=list(range(self.n)), xpix=self.ctx.const(self.x)))

    def GetCfgPath(self):
        return '/m.cfg'

    def IsSingleModule(self):
        return False

    def __getattr__(self, k):
        if not k.startswith('Get'):
            raise AttributeError(k)
        return lambda: {'GetNPixels': self.n, 'GetSize': 0.01}.get(k, len(k))


def calibrated(ctx, samples, cor):
    """linear interpolation at s - c (see P01)"""
    out = []
    for p, row in enumerate(samples):
        r = []
        for s in range(NS):
            x = s - cor[p]
            i = 0
            while i < NS - 2 and ctx.fork(x >= i + 1):
                i += 1
            r.append(row[i] + (row[i + 1] - row[i]) * (x - i))
        out.append(r)
    return out


def config_file(ctx):
    p = os.path.join(ctx.tmpdir(), 'config.yml')
    with open(p, 'w') as f:
        f.write(CONFIG)
    return p


def expected(ctx, raw, kept, cors, iev0=0):
    """per kept event: baseline, and the columns, of every pixel"""
    n = len(raw)
    n_pix = len(raw[0])
    window = list(raw)                 # filled with the events as read
    out = []
    for k, e in enumerate(kept):
        w = calibrated(ctx, raw[e], cors) if cors is not None else raw[e]
        window[k % n] = w
        base = [mean(v[p][s] for v in window for s in range(16))
                for p in range(n_pix)]
        sub = [[x - base[p] for x in w[p]] for p in range(n_pix)]
        out.append(dict(
            baseline_subtracted=base,
            waveform_mean=[mean(r) for r in sub],
            waveform_max=[ctx.max(r) for r in sub],
            charge_averagewf=[5 * mean(r[7:12]) for r in sub]))
    return out


def check_rows(ctx, r, kept, exp, info, n_pix):
    df = r.read('data')
    ctx.check(len(df) == len(kept) * n_pix, 'one row per pixel and event')
    cols = ['iev', 'pixel', 't_cpu', 't_tack', 'first_cell_id',
            'baseline_subtracted', 't_averagewf', 'charge_averagewf',
            'waveform_mean', 'waveform_max'] + \
        (['mc_true'] if 'mc_true' in info[0] else [])
    ctx.check(sorted(df.columns) == sorted(cols), 'columns')
    ev = [(e, p) for e in kept for p in range(n_pix)]
    ctx.check([int(x) for x in df['pixel'].values] == [p for _, p in ev],
              'pixel column')
    for c in ('iev', 't_tack', 'first_cell_id'):
        ctx.check([int(x) for x in df[c].values] == [info[e][c]
                                                     for e, _ in ev],
                  c + ' column')
    t = list(df['t_cpu'])
    ctx.check([int(x.value) for x in t] == [info[e]['t_cpu'] for e, _ in ev],
              't_cpu column')
    if 'mc_true' in info[0]:
        ctx.check([int(x) for x in df['mc_true'].values] ==
                  [info[e]['mc_true'][p] for e, p in ev], 'mc_true column')
    ctx.check([int(x) for x in df['t_averagewf'].values] == [9] * len(ev),
              't_averagewf column')
    for c in exp[0]:
        ctx.check_eq(list(df[c].values), [v for d in exp for v in d[c]],
                     c + ' column', 1e-2)


def check_meta(ctx, r, reader, n_kept, n_skip, times, mc):
    m = r.get_metadata('data', 'metadata')
    ctx.check(m['n_events'] == n_kept, 'n_events')
    ctx.check(m['n_skipped'] == n_skip, 'n_skipped')
    ctx.check(int(m['start_time'].value) == times[0], 'start time')
    ctx.check(int(m['end_time'].value) == times[-1], 'end time')
    for k in ('run_id', 'n_modules', 'n_pixels', 'n_superpixels_per_module',
              'n_samples', 'camera_version', 'n_cells', 'is_mc'):
        ctx.check(m[k] == getattr(reader, k), 'run information: ' + k)
    ctx.check(m['input_path'] == reader.path, 'input path')
    ctx.check('date_generated' in m and 'source' in m, 'provenance')
    c = r.get_metadata('data', 'config')
    for k, v in dict(waveform_mean=True, waveform_rms=False, window_size=5,
                     window_shift=2, unused=7).items():
        ctx.check(c.get(k) == v, 'configuration: ' + k)
    ctx.check('mapping' not in c, 'the mapping is not in the configuration')


def patch_store_types(ctx):
    warnings.simplefilter('ignore')


def tio(ctx, n_ev, n_pix, cor_kind, max_events=None, n_tm=1, n_sp=1,
        skips=True, flush=False, n_sym=None):
    warnings.simplefilter('ignore')
    recs, info, raw = [], [], []
    for e in range(n_ev):
        s = [[ctx.real(f's{e}_{p}_{k}', -100, 100) for k in range(NS)]
             if n_sym is None or p in n_sym else
             [0.25 * ((7 * p + 3 * k + e) % 64) for k in range(NS)]
             for p in range(n_pix)]
        raw.append(s)
        stale = ctx.bool(f'stale{e}') if skips else False
        miss = ctx.int(f'miss{e}', 0, 64) if skips else 0
        recs.append(dict(samples=s, fci=(5, 16383, 4101)[e % 3], stale=stale,
                         missing=miss, tack=2**33 + 7 * e, s=1500000000 + e,
                         ns=123456789 + e))
        info.append(dict(iev=e, t_tack=2**33 + 7 * e,
                         first_cell_id=(5, 16383, 4101)[e % 3],
                         t_cpu=(1500000000 + e) * 10**9 + 123456789 + e))
    tabs = dict(sn=[ctx.int(f'sn{t}', 0, 999) for t in range(n_tm)],
                sipm=[ctx.real(f'si{t}', -50, 50) for t in range(n_tm)],
                primary=[ctx.int(f'pr{t}', -50, 50) for t in range(n_tm)],
                dac=[ctx.ints(f'da{t}', n_sp, 0, 255) for t in range(n_tm)],
                hvon=[ctx.ints(f'hv{t}', n_sp, 0, 1) for t in range(n_tm)])
    mapping = Mapping(ctx, n_pix)
    lib.tio(ctx, recs, n_pix, NS, True, n_modules=n_tm, n_sp=n_sp,
            tables=tabs, mapping=mapping, run_id=4321)
    if cor_kind == 'int':
        cor = [float(ctx.choice(f'c{p}', [-2, 0, 1])) for p in range(n_pix)]
    elif cor_kind == 'real':
        cor = [ctx.real(f'c{p}', -1, 1) for p in range(n_pix)]
    else:
        cor = cor_kind
    ctx.csv('time_correction.dat', pixel=list(range(n_pix)),
            t_cor=ctx.const(cor))
    io = ctx.load('CHECLabPy.core.io')
    m = ctx.load('CHECLabPy.scripts.extract_dl1')
    path = lib.touch(ctx, 'Run04321_r1.tio')
    reader = io.TIOReader(path, max_events) if max_events else \
        io.TIOReader(path)
    n = min(n_ev, max_events or n_ev)
    out = None
    if ctx.choice('out', [False, True]) if n_tm > 1 else False:
        out = os.path.join(ctx.tmpdir(), 'other.h5')
    kept = [e for e in range(n)
            if not (ctx.fork(recs[e]['stale']) if skips else False) and not
            (ctx.fork(recs[e]['missing'] > 0) if skips else False)]
    if flush:
        # what a frame takes in memory decides when it is written
        import pandas
        size = ctx.choice('size', [2 * 10**8, 3 * 10**8, 6 * 10**8])
        ctx.patch(pandas.DataFrame, 'memory_usage',
                  lambda self, *a, **k: ctx.const([size]))
    ext = m.DL1Extractor(reader, config_file(ctx))
    m.DL1Writer.write_dl1_file(reader, ext, *([out] if out else []))
    dl1 = out or path.replace('_r1.tio', '_dl1.h5')
    if not kept:
        with io.HDF5Reader(dl1) as r:
            ctx.check(r.dataframe_keys == [], 'no event: no table')
            md = r.get_metadata('data', 'metadata')
            ctx.check(md['n_events'] == 0 and md['n_skipped'] == n,
                      'no event: counts')
        return
    exp = expected(ctx, raw[:n], kept, cor)
    if cor_kind == 'real':       # beyond the solver: a product of reals
        for d in exp:
            del d['waveform_max']
    r = io.DL1Reader(dl1)
    ctx.check(r.dataframe_keys == ['data'], 'tables')
    check_rows(ctx, r, kept, exp, info, n_pix)
    check_meta(ctx, r, reader, len(kept), n - len(kept),
               [info[e]['t_cpu'] for e in kept], False)
    for t in range(n_tm):
        ctx.check_eq([r.get_sn(t), r.get_sipm_temp(t), r.get_primary_temp(t)],
                     [tabs['sn'][t], tabs['sipm'][t], tabs['primary'][t]],
                     'module information', 0)
        for s in range(n_sp):
            ctx.check_eq([r.get_sp_dac(t, s), r.get_sp_hvon(t, s)],
                         [tabs['dac'][t][s], tabs['hvon'][t][s]],
                         'superpixel information', 0)
    mp = r.get_mapping()
    ctx.check_eq(list(mp['xpix'].values), mapping.x, 'mapping', 1e-9)
    for k in ('fOTUpRow_l', 'fOTUpX_u', 'fOTUpY_l'):
        ctx.check_eq(mp.metadata[k], getattr(mapping, k), 'mapping metadata',
                     1e-9)
    ctx.check(mp.metadata['n_pixels'] == n_pix, 'mapping metadata')
    r.store.close()


def mc(ctx, n_ev, n_pix):
    """simulated events: truth, Monte-Carlo and pointing tables"""
    warnings.simplefilter('ignore')
    io = ctx.load('CHECLabPy.core.io')
    m = ctx.load('CHECLabPy.scripts.extract_dl1')
    W = ctx.load('CHECLabPy.core.io.waveform').Waveform
    df = ctx.pd.DataFrame(dict(pixel=list(range(n_pix))))
    df.metadata = dict(n_pixels=n_pix)
    raw = [[[ctx.real(f's{e}_{p}_{k}', -100, 100) for k in range(NS)]
            for p in range(n_pix)] for e in range(n_ev)]
    stale = [ctx.bool(f'stale{e}') for e in range(n_ev)]
    info = [dict(iev=e, t_tack=9 * e, first_cell_id=0,
                 t_cpu=(1500000000 + e) * 10**9 + e,
                 mc_true=[e * (e + 3 * p) for p in range(n_pix)])
            for e in range(n_ev)]
    energy = ctx.reals('energy', n_ev, 0, 100)
    az = ctx.reals('az', n_ev, 0, 6)
    head = ctx.real('head', 0, 9)

    class Reader:
        is_mc = True
        n_events, n_pixels, n_samples, n_modules = n_ev, n_pix, NS, 1
        n_superpixels_per_module, n_cells, run_id = 1, 4, 7
        camera_version, reference_pulse_path = '1.1.0', '/ref'
        path = os.path.join(ctx.tmpdir(), 'run1.simtel.gz')
        mapping = df
        mc = pointing = None
        mcheader = dict(spectral_index=head)
        max_events = None

        def __len__(self):
            return n_ev

        def __iter__(self):
            for e in range(n_ev):
                self.mc = dict(iev=e, energy=energy[e])
                self.pointing = dict(iev=e, azimuth=az[e])
                yield W(ctx.const(raw[e]), iev=e, t_tack=9 * e,
                        stale=stale[e], missing_packets=0,
                        t_cpu_container=(1500000000 + e, e),
                        mc_true=ctx.const(info[e]['mc_true']))

        def get_sn(self, tm):
            return float('nan')

        get_sipm_temp = get_primary_temp = get_sn

        def get_sp_dac(self, tm, sp):
            return float('nan')

        get_sp_hvon = get_sp_dac

    kept = [e for e in range(n_ev) if not ctx.fork(stale[e])]
    if not kept:
        return
    reader = Reader()
    ext = m.DL1Extractor(reader, config_file(ctx))
    m.DL1Writer.write_dl1_file(reader, ext)
    r = io.DL1Reader(reader.path.replace('.simtel.gz', '_dl1.h5'))
    ctx.check(sorted(r.dataframe_keys) == ['data', 'mc', 'pointing'],
              'tables')
    check_rows(ctx, r, kept, expected(ctx, raw, kept, None), info, n_pix)
    check_meta(ctx, r, reader, len(kept), n_ev - len(kept),
               [info[e]['t_cpu'] for e in kept], True)
    a, b = r.read('mc'), r.read('pointing')
    ctx.check([int(x) for x in a['iev'].values] == kept and
              [int(x) for x in b['iev'].values] == kept, 'one row per event')
    ctx.check_eq(list(a['energy'].values), [energy[e] for e in kept],
                 'Monte-Carlo values', 1e-3)
    ctx.check_eq(list(b['azimuth'].values), [az[e] for e in kept],
                 'pointing values', 1e-3)
    ctx.check_eq(r.get_metadata('mc', 'mcheader')['spectral_index'], head,
                 'mc header', 1e-9)
    r.store.close()


CASES = [
    dict(name='skip', fn=tio, params=dict(n_ev=3, n_pix=1,
                                          cor_kind=[1.0])),
    dict(name='cor', fn=tio, params=dict(n_ev=2, n_pix=2, cor_kind='int',
                                         skips=False)),
    dict(name='fraction', fn=tio, params=dict(n_ev=1, n_pix=1,
                                              cor_kind='real', skips=False)),
    dict(name='modules', fn=tio, params=dict(
        n_ev=2, n_pix=2, cor_kind=[0.0, -1.0], n_tm=2, n_sp=2)),
    dict(name='max', fn=tio, params=dict(n_ev=3, n_pix=1, cor_kind=[0.0],
                                         max_events=2)),
    dict(name='flush', fn=tio, params=dict(n_ev=4, n_pix=1, cor_kind=[0.0],
                                           skips=False, flush=True)),
    dict(name='many', fn=tio, params=dict(
        n_ev=2, n_pix=40, cor_kind=[0.0] * 40, skips=False, n_sym=[17])),
    dict(name='mc', fn=mc, params=dict(n_ev=3, n_pix=2)),
    dict(name='skip4', fn=tio, tier='thorough', params=dict(
        n_ev=4, n_pix=2, cor_kind=[0.5, -2.0])),
]

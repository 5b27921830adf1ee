"""Charge windows and waveform statistics of the simple reducers."""
import warnings
import lib

BOUNDS = ('2-4 pixels (flasher search: 2048), 8-45 or 128 samples of which 4-9 per '
          'pixel are arbitrary and the others fixed; extraction times found '
          'from the data or given, arbitrary window sizes in [1, 8] and '
          'shifts in [0, 5]; float64 and float32 waveforms')
ASSUMPTIONS = ['arithmetic is over the reals',
               'ctapipe\'s window functions sum (average over) the samples '
               '[peak - shift, peak - shift + width)']


def mean(xs):
    t, n = 0, 0
    for x in xs:
        t = t + x
        n += 1
    return t / n


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def waveforms(ctx, n_pix, n_samp, where, low=-200.0, dtype=None, tag='w'):
    rows = [[low + (5 * s + p) % 7 for s in range(n_samp)]
            for p in range(n_pix)]
    for p in range(n_pix):
        for s in where:
            rows[p][s] = ctx.real(f'{tag}{p}_{s}', -100, 100)
    a = ctx.const(rows)
    if dtype:
        a = a.astype(dtype)
    return a, rows


def reducer(ctx, module, name, *a, **k):
    warnings.simplefilter('ignore')
    return getattr(ctx.load('CHECLabPy.waveform_reducers.' + module),
                   name)(*a, **k)


def argmax(ctx, xs):
    """first position of the maximum (forks)"""
    best = 0
    for s in range(1, len(xs)):
        if ctx.fork(xs[s] > xs[best]):
            best = s
    return best


def clamped(ctx, rows, where):
    n = len(rows[0])
    # the fixed samples lie below the arbitrary ones
    avg = [mean(r[s] for r in rows) for s in where]
    t = where[argmax(ctx, avg)]
    return min(max(t, 10), n - 10)


def window(ctx, n_pix, n_samp, where, dtype=None, at=(None, 8, 11),
           shifts=(None, 0, 5)):
    a, rows = waveforms(ctx, n_pix, n_samp, where, dtype=dtype)
    given = ctx.choice('given', list(at))
    size = ctx.choice('size', [None, 1, 4, 8])
    shift = ctx.choice('shift', list(shifts))
    kw = {k: v for k, v in (('t_extract', given), ('window_size', size),
                            ('window_shift', shift)) if v is not None}
    r = reducer(ctx, 'average_wf', 'AverageWF', n_pix, n_samp, **kw)
    got = r.process(a)
    t = given if given is not None else clamped(ctx, rows, where)
    ctx.check_eq(got['t_averagewf'], t, 'time of the average waveform', 0)
    s0 = t - (3 if shift is None else shift)
    s1 = s0 + (6 if size is None else size)
    ctx.check_eq(list(got['charge_averagewf']),
                 [total(row[s0:s1]) for row in rows], 'charge of the window',
                 1e-2)
    r = reducer(ctx, 'saturation', 'Saturation', n_pix, n_samp, **kw)
    got = r.process(a)
    s0 = t - (4 if shift is None else shift)
    ctx.check_eq(list(got['saturation_sum']),
                 [total(row[s0:]) for row in rows],
                 'sum from the pulse to the end', 1e-2)
    ctx.check_eq(a, rows, 'waveforms unchanged', 1e-4)


def common(ctx, n_pix, n_samp, where):
    low = ctx.choice('low', [-3.0, -50.0])
    a, rows = waveforms(ctx, n_pix, n_samp, where, low=low)
    got = reducer(ctx, 'common', 'Common', n_pix, n_samp).process(a)
    parts = dict(baseline_start=lambda r: r[:20],
                 baseline_end=lambda r: r[-20:], waveform=lambda r: r)
    for name, f in parts.items():
        for p in range(n_pix):
            x = f(rows[p])
            m = mean(x)
            ctx.check_eq(got[name + '_mean'][p], m, name + '_mean', 1e-6)
            sd = got[name + '_rms'][p]
            ctx.check(sd >= 0, name + '_rms is not negative')
            ctx.check_eq(sd * sd, mean((v - m) * (v - m) for v in x),
                         name + '_rms', 1e-4)
    ctx.check_eq(list(got['waveform_max']), [ctx.max(r) for r in rows],
                 'waveform_max', 0)
    ctx.check_eq(a, rows, 'waveforms unchanged', 0)


def superpixel(ctx, n_pix, n_samp):
    a, rows = waveforms(ctx, n_pix, n_samp, range(n_samp))
    got = reducer(ctx, 'superpixel', 'SPAmplitude', n_pix,
                  n_samp).process(a)
    ctx.check(got['sp_max'].shape == (n_pix,) and
              got['sp_argmax'].shape == (n_pix,), 'one value per pixel')
    for p in range(n_pix):
        q = 4 * (p // 4)
        s = [total(rows[q + k][i] for k in range(4)) for i in range(n_samp)]
        ctx.check_eq(got['sp_max'][p], ctx.max(s), 'superpixel maximum',
                     1e-6)
        ctx.check_eq(got['sp_argmax'][p], argmax(ctx, s), 'superpixel time',
                     0)
    ctx.check_eq(a, rows, 'waveforms unchanged', 0)


def flasher(ctx, n_samp):
    """unit k of modules 5, 23, 8, 26 with the highest average pulse"""
    n = 2048
    mods = [5, 23, 8, 26]
    rows = [[float((p * 13 + s) % 5) for s in range(n_samp)]
            for p in range(n)]
    avg = []
    for m in mods:
        h = [ctx.real(f'h{m}_{k}', 0, 200) for k in range(2)]
        for p in range(64):
            s = ctx.choice('s', list(range(n_samp))) if p == 0 else p % n_samp
            for i in range(n_samp):
                rows[64 * m + p][i] = -5.0
            rows[64 * m + p][s] = h[p % 2]
        avg.append((h[0] + h[1]) / 2)
    got = reducer(ctx, 'flag_flasher', 'FlagFlashers', n,
                  n_samp).process(ctx.const(rows))
    u = got['flasher_unit']
    if ctx.fork(ctx.any([x < 30 for x in avg])):
        ctx.check(u == -1, 'no flasher')
    else:
        ctx.check_eq(u, argmax(ctx, avg), 'flasher unit', 0)


def extractors(ctx, n_pix=1, edges=()):
    """ctapipe's window functions; returns the mapping of the camera"""

    def peaks(w, peak):
        return [int(peak)] * w.shape[0] if not getattr(peak, 'ndim', 0) \
            else [int(x) for x in peak]

    def sum_samples_around_peak(w, peak, width, shift):
        n = w.shape[1]
        return ctx.const([
            total([w[p, s] for s in range(max(k - shift, 0),
                                          min(k - shift + width, n))])
            for p, k in enumerate(peaks(w, peak))])

    def extract_pulse_time_around_peak(w, peak, width, shift):
        return ctx.const([float(1000 * k + 10 * width + shift)
                          for k in peaks(w, peak)])

    class PeakWindowSum:
        def __init__(self, window_width=7, window_shift=3, lwt=0):
            self.width, self.shift, self.lwt = window_width, window_shift, lwt
            self.neighbors = None

        def __call__(self, w, *a):
            v = 1000.0 * self.width + 10 * self.shift
            t = v + 5 * (self.neighbors == edges) + 0.25 * self.lwt
            return (ctx.const([v + p for p in range(w.shape[0])]),
                    ctx.const([t + p + 0.5 for p in range(w.shape[0])]))

    return lib.camera(
        ctx, n_pix, list(edges),
        sum_samples_around_peak=sum_samples_around_peak,
        extract_pulse_time_around_peak=extract_pulse_time_around_peak,
        LocalPeakWindowSum=PeakWindowSum, NeighborPeakWindowSum=PeakWindowSum)


def neighbours(ctx, n_pix, n_samp):
    """windows placed by the neighbouring pixels; ctapipe's integrators"""
    pairs = [(p, q) for p in range(n_pix) for q in range(p)]
    on = [e for e in pairs if ctx.choice('edge%d_%d' % e, [True, False])]
    edges = sorted(on + [(q, p) for p, q in on])
    df = extractors(ctx, n_pix, edges)
    a, rows = waveforms(ctx, n_pix, n_samp, range(n_samp))
    k = ctx.choice('size', [1, 2])
    got = reducer(ctx, 'sliding_window', 'SlidingWindowNeighbour', n_pix,
                  n_samp, mapping=df, window_size=k).process(a)
    for p in range(n_pix):
        nb = [q for z, q in edges if z == p]
        avg = [mean(rows[q][s] for q in nb) if nb else 0.0
               for s in range(n_samp)]
        t = argmax(ctx, [total(avg[i:i + k]) for i in range(n_samp)])
        ctx.check_eq(got['charge_sliding_nn'][p], total(rows[p][t:t + k]),
                     'window of the neighbours', 1e-6)
        ctx.check_eq(got['t_sliding_nn'][p], 1000 * t + 10 * k,
                     'time window of the neighbours', 1e-6)
    ctx.check_eq(a, rows, 'waveforms unchanged', 0)


def integrators(ctx):
    """ctapipe's integrators get the configured window and the neighbours"""
    edges = [(0, 1), (1, 0)]
    df = extractors(ctx, 2, edges)
    a, rows = waveforms(ctx, 2, 4, [1, 2])
    size = ctx.choice('size', [None, 2, 9])
    shift = ctx.choice('shift', [None, 0, 5])
    kw = {k: v for k, v in (('window_size', size), ('window_shift', shift))
          if v is not None}
    w, s = size or 6, 3 if shift is None else shift
    got = reducer(ctx, 'ctapipe_integrators', 'CtapipeLocalPeakIntegrator',
                  2, 4, **kw).process(a)
    v = 1000 * w + 10 * s
    ctx.check_eq(list(got['charge_local']), [v, v + 1], 'local charge', 1e-6)
    ctx.check_eq(list(got['t_local']), [v + 0.5, v + 1.5], 'local time', 1e-6)
    got = reducer(ctx, 'ctapipe_integrators',
                  'CtapipeNeighbourPeakIntegrator', 2, 4, mapping=df,
                  **kw).process(a)
    ctx.check_eq(list(got['charge_nn']), [v, v + 1], 'neighbour charge',
                 1e-6)
    ctx.check_eq(list(got['t_nn']), [v + 5.5, v + 6.5],
                 'neighbour time and neighbours', 1e-6)
    ctx.check_eq(a, rows, 'waveforms unchanged', 0)


def sliding(ctx, n_pix, n_samp, kind, where=None, sizes=None):
    """the window with the largest sum, of the average or of each pixel"""
    extractors(ctx)
    a, rows = waveforms(ctx, n_pix, n_samp, where or range(n_samp), low=-5.0)
    size = ctx.choice('size', sizes) if sizes else \
        ctx.choice('size', [None, 2, 3]) if n_samp > 8 else \
        ctx.choice('size', [2, 3])
    kw = {} if size is None else dict(window_size=size)
    k = size or 8

    def sums(x):
        return [total(x[i:i + k]) for i in range(n_samp)]
    if kind == 'local':
        got = reducer(ctx, 'sliding_window', 'SlidingWindowLocal', n_pix,
                      n_samp, **kw).process(a)
        for p in range(n_pix):
            s = sums(rows[p])
            ctx.check_eq(got['charge_sliding_local'][p], ctx.max(s),
                         'largest window of the pixel', 1e-6)
            t = argmax(ctx, s)
            ctx.check_eq(got['t_sliding_local'][p], 1000 * t + 10 * k,
                         'time window of the pixel', 1e-6)
    else:
        got = reducer(ctx, 'sliding_window', 'SlidingWindow', n_pix, n_samp,
                      **kw).process(a)
        t = argmax(ctx, sums([mean(r[s] for r in rows)
                              for s in range(n_samp)]))
        ctx.check_eq(list(got['charge_sliding']),
                     [total(r[t:t + k]) for r in rows],
                     'largest window of the average', 1e-6)
        ctx.check_eq(list(got['t_sliding']), [1000 * t + 10 * k] * n_pix,
                     'time window of the average', 1e-6)
    ctx.check_eq(a, rows, 'waveforms unchanged', 0)


CASES = [
    dict(name='window', fn=window, params=dict(
        n_pix=2, n_samp=23, where=[0, 9, 11, 12, 13, 22])),
    dict(name='window32', fn=window, params=dict(
        n_pix=1, n_samp=22, where=[5, 10, 11, 20], dtype='float32')),
    dict(name='window128', fn=window, params=dict(
        n_pix=3, n_samp=128, where=[5, 60, 125], at=(None, 64, 120))),
    dict(name='first', fn=window, params=dict(
        n_pix=1, n_samp=22, where=[0, 1, 12], at=(0, 2), shifts=(0,))),
    dict(name='slidinglong', fn=sliding, params=dict(
        n_pix=2, n_samp=14, kind='average', where=[2, 7, 12],
        sizes=[None, 9, 10])),
    dict(name='common128', fn=common, params=dict(
        n_pix=1, n_samp=128, where=[0, 64, 107, 108, 127])),
    dict(name='common', fn=common, params=dict(
        n_pix=2, n_samp=45, where=[0, 19, 20, 24, 25, 44])),
    dict(name='commonshort', fn=common, params=dict(
        n_pix=1, n_samp=8, where=[0, 3, 7])),
    dict(name='common15', fn=common, params=dict(
        n_pix=1, n_samp=15, where=[0, 6, 14])),
    dict(name='superpixel', fn=superpixel, params=dict(n_pix=8, n_samp=3)),
    dict(name='flasher', fn=flasher, params=dict(n_samp=2)),
    dict(name='sliding', fn=sliding, params=dict(n_pix=2, n_samp=4,
                                                 kind='average')),
    dict(name='slidinglocal', fn=sliding, params=dict(n_pix=2, n_samp=4,
                                                      kind='local')),
    dict(name='slidingnn', fn=neighbours, params=dict(n_pix=3, n_samp=3)),
    dict(name='integrators', fn=integrators),
    dict(name='sliding9', fn=sliding, tier='thorough', params=dict(
        n_pix=1, n_samp=9, kind='average')),
    dict(name='window3', fn=window, tier='thorough', params=dict(
        n_pix=3, n_samp=25, where=[0, 3, 9, 11, 12, 13, 15, 22, 24])),
]

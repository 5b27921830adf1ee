"""Pulse timing: interpolated peak, full width at half maximum, rise time."""
import warnings

BOUNDS = ('1-2 pixels; the peak from 4-5 arbitrary samples in a search window '
          'of 1-3 samples inside the readout; up to 100 samples of baseline before the pulse; widths and rise times for 8 '
          'peak shapes and 5 arbitrary samples around the peak (pulses with '
          'and without crossings, several crossings, plateaus) and an '
          'arbitrary baseline level, the same at the start of the readout '
          'with 0-2 arbitrary samples before the peak; extraction time given or found, float64 '
          'and float32')
ASSUMPTIONS = ['arithmetic is over the reals',
               'the search window lies inside the readout', 'no level is crossed exactly at sample 0']


def mean(xs):
    t, n = 0, 0
    for x in xs:
        t = t + x
        n += 1
    return t / n


def timing(ctx, n_pix, n_samp, **kw):
    warnings.simplefilter('ignore')
    return ctx.load('CHECLabPy.waveform_reducers.timing').Timing(
        n_pix, n_samp, **kw)


def peak(ctx, n, lo, hi):
    """position and height of the parabola through the three samples around
    the largest one in the window"""
    w = [ctx.real(f'w{s}', -100, 100) for s in range(n)]
    got = timing(ctx, 1, n, t_extract=lo + 1, window_shift=1,
                 window_size=hi - lo).process(ctx.const([w]))
    k = lo
    for s in range(lo + 1, hi):
        if ctx.fork(w[s] > w[k]):
            k = s
    base = mean(w[:10])
    if k == 0 or k == n - 1:
        ctx.check(ctx.all([got['t_pulse'][0] == 0,
                           got['t_pulse_amp'][0] == 0]), 'peak at the end')
        return
    y0, y1, y2 = w[k - 1], w[k], w[k + 1]
    b = y0 - 2 * y1 + y2
    t, h = got['t_pulse'][0], got['t_pulse_amp'][0]
    # the window starts and ends inside the readout: t may leave it only if
    # the peak is at the edge of the window
    inside = ctx.all([ctx.any([b > 0, b < 0]),
                      ctx.any([ctx.all([b < 0, y0 - y2 <= -2 * k * b,
                                        y0 - y2 > 2 * (n - k) * b]),
                               ctx.all([b > 0, y0 - y2 >= -2 * k * b,
                                        y0 - y2 < 2 * (n - k) * b])])])
    if ctx.fork(inside):
        ctx.check_eq(2 * b * (t - k), y0 - y2, 'vertex of the parabola',
                     1e-3)
        ctx.check_eq(h, y1 - 0.25 * (y0 - y2) * (t - k) - base,
                     'height above the baseline', 1e-3)
    else:
        ctx.check(ctx.all([t == 0, h == 0]), 'no vertex in the readout')


SHAPES = [(8.0, 10.0, 8.0), (9.0, 10.0, 6.0), (4.0, 10.0, 9.5),
          (9.5, 10.0, -3.0), (-2.0, 10.0, -2.0), (9.9, 10.0, 2.0)]


def crossing(ctx, w, xs, level):
    """first position, walking along xs, where the samples fall to level"""
    for i, j in zip(xs, xs[1:]):
        if ctx.fork(ctx.all([w[i] >= level, level >= w[j], w[i] > w[j]])):
            return i, j
    return None


def check_distance(ctx, got, w, a, la, b, lb, label):
    """got = position of crossing a - position of crossing b, or NaN"""
    nan = ctx.isnan(got)
    if a is None or b is None:
        ctx.check(nan, label + ': NaN without a crossing')
        return
    ctx.check(ctx.neg(nan), label + ': a number')
    pa = a[0] + (la - w[a[0]]) * (a[1] - a[0]) / (w[a[1]] - w[a[0]])
    pb = b[0] + (lb - w[b[0]]) * (b[1] - b[0]) / (w[b[1]] - w[b[0]])
    ctx.check_eq(got, pa - pb, label, 1e-3)


def start(ctx, lead, shapes, given=True):
    """the pulse at the start of the readout, inside the ten samples the
    baseline is taken from"""
    tri = ctx.choice('shape', shapes)
    w = [ctx.real(f'l{s}', -5, 9) for s in range(lead)]
    w += list(tri) + [0.0] * 9
    n = len(w)
    k = lead + 1
    kw = dict(t_extract=k, window_shift=1, window_size=3) if given else {}
    got = timing(ctx, 1, n, **kw).process(ctx.const([w]))
    base = mean(w[:10])
    y0, y1, y2 = tri
    t = 0.5 * (y0 - y2) / (y0 - 2 * y1 + y2)
    h = y1 - 0.25 * (y0 - y2) * t
    half = base + (h - base) / 2
    t10, t90 = base + 0.1 * (h - base), base + 0.9 * (h - base)
    # (no level exactly at, and none close to, a sample)
    ctx.assume(ctx.all([ctx.any([v - lv > 1e-3, lv - v > 1e-3])
                        for v in w[:lead + 3] for lv in (half, t10, t90)]))
    ctx.check_eq(got['t_pulse'][0], t + k, 'peak time', 1e-3)
    ctx.check_eq(got['t_pulse_amp'][0], h - base, 'peak height', 1e-3)
    i = round(t + k)
    back = list(range(i, -1, -1))
    r = crossing(ctx, w, list(range(i, n)), half)
    lft = crossing(ctx, w, back, half)
    c90 = crossing(ctx, w, back, t90)
    c10 = crossing(ctx, w, back, t10)
    check_distance(ctx, got['fwhm'][0], w, r, half, lft, half, 'fwhm')
    check_distance(ctx, got['t_rise'][0], w, c90, t90, c10, t10, 'rise time')


def extraction(ctx, n_samp, where):
    """the window lies around the maximum of the average waveform, kept 10
    samples from the ends"""
    rows = [[-50.0 - p - 0.5 * (s % 3) for s in range(n_samp)]
            for p in range(2)]
    for s in where:
        rows[1][s] = ctx.real(f'w{s}', -60, 100)
    a = ctx.const(rows)
    got = timing(ctx, 2, n_samp).process(a)
    avg = [rows[0][s] + rows[1][s] for s in range(n_samp)]
    k = 0
    for s in range(1, n_samp):
        if ctx.fork(avg[s] > avg[k]):
            k = s
    k = min(max(k, 10), n_samp - 10)
    ctx.check_eq(got['t_event'], k, 'maximum of the average waveform', 0)
    exp = timing(ctx, 2, n_samp, t_extract=k).process(a)
    for c in ('t_pulse', 't_pulse_amp'):
        for p in range(2):
            x, y = got[c][p], exp[c][p]
            n = ctx.isnan(x), ctx.isnan(y)
            ctx.check(ctx.any([ctx.all(n), ctx.all([ctx.neg(n[0]),
                                                    ctx.neg(n[1])])]),
                      'the window lies around it: ' + c)
            if ctx.fork(ctx.neg(n[0])):
                ctx.check_eq(x, y, 'the window lies around it: ' + c, 1e-6)


GOOD = [0.0] * 11 + [1.0, 6.0, 10.0, 6.0, 1.0]


def shape(ctx, left, right, shapes, second=False, given=True, dtype=None,
          level=None, pre=0, far=False, top=9):
    """baseline of 10 samples, left, the peak triple, right"""
    tri = ctx.choice('shape', shapes)
    n = 10 + pre + left + 3 + right
    base = level if level is not None else ctx.choice('base', [0.0, -2.5])
    w = [base] * (10 + pre)
    w += [ctx.real(f'l{s}', -5, top) for s in range(left)]
    w += list(tri)
    w += [ctx.real(f'r{s}', -5, top) for s in range(right)]
    if not given:
        w += [base] * 9
        n += 9
    k = 10 + pre + left + 1
    rows = [w]
    if second:
        rows = [[1.0 + 0.1 * s for s in range(n)], w]
    if second == 'good':
        rows = [[GOOD[s - k + 13] if 0 <= s - k + 13 < 16 else 0.0
                 for s in range(n)], w]
    kw = dict(t_extract=k, window_shift=1, window_size=3) if given else {}
    if far:
        kw = dict(t_extract=k, window_shift=0, window_size=1)
    a = ctx.const(rows)
    if dtype:
        a = a.astype(dtype)
    got = timing(ctx, len(rows), n, **kw).process(a)
    p = len(rows) - 1
    y0, y1, y2 = tri
    t = 0.5 * (y0 - y2) / (y0 - 2 * y1 + y2)
    h = y1 - 0.25 * (y0 - y2) * t
    half = base + (h - base) / 2
    t10, t90 = base + 0.1 * (h - base), base + 0.9 * (h - base)
    ctx.assume(ctx.all([w[0] != half, w[0] != t10, w[0] != t90]))
    ctx.check_eq(got['t_pulse'][p], t + k, 'peak time', 1e-3)
    ctx.check_eq(got['t_pulse_amp'][p], h - base, 'peak height', 1e-3)
    ctx.check_eq(got['t_event'], k, 'extraction time', 0)
    i = round(t + k)
    back = list(range(i, -1, -1))
    r = crossing(ctx, w, list(range(i, n)), half)
    lft = crossing(ctx, w, back, half)
    c90 = crossing(ctx, w, back, t90)
    c10 = crossing(ctx, w, back, t10)
    check_distance(ctx, got['fwhm'][p], w, r, half, lft, half, 'fwhm')
    check_distance(ctx, got['t_rise'][p], w, c90, t90, c10, t10, 'rise time')
    ctx.check_eq(a, rows, 'waveforms unchanged', 1e-4)


CASES = [
    dict(name='peak1', fn=peak, params=dict(n=4, lo=1, hi=2)),
    dict(name='peak2', fn=peak, params=dict(n=4, lo=1, hi=3)),
    dict(name='edge', fn=peak, params=dict(n=4, lo=0, hi=4)),
    dict(name='left', fn=shape, params=dict(left=3, right=1, shapes=SHAPES)),
    dict(name='right', fn=shape, params=dict(left=1, right=3,
                                             shapes=SHAPES)),
    dict(name='second', fn=shape, params=dict(
        left=1, right=2, shapes=SHAPES[:2], second=True)),
    dict(name='after', fn=shape, params=dict(
        left=1, right=1, shapes=SHAPES, second='good')),
    dict(name='far', fn=shape, params=dict(
        left=2, right=3, shapes=[(3.9, 8.0, 11.0)], far=True, top=16)),
    dict(name='event', fn=extraction, params=dict(
        n_samp=26, where=[12, 16, 21])),
    dict(name='event2', fn=extraction, params=dict(
        n_samp=24, where=[3, 10, 15])),
    dict(name='f32', fn=shape, params=dict(
        left=1, right=1, shapes=SHAPES[:2], dtype='float32')),
    dict(name='found', fn=shape, params=dict(
        left=1, right=1, shapes=SHAPES[:3], given=False)),
    dict(name='start1', fn=start, params=dict(lead=1, shapes=SHAPES)),
    dict(name='start2', fn=start, params=dict(lead=2, shapes=SHAPES[:4])),
    dict(name='start0', fn=start, params=dict(lead=0, shapes=SHAPES)),
    dict(name='late', fn=shape, params=dict(
        left=1, right=1, shapes=SHAPES[:3], pre=100)),
    dict(name='late2', fn=shape, params=dict(
        left=1, right=1, shapes=SHAPES[:2], pre=100, given=False)),
    dict(name='both', fn=shape, tier='thorough', params=dict(
        left=3, right=3, shapes=SHAPES)),
    dict(name='peak3', fn=peak, tier='thorough', params=dict(n=5, lo=1,
                                                             hi=4)),
]

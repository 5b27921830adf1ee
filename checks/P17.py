"""Cross-correlation charge, height and time of the pulses."""
import os
import warnings
import lib

BOUNDS = ('1-3 pixels of 3-7 (or 128) samples with arbitrary values (float64 and '
          'float32), 4 reference pulses of 3 to 6 samples (symmetric, steep '
          'rise, late peak, undershoot), also listed off the 1 ns grid '
          'or with x not starting at the peak; arbitrary neighbour lists of '
          '3 pixels; pulses of arbitrary charge at every position inside the '
          'readout')
ASSUMPTIONS = ['arithmetic is over the reals',
               'the largest cross-correlation exceeds the others, and the '
               'vertex the ends of the readout, by more than rounding '
               '(1e-3)',
               'the reference pulse file lists the pulse from 0 in 1 ns '
               'steps (or half of that, all knots used)',
               'ctapipe\'s neighbor_average_waveform averages the neighbours '
               'and lwt times the pixel']
# small integers, with powers of two as area and as sum of squares
MARGIN = 2.0**-10
PULSES = dict(
    rise=[1.0, 3.0, 2.0, -1.0, -1.0], late=[0.0, 1.0, 1.0, 3.0, 2.0, 1.0, 0.0],
    early=[0.0, 5.0, 2.0, 1.0, 1.0, -1.0, 0.0],
    flat=[1.0, 2.0, 3.0, -1.0, -1.0], sym=[0.0, 1.0, 3.0, 1.0, 0.0],
    three=[0.0, 4.0, 2.0, 1.0])


def mean(xs):
    t, n = 0, 0
    for x in xs:
        t = t + x
        n += 1
    return t / n


def reference(ctx, y, fine=False):
    """the file: the pulse at 0, 1, .. ns (and, if fine, in between)"""
    p = os.path.join(ctx.tmpdir(), 'reference.dat')
    with open(p, 'w') as f:
        for i, v in enumerate(y):
            f.write(f'{i}e-9 {v}\n')
            if fine and i + 1 < len(y):
                f.write(f'{i}.5e-9 {(v + y[i + 1]) / 2}\n')
    return p


def template(y):
    """the pulse normalised to its own cross-correlation, its area and the
    sample of its peak"""
    area = sum((a + b) / 2 for a, b in zip(y, y[1:]))
    one = [v / area for v in y]
    am = y.index(max(y))
    return ([v / max(sum(one[k] * y[k - j] for k in range(len(y))
                         if 0 <= k - j < len(y))
                     for j in range(-len(y), len(y))) for v in y], one, am)


def cc(rows, y, am):
    """at sample s: the pulse laid over the waveform with its peak at s"""
    n = len(rows[0])
    out = []
    for row in rows:
        r = []
        for s in range(n):
            t = 0
            for k, v in enumerate(y):
                if 0 <= s + k - am < n:
                    t = t + v * row[s + k - am]
            r.append(t)
        out.append(r)
    return out


def argmax(ctx, xs):
    best = 0
    for s in range(1, len(xs)):
        if ctx.fork(xs[s] > xs[best]):
            best = s
    ctx.assume(ctx.all([xs[best] > x + MARGIN for s, x in enumerate(xs)
                        if s != best]))
    return best


def check_time(ctx, t, c, k, label):
    """the vertex of the parabola; the sample where there is none"""
    n = len(c)
    if not 0 < k < n - 1:
        ctx.check_eq(t, k, label + ' at the edge', 1e-6)
        return
    y0, y1, y2 = c[k - 1], c[k], c[k + 1]
    a, b = y0 - y2, y0 - 2 * y1 + y2

    def inside(m):
        return ctx.any([
            ctx.all([b < 0, a <= -2 * k * b - m, a >= 2 * (n - k) * b + m]),
            ctx.all([b > 0, a >= -2 * k * b + m, a <= 2 * (n - k) * b - m])])
    ctx.assume(ctx.any([inside(MARGIN), ctx.neg(inside(-MARGIN))]))
    if ctx.fork(inside(MARGIN)):
        ctx.check_eq(2 * b * (t - k), a, label, 1e-3)
    else:
        ctx.check_eq(t, k, label + ' without a vertex', 1e-6)


def build(ctx, name, n_pix, n_samp, path, **kw):
    warnings.simplefilter('ignore')
    m = ctx.load('CHECLabPy.waveform_reducers.cross_correlation')
    return getattr(m, name)(n_pix, n_samp, reference_pulse_path=path, **kw)


def waveforms(ctx, n_pix, n_samp, dtype=None, sym=None):
    rows = [[float((3 * p + 5 * s) % 7) for s in range(n_samp)]
            for p in range(n_pix)]
    for p in range(n_pix):
        for s in (range(n_samp) if sym is None else sym):
            rows[p][s] = ctx.real(f'w{p}_{s}', -100, 100)
    a = ctx.const(rows)
    return (a.astype(dtype) if dtype else a), rows


def average(ctx, n_pix, n_samp, pulses, dtype=None, sym=None, fine=False):
    """one extraction sample for the camera"""
    y = PULSES[ctx.choice('pulse', pulses)]
    a, rows = waveforms(ctx, n_pix, n_samp, dtype, sym)
    got = build(ctx, 'CrossCorrelation', n_pix, n_samp,
                reference(ctx, y, fine)).process(a)
    t, one, am = template(y)
    c = cc(rows, t, am)
    k = argmax(ctx, [mean(r[s] for r in c) for s in range(n_samp)])
    ctx.check_eq(list(got['charge_cc']), [r[k] for r in c],
                 'charge at the maximum of the average', 1e-3)
    ctx.check_eq(list(got['height_cc']), [r[k] * max(one) for r in c],
                 'height', 1e-3)
    for p in range(n_pix):
        check_time(ctx, got['t_cc'][p], c[p], k, 'time')
    ctx.check_eq(a, rows, 'waveforms unchanged', 1e-4)


def local(ctx, n_pix, n_samp, pulses):
    """an extraction sample for each pixel"""
    y = PULSES[ctx.choice('pulse', pulses)]
    a, rows = waveforms(ctx, n_pix, n_samp)
    got = build(ctx, 'CrossCorrelationLocal', n_pix, n_samp,
                reference(ctx, y)).process(a)
    t, one, am = template(y)
    c = cc(rows, t, am)
    for p in range(n_pix):
        k = argmax(ctx, c[p])
        ctx.check_eq(got['charge_cc_local'][p], c[p][k],
                     'charge at the maximum of the pixel', 1e-3)
        ctx.check_eq(got['height_cc_local'][p], c[p][k] * max(one),
                     'height of the pixel', 1e-3)
        check_time(ctx, got['t_cc_local'][p], c[p], k, 'time of the pixel')
    ctx.check_eq(a, rows, 'waveforms unchanged', 1e-4)


def neighbour(ctx, n_pix, n_samp, pulses):
    """the maximum of the average of the neighbours"""
    y = PULSES[ctx.choice('pulse', pulses)]
    pairs = [(p, q) for p in range(n_pix) for q in range(p)]
    on = [e for e in pairs if ctx.choice('edge%d_%d' % e, [True, False])]
    edges = sorted(on + [(q, p) for p, q in on])
    a, rows = waveforms(ctx, n_pix, n_samp)
    df = lib.camera(ctx, n_pix, edges)
    got = build(ctx, 'CrossCorrelationNeighbour', n_pix, n_samp,
                reference(ctx, y), mapping=df).process(a)
    t, one, am = template(y)
    c = cc(rows, t, am)
    for p in range(n_pix):
        nb = [q for z, q in edges if z == p]
        avg = [mean(c[q][s] for q in nb) if nb else 0.0
               for s in range(n_samp)]
        k = argmax(ctx, avg)
        ctx.check_eq(got['charge_cc_nn'][p], c[p][k],
                     'charge at the maximum of the neighbours', 1e-3)
        ctx.check_eq(got['height_cc_nn'][p], c[p][k] * max(one),
                     'height of the pixel', 1e-3)
        check_time(ctx, got['t_cc_nn'][p], c[p], k, 'time of the pixel')
    ctx.check_eq(a, rows, 'waveforms unchanged', 1e-4)


def pulse(ctx, n_samp, pulses):
    """a pulse of area q gives the charge q at its position"""
    y = PULSES[ctx.choice('pulse', pulses)]
    _, one, am = template(y)
    o = ctx.choice('o', list(range(n_samp - len(y) + 1)))
    q = [ctx.real(f'q{p}', 0, 1000) for p in range(2)]
    ctx.assume(q[0] > 0.01)
    rows = [[q[p] * one[s - o] if 0 <= s - o < len(y) else 0.0
             for s in range(n_samp)] for p in range(2)]
    a = ctx.const(rows)
    path = reference(ctx, y)
    for name, tag in (('CrossCorrelation', ''),
                      ('CrossCorrelationLocal', '_local')):
        got = build(ctx, name, 2, n_samp, path).process(a)
        for p in range(2):
            ctx.check_eq(got['charge_cc' + tag][p], q[p],
                         'charge of the pulse', 1e-6)
            ctx.check_eq(got['height_cc' + tag][p], q[p] * max(one),
                         'height of the pulse', 1e-6)
        t = got['t_cc' + tag][0]
        k = o + am
        if 0 < k < n_samp - 1:
            ctx.check(ctx.all([t >= k - 0.5, t <= k + 0.5]),
                      'time of the pulse')
        else:
            ctx.check_eq(t, k, 'time of the pulse at the edge', 1e-6)


def missing(ctx):
    """no reference pulse, no mapping: refused"""
    warnings.simplefilter('ignore')
    m = ctx.load('CHECLabPy.waveform_reducers.cross_correlation')
    for k in ('CrossCorrelation', 'CrossCorrelationLocal'):
        ctx.check(ctx.raises(lambda: getattr(m, k)(2, 5), ValueError)
                  is not None, 'no reference pulse')
    path = reference(ctx, PULSES['sym'])
    ctx.check(ctx.raises(lambda: m.CrossCorrelationNeighbour(
        2, 5, reference_pulse_path=path), ValueError) is not None,
        'no mapping')


CASES = [
    dict(name='average', fn=average, params=dict(
        n_pix=2, n_samp=5, pulses=['flat', 'rise'])),
    dict(name='long', fn=average, params=dict(
        n_pix=1, n_samp=7, pulses=['late', 'early'], sym=[1, 3, 4])),
    dict(name='short', fn=average, params=dict(
        n_pix=2, n_samp=3, pulses=list(PULSES))),
    dict(name='fine', fn=average, params=dict(
        n_pix=1, n_samp=5, pulses=['sym'], fine=True)),
    dict(name='f32', fn=average, params=dict(
        n_pix=2, n_samp=4, pulses=['rise'], dtype='float32')),
    dict(name='three', fn=average, params=dict(
        n_pix=3, n_samp=3, pulses=['three', 'flat'])),
    dict(name='full', fn=average, params=dict(
        n_pix=1, n_samp=128, pulses=['rise'], sym=[60, 61, 100])),
    dict(name='local', fn=local, params=dict(n_pix=2, n_samp=4,
                                             pulses=['rise', 'late'])),
    dict(name='neighbour', fn=neighbour, params=dict(
        n_pix=3, n_samp=3, pulses=['rise'])),
    dict(name='pulse', fn=pulse, params=dict(n_samp=8, pulses=list(PULSES))),
    dict(name='missing', fn=missing),
    dict(name='average3', fn=average, tier='thorough', params=dict(
        n_pix=3, n_samp=7, pulses=list(PULSES))),
    dict(name='local3', fn=local, tier='thorough', params=dict(
        n_pix=2, n_samp=6, pulses=list(PULSES))),
]

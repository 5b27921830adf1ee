"""Pulses found in a waveform by non-negative least squares."""
import math

MOD = 'CHECLabPy.waveform_reducers.nnls_pulse_extraction'

BOUNDS = ('solver: 5 models of 2-4 samples and 1-3 pulses of fixed shapes, '
          'every waveform up to 100 and every tolerance of -20 to 0; columns: '
          '1-3 pixels of such waveforms; the reference pulse itself is fixed')
ASSUMPTIONS = ['arithmetic is over the reals',
               'numpy.linalg.lstsq solves its least squares problem exactly']

MODELS = {
    'one': [[1], [2]],
    'apart': [[2, 0], [1, 1], [0, 2]],
    'close': [[3, 1], [2, 3], [1, 2]],
    'three': [[2, 0, 0], [1, 2, 0], [0, 1, 2], [0, 0, 1]],
    'spread': [[2, 1, 0], [1, 2, 1], [0, 1, 2], [0, 0, 1]],
    # (thorough)
    'four': [[2, 0, 0, 0], [1, 2, 0, 0], [0, 1, 2, 0], [0, 0, 1, 2],
             [0, 0, 0, 1]],
    'long': [[3, 2, 0], [2, 3, 1], [1, 2, 3], [0, 1, 2], [1, 0, 1]],
}


def solver(ctx, model):
    m = ctx.load(MOD)
    A = MODELS[model]
    n, k = len(A), len(A[0])
    b = ctx.reals('b', n, -100, 100)
    tol = ctx.real('tol', -20, 0)
    a = ctx.const(A)
    bb = ctx.const(b)
    x = m.nnls(a, bb, tolerance=tol) if ctx.choice('tol', [0, 1]) else None
    if x is None:
        tol = 0
        x = m.nnls(a, bb)
    ctx.check(len(x) == k, 'one amplitude per pulse')
    res = []
    for i in range(n):
        t = -b[i]
        for j in range(k):
            t = t + A[i][j] * x[j]
        res.append(t)
    for j in range(k):
        g = 0
        for i in range(n):
            g = g + A[i][j] * res[i]
        ctx.check(x[j] >= 0, 'no negative pulse')
        # (Karush-Kuhn-Tucker) the least squares among non-negative ones
        ctx.check(g >= tol - 1e-9, 'no pulse is missing')
        ctx.check(ctx.implies(x[j] > 0, ctx.all([g <= 1e-9, g >= -1e-9])),
                  'no pulse is too small or large')
    ctx.check_eq(list(bb), b, 'waveform unchanged', 0)


def extractor(ctx, m, n_pixels):
    import os
    path = os.path.join(ctx.tmpdir(), 'pulse.txt')
    t = [i * 1e-9 for i in range(60)]
    with open(path, 'w') as f:
        for v in t:
            f.write(f'{v} {math.exp(-((v - 12e-9) / 4e-9) ** 2)}\n')
    return m.NNLSPulseExtraction(n_pixels, 128, reference_pulse_path=path)


def template(ctx):
    """the model holds the reference pulse at every time of the basis"""
    m = ctx.load(MOD)
    e = extractor(ctx, m, 1)
    f = e.pulse_template
    ts = [float(v) for v in e.basis_t]
    ctx.check(len(ts) == e.model_matrix.shape[1] and
              e.model_matrix.shape[0] == 128, 'one column per time')
    ctx.check(all(a < b for a, b in zip(ts, ts[1:])), 'times in order')
    ctx.check(ts[0] <= 0 and abs(ts[-1] - 126e-9) < 1e-12 and
              max(b - a for a, b in zip(ts, ts[1:])) <= 1e-9,
              'times all over the readout')
    for i in range(0, len(ts), 7):
        for k in range(128):
            ctx.check(abs(float(e.model_matrix[k, i]) -
                          float(f(k * 1e-9 - ts[i]))) < 1e-9,
                      'reference pulse at the time')
    for v in (12e-9, 20e-9, 8e-9):
        ctx.check(abs(float(f(v)) - math.exp(-((v - 12e-9) / 4e-9) ** 2))
                  < 1e-9, 'the pulse of the file')
    ctx.check(float(f(-1e-9)) == 0 and float(f(70e-9)) == 0,
              'nothing outside of the pulse')


def columns(ctx, n, model, times, save=True, full=True):
    m = ctx.load(MOD)
    e = extractor(ctx, m, n)
    e.save_pulses = save
    A = MODELS[model]
    k = len(A[0])
    e.model_matrix = ctx.const(A)
    e.basis_t = ctx.const(times)
    w = [ctx.reals(f'w{i}_', len(A), -100, 100) for i in range(n)]
    wf = ctx.const(w)
    d = e.process(wf)
    amp = [list(m.nnls(ctx.const(A), ctx.const(r), tolerance=e.tolerance))
           for r in w]
    evt, pulses = [], []
    for i in range(n):
        ps = [(times[j], amp[i][j] * 7) for j in range(k)
              if ctx.fork(amp[i][j] > 0)]
        pulses.append(ps)
        if ps:
            t = q = 0
            for a, b in ps:
                t, q = t + a * b, q + b
            evt.append(t / q)
    if full:
        ctx.assume(len(evt) == n)
    av = 0
    for v in evt:
        av = av + v
    for i, ps in enumerate(pulses):
        tot = got = rest = big = 0
        for t, q in ps:
            tot = tot + q
            if full:
                x = ctx.abs(t * n - av)
                ctx.assume(ctx.any([x < 4.999e-9 * n, x > 5.001e-9 * n]))
                near = x <= 5e-9 * n
                got = got + ctx.ite(near, q, 0)
                rest = rest + ctx.ite(near, 0, q)
                big = ctx.ite(ctx.all([near, q > big]), q, big)
        ctx.check_eq(d['charge_nnls'][i], tot, 'charge of all pulses')
        if full:
            ctx.check_eq(d['nnls_tcharge'][i], got,
                         'charge within 5 ns of the event')
            ctx.check_eq(d['nnls_tccharge'][i], rest, 'charge elsewhere')
            ctx.check_eq(d['nnls_tmcharge'][i], big, 'largest pulse in time')
        ctx.check_eq(d['nnls_tcharge'][i] + d['nnls_tccharge'][i], tot,
                     'in time and elsewhere make the charge')
        ctx.check(d['nnls_tmcharge'][i] <= d['nnls_tcharge'][i] + 1e-9,
                  'largest of those in time')
        ctx.check_eq(d['nnls_npulses'][i], len(ps), 'number of pulses', 0)
        ctx.check_eq(d['nnls_errata'][i], False, 'no errata', 0)
        if save and ps:
            ctx.check_eq([list(r) for r in e.pulses[i]],
                         [list(r) for r in ps], 'pulses kept')
        else:
            ctx.check(i not in e.pulses, 'no pulses kept')
    ctx.check_eq([list(r) for r in wf], w, 'waveforms unchanged', 0)
    keep = [d['charge_nnls'][i] for i in range(n)]
    z = e.process(ctx.const([[0.0] * len(A)] * n))
    ctx.check(all(z[c][i] == 0 for c in z if c not in (
        'nnls_norm', 'nnls_errata') for i in range(n)),
        'nothing in an event without pulses')
    ctx.check(len(e.pulses) == 0, 'no pulses of the event before')
    ctx.check_eq([d['charge_nnls'][i] for i in range(n)], keep,
                 'earlier result unchanged', 0)
    ctx.check(set(d) == {'charge_nnls', 'nnls_tcharge', 'nnls_tmcharge',
                         'nnls_tccharge', 'nnls_norm', 'nnls_npulses',
                         'nnls_errata'}, 'columns')


CASES = [dict(name='solver_' + k, fn=solver, params=dict(model=k),
              tier='thorough' if k in ('four', 'long') else 'quick')
         for k in MODELS] + [
    dict(name='template', fn=template, params={}),
    dict(name='pair', fn=columns, params=dict(
        n=2, model='apart', times=[10e-9, 17e-9])),
    dict(name='empty', fn=columns, params=dict(
        n=2, model='apart', times=[10e-9, 17e-9], save=False, full=False)),
    dict(name='single', fn=columns, params=dict(
        n=1, model='spread', times=[10e-9, 17e-9, 30e-9])),
    dict(name='three', fn=columns, params=dict(
        n=3, model='one', times=[10e-9], full=False)),
]

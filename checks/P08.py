"""Rolling baseline subtraction, event shifting, averaging, dead pixels."""
import lib

BOUNDS = ('runs of 1-4 and 12 events, 1-2 pixels, 1-3 samples, rolling windows '
          'of 1-3 and 11 events and 1-2 samples, 1-5 subtractions of arbitrary '
          'waveforms; shifts by every integer in [-n-1, n+1] samples; '
          'averages over 1-2 events of 2 pixels x 3 samples; dead-pixel '
          'searches over 1-3 events of 3 pixels')
ASSUMPTIONS = ['arithmetic is over the reals']


def events(ctx, n_ev, n_pix, n_samp, tag='e'):
    W = ctx.load('CHECLabPy.core.io.waveform').Waveform
    return [W(ctx.array(f'{tag}{i}', (n_pix, n_samp), -100, 100),
              iev=i if tag == 'e' else 2 * i)
            for i in range(n_ev)]


def content(wf):
    return [[wf[p, s] for s in range(wf.shape[1])]
            for p in range(wf.shape[0])]


def mean(xs):
    t = 0
    n = 0
    for x in xs:
        t = t + x
        n += 1
    return t / n


def rolling(ctx, n_ev, n_base, n_bs, n_sub, n_pix=1, n_samp=2, default=False):
    """baseline = mean over the last n_base events, the first ones of the
    run standing in until enough have been processed"""
    evs = events(ctx, n_ev, n_pix, n_samp)
    new = events(ctx, n_sub, n_pix, n_samp, 'x')
    orig = [content(e) for e in evs]
    newo = [content(e) for e in new]
    m = ctx.load('CHECLabPy.utils.waveform')
    b = m.BaselineSubtractor(lib.Source(evs, n_pix, n_samp),
                             n_base=n_base, n_base_samples=n_bs)
    size = min(n_base, n_ev)
    window = [orig[i] for i in range(size)]
    for k in range(n_sub):
        out = b.subtract(new[k])
        window[k % size] = newo[k]
        ctx.check(out.shape == (n_pix, n_samp), 'shape')
        for p in range(n_pix):
            base = mean(w[p][s] for w in window for s in range(n_bs))
            for s in range(n_samp):
                ctx.check_eq(out[p, s], newo[k][p][s] - base,
                             'rolling baseline')
    ctx.check_eq([content(e) for e in new], newo, 'events unchanged', 0)
    ctx.check_eq([content(e) for e in evs], orig, 'source unchanged', 0)
    ctx.observe('out', out)


def shift(ctx, n_pix, n_samp):
    m = ctx.load('CHECLabPy.utils.waveform')
    a = ctx.array('a', (n_pix, n_samp), -100, 100)
    before = content(a)
    k = ctx.int('k', -n_samp - 1, n_samp + 1)
    fill = ctx.real('fill', -10, 10)
    out = m.shift_array(a, k, fill)
    ctx.check(out.shape == (n_pix, n_samp), 'shape')
    k = next(i for i in range(-n_samp - 1, n_samp + 2) if ctx.fork(k == i))
    for p in range(n_pix):
        for s in range(n_samp):
            e = before[p][s - k] if 0 <= s - k < n_samp else fill
            ctx.check_eq(out[p, s], e, 'sample s holds sample s-k')
    ctx.check_eq(content(a), before, 'input unchanged', 0)
    ctx.observe('out', out)


def peak_of(ctx, wf):
    """first sample of the maximum of the pixel average"""
    n = len(wf[0])
    avg = [mean(w[s] for w in wf) for s in range(n)]
    best = 0
    for s in range(1, n):
        if ctx.fork(avg[s] > avg[best]):
            best = s
    return best


def shifted(wf, k):
    n = len(wf[0])
    return [[w[s - k] if 0 <= s - k < n else 0 for s in range(n)] for w in wf]


def align(ctx, n_pix, n_samp):
    m = ctx.load('CHECLabPy.utils.waveform')
    a = ctx.array('a', (n_pix, n_samp), -100, 100)
    before = content(a)
    t = ctx.choice('t', list(range(n_samp)))
    out = m.shift_waveform(a, t)
    k = t - peak_of(ctx, before)
    ctx.check_eq(out, shifted(before, k), 'peak of the average moved to t')
    ctx.check_eq(content(a), before, 'input unchanged', 0)
    ctx.observe('out', out)


def average(ctx, n_ev, n_pix, n_sym, t, per_pixel, n_samp=17):
    """n_sym samples are arbitrary, the others low (a flat waveform included)
    """
    W = ctx.load('CHECLabPy.core.io.waveform').Waveform
    evs = []
    for i in range(n_ev):
        a = ctx.array(f'e{i}', (n_pix, n_sym), -300, 100)
        w = ctx.const([[-300.0] * n_samp] * n_pix)
        w[:, :n_sym] = a
        evs.append(W(w, iev=i))
    orig = [content(e) for e in evs]
    m = ctx.load('CHECLabPy.utils.waveform')
    src = lib.Source(evs, n_pix, n_samp)
    f = m.get_average_wf_per_pixel if per_pixel else m.get_average_wf
    out = f(src, t)
    tot = [[0] * n_samp for _ in range(n_pix)]
    for e in range(n_ev):
        # the first events of the run fill the window, so that the baseline
        # is the mean over all events here (n_ev <= 50) of 16 samples
        sub = []
        for p in range(n_pix):
            base = mean(o[p][s] for o in orig for s in range(16))
            sub.append([orig[e][p][s] - base for s in range(n_samp)])
        sh = shifted(sub, t - peak_of(ctx, sub))
        for p in range(n_pix):
            for s in range(n_samp):
                tot[p][s] = tot[p][s] + sh[p][s]
    if per_pixel:
        exp = [[x / n_ev for x in r] for r in tot]
        ctx.check(out.shape == (n_pix, n_samp), 'shape')
    else:
        exp = [mean(tot[p][s] for p in range(n_pix)) / n_ev
               for s in range(n_samp)]
        ctx.check(out.shape == (n_samp,), 'shape')
    ctx.check_eq(out, exp, 'average of the aligned events')
    ctx.check_eq([content(e) for e in evs], orig, 'events unchanged', 0)
    ctx.observe('out', out)


def dead(ctx, n_ev, n_pix, n_samp, max_events):
    evs = events(ctx, n_ev, n_pix, n_samp)
    orig = [content(e) for e in evs]
    thr = ctx.real('thr', 0, 1)
    m = ctx.load('CHECLabPy.utils.waveform')
    out = m.obtain_dead_pixel_list_r1(lib.Source(evs, n_pix, n_samp), thr,
                                      max_events)
    n = min(n_ev, max_events)
    height = [ctx.max([mean(orig[e][p][s] for e in range(n))
                       for s in range(n_samp)]) for p in range(n_pix)]
    cut = mean(height) * thr
    got = [int(i) for i in out]
    ctx.check(sorted(set(got)) == got, 'a list of pixels')
    for p in range(n_pix):
        if p in got:
            ctx.check(height[p] < cut, 'a dead pixel is below the threshold')
        else:
            ctx.check(height[p] >= cut, 'a pixel below the threshold is dead')


CASES = [
    dict(name='rolling', fn=rolling,
         params=dict(n_ev=3, n_base=2, n_bs=2, n_sub=5)),
    dict(name='rolling3', fn=rolling,
         params=dict(n_ev=4, n_base=3, n_bs=1, n_sub=4, n_pix=2, n_samp=3)),
    dict(name='short', fn=rolling,
         params=dict(n_ev=2, n_base=3, n_bs=2, n_sub=3)),
    dict(name='long', fn=rolling,
         params=dict(n_ev=12, n_base=11, n_bs=1, n_sub=2, n_samp=1)),
    dict(name='single', fn=rolling,
         params=dict(n_ev=1, n_base=1, n_bs=1, n_sub=2)),
    dict(name='shift', fn=shift, params=dict(n_pix=2, n_samp=3)),
    dict(name='shift1', fn=shift, params=dict(n_pix=1, n_samp=1)),
    dict(name='align', fn=align, params=dict(n_pix=2, n_samp=3)),
    dict(name='average', fn=average,
         params=dict(n_ev=2, n_pix=2, n_sym=2, t=0, per_pixel=False)),
    dict(name='perpixel', fn=average,
         params=dict(n_ev=2, n_pix=2, n_sym=2, t=1, per_pixel=True)),
    dict(name='dead', fn=dead,
         params=dict(n_ev=2, n_pix=3, n_samp=2, max_events=5)),
    dict(name='deadmax', fn=dead,
         params=dict(n_ev=3, n_pix=2, n_samp=1, max_events=2)),
    dict(name='rolling5', fn=rolling, tier='thorough',
         params=dict(n_ev=5, n_base=4, n_bs=3, n_sub=9, n_pix=2, n_samp=3)),
    dict(name='average3', fn=average, tier='thorough',
         params=dict(n_ev=3, n_pix=2, n_sym=3, t=1, per_pixel=False)),
    dict(name='perpixel3', fn=average, tier='thorough',
         params=dict(n_ev=2, n_pix=3, n_sym=4, t=2, per_pixel=True)),
    dict(name='dead4', fn=dead, tier='thorough',
         params=dict(n_ev=2, n_pix=4, n_samp=3, max_events=2)),
]

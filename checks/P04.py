"""Amplitude matching: the sequence of DACs sent to the camera."""
BOUNDS = ('full camera (512 superpixels) of which 1-2 are live and the rest '
          'flagged bad-HV; up to 4 (thorough 6) successive files; start DACs '
          'any integer in [10, 255], measured amplitudes any real in '
          '[0, 200] per file, 1-2 events of 1-2 samples per file')
ASSUMPTIONS = ['arithmetic is over the reals',
               'the TARGET calibrator and file reader are stand-ins that '
               'deliver arbitrary waveforms', 'start DACs are a signed '
               'integer array']
NPIX, NSP = 2048, 512
AIM = 50
STEPS = {0: 10, 1: 5, 2: 1}


class Calibrator:
    """stands for the TARGET calibration of one event"""
    n_pixels = NPIX

    def __init__(self, n_samples):
        self.n_samples = n_samples
        self.tables = {}

    def __call__(self, wfs, fci):
        return self.tables[wfs.iev].copy()


class Source:
    n_pixels = NPIX

    def __init__(self, events, n_samples):
        self.events = events
        self.n_events = len(events)
        self.n_samples = n_samples

    def __len__(self):
        return self.n_events

    def __iter__(self):
        return iter(self.events)

    def __getitem__(self, i):
        return self.events[i]


def setup(ctx, n_samples, live, start, profile=None, per_pixel_hv=False):
    core_io = ctx.load('CHECLabPy.core.io')
    box = {}

    def reader(path, *a, **k):
        return box['source']
    ctx.patch(core_io, 'ReaderR0', reader)
    m = ctx.load('CHECLabPy.calib.amplitude_matcher')
    if hasattr(m, 'ReaderR0'):
        ctx.patch(m, 'ReaderR0', reader)
    cal = Calibrator(n_samples)
    dacs = ctx.const([100] * NSP)
    for i, d in zip(live, start):
        dacs[i] = d
    if per_pixel_hv:
        hv = ctx.const([(p // 4) not in live for p in range(NPIX)])
        # a superpixel is bad only when all of its pixels are
        for i in live:
            hv[4 * i] = True
    else:
        hv = ctx.const([i not in live for i in range(NSP)])
    am = m.AmplitudeMatcher(cal, AIM, starting_dacs=dacs, bad_hv=hv,
                            illumination_profile=profile)
    W = ctx.load('CHECLabPy.core.io.waveform').Waveform

    def deliver(tables):
        cal.tables = dict(enumerate(tables))
        box['source'] = Source(
            [W(ctx.const([[0.0] * n_samples] * 2), iev=i, first_cell_id=0)
             for i in range(len(tables))], n_samples)
    return am, deliver, dacs


def spec_start(start):
    return [dict(cur=d, prev=d, pd=None, stage=0) for d in start]


def spec_step(ctx, s, avg):
    """next DAC of one superpixel that is not masked"""
    if s['stage'] == 3:
        s['prev'] = s['cur']
        s['pd'] = ((avg - AIM) / AIM) ** 2
        return
    d = ((avg - AIM) / AIM) ** 2
    cur = s['cur']
    if s['pd'] is not None and ctx.fork(s['pd'] < d):
        nxt = s['prev']
        s['stage'] += 1
    else:
        step = STEPS[s['stage']]
        if ctx.fork(avg > AIM):
            nxt = cur + step
        elif ctx.fork(avg < AIM):
            nxt = cur - step
        else:
            nxt = cur
        if ctx.fork(nxt > 255) or ctx.fork(nxt < 10):
            nxt = 255
            s['stage'] = 3
    s['prev'], s['cur'], s['pd'] = cur, nxt, d


def sequence(ctx, calls, n_live, near=None, sym_start=True, per_pixel=False):
    """the DACs of every call against the matching rules"""
    live = [37, 400][:n_live]
    lo, hi = near or (10, 255)
    start = [ctx.int(f'd{i}', lo, hi) for i in range(n_live)] if sym_start \
        else [100] * n_live
    am, deliver, dacs = setup(ctx, 1, live, start, per_pixel_hv=per_pixel)
    spec = spec_start(start)
    global_stage = 0      # first pass, reset, second pass, done
    for t in range(calls):
        a = [ctx.real(f'a{t}_{i}', 0, 200) for i in range(n_live)]
        tab = ctx.const([[float(AIM)]] * NPIX)
        for i, x in zip(live, a):
            for k in range(4):
                tab[4 * i + k, 0] = x
        deliver([tab])
        out, amp, fin = am.process('/x')
        if global_stage == 1:
            for s in spec:
                s['stage'] = 2
                s['pd'] = None
            global_stage = 2
        if global_stage == 3:
            ctx.check(bool(fin), 'finished is reported after both passes')
        else:
            ctx.check(not bool(fin), 'not finished before')
            for s, x in zip(spec, a):
                spec_step(ctx, s, x)
            if all(s['stage'] == 3 for s in spec):
                global_stage += 1
        ctx.check(out.shape == (32, 16), 'shape of the DACs')
        flat = out.reshape(-1)
        for i, s in zip(live, spec):
            ctx.check_eq(flat[i], s['cur'], 'DAC of a live superpixel')
            ctx.check(ctx.all([flat[i] >= 10, flat[i] <= 255]), 'safe range')
        ctx.check(ctx.all(flat[i] == 255 for i in range(NSP)
                          if i not in live), 'bad-HV superpixels at 255')
        ctx.check(ctx.all(ctx.eq(amp[4 * i + k], x) for i, x in zip(live, a)
                          for k in range(4)), 'average amplitude')
    ctx.check_eq([dacs[i] for i in live], start, 'start DACs unchanged', 0)


def average(ctx, n_ev, n_samp, with_profile):
    """amplitude of a pixel: mean over events of the (unfolded) maximum"""
    profile = None
    prof = None
    if with_profile:
        prof = [ctx.real(f'f{k}', 0.5, 2) for k in range(4)]
        col = ctx.const([1.0] * NPIX)
        for k in range(4):
            col[4 * 7 + k] = prof[k]
        ctx.csv('prof.dat', pixel=ctx.const(list(range(NPIX))),
                correction=col)
        ip = ctx.load('CHECLabPy.calib.illumination_profile')
        profile = ip.IlluminationProfile('/x/prof.dat')
    start = ctx.int('d', 30, 200)
    am, deliver, dacs = setup(ctx, n_samp, [7], [start], profile=profile)
    tabs, mean = [], [0, 0, 0, 0]
    for e in range(n_ev):
        tab = ctx.const([[float(AIM)] * n_samp] * NPIX)
        for k in range(4):
            w = [ctx.real(f'w{e}_{k}_{s}', 0, 200) for s in range(n_samp)]
            for s in range(n_samp):
                tab[28 + k, s] = w[s]
            v = ctx.max(w)
            mean[k] = mean[k] + (v / prof[k] if prof else v)
        tabs.append(tab)
    mean = [x / n_ev for x in mean]
    deliver(tabs)
    out, amp, fin = am.process('/x')
    ctx.check(amp.shape == (NPIX,), 'one amplitude per pixel')
    ctx.check_eq([amp[28 + k] for k in range(4)], mean, 'amplitudes')
    tot = mean[0] + mean[1] + mean[2] + mean[3]
    flat = out.reshape(-1)
    ctx.check(ctx.implies(tot > 4 * AIM, flat[7] == start + 10),
              'too bright: DAC up')
    ctx.check(ctx.implies(tot < 4 * AIM, flat[7] == start - 10),
              'too faint: DAC down')
    ctx.check(ctx.implies(tot == 4 * AIM, flat[7] == start), 'on target')


CASES = [
    dict(name='seq3', fn=sequence, params=dict(calls=3, n_live=1)),
    dict(name='seq4edge', fn=sequence,
         params=dict(calls=5, n_live=1, near=(246, 255))),
    dict(name='two', fn=sequence, params=dict(calls=2, n_live=2)),
    dict(name='pixelhv', fn=sequence,
         params=dict(calls=1, n_live=2, per_pixel=True)),
    dict(name='average', fn=average,
         params=dict(n_ev=2, n_samp=1, with_profile=False)),
    dict(name='profile', fn=average,
         params=dict(n_ev=1, n_samp=1, with_profile=True)),
    dict(name='samples', fn=average,
         params=dict(n_ev=1, n_samp=2, with_profile=False)),
    dict(name='seq5', fn=sequence, params=dict(calls=5, n_live=1),
         tier='thorough'),
    dict(name='seq7edge', fn=sequence,
         params=dict(calls=7, n_live=1, near=(246, 255)), tier='thorough'),
    dict(name='two3', fn=sequence, params=dict(calls=3, n_live=2),
         tier='thorough'),
    dict(name='average3', fn=average,
         params=dict(n_ev=3, n_samp=2, with_profile=True), tier='thorough'),
]

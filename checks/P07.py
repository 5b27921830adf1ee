"""Event information travels with the waveforms; the event time is exact."""
import lib

BOUNDS = ('event times of any whole second in [0, 2^32) and any nanosecond '
          'in [0, 10^9), as Python ints and as numpy integers; waveforms of '
          '2 pixels x 3 samples; event numbers, first cell ids, stale flags, '
          'missing-packet counts and TACKs arbitrary')
ASSUMPTIONS = ['float arithmetic on the seconds is rounded to float64, as '
               'the hardware does']
FIELDS = ['iev', 'is_r1', 'first_cell_id', 'stale', 'missing_packets',
          't_tack', 'mc_true']


def build(ctx, W, samples, s, ns, tag=''):
    f = dict(iev=ctx.int(f'iev{tag}', 0, 10**9), is_r1=ctx.bool(f'r1{tag}'),
             first_cell_id=ctx.int(f'fci{tag}', 0, 16383),
             stale=ctx.bool(f'stale{tag}'),
             missing_packets=ctx.int(f'mp{tag}', 0, 64),
             t_tack=ctx.int(f'tack{tag}', 0, 2**62),
             mc_true=ctx.real(f'mc{tag}', 0, 100))
    return W(samples, t_cpu_container=(s, ns), **f), f


def eq_field(ctx, a, b):
    if isinstance(b, bool) or ctx.sym and type(b).__name__ == 'SymBool':
        return ctx.all([ctx.implies(a, b), ctx.implies(b, a)])
    return ctx.eq(a, b)


def check_fields(ctx, w, f, what):
    for k in FIELDS:
        ctx.check(eq_field(ctx, getattr(w, k), f[k]), f'{what}: {k}')


def exact_time(ctx, smax):
    W = ctx.load('CHECLabPy.core.io.waveform').Waveform
    s = ctx.f64int('s', 0, smax)
    ns = ctx.f64int('ns', 0, 10**9 - 1)
    w = W(ctx.const([[1.0, 2.0]]), iev=0, t_cpu_container=(s, ns))
    t = w.t_cpu
    ctx.check(t.value == s * 10**9 + ns, 'time is exact to the nanosecond')


def from_file(ctx):
    """the same through the TIO reader, whose events stay as they were"""
    n, r1 = 2, ctx.choice('r1file', [False, True])
    recs = []
    for i in range(n):
        v = [[ctx.real(f'v{i}_{k}', -100, 4000) if r1 else
              ctx.int(f'v{i}_{k}', 0, 65535) for k in range(2)]]
        recs.append(dict(
            samples=v, fci=ctx.int(f'fci{i}', 0, 16383),
            stale=ctx.bool(f'stale{i}'), missing=ctx.int(f'mp{i}', 0, 64),
            tack=ctx.int(f'tack{i}', 0, 2**63 - 1),
            s=ctx.f64int(f's{i}', 0, 2**32 - 1),
            ns=ctx.f64int(f'ns{i}', 0, 10**9 - 1)))
    lib.tio(ctx, recs, 1, 2, r1)
    m = ctx.load('CHECLabPy.core.io.tio')
    r = m.TIOReader(lib.touch(ctx))
    how = ctx.choice('how', ['iterate', 'slice', 'index'])
    if how == 'iterate':
        events = list(r)
    elif how == 'slice':
        events = list(r[0:n])
    else:
        events = [r[i] for i in range(n - 1, -1, -1)][::-1]
    ctx.check(len(events) == n, 'number of events')
    for i, (w, rec) in enumerate(zip(events, recs)):
        if how == 'slice':      # an array of the samples
            ctx.check_eq(w, rec['samples'], 'samples of several events',
                         1e-2)
            continue
        check_fields(ctx, w, dict(
            iev=i, is_r1=r1, first_cell_id=rec['fci'], stale=rec['stale'],
            missing_packets=rec['missing'], t_tack=rec['tack'],
            mc_true=None), 'event of a file')
        ctx.check(w.t_cpu.value == rec['s'] * 10**9 + rec['ns'],
                  'time of an event of a file')
        ctx.check_eq(w, rec['samples'], 'samples of an event of a file',
                     1e-2)


def propagate(ctx):
    W = ctx.load('CHECLabPy.core.io.waveform').Waveform
    a = ctx.array('a', (2, 3), -100, 100)
    w, f = build(ctx, W, a, 10, 20)
    op = ctx.choice('op', ['self', 'view', 'slice', 'fancy', 'mask', 'copy',
                           'sub', 'rsub', 'scale', 'neg', 'pixel',
                           'transpose', 'reshape', 'ufunc', 'compound'])
    r = {
        'self': lambda: w,
        'view': lambda: w.view(),
        'slice': lambda: w[:, 1:3],
        'fancy': lambda: w[[1, 0]],
        'mask': lambda: w[ctx.const([True, False])],
        'copy': lambda: w.copy(),
        'sub': lambda: w - ctx.const([[1.0], [2.0]]),
        'rsub': lambda: 5 - w,
        'scale': lambda: w * 2.5,
        'neg': lambda: -w,
        'pixel': lambda: w[0],
        'transpose': lambda: w.T,
        'reshape': lambda: w.reshape(3, 2),
        'ufunc': lambda: ctx.np.add(w, w),
        'compound': lambda: (w[:, :2] * 3 + 1)[1:],
    }[op]()
    ctx.check(isinstance(r, W), 'still a Waveform')
    check_fields(ctx, r, f, op)
    ctx.check(r.t_cpu.value == 10 * 10**9 + 20, f'{op}: t_cpu')
    # and the original keeps its own
    check_fields(ctx, w, f, 'original')


def separate(ctx):
    """two events do not share their information"""
    W = ctx.load('CHECLabPy.core.io.waveform').Waveform
    a = ctx.array('a', (1, 2), -100, 100)
    b = ctx.array('b', (1, 2), -100, 100)
    w, f = build(ctx, W, a, 1, 2, 'a')
    v, g = build(ctx, W, b, 3, 4, 'b')
    u = w[:, :1].copy()
    u.is_r1 = True
    u.iev = -1
    check_fields(ctx, w, f, 'first')
    check_fields(ctx, v, g, 'second')
    check_fields(ctx, w - v, f, 'difference')
    ctx.check_eq(w - v, [[a[0, k] - b[0, k] for k in range(2)]], 'values')


def default(ctx):
    W = ctx.load('CHECLabPy.core.io.waveform').Waveform
    a = ctx.array('a', (1, 2), -100, 100)
    i = ctx.int('i', 0, 10)
    w = W(a, i)
    check_fields(ctx, w, dict(iev=i, is_r1=False, first_cell_id=0,
                              stale=False, missing_packets=False, t_tack=0,
                              mc_true=None), 'defaults')
    ctx.check_eq(w, a, 'values', 0)


def calibrated(ctx):
    """the R1 calibration keeps the event information, and flags R1"""
    import types
    W = ctx.load('CHECLabPy.core.io.waveform').Waveform
    a = ctx.array('a', (2, 3), 0, 4095, kind='i', dtype='uint16')
    ped = ctx.array('p', (2, 3), 0, 1000)
    fci_sent, made = [], []

    class Calibrator:
        def __init__(self, path, sn=None):
            made.append((type(self), path, sn))

        def ApplyEvent(self, wf, fci, out):
            fci_sent.append(fci)
            for p in range(2):
                for s in range(3):
                    out[p, s] = wf[p, s] - ped[p, s]
    tc = types.ModuleType('target_calib')
    tc.Calibrator = Calibrator

    class CalibratorMultiFile(Calibrator):
        pass
    tc.CalibratorMultiFile = CalibratorMultiFile
    ctx.stub('target_calib', tc)
    m = ctx.load('CHECLabPy.calib.waveform')
    before = [[a[p, s] for s in range(3)] for p in range(2)]
    f = dict(iev=ctx.int('iev', 0, 10**9), is_r1=False,
             first_cell_id=ctx.int('fci', 0, 16383), stale=ctx.bool('st'),
             missing_packets=0, t_tack=ctx.int('ta', 0, 2**62), mc_true=None)
    w = W(a, t_cpu_container=(1, 2), **f)
    how = ctx.choice('how', ['one', 'several', 'reader'])
    sn = [ctx.int(f'sn{i}', 0, 200) for i in range(3)]
    if how == 'one':
        cal = m.WaveformCalibrator('/p', 2, 3)
    elif how == 'several':
        cal = m.WaveformCalibrator('/p', 2, 3, sn)
    else:
        cal = m.WaveformCalibrator.from_tio_reader(
            '/p', types.SimpleNamespace(
                get_sn=lambda tm: sn[tm], n_modules=3, n_pixels=2,
                n_samples=3))
    ctx.check(len(made) == 1 and made[0][1] == '/p', 'pedestal file')
    if how == 'one':
        ctx.check(made[0][0] is Calibrator, 'pedestal of one file')
    else:
        ctx.check(made[0][0] is CalibratorMultiFile, 'one per module')
        ctx.check_eq(list(made[0][2]), sn, 'serial numbers in order', 0)
    out = cal(w, w.first_cell_id)
    ctx.check_eq(out, [[before[p][s] - ped[p, s] for s in range(3)]
                       for p in range(2)], 'calibrated samples', 1e-2)
    check_fields(ctx, w, f, 'raw event')
    ctx.check_eq(w, before, 'raw samples', 0)
    check_fields(ctx, out, dict(f, is_r1=True), 'calibrated event')
    ctx.check(out.t_cpu.value == 10**9 + 2, 'time')
    ctx.check(len(fci_sent) == 1 and fci_sent[0].shape == (2,), 'fci shape')
    ctx.check_eq(fci_sent[0], [f['first_cell_id']] * 2, 'fci of each pixel',
                 0)


CASES = [
    dict(name='exact', fn=exact_time, params=dict(smax=2**32 - 1)),
    dict(name='file', fn=from_file),
    dict(name='propagate', fn=propagate),
    dict(name='separate', fn=separate),
    dict(name='default', fn=default),
    dict(name='calibrated', fn=calibrated),
]

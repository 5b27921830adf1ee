"""Time calibration: every pixel is shifted by its own correction, by linear
interpolation between neighbouring samples."""
BOUNDS = ('1-2 pixels, 3-5 samples (thorough: up to 3 pixels x 6 samples); '
          'any sample value in [-1000, 1000], any real or integer correction '
          'in [-2n, 2n] samples; float64 and float32 inputs')
ASSUMPTIONS = ['arithmetic on sample values is over the reals: rounding is '
               'outside the claim']


def harness(ctx, n_pix, n_samp, integer=False, dtype=None, twice=False):
    wf = ctx.array('w', (n_pix, n_samp), -1000, 1000, dtype=dtype)
    cmax = 2 * n_samp
    if integer:
        cor = [float(ctx.choice(f'c{p}', list(range(-cmax, cmax + 1))))
               for p in range(n_pix)]
        cor = ctx.const(cor)
    else:
        cor = ctx.array('c', (n_pix,), -cmax, cmax)
    ctx.csv('time_correction.dat', pixel=ctx.const(list(range(n_pix))),
            t_cor=cor)
    m = ctx.load('CHECLabPy.calib.time_calibrator')
    before = [[wf[p, s] for s in range(n_samp)] for p in range(n_pix)]
    cal = m.TimeCalibrator()
    out = cal(wf)
    if twice:
        out = cal(wf)
    ctx.check(out.shape == (n_pix, n_samp), 'shape')
    ctx.check_eq(wf, before, 'input unchanged', 0)
    for p in range(n_pix):
        for s in range(n_samp):
            x = s - cor[p]
            i = 0
            while i < n_samp - 2 and ctx.fork(x >= i + 1):
                i += 1
            exp = before[p][i] + (before[p][i + 1] - before[p][i]) * (x - i)
            ctx.check_eq(out[p, s], exp, 'interpolates', 1e-3)
    ctx.observe('out', out)


CASES = [
    dict(name='p1s5', fn=harness, params=dict(n_pix=1, n_samp=5)),
    dict(name='p2s3', fn=harness, params=dict(n_pix=2, n_samp=3, twice=True)),
    dict(name='p1s4int', fn=harness,
         params=dict(n_pix=1, n_samp=4, integer=True)),
    dict(name='p1s3f32', fn=harness,
         params=dict(n_pix=1, n_samp=3, dtype='float32')),
    dict(name='p2s5', fn=harness, params=dict(n_pix=2, n_samp=5),
         tier='thorough'),
    dict(name='p2s6int', fn=harness,
         params=dict(n_pix=2, n_samp=6, integer=True), tier='thorough'),
    dict(name='p1s12', fn=harness, params=dict(n_pix=1, n_samp=12),
         tier='thorough'),
    dict(name='p3s3', fn=harness, params=dict(n_pix=3, n_samp=3),
         tier='thorough'),
]

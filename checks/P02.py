"""Amplitude calibration and illumination-profile folding."""
BOUNDS = ('cameras of 1-4 pixels, 1-4 values (scalar, list of values, '
          'events x pixels table), every value, pedestal, flat-field '
          'coefficient and conversion in [-1000, 1000], conversion and '
          'profile bounded away from 0; whole amplitudes of 12 bit; every assignment of values to pixels')
ASSUMPTIONS = ['arithmetic is over the reals']


def scalar(ctx, n_cam):
    m = ctx.load('CHECLabPy.calib.amplitude_calibrator')
    ff = ctx.array('ff', n_cam, -10, 10)
    ped = ctx.array('ped', n_cam, -100, 100)
    conv = ctx.real('conv', 0.1, 100)
    v = ctx.real('v', -1000, 1000)
    pix = ctx.choice('pix', list(range(n_cam)))
    ac = m.AmplitudeCalibrator(ff, ped, conv)
    out = ac(v, pix)
    ctx.check_eq(out, (v - ped[pix]) * ff[pix] / conv, 'affine map')
    # a pedestal-sized amplitude is zero photoelectrons
    ctx.check_eq(ac(ped[pix], pix), 0, 'pedestal maps to zero')
    ctx.observe('out', out)


def vector(ctx, n_cam, n_val, via_pixels):
    m = ctx.load('CHECLabPy.calib.amplitude_calibrator')
    ff = ctx.array('ff', n_cam, -10, 10)
    ped = ctx.array('ped', n_cam, -100, 100)
    conv = ctx.real('conv', 0.1, 100)
    v = ctx.array('v', n_val, -1000, 1000)
    before = [v[i] for i in range(n_val)]
    if via_pixels:
        p = [ctx.choice(f'p{i}', list(range(n_cam))) for i in range(n_val)]
        pix = ctx.const(p)
    else:
        pix = ctx.array('p', n_val, 0, n_cam - 1, kind='i')
    coeff = [[ff[i] for i in range(n_cam)], [ped[i] for i in range(n_cam)]]
    out = m.AmplitudeCalibrator(ff, ped, conv)(v, pix)
    ctx.check(out.shape == (n_val,), 'shape')
    for i in range(n_val):
        e = None
        for c in range(n_cam):
            x = (before[i] - ped[c]) * ff[c] / conv
            e = x if e is None else ctx.ite(pix[i] == c, x, e)
        ctx.check_eq(out[i], e, 'affine map')
    ctx.check_eq(v, before, 'values unchanged', 0)
    ctx.check_eq([[ff[i] for i in range(n_cam)],
                  [ped[i] for i in range(n_cam)]], coeff,
                 'coefficients unchanged', 0)
    ctx.observe('out', out)


def whole(ctx, n_cam):
    """whole amplitudes (as read from the camera) are not rounded after it"""
    m = ctx.load('CHECLabPy.calib.amplitude_calibrator')
    ff = ctx.array('ff', n_cam, -10, 10)
    ped = ctx.array('ped', n_cam, -100, 100)
    conv = ctx.real('conv', 0.1, 100)
    v = ctx.array('v', n_cam, 0, 4095, kind='i')
    before = [v[i] for i in range(n_cam)]
    pix = ctx.const(list(range(n_cam))[::-1])
    out = m.AmplitudeCalibrator(ff, ped, conv)(v, pix)
    ctx.check_eq(list(out), [(a - ped[c]) * ff[c] / conv for a, c in
                             zip(before, reversed(range(n_cam)))],
                 'affine map')
    i = m.AmplitudeCalibrator(ff, ped, conv)(before[0], 0)
    ctx.check_eq(i, (before[0] - ped[0]) * ff[0] / conv, 'affine map')


def table(ctx, n_ev, n_pix):
    """events x pixels table, pixels in any order"""
    m = ctx.load('CHECLabPy.calib.amplitude_calibrator')
    ff = ctx.array('ff', n_pix, -10, 10)
    ped = ctx.array('ped', n_pix, -100, 100)
    conv = ctx.real('conv', 0.1, 100)
    v = ctx.array('v', (n_ev, n_pix), -1000, 1000)
    pix = ctx.array('p', n_pix, 0, n_pix - 1, kind='i')
    out = m.AmplitudeCalibrator(ff, ped, conv)(v, pix)
    ctx.check(out.shape == (n_ev, n_pix), 'shape')
    for e in range(n_ev):
        for i in range(n_pix):
            x = None
            for c in range(n_pix):
                y = (v[e, i] - ped[c]) * ff[c] / conv
                x = y if x is None else ctx.ite(pix[i] == c, y, x)
            ctx.check_eq(out[e, i], x, 'affine map')
    ctx.observe('out', out)


def profile(ctx, n, n_ev):
    m = ctx.load('CHECLabPy.calib.illumination_profile')
    prof = ctx.array('c', n, 0.1, 10)
    ctx.csv('prof.dat', pixel=ctx.const(list(range(n))), correction=prof)
    ip = m.IlluminationProfile('/x/prof.dat')
    shape = (n,) if n_ev == 0 else (n_ev, n)
    im = ctx.array('im', shape, -1000, 1000)
    before = im.copy()
    u = ip.unfold(im)
    f = ip.fold(im)
    ctx.check(u.shape == shape and f.shape == shape, 'shape')
    for i in (range(n) if n_ev == 0 else
              [(a, b) for a in range(n_ev) for b in range(n)]):
        j = i if n_ev == 0 else i[1]
        ctx.check_eq(u[i] * prof[j], before[i], 'unfold divides', 1e-5)
        ctx.check_eq(f[i], before[i] * prof[j], 'fold multiplies', 1e-5)
    ctx.check_eq(ip.fold(u), before, 'fold undoes unfold', 1e-5)
    ctx.check_eq(ip.unfold(f), before, 'unfold undoes fold', 1e-5)
    ctx.check_eq(im, before, 'image unchanged', 0)
    ctx.observe('u', u)


CASES = [
    dict(name='scalar', fn=scalar, params=dict(n_cam=3)),
    dict(name='vec', fn=vector,
         params=dict(n_cam=2, n_val=3, via_pixels=True)),
    dict(name='vecsym', fn=vector,
         params=dict(n_cam=3, n_val=2, via_pixels=False)),
    dict(name='vecsame', fn=vector,
         params=dict(n_cam=3, n_val=3, via_pixels=False)),
    dict(name='vecsame2', fn=vector,
         params=dict(n_cam=2, n_val=2, via_pixels=True)),
    dict(name='single', fn=vector,
         params=dict(n_cam=1, n_val=2, via_pixels=True)),
    dict(name='whole', fn=whole, params=dict(n_cam=3)),
    dict(name='table', fn=table, params=dict(n_ev=2, n_pix=3)),
    dict(name='table_sq', fn=table, params=dict(n_ev=2, n_pix=2)),
    dict(name='profile', fn=profile, params=dict(n=3, n_ev=0)),
    dict(name='profile2d', fn=profile, params=dict(n=2, n_ev=2)),
    dict(name='vec4', fn=vector,
         params=dict(n_cam=3, n_val=4, via_pixels=True), tier='thorough'),
    dict(name='profile8', fn=profile, params=dict(n=8, n_ev=0),
         tier='thorough'),
]

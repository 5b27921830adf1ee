"""Pixel masks: reading, superpixel expansion, union, merge, round trip."""
import os

import lib

BOUNDS = ('full camera (2048 pixels, 512 superpixels): every content of the '
          'dead, low and bad_hv columns; lists of 1-3 superpixels (any ids '
          'in 0-511) and 1-2 modules (any ids in 0-31); 4 pairs of times '
          'of committed files')
ASSUMPTIONS = ['csv files deliver the columns that were written to them']
N, NSP = 2048, 512


def columns(ctx, tag):
    return [ctx.array(f'{tag}{c}', N, kind='b') for c in ('d', 'l', 'h')]


def register(ctx, suffix, cols):
    ctx.csv(suffix, pixel=ctx.const(list(range(N))), dead=cols[0],
            low=cols[1], bad_hv=cols[2])


def masks_of(ctx, cols):
    d, l, h = cols
    bad = [ctx.any(h[4 * i + k] for k in range(4)) for i in range(NSP)]
    return [d[i] for i in range(N)], [l[i] for i in range(N)], bad


def same(ctx, got, exp, n, label):
    ctx.check(got.shape == (n,), label + ' (shape)')
    ctx.check(ctx.all(got[i] == exp[i] for i in range(n)), label)


def check_masks(ctx, pm, exp, what):
    same(ctx, pm.dead, exp[0], N, what + ': dead')
    same(ctx, pm.low, exp[1], N, what + ': low')
    same(ctx, pm.bad_hv, exp[2], NSP, what + ': bad_hv')
    am = pm.all_mask
    same(ctx, am, [ctx.any([exp[0][i], exp[1][i], exp[2][i // 4]])
                   for i in range(N)], N, what + ': union')


def read(ctx):
    cols = columns(ctx, 'a')
    register(ctx, 'a.dat', cols)
    m = ctx.load('CHECLabPy.calib.pixel_masks')
    pm = m.PixelMasks('/x/a.dat')
    exp = masks_of(ctx, cols)
    check_masks(ctx, pm, exp, 'read')
    check_masks(ctx, pm, exp, 'read again')     # all_mask has no side effect
    ctx.observe('all', pm.all_mask)


def merge(ctx, order):
    a, b = columns(ctx, 'a'), columns(ctx, 'b')
    register(ctx, 'a.dat', a)
    register(ctx, 'b.dat', b)
    m = ctx.load('CHECLabPy.calib.pixel_masks')
    pm = m.PixelMasks('/x/a.dat')
    ea, eb = masks_of(ctx, a), masks_of(ctx, b)
    if not hasattr(pm, '_load_file'):
        return          # the only entry point of merging
    pm._load_file('/x/b.dat', merge=(order == 'merge'))
    if order == 'merge':
        exp = [[ctx.any([x, y]) for x, y in zip(p, q)]
               for p, q in zip(ea, eb)]
    else:
        exp = eb
    check_masks(ctx, pm, exp, order)
    ctx.observe('all', pm.all_mask)


def roundtrip(ctx):
    a = columns(ctx, 'a')
    register(ctx, 'a.dat', a)
    ctx.csv_files()
    m = ctx.load('CHECLabPy.calib.pixel_masks')
    calib = ctx.load('CHECLabPy.calib')
    data = ctx.load('CHECLabPy.calib.data')
    d = ctx.tmpdir()

    def where(fn):
        return os.path.join(d, fn)
    for mod in (m, calib, data):
        ctx.patch(mod, 'get_calib_data', where)
    # an older file, copied later
    os.makedirs(where('pixel_masks'))
    old = where('pixel_masks/d190315T1234.dat')
    register(ctx, 'd190315T1234.dat', columns(ctx, 'o'))
    if not os.path.exists(old):
        open(old, 'w').close()
    os.utime(old, (2**32, 2**32))
    pm = m.PixelMasks('/x/a.dat')
    exp = masks_of(ctx, a)
    pm.commit()
    check_masks(ctx, pm, exp, 'unchanged by commit')
    # the committed file is the latest one, loaded by default
    check_masks(ctx, m.PixelMasks(), exp, 'round trip')


DATES = [((2019, 4, 30, 23, 59), (2019, 5, 1, 0, 1)),
         ((2019, 12, 31, 9, 5), (2020, 1, 1, 0, 0)),
         ((2021, 6, 7, 9, 59), (2021, 6, 7, 10, 0)),
         ((2021, 9, 30, 12, 30), (2021, 10, 1, 12, 30))]


def commits(ctx):
    """of two committed files the later one is the latest"""
    import datetime
    a, b = columns(ctx, 'a'), columns(ctx, 'b')
    register(ctx, 'a.dat', a)
    register(ctx, 'b.dat', b)
    ctx.csv_files()
    m = ctx.load('CHECLabPy.calib.pixel_masks')
    calib = ctx.load('CHECLabPy.calib')
    data = ctx.load('CHECLabPy.calib.data')
    d = ctx.tmpdir()
    for mod in (m, calib, data):
        ctx.patch(mod, 'get_calib_data', lambda fn: os.path.join(d, fn))
    clock = []

    class Now(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return datetime.datetime(*clock[-1])

        utcnow = today = now
    if isinstance(getattr(m, 'datetime', None), type):
        ctx.patch(m, 'datetime', Now)
    t = DATES[ctx.choice('dates', list(range(len(DATES))))]
    p, q = m.PixelMasks('/x/a.dat'), m.PixelMasks('/x/b.dat')
    clock.append(t[0])
    p.commit()
    check_masks(ctx, m.PixelMasks(), masks_of(ctx, a), 'committed')
    clock.append(t[1])
    q.commit()
    check_masks(ctx, m.PixelMasks(), masks_of(ctx, b), 'committed later')


def expand(ctx, n_sp, n_mod):
    m = ctx.load('CHECLabPy.calib.pixel_masks')
    sp = ctx.array('sp', n_sp, 0, NSP - 1, kind='i')
    mod = ctx.array('mod', n_mod, 0, 31, kind='i')
    p = m.PixelMasks.convert_superpixels_to_pixels(sp)
    ctx.check(p.shape == (4 * n_sp,), 'superpixel shape')
    ctx.check(ctx.all(p[4 * i + k] == 4 * sp[i] + k
                      for i in range(n_sp) for k in range(4)),
              'superpixel s is pixels 4s..4s+3')
    q = m.PixelMasks.convert_module_to_pixels(mod)
    ctx.check(q.shape == (64 * n_mod,), 'module shape')
    ctx.check(ctx.all(q[64 * i + k] == 64 * mod[i] + k
                      for i in range(n_mod) for k in range(64)),
              'module m is pixels 64m..64m+63')
    ctx.observe('p', p)
    ctx.observe('q', q)


def plot(ctx, free):
    """the picture: dead pixels 1, low ones 2, superpixels of bad HV 0.5"""
    lib.mpl(ctx)
    cols = []
    for t in 'dlh':
        c = [(i * 7 + ord(t)) % 5 == 0 for i in range(N)]
        for i in free:
            c[i] = ctx.bool(f'{t}{i}')
        cols.append(ctx.const(c))
    register(ctx, 'a.dat', cols)
    m = ctx.load('CHECLabPy.calib.pixel_masks')
    cam = ctx.load('CHECLabPy.plotting.camera')
    made = []

    x = [0.006 * (i % 48) for i in range(N)]
    y = [0.006 * (i // 48) for i in range(N)]

    def version(*a, **k):
        made.append(cam.CameraImage(ctx.np.array(x), ctx.np.array(y), 0.006))
        return made[-1]
    ctx.patch(cam.CameraImage, 'from_camera_version', staticmethod(version))
    pm = m.PixelMasks('/x/a.dat')
    exp = masks_of(ctx, cols)
    pm.plot()
    check_masks(ctx, pm, exp, 'unchanged by the plot')
    ctx.check(len(made) == 1, 'one image')
    a = made[0].pixels.get_array()
    ma = ctx.np.ma
    out = list(ma.getmaskarray(a))
    img = list(ma.getdata(a))

    def blank(i):
        return bool(out[i]) or bool(ctx.isnan(img[i]))
    ctx.check(len(img) == N, 'a value per pixel')
    d, l, h = exp
    for i in range(N):
        bad = h[i // 4]
        if i // 4 not in [f // 4 for f in free]:
            e = 0.5 if bad else 2 if l[i] else 1 if d[i] else None
            ctx.check(blank(i) if e is None else
                      not blank(i) and img[i] == e, 'value of the mask')
            continue
        g = img[i]
        if ctx.fork(bad):
            ctx.check(not blank(i) and g == 0.5, 'bad HV')
        elif ctx.fork(l[i]):
            ctx.check(not blank(i) and g == 2, 'low')
        elif ctx.fork(d[i]):
            ctx.check(not blank(i) and g == 1, 'dead')
        else:
            ctx.check(blank(i), 'good pixels are blank')


CASES = [
    dict(name='plot', fn=plot, params=dict(free=[7])),
    dict(name='read', fn=read, samples=1),
    dict(name='merge', fn=merge, params=dict(order='merge'), samples=1),
    dict(name='reload', fn=merge, params=dict(order='replace'), samples=1),
    dict(name='roundtrip', fn=roundtrip, samples=1),
    dict(name='commits', fn=commits, samples=1),
    dict(name='expand', fn=expand, params=dict(n_sp=3, n_mod=2)),
    dict(name='expand8', fn=expand, params=dict(n_sp=8, n_mod=4),
         tier='thorough'),
]

"""What the images of the camera show."""
import types
import warnings

import lib

BOUNDS = ('cameras of 2-16 pixels at arbitrary positions (of 6x6, 24x24 and '
          '48x48 rows and columns with concrete ones), arbitrary images '
          '(float and integer), also with pixels that are not finite, '
          'successions of up to 3 images, limits and resets; any subset of '
          '4 pixels highlighted, as a list, an array or a mask; cameras of '
          '4 modules of 4 pixels for the labels')
ASSUMPTIONS = ['arithmetic is over the reals',
               'matplotlib draws what it is given (a recording stand-in): '
               'one patch per element of the array of a collection, the '
               'element [row, column] of an image at that place']


def mapping(ctx, n, k=2):
    """pixels at arbitrary positions, n/k of a row"""
    x = ctx.reals('x', n, -1, 1)
    y = ctx.reals('y', n, -1, 1)
    size = ctx.real('size', 0.001, 0.1)
    row = [p // k for p in range(n)]
    col = [(p * 3) % k if k % 3 else p % k for p in range(n)]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        df = ctx.pd.DataFrame(dict(
            pixel=list(range(n)), slot=[p // 4 for p in range(n)],
            row=row, col=col, xpix=ctx.const(x), ypix=ctx.const(y)))
        df.metadata = dict(
            size=size, n_rows=(n + k - 1) // k, n_columns=k,
            fOTUpX_l=ctx.real('uxl', -1, 1), fOTUpX_u=ctx.real('uxu', -1, 1),
            fOTUpY_l=ctx.real('uyl', -1, 1), fOTUpY_u=ctx.real('uyu', -1, 1),
            fOTUpCol_l=ctx.real('ucl', -1, 50),
            fOTUpCol_u=ctx.real('ucu', -1, 50),
            fOTUpRow_l=ctx.real('url', -1, 50),
            fOTUpRow_u=ctx.real('uru', -1, 50))
    return df, x, y, size, row, col


def setup(ctx):
    warnings.simplefilter('ignore')
    fig = lib.mpl(ctx)
    return ctx.load('CHECLabPy.plotting.camera'), fig


def masked(ctx, a):
    """(values, mask) of an array that may be masked"""
    import numpy
    ma = ctx.np.ma
    m = ma.getmaskarray(a)
    d = ma.getdata(a)
    return d, m


def shown(ctx, a, exp, what):
    """the array holds the expected values, None being masked"""
    d, m = masked(ctx, a)
    d, m = list(d), list(m)
    ctx.check(len(d) == len(exp), what + ': one value per pixel')
    ctx.check([bool(b) for b in m] == [e is None for e in exp],
              what + ': what is not finite is left out')
    ctx.check_eq([v for v, e in zip(d, exp) if e is not None],
                 [e for e in exp if e is not None], what)


def patches(ctx, c, x, y, size):
    ps = c.pixels.patches
    ctx.check(len(ps) == len(x), 'one patch per pixel')
    for p, a, b in zip(ps, x, y):
        ctx.check_eq([p.xy[0] + p.width / 2, p.xy[1] + p.height / 2], [a, b],
                     'the patch is centred on the pixel', 1e-7)
        ctx.check(ctx.all([abs(p.width - size) <= 0.0002,
                           abs(p.height - size) <= 0.0002]),
                  'the patch has the size of a pixel')
    ctx.check(any(a is c.pixels for ax in c.fig.axes for a in ax.added),
              'the patches are drawn')


def image(ctx, n, kind):
    m, fig = setup(ctx)
    df, x, y, size, row, col = mapping(ctx, n)
    c = m.CameraImage.from_mapping(df)
    patches(ctx, c, x, y, size)
    shown(ctx, c.pixels.data, [0.0] * n, 'empty image')
    if kind == 'i':
        v = ctx.ints('v', n, -1000, 1000)
        a = ctx.const(v)
    else:
        v = ctx.reals('v', n, -1000, 1000)
        a = ctx.const(v)
        if kind == 'nan':
            k = ctx.choice('bad', list(range(n)))
            b = ctx.choice('what', [float('nan'), float('inf')])
            a[k] = b
            v = list(v)
            v[k] = None
    c.image = a
    shown(ctx, c.pixels.data, v, 'image')
    ctx.check(c.image is a, 'the image reads back')
    ctx.check(c.pixels.clim == 'data', 'scaled to the image')
    if kind != 'nan':
        ctx.check_eq(list(a), v, 'the image is not modified')
    for bad in (n - 1, n + 1):
        e = ctx.raises(lambda: setattr(c, 'image', ctx.const([1.0] * bad)))
        ctx.check(e is not None, 'an image of another size is refused')
        shown(ctx, c.pixels.data, v, 'image kept')
    c.image = ctx.const([2.5] * n)
    shown(ctx, c.pixels.data, [2.5] * n, 'next image')


def limits(ctx, imshow):
    """the colour scale"""
    m, fig = setup(ctx)
    df, x, y, size, row, col = mapping(ctx, 4)
    C = m.CameraImageImshow if imshow else m.CameraImage
    c = C.from_mapping(df)
    art = c.camera if imshow else c.pixels
    exp = None
    for i in range(3):
        op = ctx.choice(f'op{i}', ['image', 'limits', 'reset'])
        if op == 'image':
            c.image = ctx.const(ctx.reals(f'v{i}_', 4, -9, 9))
            exp = exp if isinstance(exp, tuple) else 'data'
        elif op == 'limits':
            exp = (ctx.real(f'lo{i}', -9, 0), ctx.real(f'hi{i}', 0, 9))
            c.set_limits_minmax(*exp)
        else:
            exp = 'data'
            c.reset_limits()
        if isinstance(exp, tuple):
            ctx.check(isinstance(art.clim, tuple), 'limits are kept')
            ctx.check_eq(list(art.clim), list(exp), 'limits')
        else:
            ctx.check(art.clim == exp, 'scaled to the image')
    c.add_colorbar('label')
    bars = [b for f in fig.figures
            for b in f.__dict__.get('colorbars', [])]
    ctx.check(len(bars) == 1 and bars[0].mappable is art and
              bars[0].kw.get('label') == 'label',
              'the colour bar is that of the image')


def highlight(ctx, kind):
    n = 4
    m, fig = setup(ctx)
    df, x, y, size, row, col = mapping(ctx, n)
    c = m.CameraImage.from_mapping(df)
    v = ctx.ints('v', n, -9, 9)
    c.image = ctx.const(v)
    on = [ctx.choice(f'on{p}', [False, True]) for p in range(n)]
    idx = [p for p in range(n) if on[p]]
    lw = ctx.real('lw', 0.1, 3)
    if kind == 'mask':
        sel = ctx.np.array(on)
    elif kind == 'array':
        sel = ctx.np.array(idx[::-1], dtype=int)
    else:
        sel = idx
    alpha = ctx.choice('alpha', [0.5, 1, 0])
    h = c.highlight_pixels(sel, color='y', linewidth=lw, alpha=alpha)
    ctx.check(h is not c.pixels, 'the image is not what is changed')
    w = h.shown['linewidth']
    ctx.check_eq(list(w), [lw if b else 0.0 for b in on],
                 'the pixels given are highlighted and no other')
    ctx.check(h.shown['edgecolor'] == 'y' and h.shown['facecolor'] == 'none',
              'highlighted in the colour given')
    ctx.check(any(a is h for ax in c.fig.axes for a in ax.added),
              'the highlighting is drawn')
    ctx.check([p.xy for p in h.patches] == [p.xy for p in c.pixels.patches],
              'at the pixels')
    shown(ctx, c.pixels.data, v, 'image kept')
    ctx.check('edgecolor' not in c.pixels.shown and
              not isinstance(c.pixels.shown.get('alpha'), float),
              'the image itself keeps its look')


def texts(ctx, imshow):
    n = 6
    m, fig = setup(ctx)
    df, x, y, size, row, col = mapping(ctx, n, 3)
    C = m.CameraImageImshow if imshow else m.CameraImage
    c = C.from_mapping(df)
    v = ctx.reals('v', n, -9, 9)
    c.add_pixel_text(ctx.const(v), size=5, color='k', va='top')
    px, py = (col, row) if imshow else (x, y)
    t = c.ax.texts
    ctx.check(len(t) == n, 'one text per pixel')
    order = list(range(n))
    for p in order:
        ctx.check_eq([t[p][0], t[p][1]], [px[p], py[p]],
                     'text at its pixel', 0)
        ctx.check_eq(t[p][2], v[p], 'text of the pixel', 0)
        ctx.check(t[p][3].get('fontsize') == 5 and
                  t[p][3].get('color') == 'k' and t[p][3].get('va') == 'top',
                  'look of the text')
    p = ctx.choice('pixel', order)
    c.add_text_to_pixel(p, 'abc')
    ctx.check(len(t) == n + 1 and t[n][2] == 'abc', 'one more text')
    ctx.check_eq([t[n][0], t[n][1]], [px[p], py[p]], 'text at the pixel', 0)
    e = ctx.raises(lambda: c.add_pixel_text(ctx.const(v[:-1])))
    ctx.check(e is not None, 'another number of texts is refused')


def corner(n_rows, n_cols, r, c):
    """not part of a camera of 6x6 modules"""
    if n_rows != n_cols or n_rows not in (6, 24, 48):
        return False
    k = n_rows // 6
    return (r < k or r >= n_rows - k) and (c < k or c >= n_cols - k)


def imshow(ctx, n_rows, n_cols, step):
    """values at their row and column, corners left out"""
    m, fig = setup(ctx)
    cells = [(r, c) for r in range(n_rows) for c in range(n_cols)
             if not corner(n_rows, n_cols, r, c)][::step]
    k = len(cells) // 2
    cells = cells[k:] + cells[:k][::-1]
    row = ctx.const([r for r, c in cells])
    col = ctx.const([c for r, c in cells])
    img = m.CameraImageImshow(row, col, n_rows, n_cols)
    v = ctx.reals('v', len(cells), -9, 9)
    for i in range(2):
        a = ctx.const(v)
        img.image = a
        ctx.check(img.image is a, 'the image reads back')
        d, mask = masked(ctx, img.camera.data)
        ctx.check(d.shape == (n_rows, n_cols), 'rows and columns')
        at = dict(zip(cells, v))
        ctx.check_eq([d[r, c] for r, c in cells], v,
                     'value at the place of the pixel')
        bad = []
        for r in range(n_rows):
            for c in range(n_cols):
                if corner(n_rows, n_cols, r, c) != bool(mask[r, c]):
                    bad.append((r, c))
                elif not mask[r, c] and (r, c) not in at:
                    if type(d[r, c]) in (float,) and d[r, c] != 0:
                        bad.append((r, c))
        ctx.check(not bad, 'the corners are left out')
        v = [x * 2 for x in v][::-1]
    ctx.check(img.camera.shown.get('origin') == 'lower',
              'row 0 is at the bottom')
    e = ctx.raises(lambda: setattr(img, 'image', ctx.const(v[1:])))
    ctx.check(e is not None, 'an image of another size is refused')


def labels(ctx, imshow):
    """annotations"""
    m, fig = setup(ctx)
    x = ctx.reals('x', 16, -1, 1)
    # the order of the pixels of two modules is arbitrary
    y = [ctx.real(f'y{p}', -1, 1) if p % 8 < 3 else -2.0 + p % 8
         for p in range(16)]
    size = ctx.real('size', 0.001, 0.1)
    # modules of 2x2 pixels: 3 1 / 0 2
    tm_row, tm_col = [0, 1, 0, 1], [0, 1, 1, 0]
    row = [2 * tm_row[p // 4] + (p % 4) // 2 for p in range(16)]
    col = [2 * tm_col[p // 4] + p % 2 for p in range(16)]
    up = {k: ctx.real('u' + k, -9, 9) for k in (
        'fOTUpX_l', 'fOTUpX_u', 'fOTUpY_l', 'fOTUpY_u', 'fOTUpCol_l',
        'fOTUpCol_u', 'fOTUpRow_l', 'fOTUpRow_u')}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        df = ctx.pd.DataFrame(dict(
            pixel=list(range(16)), slot=[p // 4 for p in range(16)],
            row=row, col=col, xpix=ctx.const(x), ypix=ctx.const(y)))
        df.metadata = dict(size=size, n_rows=4, n_columns=4, **up)
    C = m.CameraImageImshow if imshow else m.CameraImage
    c = C.from_mapping(df)
    c.annotate_tm_edge_label()
    t = {s[2]: s for s in c.ax.texts}
    ctx.check(sorted(t) == ['TM00', 'TM01', 'TM02', 'TM03'] and
              len(c.ax.texts) == 4, 'the modules of the top and the bottom')
    px, py = ([col, row] if imshow else [x, y])
    gap = 4 / 48 + 0.4 if imshow else size * 0.7
    for tm in range(4):
        a, b, s, kw = t[f'TM{tm:02}']
        ps = range(4 * tm, 4 * tm + 4)
        top = tm_row[tm] == 1
        ctx.check_eq(a, sum(px[p] for p in ps) / 4,
                     'label in the middle of the module')
        v = [py[p] for p in ps]
        exp = ctx.max(v) + gap if top else ctx.min(v) - gap
        ctx.check_eq(b, exp, 'label above or below the module')
    c.annotate_on_telescope_up()
    k = ('Col', 'Row') if imshow else ('X', 'Y')
    lo = [up[f'fOTUp{i}_l'] for i in k]
    hi = [up[f'fOTUp{i}_u'] for i in k]
    ctx.check(len(c.ax.arrows) == 1, 'one arrow')
    a = c.ax.arrows[0][0]
    ctx.check_eq([a[0], a[1], a[0] + a[2], a[1] + a[3]], lo + hi,
                 'the arrow points up')
    if not imshow:
        n = len(c.ax.texts)
        c.annotate_led_flasher()
        cs = [a for a in c.ax.added if isinstance(a, lib.Circle)]
        ctx.check(len(cs) == 4 and len(c.ax.texts) == n + 4, 'four flashers')
        for i, (sx, sy) in enumerate([(1, 1), (-1, 1), (1, -1), (-1, -1)]):
            e = [lo[0] * sx, (lo[1] + 2 * size) * sy]
            ctx.check_eq(list(cs[i].xy), e, 'flasher in its corner')
            s = c.ax.texts[n + i]
            ctx.check(s[2] == str(i), 'flashers in order')
            ctx.check_eq([s[0], s[1]], e, 'label on the flasher')


def tc(ctx, imshow):
    """from the mapping or version of TargetCalib"""
    m, fig = setup(ctx)
    df, x, y, size, row, col = mapping(ctx, 4)
    log = []

    class CameraConfiguration:
        def __init__(self, version):
            self.version = version

        def GetMapping(self, singleModule=False):
            log.append((self.version, singleModule))
            return 'tcm'
    t = types.ModuleType('target_calib')
    t.CameraConfiguration = CameraConfiguration
    ctx.stub('target_calib', t)
    um = ctx.load('CHECLabPy.utils.mapping')
    ctx.patch(um, 'get_clp_mapping_from_tc_mapping',
              lambda a, *k, **kw: (log.append(a), df)[1])
    single = ctx.choice('single', [False, True])
    C = m.CameraImageImshow if imshow else m.CameraImage
    c = C.from_camera_version('1.1.0', single)
    ctx.check(log == [('1.1.0', single), 'tcm'], 'mapping of the version')
    if imshow:
        ctx.check(list(c.row) == row and list(c.col) == col,
                  'rows and columns of the mapping')
    else:
        patches(ctx, c, x, y, size)


CASES = [
    dict(name='image', fn=image, params=dict(n=4, kind='f')),
    dict(name='integer', fn=image, params=dict(n=3, kind='i')),
    dict(name='notfinite', fn=image, params=dict(n=3, kind='nan')),
    dict(name='limits', fn=limits, params=dict(imshow=False)),
    dict(name='limitsimshow', fn=limits, params=dict(imshow=True)),
    dict(name='highlightlist', fn=highlight, params=dict(kind='list')),
    dict(name='highlightarray', fn=highlight, params=dict(kind='array')),
    dict(name='highlightmask', fn=highlight, params=dict(kind='mask')),
    dict(name='texts', fn=texts, params=dict(imshow=False)),
    dict(name='textsimshow', fn=texts, params=dict(imshow=True)),
    dict(name='imshow6', fn=imshow, params=dict(n_rows=6, n_cols=6, step=1)),
    dict(name='imshow24', fn=imshow, params=dict(n_rows=24, n_cols=24,
                                                 step=7)),
    dict(name='imshow48', fn=imshow, params=dict(n_rows=48, n_cols=48,
                                                 step=31)),
    dict(name='imshow43', fn=imshow, params=dict(n_rows=4, n_cols=3,
                                                 step=1)),
    dict(name='labels', fn=labels, params=dict(imshow=False)),
    dict(name='labelsimshow', fn=labels, params=dict(imshow=True)),
    dict(name='tc', fn=tc, params=dict(imshow=False)),
    dict(name='tcimshow', fn=tc, params=dict(imshow=True)),
]

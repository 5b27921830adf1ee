"""What the camera-wide plots of waveforms show."""
import math
import re
import warnings

import lib

BOUNDS = ('cameras of 2-3 modules of 64 pixels (per module) and of 9-12 '
          'pixels on a grid of 12x12 or 6x12 (per pixel), waveforms of 3 '
          'samples (40 in one case) of which up to 6 are arbitrary; every pixel highlighted '
          'or not and reset')
ASSUMPTIONS = ['arithmetic is over the reals',
               'matplotlib draws what it is given (a recording stand-in)',
               'sample 0 tells the pixels apart']


def setup(ctx):
    warnings.simplefilter('ignore')
    lib.mpl(ctx)
    return ctx.load('CHECLabPy.plotting.waveform')


def frame(ctx, rec, **meta):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        df = ctx.pd.DataFrame({k: [r[k] for r in rec] for k in rec[0]})
        df.metadata = dict(size=0.006, n_pixels=len(rec), **meta)
    return df


def largest(ctx, v):
    return ctx.max(v)


def by_pixel(ctx, lines, first):
    """lines of single pixels, told apart by sample 0"""
    out, rest = {}, []
    for a, kw in lines:
        y = list(a[-1])
        p = first.get(y[0]) if not isinstance(y[0], bool) and \
            type(y[0]) in (int, float) or hasattr(y[0], 'dtype') else None
        if p is None:
            rest.append((y, kw))
        else:
            out.setdefault(p, []).append((y, kw))
    return out, rest


def modules(ctx, places, free, samples=3):
    m = setup(ctx)
    rec = []
    for slot, (mr, mc) in enumerate(places):
        for p in range(64):
            rec.append(dict(pixel=len(rec), slot=slot, row=mr * 8 + p // 8,
                            col=mc * 8 + p % 8,
                            xpix=0.006 * (mc * 8 + p % 8),
                            ypix=0.006 * (mr * 8 + p // 8)))
    nr = max(a for a, b in places) + 1
    nc = max(b for a, b in places) + 1
    df = frame(ctx, rec, n_rows=nr * 8, n_columns=nc * 8,
               n_modules=len(places))
    n = len(rec)
    # sample 0 is small and different in every pixel
    w = [[(p - n) / 1024, 2.0 + (p % 7) / 8] + [1.0] * (samples - 2)
         for p in range(n)]
    for p, s in free:
        w[p][1:] = [-1.0] * (samples - 1)
        w[p][s] = ctx.real(f'w{p}_{s}', -50, 50)
    # whether a pixel lies below the threshold is not decided by rounding
    avg = []
    for s in range(samples):
        t = 0
        for p in range(n):
            t = t + w[p][s]
        avg.append(t / n)
    f = ctx.choice('fraction', [0.75, 0.5, 1.25])
    thr = ctx.max(avg) * f
    for p, s in free:
        d = ctx.max(w[p]) - thr
        ctx.assume(ctx.any([d > 1e-6, d < -1e-6]))
    c = m.CameraTMWaveformPlotter(df, 'title')
    ctx.check(sorted(c.ax_dict) == list(range(len(places))),
              'one set of axes per module')
    for tm, (mr, mc) in enumerate(places):
        ax = c.ax_dict[tm]
        ctx.check(ax.place[:2] == ((nr, nc), (nr - 1 - mr, mc)),
                  'at the place of the module')
        ctx.check(ax.figure is c.fig, 'in the figure')
        ctx.check([t[2] for t in ax.texts] == [str(tm)],
                  'labelled with the module')
    a = ctx.const(w)
    if f == 0.75:
        c.plot_waveforms(a)
    else:
        c.plot_waveforms(a, f)
    lo, hi = ctx.min([v for r in w for v in r]), ctx.max(
        [v for r in w for v in r])
    colours = {}
    for tm in range(len(places)):
        ax = c.ax_dict[tm]
        ps = list(range(64 * tm, 64 * tm + 64))
        ctx.check(len(ax.lines) == 66, 'its pixels and two means')
        got, means = ax.lines[:64], ax.lines[64:]
        at = {w[p][0]: p for p in ps}
        seen = []
        for g, kw in got:
            y = list(g[-1])
            p = at.get(y[0]) if len(y) == samples else None
            ctx.check(p is not None, 'a pixel of the module')
            seen.append(p)
            ctx.check_eq(y, w[p], 'the waveform of the pixel', 0)
            colours.setdefault((p % 64) // 16, set()).add(kw.get('color'))
        ctx.check(sorted(seen) == ps, 'every pixel of the module once')
        mean = []
        for s in range(samples):
            t = 0
            for p in reversed(ps):
                t = w[p][s] + t
            mean.append(t / 64)
        for g, kw in means:
            ctx.check_eq(list(g[-1]), avg if kw.get('ls') == '-' else mean,
                         'mean of the camera and of the module')
        ctx.check(sorted(kw.get('ls') for g, kw in means) == ['-', '--'],
                  'the two means differ in look')
        said = [t[2] for t in ax.texts[1:]]
        ctx.check(len(said) == 1, 'one list of pixels')
        pairs = [(int(i), int(j)) for i, j in
                 re.findall(r'\[(\d+)\|(\d+)\]', said[0])]
        ctx.check(all(j == 64 * tm + i for i, j in pairs) and
                  len(set(pairs)) == len(pairs), 'pixel in module, in camera')
        low = {j for i, j in pairs}
        for p in ps:
            below = ctx.max(w[p]) < thr
            ctx.check(below if p in low else ctx.neg(below),
                      'pixels below the threshold are listed')
        ctx.check_eq(list(ax.lims['y']), [lo, hi], 'range of the samples')
        ctx.check(list(ax.lims['x']) == [0, samples], 'range of the readout')
    ctx.check(len(colours) == 4 and all(len(v) == 1 for v in
                                        colours.values()) and
              len({min(v) for v in colours.values()}) == 4,
              'one colour per ASIC')
    ctx.check_eq([v for r in a for v in r], [v for r in w for v in r],
                 'waveforms unchanged', 0)


def outline(row, col, kr, kc):
    return dict(left=col % kc == 0, right=col % kc == kc - 1,
                bottom=row % kr == 0, top=row % kr == kr - 1)


def pixels(ctx, n_rows, n_cols, cells, n_modules, free, highlight):
    m = setup(ctx)
    n = len(cells)
    rec = [dict(pixel=p, slot=p // (n // n_modules), row=r, col=c,
                xpix=0.01 * c, ypix=0.01 * r)
           for p, (r, c) in enumerate(cells)]
    df = frame(ctx, rec, n_rows=n_rows, n_columns=n_cols,
               n_modules=n_modules)
    c = m.CameraPixelWaveformPlotter(df)
    ctx.check(sorted(c.ax_dict) == list(range(n)), 'axes of every pixel')
    k = n // n_modules

    def look(ax, r, col):
        return all(ax.spines[s].visible == v for s, v in outline(
            r, col, n_rows // 6, n_cols // 6).items())
    for p, (r, col) in enumerate(cells):
        ax = c.ax_dict[p]
        ctx.check(ax.place[:2] == ((n_rows, n_cols), (n_rows - 1 - r, col)),
                  'at the place of the pixel')
        ctx.check([t[2].split() for t in ax.texts] == [
            [str(p), f'{p // k},{p % k}']], 'labelled with the pixel')
        ctx.check(look(ax, r, col), 'outlines around the modules')
    if highlight:
        on = [p < 4 and ctx.choice(f'on{p}', [False, True])
              for p in range(n)]
        for i in range(2):
            c.highlight_pixels(ctx.np.array(on), 'blue')
            for p, (r, col) in enumerate(cells):
                sp = c.ax_dict[p].spines
                if on[p]:
                    ctx.check(all(s.visible and s.color == 'blue'
                                  for s in sp.values()), 'highlighted')
                else:
                    ctx.check(look(c.ax_dict[p], r, col) and all(
                        s.color != 'blue' for s in sp.values()),
                        'no other pixel is highlighted')
            c.reset_pixel_highlight()
            for p, (r, col) in enumerate(cells):
                ctx.check(look(c.ax_dict[p], r, col) and all(
                    s.color != 'blue'
                    for s in c.ax_dict[p].spines.values()),
                    'nothing is highlighted after a reset')
            on = on[::-1]
        return
    w = [[(p - n) / 1024, 2.0 + (p % 7) / 8, 1.0] for p in range(n)]
    for p, s in free:
        w[p][1:] = [-1.0, -1.0]
        w[p][s] = ctx.real(f'w{p}_{s}', -50, 50)
    c.plot_waveforms(ctx.const(w))
    top = [ctx.max(r) for r in w]
    lo, hi = ctx.min([v for r in w for v in r]), ctx.max(top)
    avg = []
    for s in range(3):
        t = 0
        for p in range(n):
            t = t + w[p][s]
        avg.append(t / n)
    for p in range(n):
        ax = c.ax_dict[p]
        ctx.check(len(ax.lines) == 2, 'the pixel and the mean')
        ls = sorted(ax.lines, key=lambda a: a[1].get('ls') == '--')
        ctx.check_eq(list(ls[0][0][-1]), w[p], 'the waveform of the pixel',
                     0)
        ctx.check_eq(list(ls[1][0][-1]), avg, 'mean of the camera')
        ctx.check_eq(list(ax.lims['y']), [lo, hi], 'range of the samples')
        ctx.check(list(ax.lims['x']) == [0, 3], 'range of the readout')
        f = ax.face
        ctx.check(f[0] == 'viridis' and f[1][0] == 'norm', 'colour')
        ctx.check_eq([f[1][3], f[1][1], f[1][2]],
                     [top[p], ctx.min(top), hi],
                     'colour by the amplitude of the pixel')


G12 = [(r, c) for r in range(12) for c in range(12)]
CASES = [
    dict(name='modules', fn=modules, params=dict(
        places=[(0, 0), (1, 0)], free=[(5, 1), (70, 2)])),
    dict(name='modules3', fn=modules, params=dict(
        places=[(0, 1), (1, 1), (1, 0)], free=[(127, 1), (128, 1)])),
    dict(name='late', fn=modules, params=dict(
        places=[(0, 0)], free=[(5, 1), (9, 39)], samples=40)),
    dict(name='pixels', fn=pixels, params=dict(
        n_rows=12, n_cols=12, cells=G12[5::13], n_modules=3,
        free=[(0, 1), (3, 2), (5, 1)], highlight=False)),
    dict(name='pixels6', fn=pixels, params=dict(
        n_rows=6, n_cols=12, cells=[(r, (r * 5) % 12) for r in range(6)] +
        [(r, (r * 5 + 1) % 12) for r in range(6)], n_modules=2,
        free=[(0, 1), (11, 2), (5, 1)], highlight=False)),
    dict(name='highlight', fn=pixels, params=dict(
        n_rows=12, n_cols=12, cells=G12[3::12], n_modules=3, free=[],
        highlight=True)),
]

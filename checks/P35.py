"""Plots of the single photoelectron fits of a camera."""
import os

import P27
import lib

BOUNDS = ('1-2 files of 1-2 events of 2-3 pixels with arbitrary charges, '
          'fitted by 1-2 processes finishing in any order; every pixel '
          'plotted')
ASSUMPTIONS = P27.ASSUMPTIONS


def run(ctx, events, n_pix, n_proc):
    ex, io, fig, d, q, paths, maps, made = P27.setup(ctx, events, n_pix)
    n_ill = len(events)
    out = os.path.join(d, 'spe.h5')
    P27.argv(ctx, '-f', *paths, '-o', out, '-C', 'charge', '-s', 'Probe',
             '--n_processes', n_proc)
    ex.main()
    ctx.check(fig.figures == [], 'nothing plotted yet')
    m = ctx.load('CHECLabPy.scripts.plot_spe')
    log = []

    class Plotter:  # (what it draws: P27)
        def __init__(self, n):
            self.n = n
            self.fig = lib.Figure([])
            log.append(self)

        def plot(self, *a):
            self.drawn = a

        def save(self, path, *a, **k):
            self.path = path
    ctx.patch(m, 'SpectrumFitPlotter', Plotter)
    p = ctx.choice('pixel', list(range(n_pix)))
    plots = os.path.join(d, 'plots', 'here')
    P27.argv(ctx, '-f', out, '-o', plots, '-p', p)
    m.main()
    names = P27.NAMES + [f'lambda_{i}' for i in range(n_ill)]
    saved = {}
    for f in fig.figures:
        for s in f.saved:
            ctx.check(s not in saved, 'every plot has its own file')
            saved[s] = f
    exp = [f'{k}_{c}.pdf' for c in names for k in ('camera', 'hist')]
    ctx.check(sorted(saved) == sorted(os.path.join(plots, e) for e in exp),
              'files')
    for i, c in enumerate(names):
        true = {k: [P27.value(P27.of_pixel(q, x), i + k)
                    for x in range(n_pix)] for k in (0, 10)}
        f = saved[os.path.join(plots, f'camera_{c}.pdf')]
        ctx.check(c in str(f.title), 'named after the parameter')
        images = {}
        for bar in f.colorbars:
            images['Error' in bar.kw.get('label', '')] = bar.mappable
        ctx.check(len(images) == 2 and len(f.axes) >= 2,
                  'an image of the values, one of the errors')
        for err, art in images.items():
            got = ctx.np.ma.getdata(art.data)
            ctx.check_eq(list(got), true[10 if err else 0],
                         ('error' if err else 'value') + ' of each pixel')
            for x, r in enumerate(art.patches):
                ctx.check(abs(r.xy[0] + r.width / 2 - 0.01 * x) < 1e-9 and
                          abs(r.xy[1] + r.height / 2 - 0.02 * x) < 1e-9,
                          'at the place of the pixel')
        f = saved[os.path.join(plots, f'hist_{c}.pdf')]
        ctx.check(c in str(f.title), 'named after the parameter')
        hs = [h for a in f.axes for h in a.hists]
        ctx.check(len(hs) == 1, 'one histogram')
        got = list(hs[0][0][0])
        ctx.check(len(got) == n_pix, 'of all pixels')
        for v in true[0]:
            ctx.check(ctx.any([abs(g - v) < 1e-6 for g in got]),
                      'the values of the pixels')
    ctx.check(len(log) == 1 and log[0].n == n_ill, 'one spectrum')
    f = log[0].fig
    ctx.check(log[0].path == os.path.join(plots, f'spectrum_p{p}.pdf'),
              'file of the spectrum')
    ctx.check(f'Pixel={p}' in f.title and f'{n_ill} ' in f.title and
              'Probe' in f.title, 'title')
    P27.drawn(ctx, log[0].drawn, n_ill, P27.of_pixel(q, p))


CASES = [
    dict(name='one', fn=run, params=dict(events=(2,), n_pix=2, n_proc=1)),
    dict(name='pool', fn=run, params=dict(events=(1,), n_pix=3, n_proc=2)),
    dict(name='two', fn=run, params=dict(events=(2, 1), n_pix=2, n_proc=2)),
    dict(name='four', fn=run, tier='thorough',
         params=dict(events=(1, 2), n_pix=4, n_proc=3)),
]

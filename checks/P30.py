"""What the plots of charge resolution and mean charge show."""
import math
import warnings

import lib

BOUNDS = ('tables of 2-3 pixels (and the camera) of 2-6 true charges between '
          '0.0005 and 2500 p.e., some of them in a common bin of the plot, '
          'with arbitrary resolutions, means and deviations')
ASSUMPTIONS = ['arithmetic is over the reals',
               'matplotlib draws what it is given (a recording stand-in)']


def setup(ctx):
    warnings.simplefilter('ignore')
    lib.mpl(ctx)
    return ctx.load('CHECLabPy.plotting.resolutions')


def bins(x):
    """the charges of each point: 99 bins of equal width in log from 0.1 to
    the largest charge"""
    top = max(x)
    out = {}
    for i, v in enumerate(x):
        if v < 0.1:
            continue
        b = 98 if v == top else int(math.floor(
            math.log(v / 0.1) / math.log(top / 0.1) * 99))
        out.setdefault(b, []).append(i)
    return [out[b] for b in sorted(out)]


def limit(x, n, enf, s):
    return math.sqrt(n + enf ** 2 * x + (s * x) ** 2) / x


def table(ctx, xs, name, pixels, cols):
    """rows of all pixels, mixed"""
    rows = []
    for p in pixels:
        for i, x in enumerate(xs[p] if isinstance(xs, dict) else xs):
            r = dict(pixel=p, **{name: x})
            for c in cols:
                # means may be negative
                r[c] = ctx.real(f'{c}{p}_{i}', -10 if c == 'mean' else 0.01,
                                10)
            rows.append(r)
    rows = rows[1::2] + rows[::2]
    df = ctx.pd.DataFrame(dict(
        pixel=[r['pixel'] for r in rows], **{name: [r[name] for r in rows]},
        **{c: ctx.const([r[c] for r in rows]) for c in cols}))
    return df, rows


def of(rows, p, name):
    return sorted((r for r in rows if r['pixel'] == p),
                  key=lambda r: r[name])


def points(ctx, bar, exp, what):
    """the points of an error bar plot"""
    a, kw = bar
    x, y = list(a[0]), list(a[1])
    e = kw.get('yerr') if len(a) < 3 else a[2]
    ctx.check(len(x) == len(exp), what + ': the points')
    ctx.check_eq(x, [p[0] for p in exp], what + ': true charges')
    ctx.check_eq(y, [p[1] for p in exp], what)
    if exp and exp[0][2] is not None:
        ctx.check_eq(list(e), [p[2] for p in exp], what + ': errors')


def mean(v):
    s = 0
    for a in reversed(v):
        s = a + s
    return s / len(v)


def resolution(ctx, xs, relative):
    m = setup(ctx)
    C = m.ChargeResolutionWRRPlotter if relative else \
        m.ChargeResolutionPlotter
    cols = ['charge_resolution', 'charge_resolution_abs']
    dp, rp = table(ctx, xs, 'true', [0, 1, 2], cols)
    dc, rc = table(ctx, xs, 'true', [99], cols)
    store = dict(charge_resolution_pixel=dp, charge_resolution_camera=dc.drop(
        columns='pixel'))
    c = C()
    c.set_store(store)
    p = ctx.choice('pixel', [0, 1, 2])
    ops = ctx.choice('order', [['pixel'], ['camera', 'pixel', 'camera'],
                               ['pixel', 'pixel']])
    for op in ops:
        if op == 'pixel':
            c.plot_pixel(p, 'a')
            rows = of(rp, p, 'true')
        else:
            c.plot_camera('a')
            rows = of(rc, 99, 'true')
        rows = [r for r in rows if r['true'] > 0.001]
        exp = []
        for g in bins([r['true'] for r in rows]):
            x = mean([rows[i]['true'] for i in g])
            y = mean([rows[i]['charge_resolution'] for i in g])
            e = math.sqrt(sum(1 / rows[i]['true'] for i in g)) / len(g)
            if relative:
                y = y / limit(x, math.sqrt(7.0), 1.2, 0.1) if x <= 1000 \
                    else math.nan
            exp.append((x, y, e))
        points(ctx, c.ax.errorbars[-1], exp, op)
        ctx.check(c.ax.errorbars[-1][1].get('label') == 'a', 'label')
    cs = [k.get('color') for _, k in c.ax.errorbars]
    ctx.check(len(set(cs)) == len(ops), 'every series has its own colour')
    ctx.check_eq(list(dp['charge_resolution']),
                 [r['charge_resolution'] for r in rp], 'tables unchanged')


def means(ctx, xs):
    m = setup(ctx)
    cols = ['mean', 'std']
    # the first pixel covers fewer charges than the second
    dp, rp = table(ctx, {0: xs[1:-1], 1: xs}, 'amplitude', [0, 1], cols)
    dc, rc = table(ctx, xs, 'amplitude', [99], cols)
    c = m.ChargeMeanPlotter()
    c.set_store(dict(charge_statistics_pixel=dp,
                     charge_statistics_camera=dc.drop(columns='pixel')))
    p = ctx.choice('pixel', [0, 1])
    first, last = [], []
    for op in ctx.choice('order', [['pixel'], ['pixel', 'camera', 'pixel'],
                                   ['other', 'pixel'], ['camera']]):
        if op != 'camera':
            c.plot_pixel(1 - p if op == 'other' else p)
            rows = of(rp, 1 - p if op == 'other' else p, 'amplitude')
        else:
            c.plot_camera()
            rows = of(rc, 99, 'amplitude')
        exp = []
        for g in bins([r['amplitude'] for r in rows]):
            x = mean([rows[i]['amplitude'] for i in g])
            exp.append((x, mean([rows[i]['mean'] for i in g]) / x, None))
        points(ctx, c.ax.errorbars[-1], exp, op)
        first.append(exp[0][0])
        last.append(exp[-1][0])
    ctx.check_eq(list(dp['mean']), [r['mean'] for r in rp],
                 'tables unchanged')
    c.finish()
    (x, y), kw = c.ax.lines[-1][0][:2], c.ax.lines[-1][1]
    ctx.check_eq([x[0], x[-1]], [min(first), max(last)], 'range of the line')
    ctx.check_eq(list(y), [1.0] * len(y), 'line at a ratio of 1')


def curves(ctx, relative):
    m = setup(ctx)
    C = m.ChargeResolutionWRRPlotter if relative else \
        m.ChargeResolutionPlotter
    c = C()
    q = [ctx.real('q0', 0.01, 1000), ctx.real('q1', 1001, 2000), 2500.0]
    par = dict(requirement=(math.sqrt(7.0), 1.2, 0.1, 1000),
               goal=(2.0, 1.1152, 0.05, 2000), poisson=(0.0, 1.0, 0.0, 1e9))

    def value(k, x, i):
        n, enf, s, top = par[k]
        if i >= (1 if top == 1000 else 2 if top == 2000 else 3):
            return None
        return ctx.sqrt(n + enf ** 2 * x + s ** 2 * x * x) / x
    for k in par:
        getattr(c, 'plot_' + k)(ctx.const(q))
        (x, y), kw = c.ax.lines[-1][0][:2], c.ax.lines[-1][1]
        ctx.check_eq(list(x), q, 'charges of the curve', 0)
        y = list(y)
        ctx.check(kw.get('label', '').lower() == k, 'label')
        for i, x in enumerate(q):
            e = value(k, x, i)
            r = value('requirement', x, i) if relative else 1.0
            if e is None or r is None:
                ctx.check(bool(ctx.isnan(y[i])), k + ' ends')
            else:
                ctx.check_eq(y[i] * r, e, k, 1e-5)


def limits(ctx):
    """the formula of the curves, for any noise"""
    m = setup(ctx)
    x = [ctx.real('x0', 0.01, 100), ctx.real('x1', 100, 3000)]
    nsb, add = ctx.real('nsb', 0, 50), ctx.real('add', 0, 50)
    enf, s = ctx.real('enf', 1, 3), ctx.real('sigma2', 0, 1)
    y = list(m.ChargeResolutionPlotter.limit_curves(ctx.const(x), nsb, add,
                                                    enf, s))
    for a, b in zip(x, y):
        ctx.check(b >= 0, 'limit is positive')
        ctx.check_eq(b * b * a * a, nsb + add + enf * enf * a + s * s * a * a,
                     'limit', 1e-6)


X = [0.0005, 0.05, 0.5, 10.0, 10.3, 250.0]
CASES = [
    dict(name='resolution', fn=resolution, params=dict(xs=X,
                                                       relative=False)),
    dict(name='relative', fn=resolution, params=dict(
        xs=[0.5, 20.6, 21.0, 21.5, 950.0, 2500.0], relative=True)),
    dict(name='one', fn=resolution, params=dict(xs=[0.2, 7.0],
                                                relative=False)),
    dict(name='means', fn=means, params=dict(xs=X[1:])),
    dict(name='curves', fn=curves, params=dict(relative=False)),
    dict(name='limits', fn=limits),
    dict(name='relcurves', fn=curves, params=dict(relative=True)),
]

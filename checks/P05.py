"""SiPM data-sheet conversion: linear interpolation between table rows."""
import itertools

import lib

BOUNDS = ('data sheets of 2-4 rows (thorough: 6) with arbitrary increasing '
          'columns, queried by any one of the four characteristics at any '
          'value, inside or outside the table; every combination of zero, '
          'two or more named values')
ASSUMPTIONS = ['arithmetic is over the reals',
               'the columns of the data sheet increase strictly; entries '
               'may be missing anywhere in a column, at its head and tail in '
               'the one that is asked for']
KEYS = ['vover', 'opct', 'pde', 'gain']


def sheet(ctx, n):
    cols = {}
    for k in KEYS:
        c = ctx.array(k, n, -10, 100)
        for i in range(n - 1):
            ctx.assume(c[i + 1] >= c[i] + 0.01)
        cols[k] = c
    return cols


def convert(ctx, n, order):
    cols = sheet(ctx, n)
    ctx.csv('sipm_data_sheet.csv', **{k: cols[k] for k in order})
    m = ctx.load('CHECLabPy.calib.sipm_data_sheet')
    conv = m.SiPMDataSheetConverter()
    key = ctx.choice('key', KEYS)
    v = ctx.real('v', -20, 120)
    x = cols[key]
    if ctx.fork(v < x[0]) or ctx.fork(v > x[n - 1]):
        e = ctx.raises(lambda: conv(**{key: v}), ValueError)
        ctx.check(e is not None, 'outside of the table is refused')
        return
    out = conv(**{key: v})
    ctx.check(set(out) == set(KEYS), 'all characteristics are returned')
    i = 0
    while i < n - 2 and ctx.fork(v > x[i + 1]):
        i += 1
    for k in KEYS:
        y = cols[k]
        # cross-multiplied: no division in the oracle
        ctx.check_eq((out[k] - y[i]) * (x[i + 1] - x[i]),
                     (y[i + 1] - y[i]) * (v - x[i]), 'linear in the segment',
                     1e-4)
    ctx.check_eq(out[key], v, 'the queried characteristic is kept')
    ctx.observe('out', [out[k] for k in KEYS])


def gaps(ctx, n, missing, keys=KEYS):
    """columns without some of the entries"""
    cols = sheet(ctx, n)
    for k, rows in missing.items():
        for r in rows:
            cols[k][r] = float('nan')
    ctx.csv('sipm_data_sheet.csv', **cols)
    m = ctx.load('CHECLabPy.calib.sipm_data_sheet')
    conv = m.SiPMDataSheetConverter()
    key = ctx.choice('key', keys)
    v = ctx.real('v', -20, 120)
    rows = [r for r in range(n) if r not in missing.get(key, ())]
    x = [cols[key][r] for r in rows]
    if ctx.fork(v < x[0]) or ctx.fork(v > x[-1]):
        e = ctx.raises(lambda: conv(**{key: v}), ValueError)
        ctx.check(e is not None, 'outside of the table is refused')
        return
    i = 0
    while i < len(x) - 2 and ctx.fork(v > x[i + 1]):
        i += 1
    ctx.assume(ctx.all([v > x[i], v < x[i + 1]]))
    out = conv(**{key: v})
    ctx.check(set(out) == set(KEYS), 'all characteristics are returned')
    a, b = rows[i], rows[i + 1]
    for k in KEYS:
        y = cols[k]
        if a in missing.get(k, ()) or b in missing.get(k, ()):
            ctx.check(ctx.isnan(out[k]), 'no entry: not a number')
            continue
        ctx.check_eq((out[k] - y[a]) * (x[i + 1] - x[i]),
                     (y[b] - y[a]) * (v - x[i]), 'linear in the segment',
                     1e-4)


def refuse(ctx):
    cols = sheet(ctx, 2)
    ctx.csv('sipm_data_sheet.csv', **cols)
    m = ctx.load('CHECLabPy.calib.sipm_data_sheet')
    conv = m.SiPMDataSheetConverter()
    subsets = [c for r in (0, 2, 3, 4)
               for c in itertools.combinations(KEYS, r)]
    s = ctx.choice('given', subsets)
    vals = {k: ctx.real('v_' + k, -20, 120) for k in s}
    e = ctx.raises(lambda: conv(**vals), ValueError)
    ctx.check(isinstance(e, ValueError), 'exactly one value must be named')


def plot(ctx, n):
    fig = lib.mpl(ctx)
    cols = sheet(ctx, n)
    ctx.csv('sipm_data_sheet.csv', **cols)
    m = ctx.load('CHECLabPy.calib.sipm_data_sheet')
    conv = m.SiPMDataSheetConverter()
    conv.plot()
    drawn = {}
    for f in fig.figures:
        for ax in f.axes:
            for a, kw in ax.lines:
                drawn[kw.get('label', '').lower()] = a
    ctx.check(set(drawn) == {'gain', 'pde', 'opct'}, 'three curves')
    for k, (x, y) in ((k, a[:2]) for k, a in drawn.items()):
        ctx.check_eq(list(x), list(cols['vover']), 'against over-voltage', 0)
        ctx.check_eq(list(y), list(cols[k]), 'the column', 0)


CASES = [
    dict(name='plot', fn=plot, params=dict(n=3)),
    dict(name='rows2', fn=convert, params=dict(n=2, order=KEYS)),
    dict(name='rows3', fn=convert, params=dict(n=3, order=KEYS[::-1])),
    dict(name='refuse', fn=refuse),
    dict(name='gaps', fn=gaps,
         params=dict(n=4, missing=dict(gain=[0, 3], opct=[0]))),
    dict(name='gaps2', fn=gaps,
         params=dict(n=4, missing=dict(pde=[3], vover=[0, 1]))),
    dict(name='inner', fn=gaps, params=dict(
        n=4, missing=dict(gain=[1], opct=[0, 2]), keys=['vover', 'pde'])),
    dict(name='rows4', fn=convert,
         params=dict(n=4, order=['vover', 'gain', 'opct', 'pde'])),
    dict(name='rows6', fn=convert, params=dict(n=6, order=KEYS),
         tier='thorough'),
    dict(name='gaps6', fn=gaps, tier='thorough',
         params=dict(n=6, missing=dict(gain=[0, 1, 5], opct=[0, 5],
                                       pde=[5]))),
]

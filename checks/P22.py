"""Charge resolution and statistics, accumulated in pieces."""
import math
import warnings

BOUNDS = ('1-3 contributions of 1-3 entries each (2 of 150 and 160 with '
          'an arbitrary last entry); every assignment of the '
          'entries to 2 pixels and 3 true charges within the listed patterns; '
          'arbitrary measured charges; amalgamated at every contribution or '
          'at the end; curves at 2 arbitrary charges in [0.01, 5000]')
ASSUMPTIONS = ['arithmetic is over the reals']
PIXEL = [3, 10]


def load(ctx):
    warnings.simplefilter('ignore')
    return ctx.load('CHECLabPy.utils.resolutions')


def entries(ctx, sizes, trues, fixed):
    """pieces of entries (pixel, true, measured)"""
    out = []
    n = 0
    for i, k in enumerate(sizes):
        piece = []
        for j in range(k):
            t = fixed[n] if n < len(fixed) and fixed[n] is not None else \
                ctx.choice(f't{n}', trues)
            p = PIXEL[ctx.choice(f'p{n}', [0, 1])] if n else PIXEL[1]
            piece.append((p, t, ctx.real(f'm{n}', -50, 50)))
            n += 1
        out.append(piece)
    return out


def fill(ctx, obj, pieces):
    if ctx.choice('amalgamate', [False, True]):
        obj._max_bytes = 0        # as after 1 GB
    for piece in pieces:
        obj.add(ctx.const([e[0] for e in piece]),
                ctx.const([e[1] for e in piece]),
                ctx.const([e[2] for e in piece]))


def column(df, name):
    return list(df[name].values)


def groups(pieces, key):
    out = {}
    for piece in pieces:
        for e in piece:
            out.setdefault(key(e), []).append(e)
    return out


def rows(ctx, df, names, keys, label):
    """the rows by their key, each once"""
    ks = list(zip(*[[float(v) for v in column(df, n)] for n in names]))
    ctx.check(sorted(ks) == sorted(tuple(float(x) for x in k) for k in keys),
              label + ': one row per group')
    return {k: i for i, k in enumerate(ks)}


def resolution(ctx, sizes, trues, mc, fixed=()):
    m = load(ctx)
    obj = m.ChargeResolution(mc)
    pieces = entries(ctx, sizes, trues, fixed)
    fill(ctx, obj, pieces)
    df_p, df_c = obj.finish()
    for df, names, key in (
            (df_p, ['pixel', 'true'], lambda e: (e[0], e[1])),
            (df_c, ['true'], lambda e: (e[1],))):
        g = {k: v for k, v in groups(pieces, key).items() if k[-1] != 0}
        at = rows(ctx, df, names, g, 'resolution')
        for k, es in g.items():
            i = at[tuple(float(x) for x in k)]
            t = k[-1]
            s = 0
            for e in es:
                s = s + (e[2] - t) * (e[2] - t)
            var = s / len(es) + (t if mc else 0)
            a = column(df, 'charge_resolution_abs')[i]
            r = column(df, 'charge_resolution')[i]
            ctx.check(int(column(df, 'n')[i]) == len(es), 'entries')
            ctx.check_eq(column(df, 'sum')[i], s, 'squared differences', 1e-6)
            ctx.check(ctx.all([a >= 0, a * a <= var + 1e-6,
                               a * a >= var - 1e-6]),
                      'rms about the true charge')
            ctx.check_eq(r * abs(t), a, 'relative to the true charge', 1e-6)


def statistics(ctx, sizes, trues, fixed=()):
    m = load(ctx)
    obj = m.ChargeStatistics()
    pieces = entries(ctx, sizes, trues, fixed)
    fill(ctx, obj, pieces)
    df_p, df_c = obj.finish()
    for df, names, key in (
            (df_p, ['pixel', 'amplitude'], lambda e: (e[0], e[1])),
            (df_c, ['amplitude'], lambda e: (e[1],))):
        g = groups(pieces, key)
        at = rows(ctx, df, names, g, 'statistics')
        for k, es in g.items():
            i = at[tuple(float(x) for x in k)]
            n = len(es)
            s, d = 0, 0
            for e in es:
                s = s + e[2]
            for e in es:
                d = d + (n * e[2] - s) * (n * e[2] - s)
            ctx.check_eq(column(df, 'mean')[i] * n, s, 'mean', 1e-6)
            v = column(df, 'std')[i]
            ctx.check(v >= 0, 'standard deviation')
            ctx.check_eq(v * v * (n * n * n), d, 'variance', 1e-3)
            ctx.check(int(column(df, 'n')[i]) == n, 'entries')


def events(ctx, n):
    """hundreds of entries of a pixel and charge"""
    m = load(ctx)
    x = [ctx.real(f'm{i}', -50, 50) for i in range(len(n))]
    res, sta = m.ChargeResolution(False), m.ChargeStatistics()
    for obj in (res, sta):
        if ctx.choice('amalgamate', [False, True]):
            obj._max_bytes = 0
        for k, v in zip(n, x):
            obj.add(ctx.const([7] * k), ctx.const([4.0] * k),
                    ctx.const([5.0] * (k - 1) + [v]))
    t = sum(n)
    s, s2, d = 5.0 * (t - len(n)), 25.0 * (t - len(n)), 1.0 * (t - len(n))
    for v in x:
        s, s2, d = s + v, s2 + v * v, d + (v - 4) * (v - 4)
    for df in res.finish():
        ctx.check([int(v) for v in column(df, 'n')] == [t], 'entries')
        ctx.check_eq(column(df, 'sum')[0], d, 'squared differences', 1e-6)
        a = column(df, 'charge_resolution_abs')[0]
        ctx.check(a >= 0, 'resolution')
        ctx.check_eq(a * a * t, d, 'resolution', 1e-4)
    for df in sta.finish():
        ctx.check([int(v) for v in column(df, 'n')] == [t], 'entries')
        ctx.check_eq(column(df, 'mean')[0] * t, s, 'mean', 1e-6)
        a = column(df, 'std')[0]
        ctx.check(a >= 0, 'standard deviation')
        ctx.check_eq(a * a * t * t, s2 * t - s * s, 'variance', 1e-2)


def equal(ctx):
    """equal charges: rounding does not make the variance negative"""
    m = load(ctx)
    obj = m.ChargeStatistics()
    v = ctx.choice('value', [0.1, 0.3, 1.7, 1e3 / 3])
    n = ctx.choice('n', [1, 3, 5])
    obj.add(ctx.const([1] * n), ctx.const([2.0] * n), ctx.const([v] * n))
    for df in obj.finish():
        s = column(df, 'std')[0]
        ctx.check(ctx.neg(ctx.isnan(s)), 'standard deviation is a number')
        ctx.check_eq(s, 0, 'standard deviation of equal charges', 1e-3)


def curves(ctx):
    """the requirement, the goal and the Poisson limit"""
    warnings.simplefilter('ignore')
    P = ctx.load('CHECLabPy.plotting.resolutions').ChargeResolutionPlotter
    t = ctx.reals('t', 2, 0.01, 5000)
    a = ctx.const(t)
    for name, noise, enf, mult, top in (
            ('requirement', math.sqrt(7), 1.2, 0.1, 1000),
            ('goal', 2, 1.1152, 0.05, 2000)):
        got = getattr(P, name)(a)
        for x, v in zip(t, got):
            nan = ctx.isnan(v)
            if ctx.fork(x > top):
                ctx.check(nan, name + ' beyond its range')
            else:
                ctx.check(ctx.neg(nan), name + ' within its range')
                sq = noise + enf * enf * x + mult * mult * x * x
                ctx.check(v >= 0, name)
                ctx.check_eq(v * x * (v * x), sq, name + ' curve', 1e-4)
    got = P.poisson(a)
    for x, v in zip(t, got):
        ctx.check(v >= 0, 'poisson')
        ctx.check_eq(v * v * x, 1, 'poisson curve', 1e-6)


CASES = [
    dict(name='resolution', fn=resolution, params=dict(
        sizes=[2, 1], trues=[0.0, 2.0, 6.25], mc=False)),
    dict(name='mc', fn=resolution, params=dict(
        sizes=[1, 2], trues=[0.0, 2.0, 6.25], mc=True)),
    dict(name='many', fn=resolution, params=dict(
        sizes=[2, 2, 1], trues=[0.5, 3.0], mc=False,
        fixed=[3.0, None, 3.0, None, 0.5])),
    dict(name='statistics', fn=statistics, params=dict(
        sizes=[2, 1], trues=[0.0, 2.0, 6.25])),
    dict(name='many statistics', fn=statistics, params=dict(
        sizes=[2, 2, 1], trues=[0.5, 3.0],
        fixed=[3.0, None, 3.0, None, 0.5])),
    dict(name='close', fn=resolution, params=dict(
        sizes=[2, 1], trues=[1.0001, 1.0004], mc=True)),
    dict(name='close statistics', fn=statistics, params=dict(
        sizes=[2, 1], trues=[1.0001, 1.0004])),
    dict(name='equal', fn=equal),
    dict(name='negative', fn=resolution, params=dict(
        sizes=[2, 1], trues=[-2.0, 0.5], mc=False)),
    dict(name='events', fn=events, params=dict(n=[150, 160])),
    dict(name='curves', fn=curves),
    dict(name='long', fn=resolution, tier='thorough', params=dict(
        sizes=[2, 2, 2, 1], trues=[0.0, 2.0, 6.25], mc=True)),
    dict(name='longstat', fn=statistics, tier='thorough', params=dict(
        sizes=[2, 2, 2], trues=[0.0, 2.0, 6.25])),
]

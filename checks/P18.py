"""Welford's running mean and sum of squared differences."""

BOUNDS = ('sequences of up to 6 (thorough 9) arbitrary samples in '
          '[-1000, 1000]; one further sample after any state of 1 to 10^6 '
          'samples; every order of 3 samples')
ASSUMPTIONS = ['arithmetic is over the reals']


def update(ctx):
    return ctx.load('CHECLabPy.stats').welfords_online_algorithm


def sequence(ctx, n):
    """after each sample: number, mean and squared differences so far"""
    f = update(ctx)
    x = ctx.reals('x', n, -1000, 1000)
    mean, count, m2 = 0.0, 0, 0.0
    for i in range(n):
        last = m2
        mean, count, m2 = f(x[i], mean, count, m2)
        k = i + 1
        s = x[0]
        for v in x[1:k]:
            s = s + v
        d = 0
        for v in x[:k]:
            d = d + (k * v - s) * (k * v - s)
        ctx.check(count == k, 'number of samples')
        ctx.check_eq(mean * k, s, 'mean', 1e-6)
        ctx.check_eq(m2 * k * k, d, 'squared differences', 1e-1)
        ctx.check(m2 >= last - 1e-6, 'squared differences never decrease')


def step(ctx):
    """any state: n samples with sum s and sum of squares q"""
    f = update(ctx)
    n = ctx.int('n', 1, 10**6)
    mean = ctx.real('mean', -1000, 1000)
    m2 = ctx.real('m2', 0, 10**6)
    x = ctx.real('x', -1000, 1000)
    a, b, c = f(x, mean, n, m2)
    ctx.check(b == n + 1, 'number of samples')
    ctx.check_eq(a * (n + 1), n * mean + x, 'mean', 1e-3)
    # sum of squared differences of the samples and x from the new mean
    ctx.check_eq((c - m2) * (n + 1), n * (x - mean) * (x - mean),
                 'squared differences', 1.0)
    ctx.check(c >= m2, 'squared differences never decrease')


def order(ctx):
    """the order of the samples does not matter"""
    f = update(ctx)
    x = ctx.reals('x', 3, -1000, 1000)
    out = []
    for p in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1),
              (2, 1, 0)):
        s = (0.0, 0, 0.0)
        for i in p:
            s = f(x[i], *s)
        out.append(s)
    for s in out[1:]:
        ctx.check_eq(s[0], out[0][0], 'mean whatever the order', 1e-6)
        ctx.check_eq(s[2], out[0][2], 'differences whatever the order', 1e-2)


CASES = [
    dict(name='sequence', fn=sequence, params=dict(n=6)),
    dict(name='step', fn=step),
    dict(name='order', fn=order),
    dict(name='sequence9', fn=sequence, tier='thorough', params=dict(n=9)),
]

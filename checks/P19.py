"""The probability functions of stats.pdf against their definitions."""
import math

BOUNDS = ('counts k, n <= 12 (thorough 25) and 100, 171, 400, 1000, means in (0, 50], positions, '
          'means in [-50, 50] and widths in [0.01, 50]; y > 0 for xlogy')
ASSUMPTIONS = ['exp and log are over the reals: exp(a + b) = exp(a) exp(b), '
               'exp(n log y) = y^n, exp(lgamma(n + 1)) = n!',
               'otherwise exp is an arbitrary positive function of its '
               'argument']


def pdf(ctx):
    return ctx.load('CHECLabPy.stats.pdf')


def f32(ctx, *v):
    return ctx.const(list(v)).astype('float32')


def power(x, n):
    r = 1
    for _ in range(n):
        r = r * x
    return r


def poisson(ctx, kmax):
    m = pdf(ctx)
    k = int(ctx.int('k', 0, kmax))
    mu = ctx.real('mu', 0.01, 50)
    got = m.poisson(k, mu)
    ctx.check_eq(got * math.factorial(k) / power(50.0, k),
                 ctx.exp(-mu) * power(mu / 50, k), 'definition', 1e-9)
    ctx.check(got >= 0, 'not negative')
    more = m.poisson(k + 1, mu)
    ctx.check_eq(more * (k + 1) / power(50.0, k),
                 got * mu / power(50.0, k), 'recurrence', 1e-9)


def binom(ctx, nmax):
    m = pdf(ctx)
    n = ctx.int('n', 0, nmax)
    k = ctx.int('k', 0, nmax)
    ctx.assume(k <= n)
    n, k = int(n), int(k)
    exp = math.comb(n, k)
    ctx.check_eq(m.binom(n, k) / exp, 1, 'number of subsets', 1e-9)


def normal(ctx, dtype=None):
    m = pdf(ctx)
    x = ctx.real('x', -50, 50)
    mean = ctx.real('mean', -50, 50)
    s = ctx.real('s', 0.01, 50)
    got = m.normal_pdf(f32(ctx, x), mean, s)[0]
    u = (x - mean) / s
    e = ctx.exp(-0.5 * (u * u))
    ctx.check_eq(got * (s * math.sqrt(2 * math.pi)), e, 'definition', 1e-4)
    # mirrored about the mean
    mirror = m.normal_pdf(f32(ctx, mean - (x - mean)), mean, s)[0]
    ctx.check_eq(mirror, got, 'symmetric', 1e-3)
    peak = m.normal_pdf(f32(ctx, mean), mean, s)[0]
    ctx.check_eq(peak * (s * math.sqrt(2 * math.pi)), 1, 'peak', 1e-5)


def array(ctx, n):
    """element by element on arrays"""
    m = pdf(ctx)
    x = ctx.reals('x', n, -5, 5)
    got = m.normal_pdf(f32(ctx, *x), 1.5, 2.0)
    for a, b in zip(x, got):
        u = (a - 1.5) / 2.0
        ctx.check_eq(b * (2.0 * math.sqrt(2 * math.pi)),
                     ctx.exp(-0.5 * (u * u)), 'elements', 1e-4)
    mu = ctx.reals('mu', n, 0.1, 5)
    ks = [int(ctx.int(f'k{i}', 0, 2)) for i in range(n)]
    got = m.poisson(ctx.const(ks), ctx.const(mu))
    for k, v, b in zip(ks, mu, got):
        ctx.check_eq(b * math.factorial(k), ctx.exp(-v) * power(v, k),
                     'elements', 1e-6)


def logs(ctx, kmax):
    m = pdf(ctx)
    x = ctx.real('x', -50, 50)
    y = ctx.real('y', 0.01, 50)
    got = m.xlogy(f32(ctx, x), y)[0]
    if ctx.fork(x == 0):
        ctx.check_eq(got, 0, 'nothing', 0)
    else:
        ctx.check_eq(got, x * ctx.log(y), 'x log y', 1e-3)
    ctx.check_eq(m.xlogy(f32(ctx, 0.0), 0.0)[0], 0, '0 log 0', 0)
    k = int(ctx.int('k', 0, kmax))
    got = m.poisson_logpmf(f32(ctx, k), y)[0]
    p = m.poisson(k, y)
    ctx.check_eq(ctx.exp(got) * math.factorial(k) / power(50.0, k),
                 ctx.exp(-y) * power(y / 50, k), 'logarithm of the definition',
                 1e-4)


def logpmf_real(ctx):
    """a histogram may hold any (weighted) content"""
    m = pdf(ctx)
    k = ctx.real('k', 0, 50)
    mu = ctx.real('mu', 0.01, 50)
    got = m.poisson_logpmf(f32(ctx, k), mu)[0]
    a = m.poisson_logpmf(f32(ctx, k), mu + 1)[0]
    ctx.check_eq(a - got, k * (ctx.log(mu + 1) - ctx.log(mu)) - 1,
                 'ratio of likelihoods', 1e-3)
    ctx.check_eq(got, k * ctx.log(mu) - mu - ctx.math.lgamma(k + 1),
                 'definition', 1e-3)


def logpmf_at(ctx, ks):
    """weighted contents, against the value of the gamma function"""
    m = pdf(ctx)
    k = ctx.choice('k', ks)
    mu = ctx.real('mu', 0.01, 50)
    got = m.poisson_logpmf(f32(ctx, k), mu)[0]
    ctx.check_eq(got, k * ctx.log(mu) - mu - math.lgamma(k + 1),
                 'definition', 1e-3)


def large(ctx, ks):
    """no overflow for many events"""
    m = pdf(ctx)
    k = ctx.choice('k', ks)
    mu = ctx.real('mu', 0.5, 2) * k
    got = m.poisson(k, mu)
    ctx.check_eq(ctx.log(got), k * ctx.log(mu) - mu - math.lgamma(k + 1),
                 'definition', 1e-3)
    ctx.check_eq(ctx.log(m.binom(k, k // 3)), math.lgamma(k + 1) -
                 math.lgamma(k // 3 + 1) - math.lgamma(k - k // 3 + 1),
                 'number of subsets', 1e-3)


def tails(ctx):
    """far from the mean"""
    m = pdf(ctx)
    u = ctx.real('u', -20, 20)
    s = ctx.choice('s', [0.125, 1.0, 40.0])
    got = m.normal_pdf(f32(ctx, 3.0 + u * s), 3.0, s)[0]
    ctx.check_eq(ctx.log(got * (s * math.sqrt(2 * math.pi))),
                 -0.5 * (u * u), 'definition', 1e-2)


CASES = [
    dict(name='poisson', fn=poisson, params=dict(kmax=12)),
    dict(name='binom', fn=binom, params=dict(nmax=12)),
    dict(name='normal', fn=normal),
    dict(name='array', fn=array, params=dict(n=3)),
    dict(name='logs', fn=logs, params=dict(kmax=8)),
    dict(name='ratio', fn=logpmf_real),
    dict(name='weights', fn=logpmf_at,
         params=dict(ks=[0.25, 0.5, 1.75, 2.5, 7.25, 31.5, 0.0, 3.0])),
    dict(name='large', fn=large, params=dict(ks=[100, 171, 400, 1000])),
    dict(name='tails', fn=tails),
    dict(name='poisson25', fn=poisson, tier='thorough', params=dict(kmax=25)),
    dict(name='binom25', fn=binom, tier='thorough', params=dict(nmax=25)),
]

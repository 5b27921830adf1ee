"""The SiPM (Gentile) and MAPM spectra and their likelihoods."""
import math
import warnings

BOUNDS = ('weights of the first 5 peaks, for every illumination in intervals '
          'between 0.05 and 5 p.e. with given crosstalk and every crosstalk '
          'in intervals between 0 and 0.41 at given illuminations, of up to 30 '
          'peaks for given illuminations up to 15 p.e. and crosstalks and '
          'an arbitrary pedestal; shapes at '
          '2 arbitrary charges for arbitrary pedestal and gain, 3 pairs of '
          'widths, 2 illuminations and crosstalks; likelihoods of 2 '
          'illuminations and 2 bins for an arbitrary pedestal; fitted curves of '
          '2 illuminations for 8 sets of values')
ASSUMPTIONS = ['arithmetic is over the reals, with exp(a + b) = exp(a) '
               'exp(b), exp(n log y) = y^n, monotonic',
               'peaks of probability below 1e-4 may be left out, as may '
               'contributions of such a probability']
SQ = math.sqrt(2 * math.pi)


def model(ctx, kind):
    warnings.simplefilter('ignore')
    if kind == 'gentile':
        return ctx.load('CHECLabPy.spectrum_fitters.gentile').sipm_gentile_spe
    return ctx.load('CHECLabPy.spectrum_fitters.mapm').mapm_spe


def power(x, n):
    r = 1
    for _ in range(n):
        r = r * x
    return r


def weights(ctx, kind, kmax, lam, lams, opct):
    """probability of a total of k p.e.: generalised (crosstalk) Poisson
    statistics"""
    e = ctx.exp(-lam)
    out = [e]
    for k in range(1, kmax):
        if kind == 'mapm':
            out.append(power(lam, k) * e / math.factorial(k))
            continue
        t = 0
        for j in range(1, k + 1):
            t = t + power(lam, j) * e / math.factorial(j) * \
                math.comb(k - 1, j - 1) * power(1 - opct, j) * \
                power(opct, k - j)
        out.append(t)
    return out


def bound(ctx, lam, lo, hi):
    """facts about exp on the interval"""
    e = ctx.exp(-lam)
    ctx.assume(ctx.all([e >= math.exp(-hi) * (1 - 1e-9),
                        e <= math.exp(-lo) * (1 + 1e-9)]))


def peaks(ctx, kind, kmax, lams, opcts=None, at=None):
    """narrow peaks at 0, 1, 2, ...: their heights give the weights"""
    lam = ctx.choice('lambda', lams)
    if isinstance(lam, tuple):
        lo, hi = lam
        lam = ctx.real('lam', lo, hi)
        bound(ctx, lam, lo, hi)
    es, ss = 2.0**-7, 2.0**-8
    # at an arbitrary pedestal
    ped = ctx.real('eped', -10, 10) if at else 0.0
    a = [ped, es, 1.0, ss]
    opct = None
    if kind == 'gentile':
        opct = ctx.choice('opct', opcts)
        if isinstance(opct, tuple):
            opct = ctx.real('p', *opct)
        a.append(opct)
    at = at or list(range(kmax))
    got = model(ctx, kind)(
        ctx.const([ped + float(k) for k in at]).astype('float32'), *a, lam)
    exp = weights(ctx, kind, kmax, lam, None, opct)
    got = dict(zip(at, got))
    for k in at:
        s = math.sqrt(k * ss * ss + es * es)
        ctx.check(got[k] * SQ * s <= exp[k] + 2e-5,
                  'weight of the peak not above')
        # terms below 1e-4 may be missing: together less than that, as the
        # crosstalk spreads each over the numbers of cells
        ctx.check(got[k] * SQ * s >= exp[k] - 2e-5 - 1e-4,
                  'weight of the peak not below')


def shape(ctx, kind, lams, opcts, widths, nx):
    """a sum of Gaussians around pedestal + k gain"""
    lam = ctx.choice('lambda', lams)
    opct = ctx.choice('opct', opcts) if kind == 'gentile' else None
    es, ss = ctx.choice('sigma', widths)
    eped = ctx.real('eped', -10, 10)
    spe = ctx.real('spe', 0.1, 40)
    xs = ctx.reals('x', nx, -30, 200)
    a = [eped, es, spe, ss] + ([opct] if kind == 'gentile' else [])
    got = model(ctx, kind)(ctx.const(xs).astype('float32'), *a, lam)
    exp = weights(ctx, kind, 40, lam, None, opct)
    for x, g in zip(xs, got):
        tot, slack = 0, 1e-6
        for k in range(40):
            if exp[k] < 1e-7:
                continue
            s = math.sqrt(k * ss * ss + es * es)
            u = (x - (eped + k * spe)) / s
            n = ctx.exp(-0.5 * (u * u)) / (SQ * s)
            tot = tot + exp[k] * n
            slack = slack + min(exp[k], 1e-4 * max(k, 1)) * n
        ctx.check(g <= tot * 1.00001 + 1e-6, 'not above the mixture')
        ctx.check(g >= tot * 0.99999 - slack, 'not below the mixture')


class Minuit:
    """iminuit 1.x: keeps the function it is given"""
    last = None

    def __init__(self, fcn, **kw):
        self.fcn = fcn
        self.names = list(kw.get('forced_parameters') or kw.get('name'))
        self.values = {n: kw.get(n, 0) for n in self.names}
        self.errors = dict(self.values)
        Minuit.last = self

    def migrad(self, *a, **k):
        pass

    hesse = migrad


def likelihood(ctx, kind, counts, n, free):
    """-2 log of the Poisson probability of the histograms, given the
    spectrum of each illumination with their areas"""
    import iminuit
    ctx.patch(iminuit, 'Minuit', Minuit)
    spe = model(ctx, kind)
    name = {'gentile': 'SiPMGentileFitter', 'mapm': 'MAPMFitter'}[kind]
    f = getattr(ctx.load('CHECLabPy.spectrum_fitters.' + kind), name)(n)
    nb = len(counts[0])
    f.n_bins, f.range = nb, (0.0, 2.0 * nb)
    x = [2.0 * b + 1 for b in range(nb)]
    f.apply(*[ctx.const([x[b] for b, c in enumerate(h) for _ in range(c)])
              for h in counts])
    v = dict(eped=-0.5, eped_sigma=1.5, spe=1.25, spe_sigma=0.5, opct=0.25)
    if kind == 'mapm':
        del v['opct']
    for i in range(n):
        v[f'lambda_{i}'] = 0.5 + i
    if free:
        v[free] = ctx.real(free, -1, 1)
    ctx.check(sorted(Minuit.last.names) == sorted(v), 'fit parameters')
    got = Minuit.last.fcn(*[v[k] for k in Minuit.last.names])
    exp = 0
    xs = ctx.const(x).astype('float32')
    for i, h in enumerate(counts):
        s = list(spe(xs, **{k.rstrip('0123456789'): u for k, u in v.items()
                            if k in ('lambda_' + str(i),) or
                            not k.startswith('lambda_')}))
        area = float(sum(a + b for a, b in zip(h, h[1:])))
        tot = 0
        for a, b in zip(s, s[1:]):
            tot = tot + (a + b)
        for c, u in zip(h, s):
            mu = u * (area / tot)
            exp = exp + 2 * (mu + math.lgamma(c + 1))
            if c:
                exp = exp - 2 * c * ctx.log(mu)
    ctx.check_eq(got, exp, 'likelihood', 1e-4)


def curve(ctx, kind, counts, n, free):
    """the curve of each illumination is its spectrum, with the fitted
    values, scaled to the area of its histogram"""
    import iminuit
    ctx.patch(iminuit, 'Minuit', Minuit)
    spe = model(ctx, kind)
    name = {'gentile': 'SiPMGentileFitter', 'mapm': 'MAPMFitter'}[kind]
    f = getattr(ctx.load('CHECLabPy.spectrum_fitters.' + kind), name)(n)
    nb = len(counts[0])
    f.n_bins, f.range = nb, (0.0, 2.0 * nb)
    v = dict(eped=-0.5, eped_sigma=1.5, spe=1.25, spe_sigma=0.5, opct=0.25)
    if kind == 'mapm':
        del v['opct']
    for i in range(n):
        v[f'lambda_{i}'] = 0.5 + i
    for k, values in free.items():
        v[k] = ctx.choice(k, values)

    class Fitted(Minuit):
        def migrad(self, *a, **k):
            self.values = {k: v[k] for k in self.names}

    ctx.patch(iminuit, 'Minuit', Fitted)
    f.apply(*[ctx.const([2.0 * b + 1 for b, c in enumerate(h)
                         for _ in range(c)]) for h in counts])
    x, y = f.fit_result_curve
    N = 10 * nb
    ctx.check(len(x) == N and len(y) == n, 'one curve per illumination')
    xs = ctx.const([2.0 * nb * i / (N - 1) for i in range(N)]) \
        .astype('float32')
    for i, h in enumerate(counts):
        s = list(spe(xs, **{k.rstrip('0123456789'): u for k, u in v.items()
                            if k in ('lambda_' + str(i),) or
                            not k.startswith('lambda_')}))
        for j in (0, 3, N // 2, N - 1):
            ctx.check_eq(y[i][j] * s[7], s[j] * y[i][7], 'fitted curve', 1e-4)


CASES = [
    dict(name='mapm', fn=peaks, params=dict(
        kind='mapm', kmax=5, lams=[(0.05, 0.1), (0.5, 0.6), (1.0, 1.1),
                                   (2.0, 2.2), (4.8, 5.0)])),
    dict(name='crosstalk', fn=peaks, params=dict(
        kind='gentile', kmax=5, lams=[0.3, 1.25],
        opcts=[(0.0, 0.05), (0.2, 0.22), (0.4, 0.41)])),
    dict(name='illumination', fn=peaks, params=dict(
        kind='gentile', kmax=5, lams=[(0.05, 0.1), (1.0, 1.1), (3.0, 3.2)],
        opcts=[0.0, 0.25, 0.75])),
    dict(name='mapmshape', fn=shape, params=dict(
        kind='mapm', lams=[0.7, 2.0], opcts=None, nx=2,
        widths=[(9.0, 2.0), (1.0, 0.0), (2.0, 7.0)])),
    dict(name='gentileshape', fn=shape, params=dict(
        kind='gentile', lams=[0.7, 2.0], opcts=[0.25, 0.5], nx=2,
        widths=[(9.0, 2.0), (1.0, 0.0), (2.0, 7.0)])),
    dict(name='bright', fn=peaks, params=dict(
        kind='gentile', kmax=31, lams=[4.0, 5.0], at=[1, 2, 5, 9, 14, 18, 23, 30],
        opcts=[0.25, 0.5])),
    dict(name='verybright', fn=peaks, params=dict(
        kind='gentile', kmax=28, lams=[12.0, 15.0], at=[1, 6, 12, 17, 20, 27],
        opcts=[0.0, 0.125])),
    dict(name='mapmbright', fn=peaks, params=dict(
        kind='mapm', kmax=24, lams=[(5.9, 6.0), (14.0, 14.1)],
        at=[1, 4, 9, 13, 16, 19, 23])),
    dict(name='likelihood', fn=likelihood, params=dict(
        kind='gentile', counts=[[3, 1], [0, 2]], n=2, free='eped')),
    dict(name='mlikelihood', fn=likelihood, params=dict(
        kind='mapm', counts=[[3, 0], [1, 2]], n=2, free='eped')),
    dict(name='likelihood3', fn=likelihood, params=dict(
        kind='gentile', counts=[[3, 1, 4]], n=1, free='eped')),
    dict(name='mlikelihood3', fn=likelihood, params=dict(
        kind='mapm', counts=[[1, 2, 5]], n=1, free='eped')),
    dict(name='curve', fn=curve, params=dict(
        kind='gentile', counts=[[3, 1], [1, 2]], n=2,
        free=dict(opct=[0.0, 0.25], lambda_1=[0.25, 2.5], eped=[-0.5, 1.0]))),
    dict(name='mcurve', fn=curve, params=dict(
        kind='mapm', counts=[[3, 1], [1, 2]], n=2,
        free=dict(spe=[1.25, 2.0], lambda_1=[0.25, 2.5], eped=[-0.5, 1.0]))),
]

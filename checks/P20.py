"""What the spectrum fit is started with, evaluates and reports."""
import os
import warnings

BOUNDS = ('1-3 illuminations, 3-4 parameters of which 0-2 per illumination, '
          'arbitrary start values, limits and fixed flags, set at '
          'construction, by update, by a configuration file (with entries nothing asks for) or from '
          'the last fit; histograms of 2-3 bins of up to 3 arbitrary charges each; '
          'arbitrary fit results')
ASSUMPTIONS = ['arithmetic is over the reals',
               'iminuit (a recording stand-in) minimises the function it is '
               'given from the start values and within the limits it is '
               'given, and reports values and errors by name',
               'YAML delivers what was saved']


class Minuit:
    """iminuit 1.x: records what it is given"""
    result = None
    log = []

    def __init__(self, fcn, **kw):
        names = kw.get('forced_parameters') or kw.get('name')
        self.names = list(names)
        self.fcn = fcn
        self.kw = kw
        self.start = [kw.get(n, 0) for n in self.names]
        self.limits = [kw.get('limit_' + n) for n in self.names]
        self.fixed = [kw.get('fix_' + n, False) for n in self.names]
        self.errordef = kw.get('errordef')
        self.values = dict(zip(self.names, self.start))
        self.errors = {n: 0.1 for n in self.names}
        Minuit.log.append(self)

    def migrad(self, *a, **k):
        r = Minuit.result
        if r is not None:
            self.values = {n: r[n] for n in self.names}

    def hesse(self, *a, **k):
        self.errors = {n: 3.5 + i for i, n in enumerate(self.names)}


def setup(ctx):
    warnings.simplefilter('ignore')
    Minuit.log = []
    Minuit.result = None
    m = ctx.load('CHECLabPy.core.spectrum_fitter')
    import iminuit
    ctx.patch(iminuit, 'Minuit', Minuit)
    seen = []

    class Fitter(m.SpectrumFitter):
        @staticmethod
        def _get_spectra(n, x, lookup, *values):
            return [values[lookup[i]['a']] * x * x + values[lookup[i]['b']]
                    for i in range(n)]

        @staticmethod
        def _get_likelihood(n, x, y, lookup, *values):
            seen.append(dict(
                n=n, x=list(x), y=[list(y[i]) for i in range(n)],
                p=[{k: values[v] for k, v in lookup[i].items()}
                   for i in range(n)]))
            return 1.5
    return m, Fitter, seen


class Spec:
    def __init__(self, name, initial, limits, fixed, multi):
        self.name, self.initial, self.limits = name, initial, limits
        self.fixed, self.multi = fixed, multi


def make(ctx, tag, name, multi, fixed=True):
    lo = ctx.real(f'{tag}{name}_lo', -10, 0)
    hi = ctx.real(f'{tag}{name}_hi', 0, 10)
    return Spec(name, ctx.real(f'{tag}{name}_0', -10, 10), (lo, hi),
                ctx.bool(f'{tag}{name}_fix') if fixed else False, multi)


def param(m, s):
    return m.SpectrumParameter(s.name, s.initial, s.limits, s.fixed,
                               multi=s.multi)


def expand(specs, n):
    """the fit parameters in order: name, specification"""
    out = []
    for s in specs:
        if s.multi:
            out += [(s.name + str(i), s) for i in range(n)]
        else:
            out.append((s.name, s))
    return out


def check_start(ctx, specs, n):
    mi = Minuit.log[-1]
    exp = expand(specs, n)
    ctx.check(mi.names == [k for k, _ in exp], 'fit parameters')
    ctx.check_eq(mi.start, [s.initial for _, s in exp], 'start values', 1e-9)
    ctx.check_eq([list(v) for v in mi.limits],
                 [list(s.limits) for _, s in exp], 'limits', 1e-9)
    for f, (_, s) in zip(mi.fixed, exp):
        ctx.check(ctx.all([ctx.implies(f, s.fixed), ctx.implies(s.fixed, f)]),
                  'fixed')
    ctx.check(mi.errordef == 1, 'errors of one standard deviation')


def check_function(ctx, seen, specs, n):
    """each illumination is evaluated with its own values"""
    mi = Minuit.log[-1]
    v = [ctx.real(f'v{len(Minuit.log)}_{k}', -10, 10) for k in mi.names]
    del seen[:]
    ctx.check_eq(mi.fcn(*v), 1.5, 'the likelihood is minimised', 0)
    d = dict(zip(mi.names, v))
    ctx.check(len(seen) == 1 and seen[0]['n'] == n, 'illuminations')
    for i in range(n):
        p = seen[0]['p'][i]
        ctx.check(sorted(p) == sorted(s.name for s in specs), 'parameters')
        ctx.check_eq([p[s.name] for s in specs],
                     [d[s.name + str(i)] if s.multi else d[s.name]
                      for s in specs], 'values of the illumination', 1e-9)


def charges(ctx, tag, n, k):
    return [ctx.const(ctx.reals(f'{tag}{i}_', k, -3, 9)) for i in range(n)]


def bookkeeping(ctx, n, multi, change):
    """construction, update and start from the last fit"""
    m, Fitter, seen = setup(ctx)
    names = ['a', 'b', 'lambda_'][:len(multi)]
    specs = [make(ctx, 's', k, u) for k, u in zip(names, multi)]
    f = Fitter(n)
    f.parameters = m.SpectrumParameterCollection(
        [param(m, s) for s in specs], n)
    f.n_bins, f.range = 2, (0, 6)
    q = [ctx.const([1.0, 2.0, 4.0 + i]) for i in range(n)]
    f.apply(*q)
    check_start(ctx, specs, n)
    check_function(ctx, seen, specs, n)
    new = [make(ctx, 'u', k, u) for k, u in change]
    f.parameters.update([param(m, s) for s in new])
    by = {s.name: s for s in new}
    specs = [by.get(s.name, s) for s in specs]
    res = {k: ctx.real('r_' + k, -10, 10) for k, _ in expand(specs, n)}
    Minuit.result = res
    f.apply(*q)
    check_start(ctx, specs, n)
    check_function(ctx, seen, specs, n)
    ctx.check(list(f.fit_result_values) == list(res), 'reported parameters')
    ctx.check_eq(list(f.fit_result_values.values()), list(res.values()),
                 'reported values', 0)
    ctx.check([float(v) for v in f.fit_result_errors.values()] ==
              [3.5 + i for i in range(len(res))], 'reported errors')
    ctx.check(len(f.parameters) == len(specs), 'number of parameters')
    ill = ctx.choice('ill', list(range(n)) + [None])
    f.update_initial(*([] if ill is None else [ill]))
    f.apply(*q)
    specs = [Spec(s.name, res[s.name + str(ill or 0)] if s.multi
                  else res[s.name], s.limits, s.fixed, s.multi)
             for s in specs]
    check_start(ctx, specs, n)
    check_function(ctx, seen, specs, n)
    # a fitter without a fit
    g = Fitter(n)
    g.parameters = m.SpectrumParameterCollection(
        [param(m, s) for s in specs], n)
    ctx.check(ctx.raises(g.update_initial, ValueError) is not None,
              'no fit yet')
    e = ctx.raises(lambda: f.apply(*(q + q[:1])), AssertionError, ValueError)
    ctx.check(e is not None, 'one set of charges per illumination')


def histogram(ctx, n, k, n_bins, rng, again=False):
    """charges in range are counted in their bin, the last edge included"""
    m, Fitter, seen = setup(ctx)
    f = Fitter(n)
    f.parameters = m.SpectrumParameterCollection(
        [m.SpectrumParameter('a', 1.0, (0, 2)),
         m.SpectrumParameter('b', 1.0, (0, 2), multi=True)], n)
    f.n_bins, f.range = n_bins, rng
    if again:                     # nothing is left of an earlier fit
        f.apply(*[ctx.const([rng[0] + 0.1] * 3)] * n)
    q = charges(ctx, 'q', n, k)
    f.apply(*q)
    w = (rng[1] - rng[0]) / n_bins
    edges = [rng[0] + i * w for i in range(n_bins + 1)]
    exp = []
    for c in q:
        h = [0] * n_bins
        for v in c:
            for i in range(n_bins):
                if ctx.fork(v >= edges[i]) and \
                        (ctx.fork(v < edges[i + 1]) if i < n_bins - 1
                         else ctx.fork(v <= edges[i + 1])):
                    h[i] += 1
                    break
        exp.append(h)
    x, y, e = f.charge_histogram
    mid = [(a + b) / 2 for a, b in zip(edges, edges[1:])]
    ctx.check_eq(list(x), mid, 'centres', 1e-6)
    ctx.check_eq(list(e), edges, 'edges', 1e-6)
    ctx.check([[int(v) for v in r] for r in y] == exp, 'counts')
    mi = Minuit.log[-1]
    del seen[:]
    mi.fcn(*mi.start)
    ctx.check_eq(seen[0]['x'], mid, 'charges of the likelihood', 1e-6)
    ctx.check([[int(v) for v in r] for r in seen[0]['y']] == exp,
              'counts of the likelihood')


def undefined(ctx):
    """values where the likelihood cannot be evaluated are never the best"""
    m, Fitter, seen = setup(ctx)

    class Bad(Fitter):
        @staticmethod
        def _get_likelihood(n, x, y, lookup, *values):
            if values[0] < 0:
                raise ZeroDivisionError
            return values[0] + values[1]
    f = Bad(1)
    f.parameters = m.SpectrumParameterCollection(
        [m.SpectrumParameter('a', 1.0, (0, 2)),
         m.SpectrumParameter('b', 1.0, (0, 2), multi=True)], 1)
    f.n_bins, f.range = 2, (0, 6)
    f.apply(ctx.const([1.0, 2.0]))
    a = ctx.real('a', -10, 10)
    b = ctx.real('b', -10, 10)
    v = Minuit.log[-1].fcn(a, b)
    if ctx.fork(a < 0):
        ctx.check(v > 1e30, 'not the best')
    else:
        ctx.check_eq(v, a + b, 'likelihood')


def curve(ctx, n, n_bins, counts):
    """the fitted curve over the range, with the area of the histogram"""
    m, Fitter, seen = setup(ctx)
    f = Fitter(n)
    f.parameters = m.SpectrumParameterCollection(
        [m.SpectrumParameter('a', 1.0, (0, 2)),
         m.SpectrumParameter('b', 1.0, (0, 2), multi=True)], n)
    f.n_bins, f.range = n_bins, (0, 8)
    w = 8 / n_bins
    q = [ctx.const([w * (b + 0.5) for b, c in enumerate(h)
                    for _ in range(c)]) for h in counts]
    Minuit.result = dict(a=ctx.real('ra', 0.5, 2), **{
        f'b{i}': ctx.real(f'rb{i}', 0.5, 2) for i in range(n)})
    f.apply(*q)
    x, y = f.fit_result_curve
    N = 10 * n_bins
    ctx.check(len(y) == n and len(x) == N, 'points')
    xs = [8 * i / (N - 1) for i in range(N)]
    ctx.check_eq(list(x), xs, 'positions', 1e-5)
    for i in range(n):
        h = counts[i]
        area = sum((a + b) / 2 * w for a, b in zip(h, h[1:]))
        a, b = Minuit.result['a'], Minuit.result[f'b{i}']
        v = [a * t * t + b for t in xs]
        tot = 0
        for j in range(N - 1):
            tot = tot + (v[j] + v[j + 1]) / 2 * (xs[j + 1] - xs[j])
        for j in (0, 1, N // 2, N - 1):
            ctx.check_eq(y[i][j] * tot, v[j] * area, 'fitted curve', 1e-2)
    ctx.check([[int(v) for v in r] for r in f.charge_histogram[1]] == counts,
              'histogram unchanged')


def yaml_file(ctx, d):
    """a configuration file holding d"""
    p = os.path.join(ctx.tmpdir(), 'fit.yml')
    if ctx.sym:
        import yaml
        box = [d]

        def copy(v):
            if isinstance(v, dict):
                return {k: copy(x) for k, x in v.items()}
            if isinstance(v, (list, tuple)):
                return [copy(x) for x in v]
            return v

        def dump(data, stream=None, *a, **k):
            box[0] = copy(data)

        for n in ('safe_load', 'load', 'full_load'):
            ctx.patch(yaml, n, lambda *a, **k: copy(box[0]))
        for n in ('safe_dump', 'dump'):
            ctx.patch(yaml, n, dump)
        open(p, 'w').close()
    else:
        import yaml
        with open(p, 'w') as f:
            if d is not None:
                yaml.safe_dump(d, f)
    return p


def config(ctx, n, rng=(-1.25, 4.75), unused=()):
    """only what the file lists is replaced, and takes effect"""
    m, Fitter, seen = setup(ctx)
    specs = [make(ctx, 's', k, u)
             for k, u in (('a', False), ('b', True), ('c', False))]
    f = Fitter(n)
    f.parameters = m.SpectrumParameterCollection(
        [param(m, s) for s in specs], n)
    f.n_bins, f.range = 4, (0, 6)
    d = {}
    for part in ('initial', 'limits', 'fixed'):
        for s in specs[:2]:
            if ctx.choice(f'{part}_{s.name}', [False, True]):
                new = make(ctx, part[0], s.name, s.multi)
                v = getattr(new, part)
                d.setdefault(part, {})[s.name] = \
                    list(v) if part == 'limits' else v
                setattr(s, part, v)
    hist = ctx.choice('hist', [False, True])
    if hist:
        d['n_bins'], d['range'] = 3, list(rng)
    for k in unused:              # entries that nothing asks for
        if '.' in k:
            a, b = k.split('.')
            d.setdefault(a, {})[b] = [0.5, 1.5] if a == 'limits' else 1.5
        else:
            d[k] = 7
    f.load_config(yaml_file(ctx, d or None))
    f.apply(*[ctx.const([1.0, 2.0])] * n)
    check_start(ctx, specs, n)
    b, r = (3, rng) if hist else (4, (0, 6))
    ctx.check(len(f.charge_histogram[0]) == b, 'number of bins')
    e = f.charge_histogram[2]
    ctx.check_eq([e[0], e[b]], list(r), 'range', 1e-6)


def roundtrip(ctx, n):
    """a saved configuration restores the fitter"""
    m, Fitter, seen = setup(ctx)
    specs = [make(ctx, 's', k, u) for k, u in (('a', False), ('b', True))]
    other = [make(ctx, 'o', k, u) for k, u in (('a', False), ('b', True))]
    out = []
    path = yaml_file(ctx, None)
    for s, bins in ((specs, 3), (other, 4)):
        f = Fitter(n)
        f.parameters = m.SpectrumParameterCollection(
            [param(m, x) for x in s], n)
        f.n_bins, f.range = bins, (-1.0, float(bins))
        out.append(f)
    q = [ctx.const([1.0, 2.0])] * n
    if ctx.choice('fit', [False, True]):       # save what was fitted
        Minuit.result = {k: ctx.real('r_' + k, -10, 10)
                         for k, _ in expand(specs, n)}
        out[0].apply(*q)
        out[0].update_initial()
        specs = [Spec(s.name, Minuit.result[s.name + '0' if s.multi
                                            else s.name],
                      s.limits, s.fixed, s.multi) for s in specs]
    out[0].save_config(path)
    out[1].load_config(path)
    out[1].apply(*q)
    check_start(ctx, specs, n)
    e = out[1].charge_histogram[2]
    ctx.check_eq(list(e), [-1, 1 / 3, 5 / 3, 3], 'range and bins', 1e-5)


CASES = [
    dict(name='one', fn=bookkeeping, params=dict(
        n=1, multi=[False, True], change=[('a', False)])),
    dict(name='two', fn=bookkeeping, params=dict(
        n=2, multi=[False, True, True], change=[('b', True)])),
    dict(name='become', fn=bookkeeping, params=dict(
        n=2, multi=[True, False, False],
        change=[('lambda_', True), ('a', False)])),
    dict(name='histogram', fn=histogram, params=dict(
        n=2, k=2, n_bins=2, rng=(0, 6))),
    dict(name='bins', fn=histogram, params=dict(
        n=1, k=3, n_bins=3, rng=(-2.0, 4.0))),
    dict(name='again', fn=histogram, params=dict(
        n=2, k=1, n_bins=3, rng=(-1.0, 5.0), again=True)),
    dict(name='undefined', fn=undefined, params={}),
    dict(name='curve', fn=curve, params=dict(
        n=2, n_bins=2, counts=[[3, 1], [2, 5]])),
    dict(name='config', fn=config, params=dict(n=2)),
    dict(name='unused', fn=config, params=dict(
        n=1, rng=(-6.5, 2.5), unused=['other', 'initial.z', 'limits.z'])),
    dict(name='roundtrip', fn=roundtrip, params=dict(n=2)),
    dict(name='more', fn=bookkeeping, params=dict(
        n=3, multi=[False, True], change=[('a', False)])),
    dict(name='three', fn=bookkeeping, tier='thorough', params=dict(
        n=4, multi=[False, True, True], change=[('b', True),
                                                ('lambda_', False)])),
    dict(name='curve3', fn=curve, tier='thorough', params=dict(
        n=2, n_bins=3, counts=[[3, 1, 0], [2, 5, 4]])),
]

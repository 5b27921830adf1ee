"""Extraction of the spectrum of every pixel, and what is shown of it."""
import copy
import functools
import os
import sys
import threading
import types
import warnings

import lib

BOUNDS = ('1-3 files of 1-3 events of 2-3 pixels with arbitrary charges, '
          'fitted one after the other, by 2 processes finishing in any '
          'order, or by 2 that take turns at every use of what they share; arbitrary fit results (a function of the charges that '
          'tells every pixel, file and event apart), start values given or '
          'from a configuration file; every pixel plotted')
ASSUMPTIONS = ['arithmetic is over the reals',
               'the fit of one pixel (P20, P21) is a stand-in',
               'a process pool applies the function to every item, in any '
               'order or interleaved, and its managed dictionaries keep copies',
               'pandas.HDFStore stores what it is given (an in-memory '
               'stand-in here; sampled paths are replayed on the real one)',
               'matplotlib draws what it is given']


def copied(ctx, v):
    if isinstance(v, dict):
        return {k: copied(ctx, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(copied(ctx, x) for x in v)
    if hasattr(v, 'copy') and hasattr(v, 'shape'):
        return v.copy()
    return v


class Abort(BaseException):
    """ends the processes left when a path is given up"""


class Processes:
    """runs jobs side by side; every use of what they share is a point where
    another one may go on"""
    now = None

    def __init__(self, ctx, jobs):
        self.ctx, self.error, self.turn = ctx, None, {}
        self.go = [threading.Semaphore(0) for _ in jobs]
        self.back = threading.Semaphore(0)
        self.left = list(range(len(jobs)))
        self.threads = [threading.Thread(target=self.work, args=(i, j),
                                         daemon=True)
                        for i, j in enumerate(jobs)]

    def work(self, i, job):
        self.turn[threading.get_ident()] = i
        self.go[i].acquire()
        try:
            if self.error is None:
                job()
        except Abort:
            pass
        except BaseException as e:
            self.error = e
        self.left.remove(i)
        self.back.release()

    def point(self):
        i = self.turn.get(threading.get_ident())
        if i is None:
            return
        self.back.release()
        self.go[i].acquire()
        if self.error is not None:
            raise Abort

    def run(self):
        Processes.now = self
        for t in self.threads:
            t.start()
        n = 0
        try:
            while self.left and self.error is None:
                i = self.ctx.choice(f'step{n}', list(self.left)) \
                    if len(self.left) > 1 else self.left[0]
                n += 1
                self.go[i].release()
                self.back.acquire()
        except BaseException as e:
            self.error = e
        while self.left:
            self.go[self.left[0]].release()
            self.back.acquire()
        for t in self.threads:
            t.join()
        Processes.now = None
        if self.error is not None:
            raise self.error


def point():
    if Processes.now is not None:
        Processes.now.point()


class Managed(dict):
    """what is put in is pickled"""
    ctx = None

    def __setitem__(self, k, v):
        point()
        super().__setitem__(k, copied(self.ctx, v))

    def __getitem__(self, k):
        point()
        return copied(self.ctx, super().__getitem__(k))

    def __len__(self):
        point()
        return super().__len__()

    def __contains__(self, k):
        point()
        return super().__contains__(k)

    def update(self, *a, **k):
        point()
        super().update(copied(self.ctx, dict(*a, **k)))

    def setdefault(self, k, d=None):
        point()
        return copied(self.ctx, super().setdefault(k, copied(self.ctx, d)))

    def get(self, k, d=None):
        return self[k] if k in self else d

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]


def isolated(v, depth=4):
    """every process has its copy, but for what is managed"""
    if isinstance(v, (Managed, type, types.ModuleType, types.FunctionType)) \
            or depth == 0:
        return v
    if isinstance(v, functools.partial):
        return functools.partial(isolated(v.func, depth),
                                 *isolated(v.args, depth),
                                 **isolated(v.keywords, depth))
    if isinstance(v, types.MethodType):
        return types.MethodType(v.__func__, isolated(v.__self__, depth))
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
        return type(v)(isolated(x, depth - 1) for x in v)
    if type(v) is dict:
        return {k: isolated(x, depth - 1) for k, x in v.items()}
    if hasattr(v, '__dict__') and not hasattr(v, 'shape') and \
            'CHECLabPy' in type(v).__module__ or hasattr(v, 'apply'):
        v = copy.copy(v)
        for k, x in list(vars(v).items()):
            setattr(v, k, isolated(x, depth - 1))
    return v


class Pool:
    order = None
    sizes = []
    race = False

    def __init__(self, processes=None, *a, **k):
        Pool.sizes.append(processes)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, fn, items, chunksize=None):
        items = list(items)
        out = {}
        if Pool.race:
            def job(i):
                out[i] = isolated(fn)(isolated(items[i]))
            Processes(Managed.ctx, [lambda i=i: job(i) for i in
                                    range(len(items))]).run()
            return [out[i] for i in range(len(items))]
        for i in Pool.order(len(items)):
            out[i] = fn(items[i])
        return [out[i] for i in range(len(items))]

    def imap(self, fn, items, chunksize=None):
        return iter(self.map(fn, items))

    imap_unordered = imap

    def starmap(self, fn, items, chunksize=None):
        return self.map(lambda a: fn(*a), items)

    def close(self):
        pass

    join = terminate = close


def processes(ctx):
    import multiprocessing

    def order(n):
        left, out = list(range(n)), []
        while left:
            i = ctx.choice(f'next{len(out)}', list(left)) \
                if len(left) > 1 else left[0]
            left.remove(i)
            out.append(i)
        return out
    Managed.ctx = ctx
    Pool.order, Pool.sizes = staticmethod(order), []
    ctx.patch(multiprocessing, 'Pool', Pool)
    ctx.patch(multiprocessing, 'Manager',
              lambda: types.SimpleNamespace(dict=Managed, list=list))


def found(charges, k):
    """what the stand-in fit finds"""
    v = 0.5 + k
    w = 1.0
    for q in charges:
        for x in q:
            w += 1.0 + k
            v = v + x * w
        w += 7.0
    return v


def value(charges, k):
    """the same, from the charges of the pixel in the order of the events"""
    terms, w = [], 1.0
    for q in charges:
        for x in q:
            w += 1.0 + k
            terms.append(w * x)
        w += 7.0
    v = 0.5 + k
    for t in reversed(terms):
        v = t + v
    return v


def dl1(ctx, io, path, q, mapping, col='charge'):
    n_ev, n_pix = len(q), len(q[0])
    with io.HDF5Writer(path) as w:
        for e in range(n_ev):
            w.append(ctx.pd.DataFrame({
                'iev': ctx.const([e] * n_pix),
                'pixel': ctx.const(list(range(n_pix))),
                'other': ctx.const([0.25] * n_pix),
                col: ctx.const(q[e])}))
        w.add_mapping(mapping)
        w.add_metadata(n_events=n_ev, n_pixels=n_pix, n_modules=1,
                       n_superpixels_per_module=1, n_samples=128,
                       is_mc=False, camera_version='1.0.1')


def a_mapping(ctx, n_pix, k=0.0):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        df = ctx.pd.DataFrame(dict(
            pixel=list(range(n_pix)),
            xpix=[0.01 * p + k for p in range(n_pix)],
            ypix=[0.02 * p + k for p in range(n_pix)],
            row=list(range(n_pix)), col=[0] * n_pix))
        df.metadata = dict(size=0.01, n_pixels=n_pix, n_rows=n_pix,
                           n_columns=1)
    return df


def setup(ctx, events, n_pix):
    warnings.simplefilter('ignore')
    fig = lib.mpl(ctx)
    processes(ctx)
    ex = ctx.load('CHECLabPy.scripts.extract_spe')
    io = ctx.load('CHECLabPy.core.io')
    core = ctx.load('CHECLabPy.core.spectrum_fitter')
    fac = ctx.load('CHECLabPy.core.factory').SpectrumFitterFactory
    made = []

    class Probe(core.SpectrumFitter):
        def __init__(self, n_illuminations):
            super().__init__(n_illuminations)
            P = core.SpectrumParameter
            self.parameters = core.SpectrumParameterCollection([
                P('eped', 0.25, (-1, 1)), P('spe', 2.5, (0, 9)),
                P('lambda_', 0.75, (0, 5), multi=True)], n_illuminations)
            self.calls, self.starts = [], []
            made.append(self)

        def apply(self, *charges):
            assert len(charges) == self.n_illuminations
            q = [list(c) for c in charges]
            self.calls.append(q)
            self.starts.append({p.name: p.initial
                                for p in self.parameters})
            n = self.parameters.parameter_names
            self.fit_result_values = {k: found(q, i)
                                      for i, k in enumerate(n)}
            self.fit_result_errors = {k: found(q, i + 10)
                                      for i, k in enumerate(n)}
            self.charge_hist_x = ctx.const([found(q, 20), 1.0])
            self.charge_hist_y = [ctx.const([found([c], 21), 1.0])
                                  for c in q]
            self.charge_hist_edges = ctx.const([found(q, 22), 1.0, 2.0])

        @property
        def fit_result_curve(self):
            q = self.calls[-1]
            return (ctx.const([found(q, 23), 1.0]),
                    [ctx.const([found([c], 24), 1.0]) for c in q])
    ctx.patch(fac, 'subclasses', list(fac.subclasses) + [Probe])
    ctx.patch(fac, 'subclass_names', list(fac.subclass_names) + ['Probe'])
    d = ctx.tmpdir()
    q, paths, maps = [], [], []
    for i, n in enumerate(events):
        q.append([[ctx.real(f'q{i}_{e}_{p}', -10, 100)
                   for p in range(n_pix)] for e in range(n)])
        paths.append(os.path.join(d, f'run{7 - i}_dl1.h5'))
        maps.append(a_mapping(ctx, n_pix, 0.5 * i))
        dl1(ctx, io, paths[-1], q[-1], maps[-1])
    return ex, io, fig, d, q, paths, maps, made


def argv(ctx, *a):
    ctx.patch(sys, 'argv', ['prog'] + [str(x) for x in a])


def of_pixel(q, p):
    return [[row[p] for row in f] for f in q]


NAMES = ['eped', 'spe']


def extract(ctx, events, n_pix, n_proc=1, config=False, files=None,
            race=False):
    ex, io, fig, d, q, paths, maps, made = setup(ctx, events, n_pix)
    Pool.race = race
    if files:                   # in any order, the same one twice
        q, paths, maps = ([v[i] for i in files] for v in (q, paths, maps))
        events = [events[i] for i in files]
    n_ill = len(events)
    out = os.path.join(d, 'spe.h5')
    args = ['-f', *paths, '-o', out, '-C', 'charge', '-s', 'Probe',
            '--n_processes', n_proc]
    initial = dict(eped=0.25, spe=2.5, lambda_=0.75)
    if config:
        import yaml
        c = os.path.join(d, 'c.yml')
        with open(c, 'w') as f:
            yaml.safe_dump(dict(initial=dict(spe=3.5, lambda_=1.25)), f)
        initial.update(spe=3.5, lambda_=1.25)
        args += ['-c', c]
    argv(ctx, *args)
    ex.main()
    ctx.check(made and all(s == initial for f in made for s in f.starts),
              'every fit starts from the configured values')
    names = NAMES + [f'lambda_{i}' for i in range(n_ill)]
    with io.HDF5Reader(out) as r:
        values, errors, arrays = (r.read(k) for k in
                                  ('values', 'errors', 'arrays'))
        mapping, meta = r.get_mapping(), r.get_metadata()
    for df, k0, what in ((values, 0, 'values'), (errors, 10, 'errors')):
        ctx.check(sorted(df.index) == list(range(n_pix)),
                  what + ': one row per pixel')
        ctx.check(set(df.columns) == set(names), what + ': by name')
        for p in range(n_pix):
            c = of_pixel(q, p)
            ctx.check_eq([df.loc[p, n] for n in names],
                         [value(c, k0 + i) for i, n in enumerate(names)],
                         what + ' of the fit of the pixel')
    ctx.check(sorted(arrays.index) == list(range(n_pix)),
              'arrays: one row per pixel')
    for p in range(n_pix):
        c = of_pixel(q, p)
        a = arrays.loc[p]
        ctx.check_eq(list(a['charge_hist_x']), [value(c, 20), 1.0],
                     'histogram of the pixel')
        ctx.check_eq(list(a['charge_hist_edges']), [value(c, 22), 1.0, 2.0],
                     'edges of the pixel')
        ctx.check_eq(list(a['fit_x']), [value(c, 23), 1.0],
                     'curve of the pixel')
        for i in range(n_ill):
            ctx.check_eq(list(a['charge_hist_y'][i]),
                         [value([c[i]], 21), 1.0],
                         'counts of the illumination')
            ctx.check_eq(list(a['fit_y'][i]), [value([c[i]], 24), 1.0],
                         'curve of the illumination')
    exp = {k: initial[k] for k in NAMES}
    exp.update({f'lambda_{i}': initial['lambda_'] for i in range(n_ill)})
    ctx.check(list(meta['files']) == paths, 'files')
    ctx.check(meta['fitter'] == 'Probe', 'fitter')
    ctx.check(meta['n_illuminations'] == n_ill, 'number of illuminations')
    ctx.check(meta['n_pixels'] == n_pix, 'number of pixels')
    ctx.check(dict(meta['initial']) == exp, 'start values')
    ctx.check(list(mapping['xpix']) == list(maps[0]['xpix']),
              'mapping of the first file')
    ctx.check(dict(mapping.metadata) == dict(maps[0].metadata),
              'metadata of the mapping')
    ctx.observe('values', [values.loc[p, n] for p in range(n_pix)
                           for n in names])


def shown(ctx, f, c, initial, fmt=True):
    """the spectra drawn in a figure are those of the charges c"""
    n_ill = len(c)
    ax = [a for a in f.axes if a.lines]
    ctx.check(len(ax) == 1, 'one set of axes')
    ax = ax[0]
    ctx.check(len(ax.lines) == n_ill and len(ax.hists) == n_ill,
              'every illumination is drawn')
    names = NAMES + [f'lambda_{i}' for i in range(n_ill)]
    for i in range(n_ill):
        (x, y), kw = ax.lines[i][0][:2], ax.lines[i][1]
        ctx.check_eq(list(x), [value(c, 23), 1.0], 'curve')
        ctx.check_eq(list(y), [value([c[i]], 24), 1.0],
                     'curve of the illumination')
        a, hk = ax.hists[i]
        ctx.check_eq(list(a[0]), [value(c, 20), 1.0], 'histogram')
        ctx.check_eq(list(hk['weights']), [value([c[i]], 21), 1.0],
                     'counts of the illumination')
        ctx.check_eq(list(hk['bins']), [value(c, 22), 1.0, 2.0], 'edges')
        ctx.check(kw['color'] == hk['color'],
                  'histogram and curve share a colour')
    ctx.check(len({ax.lines[i][1]['color'] for i in range(n_ill)}) == n_ill,
              'illuminations differ in colour')
    tabs = [t for a in f.axes for t in a.tables]
    ctx.check(len(tabs) == 1 and list(tabs[0]['rowLabels']) == names,
              'table of the parameters')


def drawn(ctx, args, n, c):
    """what the plotter of spectra is given for the charges c"""
    hx, hy, he, fx, fy, v, er, ini = args
    ctx.check_eq(list(hx), [value(c, 20), 1.0], 'histogram of the pixel')
    ctx.check_eq(list(he), [value(c, 22), 1.0, 2.0], 'edges of the pixel')
    ctx.check_eq(list(fx), [value(c, 23), 1.0], 'curve of the pixel')
    for i in range(n):
        ctx.check_eq(list(hy[i]), [value([c[i]], 21), 1.0],
                     'counts of the illumination')
        ctx.check_eq(list(fy[i]), [value([c[i]], 24), 1.0],
                     'curve of the illumination')
    names = NAMES + [f'lambda_{i}' for i in range(n)]
    ctx.check_eq([v[k] for k in names],
                 [value(c, i) for i in range(len(names))], 'values shown')
    ctx.check_eq([er[k] for k in names],
                 [value(c, i + 10) for i in range(len(names))],
                 'errors shown')
    ctx.check([ini[k] for k in names] == [0.25, 2.5] + [0.75] * n,
              'start values shown')


def plot(ctx, events, n_pix):
    """plot mode: the spectrum of the pixel asked for"""
    ex, io, fig, d, q, paths, maps, made = setup(ctx, events, n_pix)
    p = ctx.choice('pixel', list(range(n_pix)))
    spe = ctx.load('CHECLabPy.plotting.spe').SpectrumFitPlotter
    log = []

    class Plotter:
        def __init__(self, n):
            self.n = n
            self.fig = lib.Figure([])

        def plot(self, *a):
            log.append((self.n, a))

        def show(self):
            log.append('show')
    ctx.patch(ex, 'SpectrumFitPlotter', Plotter)
    argv(ctx, '-f', *paths, '-o', os.path.join(d, 'spe.h5'), '-C', 'charge',
         '-s', 'Probe', '-p', p)
    e = ctx.raises(ex.main, SystemExit)
    ctx.check(isinstance(e, SystemExit), 'plot mode ends after the plot')
    c = of_pixel(q, p)
    ctx.check(len(log) == 2 and log[1] == 'show', 'one plot, shown')
    n, args = log[0]
    ctx.check(n == len(events), 'number of illuminations')
    drawn(ctx, args, n, c)


def spectrum(ctx, n_ill):
    """what the plot of a spectrum draws"""
    warnings.simplefilter('ignore')
    fig = lib.mpl(ctx)
    spe = ctx.load('CHECLabPy.plotting.spe')
    c = [ctx.reals(f'q{i}_', 2, -10, 100) for i in range(n_ill)]
    names = NAMES + [f'lambda_{i}' for i in range(n_ill)]
    v = {k: 0.125 + i for i, k in enumerate(names)}
    er = {k: 10.125 + i for i, k in enumerate(names)}
    ini = {k: 20.5 + i for i, k in enumerate(names)}
    p = spe.SpectrumFitPlotter(n_ill)
    p.plot(ctx.const([value(c, 20), 1.0]),
           [ctx.const([value([x], 21), 1.0]) for x in c],
           ctx.const([value(c, 22), 1.0, 2.0]),
           ctx.const([value(c, 23), 1.0]),
           [ctx.const([value([x], 24), 1.0]) for x in c], v, er, ini)
    shown(ctx, p.fig, c, ini)
    ax = [a for a in p.fig.axes if a.lines][0]
    for i in range(n_ill):
        lab = ax.lines[i][1]['label']
        k = f'lambda_{i}'
        ctx.check(f'{v[k]:.3f}' in lab and f'{er[k]:.3f}' in lab and
                  f'λ_{i}' in lab, 'label of the illumination')
    t = [t for a in p.fig.axes for t in a.tables][0]
    for k, row in zip(names, t['cellText']):
        ctx.check(row == ['%.3g' % ini[k], '%.3f ± %.3f' % (v[k], er[k])],
                  'start and fitted value of the parameter')


CASES = [
    dict(name='extract', fn=extract, params=dict(events=[2, 1], n_pix=2)),
    dict(name='extract1', fn=extract, params=dict(events=[2], n_pix=3)),
    dict(name='extract3', fn=extract, params=dict(events=[1, 3, 2],
                                                  n_pix=2)),
    dict(name='config', fn=extract, params=dict(events=[1, 2], n_pix=2,
                                                config=True)),
    dict(name='pool', fn=extract, params=dict(events=[2, 1], n_pix=3,
                                              n_proc=2)),
    dict(name='race', fn=extract, params=dict(events=[1], n_pix=2, n_proc=2,
                                              race=True)),
    dict(name='files', fn=extract, params=dict(events=[2, 1], n_pix=2,
                                               files=[0, 1, 0])),
    dict(name='plot', fn=plot, params=dict(events=[2, 1], n_pix=3)),
    dict(name='spectrum1', fn=spectrum, params=dict(n_ill=1)),
    dict(name='spectrum3', fn=spectrum, params=dict(n_ill=3)),
    dict(name='pool4', fn=extract, params=dict(events=[2, 1, 1], n_pix=4,
                                               n_proc=3), tier='thorough'),
]

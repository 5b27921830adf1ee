"""Stand-ins shared by the checks."""
import os
import sys
import types
import warnings


def _entry(table, i):
    """outside of its tables the library delivers something"""
    try:
        return table[i]
    except (IndexError, TypeError):
        return -77


def tio(ctx, records, n_pix, n_samp, is_r1, n_modules=1, n_sp=None,
        tables=None, run_id=5, camera_version='1.1.0', mapping=None):
    """target_io / target_calib stand-ins delivering the given records.
    A record: dict(samples=[[..]], fci, stale, missing, tack, s, ns)."""
    log = []

    class WaveformArrayReader:
        def __init__(self, path, skip=2, skip_end=1):
            log.append(('open', path, skip, skip_end))
            self.fR1 = is_r1
            self.fNEvents = len(records)
            self.fRunID = run_id
            self.fNPixels = n_pix
            self.fNSuperpixelsPerModule = n_sp or max(1, n_pix // 4)
            self.fNModules = n_modules
            self.fNSamples = n_samp
            self.fCameraVersion = camera_version

        def _get(self, iev, samples):
            r = records[iev]
            # the library fills the array it is given
            want = 'float32' if is_r1 else 'uint16'
            if str(getattr(samples, 'dtype', want)) not in (want, 'None') \
                    or samples.shape != (n_pix, n_samp):
                raise TypeError(f'incompatible array: {samples.dtype}')
            for p in range(n_pix):
                for s in range(n_samp):
                    samples[p, s] = r['samples'][p][s]
            return (r['fci'], r['stale'], r['missing'], r['tack'], r['s'],
                    r['ns'])

        def GetR0Event(self, iev, samples):
            if is_r1:
                raise RuntimeError('R0 event requested from an R1 file')
            return self._get(iev, samples)

        def GetR1Event(self, iev, samples):
            if not is_r1:
                raise RuntimeError('R1 event requested from an R0 file')
            return self._get(iev, samples)

        def GetSN(self, tm):
            return _entry(tables['sn'], tm)

        def GetSiPMTemp(self, tm):
            return _entry(tables['sipm'], tm)

        def GetPrimaryTemp(self, tm):
            return _entry(tables['primary'], tm)

        def GetSPDAC(self, tm, sp):
            return _entry(_entry(tables['dac'], tm), sp)

        def GetSPHVON(self, tm, sp):
            return _entry(_entry(tables['hvon'], tm), sp)

    class CameraConfiguration:
        def __init__(self, version):
            self.version = version

        def GetMapping(self, singleModule=False):
            return mapping or ('mapping', self.version, singleModule)

        def GetNCells(self):
            return 4096

        def GetVersion(self):
            return self.version

        def GetReferencePulsePath(self):
            return '/ref/' + self.version

    a = types.ModuleType('target_io')
    a.WaveformArrayReader = WaveformArrayReader
    b = types.ModuleType('target_calib')
    b.CameraConfiguration = CameraConfiguration
    ctx.stub('target_io', a)
    ctx.stub('target_calib', b)
    return log


def touch(ctx, name='f.tio'):
    p = os.path.join(ctx.tmpdir(), name)
    open(p, 'w').close()
    return p


class Source:
    """iterable of waveforms with the attributes of a reader"""

    def __init__(self, events, n_pixels, n_samples):
        self.events = list(events)
        self.n_events = len(self.events)
        self.n_pixels = n_pixels
        self.n_samples = n_samples

    def __len__(self):
        return self.n_events

    def __iter__(self):
        return iter(self.events)

    def __getitem__(self, i):
        return self.events[i]


def camera(ctx, n_pix, edges, **extractors):
    """ctapipe with the given neighbours"""
    def module(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        ctx.stub(name, m)
        return m

    class CameraGeometry:
        def __init__(self, *a, **kw):
            self.neighbor_matrix_where = edges

    def neighbor_average_waveform(w, neighbors, lwt):
        out = []
        for p in range(w.shape[0]):
            v = [[w[q, s] for s in range(w.shape[1])]
                 for a, q in neighbors if a == p]
            v += [[w[p, s] for s in range(w.shape[1])]] * lwt
            out.append([sum(r[s] for r in v) / len(v) if v else 0.0
                        for s in range(w.shape[1])])
        return ctx.const(out)
    ex = module('ctapipe.image.extractor',
                neighbor_average_waveform=neighbor_average_waveform,
                **extractors)
    im = module('ctapipe.image', extractor=ex)
    ins = module('ctapipe.instrument', CameraGeometry=CameraGeometry)
    co = module('ctapipe.coordinates', EngineeringCameraFrame=dict)
    module('ctapipe', image=im, instrument=ins, coordinates=co)
    un = module('astropy.units', m=1.0, GHz=1.0, Quantity=lambda v, u: v)
    module('astropy', units=un)
    df = ctx.pd.DataFrame(dict(pixel=list(range(n_pix)),
                               xpix=[0.01 * p for p in range(n_pix)],
                               ypix=[0.02 * p for p in range(n_pix)]))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        df.metadata = dict(n_pixels=n_pix)
    return df


class Drawn:
    """a matplotlib object that notes what is asked of it: any method exists,
    its call is noted as (object, method, positional, named)"""

    def __init__(self, name, log, **attrs):
        self.__dict__['_name'] = name
        self.__dict__['_log'] = log
        self.__dict__.update(attrs)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        v = Drawn(f'{self._name}.{k}', self._log)
        self.__dict__[k] = v
        return v

    def __call__(self, *a, **kw):
        self._log.append((self._name, a, kw))
        return Drawn(self._name + '()', self._log)

    def __iter__(self):
        return iter([Drawn(f'{self._name}[{i}]', self._log)
                     for i in range(3)])

    def __getitem__(self, k):
        return Drawn(f'{self._name}[{k}]', self._log)


class Log(list):
    np = None


class Artist(Drawn):
    """something with one colour value per pixel"""

    def __init__(self, name, log, data=None, cmap=None, **kw):
        super().__init__(name, log, data=data, clim=kw.pop('clim', None),
                         shown=dict(kw), cmap=cmap, norm=kw.get('norm'))
        given = kw.get('array', data)
        if given is not None:
            self.data = None
            self.set_array(given)

    def __copy__(self):
        c = Artist(self._name, self._log)
        c.__dict__.update(self.__dict__)
        c.__dict__['shown'] = dict(self.shown)
        return c

    def get_array(self):
        return self.data

    def set_array(self, a):
        # matplotlib keeps a copy, without what is not finite
        if a is not None and hasattr(a, 'dtype'):
            a = self._log.np.ma.masked_invalid(a, copy=True)
        self.data = a
        if self.clim == 'data':
            self.clim = 'data before the last ones'

    set_data = set_array

    def set_clim(self, vmin=None, vmax=None):
        if vmax is None and isinstance(vmin, (tuple, list)):
            vmin, vmax = vmin
        if isinstance(self.clim, tuple):
            vmin = self.clim[0] if vmin is None else vmin
            vmax = self.clim[1] if vmax is None else vmax
        self.clim = (vmin, vmax)

    def autoscale(self):
        self.clim = 'data'

    def autoscale_None(self):
        if self.clim is None:
            self.clim = 'data'

    def changed(self):
        pass

    def set_facecolor(self, c):
        self.shown['facecolor'] = c

    def set_edgecolor(self, c):
        self.shown['edgecolor'] = c

    def set_linewidth(self, c):
        self.shown['linewidth'] = c

    def set_alpha(self, c):
        self.shown['alpha'] = c

    def set_cmap(self, c):
        self.cmap = c

    def set(self, **kw):
        for k, v in kw.items():
            if k in ('array', 'data'):
                self.set_array(v)
            elif k == 'clim':
                self.clim = v
            elif k in ('cmap', 'norm'):
                self.__dict__[k] = v
            else:
                self.shown[k] = v


class Axes(Drawn):
    def __init__(self, name, log, figure):
        super().__init__(name, log, figure=figure, artists=[], lines=[],
                         hists=[], texts=[], added=[], tables=[], lims={},
                         images=[], hlines=[], vlines=[], arrows=[],
                         errorbars=[])
        self.__dict__['spines'] = {
            k: Spine() for k in ('left', 'right', 'bottom', 'top')}
        self.__dict__['face'] = None
        self.__dict__['colours'] = 0

    def add_collection(self, c, *a, **k):
        self.added.append(c)
        return c

    add_artist = add_patch = add_collection

    def imshow(self, data, *a, **kw):
        im = Artist(f'image{len(self.images)}', self._log, data, **kw)
        self.images.append(im)
        return im

    def plot(self, *a, **kw):
        self.lines.append((a, kw))
        label = kw.get('label', '')
        return [Drawn('line', self._log, get_label=lambda: label)]

    def twinx(self):
        return self.figure.add_subplot(111)

    twiny = twinx

    def errorbar(self, *a, **kw):
        self.errorbars.append((a, kw))
        return Drawn('line', self._log), [], []

    def hist(self, *a, **kw):
        self.hists.append((a, kw))
        return None, None, []

    def text(self, x, y, s, *a, **kw):
        self.texts.append((x, y, s, kw))
        return Drawn('text', self._log)

    def arrow(self, *a, **kw):
        self.arrows.append((a, kw))

    def axhline(self, *a, **kw):
        self.hlines.append((a, kw))

    def axvline(self, *a, **kw):
        self.vlines.append((a, kw))

    def table(self, **kw):
        self.tables.append(kw)
        return Drawn('table', self._log)

    def set_facecolor(self, c):
        self.face = c

    def set_xlim(self, *a, **kw):
        self.lims['x'] = a or (kw.get('left'), kw.get('right'))

    def set_ylim(self, *a, **kw):
        self.lims['y'] = a or (kw.get('bottom'), kw.get('top'))

    def get_yticks(self):
        return [0.0, 1.0, 2.0, 3.0]

    def set(self, **kw):
        for k, v in kw.items():
            if k in ('xlim', 'ylim'):
                self.lims[k[0]] = v

    @property
    def _get_lines(self):
        return self

    def get_next_color(self):
        self.colours += 1
        return f'C{self.colours - 1}'


class Spine:
    def __init__(self):
        self.visible, self.color, self.width = True, 'black', None

    def set_visible(self, v):
        self.visible = v

    def set_color(self, c):
        self.color = c

    def set_linewidth(self, w):
        self.width = w

    set_edgecolor = set_color
    set_lw = set_linewidth

    def set(self, visible=None, color=None, edgecolor=None, linewidth=None,
            lw=None):
        self.visible = self.visible if visible is None else visible
        c = edgecolor if color is None else color
        self.color = self.color if c is None else c
        w = lw if linewidth is None else linewidth
        self.width = self.width if w is None else w


class Figure(Drawn):
    def __init__(self, log, **kw):
        super().__init__('figure', log, axes=[], saved=[], title=None)

    def add_subplot(self, *a, **kw):
        ax = Axes(f'ax{len(self.axes)}', self._log, self)
        ax.__dict__['place'] = a
        self.axes.append(ax)
        return ax

    def savefig(self, path, *a, **kw):
        self.saved.append(path)

    def suptitle(self, t, *a, **kw):
        self.title = t

    def colorbar(self, mappable, *a, **kw):
        c = Drawn('colorbar', self._log, mappable=mappable, kw=kw)
        self.__dict__.setdefault('colorbars', []).append(c)
        return c


class Rectangle:
    def __init__(self, xy, width, height, angle=0.0, **kw):
        self.xy, self.width, self.height = xy, width, height
        self.angle, self.kw = angle, kw


class Circle:
    def __init__(self, xy, radius=5, **kw):
        self.xy, self.radius, self.kw = xy, radius, kw


class Normalize:
    def __init__(self, vmin=None, vmax=None, clip=False):
        self.vmin, self.vmax = vmin, vmax

    def __call__(self, v):
        return ('norm', self.vmin, self.vmax, v)


class LogNorm(Normalize):
    pass


def mpl(ctx):
    """matplotlib as a recorder; -> the figures made"""
    log, figures = Log(), []
    log.np = ctx.np

    def module(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        ctx.stub(name, m)
        return m

    def figure(*a, **kw):
        f = Figure(log)
        figures.append(f)
        return f

    def current():
        return figures[-1] if figures else figure()

    def subplot2grid(shape, loc, rowspan=1, colspan=1, fig=None, **kw):
        f = fig if fig is not None else current()
        return f.add_subplot(shape, loc, rowspan, colspan)

    def subplots(nrows=1, ncols=1, **kw):
        f = figure()
        ax = [f.add_subplot(nrows, ncols, i + 1)
              for i in range(nrows * ncols)]
        return f, (ax[0] if nrows * ncols == 1 else ax)

    class PatchCollection(Artist):
        def __init__(self, patches, match_original=False, **kw):
            Artist.__init__(self, 'patches', log, **kw)
            self.__dict__['patches'] = list(patches)

        def __copy__(self):
            c = PatchCollection(self.patches)
            c.__dict__.update(self.__dict__)
            c.__dict__['shown'] = dict(self.shown)
            return c

    cmap = Drawn('cm', log, viridis=lambda v: ('viridis', v),
                 Dark2=types.SimpleNamespace(colors=['r', 'g', 'b']))
    m = module('matplotlib', rcParams={}, cm=cmap)
    closed = []
    m.pyplot = module('matplotlib.pyplot', figure=figure, cm=cmap,
                      subplot2grid=subplot2grid, subplots=subplots, gcf=current,
                      cycler=lambda *a, **k: ('cycler', a, k),
                      rcParams=m.rcParams, close=closed.append,
                      show=Drawn('show', log), setp=Drawn('setp', log))
    m.colors = module('matplotlib.colors', LogNorm=LogNorm,
                      Normalize=Normalize)
    m.collections = module('matplotlib.collections',
                           PatchCollection=PatchCollection)
    m.patches = module('matplotlib.patches', Rectangle=Rectangle,
                       Circle=Circle)
    t = Drawn('ticker', log)
    m.ticker = module('matplotlib.ticker', MultipleLocator=t,
                      AutoMinorLocator=t, FuncFormatter=t)
    return types.SimpleNamespace(figures=figures, log=log, closed=closed,
                                 module=m)

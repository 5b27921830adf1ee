"""The camera a reader describes is that of its file."""
import types

import lib

BOUNDS = ('files of every number of modules in {1, 2, 5, 32}, with arbitrary '
          'numbers of pixels, superpixels, samples and cells, an arbitrary '
          'run, two camera versions, arbitrary numbers of events and limits '
          'up to 10^6, every number of skipped events up to 100')
ASSUMPTIONS = ['the TargetIO and TargetCalib libraries are stand-ins that '
               'deliver arbitrary descriptions']
CORNERS = ['fOTUp' + a + b for a in ('Row', 'Col', 'X', 'Y')
           for b in ('_l', '_u')]


def libraries(ctx, n_mod, version, r1):
    v = dict(events=ctx.int('events', 0, 10**6), run=ctx.int('run', 0, 10**5),
             tmpix=ctx.int('tmpix', 1, 64), sp=ctx.int('sp', 1, 16),
             samples=ctx.int('samples', 1, 1000),
             cells={k: ctx.int('cells' + k, 1, 20000)
                    for k in ('1.0.1', '1.1.0')})
    opened = []

    class WaveformArrayReader:
        def __init__(self, path, skip=2, skip_end=1, *a, **k):
            opened.append((path, skip, skip_end))
            self.fR1 = r1
            self.fNEvents = v['events']
            self.fRunID = v['run']
            self.fNPixels = v['tmpix'] * n_mod
            self.fNSuperpixelsPerModule = v['sp']
            self.fNModules = n_mod
            self.fNSamples = v['samples']
            self.fCameraVersion = version

        def GetR0Event(self, *a):
            raise RuntimeError('no event was asked for')

        GetR1Event = GetR0Event

    class Mapping:
        def __init__(self, ver, single):
            self.key = ver, bool(single)
            self.size = 0.006 if single else 0.0062
            for i, k in enumerate(CORNERS):
                setattr(self, k, i + len(ver))

        def as_dataframe(self):
            n = 64 if self.key[1] else 2048
            return ctx.pd.DataFrame(dict(
                pixel=list(range(n)),
                xpix=[(i % 48) * self.size for i in range(n)]))
    for f, x in dict(GetCfgPath='/cfg', GetNPixels=1, GetNModules=2,
                     GetNTMPix=3, GetNSuperPixels=4, GetNRows=5,
                     GetNColumns=6).items():
        setattr(Mapping, f, lambda self, x=x: x)
    Mapping.IsSingleModule = lambda self: self.key[1]
    Mapping.GetSize = lambda self: self.size

    class CameraConfiguration:
        def __init__(self, ver):
            self.ver = ver

        def GetMapping(self, singleModule=False):
            return Mapping(self.ver, singleModule)

        def GetNCells(self):
            return v['cells'][self.ver]

        def GetVersion(self):
            return self.ver

        def GetReferencePulsePath(self):
            return '/ref/' + self.ver

    a = types.ModuleType('target_io')
    a.WaveformArrayReader = WaveformArrayReader
    b = types.ModuleType('target_calib')
    b.CameraConfiguration = CameraConfiguration
    ctx.stub('target_io', a)
    ctx.stub('target_calib', b)
    return v, opened


def describe(ctx):
    n_mod = ctx.choice('n_mod', [1, 2, 5, 32])
    version = ctx.choice('version', ['1.0.1', '1.1.0'])
    r1 = ctx.choice('r1', [False, True])
    v, opened = libraries(ctx, n_mod, version, r1)
    m = ctx.load('CHECLabPy.core.io.tio')
    path = lib.touch(ctx)
    cls = ctx.choice('cls', [m.TIOReader, m.ReaderR1 if r1 else m.ReaderR0])
    how = ctx.choice('how', ['default', 'limit', 'skip', 'both'])
    limit = None
    if how == 'default':
        r = cls(path)
        skip = (2, 1)
    elif how == 'limit':
        limit = ctx.int('limit', 1, 10**6)
        r = cls(path, limit) if n_mod > 1 else cls(path, max_events=limit)
        skip = (2, 1)
    else:
        skip = (ctx.int('s0', 0, 100), ctx.int('s1', 0, 100))
        if how == 'both':
            limit = ctx.int('limit', 1, 10**6)
            r = cls(path, limit, *skip)
        else:
            r = cls(path, skip_events=skip[0], skip_end_events=skip[1])
    ctx.check(len(opened) == 1 and opened[0][0] == path, 'the file')
    ctx.check_eq(list(opened[0][1:]), list(skip), 'events left out', 0)
    ctx.check(r.path == path, 'path')
    n = v['events']
    if limit is not None:
        n = ctx.ite(limit < n, limit, n)
    ctx.check_eq(r.n_events, n, 'number of events', 0)
    ctx.check(r.is_mc is False and bool(r.is_r1) == r1, 'kind of the file')
    for k, e in dict(run_id=v['run'], n_modules=n_mod,
                     n_pixels=v['tmpix'] * n_mod,
                     n_superpixels_per_module=v['sp'],
                     n_samples=v['samples'],
                     n_cells=v['cells'][version]).items():
        ctx.check_eq(getattr(r, k), e, k, 0)
    if hasattr(r, 'n_tmpix'):
        ctx.check_eq(r.n_tmpix, v['tmpix'], 'pixels per module', 0)
    ctx.check(r.camera_version == version, 'camera version')
    ctx.check(r.reference_pulse_path == '/ref/' + version,
              'reference pulse of the camera')
    key = version, n_mod == 1
    for _ in range(2):
        ctx.check(r.tc_mapping.key == key, 'mapping of the camera')
        df = r.mapping
        ctx.check(len(df) == (64 if n_mod == 1 else 2048), 'pixels')
        ctx.check(list(df['pixel']) == list(range(len(df))), 'pixel numbers')
        ctx.check(df.metadata['size'] == (0.006 if n_mod == 1 else 0.0062),
                  'size of a pixel')
        ctx.check(bool(df.metadata['is_single_module']) == (n_mod == 1) and
                  df.metadata['cfgfile'] == '/cfg', 'kind of the mapping')
        ctx.check([df.metadata[k] for k in CORNERS] ==
                  [i + len(version) for i in range(8)], 'outline')


def other(ctx):
    """a reader without slow control"""
    w = ctx.load('CHECLabPy.core.io.waveform')
    n = ctx.int('n', 0, 1000)

    class Reader(w.WaveformReader):
        is_mc = property(lambda self: True)
        n_events = property(lambda self: n)

        def _get_event(self, iev):
            return iev

        @staticmethod
        def is_compatible(path):
            return True
    path = lib.touch(ctx)
    r = Reader(path)
    tm, sp = ctx.int('tm', 0, 40), ctx.int('sp', 0, 20)
    for x in (r.get_sn(tm), r.get_sipm_temp(tm), r.get_primary_temp(tm),
              r.get_sp_dac(tm, sp), r.get_sp_hvon(tm, sp)):
        ctx.check(bool(ctx.isnan(x)), 'slow control is not a number')
    for k in ('run_id', 'n_modules', 'n_pixels', 'n_superpixels_per_module',
              'n_samples', 'n_cells'):
        ctx.check(getattr(r, k) == 0, k)
    ctx.check(r.camera_version == '' and r.reference_pulse_path is None,
              'no camera')
    ctx.check_eq(len(r), n, 'length', 0) if not ctx.sym else \
        ctx.check_eq(r.__len__(), n, 'length', 0)
    e = ctx.raises(lambda: Reader(path + '.no'), FileNotFoundError)
    ctx.check(isinstance(e, FileNotFoundError), 'missing file')


CASES = [
    dict(name='describe', fn=describe),
    dict(name='other', fn=other),
]

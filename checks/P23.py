"""Camera mappings: superpixels, modules, rows and columns."""
import math
import warnings

BOUNDS = ('cameras of 1-2 modules (8x8 pixels, 4 of them at arbitrary '
          'positions), pixels listed in 3 orders; grids of up to 4x4 pixels '
          'with arbitrary origin and gap between modules, pixels missing at '
          'the corners, in 3 orders')
ASSUMPTIONS = ['arithmetic is over the reals',
               'positions differ by more than rounding']


def load(ctx):
    warnings.simplefilter('ignore')
    return ctx.load('CHECLabPy.utils.mapping')


def shuffled(ctx, n):
    o = ctx.choice('order', ['plain', 'reversed', 'mixed'])
    r = list(range(n))
    if o == 'reversed':
        return r[::-1]
    if o == 'mixed':
        return sorted(r, key=lambda i: (i * 37 + 11) % 61 * 100 + i)
    return r


def frame(ctx, modules, moved):
    """modules: [(slot, module row, module column)]"""
    rec = []
    for slot, mr, mc in modules:
        for p in range(64):
            r, c = p // 8, p % 8
            rec.append(dict(
                pixel=len(rec), slot=slot,
                asic=(r // 4) * 2 + c // 4,
                superpixel=(len(rec) // 64) * 16 + (r // 2) * 4 + c // 2,
                row=mr * 8 + r, col=mc * 8 + c,
                xpix=0.006 * (mc * 8 + c), ypix=0.006 * (mr * 8 + r)))
    for i in moved:
        rec[i]['xpix'] = ctx.real(f'x{i}', -1, 1)
        rec[i]['ypix'] = ctx.real(f'y{i}', -1, 1)
    rec = [rec[i] for i in shuffled(ctx, len(rec))]
    df = ctx.pd.DataFrame({k: [r[k] for r in rec] for k in rec[0]})
    meta = dict(n_rows=max(r['row'] for r in rec) + 1,
                n_columns=max(r['col'] for r in rec) + 1,
                size=ctx.real('size', 0.001, 1), n_pixels=len(rec),
                cfgfile='cfg', is_single_module=len(modules) == 1,
                fOTUpX_l=0.25)
    df.metadata = dict(meta)
    return df, rec, meta


def col(df, k):
    return list(df[k].values)


def reduced(ctx, what, modules, moved):
    """one row per superpixel (module), in the middle of its pixels"""
    m = load(ctx)
    df, rec, meta = frame(ctx, modules, moved)
    key, side = dict(superpixel=('superpixel', 2), tm=('slot', 8))[what]
    got = dict(superpixel=m.get_superpixel_mapping,
               tm=m.get_tm_mapping)[what](df)
    g = {}
    for r in rec:
        g.setdefault(r[key], []).append(r)
    ids = [int(v) for v in col(got, key)]
    ctx.check(ids == sorted(g), 'one row each, in order')
    for i, k in enumerate(ids):
        rs = g[k]
        for c in ('row', 'col'):
            ctx.check(int(col(got, c)[i]) == min(r[c] for r in rs) // side,
                      c + ' of the unit')
        for c in ('xpix', 'ypix'):
            s = 0
            for r in rs:
                s = s + r[c]
            ctx.check_eq(col(got, c)[i] * len(rs), s, 'centre', 1e-9)
        if what == 'superpixel':
            for c in ('slot', 'asic'):
                ctx.check(int(col(got, c)[i]) == rs[0][c],
                          c + ' of the superpixel')
    md = got.metadata
    ctx.check(int(md['n_rows']) == meta['n_rows'] // side and
              int(md['n_columns']) == meta['n_columns'] // side,
              'rows and columns of units')
    ctx.check_eq(md['size'], meta['size'] * side, 'size of the unit', 1e-9)
    ctx.check({k: v for k, v in md.items() if k in (
        'cfgfile', 'is_single_module', 'fOTUpX_l')} == dict(
            cfgfile='cfg', is_single_module=len(modules) == 1,
            fOTUpX_l=0.25), 'further metadata kept')
    ctx.check_eq(df.metadata['size'], meta['size'],
                 'metadata of the pixels unchanged', 0)
    ctx.check(df.metadata['n_rows'] == meta['n_rows'],
              'rows of the pixels unchanged')
    ctx.check_eq(col(df, 'xpix'), [r['xpix'] for r in rec],
                 'pixels unchanged', 0)


def grid(ctx, n_row, n_col, pitch, cut, gap=None):
    """rows and columns from the positions of a grid"""
    m = load(ctx)
    x0 = ctx.real('x0', -1, 1)
    y0 = ctx.real('y0', -1, 1)
    g = ctx.real('gap', 0.0, gap) if gap else 0
    px, py = pitch

    def at(o, p, i, n):
        return o + p * i + (g if i >= n // 2 else 0)
    cells = [(r, c) for r in range(n_row) for c in range(n_col)
             if (r, c) not in [(a % n_row, b % n_col) for a, b in cut]]
    cells = [cells[i] for i in shuffled(ctx, len(cells))]
    x = ctx.const([at(x0, px, c, n_col) for r, c in cells])
    y = ctx.const([at(y0, py, r, n_row) for r, c in cells])
    row, column = m.get_row_column(x, y)
    ctx.check([int(v) for v in row] == [r for r, c in cells], 'rows')
    ctx.check([int(v) for v in column] == [c for r, c in cells], 'columns')


def target(ctx):
    """the mapping of target_calib and back"""
    import types
    m = load(ctx)
    names = dict(cfgfile='GetCfgPath', is_single_module='IsSingleModule',
                 n_pixels='GetNPixels', n_modules='GetNModules',
                 n_tmpix='GetNTMPix', n_superpixels='GetNSuperPixels',
                 n_rows='GetNRows', n_columns='GetNColumns', size='GetSize')
    corners = ['fOTUp' + a + b for a in ('Row', 'Col', 'X', 'Y')
               for b in ('_l', '_u')]
    v = {k: ctx.real(k, 0, 100) for k in list(names)[2:] + corners}
    v['cfgfile'] = '/some/file.cfg'
    v['is_single_module'] = ctx.choice('single', [True, False])
    made = []

    class Mapping:
        def __init__(self, *a, **k):
            made.append((a, k))

        def as_dataframe(self):
            return ctx.pd.DataFrame(dict(pixel=[0, 1], xpix=[0.0, 1.0]))

    for k, f in names.items():
        setattr(Mapping, f, lambda self, k=k: v[k])
    for k in corners:
        setattr(Mapping, k, v[k])

    class CameraConfiguration:
        def __init__(self, version):
            self.version = version

        def GetMapping(self, singleModule=False):
            made.append(('get', self.version, singleModule))
            return Mapping()

        def GetReferencePulsePath(self):
            return '/ref/' + self.version

    tc = types.ModuleType('target_calib')
    tc.CameraConfiguration = CameraConfiguration
    tc.Mapping = Mapping
    ctx.stub('target_calib', tc)
    df = m.get_clp_mapping_from_version(
        '1.1.0', single_module=v['is_single_module'])
    ctx.check(made[0] == ('get', '1.1.0', v['is_single_module']),
              'version and kind of the camera')
    ctx.check(set(v) <= set(df.metadata), 'metadata')
    for k, u in v.items():
        if isinstance(u, (str, bool)):
            ctx.check(df.metadata[k] == u, 'metadata ' + k)
        else:
            ctx.check_eq(df.metadata[k], u, 'metadata ' + k, 0)
    del made[:]
    m.get_tc_mapping_from_clp_mapping(df)
    a, k = made[0]
    k = list(a) + list(k.values())
    ctx.check(k == ['/some/file.cfg', v['is_single_module']],
              'mapping of target_calib')
    ctx.check(m.get_ref_path_from_version('1.0.1') == '/ref/1.0.1',
              'reference pulse')


class Quantity:
    """a stand-in for an astropy quantity: values and their unit"""
    __array_priority__ = 1e6
    __array_ufunc__ = None

    def __init__(self, value, unit):
        self.value, self.unit = value, unit


class Unit:
    __array_priority__ = 1e6
    __array_ufunc__ = None

    def __init__(self, name):
        self.name = name

    def __rmul__(self, v):
        return Quantity(v, self.name)


def geometry(ctx, modules):
    """positions of the pixels in the geometry of ctapipe"""
    import types
    m = load(ctx)
    df, rec, meta = frame(ctx, modules, [0, 9, 63])
    got = {}

    class CameraGeometry:
        def __init__(self, name, pix_id=None, pix_x=None, pix_y=None, **k):
            got.update(name=name, id=pix_id, x=pix_x, y=pix_y)

    units = types.ModuleType('astropy.units')
    for n in ('m', 'cm', 'mm', 'deg', 'GHz', 'Hz', 'MHz', 's', 'ns'):
        setattr(units, n, Unit(n))
    units.Quantity = lambda v, u: Quantity(v, u.name)
    mods = {n: types.ModuleType(n) for n in (
        'astropy', 'ctapipe', 'ctapipe.instrument', 'ctapipe.coordinates')}
    mods['astropy'].units = mods['astropy.units'] = units
    mods['ctapipe.instrument'].CameraGeometry = CameraGeometry
    mods['ctapipe.coordinates'].EngineeringCameraFrame = \
        lambda *a, **k: (a, k)
    for n, u in mods.items():
        ctx.stub(n, u)
    m.get_ctapipe_camera_geometry(df)
    for c in 'xy':
        q = got[c]
        ctx.check(q.unit == 'm', 'positions in metres')
        ctx.check_eq(list(q.value), [r[c + 'pix'] for r in rec],
                     'position of the pixels', 0)
    ctx.check(len(list(got['id'])) == len(rec), 'one number per pixel')


CASES = [
    dict(name='superpixel', fn=reduced, params=dict(
        what='superpixel', modules=[(5, 0, 0), (2, 0, 1)],
        moved=[0, 9, 63, 70])),
    dict(name='tm', fn=reduced, params=dict(
        what='tm', modules=[(5, 0, 1), (2, 1, 0)],
        moved=[0, 9, 63, 70])),
    dict(name='tmgap', fn=reduced, params=dict(
        what='tm', modules=[(5, 0, 1), (2, 2, 0)], moved=[1, 71])),
    dict(name='superpixelgap', fn=reduced, params=dict(
        what='superpixel', modules=[(1, 2, 3), (2, 0, 0)], moved=[1, 71])),
    dict(name='geometry', fn=geometry, params=dict(modules=[(3, 0, 0)])),
    dict(name='grid', fn=grid, params=dict(
        n_row=3, n_col=3, pitch=(1.0, 1.0), cut=[])),
    dict(name='corners', fn=grid, params=dict(
        n_row=4, n_col=4, pitch=(1.0, 1.0), gap=0.4,
        cut=[(0, 0), (-1, 0), (0, -1), (-1, -1)])),
    dict(name='rectangle', fn=grid, params=dict(
        n_row=2, n_col=4, pitch=(1.0, 1.0), cut=[])),
    dict(name='line', fn=grid, params=dict(
        n_row=1, n_col=4, pitch=(1.0, 1.0), cut=[])),
    dict(name='pitch', fn=grid, params=dict(
        n_row=4, n_col=3, pitch=(2.0, 1.0), gap=0.5,
        cut=[(0, 0), (-1, -1)])),
    dict(name='target', fn=target),
    dict(name='corners6', fn=grid, tier='thorough', params=dict(
        n_row=6, n_col=4, pitch=(1.0, 1.0), gap=2.5,
        cut=[(0, 0), (-1, 0), (0, -1), (-1, -1)])),
]

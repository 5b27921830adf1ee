"""The simtel reader: pixels in the order of the camera, values by event."""
import os
import types
import warnings

BOUNDS = ('cameras of 4-6 pixels (2x2, 2x3, 3x2, 3x3 without corners) on '
          'grids of arbitrary origin and pitch, listed in 4 orders by the '
          'simulation and 2 by the mapping; 2 events of 1-2 samples of '
          'arbitrary values')
ASSUMPTIONS = ['ctapipe and target_calib are stand-ins that deliver arbitrary '
               'values by field', 'times are whole seconds (symbolic)']
MC = ['energy', 'alt', 'az', 'core_x', 'core_y', 'h_first_int', 'x_max']
POINT = ['azimuth_raw', 'altitude_raw', 'azimuth_cor', 'altitude_cor']
UNITS = ['energy_range_min', 'energy_range_max', 'prod_site_B_total',
         'prod_site_B_declination', 'prod_site_B_inclination',
         'prod_site_alt', 'max_alt', 'min_alt', 'max_az', 'min_az',
         'max_viewcone_radius', 'min_viewcone_radius', 'max_scatter_range',
         'min_scatter_range', 'injection_height', 'corsika_wlen_min',
         'corsika_wlen_max']
PLAIN = ['corsika_version', 'simtel_version', 'spectral_index',
         'shower_prog_start', 'shower_prog_id', 'detector_prog_start',
         'detector_prog_id', 'num_showers', 'shower_reuse', 'diffuse',
         'core_pos_mode', 'atmosphere', 'corsika_iact_options',
         'corsika_low_E_model', 'corsika_high_E_model', 'corsika_bunchsize',
         'corsika_low_E_detail', 'corsika_high_E_detail']


class N(types.SimpleNamespace):
    pass


def Q(v):
    return N(value=v)


def order(cells, how):
    n = len(cells)
    return dict(rows=list(range(n)), reversed=list(range(n))[::-1],
                columns=sorted(range(n), key=lambda i: cells[i][::-1]),
                mixed=sorted(range(n), key=lambda i: (i * 7 + 3) % 5 * 10 + i)
                )[how]


def reader(ctx, n_row, n_col, corners, n_samples, tel, events=2):
    warnings.simplefilter('ignore')
    cells = [(r, c) for r in range(n_row) for c in range(n_col)
             if corners or r not in (0, n_row - 1) or c not in (0, n_col - 1)]
    n = len(cells)
    sim = [cells[i] for i in order(cells, ctx.choice(
        'simulation', ['rows', 'reversed', 'columns', 'mixed']))]
    cam = [cells[i] for i in order(cells, ctx.choice(
        'camera', ['rows', 'mixed']))]
    x0, y0 = ctx.real('x0', -1, 1), ctx.real('y0', -1, 1)
    pitch = ctx.real('pitch', 0.01, 1)
    sx = ctx.const([x0 + pitch * c for r, c in sim])
    sy = ctx.const([y0 + pitch * r for r, c in sim])
    wave = [ctx.array(f'wf{e}', (n, n_samples), -100, 100)
            for e in range(events)]
    true = [ctx.array(f'pe{e}', n, 0, 10 ** 6, kind='i') for e in range(events)]
    v = [dict(id=ctx.int(f'id{e}', 0, 10 ** 6),
              s=ctx.int(f's{e}', 0, 2 * 10 ** 9),
              f=0.123046875 if e else 0.5,
              primary=ctx.int(f'primary{e}', 0, 500),
              **{k: ctx.real(f'{k}{e}', -100, 100) for k in MC + POINT})
         for e in range(events)]
    head = {k: ctx.real(k, -100, 100) for k in UNITS + PLAIN}
    run = ctx.int('run', 0, 10 ** 6)
    frames = []

    class Geometry:
        pix_x, pix_y = Q(ctx.const([0.0] * n)), Q(ctx.const([0.0] * n))

        def transform_to(self, frame):
            frames.append(frame.n_mirrors)
            return N(pix_x=Q(sx), pix_y=Q(sy))

    sub = N(tel={tel: N(camera=Geometry())})

    def event(e):
        u = v[e]
        return N(
            count=u['id'], trig=N(gps_time=Q(u['s'] + u['f'])),
            r0=N(obs_id=run, tels_with_data={tel},
                 tel={tel: N(waveform=ctx.const(
                     [[[0.0] * n_samples for _ in range(n)]]))}),
            r1=N(tel={tel: N(waveform=wave[e])}),
            inst=N(subarray=sub),
            mc=N(**{k: Q(u[k]) for k in MC},
                 shower_primary_id=u['primary'],
                 tel={tel: N(photo_electron_image=true[e],
                             **{k: u[k] for k in POINT})}),
            mcheader=N(**{k: Q(head[k]) for k in UNITS},
                       **{k: head[k] for k in PLAIN}))
    opened = []

    class SimTelEventSource:
        def __init__(self, input_url, max_events=None, back_seekable=False):
            opened.append((input_url, max_events, back_seekable))

    class EventSeeker:
        def __init__(self, source):
            pass

        def __getitem__(self, i):
            return event(i)

        def __len__(self):
            return events

        def __iter__(self):
            return (event(e) for e in range(events))

    class Mapping:
        def as_dataframe(self):
            return ctx.pd.DataFrame(dict(
                pixel=list(range(n)), row=[r for r, c in cam],
                col=[c for r, c in cam]))

        def __getattr__(self, k):
            if k.startswith('__'):
                raise AttributeError(k)
            return {'GetNRows': lambda: n_row, 'GetNColumns': lambda: n_col
                    }.get(k, lambda: 0)

    class CameraConfiguration:
        def __init__(self, version):
            self.version = version

        def GetMapping(self, singleModule=False):
            return Mapping()

        def GetVersion(self):
            return self.version

        def GetReferencePulsePath(self):
            return '/ref/' + self.version

    def module(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        ctx.stub(name, m)
        return m
    io = module('ctapipe.io', SimTelEventSource=SimTelEventSource,
                EventSeeker=EventSeeker)
    co = module('ctapipe.coordinates', EngineeringCameraFrame=lambda **k:
                N(**k))
    module('ctapipe', io=io, coordinates=co)
    module('target_calib', CameraConfiguration=CameraConfiguration)
    m = ctx.load('CHECLabPy.core.io.simtel')
    path = os.path.join(ctx.tmpdir(), 'run.simtel')
    open(path, 'w').close()
    k = ctx.choice('max_events', [None, 2])
    r = m.SimtelReader(path, k)
    ctx.check(opened == [(path, k, True)], 'file and number of events')
    ctx.check(frames == [2], 'positions in the engineering frame')
    ctx.check((r.n_pixels, r.n_samples, r.n_events, len(r)) ==
              (n, n_samples, events, events), 'sizes')
    ctx.check(r.is_mc is True, 'simulated')
    ctx.check(r.camera_version == '1.1.0' and
              r.reference_pulse_path == '/ref/1.1.0', 'camera')

    def same(w, e):
        u = v[e]
        ctx.check(tuple(w.shape) == (n, n_samples), 'shape')
        at = [sim.index(c) for c in cam]
        ctx.check_eq([[w[p, s] for s in range(n_samples)] for p in range(n)],
                     [[wave[e][q, s] for s in range(n_samples)] for q in at],
                     'samples of the pixel at the same place', 0)
        ctx.check_eq([w.mc_true[p] for p in range(n)],
                     [true[e][q] for q in at],
                     'photoelectrons of the pixel at the same place', 0)
        ctx.check(w.is_r1 is True, 'calibrated')
        ctx.check_eq(w.iev, u['id'], 'event id', 0)
        ctx.check_eq(stamp(w.t_cpu), u['s'] * 10 ** 9 + int(
            u['f'] * 10 ** 9), 'time', 0)
        ctx.check_eq(r.run_id, run, 'run', 0)
        for name, d, fields in (('mc', r.mc, MC),
                                ('pointing', r.pointing, POINT)):
            ctx.check(set(d) == set(fields) | {'iev', 't_cpu'} | (
                {'shower_primary_id'} if name == 'mc' else set()),
                name + ' columns')
            ctx.check_eq([d[f] for f in fields], [u[f] for f in fields],
                         name + ' of the event', 0)
            ctx.check_eq(d['iev'], u['id'], name + ' event id', 0)
            ctx.check_eq(stamp(d['t_cpu']), u['s'] * 10 ** 9 + int(
                u['f'] * 10 ** 9), name + ' time',
                         0)
        ctx.check_eq(r.mc['shower_primary_id'], u['primary'], 'primary', 0)
    how = ctx.choice('access', ['iterate', 'index', 'backwards'])
    ws, kept = [], []
    if how == 'iterate':
        for e, w in enumerate(r):
            same(w, e)
            ws.append(e)
            kept.append((r.mc, r.pointing, e))
        ctx.check(ws == list(range(events)), 'every event once')
    else:
        es = list(range(events))
        if how == 'backwards':
            es = [-1 - e for e in es]
        for e in es:
            same(r[e], e % events)
            kept.append((r.mc, r.pointing, e % events))
    for mc, pointing, e in kept:
        ctx.check_eq([mc[f] for f in MC], [v[e][f] for f in MC],
                     'mc kept from an earlier event', 0)
        ctx.check_eq([pointing[f] for f in POINT], [v[e][f] for f in POINT],
                     'pointing kept from an earlier event', 0)
    ctx.check(set(r.mcheader) == set(head) | {'obs_id'}, 'header columns')
    ctx.check_eq([r.mcheader[h] for h in head], [head[h] for h in head],
                 'header', 0)
    ctx.check_eq(r.mcheader['obs_id'], run, 'run of the header', 0)


def stamp(t):
    v = getattr(t, 'value', t)
    return int(v) if type(v).__name__ in ('int', 'int64') else v


CASES = [
    dict(name='2x2', fn=reader, params=dict(
        n_row=2, n_col=2, corners=True, n_samples=2, tel=1)),
    dict(name='2x3', fn=reader, params=dict(
        n_row=2, n_col=3, corners=True, n_samples=1, tel=7)),
    dict(name='3x3', fn=reader, params=dict(
        n_row=3, n_col=3, corners=False, n_samples=1, tel=2)),
    dict(name='4x3', fn=reader, tier='thorough', params=dict(
        n_row=4, n_col=3, corners=True, n_samples=2, tel=2, events=3)),
]

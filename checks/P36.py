"""Which file a run is extracted to."""
import os
import sys
import warnings

BOUNDS = ('1-3 input files of a run of 1 event of 1 pixel each, in 2 '
          'directories, with any run number of up to 5 digits and 10 endings '
          '(usual or not), measured or simulated; an output path given or '
          'not; arbitrary numbers of events to process')
ASSUMPTIONS = ['arithmetic is over the reals',
               'file names differ in the ending, the directory and the run '
               'number only',
               'pandas.HDFStore replaces the file it is told to create (an '
               'in-memory stand-in here; sampled paths are replayed on the '
               'real one)']
NS = 20
CONFIG = 'waveform_max: True\nt_extract: 9\n'
DATA = b'the data'


def make_reader(ctx, io, path_, sim, n, samples):
    W = ctx.load('CHECLabPy.core.io.waveform').Waveform
    df = ctx.pd.DataFrame(dict(pixel=[0]))
    warnings.simplefilter('ignore')
    df.metadata = dict(n_pixels=1)

    class Reader:
        is_mc = sim
        is_r1 = True
        n_events, n_pixels, n_samples, n_modules = 1, 1, NS, 1
        n_superpixels_per_module, n_cells, run_id = 1, 4, n
        camera_version, reference_pulse_path = '1.1.0', '/ref'
        path = path_
        mapping = df
        mc = pointing = None
        mcheader = dict(spectral_index=2.5)
        max_events = None

        def __len__(self):
            return 1

        def __iter__(self):
            self.mc = dict(iev=0, energy=1.5)
            self.pointing = dict(iev=0, azimuth=0.5)
            yield W(ctx.const([samples]), iev=0, t_tack=3, stale=False,
                    missing_packets=0, t_cpu_container=(1500000000, 7),
                    mc_true=ctx.const([3]) if sim else None)

        def get_sn(self, tm):
            return 5

        get_sipm_temp = get_primary_temp = get_sn

        def get_sp_dac(self, tm, sp):
            return 100

        get_sp_hvon = get_sp_dac

    return Reader()


def setup(ctx):
    warnings.simplefilter('ignore')
    ctx.csv('time_correction.dat', pixel=[0], t_cor=ctx.const([0.0]))
    io = ctx.load('CHECLabPy.core.io')
    m = ctx.load('CHECLabPy.scripts.extract_dl1')
    return io, m


def named(ctx, tmp, folder, ending, v):
    d = os.path.join(tmp, folder)
    os.makedirs(d, exist_ok=True)
    p = ctx.text(os.path.join(d, 'Run'), ctx.digits(v, 5), ending)
    with open(p, 'wb') as f:
        f.write(DATA)
    return p


def config(ctx, tmp):
    p = os.path.join(tmp, 'c.yml')
    with open(p, 'w') as f:
        f.write(CONFIG)
    return p


def holds(ctx, io, path, n, mc, top):
    """the DL1 file of run n"""
    ok = os.path.exists(path)
    ctx.check(ok, 'the DL1 file is where it is expected')
    if not ok:
        return
    with io.DL1Reader(path) as r:
        ctx.check(r.metadata['run_id'] == n, 'the run of the file')
        ctx.check(r.n_events == 1 and r.is_mc == mc, 'the event of the file')
        df = r.load_entire_table()
        ctx.check_eq(list(df['waveform_max'].values), [top],
                     'the values of the run', 1e-2)
        ctx.check(('mc' in r.dataframe_keys) == mc, 'tables')


def waveform(ctx, tag):
    """a constant, subtracted baseline and a pulse of height h"""
    h = ctx.real('h' + tag, 1, 100)
    return [0.0] * 18 + [h, 0.0], h


TIO = ['_r1.tio', '_r0.tio', '.tio', '_r1.tio.gz', '_r1.fits', '.dat', '',
       '.h5', '_dl1.h5', '.simtel.gz']
MC = ['.simtel.gz', '.simtel', '.simtel.zst', '', '.gz', '_dl1.h5',
      '.simtel.gz.part', '.tio', '_r1.tio', '.h5']


def name(ctx, mc):
    """the usual names, and never the file of the data"""
    io, m = setup(ctx)
    tmp = ctx.tmpdir()
    ending = ctx.choice('ending', MC if mc else TIO)
    folder = ctx.choice('folder', ['data', 'site_r1'])
    v = ctx.int('run', 0, 99999)
    path = named(ctx, tmp, folder, ending, v)
    s, h = waveform(ctx, '')
    reader = make_reader(ctx, io, path, mc, 7, s)
    made = m.DL1Extractor(reader, config(ctx, tmp))
    given = ctx.choice('given', [False, True])
    out = os.path.join(tmp, 'out', 'x.h5') if given else None
    before = {os.path.join(d, f) for d, _, fs in os.walk(tmp) for f in fs}
    m.DL1Writer.write_dl1_file(reader, made, *([out] if given else []))
    with open(path, 'rb') as f:
        kept = f.read()
    ctx.check(kept == DATA, 'the data are not overwritten')
    after = {os.path.join(d, f) for d, _, fs in os.walk(tmp) for f in fs}
    new = sorted(after - before)
    ctx.check(len(new) == 1, 'one file is written')
    if len(new) != 1:
        return
    if given:
        ctx.check(new[0] == out, 'the path given')
    elif folder == 'data' and ending == ('.simtel.gz' if mc else '_r1.tio'):
        ctx.check(str.__str__(new[0]) == str.__str__(path).replace(
            ending, '_dl1.h5'), 'the name of the DL1 file')
    holds(ctx, io, new[0], 7, mc, h * 1.0)


def several(ctx, n, mc):
    """each of the files gets its own"""
    io, m = setup(ctx)
    tmp = ctx.tmpdir()
    ending = '.simtel.gz' if mc else '_r1.tio'
    paths, hs, by = [], [], {}
    num = [ctx.int(f'run{i}', 0, 99999) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.neg(num[i] == num[j]))
        p = named(ctx, tmp, 'data', ending, num[i])
        s, h = waveform(ctx, str(i))
        by[str.__str__(p)] = make_reader(ctx, io, p, mc, 7 + i, s)
        paths.append(p)
        hs.append(h)
    limits = []

    def from_path(path, max_events=None):
        limits.append(max_events)
        return by[str.__str__(path)]
    ctx.patch(m.WaveformReader, 'from_path', from_path)
    limit = ctx.choice('limit', [None, 3])
    argv = ['extract_dl1.py', '-f'] + paths + ['-c', config(ctx, tmp)] + \
        (['-n', str(limit)] if limit else [])
    ctx.patch(sys, 'argv', argv)
    m.main()
    ctx.check(limits == [limit] * n, 'events to process')
    for i, p in enumerate(paths):
        with open(p, 'rb') as f:
            kept = f.read()
        ctx.check(kept == DATA, 'the data are not overwritten')
        out = str.__str__(p).replace(ending, '_dl1.h5')
        holds(ctx, io, out, 7 + i, mc, hs[i])


CASES = [
    dict(name='tio', fn=name, params=dict(mc=False)),
    dict(name='simtel', fn=name, params=dict(mc=True)),
    dict(name='several', fn=several, params=dict(n=3, mc=False)),
    dict(name='severalmc', fn=several, params=dict(n=2, mc=True)),
]

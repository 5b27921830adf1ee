"""Files: natural order, HV configurations, run lists, directories."""
import os
import types
import warnings

BOUNDS = ('2-3 file names with 1-2 arbitrary numbers below 10^6 (10^14) each, padded '
          'with zeros or not; HV configurations of up to 4 lines for '
          'arbitrary superpixels of up to 3 modules, arbitrary values below '
          '4096; run lists of 2 arbitrary runs')
ASSUMPTIONS = ['regular expressions see the numbers as decimal digits']


def load(ctx):
    warnings.simplefilter('ignore')
    return ctx.load('CHECLabPy.utils.files')


def later(ctx, a, b):
    """key a sorts after key b"""
    r = False
    for x, y in reversed(list(zip(a, b))):
        if isinstance(x, str):
            r = r if x == y else x > y
        else:
            r = ctx.any([x > y, ctx.all([x == y, r])])
    return r


def order(ctx, names):
    """file lists are sorted by the numbers in the names"""
    m = load(ctx)
    given, keys = [], []
    for i, parts in enumerate(names):
        k, t = [], []
        for j, p in enumerate(parts):
            if isinstance(p, str):
                k.append(p)
                t.append(p)
            else:
                v = ctx.int(f'n{i}{j}', 0, 10 ** (p or 6) - 1)
                k.append(v)
                t.append(ctx.digits(v, p))
        given.append(ctx.text(*t))
        keys.append(k)
    files = list(given)
    got = m.sort_file_list(files)
    ctx.check(len(got) == len(given), 'every file once')
    at, left = [], list(range(len(given)))
    for g in got:
        i = [k for k in left if str.__eq__(given[k], g)]
        ctx.check(bool(i), 'the files of the list')
        left.remove(i[0])
        at.append(i[0])
    for a, b in zip(at, at[1:]):
        ctx.check(ctx.neg(later(ctx, keys[a], keys[b])), 'in order')
    ctx.check(all(str.__eq__(a, b) for a, b in zip(files, got)) and
              len(files) == len(got), 'the list itself is sorted')


def hv(ctx, lines, modules, step):
    """the setting of each superpixel is its last line"""
    m = load(ctx)
    path = os.path.join(ctx.tmpdir(), 'hv.cfg')
    wrote = []
    with open(path, 'w') as f:
        f.write('# comment\n\nM:3/F/M:7|HV=9\n')
        for i in range(lines):
            tm = modules[ctx.choice(f'm{i}', list(range(len(modules))))] \
                if i else modules[-1]
            sp = ctx.int(f's{i}', 0, 15)
            ctx.assume(sp % step == 0)
            v = ctx.int(f'v{i}', 0, 4095)
            kind = ctx.choice(f'k{i}', ['HV', 'HVOn'])
            f.write(f'M:{tm}/F/S:{ctx.digits(sp)}|{kind}='
                    f'{ctx.digits(v)}' + ('\n' if i % 2 else ' # x\n'))
            wrote.append((kind, tm, sp, v))
            f.write('other text\n')
    got = dict(zip(('HV', 'HVOn'), m.extract_hv_cfg(path)))
    for kind in ('HV', 'HVOn'):
        a = got[kind]
        ctx.check(tuple(a.shape) == (32, 16), 'all superpixels')
        for tm in range(32):
            here = [w for w in wrote if w[1] == tm and w[0] == kind]
            for sp in range(16):
                want = 0
                for _, _, s, v in here:
                    want = ctx.ite(s == sp, v, want)
                ctx.check_eq(a[tm, sp], want, 'setting of a superpixel', 0)


def runs(ctx, what, here=False):
    """the files and readers of a run list"""
    m = load(ctx)
    made = []

    class Reader:
        def __init__(self, path, *a, **k):
            made.append(self)
            self.path, self.args = path, list(a) + list(k.values())

    io = types.ModuleType('CHECLabPy.core.io')
    io.ReaderR1 = io.DL1Reader = Reader
    import sys
    old = sys.modules.get('CHECLabPy.core.io')
    sys.modules['CHECLabPy.core.io'] = io
    d = ctx.tmpdir()
    path = os.path.join(d, 'runlist.txt')
    run = [ctx.int(f'run{i}', 0, 99999) for i in range(2)]
    fw = [ctx.int(f'fw{i}', 0, 5000) for i in range(2)]
    if ctx.sym:
        ctx.csv('runlist.txt', run=ctx.const(run),
                n_events=ctx.const([5, 6]), fw=ctx.const(fw))
    else:
        with open(path, 'w') as f:
            f.write('# comment\nrun n_events fw\n')
            for r, e, w in zip(run, (5, 6), fw):
                f.write(f'{r} {e} {w}\n')
    cwd = os.getcwd()
    if here:                  # a list in the working directory
        os.chdir(d)
        path, d = 'runlist.txt', ''
    n = ctx.choice('max_events', [None, 7])
    readers = ctx.choice('readers', [True, False])
    try:
        if what == 'r1':
            df = m.open_runlist_r1(path, open_readers=readers, max_events=n)
        else:
            df = m.open_runlist_dl1(path, open_readers=readers)
    finally:
        os.chdir(cwd)
        if old is None:
            sys.modules.pop('CHECLabPy.core.io', None)
        else:
            sys.modules['CHECLabPy.core.io'] = old
    ctx.check_eq(list(df.index), run, 'runs', 0)
    ctx.check_eq(list(df['fw'].values), fw, 'columns of the list', 0)
    end = dict(r1='_r1.tio', dl1='_dl1.h5')[what]
    want = [os.path.join(d, 'Run' + ctx.digits(r, 5) + end) for r in run]
    ctx.check([str(p) for p in df['path'].values] == want, 'paths')
    if readers:
        rs = list(df['reader'].values)
        ctx.check([str(r.path) for r in rs] == want, 'reader of each run')
        if what == 'r1':
            ctx.check([r.args for r in rs] == [[n]] * 2, 'number of events')
    else:
        ctx.check(not made and 'reader' not in list(df.columns),
                  'no files opened')


R = ('Run', None, '_r1.tio')
CASES = [
    dict(name='runs', fn=order, params=dict(names=[R, R, R])),
    dict(name='padded', fn=order, params=dict(
        names=[('Run', 5, '_r1.tio'), R, ('Run', 3, '_r1.tio')])),
    dict(name='stamps', fn=order, params=dict(
        names=[('hv_', 14, '.cfg'), ('hv_', 14, '.cfg')])),
    dict(name='case', fn=order, params=dict(
        names=[('Zx', None, '.h5'), ('ax', None, '.h5')])),
    dict(name='two', fn=order, params=dict(
        names=[('/a/', None, '/Run', None, '.h5')] * 2)),
    dict(name='words', fn=order, params=dict(
        names=[('/a/Run', None, '.h5'), ('/a/Cal', None, '.h5'),
               ('/a/Run', None, '_x.h5')])),
    dict(name='digits', fn=order, params=dict(
        names=[('x\u00b2_', None, '.h5'), ('x\u00b2_', None, '.h5')])),
    dict(name='between', fn=order, params=dict(
        names=[('x', None, '\u00b2', None, '.h5')] * 2)),
    dict(name='first', fn=order, params=dict(
        names=[('', None, '.h5'), ('', None, '.h5')])),
    dict(name='hv', fn=hv, params=dict(lines=3, modules=[0, 31], step=5)),
    dict(name='hvlast', fn=hv, params=dict(lines=2, modules=[7], step=1)),
    dict(name='r1', fn=runs, params=dict(what='r1')),
    dict(name='dl1', fn=runs, params=dict(what='dl1')),
    dict(name='r1here', fn=runs, params=dict(what='r1', here=True)),
    dict(name='dl1here', fn=runs, params=dict(what='dl1', here=True)),
    dict(name='many', fn=order, tier='thorough', params=dict(
        names=[('/a/', None, '/Run', None, '.h5')] * 3)),
    dict(name='hvmany', fn=hv, tier='thorough', params=dict(
        lines=4, modules=[0, 4, 31], step=5)),
]

"""Waveform files behave as sequences of events."""
import lib

BOUNDS = ('files of 0-4 events of 1 module, 1-2 pixels x 1-2 samples with '
          'arbitrary contents; max_events none or 1-5; every integer index in '
          '[-7, 7], every slice with bounds in [-6, 6] and steps in [-3, 3], '
          'every list of 2-3 indices; slow-control lookups for every module '
          'and superpixel number in [0, 7]')
ASSUMPTIONS = ['the TargetIO library is a stand-in that delivers an '
               'arbitrary record per event']


def make(ctx, n_ev, n_pix, n_samp, is_r1):
    lo, hi = (-1000, 1000) if is_r1 else (0, 65535)
    recs = []
    for e in range(n_ev):
        num = ctx.real if is_r1 else ctx.int
        recs.append(dict(
            samples=[[num(f's{e}_{p}_{k}', lo, hi) for k in range(n_samp)]
                     for p in range(n_pix)],
            fci=ctx.int(f'fci{e}', 0, 4095), stale=ctx.bool(f'st{e}'),
            missing=ctx.int(f'mp{e}', 0, 64), tack=ctx.int(f'ta{e}', 0, 2**40),
            s=1500000000 + e, ns=7))
    return recs


def reader(ctx, n_ev, n_pix, n_samp, is_r1, max_events):
    recs = make(ctx, n_ev, n_pix, n_samp, is_r1)
    lib.tio(ctx, recs, n_pix, n_samp, is_r1)
    path = lib.touch(ctx)
    m = ctx.load('CHECLabPy.core.io.tio')
    cls = ctx.choice('cls', [m.TIOReader,
                             m.ReaderR1 if is_r1 else m.ReaderR0])
    r = cls(path, max_events) if max_events is not None else cls(path)
    n = n_ev if not max_events else min(n_ev, max_events)
    return r, recs, n


def check_event(ctx, wf, rec, iev, is_r1, what):
    ctx.check(wf.iev == iev, what + ': event number')
    exp = rec['samples']
    ctx.check(wf.shape == (len(exp), len(exp[0])), what + ': shape')
    ctx.check_eq(wf, exp, what + ': samples', 1e-3 if is_r1 else 0)
    ctx.check(ctx.all([wf.first_cell_id == rec['fci'],
                       wf.missing_packets == rec['missing'],
                       wf.t_tack == rec['tack'],
                       ctx.implies(wf.stale, rec['stale']),
                       ctx.implies(rec['stale'], wf.stale),
                       wf.is_r1 == is_r1]), what + ': event information')


def index(ctx, n_ev, n_pix, n_samp, is_r1):
    mx = ctx.choice('max', [None, 1, 2, 5])
    r, recs, n = reader(ctx, n_ev, n_pix, n_samp, is_r1, mx)
    ctx.check(len(r) == n and r.n_events == n, 'length')
    i = ctx.int('i', -7, 7)
    if ctx.fork(i >= -n) and ctx.fork(i < n):
        j = i if ctx.fork(i >= 0) else i + n
        j = range(n)[j]
        check_event(ctx, r[i], recs[j], j, is_r1, 'index')
        # reading one event does not disturb the next reading
        check_event(ctx, r[i], recs[j], j, is_r1, 'index again')
    else:
        e = ctx.raises(lambda: r[i], IndexError)
        ctx.check(isinstance(e, IndexError), 'out of range is refused')
    e = ctx.raises(lambda: r['0'], TypeError)
    ctx.check(isinstance(e, TypeError), 'other index types are refused')


def iterate(ctx, n_ev, n_pix, n_samp, is_r1):
    mx = ctx.choice('max', [None, 1, 3, 5])
    r, recs, n = reader(ctx, n_ev, n_pix, n_samp, is_r1, mx)
    for rnd in range(2):
        seen = list(r)
        ctx.check(len(seen) == n, 'every event once')
        for j, wf in enumerate(seen):
            check_event(ctx, wf, recs[j], j, is_r1, 'iteration')
    ctx.observe('wf', seen)


def slices(ctx, n_ev, step_max):
    mx = ctx.choice('max', [None, 2])
    r, recs, n = reader(ctx, n_ev, 1, 1, False, mx)
    def bound(name, k):
        x = ctx.int(name, -k, k)
        return ctx.choice(name + '?', [x, None])
    a, b = bound('a', n_ev + 2), bound('b', n_ev + 2)
    s = bound('s', step_max)
    if s is not None:
        ctx.assume(s != 0)
    got = r[a:b:s]
    exp = list(range(n))[a:b:s]
    ctx.check(len(got) == len(exp), 'slice length')
    ctx.check_eq(got, [recs[j]['samples'] for j in exp], 'slice content', 0)


def lists(ctx, n_ev, k):
    r, recs, n = reader(ctx, n_ev, 1, 2, False, None)
    ix = [ctx.int(f'i{q}', -n_ev - 1, n_ev) for q in range(k)]
    if ctx.fork(ctx.all([ctx.all([i >= -n, i < n]) for i in ix])):
        got = r[list(ix)]
        ctx.check(got.shape == (k, 1, 2), 'list shape')
        ctx.check_eq(got, [recs[range(-n, n)[i + n]]['samples'] for i in ix], 'list content', 0)
    else:
        e = ctx.raises(lambda: r[list(ix)], IndexError)
        ctx.check(isinstance(e, IndexError), 'list out of range is refused')


def level(ctx):
    is_r1 = ctx.choice('r1', [True, False])
    recs = make(ctx, 1, 1, 1, is_r1)
    lib.tio(ctx, recs, 1, 1, is_r1)
    path = lib.touch(ctx)
    m = ctx.load('CHECLabPy.core.io.tio')
    good, bad = (m.ReaderR1, m.ReaderR0) if is_r1 else \
        (m.ReaderR0, m.ReaderR1)
    r = good(path)
    ctx.check(r.is_r1 == is_r1, 'level')
    e = ctx.raises(lambda: bad(path), IOError)
    ctx.check(isinstance(e, IOError), 'wrong level is refused')
    e = ctx.raises(lambda: good(path + 'x'), FileNotFoundError)
    ctx.check(isinstance(e, FileNotFoundError), 'missing file is refused')


def slow_control(ctx, n_tm, n_sp):
    tabs = dict(sn=ctx.ints('sn', n_tm, 0, 999),
                sipm=ctx.reals('sipm', n_tm, -50, 50),
                primary=ctx.reals('prim', n_tm, -50, 50),
                dac=[ctx.ints(f'dac{i}', n_sp, 0, 255) for i in range(n_tm)],
                hvon=[ctx.ints(f'hv{i}', n_sp, 0, 1) for i in range(n_tm)])
    lib.tio(ctx, [], n_tm * n_sp * 4, 1, False, n_modules=n_tm, n_sp=n_sp,
            tables=tabs)
    path = lib.touch(ctx)
    m = ctx.load('CHECLabPy.core.io.tio')
    r = m.TIOReader(path)
    tm = ctx.int('tm', 0, 7)
    sp = ctx.int('sp', 0, 7)
    tm_ok = ctx.fork(tm < n_tm)
    sp_ok = ctx.fork(sp < n_sp)
    for f, t in ((r.get_sn, 'sn'), (r.get_sipm_temp, 'sipm'),
                 (r.get_primary_temp, 'primary')):
        if tm_ok:
            ctx.check_eq(f(tm), tabs[t][tm], t)
        else:
            e = ctx.raises(lambda: f(tm), IndexError)
            ctx.check(isinstance(e, IndexError), t + ' out of range')
    for f, t in ((r.get_sp_dac, 'dac'), (r.get_sp_hvon, 'hvon')):
        if tm_ok and sp_ok:
            ctx.check_eq(f(tm, sp), tabs[t][tm][sp], t)
        else:
            e = ctx.raises(lambda: f(tm, sp), IndexError)
            ctx.check(isinstance(e, IndexError), t + ' out of range')


CASES = [
    dict(name='index0', fn=index, params=dict(n_ev=3, n_pix=2, n_samp=2,
                                              is_r1=False)),
    dict(name='index1', fn=index, params=dict(n_ev=2, n_pix=1, n_samp=2,
                                              is_r1=True)),
    dict(name='iter0', fn=iterate, params=dict(n_ev=4, n_pix=2, n_samp=2,
                                               is_r1=False)),
    dict(name='iter1', fn=iterate, params=dict(n_ev=2, n_pix=2, n_samp=2,
                                               is_r1=True)),
    dict(name='iterempty', fn=iterate, params=dict(n_ev=0, n_pix=1, n_samp=1,
                                                   is_r1=True)),
    dict(name='slice', fn=slices, params=dict(n_ev=3, step_max=2)),
    dict(name='list', fn=lists, params=dict(n_ev=2, k=2)),
    dict(name='level', fn=level),
    dict(name='slow', fn=slow_control, params=dict(n_tm=2, n_sp=3)),
    dict(name='slice4', fn=slices, params=dict(n_ev=4, step_max=3),
         tier='thorough'),
    dict(name='list3', fn=lists, params=dict(n_ev=3, k=3), tier='thorough'),
]

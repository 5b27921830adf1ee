"""The configuration file written for the reducer chain."""
import gc
import os
import sys
import warnings

BOUNDS = ('every default of up to 4 columns of the reducers, one added '
          'reducer whose documentation has one of 10 shapes, with and '
          'without documentation in the file')
ASSUMPTIONS = ['yaml.safe_load reads the configuration (the real one)']

DOCS = [None, '', 'One line.', 'Charge: of the pulse', ' padded: # line ',
        '\n    Usual shape\n    of: two lines\n    ',
        'First: line\n\n    Parameters\n    ----------\n    x : float',
        '\n\n    Blank: lines\n\n\n    inside\n\n    ',
        'Other\u2028breaks: of\x85a: line\rin: it\x0cthat: end',
        '\n'.join(f'Line {i}: of many' for i in range(40))]


def added(ctx, m, shape):
    doc = DOCS[shape]

    def value(self):
        return 0
    value.__name__ = f'user{shape}'
    value.__qualname__ = f'User{shape}.user{shape}'
    value.__doc__ = doc
    return m.WaveformReducerMeta(
        f'User{shape}', (m.WaveformReducer,),
        {value.__name__: m.column(value), '__doc__': doc,
         '__module__': 'user'})


def generate(ctx, path, bare):
    g = ctx.load('CHECLabPy.scripts.generate_dl1_config')
    ctx.patch(sys, 'argv', ['generate', '-o', path] +
              (['--bare'] if bare else []))
    g.main()
    import yaml
    with open(path) as f:
        return f.read(), yaml.safe_load(f.seek(0) or f)


def run(ctx, shape, free):
    warnings.simplefilter('ignore')
    m = ctx.load('CHECLabPy.core.reducer')
    c = ctx.load('CHECLabPy.core.chain')
    core = ctx.load('CHECLabPy.core')
    gc.collect()  # reducers added by earlier runs
    user = added(ctx, m, shape)
    d = dict(c.WaveformReducerChain.default_columns)
    for k in free:
        d[k] = ctx.bool('default_' + k)
    ctx.patch(c.WaveformReducerChain, 'default_columns', d)
    path = os.path.join(ctx.tmpdir(), 'config.yml')
    bare = ctx.choice('bare', [False, True])
    text, got = generate(ctx, path, bare)
    every = {}
    for r in core.child_subclasses(m.WaveformReducer):
        every[r.__name__] = list(r.columns)
    ctx.check(user.__name__ in every and len(every) > 15, 'all reducers')
    cols = [k for v in every.values() for k in v]
    ctx.check(isinstance(got, dict) and sorted(got) == sorted(set(cols)),
              'every column of every reducer, and nothing else')
    for k in cols:
        ctx.check_eq(got[k], d.get(k, True), 'its default', 0)
        ctx.check(type(got[k]) is bool, 'a flag')
    lines = text.splitlines()
    ctx.check(len([v for v in lines if v and not v.startswith('#')]) ==
              len(cols), 'one line per column')
    for name, ks in every.items():
        at = [i for i, v in enumerate(lines) if v.strip('# ') == name]
        ctx.check(len(at) >= 1, 'named after the reducer')
        here = [lines.index(f'{k}: {got[k]}') for k in ks]
        ctx.check(all(any(a < i and not any(
            v == '' for v in lines[a:i]) for a in at) for i in here),
            'below its reducer')
    said = [v for v in lines if v.startswith('#')]
    if bare:
        ctx.check(len(said) == len(every), 'bare: names only')
    else:
        words = [w for v in (DOCS[shape] or '').splitlines()
                 for w in [v.strip()] if w]
        for w in words:
            ctx.check(sum(w == v.lstrip('#').strip() for v in said) == 2
                      or w.startswith('-'), 'documentation is a comment')
    # the file configures a chain, which arguments still override
    on = [k for k in got if got[k]]
    ch = c.WaveformReducerChain._load_config(path)
    ctx.check(ch == got, 'the chain reads it')
    ctx.observe('on', len([k for k in on if 'user' not in k]))


CASES = [
    dict(name=f'shape{i}', fn=run, params=dict(shape=i, free=f))
    for i, f in enumerate([
        ['t_cc', 'charge_cc', 'sp_max'], ['t_event', 'fwhm'],
        ['waveform_max', 'saturation_sum'], ['charge_nnls'],
        ['user4', 't_cc_local'], ['user5', 'baseline_end_rms'],
        ['waveform_mean', 't_averagewf'], ['flasher_unit', 'user7'],
        ['user8', 'sp_max'], ['t_event']])
]

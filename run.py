#!/opt/venv/bin/python
"""Run the check of one property:  run.py <ID> [--tier quick|thorough]

Exit 0: held on everything explored; 1: VIOLATION line; 2: no verdict."""
import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import signal
import random
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable


def load_check(pid):
    path = os.path.join(VERIF, 'checks', pid + '.py')
    spec = importlib.util.spec_from_file_location('check_' + pid, path)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    sys.modules['check_' + pid] = m
    spec.loader.exec_module(m)
    return m


def cases_of(mod, tier):
    """[(name, fn, params)]; a case is one harness with fixed sizes"""
    out = []
    for c in mod.CASES:
        if c.get('tier', 'quick') == 'thorough' and tier != 'thorough':
            continue
        if c.get('only') and c['only'] != tier:
            continue
        out.append(c)
    return out


# ---------------------------------------------------------------------------
# one path

def new_stats():
    return dict(obligations=0, trivial=0, simplified=0, discharged=0, undecided=0,
                queries=0, solver_s=0.0, paths=0, aborted=0, decisions=0,
                unknown=0, unsupported=0)


def run_path(case, prefix, stats, deadline, timeout_ms):
    """-> dict(kind=ok|violation|abort|unsupported|budget, ...)"""
    from symex import core, harness, loader, nparr
    loader.reset()
    ex = core.Explorer(prefix, timeout_ms=timeout_ms, deadline=deadline)
    core.set_ex(ex)
    nparr.bind(ex)
    ctx = harness.SymCtx(ex, stats)
    res = dict(kind='ok', case=case['name'])
    try:
        case['fn'](ctx, **case.get('params', {}))
    except core.PathAbort:
        res['kind'] = 'abort'
    except core.BudgetExceeded:
        res['kind'] = 'budget'
    except core.Unsupported as e:
        res['kind'] = 'unsupported'
        res['why'] = str(e) + ' @ ' + where()
    except harness.Violation as v:
        res['kind'] = 'violation'
        res['label'] = v.label
        res['models'] = v.models
        res['uf'] = v.uf
    except RecursionError:
        res['kind'] = 'unsupported'
        res['why'] = 'recursion'
    except (Exception, SystemExit) as e:
        # the code under test raised: no property allows that unless the
        # harness catches it
        res['kind'] = 'unsupported' if harness.beyond_stand_in(e) else \
            'violation'
        res['label'] = f'raises {type(e).__name__}'
        res['why'] = f'{type(e).__name__}: {e} @ {where()}'
        try:
            m = ex._model()
            res['models'] = [ex.env_of(m)] if m is not None else []
            try:
                ctx._violate(core.z3.BoolVal(True), 'x')
            except harness.Violation as v:
                res['models'] = v.models
            except core.BudgetExceeded:
                pass
        except core.PathAbort:
            res['kind'] = 'abort'
        except core.BudgetExceeded:
            res['kind'] = 'budget'
    finally:
        ctx.close()
    res['choices'] = dict(ctx.choices)
    res['labels'] = dict(ctx.labels)
    stats['queries'] += ex.n_queries
    stats['solver_s'] += ex.solver_s
    stats['unknown'] += ex.unknown
    stats['decisions'] += max(0, len(ex.decisions) - len(prefix)) \
        if prefix else len(ex.decisions)
    if res['kind'] == 'abort':
        stats['aborted'] += 1
    elif res['kind'] != 'budget':
        stats['paths'] += 1
    res['alts'] = ex.alternatives
    res['decisions'] = len(ex.decisions)
    res['ex'] = ex
    res['ctx'] = ctx
    return res


def where():
    tb = sys.exc_info()[2]
    fr = traceback.extract_tb(tb)
    for f in reversed(fr):
        if f.filename.startswith(REPO):
            return f'{os.path.relpath(f.filename, REPO)}:{f.lineno}'
    return f'{os.path.basename(fr[-1].filename)}:{fr[-1].lineno}'


def sample_of(res, rng):
    """inputs of the path and what the encoding says the code returns"""
    from symex import core
    from symex.harness import _flatten
    ex, ctx = res['ex'], res['ctx']
    try:
        z3 = core.z3
        reals = [k for (kind, k) in ex.inputs.values() if kind == 'r']
        m = None
        if reals:
            ex.solver.set('timeout', 1500)
            if ex._check(*[z3.IsInt(k * 4) for k in reals]) == z3.sat:
                m = ex.solver.model()
        if m is None:
            m = ex._model()
        if m is None:
            return None
        env = ex.env_of(m)
        obs = []
        for name, v in ctx.observed:
            vals = []
            for x in _flatten(v):
                if type(x) in core.SYM:
                    x = core.numeval(x.e, env)
                vals.append(jsonable(x))
            obs.append([name, vals])
        return dict(case=res['case'], choices=res['choices'],
                    env={k: jsonable(v) for k, v in env.items()}, obs=obs,
                    uf=ex.uf_used)
    except (core.Unsupported, core.BudgetExceeded, core.PathAbort,
            ZeroDivisionError, OverflowError, ValueError, KeyError):
        return None


def diverse(ex, rng, rounds=4, inputs=24):
    """further models of a path, each away from the one before"""
    from symex import core
    z3 = core.z3
    out = []
    try:
        m = ex._model()
        if m is None:
            return out
        env = ex.env_of(m)
        ex.solver.set('timeout', 500)
        t_end = time.time() + 3
        for _ in range(rounds):
            names = list(ex.inputs.items())
            rng.shuffle(names)
            depth = 0
            try:
                for name, (kind, k) in names[:inputs]:
                    if time.time() > t_end:
                        break
                    v = env[name]
                    c = (k != z3.BoolVal(v)) if kind == 'b' else \
                        k > core.rval(v) if rng.random() < .5 else \
                        k < core.rval(v)
                    ex.solver.push()
                    depth += 1
                    ex.solver.add(c)
                    if ex._check() == z3.sat:
                        env = ex.env_of(ex.solver.model())
                    else:
                        ex.solver.pop()
                        depth -= 1
            finally:
                for _ in range(depth):
                    ex.solver.pop()
            out.append({k: jsonable(v) for k, v in env.items()})
    except (core.Unsupported, core.BudgetExceeded, core.PathAbort,
            z3.Z3Exception, ZeroDivisionError, OverflowError, ValueError):
        pass
    return out


def jsonable(x):
    from fractions import Fraction
    import numpy as np
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 else float(x)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    return x if isinstance(x, str) or x is None else str(type(x))


_W = {}


def worker(task):
    """explore the subtree of a prefix for a while; hand back what is left"""
    ci, prefixes, slice_s, deadline, want_samples, seed = task
    from symex import loader
    mod, tier = _W['mod'], _W['tier']
    case = cases_of(mod, tier)[ci]
    loader.install()
    cov = _W.setdefault('cov', loader.Coverage())
    cov.start()
    rng = random.Random(seed)
    stats = new_stats()
    t_end = min(time.time() + slice_s, deadline)
    stack = [list(p) for p in prefixes]
    violations, unsupported, samples, labels = [], [], [], {}
    timeout_ms = case.get('timeout_ms', 4000)
    budget = False
    while stack:
        if time.time() > t_end:
            break
        prefix = stack.pop()
        r = run_path(case, prefix, stats, deadline, timeout_ms)
        if r['kind'] == 'budget':
            stack.append(prefix)
            budget = True
            break
        stack.extend(r['alts'])
        for k, n in r['labels'].items():
            labels[k] = labels.get(k, 0) + n
        if r['kind'] == 'violation':
            violations.append(dict(
                case=r['case'], label=r['label'], choices=r['choices'],
                why=r.get('why'), uf=r.get('uf', False),
                models=[{k: jsonable(v) for k, v in m.items()}
                        for m in r['models']],
                more=diverse(r['ex'], rng) if r.get('why') else []))
            if len(violations) >= 3:
                break
        elif r['kind'] == 'unsupported':
            stats['unsupported'] += 1
            s = sample_of(r, rng)
            unsupported.append(dict(
                case=r['case'], why=r['why'], sample=s,
                more=diverse(r['ex'], rng) if len(unsupported) < 3 else [],
                choices=r['choices']))
        elif r['kind'] == 'ok' and len(samples) < want_samples:
            s = sample_of(r, rng)
            if s:
                samples.append(s)
        r['ex'] = r['ctx'] = None
    return dict(ci=ci, stats=stats, violations=violations,
                unsupported=unsupported[:20], samples=samples, labels=labels,
                left=stack, functions=sorted(cov.seen), budget=budget)


def init_worker(pid, tier):
    _W['mod'] = load_check(pid)
    _W['tier'] = tier


# ---------------------------------------------------------------------------
# replay on the real code

class Hang(BaseException):
    """the code runs for longer than it ever should"""


def replay_main(path):
    """run the harness on the real code with the inputs in the file"""
    sys.path.insert(0, REPO)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import io
    import contextlib
    import warnings
    warnings.simplefilter('ignore')
    with open(path) as f:
        spec = json.load(f)
    mod = load_check(spec['property'])
    cases = {c['name']: c for c in mod.CASES}
    from symex import harness
    import numpy as np
    out = []
    hung = set()

    def does_not_end(*a):
        raise Hang
    signal.signal(signal.SIGALRM, does_not_end)
    for item in spec['items']:
        case = cases[item['case']]
        if item['case'] in hung and item.get('limit'):
            out.append(dict(ok=True, label='skipped', obs=[]))
            continue
        ctx = harness.RealCtx(item['env'], item['choices'],
                              salt=item.get('salt', 0))
        r = dict(ok=True, label=None)
        buf = io.StringIO()
        state = np.geterr()
        try:
            signal.alarm(item.get('limit') or 0)
            with contextlib.redirect_stdout(buf), np.errstate(all='ignore'):
                case['fn'](ctx, **case.get('params', {}))
            signal.alarm(0)
        except Hang:
            hung.add(item['case'])
            r = dict(ok=False, label='does not end',
                     why=f'not within {item["limit"]} s')
        except harness.CheckFailed as e:
            r = dict(ok=False, label=str(e))
        except harness.AssumptionFailed:
            r = dict(ok=True, label='assumption')
        except (Exception, SystemExit) as e:
            r = dict(ok=harness.beyond_stand_in(e),
                     label=f'raises {type(e).__name__}',
                     why=f'{type(e).__name__}: {e} @ {where()}')
        finally:
            signal.alarm(0)
            ctx.close()
        try:
            r['obs'] = [[n, [jsonable(x) for x in harness._flatten(v)]]
                        for n, v in ctx.observed]
        except Exception as e:
            r['obs'] = []
        if not r['ok']:
            # with what the model had left open
            r['env'] = {k: jsonable(v) for k, v in ctx.env.items()}
            r['choices'] = dict(ctx.choices)
        out.append(r)
    print('@@REPLAY@@' + json.dumps(out))


def replay(pid, items, timeout=450):
    """-> list of results, or None"""
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'.batch_{pid}_{os.getpid()}.json')
    with open(p, 'w') as f:
        json.dump(dict(property=pid, items=items), f)
    env = dict(os.environ, NUMBA_BOUNDSCHECK='1', MPLBACKEND='Agg',
               PYTHONDONTWRITEBYTECODE='1', NUMBA_DISABLE_PERFORMANCE_WARNINGS='1')
    try:
        r = subprocess.run([PY, os.path.join(VERIF, 'run.py'), pid,
                            '--replay-batch', p], env=env,
                           capture_output=True, text=True, timeout=timeout,
                           cwd='/tmp')
    except subprocess.TimeoutExpired:
        return None
    finally:
        os.unlink(p)
    for line in r.stdout.splitlines():
        if line.startswith('@@REPLAY@@'):
            return json.loads(line[len('@@REPLAY@@'):])
    sys.stderr.write(r.stdout[-2000:] + r.stderr[-4000:])
    # the real code cannot even be imported
    return [dict(ok=False, label='process failed', obs=[],
                 why=(r.stderr.strip().splitlines() or ['?'])[-1])
            for _ in items]


def obs_match(a, b):
    from symex.harness import _close
    if len(a) != len(b):
        return False
    for (n1, v1), (n2, v2) in zip(a, b):
        if n1 != n2 or len(v1) != len(v2):
            return False
        for x, y in zip(v1, v2):
            if not _close(x, y, 1e-6, 1e-5):
                return False
    return True


def run_file(pid, path):
    """replay one recorded violation by hand"""
    with open(path) as f:
        v = json.load(f)
    r = replay(pid, [dict(case=v['case'], choices=v['choices'],
                          env=v['inputs'])])
    print(json.dumps(r, indent=1))
    return 1 if r and not r[0]['ok'] else 0


# ---------------------------------------------------------------------------

def brief(d, most=200):
    """the first entries of what evidence shows of a path"""
    if isinstance(d, dict) and len(d) > most:
        return {**{k: d[k] for k in list(d)[:most]},
                '...': f'{len(d) - most} more'}
    if isinstance(d, list) and len(d) > most:
        return d[:most] + [f'... {len(d) - most} more']
    return d


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=' + pid + ' '):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out.append((key.strip(), text.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay-batch')
    ap.add_argument('--replay')
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay_batch:
        replay_main(a.replay_batch)
        return 0
    if a.replay:
        return run_file(a.pid, a.replay)
    t0 = time.time()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = load_check(pid)
    cases = cases_of(mod, tier)
    if a.case:
        keep = [i for i, c in enumerate(cases) if a.case in c['name']]
    else:
        keep = list(range(len(cases)))
    budget = getattr(mod, 'BUDGET', {}).get(
        tier, 150 if tier == 'quick' else 1500)
    deadline = t0 + budget
    init_worker(pid, tier)
    ctxm = mp.get_context('fork')
    pool = ctxm.Pool(a.jobs, initializer=init_worker, initargs=(pid, tier))
    tot = {i: new_stats() for i in keep}
    undecided_labels = {}
    labels = {i: {} for i in keep}
    left = {i: 0 for i in keep}
    violations, unsupported, samples, functions = [], [], [], set()
    pending = []

    def submit(ci, prefixes):
        n = len([s for s in samples if s['case'] == cases[ci]['name']])
        want = max(0, cases[ci].get('samples', 2) - n)
        pending.append((ci, prefixes, pool.apply_async(worker, ((
            ci, prefixes, 1.5, deadline, want, seed),))))
    for i in keep:
        submit(i, [[]])
    stop = {}
    err = None
    while pending:
        nxt = None
        for k, (ci, pre, r) in enumerate(pending):
            if r.ready():
                nxt = k
                break
        if nxt is None:
            time.sleep(0.005)
            if time.time() > deadline + 120:
                break
            continue
        ci, pre, r = pending.pop(nxt)
        try:
            w = r.get()
        except Exception as e:
            err = f'{cases[ci]["name"]}: {e!r}'
            traceback.print_exc()
            left[ci] += 1
            continue
        for k, v in w['stats'].items():
            if k == 'undecided_labels':
                for l, n in v.items():
                    undecided_labels[l] = undecided_labels.get(l, 0) + n
            else:
                tot[ci][k] += v
        for k, n in w['labels'].items():
            labels[ci][k] = labels[ci].get(k, 0) + n
        violations += w['violations']
        unsupported += w['unsupported']
        samples += w['samples']
        functions.update(w['functions'])
        nv = len([v for v in violations if v['case'] == cases[ci]['name']])
        if nv >= 4 or time.time() > deadline or w['budget']:
            left[ci] += len(w['left'])
            continue
        if w['left']:
            # split what is left among the workers
            rest = w['left']
            free = max(1, a.jobs - len(pending))
            n = min(len(rest), max(1, free))
            for k in range(n):
                submit(ci, rest[k::n])
    pool.terminate()
    pool.join()
    t_explore = time.time() - t0

    # ---- confirm the violations on the real code
    items, owner = [], []
    for v in violations[:40]:
        for m in v['models'][:8]:
            items.append(dict(case=v['case'], choices=v['choices'], env=m))
            owner.append(v)
    # ---- concrete runs for the paths the encoder could not finish
    for u in unsupported[:24]:
        if u['sample']:
            s = u['sample']
            items.append(dict(case=s['case'], choices=s['choices'],
                              env=s['env']))
            owner.append(dict(case=s['case'], label='(unsupported path)',
                              choices=s['choices'], why=u['why'],
                              models=[s['env']]))
    # ---- a path that ends early leaves inputs open: further models of it,
    # with several values for what it has not asked for
    n_early = {}
    for u in [v for v in violations if v.get('why')] + unsupported:
        k = n_early.get(u['case'], 0)
        if k >= 3:
            continue
        n_early[u['case']] = k + 1
        base = u['models'][:1] if 'models' in u else \
            [u['sample']['env']] if u['sample'] else []
        for j, env in enumerate(base * 4 + u['more'] + [{}] * 8):
            if len(items) > 400:
                break
            items.append(dict(case=u['case'], env=dict(env), salt=9 * k + j + 1,
                              choices=dict(u['choices']) if env else {}))
            owner.append(dict(case=u['case'], label='(path that ends early)',
                              choices=u['choices'], why=u['why'], models=[],
                              extra=True))
    for it in items:
        it['limit'] = 60
    rng = random.Random(seed)
    rng.shuffle(samples)
    by = {}
    for s in samples:
        by.setdefault(s['case'], []).append(s)
    chosen = []
    for c, ss in by.items():
        chosen += ss[:3]
    nval = len(chosen)
    val_items = [dict(case=s['case'], choices=s['choices'], env=s['env'])
                 for s in chosen]
    results = replay(pid, items + val_items) if items or val_items else []
    n_extra = sum(bool(v.get('extra')) for v in owner)
    confirmed, spurious = [], []
    validated, mismatched = 0, []
    if results is None:
        err = err or 'replay timed out'
        results = []
    for it, v, r in zip(items, owner, results):
        if not r['ok']:
            confirmed.append((v, it, r))
        elif not v.get('extra'):
            spurious.append(v)
    for s, it, r in zip(chosen, val_items, results[len(items):]):
        if r['ok'] and obs_match(s['obs'], r['obs']):
            validated += 1
        elif not r['ok'] and r['label'] != 'assumption' and \
                not s.get('uf'):
            # the real code violates the property on an input on which the
            # encoding says it holds
            confirmed.append((dict(case=s['case'], label=r['label'],
                                   choices=s['choices']), it, r))
            mismatched.append(dict(sample=s, real=r))
        else:
            mismatched.append(dict(sample=s, real=r))

    known = known_findings(pid)
    vio_lines, known_lines, seen = [], [], set()
    for v, it, r in confirmed:
        key = (v['case'], r['label'])
        if key in seen:
            continue
        seen.add(key)
        kf = None
        for k, text in known:
            if k == f"{v['case']}|{r['label']}":
                kf = text
        if kf is not None:
            known_lines.append(f'KNOWN-FINDING: property={pid} {kf}')
            continue
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f'{pid}_{len(vio_lines)}.json')
        with open(p, 'w') as f:
            json.dump(dict(property=pid, case=v['case'],
                           label=r['label'], predicted=v['label'],
                           choices=r.get('choices', it['choices']),
                           inputs=r.get('env', it['env']),
                           why=r.get('why')), f, indent=1)
        vio_lines.append((f'VIOLATION property={pid} replay={p}', v, r))

    T = new_stats()
    for s in tot.values():
        for k in T:
            T[k] += s[k]
    vacuous = [cases[i]['name'] for i in keep
               if not labels[i] and not left[i] and
               not any(u['case'] == cases[i]['name'] for u in unsupported)
               and not any(v['case'] == cases[i]['name'] for v in violations)]
    incomplete = {cases[i]['name']: left[i] for i in keep if left[i]}
    cov = dict(
        states=T['paths'], transitions=T['decisions'],
        traces_validated_against_impl=validated,
        traces_replayed=nval, traces_mismatched=len(mismatched),
        samples=[dict(case=s['case'], inputs=brief(s['env']),
                      outputs=brief(s['obs'])) for s in chosen[:6]] or
        [dict(case=v['case'], inputs=brief(it['env']))
         for v, it, r in confirmed[:2]],
        functions_encoded=sorted(functions),
        queries_discharged=T['queries'], solver_s=round(T['solver_s'], 2),
        obligations_reached=T['obligations'],
        obligations_discharged_by_solver=T['discharged'],
        obligations_discharged_by_solver_simplifier=T['simplified'],
        obligations_concretely_true=T['trivial'],
        obligations_undecided=T['undecided'],
        undecided=undecided_labels,
        feasibility_unknown=T['unknown'],
        paths_infeasible=T['aborted'],
        paths_outside_encoder=T['unsupported'],
        outside_encoder=sorted({u['why'] for u in unsupported})[:10],
        cases={cases[i]['name']: dict(
            paths=tot[i]['paths'], checks=labels[i],
            complete=not left[i]) for i in keep},
        incomplete_cases=incomplete,
        spurious_counterexamples=len(spurious),
        replays_of_paths_that_end_early=n_extra,
        bounds=getattr(mod, 'BOUNDS', ''),
        explanation='states are symbolic execution paths of the real code, '
                    'transitions the branch decisions taken on them; every '
                    'check on a path is decided by z3 for all inputs of the '
                    'path within the bounds',
        exhaustive=False,
    )
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=cov, assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2),
              violations=len(vio_lines))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid} [{tier}] paths={T["paths"]} obligations={T["obligations"]} '
          f'(solver {T["discharged"]}, simplified {T["simplified"]}, '
          f'concrete {T["trivial"]}, undecided '
          f'{T["undecided"]}) queries={T["queries"]} '
          f'solver={T["solver_s"]:.1f}s validated={validated}/{nval} '
          f'explore={t_explore:.1f}s wall={time.time()-t0:.1f}s')
    if a.v:
        for i in keep:
            print('  ', cases[i]['name'], tot[i]['paths'], labels[i],
                  'left', left[i])
    for m in mismatched[:5]:
        print('  mismatch:', json.dumps(m)[:1500])
    for u in unsupported[:5]:
        print('  outside the encoder:', u['case'], u['why'])
    if incomplete:
        print('  not fully explored within the time budget:', incomplete)
    if undecided_labels:
        print('  undecided:', undecided_labels)
    for l in sorted(set(known_lines)):
        print(l)
    for line, v, r in vio_lines:
        print(f"  {v['case']}: {r['label']} {r.get('why') or ''}")
        print(line)
    if vio_lines:
        return 1
    if spurious and a.v or spurious:
        for v in spurious[:3]:
            print('  counterexample not reproduced on the real code:',
                  v['case'], v['label'], v.get('why') or '')
            if a.v:
                print('   ', v['models'][:1], v['choices'])
    if err:
        print('  error:', err)
        return 2
    if vacuous:
        print('  vacuous cases:', vacuous)
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

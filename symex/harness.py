"""The context a check's harness is written against.

The same harness runs in two modes: 'sym' (inputs are symbols, the code runs
on the shims, checks are discharged by the solver) and 'real' (inputs are the
numbers of a solver model, the code of /repo runs on the real numpy, numba,
scipy and pandas, checks are evaluated)."""
import importlib
import math
import os
import re
import sys
import types
from fractions import Fraction

import numpy as np


class CheckFailed(Exception):
    pass


def beyond_stand_in(e):
    """did the code ask a stand-in of a check for something it lacks?
    (this says nothing about the code)"""
    def ours(o):
        t = o if isinstance(o, type) else type(o)
        return t.__module__.startswith('check_') or t.__module__ == 'lib'
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        if isinstance(o, types.ModuleType):
            return getattr(o, '__spec__', None) is None and \
                getattr(o, '__file__', None) is None
        return o is not None and (
            ours(o) or isinstance(o, types.SimpleNamespace))
    if isinstance(e, ImportError):
        return str(e.name).split('.')[0] in (
            'target_io', 'target_calib', 'ctapipe', 'target_driver')
    if isinstance(e, TypeError):
        m = re.match(r'([\w.<>]+)\(\) (got|takes)', str(e))
        if not m:
            return False
        q = m.group(1)
        head = q.split('.')[0]
        for n, mod in list(sys.modules.items()):
            if (n.startswith('check_') or n == 'lib') and \
                    hasattr(mod, head):
                o = getattr(mod, head)
                if getattr(o, '__module__', None) == n:
                    return True
    return False


class Violation(BaseException):
    """a check has a counterexample on this path"""

    def __init__(self, label, models, uf=False):
        self.label = label
        self.models = models      # list of input environments
        self.uf = uf


def _flatten(x):
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            yield from _flatten(x[k])
    elif isinstance(x, (list, tuple)):
        for i in x:
            yield from _flatten(i)
    elif isinstance(x, np.ndarray):
        for i in x.ravel() if type(x) is np.ndarray else \
                x.view(np.ndarray).ravel():
            yield i
    elif hasattr(x, 'values') and isinstance(x.values, np.ndarray):
        yield from _flatten(x.values)
    else:
        yield x


class Base:
    def __init__(self):
        self.labels = {}
        self.observed = []
        self.cleanups = []

    def _count(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    # -- conveniences shared by both modes ---------------------------------
    def ints(self, name, n, lo, hi):
        return [self.int(f'{name}{i}', lo, hi) for i in range(n)]

    def reals(self, name, n, lo, hi):
        return [self.real(f'{name}{i}', lo, hi) for i in range(n)]

    def raises(self, fn, *types_):
        """the exception fn raises (None if it returns)"""
        try:
            fn()
        except (Exception, SystemExit) as e:  # noqa
            if isinstance(e, SystemExit) and SystemExit not in types_:
                raise
            if types_ and not isinstance(e, types_):
                raise
            return e
        return None

    def patch(self, obj, name, value):
        missing = not hasattr(obj, name)
        old = None if missing else getattr(obj, name)
        setattr(obj, name, value)

        def undo():
            if missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self.cleanups.append(undo)
        if isinstance(obj, types.ModuleType) and not missing:
            self._everywhere(old, value)

    def _everywhere(self, old, new):
        """the other names under which the code has imported an object"""
        if not (callable(old) or isinstance(old, types.ModuleType)):
            return
        for n, m in list(sys.modules.items()):
            if m is None or not (n + '.').startswith('CHECLabPy.'):
                continue
            d = m.__dict__
            for k in [k for k, v in d.items() if v is old]:
                d[k] = new
                self.cleanups.append(
                    lambda d=d, k=k: d.__setitem__(k, old))

    def close(self):
        for f in reversed(self.cleanups):
            f()
        self.cleanups = []

    def tmpdir(self):
        import shutil
        import tempfile
        d = tempfile.mkdtemp(prefix='verif-')
        while '_' in os.path.basename(d):    # names are part of the tests
            os.rmdir(d)
            d = tempfile.mkdtemp(prefix='verif-')
        self.cleanups.append(lambda: shutil.rmtree(d, ignore_errors=True))
        return d


class SymCtx(Base):
    mode = 'sym'
    sym = True

    def __init__(self, explorer, stats):
        super().__init__()
        from . import core, loader, nparr, shims
        self.core, self.nparr, self.loader, self.shims = \
            core, nparr, loader, shims
        self.ex = explorer
        self.stats = stats
        self.np = shims.SHIMS['numpy']
        self.math = shims.math_shim
        self.pd = shims.SHIMS['pandas']
        self.choices = {}

    # -- inputs -----------------------------------------------------------
    def real(self, name, lo, hi, np_=False):
        c = self.core
        e = self.ex.declare('r', name)
        self.ex.assume(c.SymBool(c.z3.And(e >= c.rval(lo), e <= c.rval(hi))))
        return c.SymReal(e, np_)

    def int(self, name, lo, hi, np_=False):
        c = self.core
        e = self.ex.declare('i', name)
        self.ex.assume(c.SymBool(c.z3.And(e >= lo, e <= hi)))
        return c.SymInt(e, np_)

    def f64int(self, name, lo, hi):
        """an int whose float arithmetic is rounded as float64"""
        c = self.core
        return c.SymIntF(self.int(name, lo, hi).e)

    def bool(self, name, np_=False):
        return self.core.SymBool(self.ex.declare('b', name), np_)

    def array(self, name, shape, lo=-100, hi=100, kind='r', dtype=None):
        n = self.nparr
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        c = self.core
        o = np.empty(shape, dtype=object)
        bounds = []
        for i in np.ndindex(*shape):
            nm = name + ''.join(f'_{k}' for k in i)
            e = self.ex.declare(kind, nm)
            if kind == 'r':
                o[i] = c.SymReal(e, True)
                bounds += [e >= c.rval(lo), e <= c.rval(hi)]
            elif kind == 'i':
                o[i] = c.SymInt(e, True)
                bounds += [e >= lo, e <= hi]
            else:
                o[i] = c.SymBool(e, True)
        if bounds:
            self.ex.assume(c.SymBool(c.z3.And(bounds)))
        dt = dtype or {'r': 'float64', 'i': 'int64', 'b': 'bool'}[kind]
        return n.mk(o, np.dtype(dt))

    def choice(self, name, options):
        k = self.ex.choose(len(options))
        self.choices[name] = k
        return options[k]

    def const(self, x, dtype=None):
        """a concrete array"""
        return self.nparr.f_array(x, dtype)

    def digits(self, v, width=None):
        """the decimal digits of an int >= 0"""
        if type(v) not in self.core.SYM:
            return str(v).zfill(width or 0)
        from . import text
        return text.token(v, width)

    def text(self, *parts):
        from . import text
        return text.wrap(''.join(str(p) for p in parts))

    # -- environment ------------------------------------------------------
    def load(self, name):
        return self.loader.load(name)

    def stub(self, name, mod):
        self.loader.STUBS[name] = mod
        if '.' in name:
            parent, child = name.rsplit('.', 1)
            if parent in self.loader.STUBS:
                setattr(self.loader.STUBS[parent], child, mod)

    def csv(self, suffix, **cols):
        self.shims.SHIMS['pandas'].csv.append(
            (lambda p, s=suffix: p.endswith(s), cols))

    def csv_files(self):
        """files written with to_csv can be read back with read_csv"""
        import pandas as pd
        store = {}
        nparr = self.nparr

        def to_csv(df, path, *a, **k):
            sep = k.get('sep', ',')
            cols = {}
            if k.get('index', True):
                cols['Unnamed: 0'] = nparr.f_array(list(df.index))
            for c in df.columns:
                v = df[c].to_numpy()
                cols[c] = nparr.up(v) if v.dtype != object else \
                    nparr.mk(v, nparr.infer_dtype(v))
            store[str(path)] = (sep, cols)
            open(path, 'w').close()
        self.patch(pd.DataFrame, 'to_csv', to_csv)
        shim = self.shims.SHIMS['pandas']
        old = shim.read_csv

        def read_csv(path, *a, **k):
            if str(path) in store:
                sep, cols = store[str(path)]
                if sep != k.get('sep', k.get('delimiter', ',')):
                    cols = {sep.join(cols): next(iter(cols.values()))}
                return self.shims.MiniFrame(cols)
            return old(path, *a, **k)
        shim.__dict__['read_csv'] = read_csv

    # -- conditions -------------------------------------------------------
    def assume(self, cond):
        c = self.core
        if type(cond) in c.SYM:
            self.ex.assume(cond)
        elif not bool(cond):
            raise c.PathAbort('assumption')

    def all(self, conds):
        c = self.core
        es = []
        for x in conds:
            if type(x) in c.SYM:
                es.append(c.truth(x))
            elif not bool(x):
                return False
        return c.SymBool(c.z3.And(es)) if es else True

    def any(self, conds):
        c = self.core
        es = []
        for x in conds:
            if type(x) in c.SYM:
                es.append(c.truth(x))
            elif bool(x):
                return True
        return c.SymBool(c.z3.Or(es)) if es else False

    def neg(self, x):
        c = self.core
        if type(x) in c.SYM:
            return c.SymBool(c.z3.Not(c.truth(x)))
        return not bool(x)

    def implies(self, a, b):
        return self.any([self.neg(a), b])

    def ite(self, c, a, b):
        return self.core.ite(c if type(c) in self.core.SYM else bool(c), a, b)

    def max(self, xs):
        r = None
        for x in xs:
            r = x if r is None else self.core.sym_max(r, x)
        return r

    def min(self, xs):
        r = None
        for x in xs:
            r = x if r is None else self.core.sym_min(r, x)
        return r

    def abs(self, x):
        return abs(x)

    def exp(self, x):
        return self.core.sym_exp(x)

    def log(self, x):
        return self.core.sym_log(x)

    def sqrt(self, x):
        return self.core.sym_sqrt(x)

    def pow(self, a, b):
        return self.core.sym_pow(a, b) if type(a) in self.core.SYM else a ** b

    def fork(self, cond):
        return bool(cond)

    def check(self, cond, label):
        """the assertion holds on every input of this path"""
        self._count(label)
        c = self.core
        st = self.stats
        st['obligations'] += 1
        if type(cond) not in c.SYM:
            if bool(cond):
                st['trivial'] += 1
                return
            self._violate(c.z3.BoolVal(True), label)
        e = c.truth(cond)
        s = c.z3.simplify(e)
        if c.z3.is_true(s):
            st['simplified'] += 1
            return
        ne = c.z3.Not(e)
        r, m = self.ex.feasible(ne)
        if r == c.z3.unsat:
            st['discharged'] += 1
            return
        if r == c.z3.unknown:
            st['undecided'] += 1
            st.setdefault('undecided_labels', {}).setdefault(label, 0)
            st['undecided_labels'][label] += 1
            return
        self._violate(ne, label)

    def _violate(self, ne, label):
        """models of the violation, the ones easiest to replay first"""
        c = self.core
        z3 = c.z3
        ex = self.ex
        models = []
        reals = [k for (kind, k) in ex.inputs.values() if kind == 'r']
        old = ex.timeout_ms
        ex.solver.set('timeout', 3000)
        for scale in (1, 4):
            if not reals:
                break
            r = ex._check(ne, *[z3.IsInt(k * scale) for k in reals])
            if r == z3.sat:
                models.append(ex.env_of(ex.solver.model()))
                break
        ex.solver.set('timeout', old)
        r, m = ex.feasible(ne)
        if r == z3.sat and m is not None:
            models.append(ex.env_of(m))
        # further, different models
        if reals and models:
            try:
                ex.solver.push()
                for _ in range(2):
                    env = models[-1]
                    ex.solver.add(z3.Or([
                        z3.Or(k > c.rval(Fraction(env[n]) + 1),
                              k < c.rval(Fraction(env[n]) - 1))
                        for n, (kind, k) in ex.inputs.items()
                        if kind == 'r']))
                    if ex._check(ne) != z3.sat:
                        break
                    models.append(ex.env_of(ex.solver.model()))
            finally:
                ex.solver.pop()
        # and with larger integers
        ints = [k for (kind, k) in ex.inputs.values() if kind == 'i'][:10]
        if ints and models:
            ex.solver.set('timeout', 3000)
            for least in (10, 300):
                ex.solver.push()
                try:
                    m = None
                    for k in ints:
                        ex.solver.push()
                        ex.solver.add(k >= least)
                        if ex._check(ne) != z3.sat:
                            ex.solver.pop()
                            # (without it; the frames stay balanced)
                            ex.solver.push()
                        else:
                            m = ex.env_of(ex.solver.model())
                    for k in ints:
                        ex.solver.pop()
                    if m is not None and m not in models:
                        models.append(m)
                finally:
                    ex.solver.pop()
            ex.solver.set('timeout', old)
        raise Violation(label, models, ex.uf_used)

    def eq(self, a, b, tol=1e-6):
        """closeness of two scalars as a condition"""
        c = self.core
        sa, sb = type(a) in c.SYM, type(b) in c.SYM
        if not sa and not sb:
            return _close(a, b, tol)
        if not sa and (a is None or isinstance(a, str)):
            return False
        if not sb and (b is None or isinstance(b, str)):
            return False
        if c._special(a) or c._special(b):
            return False
        la, lb = c.lift(a), c.lift(b)
        if la is None or lb is None:
            if type(a) is c.SymF64 and type(b) is c.SymF64:
                return c.SymBool(a.e == b.e)
            return False
        if la[0] == lb[0] == 'i' or tol == 0:
            return a == b
        d = c.to_real(*la[:2]) - c.to_real(*lb[:2])
        d = c.z3.simplify(d, som=True) if not _heavy(d) else d
        k = c.const_of(d)
        if k is not None:
            # Z3's simplifier decided it
            return c.SymBool(c.z3.BoolVal(abs(float(k)) <= tol))
        t = c.rval(tol)
        return c.SymBool(c.z3.And(d <= t, -d <= t))

    def check_eq(self, a, b, label, tol=1e-6):
        fa, fb = list(_flatten(a)), list(_flatten(b))
        if len(fa) != len(fb):
            self.check(False, label + ' (shape)')
        self.check(self.all([self.eq(x, y, tol) for x, y in zip(fa, fb)]),
                   label)

    def isnan(self, x):
        if isinstance(x, np.ndarray) and x.ndim == 0:
            x = x.item()
        return self.core._special(x) and math.isnan(x)

    def observe(self, name, value):
        self.observed.append((name, value))


def _heavy(e, limit=400):
    n = 0
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        n += 1
        if n > limit:
            return True
        todo.extend(x.children())
    return False


def _close(a, b, tol=1e-6, rtol=1e-5):
    if a is b:
        return True
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if math.isnan(fa) or math.isnan(fb):
        return math.isnan(fa) and math.isnan(fb)
    if math.isinf(fa) or math.isinf(fb):
        return fa == fb
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        return int(a) == int(b)
    if tol == 0:
        return fa == fb
    return abs(fa - fb) <= tol + rtol * max(abs(fa), abs(fb))


class RealCtx(Base):
    mode = 'real'
    sym = False
    stubs = {}

    def __init__(self, env, choices, only=None, salt=0):
        super().__init__()
        self.env = env
        self.salt = f'{salt} ' if salt else ''
        self.choices = choices
        self.np = np
        self.math = math
        import pandas
        self.pd = pandas
        self.failed = []
        self._csvs = []
        self._stubs = {}

    def _get(self, name, lo=0, hi=1):
        """an input the model does not mention (the symbolic run stopped
        before asking for it) gets an arbitrary value within its bounds"""
        if name not in self.env:
            import zlib
            k = zlib.crc32((self.salt + name).encode()) % 1001
            v = lo + (hi - lo) * k / 1000
            self.env[name] = int(v) if isinstance(lo, int) else v
        return self.env[name]

    def real(self, name, lo, hi, np_=False):
        v = float(self._get(name, float(lo), float(hi)))
        return np.float64(v) if np_ else v

    def int(self, name, lo, hi, np_=False):
        v = int(self._get(name, lo, hi))
        return np.int64(v) if np_ else v

    f64int = int

    def bool(self, name, np_=False):
        v = bool(self._get(name, 0, 2))
        return np.bool_(v) if np_ else v

    def array(self, name, shape, lo=-100, hi=100, kind='r', dtype=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        dt = dtype or {'r': 'float64', 'i': 'int64', 'b': 'bool'}[kind]
        a = np.empty(shape, dtype=dt)
        for i in np.ndindex(*shape):
            nm = name + ''.join(f'_{k}' for k in i)
            if kind == 'r':
                a[i] = self._get(nm, float(lo), float(hi))
            elif kind == 'i':
                a[i] = self._get(nm, int(lo), int(hi))
            else:
                a[i] = bool(self._get(nm, 0, 2))
        return a

    def choice(self, name, options):
        if name not in self.choices:
            import zlib
            self.choices[name] = zlib.crc32((self.salt + name).encode()) % len(options)
        return options[self.choices[name]]

    def const(self, x, dtype=None):
        return np.array(x, dtype=dtype)

    def digits(self, v, width=None):
        return str(v).zfill(width or 0)

    def text(self, *parts):
        return ''.join(str(p) for p in parts)

    def load(self, name):
        return importlib.import_module(name)

    def stub(self, name, mod):
        missing = name not in sys.modules
        old = sys.modules.get(name)
        sys.modules[name] = mod
        # what the code took from an earlier stand-in
        before = RealCtx.stubs.get(name)
        if before is not None:
            self._everywhere(before, mod)
            for k, v in list(before.__dict__.items()):
                if not k.startswith('__') and hasattr(mod, k):
                    self._everywhere(v, getattr(mod, k))
        RealCtx.stubs[name] = mod

        def undo():
            if before is not None:     # what the code has is this again
                RealCtx.stubs[name] = before
            if missing:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = old
        self.cleanups.append(undo)
        if '.' in name:
            parent, child = name.rsplit('.', 1)
            if parent in sys.modules:
                setattr(sys.modules[parent], child, mod)

    def csv(self, suffix, **cols):
        import pandas as pd
        orig = pd.read_csv

        def read_csv(path, *a, **k):
            if str(path).endswith(suffix):
                from .shims import csv_columns
                f = pd.DataFrame(csv_columns(str(path), cols, a, k))
                if k.get('index_col') not in (None, False):
                    i = k['index_col']
                    f = f.set_index(f.columns[i] if isinstance(i, int) else i)
                return f
            return orig(path, *a, **k)
        self.patch(pd, 'read_csv', read_csv)

    def csv_files(self):
        pass

    def assume(self, cond):
        if not bool(cond):
            raise AssumptionFailed()

    def all(self, conds):
        return all(bool(c) for c in list(conds))

    def any(self, conds):
        return any(bool(c) for c in list(conds))

    def neg(self, x):
        return not bool(x)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def max(self, xs):
        return max(xs)

    def min(self, xs):
        return min(xs)

    def abs(self, x):
        return abs(x)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def pow(self, a, b):
        return a ** b

    def fork(self, cond):
        return bool(cond)

    def check(self, cond, label):
        self._count(label)
        if not bool(cond):
            self.failed.append(label)
            raise CheckFailed(label)

    def eq(self, a, b, tol=1e-6):
        return _close(a, b, min(tol, 1e-6) if tol else 0)

    def check_eq(self, a, b, label, tol=1e-6):
        fa, fb = list(_flatten(a)), list(_flatten(b))
        if len(fa) != len(fb):
            self.check(False, label + ' (shape)')
        self.check(all(self.eq(x, y, tol) for x, y in zip(fa, fb)), label)

    def isnan(self, x):
        try:
            return math.isnan(float(x))
        except (TypeError, ValueError):
            return False

    def observe(self, name, value):
        self.observed.append((name, value))


class AssumptionFailed(Exception):
    pass

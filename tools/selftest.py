"""Conformance of the numpy model: each expression is evaluated by numpy on
concrete arrays and by the model on symbols pinned to the same values; the
model must agree (or say that it has no model)."""
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'checks')]
warnings.simplefilter('ignore')
import numpy as np  # noqa
import run  # noqa
from symex import core, harness, loader, nparr  # noqa
from symex.z3load import z3  # noqa

A = np.array([[1.5, -2.0, 3.25], [0.5, 4.0, -1.0]])
B = np.array([[2.0, 0.5, 1.0], [3.0, -1.5, 0.25]])
V = np.array([3.0, 1.0, 2.0, 2.5])
W = np.array([0.5, 1.5, 0.25, 2.0])
I = np.array([2, 0, 1, 2])
M = np.array([True, False, True, False])
EXPRS = [l.strip() for l in open(os.path.join(
    HERE, 'tools', 'numpy_exprs.txt')) if l.strip() and l[0] != '#']


def concrete(x, m):
    if isinstance(x, (tuple, list)):
        return [concrete(i, m) for i in x]
    if nparr.is_arr(x):
        o = x.view(nparr.BASE)
        if o.dtype != object:
            return np.asarray(o)
        return np.array([concrete(i, m) for i in o.flat],
                        dtype=float).reshape(o.shape)
    if type(x) in nparr.SYM:
        t = m.eval(x.e, model_completion=True)
        t = z3.simplify(t)
        if z3.is_true(t) or z3.is_false(t):
            return float(z3.is_true(t))
        if z3.is_algebraic_value(t):
            t = t.approx(20)
        try:
            return float(t.as_fraction())
        except AttributeError:
            return float(t.as_long())
    return float(x)


def main():
    loader.install()
    bad = unsup = 0
    for e in EXPRS:
        want = None
        try:
            want = eval(e, dict(np=np, A=A.copy(), B=B.copy(), V=V.copy(),
                                W=W.copy(), I=I.copy(), M=M.copy()))
        except Exception as x:
            print('numpy', e, x)
            continue
        stack, got = [[]], None
        n = 0
        while stack and n < 40:
            pre = stack.pop()
            n += 1
            loader.reset()
            ex = core.Explorer(pre, timeout_ms=4000,
                               deadline=time.time() + 30)
            core.set_ex(ex)
            nparr.bind(ex)
            ctx = harness.SymCtx(ex, run.new_stats())
            try:
                def arr(n, v, kind):
                    f = {'r': ctx.reals, 'i': ctx.ints}[kind]
                    a = ctx.np.array(list(f(n, v.size,
                                         -20, 20))).reshape(v.shape)
                    for s, c in zip(a.view(nparr.BASE).flat, v.flat):
                        ctx.assume(s == (c.item()))
                    return a
                env = dict(np=ctx.np, A=arr('A', A, 'r'), B=arr('B', B, 'r'),
                           V=arr('V', V, 'r'), W=arr('W', W, 'r'),
                           I=arr('I', I, 'i'))
                env['M'] = env['V'] * 0 + arr('Mi', M.astype(int), 'i') > 0
                r = eval(e, env)
                s = ex.solver
                assert s.check() == z3.sat
                got = ('ok', concrete(r, s.model()))
            except core.PathAbort:
                continue
            except core.Unsupported as x:
                got = ('unsupported', str(x)[:60])
            except Exception as x:
                got = ('error', f'{type(x).__name__} {str(x)[:90]}')
            finally:
                ctx.close()
            break
        if got is None:
            got = ('error', 'no path')
        if got[0] == 'ok':
            w = want if isinstance(want, (tuple, list)) else [want]
            g = got[1] if isinstance(want, (tuple, list)) else [got[1]]
            try:
                ok = len(w) == len(g) and all(
                    np.shape(a) == np.shape(b) and np.allclose(
                        np.asarray(a, float), np.asarray(b, float),
                        atol=1e-6, equal_nan=True) for a, b in zip(w, g))
            except Exception as x:
                ok = False
            if not ok:
                bad += 1
                print('WRONG', e, '\n   ', want, '\n   ', got[1])
        else:
            unsup += got[0] == 'unsupported'
            bad += got[0] == 'error'
            print(got[0].upper(), e, got[1])
    print(f'{len(EXPRS)} expressions, {bad} wrong, {unsup} without a model')
    return bad > 0


if __name__ == '__main__':
    sys.exit(main())

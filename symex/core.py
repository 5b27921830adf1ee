"""Symbolic scalars and the path explorer.

CPython runs the real code of /repo on these proxies.  A proxy wraps a z3
term (Real, Int or Bool); arithmetic builds terms; using a symbolic boolean
as a condition forks the path.  Paths are explored by re-execution from a
decision prefix.
"""
import math
import operator
import time
from fractions import Fraction

import numpy as np

from .z3load import z3


class PathAbort(BaseException):
    """The path is infeasible, or the harness wants to leave it."""


class Unsupported(BaseException):
    """The encoder has no model for an operation."""


class BudgetExceeded(BaseException):
    pass


EX = None  # the active Explorer


def ex():
    return EX


def set_ex(e):
    global EX
    EX = e


# ---------------------------------------------------------------------------
# constants

_rat_cache = {}


def rational(x):
    """The rational a float literal stands for (0.1 -> 1/10)."""
    if type(x) is Fraction:
        return x
    x = float(x)
    r = _rat_cache.get(x)
    if r is None:
        f = Fraction(x)
        r = f
        if f.denominator > 1:
            for lim in (1000, 100000, 10**7, 10**9):
                g = f.limit_denominator(lim)
                if abs(g - f) <= abs(f) * Fraction(3, 10**16):
                    r = g
                    break
        _rat_cache[x] = r
    return r


_const_cache = {}


def rval(x):
    """z3 Real constant"""
    if type(x) is bool or type(x) is np.bool_:
        x = int(x)
    k = x
    r = _const_cache.get(k) if type(x) in (int, float, Fraction) else None
    if r is None:
        if type(x) is int:
            r = z3.RealVal(x)
        elif isinstance(x, (int, np.integer)):
            r = z3.RealVal(int(x))
        else:
            f = rational(x)
            r = z3.RealVal(f"{f.numerator}/{f.denominator}")
        if type(x) in (int, float, Fraction):
            _const_cache[(k)] = r
    return r


def ival(x):
    return z3.IntVal(int(x))


# ---------------------------------------------------------------------------
# uninterpreted transcendental functions

R = z3.RealSort()
F_EXP = z3.Function('EXP', R, R)
F_LOG = z3.Function('LOG', R, R)
F_SQRT = z3.Function('SQRT', R, R)
F_LGAMMA = z3.Function('LGAMMA', R, R)
F_GEN = {}
UF = {'EXP': math.exp, 'LOG': math.log, 'SQRT': math.sqrt,
      'LGAMMA': math.lgamma}


def gen_uf(name, fn, arity=1):
    if name not in F_GEN:
        F_GEN[name] = z3.Function(name, *([R] * (arity + 1)))
        UF[name] = fn
    return F_GEN[name]


def _special(x):
    """nan or infinity"""
    return isinstance(x, (float, np.floating)) and type(x) not in SYM and not math.isfinite(x)


def is_num(x):
    t = type(x)
    return t in (int, float, bool, Fraction) or isinstance(
        x, (np.integer, np.floating, np.bool_))


class Sym:
    __slots__ = ('e', 'np_')
    __hash__ = None


class SymBool(Sym):
    __slots__ = ()
    __array_priority__ = 2000

    def __init__(self, e, np_=False):
        self.e = e
        self.np_ = np_

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return EX.fork(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), self.np_)

    def __and__(self, o):
        if type(o) is SymBool:
            return SymBool(z3.And(self.e, o.e), self.np_ or o.np_)
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        return self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SymBool:
            return SymBool(z3.Or(self.e, o.e), self.np_ or o.np_)
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        return self.as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is SymBool:
            return SymBool(z3.Xor(self.e, o.e), self.np_ or o.np_)
        if isinstance(o, (bool, np.bool_)):
            return ~self if o else self
        raise Unsupported('xor')

    __rxor__ = __xor__

    def __invert__(self):
        if not self.np_:
            # python: ~True == -2
            return ~self.as_int()
        return SymBool(z3.Not(self.e), True)

    def logical_not(self):
        return SymBool(z3.Not(self.e), self.np_)

    def __eq__(self, o):
        if type(o) is SymBool:
            return SymBool(self.e == o.e, self.np_ or o.np_)
        if isinstance(o, (bool, np.bool_)):
            return self if o else SymBool(z3.Not(self.e), self.np_)
        return self.as_int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        if type(r) is SymBool:
            return SymBool(z3.Not(r.e), r.np_)
        return r if r is NotImplemented else not r

    def __repr__(self):
        return f"<SymBool {str(self.e)[:60]}>"

    def __str__(self):
        # decided by a fork
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return EX.ufunc(ufunc, method, inputs, kwargs)

    # numpy-scalar interface
    dtype = np.dtype(bool)
    shape = ()
    ndim = 0
    size = 1

    def astype(self, dt, copy=True):
        return EX.cast(self, np.dtype(dt))

    def item(self):
        return SymBool(self.e)

    def all(self, *a, **k):
        return self

    any = all


def _int_op(name):
    def f(self, o):
        return getattr(self.as_int(), name)(o)
    f.__name__ = name
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__',
           '__rmul__', '__truediv__', '__rtruediv__', '__floordiv__',
           '__mod__', '__neg__', '__lt__', '__le__', '__gt__', '__ge__',
           '__pow__'):
    if _n == '__neg__':
        SymBool.__neg__ = lambda self: -self.as_int()
    else:
        setattr(SymBool, _n, _int_op(_n))


def lift(o):
    """-> (kind, expr, np_) with kind 'i' or 'r', None if not a number"""
    t = type(o)
    if t is SymReal:
        return 'r', o.e, o.np_
    if t is SymInt:
        return 'i', o.e, o.np_
    if t is SymBool:
        return 'i', o.as_int().e, o.np_
    if t is int or t is bool:
        return 'i', ival(o), False
    if t is float:
        return 'r', rval(o), False
    if t is Fraction:
        return 'r', rval(o), False
    if isinstance(o, (np.integer, np.bool_)):
        return 'i', ival(int(o)), True
    if isinstance(o, np.floating):
        return 'r', rval(float(o)), True
    if isinstance(o, int):  # IntEnum and friends
        return 'i', ival(int(o)), False
    if t is SymF64:
        return None
    return None


def to_real(kind, e):
    if kind == 'r':
        return e
    if z3.is_int_value(e):
        return rval(e.as_long())
    return z3.ToReal(e)


def const_of(e):
    """python number of a z3 numeral, or None"""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def _zero_div(np_, num):
    """division by exactly zero"""
    if EX.numba_depth or not np_:
        raise ZeroDivisionError('division by zero')
    # numpy: inf or nan
    if type(num) in SYM:
        if num > 0:
            return np.float64(np.inf)
        if num < 0:
            return np.float64(-np.inf)
        return np.float64(np.nan)
    if num != num or num == 0:
        return np.float64(np.nan)
    return np.float64(np.inf if num > 0 else -np.inf)


def _special_arith(op, a, b):
    """one of the operands is nan/inf"""
    sa, sb = _special(a), _special(b)
    if (sa and math.isnan(a)) or (sb and math.isnan(b)):
        return np.float64(np.nan)
    # one is infinite, the other a finite symbol
    inf, s = (a, b) if sa else (b, a)
    if op == 'add':
        return np.float64(inf)
    if op == 'sub':
        return np.float64(inf if sa else -inf)
    if op == 'mul':
        if s > 0:
            return np.float64(inf)
        if s < 0:
            return np.float64(-inf)
        return np.float64(np.nan)
    if op == 'div':
        if sb:
            return np.float64(0.0)
        if s >= 0:
            return np.float64(inf)
        return np.float64(-inf)
    raise Unsupported('inf in ' + op)


def _binop(op, a, b):
    """a, b: at least one symbolic"""
    if _special(a) or _special(b):
        return _special_arith(op, a, b)
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return NotImplemented
    ka, ea, na = la
    kb, eb, nb = lb
    np_ = na or nb
    if op == 'div':
        cb = const_of(eb)
        if cb is not None:
            if cb == 0:
                return _zero_div(np_, a)
        else:
            if EX.fork(eb == (0 if kb == 'i' else rval(0))):
                return _zero_div(np_, a)
        return SymReal(to_real(ka, ea) / to_real(kb, eb), np_)
    if ka == 'i' and kb == 'i':
        e = {'add': operator.add, 'sub': operator.sub,
             'mul': operator.mul}[op](ea, eb)
        return SymInt(e, np_)
    ea, eb = to_real(ka, ea), to_real(kb, eb)
    if op == 'add':
        if const_of(ea) == 0:
            return SymReal(eb, np_)
        if const_of(eb) == 0:
            return SymReal(ea, np_)
        return SymReal(ea + eb, np_)
    if op == 'sub':
        if const_of(eb) == 0:
            return SymReal(ea, np_)
        return SymReal(ea - eb, np_)
    if op == 'mul':
        ca, cb = const_of(ea), const_of(eb)
        if ca == 1:
            return SymReal(eb, np_)
        if cb == 1:
            return SymReal(ea, np_)
        if ca == 0 or cb == 0:
            return SymReal(rval(0), np_)
        return SymReal(ea * eb, np_)
    raise Unsupported(op)


_CMP = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt,
        'ge': operator.ge, 'eq': operator.eq, 'ne': operator.ne}


def _cmp(op, a, b):
    if _special(a) or _special(b):
        sa = _special(a)
        v = a if sa else b
        if math.isnan(v):
            return np.bool_(op == 'ne')
        # infinity against a finite symbol
        x, y = (v, 0.0) if sa else (0.0, v)
        return np.bool_(_CMP[op](x, y))
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        if op == 'eq':
            return NotImplemented if not _foreign(b) else False
        if op == 'ne':
            return NotImplemented if not _foreign(b) else True
        return NotImplemented
    ka, ea, na = la
    kb, eb, nb = lb
    if ka != kb:
        ea, eb = to_real(ka, ea), to_real(kb, eb)
    r = _CMP[op](ea, eb)
    return SymBool(r, na or nb)


def _foreign(x):
    return x is None or isinstance(x, (str, bytes, tuple, list, dict))


class SymNum(Sym):
    __slots__ = ()
    __array_priority__ = 2000
    shape = ()
    ndim = 0
    size = 1

    def __add__(self, o):
        return _binop('add', self, o)

    def __radd__(self, o):
        return _binop('add', o, self)

    def __sub__(self, o):
        return _binop('sub', self, o)

    def __rsub__(self, o):
        return _binop('sub', o, self)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return _binop('mul', self, o)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return _binop('mul', o, self)

    def __truediv__(self, o):
        return _binop('div', self, o)

    def __rtruediv__(self, o):
        return _binop('div', o, self)

    def __lt__(self, o):
        return _cmp('lt', self, o)

    def __le__(self, o):
        return _cmp('le', self, o)

    def __gt__(self, o):
        return _cmp('gt', self, o)

    def __ge__(self, o):
        return _cmp('ge', self, o)

    def __eq__(self, o):
        return _cmp('eq', self, o)

    def __ne__(self, o):
        return _cmp('ne', self, o)

    def __hash__(self):
        return 7  # equality decides (and forks)

    def __bool__(self):
        return EX.fork(self.e != 0)

    def __pos__(self):
        return self

    def __pow__(self, o):
        return sym_pow(self, o)

    def __rpow__(self, o):
        return sym_pow(o, self)

    def __floordiv__(self, o):
        return sym_floordiv(self, o)

    def __rfloordiv__(self, o):
        return sym_floordiv(o, self)

    def __mod__(self, o):
        return sym_mod(self, o)

    def __rmod__(self, o):
        return sym_mod(o, self)

    def __divmod__(self, o):
        return sym_floordiv(self, o), sym_mod(self, o)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return EX.ufunc(ufunc, method, inputs, kwargs)

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __repr__(self):
        return f"<{type(self).__name__} {str(self.e)[:80]}>"

    def astype(self, dt, copy=True):
        return EX.cast(self, np.dtype(dt))

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    # object-dtype ufunc loops call these methods
    def sqrt(self):
        return sym_sqrt(self)

    def exp(self):
        return sym_exp(self)

    def log(self):
        return sym_log(self)

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    def copy(self):
        return self

    def any(self, *a, **k):
        return self != 0

    all = any

    def ravel(self):
        return EX.asarray1(self)

    def item(self):
        return type(self)(self.e)

    def isnan(self):
        return False


class SymReal(SymNum):
    __slots__ = ()
    dtype = np.dtype('float64')

    def __init__(self, e, np_=False):
        self.e = e
        self.np_ = np_

    @property
    def __class__(self):
        return float

    def __neg__(self):
        return SymReal(-self.e, self.np_)

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e), self.np_)

    def __float__(self):
        c = const_of(z3.simplify(self.e))
        if c is not None:
            return float(c)
        raise Unsupported('float() of a symbolic real in library code')

    def __int__(self):
        return self.__trunc__().__index__()

    def __trunc__(self):
        return SymInt(trunc_expr(self.e), False)

    def __floor__(self):
        return SymInt(z3.ToInt(self.e), False)

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.e), False)

    def __round__(self, nd=None):
        if nd is None:
            return SymInt(round_expr(self.e), False)
        s = 10 ** nd
        return SymReal(z3.ToReal(round_expr(self.e * rval(s))) / rval(s),
                       self.np_)

    def rint(self):
        return SymReal(z3.ToReal(round_expr(self.e)), self.np_)

    def is_integer(self):
        return SymBool(z3.IsInt(self.e))


class SymInt(SymNum):
    __slots__ = ()
    dtype = np.dtype('int64')

    def __init__(self, e, np_=False):
        self.e = e
        self.np_ = np_

    @property
    def __class__(self):
        return int

    def __neg__(self):
        return SymInt(-self.e, self.np_)

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e), self.np_)

    def __index__(self):
        return EX.concretise(self.e)

    def __int__(self):
        return EX.concretise(self.e)

    def __float__(self):
        return float(EX.concretise(self.e))

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, nd=None):
        return self

    def rint(self):
        return SymReal(z3.ToReal(self.e), self.np_)

    def __format__(self, spec):
        from . import text
        if spec in ('', 'd'):
            return text.token(self)
        if spec[:1] == '0' and spec.rstrip('d').isdecimal():
            return text.token(self, int(spec.rstrip('d')))
        return "<sym>"

    def __str__(self):
        return self.__format__('')

    def __invert__(self):
        return SymInt(-self.e - 1, self.np_)

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return SymInt(self.e % (o + 1), self.np_)
        return _bitop(operator.and_, self, o)

    def __rand__(self, o):
        return self.__and__(o)

    def __or__(self, o):
        return _bitop(operator.or_, self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return _bitop(operator.xor, self, o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        if type(o) is int:
            return self * (1 << o)
        raise Unsupported('shift')

    def __rshift__(self, o):
        if type(o) is int:
            return self // (1 << o)
        raise Unsupported('shift')

    def bit_length(self):
        return self.__index__().bit_length()

    def to_bytes(self, *a, **k):
        raise Unsupported('to_bytes')


def _bitop(op, a, b):
    x = int(a) if type(a) in SYM else int(a)
    y = int(b) if type(b) in SYM else int(b)
    return op(x, y)


def trunc_expr(e):
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def round_expr(e):
    h = e + rval(Fraction(1, 2))
    r = z3.ToInt(h)
    return z3.If(z3.And(z3.ToReal(r) == h, r % 2 == 1), r - 1, r)


def sym_floordiv(a, b):
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return NotImplemented
    ka, ea, na = la
    kb, eb, nb = lb
    np_ = na or nb
    if EX.fork(eb == 0):
        if EX.numba_depth or not np_:
            raise ZeroDivisionError
        if ka == kb == 'i':
            return np.int64(0)
        return np.float64(np.nan)
    if ka == 'i' and kb == 'i':
        c = const_of(eb)
        if c is None:
            pos = EX.fork(eb > 0)
        else:
            pos = c > 0
        e = (ea / eb) if pos else ((-ea) / (-eb))
        return SymInt(e, np_)
    q = to_real(ka, ea) / to_real(kb, eb)
    return SymReal(z3.ToReal(z3.ToInt(q)), np_)


def sym_mod(a, b):
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return NotImplemented
    q = sym_floordiv(a, b)
    if type(q) not in SYM:
        return q
    if type(q) is SymInt and const_of(lb[1]) is not None and \
            const_of(lb[1]) > 0:
        return SymInt(la[1] % lb[1], q.np_)
    return a - q * b


def sym_pow(a, b):
    if type(b) not in SYM:
        if isinstance(b, (float, np.floating)) and float(b).is_integer():
            bi = int(b)
        elif isinstance(b, (int, np.integer)):
            bi = int(b)
        elif isinstance(b, (float, np.floating)) and float(b) == 0.5:
            return sym_sqrt(a)
        elif isinstance(b, (float, np.floating)) and float(b) == -0.5:
            return 1 / sym_sqrt(a)
        else:
            if isinstance(b, (float, np.floating)):
                return sym_exp(sym_log(a) * b)
            return NotImplemented
        if bi == 0:
            return SymReal(rval(1), a.np_) if type(a) is SymReal else 1
        r = None
        base = a
        n = abs(bi)
        if n > 64:
            raise Unsupported('power')
        for _ in range(n):
            r = base if r is None else r * base
        if bi < 0:
            if type(a) is SymInt and isinstance(b, int) and a.np_:
                raise ValueError(
                    "Integers to negative integer powers are not allowed.")
            r = 1 / r
        elif isinstance(b, (float, np.floating)) and type(r) is SymInt:
            r = SymReal(z3.ToReal(r.e), r.np_)
        return r
    if type(b) is SymInt:
        return sym_pow(a, int(b)) if type(a) in SYM else a ** int(b)
    # symbolic real exponent
    return sym_exp(sym_log(a) * b)


def as_sym_real(x):
    l = lift(x)
    return SymReal(to_real(l[0], l[1]), l[2])


def sym_sqrt(x):
    if type(x) not in SYM:
        return math.sqrt(x)
    x = as_sym_real(x)
    c = const_of(x.e)
    if c is None:
        c = const_of(z3.simplify(x.e, som=True))
    if c is not None and c >= 0:
        v = math.sqrt(c)
        return SymReal(rval(v), x.np_)
    # sqrt(y*y) -> |y|
    xe = x.e
    if z3.is_mul(xe) and xe.num_args() == 2 and xe.arg(0).eq(xe.arg(1)):
        return abs(SymReal(xe.arg(0), x.np_))
    if EX.fork(x.e < 0):
        if EX.numba_depth or x.np_:
            return np.float64(np.nan)
        raise ValueError('math domain error')
    s = F_SQRT(x.e)
    EX.axiom(z3.And(s >= 0, s * s == x.e), uf=True)
    return SymReal(s, x.np_)


def _flat_sum(e, coef, out):
    """linear decomposition of a z3 real term: list of (coef, term|None)"""
    if z3.is_add(e):
        for c in e.children():
            _flat_sum(c, coef, out)
        return
    if z3.is_sub(e):
        ch = e.children()
        _flat_sum(ch[0], coef, out)
        for c in ch[1:]:
            _flat_sum(c, -coef, out)
        return
    if e.decl().kind() == z3.Z3_OP_UMINUS:
        _flat_sum(e.arg(0), -coef, out)
        return
    c = const_of(e)
    if c is not None:
        out.append((coef * c, None))
        return
    if z3.is_mul(e):
        k = Fraction(1)
        rest = []
        for a in e.children():
            c = const_of(a)
            if c is not None:
                k *= c
            else:
                rest.append(a)
        if len(rest) == 1:
            _flat_sum(rest[0], coef * k, out)
            return
        if k != 1 and rest:
            t = rest[0]
            for r in rest[1:]:
                t = t * r
            out.append((coef * k, t))
            return
    if z3.is_div(e):
        c = const_of(e.arg(1))
        if c is not None and c != 0:
            _flat_sum(e.arg(0), coef / c, out)
            return
    out.append((coef, e))


def _digits(c):
    """c to 12 significant digits"""
    return Fraction('%.12g' % float(c))


def canonical(e):
    """a sum of monomials with coefficients of 12 digits: the same for the
    different ways in which code may write (and round) a polynomial"""
    e = z3.simplify(e, som=True)
    terms = []
    _flat_sum(e, Fraction(1), terms)
    out = []
    for c, t in terms:
        c = _digits(c)
        out.append(rval(c) if t is None else t if c == 1 else rval(c) * t)
    r = out[0]
    for t in out[1:]:
        r = r + t
    return z3.simplify(r, som=True, sort_sums=True)


def sym_exp(x):
    if type(x) not in SYM:
        return math.exp(x)
    x = as_sym_real(x)
    terms = []
    _flat_sum(x.e, Fraction(1), terms)
    factor = None
    acc = {}
    konst = Fraction(0)
    powers = []
    for c, t in terms:
        if t is None:
            konst += c
        elif z3.is_app(t) and t.decl().eq(F_LOG) and c.denominator == 1 \
                and abs(c) <= 64:
            powers.append((int(c), t.arg(0)))
        else:
            k = t.get_id()
            if k in acc:
                acc[k] = (acc[k][0] + c, t)
            else:
                acc[k] = (c, t)
    res = SymReal(rval(1), x.np_)
    merged = {}
    for c, b in powers:
        k = b.get_id()
        merged[k] = (merged.get(k, (0, b))[0] + c, b)
    for c, b in merged.values():
        if c == 0:
            continue
        res = res * sym_pow(SymReal(b, x.np_), c) if c > 0 else \
            res / sym_pow(SymReal(b, x.np_), -c)
    rest = None
    for c, t in acc.values():
        if c == 0:
            continue
        term = t if c == 1 else rval(c) * t
        rest = term if rest is None else rest + term
    if rest is None:
        if konst != 0:
            res = res * math.exp(konst)
        return res
    if konst != 0:
        if abs(konst) < 500:
            res = res * math.exp(konst)
        else:
            rest = rest + rval(konst)
    rest = canonical(rest)
    c = const_of(rest)
    if c is not None:
        # the symbols cancel
        return res * (math.exp(c) if c > -700 else 0)
    v = F_EXP(rest)
    EX.axiom(v > 0, uf=True)
    EX.axiom((rest == 0) == (v == 1), uf=True)
    EX.axiom((rest < 0) == (v < 1), uf=True)
    EX.axiom(v >= 1 + rest, uf=True)
    r = SymReal(v, x.np_)
    return r if const_of(res.e) == 1 else res * r


def sym_log(x):
    if type(x) not in SYM:
        return math.log(x)
    x = as_sym_real(x)
    c = const_of(x.e)
    if c is not None and c == 1:
        return SymReal(rval(0), x.np_)
    if positive(x.e):
        return _log_product(x)
    if EX.fork(x.e <= 0):
        if EX.numba_depth or not x.np_:
            raise ValueError('math domain error')
        return np.float64(np.nan if x < 0 else -np.inf)
    EX.uf_used = True
    v = F_LOG(x.e)
    EX.axiom((x.e == 1) == (v == 0), uf=True)
    return SymReal(v, x.np_)


def positive(e):
    """e > 0 by its form: sums, products, quotients of constants and exp"""
    c = const_of(e)
    if c is not None:
        return c > 0
    if z3.is_app(e) and e.num_args() and \
            (z3.is_add(e) or z3.is_mul(e) or z3.is_div(e)):
        return all(positive(a) for a in e.children())
    return z3.is_app(e) and e.decl().eq(F_EXP)


def _factors(e, power, out):
    """the factors of a product with their exponents; sums scaled to a
    leading coefficient of 1"""
    c = const_of(e)
    if c is not None:
        out[0] *= Fraction(c)**power
    elif z3.is_mul(e):
        for a in e.children():
            _factors(a, power, out)
    elif z3.is_div(e):
        _factors(e.arg(0), power, out)
        _factors(e.arg(1), -power, out)
    elif z3.is_add(e):
        terms = []
        _flat_sum(z3.simplify(e, som=True, sort_sums=True), Fraction(1),
                  terms)
        lead = terms[0][0]
        out[0] *= lead**power
        r = None
        for c, t in terms:
            c = rval(_digits(c / lead))
            t = c if t is None else c * t
            r = t if r is None else r + t
        r = z3.simplify(r, som=True, sort_sums=True)
        if z3.is_add(r):
            out.append((r, power))
        else:
            _factors(r, power, out)
    else:
        out.append((e, power))


def _log_product(x):
    """the logarithm of a product of positive factors"""
    out = [Fraction(1)]
    _factors(x.e, 1, out)
    r = SymReal(rval(math.log(out[0])), x.np_)
    n = {}
    for e, power in out[1:]:
        n[e.get_id()] = (e, n.get(e.get_id(), (e, 0))[1] + power)
    for e, power in n.values():
        if power == 0:
            continue
        if z3.is_app(e) and e.decl().eq(F_EXP):
            r = r + power * SymReal(e.arg(0), x.np_)
        else:
            EX.uf_used = True
            r = r + power * SymReal(F_LOG(e), x.np_)
    return r


def sym_lgamma(x):
    if type(x) not in SYM:
        # log((n-1)!) kept as LOG of an exact integer
        if float(x).is_integer() and 1 <= x <= 40:
            n = math.factorial(int(x) - 1)
            if n == 1:
                return 0.0
            v = F_LOG(rval(n))
            l = math.log(n)
            EX.axiom(z3.And(v >= rval(l * (1 - 1e-12)),
                            v <= rval(l * (1 + 1e-12))), uf=True)
            return SymReal(v, False)
        return math.lgamma(x)
    if type(x) is SymInt:
        return sym_lgamma(int(x))
    x2 = z3.simplify(x.e)
    c = const_of(x2)
    if c is not None:
        return sym_lgamma(float(c))
    EX.uf_used = True
    return SymReal(F_LGAMMA(x.e), x.np_)


def uf_call(name, fn, *args):
    es = []
    np_ = False
    if not any(type(a) in SYM for a in args):
        return fn(*args)
    for a in args:
        l = lift(a)
        es.append(to_real(l[0], l[1]))
        np_ = np_ or l[2]
    EX.uf_used = True
    return SymReal(gen_uf(name, fn, len(args))(*es), np_)


def ite(c, a, b):
    """c: SymBool or bool; a, b scalars"""
    if type(c) is not SymBool:
        return a if c else b
    if _special(a) or _special(b) or type(a) is SymF64 or type(b) is SymF64:
        return a if c else b
    if type(a) in (SymBool, bool, np.bool_) and \
            type(b) in (SymBool, bool, np.bool_):
        ea = a.e if type(a) is SymBool else z3.BoolVal(bool(a))
        eb = b.e if type(b) is SymBool else z3.BoolVal(bool(b))
        return SymBool(z3.If(c.e, ea, eb), True)
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return a if c else b
    np_ = la[2] or lb[2]
    if la[0] == 'i' and lb[0] == 'i':
        if la[1].eq(lb[1]):
            return SymInt(la[1], np_)
        return SymInt(z3.If(c.e, la[1], lb[1]), np_)
    x, y = to_real(*la[:2]), to_real(*lb[:2])
    if x.eq(y):
        return SymReal(x, np_)
    return SymReal(z3.If(c.e, x, y), np_)


def sym_max(a, b):
    """numpy semantics: nan wins"""
    if _special(a):
        if math.isnan(a):
            return a
        return a if a > 0 else b
    if _special(b):
        if math.isnan(b):
            return b
        return b if b > 0 else a
    if type(a) not in SYM and type(b) not in SYM:
        return a if a >= b else b
    return ite(a >= b, a, b)


def sym_min(a, b):
    if _special(a):
        if math.isnan(a):
            return a
        return a if a < 0 else b
    if _special(b):
        if math.isnan(b):
            return b
        return b if b < 0 else a
    if type(a) not in SYM and type(b) not in SYM:
        return a if a <= b else b
    return ite(a <= b, a, b)


# ---------------------------------------------------------------------------
# float64 with exact rounding (only integers-times-constants; timestamps)

def _valuation(f):
    """largest g such that the fraction is a multiple of 2**g"""
    if f == 0:
        return 1000
    g = 0
    n, d = f.numerator, f.denominator
    while n % 2 == 0:
        n //= 2
        g += 1
    while d % 2 == 0:
        d //= 2
        g -= 1
    return g


class SymF64(Sym):
    """A float64 whose value is the z3 Real term e (already rounded); g is an
    exponent such that the value is always a multiple of 2**g (or None)."""
    __slots__ = ('g',)
    __array_priority__ = 2000
    dtype = np.dtype('float64')
    shape = ()
    ndim = 0

    def __init__(self, e, np_=False, g=None):
        self.e = e
        self.np_ = np_
        self.g = g

    @property
    def __class__(self):
        return float

    @staticmethod
    def of(x):
        """round a number to float64"""
        if type(x) is SymF64:
            return x
        l = lift(x)
        if l is None:
            raise Unsupported('SymF64 of ' + str(type(x)))
        if type(x) is float or isinstance(x, np.floating):
            # exact binary value
            f = Fraction(float(x))
            return SymF64(z3.RealVal(f"{f.numerator}/{f.denominator}"), l[2],
                          _valuation(f))
        if type(x) is int or isinstance(x, np.integer):
            g = _valuation(Fraction(int(x)))
        else:
            g = 0 if l[0] == 'i' else None
        return SymF64.round(to_real(l[0], l[1]), l[2], g)

    @staticmethod
    def round(v, np_, g=None):
        """round the exact real term v to nearest-even float64"""
        v = z3.simplify(v)
        if g is not None:
            lim = rval(Fraction(2) ** (g + 53))
            if EX.fork(z3.And(v < lim, -v < lim)):
                return SymF64(v, np_, g)
        if EX.fork(v == 0):
            return SymF64(z3.RealVal(0), np_, 1000)
        neg = EX.fork(v < 0)
        a = -v if neg else v
        # 2**k <= a < 2**(k+1); found by bisection, forking
        lo, hi = -64, 80
        if not EX.fork(z3.And(a >= rval(Fraction(2) ** lo),
                              a < rval(Fraction(2) ** hi))):
            raise Unsupported('float64 exponent range')
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if EX.fork(a >= rval(Fraction(2) ** mid)):
                lo = mid
            else:
                hi = mid
        ulp = Fraction(2) ** (lo - 52)
        m = round_expr(a * rval(1 / ulp))
        r = z3.ToReal(m) * rval(ulp)
        return SymF64(-r if neg else r, np_, lo - 52)

    def _op(self, o, f, swap=False):
        if _special(o):
            raise Unsupported('inf')
        b = SymF64.of(o)
        x, y = (b, self) if swap else (self, b)
        g = None
        if x.g is not None and y.g is not None:
            if f is operator.mul:
                g = x.g + y.g
            elif f in (operator.add, operator.sub):
                g = min(x.g, y.g)
        return SymF64.round(f(x.e, y.e), self.np_ or b.np_, g)

    def __add__(self, o):
        return self._op(o, operator.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, operator.sub)

    def __rsub__(self, o):
        return self._op(o, operator.sub, True)

    def __mul__(self, o):
        return self._op(o, operator.mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._op(o, operator.truediv)

    def __rtruediv__(self, o):
        return self._op(o, operator.truediv, True)

    def __neg__(self):
        return SymF64(-self.e, self.np_, self.g)

    def __trunc__(self):
        return SymInt(trunc_expr(self.e))

    def __int__(self):
        raise Unsupported('int of SymF64')

    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported('round')
        return SymInt(round_expr(self.e))

    def __floor__(self):
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.e))

    def __eq__(self, o):
        b = SymF64.of(o)
        return SymBool(self.e == b.e)

    def __lt__(self, o):
        return SymBool(self.e < SymF64.of(o).e)

    def __gt__(self, o):
        return SymBool(self.e > SymF64.of(o).e)

    def __le__(self, o):
        return SymBool(self.e <= SymF64.of(o).e)

    def __ge__(self, o):
        return SymBool(self.e >= SymF64.of(o).e)

    def astype(self, dt, copy=True):
        return EX.cast(self, np.dtype(dt))

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return EX.ufunc(ufunc, method, inputs, kwargs)


class SymIntF(SymInt):
    """An integer whose arithmetic with floats is rounded like float64."""
    __slots__ = ()

    def _f(self, o):
        return type(o) is SymF64 or (type(o) not in SYM and
                                     isinstance(o, (float, np.floating)))

    def _w(self, r):
        return SymIntF(r.e, r.np_) if type(r) is SymInt else r

    def __add__(self, o):
        return SymF64.of(self) + o if self._f(o) else \
            self._w(_binop('add', SymInt(self.e, self.np_), o))

    def __radd__(self, o):
        return SymF64.of(self) + o if self._f(o) else \
            self._w(_binop('add', o, SymInt(self.e, self.np_)))

    def __sub__(self, o):
        return SymF64.of(self) - o if self._f(o) else \
            self._w(_binop('sub', SymInt(self.e, self.np_), o))

    def __rsub__(self, o):
        return SymF64.of(o) - self if self._f(o) else \
            self._w(_binop('sub', o, SymInt(self.e, self.np_)))

    def __mul__(self, o):
        return SymF64.of(self) * o if self._f(o) else \
            self._w(_binop('mul', SymInt(self.e, self.np_), o))

    def __rmul__(self, o):
        return SymF64.of(self) * o if self._f(o) else \
            self._w(_binop('mul', o, SymInt(self.e, self.np_)))

    def __truediv__(self, o):
        return SymF64.of(self) / o

    def __rtruediv__(self, o):
        return SymF64.of(o) / self


SYM = {SymReal, SymInt, SymBool, SymF64, SymIntF}


def is_sym(x):
    return type(x) in SYM


_lift0 = lift


def lift(o):  # noqa: F811  (SymIntF is an int to everything else)
    if type(o) is SymIntF:
        return 'i', o.e, o.np_
    return _lift0(o)


def truth(x):
    """z3 term of a condition"""
    if type(x) is SymBool:
        return x.e
    if type(x) in SYM:
        return x.e != 0
    return z3.BoolVal(bool(x))


# ---------------------------------------------------------------------------
# numeric evaluation of terms (with the transcendental functions interpreted)

def numeval(e, env, memo=None):
    """Evaluate a z3 term in floats/ints/Fractions; env: name -> value."""
    if memo is None:
        memo = {}
    k = e.get_id()
    if k in memo:
        return memo[k]
    r = _numeval(e, env, memo)
    memo[k] = r
    return r


def _numeval(e, env, memo):
    c = const_of(e)
    if c is not None:
        return c
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_algebraic_value(e):
        a = e.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    d = e.decl()
    kind = d.kind()
    n = e.num_args()
    if kind == z3.Z3_OP_UNINTERPRETED:
        if n == 0:
            return env[d.name()]
        f = UF[d.name()]
        args = [float(numeval(a, env, memo)) for a in e.children()]
        return f(*args)
    if kind == z3.Z3_OP_ITE:
        return numeval(e.arg(1) if numeval(e.arg(0), env, memo) else e.arg(2),
                       env, memo)
    if kind == z3.Z3_OP_AND:
        return all(numeval(a, env, memo) for a in e.children())
    if kind == z3.Z3_OP_OR:
        return any(numeval(a, env, memo) for a in e.children())
    a = [numeval(x, env, memo) for x in e.children()]
    if kind == z3.Z3_OP_ADD:
        return sum(a[1:], a[0])
    if kind == z3.Z3_OP_SUB:
        r = a[0]
        for x in a[1:]:
            r = r - x
        return r
    if kind == z3.Z3_OP_UMINUS:
        return -a[0]
    if kind == z3.Z3_OP_MUL:
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r
    if kind == z3.Z3_OP_DIV:
        if isinstance(a[0], float) or isinstance(a[1], float):
            return float(a[0]) / float(a[1])
        return Fraction(a[0]) / Fraction(a[1])
    if kind == z3.Z3_OP_IDIV:
        q = a[0] // abs(a[1])
        return q if a[1] > 0 else -q
    if kind == z3.Z3_OP_MOD:
        return a[0] % abs(a[1])
    if kind == z3.Z3_OP_TO_REAL:
        return a[0]
    if kind == z3.Z3_OP_TO_INT:
        return math.floor(a[0])
    if kind == z3.Z3_OP_IS_INT:
        return a[0] == math.floor(a[0])
    if kind == z3.Z3_OP_EQ:
        return a[0] == a[1]
    if kind == z3.Z3_OP_DISTINCT:
        return a[0] != a[1]
    if kind == z3.Z3_OP_LE:
        return a[0] <= a[1]
    if kind == z3.Z3_OP_LT:
        return a[0] < a[1]
    if kind == z3.Z3_OP_GE:
        return a[0] >= a[1]
    if kind == z3.Z3_OP_GT:
        return a[0] > a[1]
    if kind == z3.Z3_OP_NOT:
        return not a[0]
    if kind == z3.Z3_OP_XOR:
        return bool(a[0]) != bool(a[1])
    if kind == z3.Z3_OP_IMPLIES:
        return (not a[0]) or a[1]
    raise Unsupported(f'numeval {d.name()}')


# ---------------------------------------------------------------------------

class AbsModel:
    """a model of the abstracted constraints"""

    def __init__(self, ex, m):
        self.ex, self.m = ex, m
        self.n = len(ex._abs)

    def eval(self, e, model_completion=False):
        f = self.ex._abstract(e)
        if z3.is_bool(e) and len(self.ex._abs) > self.n:
            return z3.BoolVal(False)     # new applications: not in the model
        return self.m.eval(f, model_completion)

    def __getitem__(self, k):
        return self.m[k]


class Explorer:
    """Executes one path (given by a decision prefix) and records the
    alternatives met beyond the prefix."""

    def __init__(self, prefix=(), timeout_ms=4000, deadline=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []
        self.alternatives = []
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.model = None
        self.n_queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.numba_depth = 0
        self.uf_used = False
        self.slow = 0
        self._seen = {}
        self._abs = []
        self._known = {}       # decided on this path (the terms kept alive)
        self._lin = {}
        self._lins = []
        self._divs = {}
        self._som = {}
        self._ints = False
        self.deadline = deadline
        self.inputs = {}       # name -> (kind, z3 const)
        self._axioms = set()
        self.n_forks = 0
        self.assertions = []
        self.ufunc = None
        self.cast = None
        self.asarray1 = None

    # -- solver -----------------------------------------------------------
    def _check(self, *assumptions):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded()
        self.n_queries += 1
        t = time.time()
        r = self.solver.check(*assumptions)
        self.solver_s += time.time() - t
        return r

    def add(self, e):
        self.solver.add(e)
        self.assertions.append(e)
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def axiom(self, e, uf=False):
        if uf:
            self.uf_used = True
        k = e.get_id()
        if k in self._axioms:
            return
        self._axioms.add(k)
        self.assertions.append(e)
        self.solver.add(e)
        self.model = None

    def _model(self):
        if self.model is None:
            r = z3.unknown
            r, self.model = self._ask()
            if r == z3.unsat:
                raise PathAbort('infeasible')
        return self.model

    def _ask(self, *a):
        """the incremental solver, nlsat, the incremental solver with more
        time"""
        short = self.slow >= 2 or self.uf_used
        if short:
            self.solver.set('timeout', min(500, self.timeout_ms))
        r = self._check(*a)
        if short:
            self.solver.set('timeout', self.timeout_ms)
        self.slow = self.slow + 1 if r == z3.unknown else max(
            0, self.slow - 1)
        m = self.solver.model() if r == z3.sat else None
        if r == z3.unknown:
            r, m = self.retry(*a)
        if r == z3.unknown and short:
            r = self._check(*a)
            m = self.solver.model() if r == z3.sat else None
        return r, m

    def feasible(self, e):
        """z3.sat / unsat / unknown of the path together with e"""
        if (self.slow or self.uf_used and self.model is None) and \
                self.relaxed(self.assertions + [e]):
            self.n_queries += 1
            return z3.unsat, None
        m = self._model()
        if m is not None:
            if z3.is_true(m.eval(e, model_completion=True)):
                return z3.sat, m
        r, m = self._ask(e)
        self.unknown += r == z3.unknown
        return r, m

    # -- applications of exp, log, .. as variables -------------------------
    def _apps(self, e):
        """register the applications of uninterpreted functions in e"""
        stack = [e]
        while stack:
            t = stack.pop()
            k = t.get_id()
            if k in self._seen:
                continue
            self._seen[k] = t
            stack += t.children()
            if z3.is_app(t) and t.num_args() and \
                    t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                self._abs.append((t, z3.FreshConst(t.sort(), 'u')))

    def _abstract(self, e):
        self._apps(e)
        return z3.substitute(e, *self._abs) if self._abs else e

    def retry(self, *es):
        """a second opinion for a query the incremental solver gives up on:
        applications become variables related pairwise (the functions are
        strictly increasing)"""
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded()
        self.n_queries += 1
        t = time.time()
        try:
            fs = list(self.assertions) + list(es)
            if es and self.relaxed(fs):
                self.solver_s += time.time() - t
                return z3.unsat, None
            for f in fs:
                self._apps(f)
            if self._abs:
                fs = [z3.substitute(f, *self._abs) for f in fs]
                by = {}
                for a, v in self._abs:
                    by.setdefault(a.decl().name(), []).append((a, v))
                for name, av in by.items():
                    for n, (a, v) in enumerate(av):
                        for b, w in av[:n]:
                            fs += self._related(name, a, v, b, w,
                                                len(av) <= 6)
            s = z3.Tactic('qfnra-nlsat').solver()
            s.set('timeout', self.timeout_ms)
            for f in fs:
                s.add(f)
            r = s.check()
            m = s.model() if r == z3.sat else None
            if m is not None and not all(
                    z3.is_true(m.eval(f, model_completion=True)) for f in fs):
                r, m = z3.unknown, None
            if m is not None and self._abs:
                m = AbsModel(self, m)
        except z3.Z3Exception:
            r, m = z3.unknown, None
        self.solver_s += time.time() - t
        return r, m

    # -- a linear relaxation ----------------------------------------------
    def _linear(self, e):
        """e with applications, products and quotients of variables as
        variables"""
        k = e.get_id()
        r = self._lin.get(k)
        if r is not None:
            return r[0]
        ch = e.children()
        if not ch:
            r = e
        elif z3.is_quantifier(e):
            raise Unsupported('quantifier')
        else:
            opaque = e.decl().kind() == z3.Z3_OP_UNINTERPRETED or \
                z3.is_mul(e) and sum(const_of(c) is None for c in ch) > 1 or \
                z3.is_div(e) and const_of(ch[1]) is None or \
                e.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD,
                                    z3.Z3_OP_POWER)
            if opaque:
                r = z3.FreshConst(e.sort(), 'l')
                if e.decl().name() == 'EXP':
                    self._lins.append(r > 0)
            else:
                r = e.decl()(*[self._linear(c) for c in ch])
        self._lin[k] = (r, e)
        return r

    def _nodiv(self, e):
        """quotients by positive terms as products with their inverse"""
        k = e.get_id()
        if k in self._divs:
            return self._divs[k][0]
        r = e
        ch = e.children()
        if ch and not z3.is_quantifier(e):
            ch = [self._nodiv(c) for c in ch]
            r = e.decl()(*ch)
            if z3.is_div(e) and const_of(e.arg(1)) is None and \
                    positive(e.arg(1)):
                out = [Fraction(1)]
                _factors(e.arg(1), 1, out)
                r = ch[0] * rval(1 / out[0])
                for f, power in out[1:]:
                    i = ('inv', f.get_id())
                    if i not in self._divs:
                        v = z3.FreshConst(f.sort(), 'inv')
                        self._lins.append(v > 0)
                        self._divs[i] = (v, f)
                    t = self._divs[i][0] if power > 0 else f
                    for _ in range(abs(power)):
                        r = r * t
        self._divs[k] = (r, e)
        return r

    def relaxed(self, fs):
        """no solution even if every nonlinear term is arbitrary"""
        gs = []
        for f in fs:
            k = f.get_id()
            if k not in self._som:
                g = z3.simplify(self._nodiv(f), som=True, sort_sums=True)
                self._som[k] = (self._linear(g), f, g)
            gs.append(self._som[k][0])
        # first with nothing but the signs, then with all that is known
        for part in ([gs[-1]], gs):
            s = z3.Solver() if self._ints else z3.SolverFor('QF_LRA')
            s.set('timeout', min(1000, self.timeout_ms))
            for f in part + self._lins:
                s.add(f)
            if s.check() == z3.unsat:
                return True
        return False

    def _related(self, name, a, v, b, w, order):
        x = [z3.substitute(c, *self._abs) for c in a.children()]
        y = [z3.substitute(c, *self._abs) for c in b.children()]
        same = z3.simplify(z3.And([p == q for p, q in zip(x, y)]))
        out = []
        if not z3.is_false(same):
            out.append(z3.Implies(same, v == w))
        if order and name in ('EXP', 'LOG', 'SQRT'):
            out.append((x[0] < y[0]) == (v < w))
        return out

    def fork(self, e):
        if isinstance(e, bool):
            return e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        known = self._known.get(e.get_id())
        if known is not None:
            return known[0]
        r = self._fork(e)
        self._known[e.get_id()] = (r, e)
        return r

    def _fork(self, e):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            if d in ('T', 't'):
                if d == 'T':
                    self.add(e)
                return True
            if d == 'F':
                self.add(z3.Not(e))
            return False
        e2 = z3.simplify(e)
        if z3.is_true(e2):
            self.decisions.append('t')
            self.pos += 1
            return True
        if z3.is_false(e2):
            self.decisions.append('f')
            self.pos += 1
            return False
        self.pos += 1
        self.n_forks += 1
        ne = z3.Not(e)
        rt, mt = self.feasible(e)
        rf, mf = self.feasible(ne)
        if rt == z3.unsat and rf == z3.unsat:
            raise PathAbort('infeasible')
        if rt == z3.unsat:
            self.decisions.append('f')   # forced
            return False
        if rf == z3.unsat:
            self.decisions.append('t')
            return True
        self.alternatives.append(tuple(self.decisions) + ('F',))
        self.decisions.append('T')
        self.solver.add(e)
        self.assertions.append(e)
        self.model = mt
        return True

    def choose(self, n):
        """A free choice among n alternatives, all of them explored."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            return d
        self.pos += 1
        for k in range(1, n):
            self.alternatives.append(tuple(self.decisions) + (k,))
        self.decisions.append(0)
        return 0

    def select(self, conds):
        """Exactly one of conds holds; fork to each feasible one."""
        for i, c in enumerate(conds):
            if i == len(conds) - 1:
                if not self.fork(c):
                    raise PathAbort('no alternative')
                return i
            if self.fork(c):
                return i

    def concretise(self, e, limit=400):
        c = const_of(e)
        if c is None:
            c = const_of(z3.simplify(e))
        if c is not None:
            return int(c)
        n = 0
        while True:
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append(d)
                if d[0] == 'eq':
                    self.add(e == d[1])
                    return d[1]
                if d[0] == 'is':
                    return d[1]
                self.add(e != d[1])
                n += 1
                if n > limit:
                    raise Unsupported('too many values to concretise')
                continue
            m = self._model()
            if m is None:
                raise Unsupported('unknown while concretising')
            v = m.eval(e, model_completion=True)
            v = const_of(z3.simplify(v))
            if v is None:       # e.g. the floor of an algebraic number
                k = z3.FreshInt('k')
                if self._check(k == e) != z3.sat:
                    raise Unsupported('unknown while concretising')
                v = const_of(self.solver.model().eval(k, True))
                if v is None:
                    raise Unsupported('unknown while concretising')
            v = int(v)
            self.pos += 1
            self.n_forks += 1
            r, m2 = self.feasible(e != v)
            if r == z3.unsat:
                self.decisions.append(('is', v))
                return v
            self.alternatives.append(tuple(self.decisions) + (('ne', v),))
            self.decisions.append(('eq', v))
            self.add(e == v)
            return v

    def assume(self, e):
        e = truth(e)
        self.solver.add(e)
        self.assertions.append(e)
        m = self.model
        self.model = None
        if m is not None and z3.is_true(m.eval(e, model_completion=True)):
            self.model = m
        elif self.pos >= len(self.prefix):
            r = self._check()
            if r == z3.unsat:
                raise PathAbort('assumption')
            if r == z3.sat:
                self.model = self.solver.model()

    # -- inputs -----------------------------------------------------------
    def declare(self, kind, name):
        assert name not in self.inputs, name
        c = {'r': z3.Real, 'i': z3.Int, 'b': z3.Bool}[kind](name)
        self._ints = self._ints or kind == 'i'
        self.inputs[name] = (kind, c)
        return c

    def env_of(self, model):
        env = {}
        for name, (kind, c) in self.inputs.items():
            v = model.eval(c, model_completion=True)
            if kind == 'b':
                env[name] = z3.is_true(v)
            elif kind == 'i':
                env[name] = int(v.as_long())
            else:
                env[name] = numeval(v, {})
        return env

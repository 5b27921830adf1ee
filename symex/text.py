"""Decimal numbers with a symbolic value inside of text.

In the text such a number is a token: twelve decimal digits that stand for
the symbol.  Libraries that only look for digits (regular expressions) treat
it as any number; int() of it is the symbol, and texts with tokens compare
character by character, with the digits of the symbol."""
import re as _re
import types

from . import core
from .core import SymBool, SymInt, Unsupported, z3

TOKENS = {}      # text of the token -> (expression, width or None)
_BY = {}         # (id of the expression, width) -> text
TOKEN = _re.compile(r'(?<!\d)97\d{10}(?!\d)')


def fresh():
    TOKENS.clear()
    _BY.clear()


def token(v, width=None):
    """the decimal digits of v >= 0: width of them (None: as many as needed)"""
    e = v.e
    k = (e.get_id(), width)
    if k not in _BY:
        t = f'97{len(TOKENS):010d}'
        TOKENS[t] = (e, width)
        _BY[k] = t
    return _BY[k]


def number(text):
    """the symbol of a token (None: not a token)"""
    t = TOKENS.get(str.__str__(text).strip()) if isinstance(text, str) \
        else None
    return None if t is None else SymInt(t[0], False)


def has_token(text):
    return isinstance(text, str) and bool(TOKENS) and \
        any(m.group() in TOKENS for m in TOKEN.finditer(text))


def wrap(x):
    if type(x) is str and has_token(x):
        return Text(x)
    if isinstance(x, list):
        return [wrap(i) for i in x]
    if isinstance(x, tuple):
        return tuple(wrap(i) for i in x)
    return x


def chars(text):
    """code points: ints, or expressions for the digits of symbols"""
    out = []
    p = 0
    text = str.__str__(text)
    for m in TOKEN.finditer(text):
        if m.group() not in TOKENS:
            continue
        out += [ord(c) for c in text[p:m.start()]]
        e, w = TOKENS[m.group()]
        if w is None:
            w = 1
            while not bool(SymBool(e < 10 ** w)):
                w += 1
        elif not bool(SymBool(e < 10 ** w)):
            raise Unsupported('number wider than its field')
        out += [48 + (e / 10 ** (w - 1 - i)) % 10 for i in range(w)]
        p = m.end()
    out += [ord(c) for c in text[p:]]
    return out


def _lt(a, b, strict):
    r = z3.BoolVal(len(a) < len(b) or (not strict and len(a) == len(b)))
    for x, y in reversed(list(zip(a, b))):
        if isinstance(x, int) and isinstance(y, int):
            r = r if x == y else z3.BoolVal(x < y)
        else:
            r = z3.If(x == y, r, x < y)
    return bool(SymBool(r))


class Text(str):
    """text with tokens in it"""

    def _cmp(op):
        def f(self, o):
            if not isinstance(o, str):
                return NotImplemented
            if op in ('eq', 'ne'):
                if str.__eq__(self, o):
                    return op == 'eq'
                a, b = chars(self), chars(o)
                if len(a) != len(b):
                    return op == 'ne'
                r = bool(SymBool(z3.And([
                    z3.BoolVal(x == y) if isinstance(x, int) and
                    isinstance(y, int) else x == y for x, y in zip(a, b)])))
                return r == (op == 'eq')
            a, b = chars(self), chars(o)
            if op in ('lt', 'le'):
                return _lt(a, b, op == 'lt')
            return _lt(b, a, op == 'gt')
        return f

    __eq__, __ne__, __lt__, __le__, __gt__, __ge__ = (
        _cmp('eq'), _cmp('ne'), _cmp('lt'), _cmp('le'), _cmp('gt'),
        _cmp('ge'))

    def __hash__(self):
        return str.__hash__(self)

    def __int__(self):
        v = number(self)
        return v if v is not None else int(str.__str__(self))

    def __getitem__(self, i):
        r = str.__getitem__(self, i)
        n = len(self)
        lo, hi = (i.indices(n)[:2] if isinstance(i, slice) else
                  (i % n, i % n + 1))
        for m in TOKEN.finditer(str.__str__(self)):
            if m.group() in TOKENS and (m.start() < lo < m.end() or
                                        m.start() < hi < m.end()):
                raise Unsupported('part of a symbolic number')
        return wrap(r)

    def __len__(self):
        return str.__len__(self)

    def __format__(self, spec):
        return wrap(str.__format__(self, spec))

    def __str__(self):
        return self


def _method(n):
    f = getattr(str, n)

    def g(self, *a, **k):
        return wrap(f(self, *a, **k))
    return g


for _n in ('__add__', 'split', 'rsplit', 'replace', 'strip', 'lstrip',
           'rstrip', 'lower', 'upper', 'partition', 'rpartition', 'join',
           'casefold', 'splitlines', 'removeprefix', 'removesuffix',
           'title', 'capitalize', 'format'):
    setattr(Text, _n, _method(_n))
Text.__radd__ = lambda self, o: wrap(str.__add__(o, self))


class Match:
    def __init__(self, m):
        self._m = m

    def group(self, *a):
        return wrap(self._m.group(*a))

    def groups(self, *a):
        return wrap(self._m.groups(*a))

    def groupdict(self, *a):
        return {k: wrap(v) for k, v in self._m.groupdict(*a).items()}

    def __getitem__(self, i):
        return wrap(self._m[i])

    def __getattr__(self, n):
        return getattr(self._m, n)


def _res(r):
    return Match(r) if isinstance(r, _re.Match) else wrap(r)


class Pattern:
    def __init__(self, p):
        self._p = p

    def finditer(self, *a, **k):
        return (Match(m) for m in self._p.finditer(*a, **k))

    def __getattr__(self, n):
        v = getattr(self._p, n)
        if callable(v):
            return lambda *a, **k: _res(v(*a, **k))
        return v


def shim():
    m = types.ModuleType('re')
    m.__dict__.update({k: v for k, v in _re.__dict__.items()
                       if not k.startswith('__')})

    def compiled(p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(_re.compile(p, flags))

    def fn(name):
        def f(p, *a, **k):
            flags = k.pop('flags', 0)
            return getattr(compiled(p, flags), name)(*a, **k)
        return f
    for n in ('search', 'match', 'fullmatch', 'split', 'findall', 'finditer',
              'sub', 'subn'):
        m.__dict__[n] = fn(n)
    m.compile = compiled
    return m

"""The reader of a file follows from its first bytes."""
import builtins
import gzip
import os
import pathlib
import struct
import types
import warnings

from astropy.io import fits

BOUNDS = ('the first 4 bytes of the file arbitrary, 5 further arbitrary bytes '
          'at one of the listed places in the first 1024 or behind them, '
          'plain or compressed with gzip; any answer of the FITS header '
          '(versions 0-10); '
          'every value of max_events within -5..1000, or none')
ASSUMPTIONS = ['a file that is not compressed does not start with the gzip '
               'magic number', 'no file is both in simtel and FITS format']
MAGIC = [3558836791, 931798996]


class Bytes:
    """bytes with symbols in them"""

    def __init__(self, ctx, v):
        self.ctx, self.v = ctx, list(v)

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Bytes(self.ctx, self.v[i])
        return self.v[i]

    def __iter__(self):
        return iter(self.v)

    def _same(self, lo, o):
        return self.ctx.all([a == b for a, b in zip(self.v[lo:], o)])

    def __eq__(self, o):
        return len(o) == len(self.v) and self._same(0, o)

    def __ne__(self, o):
        return self.ctx.neg(self == o)

    __hash__ = None

    def startswith(self, o):
        if isinstance(o, tuple):
            return bool(self.ctx.any([self.startswith(x) for x in o]))
        return len(self.v) >= len(o) and bool(self._same(0, o))

    def __contains__(self, o):
        n = len(o)
        return bool(self.ctx.any([
            self._same(i, o) for i in range(len(self.v) - n + 1)
            if all(not isinstance(a, Plain) or a == b
                   for a, b in zip(self.v[i:], o))]))

    def ljust(self, n, fill=b'\0'):
        return Bytes(self.ctx, self.v + [Plain(fill[0])] * (n - len(self.v)))

    def find(self, o):
        for i in range(len(self.v) - len(o) + 1):
            if bool(self._same(i, o)):
                return i
        return -1


class Plain(int):
    """a byte that is known"""


class File:
    def __init__(self, ctx, v):
        self.ctx, self.v, self.p = ctx, v, 0

    def read(self, n=-1):
        n = len(self.v) if n is None or n < 0 else n
        r = self.v[self.p:self.p + n]
        self.p += len(r)
        return Bytes(self.ctx, r)

    def seek(self, p, whence=0):
        self.p = p

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def symbolic_files(ctx, path, raw, inner):
    """open, gzip.open and struct over the symbolic bytes"""
    shims = ctx.shims

    def gz(p, mode='rb', *a, **k):
        if str(getattr(p, 'name', p)) != path:
            return gzip.open(p, mode, *a, **k)
        if raw is inner:
            raise OSError('Not a gzipped file')
        return File(ctx, inner)

    def path_open(self, mode='r', *a, **k):
        return shims.open_(str(self), mode, *a, **k)

    def contents(mode):
        f = File(ctx, raw)
        f.name = path
        return f
    shims.CONTENTS[path] = contents
    ctx.patch(pathlib.Path, 'open', path_open)
    ctx.patch(pathlib.Path, 'read_bytes',
              lambda self: path_open(self, 'rb').read())

    def number(v, order):
        r = 0
        for b in (v if order == 'big' else list(v)[::-1]):
            r = r * 256 + b
        return r

    Bytes.number_ = lambda self, order, **k: number(self, order)

    class S:
        error = struct.error

        @staticmethod
        def calcsize(f):
            return struct.calcsize(f)

        @staticmethod
        def unpack(f, b):
            if not isinstance(b, Bytes):
                return struct.unpack(f, b)
            order = 'big' if f[:1] in '>!' else 'little'
            k = f.lstrip('@=<>!')
            size = dict(B=1, H=2, I=4, L=4, i=4).get(k)
            if size is None or (k == 'L' and f[:1] not in '=<>!'):
                raise ValueError('format ' + f)
            if len(b) != size:
                raise struct.error('size')
            n = number(b, order)
            if k == 'i':
                n = ctx.ite(n >= 2 ** 31, n - 2 ** 32, n)
            return (n,)

        @staticmethod
        def unpack_from(f, b, offset=0):
            return S.unpack(f, b[offset:offset + struct.calcsize(f)])
    zipped = types.ModuleType('gzip')
    zipped.__dict__.update({k: v for k, v in gzip.__dict__.items()
                            if not k.startswith('__')})
    zipped.open = zipped.GzipFile = gz
    shims.SHIMS['gzip'] = zipped
    shims.SHIMS['struct'] = S


def kinds(ctx, packed, at, n):
    warnings.simplefilter('ignore')
    head = [ctx.int(f'b{i}', 0, 255) for i in range(4)]
    word = [ctx.int(f'w{i}', 0, 255) for i in range(5)]
    inner = [Plain(65)] * n
    for i, b in enumerate(word):
        if at + i < n:
            inner[at + i] = b
    inner[:4] = head
    word = inner[at:at + 5]
    gz0 = ctx.all([head[0] == 0x1f, head[1] == 0x8b])
    ctx.assume(ctx.neg(gz0))
    raw = [Plain(v) for v in b'\x1f\x8b\x08\x00'] + [Plain(66)] * n \
        if packed else inner
    path = os.path.join(ctx.tmpdir(), 'File.XYZ')
    if ctx.sym:
        builtins.open(path, 'w').close()
        symbolic_files(ctx, path, raw, inner)
    else:
        with (gzip.open if packed else open)(path, 'wb') as f:
            f.write(bytes(int(b) for b in inner))
    W = ctx.load('CHECLabPy.core.io.waveform').WaveformReader
    t = ctx.load('CHECLabPy.core.io.tio')
    s = ctx.load('CHECLabPy.core.io.simtel')
    answer = ctx.choice('header', ['right', 'other', 'broken'])
    version = ctx.int('version', 0, 10)

    def getheader(p, ext=0, *a, **k):
        if answer == 'broken':
            raise OSError('broken')
        return dict(EVENT_HEADER_VERSION=version) if answer == 'right' else \
            dict(SIMPLE=True)
    ctx.patch(fits, 'getheader', getheader)
    made = []
    for cls in (t.TIOReader, s.SimtelReader):
        def init(self, path, max_events=None, *a, **k):
            made.append((path, max_events, a, k))
        ctx.patch(cls, '__init__', init)
    k = ctx.choice('all', [None, ctx.int('max_events', -5, 1000)])
    got = W.from_path(path) if k is None else W.from_path(path, k)
    magic = head[0] + 256 * head[1] + 65536 * head[2] + 2 ** 24 * head[3]
    simtel = ctx.any([magic == v for v in MAGIC])

    def fits_at(i):
        return ctx.all([a == b for a, b in zip(inner[i:], b'FITS')])
    is_fits = ctx.any([fits_at(i) for i in range(min(n, 1024) - 3)
                    if all(not isinstance(a, Plain)
                           for a in inner[i:i + 4])])
    ctx.assume(ctx.neg(ctx.all([simtel, is_fits])))
    tio = ctx.all([is_fits, answer == 'right'])
    if isinstance(got, s.SimtelReader):
        ctx.check(simtel, 'simtel reader for simtel files only')
    elif isinstance(got, t.TIOReader):
        ctx.check(tio, 'TARGET reader for TARGET files only')
    else:
        ctx.check(ctx.neg(ctx.any([simtel, tio])), 'a reader for the file')
        ctx.check(not made, 'no reader for other files')
        return
    ctx.check(len(made) == 1 and made[0][0] == path and
              not made[0][2] and not made[0][3], 'the file is opened')
    if k is None:
        ctx.check(made[0][1] is None, 'every event')
    else:
        ctx.check_eq(made[0][1], k, 'number of events', 0)


CASES = [dict(name=f'{"gz" if z else "plain"}{n}-{at}', fn=kinds,
              params=dict(packed=z, at=at, n=n))
         for z in (False, True)
         for at, n in ((4, 12), (0, 9), (1018, 1030), (1021, 1040))]
for _c in CASES[2:4]:
    _c['timeout_ms'] = 20000

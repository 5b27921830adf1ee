"""pandas.HDFStore kept in memory, so that symbolic values can be stored.
Validated against the real HDFStore by replaying sampled paths."""
import os

import numpy as np

from . import core
from .core import SYM, Unsupported

FILES = {}


class Attrs:
    """attributes on disk, and the objects pytables caches while it is open"""

    def __init__(self):
        self.__dict__['_d'] = {}
        self.__dict__['_cache'] = {}
        self.info = {}
        self.pandas_type = 'frame'

    def __setattr__(self, k, v):
        self._cache[k] = v
        self._d[k] = dict(v) if isinstance(v, dict) else v

    def __getattr__(self, k):
        if k.startswith('__') or k not in self._d:
            raise AttributeError(f"Attribute '{k}' does not exist")
        if k not in self._cache:
            v = self._d[k]
            self._cache[k] = dict(v) if isinstance(v, dict) else v
        return self._cache[k]

    def __delattr__(self, k):
        del self._d[k]
        self._cache.pop(k, None)

    def __dir__(self):
        return list(self._d) + ['_d', '_v_node']

    def __contains__(self, k):
        return k in self._d

    def __getitem__(self, k):
        return getattr(self, k)

    def __setitem__(self, k, v):
        setattr(self, k, v)


class Entry:
    """storer of one key"""

    def __init__(self, kind, df):
        self.kind = kind
        self.df = df
        self.attrs = Attrs()
        if kind == 'table':
            self.attrs.non_index_axes = [(1, list(df.columns))]

    @property
    def nrows(self):
        return len(self.df) if self.kind == 'table' else None

    @property
    def is_table(self):
        return self.kind == 'table'

    @property
    def ncols(self):
        return len(self.df.columns)


def _clean(key):
    key = str(key)
    return key[1:] if key.startswith('/') else key


class MemStore:
    def __init__(self, path, mode='a', complevel=None, complib=None, **kw):
        path = str(path)
        self._path = path
        self._mode = mode
        if mode == 'w':
            FILES[path] = {}
            open(path, 'w').close()
        elif path not in FILES:
            if mode in ('r', 'r+'):
                raise OSError(f'{path} is not an HDF5 file')
            FILES[path] = {}
            open(path, 'a').close()
        self._t = FILES[path]
        for e in self._t.values():
            e.attrs._cache.clear()
        self.is_open = True

    def _writable(self):
        if self._mode == 'r' or not self.is_open:
            raise ValueError('the file is not writable')

    def _open(self):
        if not self.is_open:
            raise ValueError(f'{self._path} file is not open!')

    def keys(self, include='pandas'):
        self._open()
        return ['/' + k for k in sorted(self._t)]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._t)

    def __contains__(self, key):
        self._open()
        return _clean(key) in self._t

    def get_storer(self, key):
        self._open()
        k = _clean(key)
        if k not in self._t:
            raise KeyError(f'No object named {key} in the file')
        return self._t[k]

    def put(self, key, value, format=None, **kw):
        self._writable()
        kind = 'table' if format in ('table', 't') else 'fixed'
        self._t[_clean(key)] = Entry(kind, value.copy())

    def __setitem__(self, key, value):
        self.put(key, value)

    def append(self, key, value, format=None, axes=None, index=True,
               append=True, expectedrows=None, data_columns=None, **kw):
        import pandas as pd
        self._writable()
        k = _clean(key)
        if not append and k in self._t:
            del self._t[k]
        if k not in self._t:
            if not len(value):
                return
            self._t[k] = Entry('table', value.copy())
            return
        e = self._t[k]
        if e.kind != 'table':
            raise ValueError('Can only append to Tables')
        if list(e.df.columns) != list(value.columns):
            raise ValueError('cannot match existing table structure')
        e.df = pd.concat([e.df, value])

    def remove(self, key, *a, **k):
        self._writable()
        del self._t[_clean(key)]

    def get(self, key):
        return self.get_storer(key).df.copy()

    __getitem__ = get

    def select(self, key, where=None, start=None, stop=None, columns=None,
               iterator=False, chunksize=None, auto_close=False):
        e = self.get_storer(key)
        if where is not None or iterator:
            raise Unsupported('where in HDFStore.select')
        df = e.df
        if columns is not None:
            df = df[[c for c in columns]]
        if chunksize is not None:
            if e.kind != 'table':
                raise TypeError('can only use an iterator or chunksize on a '
                                'table')
            return self._chunks(df, start, stop, chunksize)
        if start is not None or stop is not None:
            df = df.iloc[_ix(start):_ix(stop)]
        return df.copy()

    def _chunks(self, df, start, stop, chunksize):
        cur = 0 if start is None else start
        end = len(df) if stop is None else stop
        if end > len(df):
            end = len(df)
        n = 0
        if type(chunksize) in SYM:       # pandas truncates it
            if type(chunksize) is core.SymReal:
                chunksize = chunksize.__floor__()
        else:
            chunksize = int(chunksize)
        if chunksize <= 0:
            raise RuntimeError('the iteration does not end')
        while cur < end:
            n += 1
            if n > 200:
                raise Unsupported('chunks')
            nxt = cur + chunksize
            nxt = end if nxt > end else _ix(nxt)
            part = df.iloc[_ix(cur):_ix(nxt)]
            cur = nxt
            if len(part):
                yield part.copy()

    def select_column(self, key, column, start=None, stop=None, where=None,
                      **k):
        e = self.get_storer(key)
        if where is not None:
            raise Unsupported('where in select_column')
        if e.kind != 'table':
            raise AttributeError('read_column')
        if column not in e.df.columns:
            raise KeyError(f'column [{column}] not found in the table')
        v = e.df[column].iloc[_ix(start):_ix(stop)]
        s = v.reset_index(drop=True)
        return s

    def flush(self, *a, **k):
        pass

    def close(self):
        self.is_open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _ix(x):
    if x is None:
        return None
    if type(x) in SYM:
        i = x if type(x) in (core.SymInt, core.SymIntF) else x.__floor__()
        return i.__index__() if type(i) in SYM else int(i)
    return int(x)

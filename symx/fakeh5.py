"""An in-memory stand-in for h5py that stores arrays of terms.

Only used when executing symbolically; replays use the real h5py in a scratch
directory."""
import copy
import os
import shutil
import sys
import tempfile

import numpy as np

from . import npproxy
from .ctx import Inconclusive


class Attrs(dict):
    def create(self, name, data, shape=None, dtype=None):
        self[name] = data

    modify = create


def narrowed(a, dtype):
    """what is left of terms (standing for doubles) stored in fewer bits"""
    if a.dtype == object and getattr(dtype, '__name__', None) == 'float32':
        dtype = 'f4'            # the stand-in of the proxy
    dtype = np.dtype(dtype)
    if a.dtype != object or dtype.kind == 'O' or dtype.itemsize >= 8 and \
            dtype.kind == 'f':
        return a
    if dtype.kind == 'f':
        eps = 2.0 ** (-30 if dtype.itemsize == 4 else -12)
        out = [v * (1 + eps) for v in a.ravel()]
        return np.array(out + [None], dtype=object)[:-1].reshape(a.shape)
    raise Inconclusive('terms stored as %s' % dtype)


class Dataset(object):
    def __init__(self, name, data, maxshape=None):
        self.name = name
        self.attrs = Attrs()
        self.maxshape = maxshape
        if isinstance(data, (bytes, str)):
            self.data = data if isinstance(data, bytes) else data.encode()
        else:
            a = np.array(data, copy=True)
            self.data = a

    @property
    def shape(self):
        return () if isinstance(self.data, bytes) else self.data.shape

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def size(self):
        return self.data.size

    @property
    def ndim(self):
        return self.data.ndim

    def __len__(self):
        return len(self.data)

    def __getitem__(self, idx):
        if isinstance(self.data, bytes):
            if idx == () or idx is Ellipsis:
                return self.data
            raise ValueError('scalar dataset')
        if self.data.ndim == 0 and idx == ():
            return self.data[()]
        return np.array(self.data[idx], copy=True)

    def asstr(self, *a, **k):
        class S(object):
            def __getitem__(_, i):
                return self.data.decode()
        return S()

    def __setitem__(self, idx, v):
        v = np.asarray(v)
        have = self.data[idx].shape
        # h5py broadcasts like numpy; sizes must be compatible
        if v.shape != have and v.size != 1:
            v = np.broadcast_to(v, have)
        self.data[idx] = v

    def __array__(self, dtype=None):
        return np.array(self.data, dtype=dtype)

    def read_direct(self, dest, source_sel=None, dest_sel=None):
        dest[dest_sel if dest_sel is not None else ()] = \
            self.data[source_sel if source_sel is not None else ()]

    def resize(self, size, axis=None):
        if self.maxshape is None:
            raise TypeError('Only chunked datasets can be resized')
        new = list(self.data.shape)
        if axis is None:
            new = [int(s) for s in size]
        else:
            new[axis] = int(size)
        for n, m in zip(new, self.maxshape):
            if m is not None and n > m:
                raise ValueError('unable to set extend dataset (dimension '
                                 'cannot exceed the existing maximal size)')
        out = np.zeros(new, dtype=self.data.dtype)
        cut = tuple(slice(0, min(a, b)) for a, b in zip(new, self.data.shape))
        out[cut] = self.data[cut]
        self.data = out


class Group(object):
    def __init__(self, name='/'):
        self.name = name
        self.items_ = {}
        self.attrs = Attrs()

    def _find(self, path, make=False):
        g = self
        parts = [p for p in path.split('/') if p]
        for p in parts[:-1]:
            if p not in g.items_:
                if not make:
                    raise KeyError(path)
                g.items_[p] = Group(g.name + p + '/')
            g = g.items_[p]
        return g, parts[-1]

    def __getitem__(self, k):
        if isinstance(k, bytes):
            k = k.decode()
        g, n = self._find(k)
        return g.items_[n]

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def __contains__(self, k):
        return self.get(k) is not None

    def _put(self, k, v):
        g, n = self._find(k, True)
        if n in g.items_:
            raise (ValueError if isinstance(v, Group) else RuntimeError)(
                'Unable to create link (name already exists)')
        g.items_[n] = v
        return v

    def __setitem__(self, k, v):
        self._put(k, Dataset(k, v))

    def create_group(self, k):
        return self._put(k, Group(self.name + k + '/'))

    def require_group(self, k):
        return self.get(k) or self.create_group(k)

    def create_dataset(self, name, shape=None, dtype=None, data=None,
                       maxshape=None, chunks=None, **kw):
        if data is None:
            data = np.zeros(shape, dtype=dtype)
        elif shape is not None and not isinstance(data, (bytes, str)):
            data = np.asarray(data).reshape(shape)
        d = Dataset(name, data, maxshape)
        if dtype is not None and isinstance(d.data, np.ndarray):
            d.data = narrowed(d.data, dtype)
        return self._put(name, d)

    require_dataset = create_dataset

    def keys(self):
        return sorted(self.items_)

    def items(self):
        return [(k, self.items_[k]) for k in self.keys()]

    def values(self):
        return [self.items_[k] for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.items_)

    def __delitem__(self, k):
        g, n = self._find(k)
        del g.items_[n]


class FakeH5(object):
    """module stand-in; `files` maps names to groups"""
    Dataset, Group = Dataset, Group

    def __init__(self):
        self.files = files = {}

        class File(Group):
            def __init__(self, name, mode='r', **kw):
                Group.__init__(self)
                name = os.fspath(name)
                self.filename, self.mode = name, mode
                if mode in ('w',) or (mode == 'a' and name not in files):
                    files[name] = {'items': {}, 'attrs': Attrs()}
                elif mode in ('w-', 'x') and name in files:
                    raise OSError('file exists')
                elif name not in files:
                    raise OSError('Unable to open file ' + name)
                if mode in ('w-', 'x'):
                    files[name] = {'items': {}, 'attrs': Attrs()}
                self.items_ = files[name]['items']
                self.attrs = files[name]['attrs']

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def close(self):
                pass

            def flush(self):
                pass
        self.File = File

    def is_hdf5(self, name):
        return os.fspath(name) in self.files

    def __getattr__(self, n):
        raise Inconclusive('unmodelled h5py.' + n)


class Scratch(object):
    """with Scratch(ctx) as s: s.path('x.h5'); s.open('x.h5') -> group"""
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='vp_h5_')
        self.saved = []
        if self.ctx.symbolic:
            npproxy.NARROW[0] = True
            import h5py
            self.h5 = FakeH5()
            for n, m in list(sys.modules.items()):
                if m is None or not n.startswith('brainstorm') or \
                        '.tests' in n:
                    continue
                for k, v in list(m.__dict__.items()):
                    if v is h5py:
                        self.saved.append((m, k, v))
                        m.__dict__[k] = self.h5
        else:
            import h5py
            self.h5 = h5py
        return self

    def __exit__(self, *a):
        npproxy.NARROW[0] = False
        for m, k, v in self.saved:
            m.__dict__[k] = v
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def open(self, name):
        return self.h5.File(self.path(name), 'r')

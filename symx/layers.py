"""Build one real layer with real buffers, symbolic or concrete."""
import numpy as np


def make_handler(ctx, abstract=True, seed=None):
    from brainstorm.handlers import NumpyHandler
    if not ctx.symbolic:
        return NumpyHandler(np.float64)

    class SymHandler(NumpyHandler):
        """NumpyHandler on terms; sigmoid is summarised by its contract
        (discharged on the real implementation by lemma cases)."""
        if abstract:
            def sigmoid(self, x, y):
                r = np.empty(x.shape, dtype=object)
                for i in np.ndindex(*x.shape):
                    v = x[i]
                    if type(v) in (float, int) and not np.isfinite(v):
                        r[i] = 1 / (1 + np.exp(-v))     # 0, 1 or NaN
                    else:
                        r[i] = ctx.core.fn('sigmoid', v)
                y[:] = r
    h = SymHandler(object)
    h.EMPTY = np.zeros(0, dtype=object)
    return h


class FakeRnd(object):
    """RNG whose draws are arbitrary values of the documented range."""
    def __init__(self, ctx, name='rnd'):
        self.ctx, self.name, self.n = ctx, name, 0
        self.ranges = []

    def _draw(self, shape, lo=None, hi=None):
        self.n += 1
        if shape is None:
            return self.ctx.real('%s%d' % (self.name, self.n), lo, hi)
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape, dtype=self.ctx.dtype)
        for i in np.ndindex(*a.shape):
            a[i] = self.ctx.real('%s%d_%s' % (
                self.name, self.n, '_'.join(map(str, i))), lo, hi)
            if hi == 1 and lo == 0:
                # numpy draws from the half-open interval
                self.ctx.assume(a[i] < 1)
        return a

    def __getattr__(self, name):
        from symx.ctx import Inconclusive
        raise Inconclusive('unmodelled random source ' + name)

    def standard_normal(self, size=None):
        return self._draw(size)

    def randn(self, *shape):
        return self._draw(shape or None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._draw(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if low == 0.0 and high == 1.0:
            return self._draw(size, 0, 1)
        return low + (high - low) * self._draw(size, 0, 1)

    def rand(self, *shape):
        return self._draw(shape or None, 0, 1)

    def random_sample(self, size=None):
        return self._draw(size, 0, 1)

    random = random_sample

    # -- integers and permutations: every admissible outcome is explored -----
    def _ints(self, lo, hi, size):
        """inclusive bounds"""
        self.n += 1
        self.ranges.append((lo, hi))
        name = '%s%d' % (self.name, self.n)
        if size is None:
            return int(self.ctx.int(name, lo, hi))
        shape = (size,) if isinstance(size, int) else tuple(size)
        a = np.zeros(shape, dtype=int)
        for i in np.ndindex(*shape):
            a[i] = int(self.ctx.int(name + ''.join('_%d' % k for k in i),
                                    lo, hi))
        return a

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return self._ints(int(low), int(high), size)

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        return self._ints(int(low), int(high) - 1, size)

    def permutation(self, x):
        idx = np.arange(x) if isinstance(x, (int, np.integer)) else \
            np.array(x)
        self.shuffle(idx)
        return idx

    def shuffle(self, x):
        n = len(x)
        self.n += 1
        order = []
        rest = list(range(n))
        for k in range(n - 1):
            j = int(self.ctx.int('%s%d_perm%d' % (self.name, self.n, k), 0,
                                 len(rest) - 1))
            order.append(rest.pop(j))
        order += rest
        y = [x[i] for i in order]
        if isinstance(x, np.ndarray):
            y = x[order].copy()
        for i in range(n):
            x[i] = y[i]


class FewOrders(FakeRnd):
    """for many elements: a few orders instead of all of them"""
    def shuffle(self, x):
        n = len(x)
        self.n += 1
        k = self.ctx.choose('%s%d_order' % (self.name, self.n),
                            ['reversed', 'rotated', 'interleaved', 'halves'])
        r = list(range(n))
        order = {'reversed': r[::-1], 'rotated': r[3 % n:] + r[:3 % n],
                 'interleaved': r[1::2] + r[::2],
                 'halves': [i for p in zip(r[:n // 2], r[::-1]) for i in p] +
                 r[n // 2:n - n // 2]}[k]
        y = x[order].copy() if isinstance(x, np.ndarray) else \
            [x[i] for i in order]
        for i in range(n):
            x[i] = y[i]


class LayerRig(object):
    def __init__(self, ctx, layer, T, B, handler=None):
        from brainstorm.structure.buffers import (
            create_buffer_views_from_layout, get_total_size_slices_and_shapes)
        from brainstorm.structure.layout import create_layout
        self.ctx = ctx
        self.layer = layer
        self.h = handler or make_handler(ctx)
        layer.set_handler(self.h)
        self.hubs, self.layout = create_layout({'test_layer': layer})
        size, slices, shapes = get_total_size_slices_and_shapes(
            self.hubs, T, B)
        self.full = self.h.allocate((size,))
        self.buffers = [self.full[s].reshape(sh)
                        for s, sh in zip(slices, shapes)]
        self.view = create_buffer_views_from_layout(
            self.layout, self.buffers, self.hubs)
        self.b = self.view.test_layer


def set_(arr, vals):
    arr[...] = np.asarray(vals, dtype=arr.dtype).reshape(arr.shape)

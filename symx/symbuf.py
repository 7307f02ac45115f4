"""A flat memory of symbolic length and numpy-style views into it.

Only basic slicing and splitting/merging reshapes - what brainstorm's buffer
machinery uses - are modelled; every size and index may be a symbolic int.
"""
from . import core
from .ctx import Inconclusive


def eq_sure(ctx, a, b, what):
    """equality that must hold on this path, decided by the solver"""
    ctx.check(a == b, what)


class SymBuf(object):
    """view = box (per-dimension [lo, hi)) of a row-major array `dims`
    whose memory is [start, start + prod(dims)); `shape` = reshaped box"""
    def __init__(self, ctx, start, dims, ivs, shape, root):
        self.ctx, self.start, self.dims = ctx, start, tuple(dims)
        self.ivs, self.shape, self.root = list(ivs), tuple(shape), root

    @classmethod
    def flat(cls, ctx, size, root):
        return cls(ctx, 0, (size,), [(0, size)], (size,), root)

    @property
    def size(self):
        p = 1
        for s in self.shape:
            p = p * s
        return p

    @property
    def ndim(self):
        return len(self.shape)

    def __len__(self):
        return int(self.shape[0])

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        if len(self.shape) != len(self.dims):
            raise Inconclusive('slicing of a reshaped view')
        if Ellipsis in [i for i in idx if type(i) is type(Ellipsis)]:
            k = [type(i) is type(Ellipsis) for i in idx].index(True)
            idx = idx[:k] + (slice(None),) * (
                len(self.dims) - len(idx) + 1) + idx[k + 1:]
        ivs, shape = list(self.ivs), list(self.shape)
        for d, s in enumerate(idx):
            if not isinstance(s, slice) or s.step not in (None, 1):
                raise Inconclusive('unmodelled index %r' % (s,))
            n = shape[d]
            lo = self._norm(s.start, n, 0)
            hi = self._norm(s.stop, n, n)
            hi = core.ite(hi < lo, lo, hi)
            base = ivs[d][0]
            ivs[d] = (base + lo, base + hi)
            shape[d] = hi - lo
        return SymBuf(self.ctx, self.start, self.dims, ivs, shape, self.root)

    @staticmethod
    def _norm(v, n, default):
        if v is None:
            return default
        if v < 0:
            v = v + n
            return core.ite(v < 0, 0, v)
        return core.ite(v > n, n, v)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if len(self.dims) == 1 and len(self.shape) == 1:
            # a flat piece becomes a fresh row-major array
            p = 1
            for s in shape:
                p = p * s
            eq_sure(self.ctx, p, self.shape[0],
                    'reshape keeps the number of elements')
            return SymBuf(self.ctx, self.start + self.ivs[0][0], shape,
                          [(0, s) for s in shape], shape, self.root)
        if len(shape) == 1 and type(shape[0]) is int and shape[0] == 0:
            eq_sure(self.ctx, self.size, 0, 'empty reshape')
            return SymBuf(self.ctx, self.start, (0,), [(0, 0)], (0,),
                          self.root)
        k = len(self.shape) - 1
        for a, b in zip(shape[:k], self.shape[:k]):
            eq_sure(self.ctx, a, b, 'reshape keeps the leading dimensions')
        p = 1
        for s in shape[k:]:
            p = p * s
        eq_sure(self.ctx, p, self.shape[-1],
                'reshape keeps the feature dimension')
        return SymBuf(self.ctx, self.start, self.dims, self.ivs, shape,
                      self.root)

    def mem_stop(self):
        p = 1
        for s in self.dims:
            p = p * s
        return self.start + p


def same_array(a, b):
    """both views are boxes of the same row-major array"""
    return a.root is b.root and len(a.dims) == len(b.dims) and \
        a.start is b.start


def disjoint(ctx, a, b):
    """condition: a and b share no element (sound, sufficient)"""
    opts = [a.mem_stop() <= b.start, b.mem_stop() <= a.start]
    for s in (a, b):
        for lo, hi in s.ivs:
            opts.append(hi <= lo)      # empty
    if len(a.dims) == len(b.dims):
        box = ctx.Or(*[ctx.Or(x[1] <= y[0], y[1] <= x[0])
                       for x, y in zip(a.ivs, b.ivs)])
        same = ctx.And(a.start == b.start,
                       *[x == y for x, y in zip(a.dims, b.dims)])
        opts.append(ctx.And(same, box))
    return ctx.Or(*opts)


class FakeHandler(object):
    """records allocation; parameters are copied on resize"""
    dtype = object

    def __init__(self, ctx):
        self.ctx = ctx
        self.log = []

    def allocate(self, shape):
        assert len(shape) == 1
        return SymBuf.flat(self.ctx, shape[0], object())

    zeros = allocate

    def get_numpy_copy(self, x):
        return ('copy', x)

    def set_from_numpy(self, mem, arr):
        self.log.append((mem, arr))

    def fill(self, mem, v):
        self.log.append(('fill', mem, v))

    def copy_to(self, a, b):
        self.log.append(('copy', a, b))

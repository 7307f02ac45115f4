"""A model of numpy's RandomState in which every stream is an arbitrary
sequence of values determined by its seed only.

`modelled(ctx)` re-executes brainstorm's own randomness.py on top of it and
puts the resulting RandomState/global_rnd everywhere in the package, so which
stream a value is drawn from, and at which position, is decided by the real
code; the values themselves are symbolic.
"""
import contextlib
import itertools
import sys
import types

import numpy as np

from . import core
from .ctx import Inconclusive


def make_class(ctx):
    class ModelRS(object):
        def __init__(self, seed=None):
            if seed is None:
                raise Inconclusive('seeded by the operating system')
            ModelRS.seed(self, seed)

        def seed(self, seed=None):
            if seed is None:
                raise Inconclusive('seeded by the operating system')
            if isinstance(seed, core.SI):
                import z3
                z = z3.simplify(seed.z)
                self.key = str(z)
            else:
                self.key = str(int(seed))
            self.n = 0

        def get_state(self, legacy=True):
            return (self.key, self.n)

        def set_state(self, st):
            self.key, self.n = st

        def __deepcopy__(self, memo):
            import copy
            r = self.__reduce_ex__(2)
            return copy._reconstruct(self, memo, *r)

        def _name(self):
            self.n += 1
            return 'rnd<%s>%d' % (self.key, self.n)

        def _draw(self, shape, lo=None, hi=None):
            name = self._name()
            one = shape is None or shape == ()
            if isinstance(shape, (int, np.integer)):
                shape = (int(shape),)
            if one:
                return ctx.real(name, lo, hi)
            a = np.empty(tuple(int(s) for s in shape), dtype=object)
            for i in np.ndindex(*a.shape):
                a[i] = ctx.real('%s_%s' % (name, '_'.join(map(str, i))),
                                lo, hi)
            return a

        def standard_normal(self, size=None):
            return self._draw(size)

        def randn(self, *shape):
            return self._draw(shape)

        def normal(self, loc=0.0, scale=1.0, size=None):
            return loc + scale * self._draw(size)

        def rand(self, *shape):
            return self._draw(shape, 0, 1)

        def random_sample(self, size=None):
            return self._draw(size, 0, 1)

        random = random_sample

        def uniform(self, low=0.0, high=1.0, size=None):
            return low + (high - low) * self._draw(size, 0, 1)

        def randint(self, low, high=None, size=None, dtype=int):
            if high is None:
                low, high = 0, low
            if high - low > 100 and size is None:
                return ctx.int(self._name(), low, high - 1)
            return self._ints(low, high - 1, size)

        def random_integers(self, low, high=None, size=None):
            if high is None:
                low, high = 1, low
            return self._ints(low, high, size)

        def _ints(self, lo, hi, size):
            name = self._name()
            if size is None:
                return int(ctx.int(name, lo, hi))
            shape = (size,) if isinstance(size, int) else tuple(size)
            a = np.zeros(shape, dtype=int)
            for i in np.ndindex(*shape):
                a[i] = int(ctx.int(name + ''.join('_%d' % k for k in i),
                                   lo, hi))
            return a

        def permutation(self, x):
            a = np.arange(x) if isinstance(x, int) else np.array(x)
            ps = list(itertools.permutations(range(len(a))))
            if len(ps) > 24:
                raise Inconclusive('permutation of many items')
            return a[list(ps[int(ctx.int(self._name(), 0, len(ps) - 1))])]

        def shuffle(self, x):
            v = self.permutation(np.array(x))
            for i in range(len(x)):
                x[i] = v[i]

        def __getattr__(self, name):
            if name.startswith('_'):
                raise AttributeError(name)
            raise Inconclusive('unmodelled random source ' + name)
    return ModelRS


class _Random(object):
    def __init__(self, RS):
        self.RandomState = RS
        self._os = RS(0)
        self._os.key = 'os'

    def __getattr__(self, n):
        # np.random.xxx: the process-wide stream, never reproducible
        return getattr(self._os, n)


class _NP(object):
    def __init__(self, RS, base):
        self.random = _Random(RS)
        self._base = base

    def __getattr__(self, n):
        return getattr(self._base, n)


@contextlib.contextmanager
def modelled(ctx):
    """symbolic runs: model streams; concrete runs: the real thing"""
    if not ctx.symbolic:
        yield
        return
    import brainstorm.randomness as R
    from .npproxy import PROXY
    fake = _NP(make_class(ctx), PROXY)
    src = open(R.__file__).read()
    mod = types.ModuleType('brainstorm.randomness')
    real_np = sys.modules['numpy']
    sys.modules['numpy'] = fake
    try:
        exec(compile(src, R.__file__, 'exec'), mod.__dict__)
    finally:
        sys.modules['numpy'] = real_np
    old_cls, old_rnd = R.RandomState, R.global_rnd
    undo = []

    def put(d, k, v):
        undo.append((d, k, d[k]))
        d[k] = v
    for m in list(sys.modules.values()):
        d = getattr(m, '__dict__', None)
        n = getattr(m, '__name__', '')
        if d is None or not n.startswith('brainstorm') or '.tests' in n:
            continue
        for k, v in list(d.items()):
            if v is old_cls:
                put(d, k, mod.RandomState)
            elif v is old_rnd:
                put(d, k, mod.global_rnd)
            elif v is PROXY:
                put(d, k, fake)
    try:
        yield
    finally:
        for d, k, v in reversed(undo):
            d[k] = v

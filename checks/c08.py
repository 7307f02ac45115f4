"""C08: shuffling and splitting keep data complete, aligned and ordered."""
import numpy as np

from symx.layers import FakeRnd, FewOrders
from symx.runner import Case

ASSUMPTIONS = [
    'the permutation drawn by the random source is arbitrary (all of them are '
    'explored); split ratios are arbitrary positive reals',
    'cells carry distinct tags (the code never inspects the contents)',
]


class NumpyWith(object):
    def __init__(self, base, mk):
        class random(object):
            RandomState = staticmethod(mk)

            def __getattr__(self, n):
                return getattr(np.random, n)
        self.__dict__['random'] = random()
        self.__dict__['_b'] = base

    def __getattr__(self, n):
        return getattr(self._b, n)


def arrays(N):
    a = np.arange(2 * N, dtype=float).reshape(2, N, 1)
    b = 100 + np.arange(N * 2, dtype=float).reshape(1, N, 1, 2)
    return a, b


def shuffle(Ns=(1, 2, 3, 4), rnd=FakeRnd):
    def fn(ctx):
        shuffled(ctx, ctx.choose('N', Ns), rnd)
    return fn


def shuffled(ctx, N, Rnd):
    import brainstorm.tools as tools
    a, b = arrays(N)
    ka, kb = a.copy(), b.copy()
    keep = tools.np
    made = []

    def mk(seed=None):
        made.append(seed)
        return Rnd(ctx, 'rnd%s' % seed)
    tools.np = NumpyWith(keep, mk)
    try:
        out = tools.shuffle_data(a, None, b, seed=7)
        again = tools.shuffle_data(a, None, b, seed=7)
    finally:
        tools.np = keep
    ctx.check(len(out) == 3 and out[1] is None, 'one result per argument')
    A, _, B = out
    ctx.check(A.shape == a.shape and B.shape == b.shape, 'shapes kept')
    perm = []
    for c in range(N):
        src = [n for n in range(N) if np.array_equal(A[:, c], ka[:, n]) and
               np.array_equal(B[:, c], kb[:, n])]
        ctx.check(len(src) == 1, 'sequence %d of the result is the same '
                  'sequence of all arguments' % c)
        perm += src
    ctx.check(sorted(perm) == list(range(N)), 'a permutation')
    ctx.check(np.array_equal(a, ka) and np.array_equal(b, kb),
              'arguments unchanged')
    if made:
        ctx.check(set(made) == {7}, 'the given seed is used')
    ctx.check(np.array_equal(again[0], A) and np.array_equal(again[2], B),
              'same seed, same shuffle')


def split(nr, mode, Ns=(1, 2, 3, 5)):
    def fn(ctx):
        import brainstorm.tools as tools
        N = ctx.choose('N', Ns)
        a, b = arrays(N)
        if mode == 'default':
            parts, r = tools.split(a, None, b), [9, 1]
        elif mode == 'counts':
            r = [ctx.choose('r%d' % k, [1, 3, 10, 49]) for k in range(nr)]
            parts = tools.split(a, None, b, ratios=tuple(r))
        else:
            r = [ctx.real('r%d' % k, 0) for k in range(nr)]
            for x in r:
                ctx.assume(x > 0)
            parts = tools.split(a, None, b, ratios=tuple(r))
        ctx.check(len(parts) == len(r), 'one part per ratio')
        tot = 0
        for x in r:
            tot = tot + x
        pos, cum = 0, 0
        for p, x in zip(parts, r):
            ctx.check(len(p) == 3 and p[1] is None, 'same arguments')
            n = p[0].shape[1]
            ctx.check(p[2].shape[1] == n, 'parts aligned')
            ctx.check(np.array_equal(p[0], a[:, pos:pos + n]) and
                      np.array_equal(p[2], b[:, pos:pos + n]),
                      'consecutive, in order')
            pos += n
            cum = cum + x
            # the boundary is the whole number nearest to the exact one
            ctx.check(ctx.And(2 * (pos * tot - cum * N) <= tot * 1.000001,
                              2 * (cum * N - pos * tot) <= tot * 1.000001),
                      'part sizes follow the ratios')
        ctx.check(pos == N, 'nothing lost, nothing twice')
    return fn


def cases(tier):
    C = [Case('shuffle', shuffle(), bounds='N<=4, all permutations', weight=3),
         Case('split-default', split(2, 'default'), bounds='N<=5'),
         Case('shuffle many', shuffle((9, 16, 50), FewOrders),
              bounds='N in 9, 16, 50, a few orders'),
         Case('split many', split(3, 'counts', (10, 25, 100)),
              bounds='N in 10, 25, 100, ratios out of 1, 3, 10, 49'),
         Case('split-default many', split(2, 'default', (10, 15, 99, 100)),
              bounds='N<=100')]
    for k in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)):
        C.append(Case('split-%d' % k, split(k, 'ratios'), bounds='%d '
                      'arbitrary positive ratios, N in {1,2,3,5}' % k,
                      weight=k))
    return C

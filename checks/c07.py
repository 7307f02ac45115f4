"""C07: augmentation / encoding iterators transform exactly what they announce
and leave the dataset alone."""
import numpy as np

from symx.layers import FakeRnd
from symx.runner import Case
from checks.c06 import same

ASSUMPTIONS = [
    'random draws are arbitrary values of the documented range; image and '
    'data contents are arbitrary reals',
    'source iterators: the whole dataset at once, and minibatches of 2 in '
    'order',
]


class Rec(FakeRnd):
    pass


def sources(ctx, data):
    from brainstorm.data_iterators import Minibatches, Undivided
    which = ctx.choose('source', ['undivided', 'minibatches'])
    if which == 'undivided':
        return Undivided(**data), [slice(None)]
    N = list(data.values())[0].shape[1]
    return (Minibatches(batch_size=2, shuffle=False, **data),
            [slice(i, i + 2) for i in range(0, N, 2)])


def images(ctx, T, N, H, W, C=1):
    return {'default': ctx.arr('x', (T, N, H, W, C)),
            'other': ctx.arr('y', (T, N, H, W, C)),
            'targets': ctx.arr('t', (T, N, 1))}


def generic(ctx, data, make, touched, want, passes=2):
    """want(name, original slice, draws) -> expected array"""
    keep = {k: v.copy() for k, v in data.items()}
    src, slices = sources(ctx, data)
    announced = (dict(src.data_shapes), src.length)
    it = make(src)
    it.rnd = Rec(ctx)
    ctx.check(getattr(it, 'length', None) == len(slices), 'announced length')
    shapes = dict(getattr(it, 'data_shapes', {}))
    ctx.check(sorted(shapes) == sorted(data), 'announced names')
    for p in range(passes):
        n = 0
        for b, sl in zip(it(None), slices):
            n += 1
            ctx.check(sorted(b) == sorted(data), 'names')
            for k in data:
                orig = keep[k][:, sl]
                ctx.check(tuple(shapes[k]) == b[k].shape[:1] +
                          keep[k].shape[1:2] + b[k].shape[2:],
                          'announced shape of ' + k)
                if k in touched:
                    want(k, orig, b[k], it.rnd)
                else:
                    ctx.check(same(ctx, b[k], orig),
                              '%s is passed through unchanged' % k)
        ctx.check(n == len(slices), 'number of batches')
    for k in keep:
        ctx.check(same(ctx, data[k], keep[k]), 'dataset item %s is not '
                  'modified' % k)
    ctx.check((dict(src.data_shapes), src.length) == announced,
              'source iterator still announces the same shapes and length')
    for b, sl in zip(src(None), slices):
        for k in keep:
            ctx.check(same(ctx, b[k], keep[k][:, sl]),
                      'source iterator still yields the original ' + k)


def pad(T, N, H, W, C):
    def fn(ctx):
        from brainstorm.data_iterators import Pad
        data = images(ctx, T, N, H, W, C)
        size = ctx.choose('size', [0, 1, 2])
        usev = ctx.choose('usev', [0, 1])
        val = ctx.real('val') if usev else 0.0

        def want(k, orig, got, rnd):
            sz = size if k == 'default' else 1
            v = (val if k == 'default' else 0.5) if usev else 0.0
            t, b, h, w, c = orig.shape
            exp = np.empty((t, b, h + 2 * sz, w + 2 * sz, c), dtype=ctx.dtype)
            exp[...] = v
            exp[:, :, sz:sz + h, sz:sz + w] = orig
            ctx.eq(got, exp, 'padded ' + k)
        generic(ctx, data, lambda s: Pad(
            s, {'default': size, 'other': 1},
            {'default': val, 'other': 0.5} if usev else None),
            ('default', 'other'), want)
    return fn


def crop(T, N, H, W, ch, cw, C=1):
    def fn(ctx):
        from brainstorm.data_iterators import RandomCrop
        data = {'default': ctx.arr('x', (T, N, H, W, C)),
                'targets': ctx.arr('t', (T, N, 1))}
        state = {}

        def want(k, orig, got, rnd):
            # every image is cropped at one of the valid places, the same
            # place at every time step
            t, n = orig.shape[:2]
            ctx.check(got.shape == (t, n, ch, cw, C), 'crop shape %s' %
                      (got.shape,))
            for i in range(n):
                hit = []
                for r in range(H - ch + 1):
                    for c in range(W - cw + 1):
                        if same(ctx, got[:, i],
                                orig[:, i, r:r + ch, c:c + cw]):
                            hit.append((r, c))
                ctx.check(bool(hit) or not got.size,
                          'image %d is no window of the original' % i)
                state.setdefault('seen', []).append(hit)
        generic(ctx, data, lambda s: RandomCrop(s, {'default': (ch, cw)}),
                ('default',), want, passes=1)
    return fn


def crop_range(ctx):
    """all windows can be drawn: the draw ranges are exactly the valid
    offsets"""
    from brainstorm.data_iterators import RandomCrop, Undivided
    H, W = ctx.choose('H', [2, 3]), ctx.choose('W', [2, 3])
    ch = ctx.choose('ch', [1, 2])
    cw = ctx.choose('cw', [1, 2])
    data = {'default': np.arange(1 * 1 * H * W, dtype=float).reshape(
        1, 1, H, W, 1)}
    it = RandomCrop(Undivided(**data), {'default': (ch, cw)})
    seen = set()
    want = set((r, c) for r in range(H - ch + 1) for c in range(W - cw + 1))
    # explored exhaustively by the solver's choice of the draws
    r, c = ctx.choose('target', sorted(want))
    rnd = FakeRnd(ctx)
    it.rnd = rnd
    out = list(it(None))[0]['default'][0, 0, :, :, 0]
    lo, hi = zip(*rnd.ranges) if rnd.ranges else ((), ())
    got = int(out[0, 0])
    ctx.check((got // W, got % W) in want, 'valid window')
    if len(rnd.ranges) == 2:
        ctx.check(sorted(hi) == sorted((H - ch, W - cw)) and set(lo) == {0},
                  'draw ranges %s cover all %dx%d windows' % (
                      rnd.ranges, H - ch + 1, W - cw + 1))


def crop_f32(ctx):
    from brainstorm.data_iterators import RandomCrop, Undivided
    dt = ctx.choose('dtype', [np.float32, np.float64])
    x = np.arange(1 * 2 * 3 * 4 * 2).reshape(1, 2, 3, 4, 2).astype(dt)
    it = RandomCrop(Undivided(default=x), {'default': (2, 2)})
    it.rnd = FakeRnd(ctx)
    out = list(it(None))[0]['default']
    for i in range(2):
        ctx.check(any(np.array_equal(out[:, i], x[:, i, r:r + 2, c:c + 2])
                      for r in range(2) for c in range(3)), 'crop window')


def flip(T, N, H, W, C=1):
    def fn(ctx):
        from brainstorm.data_iterators import Flip
        data = images(ctx, T, N, H, W, C)
        p = ctx.real('p', 0, 1)
        draws = []

        class R(FakeRnd):
            def _draw(self, shape, lo=None, hi=None):
                r = FakeRnd._draw(self, shape, lo, hi)
                draws.extend(np.ravel(r))
                return r

        def want(k, orig, got, rnd):
            t, n = orig.shape[:2]
            for i in range(n):
                if not draws:
                    ctx.fail('nothing is drawn for image %d' % i)
                d = draws.pop(0)
                f = bool(d < p)
                ctx.eq(got[:, i], orig[:, i][:, :, ::-1] if f else
                       orig[:, i], 'image %d %sflipped' % (
                           i, '' if f else 'not '))
        keep = {k: v.copy() for k, v in data.items()}
        src, slices = sources(ctx, data)
        it = Flip(src, {'default': p})
        it.rnd = R(ctx)
        for ps in range(2):
            for b, sl in zip(it(None), slices):
                for k in data:
                    if k == 'default':
                        want(k, keep[k][:, sl], b[k], it.rnd)
                    else:
                        ctx.check(same(ctx, b[k], keep[k][:, sl]),
                                  k + ' unchanged')
        for k in keep:
            ctx.check(same(ctx, data[k], keep[k]),
                      'dataset item %s is not modified' % k)
    return fn


def onehot(T, N, V):
    def fn(ctx):
        from brainstorm.data_iterators import OneHot
        idx = np.zeros((T, N, 1), dtype=int)
        for i in np.ndindex(*idx.shape):
            idx[i] = ctx.choose('w%s' % (i,), list(range(V)))
        data = {'default': idx, 'targets': ctx.arr('t', (T, N, 1))}

        def want(k, orig, got, rnd):
            exp = np.zeros(orig.shape[:2] + (V,))
            for t in range(orig.shape[0]):
                for n in range(orig.shape[1]):
                    exp[t, n, orig[t, n, 0]] = 1
            ctx.eq(np.asarray(got).astype(int), exp, 'one hot')
        generic(ctx, data, lambda s: OneHot(s, {'default': V}), ('default',),
                want)
    return fn


def multihot(T, N, F, V):
    def fn(ctx):
        from brainstorm.data_iterators import MultiHot
        idx = np.zeros((T, N, F), dtype=int)
        for i in np.ndindex(*idx.shape):
            idx[i] = ctx.choose('w%s' % (i,), list(range(V)))
        data = {'default': idx, 'targets': ctx.arr('t', (T, N, 1))}

        def want(k, orig, got, rnd):
            exp = np.zeros(orig.shape[:2] + (V,))
            for i in np.ndindex(*orig.shape):
                exp[i[0], i[1], orig[i]] = 1
            ctx.eq(np.asarray(got).astype(int), exp, 'multi hot')
        generic(ctx, data, lambda s: MultiHot(s, {'default': V}),
                ('default',), want)
    return fn


def gauss(T, N):
    def fn(ctx):
        from brainstorm.data_iterators import AddGaussianNoise
        data = {'default': ctx.arr('x', (T, N, 2)),
                'other': ctx.arr('y', (T, N, 1)),
                'targets': ctx.arr('t', (T, N, 1))}
        std = {'default': ctx.real('s0', 0), 'other': ctx.real('s1', 0)}
        um = ctx.choose('means', [0, 1])
        mean = {'default': ctx.real('m0'), 'other': ctx.real('m1')} \
            if um else None
        draws = []

        class R(FakeRnd):
            def _draw(self, shape, lo=None, hi=None):
                r = FakeRnd._draw(self, shape, lo, hi)
                draws.append(np.array(r))
                return r
        keep = {k: v.copy() for k, v in data.items()}
        src, slices = sources(ctx, data)
        it = AddGaussianNoise(src, std, mean)
        it.rnd = R(ctx)
        for ps in range(2):
            for b, sl in zip(it(None), slices):
                for k in std:
                    if not draws:
                        ctx.fail('no noise is drawn for ' + k)
                    z = draws.pop(0)
                    ctx.eq(b[k], keep[k][:, sl] + std[k] * z +
                           (mean[k] if um else 0.0), 'noisy ' + k)
                ctx.check(same(ctx, b['targets'], keep['targets'][:, sl]),
                          'targets unchanged')
                ctx.check(not draws, 'one fresh draw per element')
        for k in keep:
            ctx.check(same(ctx, data[k], keep[k]), 'dataset unchanged')
        for b, sl in zip(src(None), slices):
            for k in keep:
                ctx.check(same(ctx, b[k], keep[k][:, sl]), 'source unchanged')
    return fn


def saltnpepper(ctx):
    from brainstorm.data_iterators import AddSaltNPepper
    N = 2
    data = {'default': ctx.arr('x', (1, N, 1)),
            'targets': ctx.arr('t', (1, N, 1))}
    p, q = ctx.real('p', 0, 1), ctx.real('q', 0, 1)
    ur = ctx.choose('ratio', [0, 1])
    ratio = q if ur else 0.5
    draws = []

    class R(FakeRnd):
        def _draw(self, shape, lo=None, hi=None):
            r = FakeRnd._draw(self, shape, lo, hi)
            draws.extend(np.ravel(r))
            return r
    keep = {k: v.copy() for k, v in data.items()}
    src, slices = sources(ctx, data)
    it = AddSaltNPepper(src, {'default': p}, {'default': q} if ur else None)
    it.rnd = R(ctx)
    for b, sl in zip(it(None), slices):
        o = keep['default'][:, sl].ravel()
        g = np.asarray(b['default']).ravel()
        for x, y, r in zip(o, g, draws):
            # away from the (measure zero) region borders
            salt = r > 1 - p * ratio
            pepper = r < p * (1 - ratio)
            ctx.check(ctx.Implies(salt, ctx.Or(y == 1.0, r <= p *
                                               (1 - ratio))), 'salt is 1')
            ctx.check(ctx.Implies(pepper, y == 0.0), 'pepper is 0')
            ctx.check(ctx.Implies(ctx.And(r < 1 - p * ratio,
                                          r > p * (1 - ratio)), y == x),
                      'the rest is unchanged')
        draws[:] = draws[g.size:]
        ctx.check(same(ctx, b['targets'], keep['targets'][:, sl]),
                  'targets unchanged')
    for k in keep:
        ctx.check(same(ctx, data[k], keep[k]), 'dataset unchanged')


def stacked(ctx):
    """Pad -> RandomCrop -> Flip composed: every image is a window of the
    padded original, possibly mirrored"""
    from brainstorm.data_iterators import Pad, RandomCrop, Flip, Undivided
    x = 1 + np.arange(2 * 2 * 2, dtype=float).reshape(1, 2, 2, 2, 1)
    keep = x.copy()
    it = Flip(RandomCrop(Pad(Undivided(default=x), {'default': 1}),
                         {'default': (2, 2)}))
    n = 0
    o = it
    while hasattr(o, 'iter'):
        o.rnd = FakeRnd(ctx, 'r%d' % n)
        o, n = o.iter, n + 1
    for ps in range(1):
        out = list(it(None))[0]['default']
        big = np.zeros((1, 2, 4, 4, 1))
        big[:, :, 1:3, 1:3] = keep
        for i in range(2):
            win = [big[0, i, r:r + 2, c:c + 2, 0] for r in range(3)
                   for c in range(3)]
            ctx.check(any(np.array_equal(np.asarray(out[0, i, :, :, 0],
                                                    dtype=float), w) or
                          np.array_equal(np.asarray(out[0, i, :, :, 0],
                                                    dtype=float), w[:, ::-1])
                          for w in win), 'image %d' % i)
    ctx.check(np.array_equal(x, keep), 'dataset unchanged')


def chained(ctx):
    """what may follow an iterator is what it yields, not its source"""
    from brainstorm.data_iterators import Pad, RandomCrop, Undivided
    from brainstorm.utils import IteratorValidationError
    x = 1 + np.arange(12, dtype=float).reshape(1, 1, 3, 4, 1)
    p = ctx.choose('padding', [0, 1, 2])
    ch, cw = ctx.int('ch', 0, 8), ctx.int('cw', 0, 9)
    first = Pad(Undivided(default=x), {'default': p})
    H, W = 3 + 2 * p, 4 + 2 * p
    if ctx.choose('cropped first', [False, True]):
        H, W = 2, 3
        first = RandomCrop(first, {'default': (2, 3)})
        first.rnd = FakeRnd(ctx, 'first')
    ok = ctx.And(ch <= H, cw <= W)
    try:
        it = RandomCrop(first, {'default': (ch, cw)})
    except IteratorValidationError:
        ctx.check(ctx.Not(ok), 'a window that fits is accepted')
        return
    ctx.check(ok, 'a window that does not fit is refused')
    ctx.assume(ctx.Or(ch == H, ch == 1))
    ctx.assume(ctx.Or(cw == W, cw == 1))
    ch, cw = int(ch), int(cw)
    it = RandomCrop(first, {'default': (ch, cw)})
    it.rnd = FakeRnd(ctx, 'second')
    out = list(it(None))[0]['default']
    ctx.check(out.shape == (1, 1, ch, cw, 1), 'and cut out')


INVALID = {
    'noise: unknown name': ('AddGaussianNoise', ({'nope': 1.},)),
    'noise: other means': ('AddGaussianNoise', ({'img': 1.}, {'tar': 1.})),
    'noise: more means': ('AddGaussianNoise', ({'img': 1.}, {'img': 0.,
                                                             'tar': 1.})),
    'noise: fewer means': ('AddGaussianNoise', ({'img': 1., 'tar': 1.},
                                                {'img': 0.})),
    'salt: unknown name': ('AddSaltNPepper', ({'nope': .5},)),
    'salt: other ratios': ('AddSaltNPepper', ({'img': .5}, {'tar': .5})),
    'salt: more ratios': ('AddSaltNPepper', ({'img': .5}, {'img': .5,
                                                           'tar': .5})),
    'flip: unknown name': ('Flip', ({'nope': .5},)),
    'flip: no default': ('Flip', ()),
    'flip: probability > 1': ('Flip', ({'img': 1.5},)),
    'flip: probability < 0': ('Flip', ({'img': -.5},)),
    'flip: second probability': ('Flip', ({'img': .5, 'im2': 1.5},)),
    'flip: not images': ('Flip', ({'tar': .5},)),
    'onehot: unknown name': ('OneHot', ({'nope': 3},)),
    'onehot: size': ('OneHot', ({'tar': 3.},)),
    'onehot: features': ('OneHot', ({'two': 3},)),
    'onehot: images': ('OneHot', ({'img': 3},)),
    'multihot: unknown name': ('MultiHot', ({'nope': 3},)),
    'multihot: size': ('MultiHot', ({'tar': 3.},)),
    'multihot: images': ('MultiHot', ({'img': 3},)),
    'pad: unknown name': ('Pad', ({'nope': 1},)),
    'pad: not images': ('Pad', ({'tar': 1},)),
    'pad: other values': ('Pad', ({'img': 1}, {'im2': 1})),
    'pad: more values': ('Pad', ({'img': 1}, {'img': 1, 'im2': 1})),
    'crop: unknown name': ('RandomCrop', ({'nope': (1, 1)},)),
    'crop: not images': ('RandomCrop', ({'tar': (1, 1)},)),
    'crop: one size': ('RandomCrop', ({'img': (1,)},)),
    'crop: three sizes': ('RandomCrop', ({'img': (1, 1, 1)},)),
    'crop: a number': ('RandomCrop', ({'img': 1},)),
    'crop: too high': ('RandomCrop', ({'img': (3, 1)},)),
    'crop: too wide': ('RandomCrop', ({'img': (1, 4)},)),
    'crop: negative height': ('RandomCrop', ({'img': (-1, 1)},)),
    'crop: negative width': ('RandomCrop', ({'img': (1, -1)},)),
    'crop: second too high': ('RandomCrop', ({'img': (1, 1),
                                              'im2': (1, 3)},)),
}


def invalid(ctx):
    """arguments that cannot work are refused when the iterator is made"""
    import brainstorm.data_iterators as di
    from brainstorm.utils import IteratorValidationError
    k = ctx.choose('defect', sorted(INVALID))
    cls, args = INVALID[k]
    src = di.Undivided(img=np.zeros((1, 1, 2, 3, 1)),
                       im2=np.zeros((1, 1, 3, 2, 1)),
                       tar=np.zeros((1, 1, 1)), two=np.zeros((1, 1, 2)))
    try:
        getattr(di, cls)(src, *args)
    except IteratorValidationError:
        ctx.check(True, 'refused')
    else:
        ctx.fail(k + ' is accepted')


def cases(tier):
    th = tier == 'thorough'
    C = []
    for k, d in enumerate([(1, 2, 1, 1, 1), (1, 3, 2, 1, 2), (2, 1, 1, 2, 1),
                           (1, 1, 2, 3, 1)]):
        C.append(Case('pad-%d' % k, pad(*d), bounds='T,N,H,W,C=%s, padding '
                      '0..2' % (d,), weight=3))
    for k, d in enumerate([(1, 1, 2, 2, 1, 1), (1, 2, 2, 1, 2, 1),
                           (2, 1, 3, 2, 2, 2), (1, 2, 2, 3, 1, 2),
                           (1, 1, 3, 3, 2, 2, 2), (1, 3, 2, 1, 1, 1),
                           (1, 2, 2, 2, 2, 2)]):
        C.append(Case('crop-%d' % k, crop(*d), bounds='T,N,H,W,ch,cw=%s' %
                      (d,), weight=3))
    C.append(Case('crop-range', crop_range, bounds='H,W<=3'))
    C.append(Case('crop-dtypes', crop_f32, bounds='3x4 images'))
    for k, d in enumerate([(1, 1, 1, 2), (2, 2, 1, 2), (1, 3, 2, 1),
                           (1, 2, 2, 3, 2)]):
        C.append(Case('flip-%d' % k, flip(*d), bounds='T,N,H,W=%s' % (d,),
                      weight=3))
    C.append(Case('onehot-a', onehot(1, 2, 3), bounds='V=3'))
    C.append(Case('onehot-b', onehot(2, 1, 2), bounds='V=2'))
    C.append(Case('onehot-c', onehot(1, 3, 2), bounds='V=2'))
    C.append(Case('onehot-v1', onehot(1, 2, 1), bounds='V=1'))
    C.append(Case('multihot-a', multihot(1, 2, 2, 2), bounds='F=2 V=2'))
    C.append(Case('multihot-b', multihot(1, 1, 2, 3), bounds='F=2 V=3'))
    C.append(Case('multihot-c', multihot(2, 1, 1, 3), bounds='F=1 V=3'))
    for T, N in ((1, 2), (2, 1), (1, 3)):
        C.append(Case('gaussian-T%d-N%d' % (T, N), gauss(T, N)))
    C.append(Case('saltnpepper', saltnpepper, bounds='N=2'))
    C.append(Case('chained', chained, bounds='3x4 images, padding 0..2',
                  weight=2))
    C.append(Case('refusals', invalid, bounds='%d defects' % len(INVALID)))
    C.append(Case('stacked', stacked, bounds='2x2 images, pad 1, crop 2x2',
                  weight=9))
    return C

"""C06: the batch iterators deliver every sequence exactly once per pass."""
import numpy as np

from symx.layers import FakeRnd, FewOrders
from symx.runner import Case

ASSUMPTIONS = [
    'a shuffle is an arbitrary permutation, chosen by the solver; mask '
    'entries are arbitrary reals; data cells carry distinct tags (the code never '
    'inspects them)',
]


def dataset(ctx, T, N, extra=True):
    # every cell carries its own tag: what is delivered can be identified
    d = {'default': 1 + np.arange(T * N, dtype=float).reshape(T, N, 1)}
    if extra:
        d['targets'] = 1000 + np.arange(T * N * 2, dtype=float).reshape(
            T, N, 2)
    return d


def same(ctx, a, b):
    """a and b are syntactically the same stored values"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if ctx.symbolic:
        return all(x is y or repr(x) == repr(y)
                   for x, y in zip(a.ravel(), b.ravel()))
    return bool(np.array_equal(a, b))


def locate(ctx, batch, col, data, cut, left, lens):
    """which sequence is column col of this batch?"""
    for n in sorted(left, key=lambda n: (lens[n] if cut == 0 else 0, n)):
        if all(same(ctx, batch[k][:, col], data[k][:cut, n]) for k in data):
            return n
    return None


def seq_len_of(ctx, mask, n):
    """1 + index of the last nonzero mask entry (forks)"""
    T = mask.shape[0]
    for t in range(T - 1, -1, -1):
        v = mask[t, n, 0]
        if bool(v != 0):
            return t + 1
    return 0


def run(ctx, it, data, N, bs, shuffle, lens, label):
    nb = -(-N // bs)
    ctx.check(it.length == nb, '%s: announces %s batches, expected %d' % (
        label, it.length, nb))
    left = set(range(N))
    batches = list(it(None))
    ctx.check(len(batches) == nb, '%s: delivers %d batches, expected %d' % (
        label, len(batches), nb))
    order = [None] * len(batches)
    # empty batches (all sequences masked out) are identified last
    for i in sorted(range(len(batches)), key=lambda i: (
            min([v.shape[0] for v in batches[i].values()] + [1]) == 0, i)):
        b = batches[i]
        ctx.check(sorted(b) == sorted(data), label + ': names')
        B = set(v.shape[1] for v in b.values())
        ctx.check(len(B) == 1, label + ': batch sizes agree')
        B = B.pop()
        ctx.check(1 <= B <= bs, label + ': batch size %d' % B)
        Ts = set(v.shape[0] for v in b.values())
        ctx.check(len(Ts) == 1, label + ': lengths agree')
        cut = Ts.pop()
        got = []
        for c in range(B):
            n = locate(ctx, b, c, data, cut, left, lens)
            ctx.check(n is not None, '%s: a batch column is not one of the '
                      'remaining sequences (all names aligned)' % label)
            left.discard(n)
            got.append(n)
        order[i] = got
        ctx.check(cut == max(lens[n] for n in got),
                  '%s: batch of %s has %d steps, longest sequence %d' % (
                      label, got, cut, max(lens[n] for n in got)))
    ctx.check(not left, '%s: sequences %s missing' % (label, sorted(left)))
    if not shuffle:
        flat = [n for g in order for n in g]
        ctx.check(flat == sorted(flat), label + ': order kept')
    return order


def minibatches(N, T, mode):
    def fn(ctx):
        from brainstorm.data_iterators import Minibatches
        data = dataset(ctx, T, N)
        bs = ctx.choose('bs', list(range(1, N + 2)))
        shuffle = bool(ctx.choose('shuffle', [0, 1]))
        kw = {}
        lens = [T] * N
        if mode == 'mask':
            data['mask'] = ctx.arr('m', (T, N, 1))
            lens = [seq_len_of(ctx, data['mask'], n) for n in range(N)]
        elif mode == 'named':
            data['msk2'] = ctx.arr('m', (T, N, 1))
            kw['cut_according_to'] = 'msk2'
            lens = [seq_len_of(ctx, data['msk2'], n) for n in range(N)]
        elif mode == 'list':
            lens = [ctx.choose('len%d' % n, list(range(1, T + 1)))
                    for n in range(N)]
            kw['cut_according_to'] = list(lens)
        elif mode == 'nocut':
            data['mask'] = ctx.arr('m', (T, N, 1))
            kw['cut_according_to'] = None
        keep = {k: v.copy() for k, v in data.items()}
        it = Minibatches(batch_size=bs, shuffle=shuffle, **dict(data, **kw))
        it.rnd = FakeRnd(ctx)
        run(ctx, it, data, N, bs, shuffle, lens, 'first pass')
        run(ctx, it, data, N, bs, shuffle, lens, 'second pass')
        for k in keep:
            ctx.check(same(ctx, keep[k], data[k]), 'dataset unchanged')
    return fn


def many(kind):
    """more sequences, batches and time steps, data of several dimensions"""
    def fn(ctx):
        from brainstorm.data_iterators import Minibatches, Undivided
        N = ctx.choose('N', [7, 12, 25])
        T = 5
        feat = ctx.choose('features', [(1,), (2, 3)])
        size = int(np.prod(feat))
        data = {'default': 1 + np.arange(T * N * size, dtype=float).reshape(
            (T, N) + feat),
            'targets': 10000 + np.arange(T * N).reshape(T, N, 1)}
        lens = [T] * N
        kw = {}
        if kind != 'full':
            lens = [(3 * n + n * n // 4) % T + 1 for n in range(N)]
        if kind == 'mask':
            m = (np.arange(T)[:, None] < np.array(lens)).astype(float)
            data['mask'] = m.reshape(T, N, 1)
            # where the last entry that is not zero is, is arbitrary for one
            v = ctx.real('m')
            data['mask'] = ctx.to_obj(data['mask']) if ctx.symbolic else \
                data['mask']
            data['mask'][T - 1, N // 2, 0] = v
            if bool(v != 0):
                lens[N // 2] = T
            else:
                lens[N // 2] = min(lens[N // 2], T - 1)
        elif kind == 'list':
            kw['cut_according_to'] = ctx.choose('type', [list, np.array])(
                lens)
        bs = ctx.choose('bs', [2, 3, 5, 6, N - 1, N, N + 4])
        shuffle = bool(ctx.choose('shuffle', [0, 1]))
        it = Minibatches(batch_size=bs, shuffle=shuffle, **dict(data, **kw))
        it.rnd = FewOrders(ctx)
        for k in range(2):
            run(ctx, it, data, N, bs, shuffle, lens, 'pass %d' % k)
        it = Undivided(**data)
        b = list(it(None))
        ctx.check(it.length == len(b) == 1, 'one iteration')
        for k in data:
            ctx.check(same(ctx, b[0][k], data[k]), 'all data: ' + k)
    return fn


def defaults(ctx):
    """without further arguments: single sequences in random order"""
    from brainstorm.data_iterators import Minibatches
    N = ctx.choose('N', [2, 3])
    data = dataset(ctx, 2, N)
    it = Minibatches(**data)
    it.rnd = FakeRnd(ctx)
    for p in range(2):
        before = it.rnd.n
        run(ctx, it, data, N, 1, True, [2] * N, 'pass %d' % p)
        ctx.check(it.rnd.n > before, 'a new order is drawn for every pass')


def undivided(ctx):
    from brainstorm.data_iterators import Undivided
    N, T = ctx.choose('N', [1, 2, 3]), ctx.choose('T', [1, 2])
    data = dataset(ctx, T, N)
    it = Undivided(**data)
    for p in range(2):
        ctx.check(it.length == 1, 'one iteration announced')
        bs = list(it(None))
        ctx.check(len(bs) == 1, 'one iteration')
        ctx.check(sorted(bs[0]) == sorted(data), 'names')
        for k in data:
            ctx.check(same(ctx, bs[0][k], data[k]), 'all data: ' + k)


def rejects(ctx):
    """misaligned data are refused"""
    from brainstorm.data_iterators import Minibatches, Undivided
    from brainstorm.utils import IteratorValidationError
    a = (ctx.choose('Ta', [1, 2, 3]), ctx.choose('Na', [1, 2, 3]), 1)
    b = (ctx.choose('Tb', [1, 2, 3]), ctx.choose('Nb', [1, 2, 3]), 2)
    b = b[:ctx.choose('dims', [2, 3])]
    cls = ctx.choose('cls', [Minibatches, Undivided])
    ok = len(b) == 3 and a[:2] == b[:2]
    try:
        it = cls(default=np.zeros(a), targets=np.zeros(b))
        ctx.check(ok, 'accepted misaligned data %s %s' % (a, b))
    except IteratorValidationError:
        ctx.check(not ok, 'rejected aligned data %s %s' % (a, b))


def cases(tier):
    th = tier == 'thorough'
    C = []
    for mode in ('plain', 'nocut', 'list', 'mask', 'named'):
        for N, T in ([(1, 1), (2, 2), (3, 2)] if mode != 'plain' or True
                     else []):
            C.append(Case('minibatches-%s-N%d-T%d' % (mode, N, T),
                          minibatches(N, T, mode), bounds='N=%d T=%d, all '
                          'batch sizes 1..N+1, all orders' % (N, T),
                          weight=N * T))
    C.append(Case('minibatches-plain-N4-T1', minibatches(4, 1, 'plain'),
                  bounds='N=4', weight=12))
    C.append(Case('minibatches-mask-N2-T3', minibatches(2, 3, 'mask'),
                  bounds='N=2 T=3', weight=12))
    if th:
        C.append(Case('minibatches-plain-N5-T1', minibatches(5, 1, 'plain'),
                      bounds='N=5', weight=50))
        C.append(Case('minibatches-mask-N3-T3', minibatches(3, 3, 'mask'),
                      bounds='N=3 T=3', weight=50))
        C.append(Case('minibatches-list-N4-T2', minibatches(4, 2, 'list'),
                      bounds='N=4 T=2', weight=50))
    for kind in ('full', 'mask', 'list'):
        C.append(Case('many-' + kind, many(kind), bounds='N in 7, 12, 25, '
                      'T=5, a few orders', weight=9))
    C.append(Case('defaults', defaults, bounds='N<=3'))
    C.append(Case('undivided', undivided, bounds='N<=3 T<=2'))
    C.append(Case('rejects-misaligned', rejects, bounds='T,N<=3'))
    return C

"""C26: extracting buffers gives complete, ordered values for all data."""
import numpy as np

from symx.fakeh5 import Scratch
from symx.layers import make_handler, set_, FakeRnd
from symx.runner import Case

ASSUMPTIONS = [
    'data and parameters are arbitrary reals; the values of a sequence are '
    'those of a forward pass on this sequence alone (C04/C05 cover '
    'independence of the batch); after the end of a shortened batch the '
    'result holds zeros; only buffers of the form (T, B, ...)',
    'symbolic runs write into an in-memory model of h5py, replays into real '
    'files',
]


def build(ctx, kind):
    import brainstorm as bs
    import brainstorm.layers as L
    i = L.Input(out_shapes={'default': ('T', 'B', 1),
                            'targets': ('T', 'B', 1)})
    if kind == 'fc':
        h = L.FullyConnected(2, name='h', activation='linear')
        paths = ['h.outputs.default', 'Input.outputs.default',
                 'e.outputs.predictions']
    else:
        h = L.Recurrent(1, name='h', activation='rel')
        paths = ['h.outputs.default', 'h.internals.Ha',
                 'o.outputs.default']
    o = L.FullyConnected(1, name='o', activation='linear')
    e = L.SquaredError(name='e')
    i >> h >> o >> e
    i - 'targets' >> 'targets' - e
    e - 'loss' >> L.Loss()
    net = bs.Network.from_layer(i)
    net.set_handler(make_handler(ctx))
    set_(net.buffer.parameters, ctx.arr('w', net.buffer.parameters.shape)
         if kind == 'fc' else np.arange(net.buffer.parameters.size) - 1.5)
    return net, paths


def single(net, data, n, T, paths):
    d = {k: v[:T, n:n + 1] for k, v in data.items()}
    net.provide_external_data(d, all_inputs=False)
    net.forward_pass()
    return {p: net.get(p) for p in paths}


def body(ctx, kind, save, T, Ns, lens_mode):
    import brainstorm as bs
    import brainstorm.tools as tools
    from brainstorm.data_iterators import Minibatches, Undivided
    net, paths = build(ctx, kind)
    N = ctx.choose('N', Ns)
    if lens_mode == 'many':
        from symx.gradlib import Sparse
        sp = Sparse(ctx, 3)
    data = {'default': sp.arr('x', (T, N, 1)) if lens_mode == 'many' and
            kind == 'fc' else ctx.arr('x', (T, N, 1)) if kind == 'fc' else
            (np.arange(T * N).reshape(T, N, 1) % 5 - 2) * 1.0}
    if kind != 'fc' and ctx.symbolic:
        data['default'] = data['default'].astype(object)
    if ctx.choose('targets', [False, True]):
        data['targets'] = data['default'] * 2
    names = ctx.choose('which', ['all', 'one', 'string'])
    if names == 'one':
        paths = paths[:1]
    arg = paths[0] if names == 'string' else list(paths)
    if names == 'string':
        paths = paths[:1]
    it_kind = ctx.choose('iterator', ['mini', 'undivided']
                         if lens_mode == 'full' else ['mini'])
    before = net.get('parameters')
    if it_kind == 'undivided':
        bs_ = N
        lens = [T] * N
        it = Undivided(**data)
    else:
        bs_ = ctx.choose('batch', list(range(1, N + 1))
                         if lens_mode != 'many' else [2, 3, 5])
        lens = [T] * N
        cut = None
        if lens_mode == 'cut':
            lens = [ctx.choose('len%d' % n, list(range(1, T + 1)))
                    for n in range(N)]
            cut = lens
        if lens_mode == 'many' and ctx.choose('cut', [False, True]):
            lens = cut = [(3 * n + n * n // 4) % T + 1 for n in range(N)]
        it = Minibatches(batch_size=bs_, shuffle=False, cut_according_to=cut,
                         **data)
    if save:
        with Scratch(ctx) as s:
            tools.extract_and_save(net, it, arg, s.path('f.h5'))
            with s.open('f.h5') as f:
                def keys(g, pre=''):
                    out = []
                    for k in g.keys():
                        out.append(k)
                    return out
                ctx.check(sorted(keys(f)) == sorted(paths), 'exactly the '
                          'requested buffers are stored')
                res = {p: f[p][()] for p in paths}
    else:
        res = tools.extract(net, it, arg)
        ctx.check(sorted(res) == sorted(paths), 'exactly the requested '
                  'buffers are returned')
    ctx.eq(net.get('parameters'), before, 'the parameters do not change')
    for n in range(N):
        first = n // bs_ * bs_
        Tb = max(lens[first:first + bs_])
        want = single(net, data, n, Tb, paths)
        for p in paths:
            r = res[p]
            ctx.check(r.shape[1] == N, 'one column per sequence (%s)' % p)
            ctx.check(r.shape[0] >= max(lens), 'all time steps (%s)' % p)
            ctx.eq(r[:Tb, n], want[p][:Tb, 0], 'values of sequence %d' % n)
            extra = want[p].shape[0]
            for t in range(extra, r.shape[0]):
                ctx.eq(r[t, n], np.zeros(r.shape[2:]), 'zeros after the end '
                       'of a shortened batch')


def mk(*a):
    def fn(ctx):
        body(ctx, *a)
    return fn


def cases(tier):
    out = []
    for save in (False, True):
        nm = 'extract_and_save' if save else 'extract'
        out += [
            Case(nm + ' full fc', mk('fc', save, 2, [1, 2, 3], 'full'),
                 {'T': 2, 'N': 3}, weight=3),
            Case(nm + ' full rec', mk('rec', save, 2, [3, 5], 'full'),
                 {'T': 2, 'N': 5}, weight=3),
            Case(nm + ' cut fc', mk('fc', save, 2, [2, 3], 'cut'),
                 {'T': 2, 'N': 3}, weight=5),
            Case(nm + ' cut rec', mk('rec', save, 3, [2], 'cut'),
                 {'T': 3, 'N': 2}, weight=5),
        ]
        out += [Case(nm + ' many fc', mk('fc', save, 3, [7, 11], 'many'),
                     {'T': 3, 'N': 11}, weight=5),
                Case(nm + ' many rec', mk('rec', save, 4, [7], 'many'),
                     {'T': 4, 'N': 7}, weight=5)]
        if tier == 'thorough':
            out += [Case(nm + ' cut fc 4', mk('fc', save, 3, [3, 4], 'cut'),
                         {'T': 3, 'N': 4}, weight=20),
                    Case(nm + ' cut rec 4', mk('rec', save, 3, [4], 'cut'),
                         {'T': 3, 'N': 4}, weight=20)]
    return out

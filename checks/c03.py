"""C03: buffer layout - disjoint storage, sinks alias exactly their sources,
flat parameter and gradient vectors aligned - for all sizes, T and B."""
import itertools

import numpy as np

from symx.runner import Case
from symx.ctx import Inconclusive

ASSUMPTIONS = [
    'topologies are a fixed list; all feature sizes, the number of time '
    'steps and the batch size are unbounded symbolic integers >= 1 in the '
    '"sym" cases (numpy views replaced by a symbolic model of basic slicing '
    'and reshape)',
    'the "real" cases run the same code on real numpy arrays with sizes '
    'chosen by the solver in 1..2 and arbitrary contents',
]


def layer_class():
    from brainstorm.layers.base_layer import Layer
    import sys
    m = sys.modules[__name__]
    if hasattr(m, 'VpProbeLayerImpl'):
        return m.VpProbeLayerImpl

    class VpProbeLayerImpl(Layer):
        """outs/params/internals are given as lists (name, structure)"""
        expected_kwargs = {'outs', 'params', 'internals', 'ins'}

        def _validate_in_shapes(self):
            pass

        def setup(self, kwargs, in_shapes):
            from collections import OrderedDict
            mk = lambda l: OrderedDict(l)
            return (mk(kwargs['outs']), mk(kwargs.get('params', [])),
                    mk(kwargs.get('internals', [])))

        def forward_pass(self, buffers, training_pass=True):
            pass

        def backward_pass(self, buffers):
            pass
    m.VpProbeLayerImpl = VpProbeLayerImpl
    return VpProbeLayerImpl


def BS(*shape, **kw):
    from brainstorm.structure.buffer_structure import BufferStructure
    return BufferStructure(*shape, **kw)


# topologies: layer -> (outs, params, internals, outgoing)
# shapes use size names; resolved to symbolic ints
def topologies():
    T = {}
    TB = ('T', 'B')
    T['chain'] = {
        'Input': dict(outs=[('default', TB + ('i',), 0)],
                      out={'default': ['h.default']}),
        'h': dict(outs=[('default', TB + ('h',), 0)],
                  params=[('W', ('h', 'i')), ('b', ('h',))],
                  internals=[('H', TB + ('h',), 0, False),
                             ('dH', TB + ('h',), 0, True)],
                  out={'default': ['o.default']}),
        'o': dict(outs=[('default', TB + ('o',), 0)],
                  params=[('W', ('o', 'h')), ('b', ('o',))], out={}),
    }
    T['fanout'] = {
        'Input': dict(outs=[('default', TB + ('i',), 0),
                            ('targets', TB + ('t',), 0)],
                      out={'default': ['b.default', 'a.default'],
                           'targets': ['l.targets']}),
        'a': dict(outs=[('default', TB + ('a',), 0)], params=[('W', ('a', 'i'))],
                  out={'default': ['l.default', 'l.extra']}),
        'b': dict(outs=[('default', TB + ('b',), 0)], params=[('W', ('b', 'i'))],
                  out={}),
        'l': dict(outs=[('loss', ('B', 1), 0), ('pred', TB + ('a',), 0)],
                  internals=[('x', ('B', 'a'), 0, False)], out={}),
    }
    T['concat-perm'] = {
        'Input': dict(outs=[('default', TB + ('i',), 0)],
                      out={'default': ['za.default', 'ab.default',
                                       'mc.default']}),
        'za': dict(outs=[('default', TB + ('a',), 0)],
                   params=[('W', ('a', 'i'))], out={'default': ['x.default']}),
        'ab': dict(outs=[('default', TB + ('b',), 0)],
                   params=[('W', ('b', 'i'))],
                   out={'default': ['x.default', 'y.default']}),
        'mc': dict(outs=[('default', TB + ('c',), 0)],
                   params=[('W', ('c', 'i'))], out={'default': ['y.default']}),
        'x': dict(outs=[('default', TB + ('x',), 0)], out={}),
        'y': dict(outs=[('default', TB + ('y',), 0)], out={}),
    }
    T['context-mix'] = {
        'Input': dict(outs=[('default', TB + ('i',), 0)],
                      out={'default': ['r.default', 'o.default']}),
        'r': dict(outs=[('default', TB + ('r',), 1)],
                  params=[('W', ('r', 'i')), ('R', ('r', 'r')), ('b', ('r',))],
                  internals=[('Ha', TB + ('r',), 1, False),
                             ('dHa', TB + ('r',), 1, True),
                             ('dHb', TB + ('r',), 2, True)],
                  out={'default': ['o.default', 's.default']}),
        's': dict(outs=[('default', TB + ('s',), 2)],
                  params=[('W', ('s', 'r'))], out={'default': ['o.default']}),
        'o': dict(outs=[('default', TB + ('o',), 0)],
                  params=[('W', ('o', 'i'))], out={}),
    }
    T['multi-dim'] = {
        'Input': dict(outs=[('default', TB + ('p', 'q', 'c'), 0)],
                      out={'default': ['k.default']}),
        'k': dict(outs=[('default', TB + ('p', 'q', 'd'), 0)],
                  params=[('W', ('d', 'p', 'q', 'c')), ('b', ('d',))],
                  internals=[('H', TB + ('p', 'q', 'd'), 0, False)],
                  out={'default': ['f.default', 'g.default']}),
        'f': dict(outs=[('default', TB + ('f',), 0)], params=[('W', ('f', 'd'))],
                  out={}),
        'g': dict(outs=[('loss', (1,), 0)], params=[('W', ('f',))],
                  internals=[('s', (1,), 0, False), ('w', ('B', 'f'), 0, True)],
                  out={}),
    }
    T['no-params'] = {
        'Input': dict(outs=[('default', TB + ('i',), 0), ('u', TB + ('u',), 0)],
                      out={'default': ['n.default']}),
        'n': dict(outs=[('default', TB + ('i',), 0)], out={}),
    }
    T['losses'] = {
        'Input': dict(outs=[('default', TB + ('i',), 0)],
                      out={'default': ['p.a', 'p.b', 'q.a']}),
        'p': dict(outs=[('x', ('B', 'x'), 0), ('y', ('B', 'y'), 0)],
                  params=[('u', ('x',))],
                  out={'x': ['j.default'], 'y': ['j.default']}),
        'q': dict(outs=[('x', ('B', 'z'), 0)], params=[('u', ('z',))],
                  out={'x': ['j.default']}),
        'j': dict(outs=[('loss', (1,), 0)], params=[('v', ('x', 'y'))],
                  out={}),
    }
    # more layers than there are digits
    n = 12
    names = ['L_%d' % k for k in range(1, n + 1)]
    T['deep'] = {'Input': dict(outs=[('default', TB + ('i',), 0)],
                               out={'default': [names[0] + '.default']})}
    for k, nm in enumerate(names):
        T['deep'][nm] = dict(
            outs=[('default', TB + ('f%d' % (k % 3),), k % 2)],
            params=[('W', ('f%d' % (k % 3), 'i')), ('b', ('f1',))],
            internals=[('H', TB + ('f2',), 0, False)] if k % 4 == 0 else [],
            out={'default': [names[k + 1] + '.default']} if k + 1 < n else {})
    T['wide'] = {'Input': dict(outs=[('default', TB + ('i',), 0)],
                               out={'default': [m + '.default'
                                                for m in names[::-1]]}),
                 'all': dict(outs=[('default', TB + ('a',), 0)],
                             params=[('W', ('a',))], out={}),
                 'some': dict(outs=[('default', TB + ('a',), 0)], out={})}
    for k, nm in enumerate(names):
        T['wide'][nm] = dict(
            outs=[('default', TB + ('f%d' % (k % 3),), 0)],
            params=[('W', ('f%d' % (k % 3), 'i'))],
            out={'default': ['all.default'] +
                 (['some.default'] if 2 < k < 9 else [])})
    return T


def instantiate(topo, size):
    from brainstorm.structure.architecture import (
        instantiate_layers_from_architecture)
    layer_class()
    S = lambda shp: tuple(size(s) if isinstance(s, str) and
                          s not in ('T', 'B') else s for s in shp)
    arch = {}
    for n, d in topo.items():
        if n == 'Input':
            arch[n] = {'@type': 'Input',
                       'out_shapes': {k: S(shp) for k, shp, c in d['outs']},
                       '@outgoing_connections': d['out']}
            continue
        arch[n] = {'@type': 'VpProbe',
                   'outs': [(k, BS(*S(shp), context_size=c))
                            for k, shp, c in d['outs']],
                   'params': [(k, BS(*S(shp)))
                              for k, shp in d.get('params', [])],
                   'internals': [(k, BS(*S(shp), context_size=c,
                                        is_backward_only=bo))
                                 for k, shp, c, bo in d.get('internals', [])],
                   '@outgoing_connections': d['out']}
    return arch, instantiate_layers_from_architecture(arch), S


def sources_of(topo, layer, inp):
    return [(n, o) for n, d in topo.items() for o, tg in d['out'].items()
            for t in tg if t == '%s.%s' % (layer, inp)]


def leaves(topo):
    """name -> (path, kind, shape spec, context)"""
    out = []
    for n, d in topo.items():
        for k, shp, c in d['outs']:
            out.append(((n, 'outputs', k), shp, c))
            out.append(((n, 'output_deltas', k), shp, c))
        for k, shp in d.get('params', []):
            out.append(((n, 'parameters', k), shp, 0))
            out.append(((n, 'gradients', k), shp, 0))
        for k, shp, c, bo in d.get('internals', []):
            out.append(((n, 'internals', k), shp, c))
    return out


def view(views, path):
    v = views
    for p in path:
        v = v[p]
    return v


def sym_case(tname, extra_resize):
    def fn(ctx):
        if not ctx.symbolic:
            return real_body(ctx, tname, lambda k: ctx.int('s.' + k, 1, None),
                             ctx.int('T', 1, None), ctx.int('B', 1, None))
        from symx import npproxy, symbuf
        ctx.e.linearise = True
        npproxy.shadow_int('brainstorm.structure.buffer_structure',
                           'brainstorm.structure.layout',
                           'brainstorm.structure.buffers')
        from brainstorm.structure.layout import create_layout
        from brainstorm.structure.buffers import BufferManager
        topo = topologies()[tname]
        arch, layers, S = instantiate(
            topo, lambda k: ctx.int('s.' + k, 1, None))
        hubs, layout = create_layout(layers)
        h = symbuf.FakeHandler(ctx)
        bm = BufferManager(layout, hubs, handler=h)
        T, B = ctx.int('T', 1, None), ctx.int('B', 1, None)
        views = bm.resize(T, B)
        if extra_resize:
            T, B = ctx.int('T2', 1, None), ctx.int('B2', 1, None)
            views = bm.resize(T, B)
        lv = leaves(topo)
        V = {}
        for path, shp, c in lv:
            v = view(views, path)
            V[path] = v
            full = tuple(T + c if s == 'T' else B if s == 'B' else s
                         for s in S(shp))
            ctx.check(len(v.shape) == len(full), 'rank of %s' % (path,))
            ctx.check(ctx.And(*[a == b for a, b in zip(v.shape, full)]),
                      'shape of %s' % '.'.join(path))
            ctx.check(ctx.And(v.start >= 0, v.mem_stop() <= bm.size),
                      'inside the allocation: %s' % '.'.join(path))
            ctx.check(ctx.And(*[ctx.And(lo >= 0, hi <= d) for (lo, hi), d in
                                zip(v.ivs, v.dims)]),
                      'inside its hub: %s' % '.'.join(path))
        ctx.check(len(set(id(v.root) for v in V.values())) == 1,
                  'one allocation')
        for a, b in itertools.combinations(sorted(V), 2):
            ctx.check(symbuf.disjoint(ctx, V[a], V[b]),
                      'disjoint storage: %s / %s' % ('.'.join(a),
                                                     '.'.join(b)))
        # sinks
        for n, l in layers.items():
            for inp in l.in_shapes:
                srcs = sources_of(topo, n, inp)
                for cat_i, cat_o in (('inputs', 'outputs'),
                                     ('input_deltas', 'output_deltas')):
                    sink = view(views, (n, cat_i, inp))
                    check_sink(ctx, sink, [
                        (V[(s, cat_o, o)], '%s.%s' % (s, o))
                        for s, o in srcs], '%s.%s.%s' % (n, cat_i, inp), T)
                fi = view(views, (n, 'inputs', inp)).ivs[-1][0]
                di = view(views, (n, 'input_deltas', inp)).ivs[-1][0]
                for s, o in srcs:
                    ctx.check(V[(s, 'outputs', o)].ivs[-1][0] - fi ==
                              V[(s, 'output_deltas', o)].ivs[-1][0] - di,
                              'deltas of %s.%s ordered like its inputs'
                              % (n, inp))
        for flat, cat in (('parameters', 'parameters'),
                          ('gradients', 'gradients')):
            f = views[flat]
            ps = [p for p in V if p[1] == cat]
            tot = 0
            for p in ps:
                tot = tot + V[p].size
            ctx.check(len(f.shape) == 1, flat + ' is flat')
            ctx.check(f.shape[0] == tot, 'size of ' + flat)
            for p in ps:
                v = V[p]
                ctx.check(ctx.And(
                    v.start + v.ivs[0][0] >= f.start + f.ivs[0][0],
                    v.start + v.ivs[0][1] <= f.start + f.ivs[0][1]),
                    '%s contains %s' % (flat, '.'.join(p)))
        for p in V:
            if p[1] != 'parameters':
                continue
            g = V[(p[0], 'gradients', p[2])]
            po = V[p].start + V[p].ivs[0][0]
            go = g.start + g.ivs[0][0]
            pf, gf = views.parameters, views.gradients
            ctx.check(po - (pf.start + pf.ivs[0][0]) ==
                      go - (gf.start + gf.ivs[0][0]),
                      'gradient of %s.%s at the offset of its parameter' %
                      (p[0], p[2]))
    return fn


def check_sink(ctx, sink, srcs, name, T):
    tot = 0
    for v, sn in srcs:
        ctx.check(ctx.And(v.start == sink.start,
                          *[a == b for a, b in zip(v.dims, sink.dims)]),
                  '%s shares the storage of %s' % (name, sn))
        ctx.check(len(v.dims) == len(sink.dims), 'rank')
        ctx.check(ctx.And(sink.ivs[-1][0] <= v.ivs[-1][0],
                          v.ivs[-1][1] <= sink.ivs[-1][1]),
                  '%s contains %s' % (name, sn))
        for (a, b), (c, d) in list(zip(sink.ivs, v.ivs))[:-1]:
            ctx.check(ctx.And(a == c, b <= d), '%s rows of %s' % (name, sn))
        tot = tot + (v.ivs[-1][1] - v.ivs[-1][0])
    ctx.check(sink.ivs[-1][1] - sink.ivs[-1][0] == tot,
              '%s has exactly the features of its sources' % name)
    if len(sink.dims) == 3:
        ctx.check(sink.shape[0] == T, '%s covers all time steps' % name)


# ---------------------------------------------------------------- real ------
def real_body(ctx, tname, size, T, B):
    """the same statement on real arrays: address = identity of storage"""
    from symx.layers import make_handler
    from brainstorm.structure.layout import create_layout
    from brainstorm.structure.buffers import BufferManager
    topo = topologies()[tname]
    T, B = int(T), int(B)
    cache = {}

    def sz(k):
        if k not in cache:
            cache[k] = int(size(k))
        return cache[k]
    arch, layers, S = instantiate(topo, sz)
    hubs, layout = create_layout(layers)
    bm = BufferManager(layout, hubs, handler=make_handler(ctx))
    bm.resize(1, 1)
    views = bm.resize(T, B)
    lv = leaves(topo)
    full = bm.full_buffer
    # number every element of the storage through the sources
    owner = {}

    def cells(v):
        base = full.__array_interface__['data'][0]
        a = np.asarray(v)
        off = a.__array_interface__['data'][0] - base
        addr = np.zeros(a.shape, dtype=int) + off
        for d, st in enumerate(a.strides):
            shp = [1] * a.ndim
            shp[d] = a.shape[d]
            addr = addr + (np.arange(a.shape[d]) * st).reshape(shp)
        return addr
    A = {}
    for path, shp, c in lv:
        v = view(views, path)
        want = tuple(T + c if s == 'T' else B if s == 'B' else s
                     for s in S(shp))
        ctx.check(tuple(v.shape) == want, 'shape of %s: %s != %s' % (
            '.'.join(path), v.shape, want))
        A[path] = cells(v)
        ctx.check(A[path].size == 0 or
                  (A[path].min() >= 0 and
                   A[path].max() < full.size * full.itemsize),
                  'inside the allocation: %s' % '.'.join(path))
        for x in A[path].ravel():
            ctx.check(x not in owner, 'disjoint storage: %s / %s' % (
                '.'.join(path), owner.get(x)))
            owner[x] = '.'.join(path)
    for n, l in layers.items():
        for inp in l.in_shapes:
            srcs = sources_of(topo, n, inp)
            for ci, co in (('inputs', 'outputs'),
                           ('input_deltas', 'output_deltas')):
                s = cells(view(views, (n, ci, inp)))
                rows = s.shape[0]
                want = set()
                for sn, o in srcs:
                    a = A[(sn, co, o)]
                    sp = [x for x in topo[sn]['outs'] if x[0] == o][0][1]
                    if sp[0] == 'T':
                        a = a[:T]
                    want |= set(a.ravel())
                ctx.check(set(s.ravel()) == want and s.size == len(want),
                          '%s.%s.%s is exactly its sources' % (n, ci, inp))
    for cat in ('parameters', 'gradients'):
        f = cells(views[cat]).ravel()
        want = [x for p in A if p[1] == cat for x in A[p].ravel()]
        ctx.check(sorted(f) == sorted(want), cat + ' covers all')
    pf, gf = cells(views.parameters).ravel(), cells(views.gradients).ravel()
    pos_p = {x: i for i, x in enumerate(pf)}
    pos_g = {x: i for i, x in enumerate(gf)}
    for p in A:
        if p[1] == 'parameters':
            g = A[(p[0], 'gradients', p[2])]
            ctx.check([pos_p[x] for x in A[p].ravel()] ==
                      [pos_g[x] for x in g.ravel()],
                      'gradient of %s.%s aligned' % (p[0], p[2]))


def real_case(tname, sizes=(1, 2)):
    def fn(ctx):
        real_body(ctx, tname, lambda k: ctx.choose(k, sizes),
                  ctx.choose('T', sizes), ctx.choose('B', sizes))
    return fn


def concat_values(multi):
    """what a consumer reads = concatenation of its sources along the last
    feature dimension (in some order)"""
    def fn(ctx):
        from symx.netlib import make_net, make_data
        import brainstorm.layers as l
        shp = (2, 1) if multi else (2,)

        def build():
            i = l.Input(out_shapes={'a': ('T', 'B') + shp,
                                    'b': ('T', 'B') + shp})
            n = l.NoOp(name='n')
            i - 'a' >> n
            i - 'b' >> n
            return i
        net = make_net(ctx, build)
        d = make_data(ctx, {'a': shp, 'b': shp}, 2, 2)
        net.provide_external_data(d)
        net.forward_pass()
        x = net.buffer.n.inputs.default
        k = shp[-1]
        ctx.eq(x[..., :k], d['a'], 'first source')
        ctx.eq(x[..., k:], d['b'], 'second source')
    return fn


def cases(tier):
    C = []
    for t in topologies():
        if t in ('deep', 'wide'):
            C.append(Case('real-' + t, real_case(t, [1, 3]), bounds='sizes '
                          '1 or 3, T, B in 1..3, 13 layers', weight=3))
            if tier == 'thorough':
                C.append(Case('sym-' + t, sym_case(t, False), bounds='all '
                              'sizes, T, B >= 1, 13 layers', weight=9,
                              tries=5))
            continue
        C.append(Case('sym-' + t, sym_case(t, False),
                      bounds='all sizes, T, B >= 1', weight=5, tries=5))
        C.append(Case('sym-resize-' + t, sym_case(t, True),
                      bounds='all sizes, two resizes, T, B >= 1', weight=5,
                      tries=5))
        if tier == 'thorough' or t not in ('context-mix', 'concat-perm'):
            C.append(Case('real-' + t, real_case(t), bounds='sizes, T, B in '
                          '1..2', weight=3))
    C.append(Case('concat-values', concat_values(False), bounds='T=B=2'))
    C.append(Case('concat-values-multidim', concat_values(True),
                  bounds='T=B=2'))
    return C

"""C22: shapes of outputs and parameters are right for all sizes, and
configurations that cannot work are refused."""
import itertools

from symx.runner import Case

ASSUMPTIONS = [
    'feature sizes, layer sizes, kernel sizes, paddings and strides are '
    'unbounded integers (strides up to 4 for convolution and pooling; '
    'kernel and feature sizes at least 1), up to three feature dimensions',
]


def shadow(ctx):
    if not ctx.symbolic:
        return
    import builtins
    import sys
    from symx import core, npproxy
    import brainstorm.layers                                       # noqa
    mods = [m for m in sys.modules if m.startswith('brainstorm.layers.') or
            m in ('brainstorm.structure.buffer_structure',)]
    npproxy.shadow_int('brainstorm.structure.buffer_structure')

    def type_(x):
        if builtins.type(x) is core.SI:
            return builtins.int
        return builtins.type(x)
    for m in mods:
        if '.tests' not in m:
            sys.modules[m].__dict__['type'] = type_


def BS(*shape):
    from brainstorm.structure.buffer_structure import BufferStructure
    return BufferStructure(*shape)


def make(typename, ins, **kw):
    """the layer, or None if it is refused"""
    from brainstorm.layers.base_layer import get_layer_class_from_typename
    cls = get_layer_class_from_typename(typename + 'LayerImpl')
    try:
        return cls('x', {k: BS('T', 'B', *v) if v and v[0] not in
                         ('T', 'B', 'plain') else BS(*v[1:])
                         if v[0] == 'plain' else BS(*v)
                         for k, v in ins.items()}, set(), set(), **kw)
    except Exception as e:
        if type(e).__name__ in ('Inconclusive', 'Infeasible', 'Violation') or \
                not isinstance(e, Exception):
            raise
        return None


def dims(ctx, name, n):
    return tuple(ctx.int('%s%d' % (name, i), 1, None) for i in range(n))


def prod(xs):
    p = 1
    for x in xs:
        p = p * x
    return p


def same(ctx, got, want, what):
    got = tuple(got)
    ctx.check(len(got) == len(want), '%s: number of dimensions (%d, expected '
              '%d)' % (what, len(got), len(want)))
    for g, w in zip(got, want):
        if isinstance(w, str) or isinstance(g, str):
            ctx.check(type(g) is type(w) and g == w, what)
    ctx.check(ctx.And(*[g == w for g, w in zip(got, want)
                        if not isinstance(w, str)]), what)


def compare(ctx, layer, outs, params, what):
    ctx.check(set(layer.out_shapes) == set(outs), what + ': outputs')
    for k, w in outs.items():
        same(ctx, layer.out_shapes[k].shape, w, '%s: shape of output %s' %
             (what, k))
    ctx.check(set(layer.parameter_shapes) == set(params),
              what + ': parameters')
    for k, w in params.items():
        same(ctx, layer.parameter_shapes[k].shape, w,
             '%s: shape of parameter %s' % (what, k))


TB = ('T', 'B')


def lstm_params(i, n):
    p = {}
    for g in 'zifo':
        p['W' + g] = (n, i)
        p['R' + g] = (n, n)
        p['b' + g] = (n,)
        if g != 'z':
            p['p' + g] = (1, n)
    return p


def sized(typename):
    def fn(ctx):
        shadow(ctx)
        nd = ctx.choose('nd', [1, 2, 3])
        d = dims(ctx, 'in', nd)
        i = prod(d)
        given = ctx.choose('size', ['given', 'default'])
        n, kw = i, {}
        if given == 'given':
            n = ctx.int('size', 1, None)
            kw['size'] = n
        layer = make(typename, {'default': d}, **kw)
        ctx.check(layer is not None, typename + ' accepts any sizes')
        if typename in ('Recurrent', 'Clockwork'):
            p = {'W': (n, i), 'R': (n, n), 'bias': (n,)}
        else:
            p = lstm_params(i, n)
        if typename.startswith('Clockwork'):
            p['timing'] = (n,)
        compare(ctx, layer, {'default': TB + (n,)}, p, typename)
        for bad in (2.5, '3', (2, 3), None):
            ctx.check(make(typename, {'default': d}, size=bad) is None,
                      '%s refuses size=%r' % (typename, bad))
    return fn


def fully(ctx):
    shadow(ctx)
    d = dims(ctx, 'in', ctx.choose('nd', [1, 2, 3]))
    i = prod(d)
    how = ctx.choose('size', ['int', 'tuple', 'list', 'default'])
    kw, n = {}, d
    if how == 'int':
        n = dims(ctx, 'size', 1)
        kw['size'] = n[0]
    elif how != 'default':
        n = dims(ctx, 'size', ctx.choose('no', [1, 2, 3]))
        kw['size'] = list(n) if how == 'list' else n
    layer = make('FullyConnected', {'default': d}, **kw)
    ctx.check(layer is not None, 'FullyConnected accepts any sizes')
    compare(ctx, layer, {'default': TB + tuple(n)},
            {'W': (prod(n), i), 'bias': (prod(n),)}, 'FullyConnected')
    for bad in (2.5, '3', (2, 'a'), (1.5,), None):
        ctx.check(make('FullyConnected', {'default': d}, size=bad) is None,
                  'FullyConnected refuses size=%r' % (bad,))


def spatial(typename):
    def fn(ctx):
        shadow(ctx)
        h, w, c = d = dims(ctx, 'in', 3)
        k = (ctx.int('kh', 1, None), ctx.int('kw', 1, None))
        kw = {'kernel_size': k}
        if ctx.choose('list', [False, True]):
            kw['kernel_size'] = list(k)
        s, p = (1, 1), 0
        if ctx.choose('stride', ['default', 'given']) == 'given':
            s = (ctx.int('sh', -2, 4), ctx.int('sw', -2, 4))
            # concretised: the formula divides by it
            s = (ctx.choose('sh=', [-1, 0, 1, 2, 3]),
                 ctx.choose('sw=', [-1, 0, 1, 2, 4]))
            kw['stride'] = s
        if ctx.choose('padding', ['default', 'given']) == 'given':
            p = ctx.int('p', -2, None)
            kw['padding'] = p
        n = c
        if typename == 'Pooling2D':
            kw['type'] = ctx.choose('type', ['max', 'avg'])
            params = {}
        else:
            n = ctx.int('filters', 1, None)
            kw['num_filters'] = n
            params = {'W': (n, k[0], k[1], c), 'bias': (n,)}
        layer = make(typename, {'default': d}, **kw)
        ok = ctx.And(s[0] > 0, s[1] > 0, p >= 0, h + 2 * p >= k[0],
                     w + 2 * p >= k[1])
        if layer is None:
            ctx.check(ctx.Not(ok), '%s accepts every configuration whose '
                      'window fits into the padded image' % typename)
            return
        ctx.check(ok, '%s refuses windows that do not fit, non-positive '
                  'strides and negative paddings' % typename)
        shp = layer.out_shapes['default'].shape
        ctx.check(len(shp) == 5, 'rank of the output')
        oh, ow = shp[2], shp[3]
        for o, size, kk, ss, nm in ((oh, h, k[0], s[0], 'height'),
                                    (ow, w, k[1], s[1], 'width')):
            ctx.check(o >= 1, '%s: at least one window (%s)' % (typename, nm))
            ctx.check(ctx.And((o - 1) * ss + kk <= size + 2 * p,
                              size + 2 * p < o * ss + kk),
                      '%s: as many windows as fit (%s)' % (typename, nm))
        compare(ctx, layer, {'default': TB + (oh, ow, n)}, params, typename)
    return fn


def spatial_bad(typename):
    def fn(ctx):
        shadow(ctx)
        kw = {'kernel_size': (1, 1)}
        kw.update({'type': 'max'} if typename == 'Pooling2D' else
                  {'num_filters': 1})
        d = dims(ctx, 'in', 3)
        ctx.check(make(typename, {'default': d}, **kw) is not None, 'base')
        what = ctx.choose('what', ['kernel1', 'kernel3', 'kernelint',
                                   'stride1', 'stride3', 'strideint', 'pfloat',
                                   'ptuple', 'nokernel', 'noother', 'dims',
                                   'type'])
        if what == 'kernel1':
            kw['kernel_size'] = (1,)
        elif what == 'kernel3':
            kw['kernel_size'] = (1, 1, 1)
        elif what == 'kernelint':
            kw['kernel_size'] = 1
        elif what == 'stride1':
            kw['stride'] = (1,)
        elif what == 'stride3':
            kw['stride'] = (1, 1, 1)
        elif what == 'strideint':
            kw['stride'] = 1
        elif what == 'pfloat':
            kw['padding'] = 1.5
        elif what == 'ptuple':
            kw['padding'] = (1, 1)
        elif what == 'nokernel':
            del kw['kernel_size']
        elif what == 'noother':
            kw.pop('type', None)
            kw.pop('num_filters', None)
        elif what == 'dims':
            d = dims(ctx, 'in', ctx.choose('nd', [1, 2, 4]))
        elif what == 'type':
            kw['type'] = 'median'
        ctx.check(make(typename, {'default': d}, **kw) is None,
                  '%s refuses %s' % (typename, what))
    return fn


def elementwise(ctx):
    """outputs have the shape of the input"""
    shadow(ctx)
    t, kw = ctx.choose('type', [('NoOp', {}), ('Elementwise', {}),
                                ('Dropout', {}), ('BatchNorm', {}),
                                ('DeltasScaling', {'factor': 2.0})])
    d = dims(ctx, 'in', ctx.choose('nd', [1, 2, 3]))
    layer = make(t, {'default': d}, **kw)
    ctx.check(layer is not None, t + ' accepts any sizes')
    p = {}
    if t == 'BatchNorm':
        p = {k: (d[-1],) for k in ('gamma', 'beta', 'mu', 'sigma')}
    compare(ctx, layer, {'default': TB + d}, p, t)


def batchnorm_decay(ctx):
    shadow(ctx)
    decay = ctx.real('decay')
    layer = make('BatchNorm', {'default': dims(ctx, 'in', 1)}, decay=decay)
    ok = ctx.And(decay >= 0, decay <= 1)
    ctx.check(ok if layer is not None else ctx.Not(ok), 'BatchNorm takes '
              'exactly decays from 0 to 1 (accepted: %s)' % (layer is not None))


def decay_loss(ctx):
    shadow(ctx)
    t = ctx.choose('type', ['L1Decay', 'L2Decay'])
    d = dims(ctx, 'in', ctx.choose('nd', [1, 2, 3]))
    layer = make(t, {'default': d})
    ctx.check(layer is not None, t + ' accepts any sizes')
    compare(ctx, layer, {'loss': TB + (1,)}, {}, t)


def loss(ctx):
    shadow(ctx)
    d = dims(ctx, 'in', ctx.choose('nd', [1, 2, 3]))
    pre = ctx.choose('kind', [('T', 'B'), ('B',), ('plain',)])
    layer = make('Loss', {'default': pre + d})
    ctx.check(layer is not None, 'Loss accepts inputs of any shape')
    compare(ctx, layer, {'loss': (1,)}, {}, 'Loss')


def eq_dims(ctx, a, b):
    if len(a) != len(b):
        return False
    return ctx.And(True, *[x == y for x, y in zip(a, b)])


def verdict(ctx, layer, ok, what):
    """accepted exactly if ok"""
    if layer is None:
        ctx.check(ctx.Not(ok), what + ': matching shapes are accepted')
    else:
        ctx.check(ok, what + ': shapes that do not match are refused')
    return layer is not None


def pairs(typename, one, two):
    def fn(ctx):
        shadow(ctx)
        na, nb = ctx.choose('nd', [(1, 1), (2, 2), (3, 3), (1, 2), (3, 2)])
        a, b = dims(ctx, 'a', na), dims(ctx, 'b', nb)
        layer = make(typename, {one: a, two: b})
        if not verdict(ctx, layer, eq_dims(ctx, a, b), typename):
            return
        if typename == 'SquaredDifference':
            outs = {'default': TB + a}
        elif typename == 'BinomialCrossEntropy':
            outs = {'default': TB + (1,)}
        else:
            outs = {'predictions': TB + a, 'loss': TB + a}
        compare(ctx, layer, outs, {}, typename)
    return fn


def softmax(ctx):
    shadow(ctx)
    na, nb = ctx.choose('nd', [(1, 1), (2, 2), (3, 3), (1, 2), (3, 2)])
    a, b = dims(ctx, 'a', na), dims(ctx, 't', nb)
    layer = make('SoftmaxCE', {'default': a, 'targets': b})
    ok = na == nb and ctx.And(b[-1] == 1, eq_dims(ctx, a[:-1], b[:-1]))
    if verdict(ctx, layer, ok, 'SoftmaxCE'):
        compare(ctx, layer, {'predictions': TB + a, 'loss': TB + b}, {},
                'SoftmaxCE')


def mask(ctx):
    shadow(ctx)
    na, nb = ctx.choose('nd', [(1, 1), (2, 2), (3, 3), (1, 2), (3, 1),
                               (3, 2)])
    a, b = dims(ctx, 'a', na), dims(ctx, 'm', nb)
    layer = make('Mask', {'default': a, 'mask': b})
    ok = ctx.Or(eq_dims(ctx, b, (1,)), eq_dims(ctx, b, a[:-1] + (1,)),
                eq_dims(ctx, b, a))
    if verdict(ctx, layer, ok, 'Mask'):
        compare(ctx, layer, {'default': TB + a}, {}, 'Mask')


def merge(ctx):
    shadow(ctx)
    na, nb = ctx.choose('nd', [(1, 1), (2, 2), (3, 3), (1, 2), (3, 2)])
    a, b = dims(ctx, 'a', na), dims(ctx, 'b', nb)
    layer = make('Merge', {'inputs_1': a, 'inputs_2': b})
    ok = na == nb and eq_dims(ctx, a[:-1], b[:-1])
    if verdict(ctx, layer, ok, 'Merge'):
        compare(ctx, layer, {'default': TB + a[:-1] + (a[-1] + b[-1],)}, {},
                'Merge')


def highway(ctx):
    shadow(ctx)
    n = ctx.choose('nd', [(1, 1, 1), (2, 2, 2), (1, 2, 2), (2, 2, 1)])
    a, b, c = [dims(ctx, nm, k) for nm, k in zip('HTx', n)]
    layer = make('Highway', {'H': a, 'T': b, 'x': c})
    ok = ctx.And(eq_dims(ctx, a, b), eq_dims(ctx, a, c))
    if verdict(ctx, layer, ok, 'Highway'):
        compare(ctx, layer, {'default': TB + a}, {}, 'Highway')


def combine(n):
    """several sources of one input"""
    def fn(ctx):
        shadow(ctx)
        from brainstorm.structure.buffer_structure import \
            combine_buffer_structures
        pre = [ctx.choose('kind%d' % i, [('T', 'B'), ('B',), ()])
               if i < 2 else ('T', 'B') for i in range(n)]
        nd = [ctx.choose('nd%d' % i, [1, 2, 3] if i < 1 else [1, 2])
              for i in range(n)]
        ds = [dims(ctx, 'abc'[i], nd[i]) for i in range(n)]
        try:
            r = combine_buffer_structures([BS(*(p + d)) for p, d in
                                           zip(pre, ds)])
        except Exception as e:
            if type(e).__name__ in ('Inconclusive', 'Infeasible',
                                    'Violation'):
                raise
            r = None
        ok = len(set(pre)) == 1 and len(set(nd)) == 1 and \
            ctx.And(True, *[eq_dims(ctx, d[:-1], ds[0][:-1]) for d in ds])
        if verdict(ctx, r, ok, 'concatenation of inputs'):
            tot = 0
            for d in ds:
                tot = tot + d[-1]
            same(ctx, r.shape, pre[0] + ds[0][:-1] + (tot,),
                 'shape of concatenated inputs')
    return fn


def structure(ctx):
    """which shapes are valid at all, and which array they stand for"""
    shadow(ctx)
    n = ctx.choose('n', [0, 1, 2, 3, 4])
    toks = []
    for i in range(n):
        t = ctx.choose('t%d' % i, ['T', 'B', 'int', 'F', 'float'] if i < 3
                       else ['B', 'int', 'F'])
        toks.append(t)
    vals = [ctx.int('d%d' % i, 1, None) if t == 'int' else 2.5
            if t == 'float' else t for i, t in enumerate(toks)]
    rest = list(toks)
    kind = 0
    if rest[:2] == ['T', 'B']:
        rest, kind = rest[2:], 2
    elif rest[:1] == ['B']:
        rest, kind = rest[1:], 1
    ok = len(rest) > 0 and all(t == 'int' for t in rest)
    c = ctx.int('context', -1, 3)
    try:
        s = BS(*vals)
    except Exception as e:
        if type(e).__name__ in ('Inconclusive', 'Infeasible', 'Violation'):
            raise
        s = None
    if s is None:
        ctx.check(not ok, 'shape %s is valid' % toks)
        return
    ctx.check(ok, 'shape %s is refused' % toks)
    from brainstorm.structure.buffer_structure import BufferStructure
    f = tuple(vals[kind:])
    same(ctx, s.feature_shape, f, 'feature shape')
    ctx.check(s.feature_size == prod(f), 'feature size')
    ctx.check(s.scales_with_time == (kind == 2), 'scales with time')
    ctx.check(s.scales_with_batch_size == (kind > 0), 'scales with batches')
    T, B = ctx.int('T', 0, None), ctx.int('B', 0, None)
    same(ctx, s.get_shape(T, B), [(), (B,), (T, B)][kind] + f, 'array shape')
    try:
        s = BufferStructure(*vals, context_size=c)
    except Exception as e:
        if type(e).__name__ in ('Inconclusive', 'Infeasible', 'Violation'):
            raise
        s = None
    okc = ctx.And(c >= 0, ctx.Or(c == 0, kind == 2))
    if s is None:
        ctx.check(ctx.Not(okc), 'context sizes are accepted')
        return
    ctx.check(okc, 'only buffers that scale with time have a context')
    same(ctx, s.get_shape(T, B), [(), (B,), (T + c, B)][kind] + f,
         'array shape with context')


def input_layer(ctx):
    shadow(ctx)
    a = dims(ctx, 'a', ctx.choose('na', [1, 2, 3]))
    b = dims(ctx, 'b', ctx.choose('nb', [1, 2]))
    kinds = [('T', 'B'), ('B',), ()]
    ka, kb = ctx.choose('ka', kinds), ctx.choose('kb', kinds)
    layer = make('Input', {}, out_shapes={'default': ka + a,
                                          'targets': kb + b})
    ctx.check(layer is not None, 'Input accepts any shapes')
    compare(ctx, layer, {'default': ka + a, 'targets': kb + b}, {}, 'Input')
    ctx.check(make('Input', {}) is None, 'Input needs out_shapes')
    ctx.check(make('Input', {'default': (1,)},
                   out_shapes={'default': ('T', 'B', 1)}) is None,
              'Input takes no inputs')


def templates(ctx):
    """inputs that do not scale as required are refused"""
    shadow(ctx)
    one, kw = ctx.choose('type', [
        ('FullyConnected', {'size': 1}), ('Recurrent', {'size': 1}),
        ('Lstm', {'size': 1}), ('Clockwork', {'size': 1}),
        ('ClockworkLstm', {'size': 1}), ('NoOp', {}), ('Elementwise', {}),
        ('Dropout', {}), ('BatchNorm', {}), ('L1Decay', {}), ('L2Decay', {}),
        ('DeltasScaling', {'factor': 1.0}),
        ('Convolution2D', {'num_filters': 1, 'kernel_size': (1, 1)}),
        ('Pooling2D', {'type': 'max', 'kernel_size': (1, 1)})])
    nd = 3 if one.endswith('2D') else 1
    d = dims(ctx, 'in', nd)
    ctx.check(make(one, {'default': d}, **kw) is not None, 'base')
    for pre in (('B',), ('plain',)):
        ctx.check(make(one, {'default': pre + d}, **kw) is None,
                  '%s refuses inputs that do not scale with time and batch'
                  % one)
    ctx.check(make(one, {'default': d, 'other': d}, **kw) is None and
              make(one, {'other': d}, **kw) is None and
              make(one, {}, **kw) is None,
              one + ' refuses unknown and missing inputs')
    ctx.check(make(one, {'default': d}, vp_unknown=1, **kw) is None,
              one + ' refuses unknown arguments')


def cases(tier):
    out = []
    for t in ('Recurrent', 'Clockwork', 'Lstm', 'ClockworkLstm'):
        out.append(Case('sized ' + t, sized(t), {'feature dims': 3}))
    out.append(Case('FullyConnected', fully, {'feature dims': 3}))
    for t in ('Convolution2D', 'Pooling2D'):
        out.append(Case('spatial ' + t, spatial(t), {
            'sizes, kernels, paddings': 'unbounded', 'stride': '-1..4'},
            weight=9))
        out.append(Case('refusals ' + t, spatial_bad(t), {}))
    for t, a, b in (('SquaredError', 'default', 'targets'),
                    ('SigmoidCE', 'default', 'targets'),
                    ('BinomialCrossEntropy', 'default', 'targets'),
                    ('SquaredDifference', 'inputs_1', 'inputs_2')):
        out.append(Case('pairs ' + t, pairs(t, a, b), {'feature dims': 3}))
    for f in (elementwise, batchnorm_decay, decay_loss, loss, softmax, mask,
              merge, highway, structure, input_layer, templates):
        out.append(Case(f.__name__.replace('_', ' '), f, {'feature dims': 3},
                        weight=2))
    out.append(Case('combine[2]', combine(2), {'sources': 2}, weight=3))
    out.append(Case('combine[3]', combine(3), {'sources': 3}, weight=5))
    return out

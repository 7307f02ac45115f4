"""C01: every layer's backward pass is the exact gradient of its forward."""
import numpy as np

from symx.gradlib import grad_case, sparse, NO
from symx.runner import Case

ASSUMPTIONS = [
    'sigmoid is summarised by an atom s(x) with s\' = s(1-s); the lemma '
    'cases discharge that summary against the handler implementation',
    'output deltas, inputs, parameters, previously accumulated input deltas '
    'and recurrent context are arbitrary reals; tensor sizes are bounded as '
    'listed per case',
    'documented exclusions: cross-entropy gradients where the loss is clipped '
    '(probability < 1e-6), max-pool ties, |x| kinks, inputs declared '
    'gradient-free by the layer',
    'dropout: the random draw is an arbitrary value in [0,1]',
]


def BS(*shape):
    from brainstorm.structure.buffer_structure import BufferStructure
    return BufferStructure(*shape)


def mk(module, cls, ins, **kw):
    def factory():
        import importlib
        m = importlib.import_module('brainstorm.layers.' + module)
        C = getattr(m, cls)
        return C('L', {k: BS(*s) for k, s in ins.items()}, NO, NO, **kw)
    return factory


def const(v):
    def f(ctx, shape):
        return ctx.to_obj(np.array(v, dtype=float).reshape(shape))
    return f


def classes(n):
    def f(ctx, shape):
        a = np.empty(shape, dtype=object)
        for j, i in enumerate(np.ndindex(*shape)):
            a[i] = ctx.choose('target%d' % j, list(range(n)))
        return ctx.to_obj(a.astype(float))
    return f


def binary(ctx, shape):
    a = np.empty(shape, dtype=object)
    for j, i in enumerate(np.ndindex(*shape)):
        a[i] = ctx.choose('target%d' % j, [0, 1])
    return ctx.to_obj(a.astype(float))


def unit(name):
    def f(ctx, shape):
        a = np.empty(shape, dtype=ctx.dtype)
        for i in np.ndindex(*shape):
            a[i] = ctx.real(name + '_'.join(map(str, i)), 0.01, 0.99)
        return a
    return f


def nonzero(name):
    def f(ctx, shape):
        a = ctx.arr(name, shape)
        for x in a.ravel():
            ctx.assume(ctx.Or(x > 0.01, x < -0.01))
        return a
    return f


def away_from(name, gap=0.01, bound=1e6):
    """pairwise distinct, finite entries (no ties)"""
    def f(ctx, shape):
        a = ctx.arr(name, shape)
        flat = list(a.ravel())
        for i, x in enumerate(flat):
            ctx.assume(ctx.And(x > -bound, x < bound))
            for y in flat[:i]:
                ctx.assume(ctx.Or(x - y > gap, y - x > gap))
        return a
    return f


def unclipped(ctx, layer, b):
    p = b.outputs.predictions
    for x in p.ravel():
        ctx.assume(x > 0.00001)
        ctx.assume(x < 1 - 0.00001)


def unclipped_softmax(ctx, layer, b):
    p = b.outputs.predictions
    for x in p.ravel():
        ctx.assume(x > 0.00001)


TB = ('T', 'B')


def cases(tier):
    C = []

    def add(name, factory, T, B, bounds='', weight=1, max_paths=20000,
            tol=1e-4, **kw):
        C.append(Case(name, grad_case(factory, T, B, **kw),
                      bounds='T=%d B=%d %s' % (T, B, bounds), weight=weight,
                      max_paths=max_paths, tol=tol))
    thorough = tier == 'thorough'
    acts = ['linear', 'tanh', 'sigmoid', 'rel', 'el']
    fc = lambda **kw: mk('fully_connected_layer', 'FullyConnectedLayerImpl',
                         {'default': TB + (2,)}, **kw)
    kink = {'rel', 'el'}
    for a in acts:
        add('fc-' + a, fc(size=2, activation=a), 1, 2, 'in 2 out 2 ' + a)
        add('fc-%s-T2' % a, fc(size=1, activation=a), 2, 2, 'in 2 out 1 ' + a)
        add('elementwise-' + a, mk(
            'elementwise_layer', 'ElementwiseLayerImpl',
            {'default': TB + (1, 2)}, activation=a), 2, 1, 'features (1,2)')
        add('rnn-' + a, mk('recurrent_layer', 'RecurrentLayerImpl',
                           {'default': TB + (2,)}, size=2, activation=a),
            2, 1, 'in 2 size 2 ' + a, weight=5)
        add('rnn-ctx-' + a, mk('recurrent_layer', 'RecurrentLayerImpl',
                               {'default': TB + (1,)}, size=1, activation=a),
            3, 2 if a not in kink else 1, 'size 1, arbitrary context',
            context=True, weight=5)
        add('conv-act-' + a, mk(
            'convolution_layer_2d', 'Convolution2DLayerImpl',
            {'default': TB + (2, 2, 1)}, num_filters=1, kernel_size=(2, 1),
            activation=a), 1, 1, '2x2x1 image, kernel 2x1, ' + a)
    add('fc-2d', mk('fully_connected_layer', 'FullyConnectedLayerImpl',
                    {'default': TB + (2, 2)}, size=(2, 1, 2),
                    activation='tanh'), 2, 1, 'in (2,2) out (2,1,2)')
    add('rnn-T4', mk('recurrent_layer', 'RecurrentLayerImpl',
                     {'default': TB + (1,)}, size=1, activation='tanh'),
        4, 2, 'size 1', context=True, weight=10)
    add('rnn-T1', mk('recurrent_layer', 'RecurrentLayerImpl',
                     {'default': TB + (2,)}, size=2, activation='tanh'),
        1, 2, 'size 2, single step', context=True)
    L = lambda **kw: mk('lstm_layer', 'LstmLayerImpl',
                        {'default': TB + (1,)}, **kw)
    add('lstm-T2', L(size=1, activation='tanh'), 2, 2, 'size 1', weight=20)
    add('lstm-T2-s2', L(size=2, activation='tanh'), 2, 1, 'size 2', weight=30)
    add('lstm-T3', L(size=1, activation='tanh'), 3, 1, 'size 1', weight=60)
    add('lstm-ctx', L(size=1, activation='tanh'), 2, 2,
        'size 1, arbitrary context', context=True, weight=30)
    add('lstm-ctx-T1', L(size=2, activation='tanh'), 1, 2,
        'size 2, arbitrary context', context=True, weight=30)
    add('lstm-rel', L(size=1, activation='rel'), 2, 1, 'size 1 rel',
        weight=30)
    add('lstm-linear', L(size=1, activation='linear'), 2, 1, 'size 1 linear')
    add('lstm-sigmoid', L(size=1, activation='sigmoid'), 2, 1,
        'size 1 sigmoid')
    tim = lambda *v: {'timing': const(v)}
    for nm, mod, cls in (('cw', 'clockwork_layer', 'ClockworkLayerImpl'),
                         ('cwlstm', 'clockwork_lstm_layer',
                          'ClockworkLstmLayerImpl')):
        K = lambda size, act='tanh', m=mod, c=cls: mk(
            m, c, {'default': TB + (1,)}, size=size, activation=act)
        add(nm + '-t12', K(2), 2, 1, 'size 2 timing 1,2',
            special=tim(1, 2), weight=30)
        add(nm + '-t2-T3', K(1), 3, 1, 'size 1 timing 2', special=tim(2),
            weight=40)
        add(nm + '-t2-B2', K(1), 2, 2, 'size 1 timing 2', special=tim(2),
            weight=40)
        add(nm + '-t3-T4', K(1), 4, 1, 'size 1 timing 3', special=tim(3),
            weight=40)
        add(nm + '-t1-T2', K(1), 2, 2, 'size 1 timing 1', special=tim(1),
            weight=20)
        add(nm + '-t12-T3', K(2), 3, 1, 'size 2 timing 2,1',
            special=tim(2, 1), weight=100)
        add(nm + '-ctx', K(1), 2, 1, 'size 1 timing 2, arbitrary context',
            special=tim(2), context=True, weight=20)
        add(nm + '-rel', K(1, 'rel'), 2, 1, 'size 1 timing 1 rel',
            special=tim(1), weight=20)
    add('highway', mk('highway_layer', 'HighwayLayerImpl',
                      {'H': TB + (2, 1), 'T': TB + (2, 1),
                       'x': TB + (2, 1)}), 2, 1, 'features (2,1)')
    for p in (0.5, 0.2):
        add('dropout-%s' % p, mk('dropout_layer', 'DropoutLayerImpl',
                                 {'default': TB + (2,)}, drop_prob=p),
            2, 1, 'features 2, drop_prob %s' % p)
    for shp, m in (((2, 2), (1,)), ((2, 2), (2, 1)), ((2, 2), (2, 2)),
                   ((3,), (1,))):
        add('mask-%s-%s' % (shp, m), mk(
            'mask_layer', 'MaskLayerImpl',
            {'default': TB + shp, 'mask': TB + m}), 2, 2, 'features %s mask '
            '%s' % (shp, m))
    add('merge', mk('merge_layer', 'MergeLayerImpl',
                    {'inputs_1': TB + (2, 1), 'inputs_2': TB + (2, 2)}),
        2, 2, 'features (2,1)+(2,2)')
    add('merge-1d', mk('merge_layer', 'MergeLayerImpl',
                       {'inputs_1': TB + (3,), 'inputs_2': TB + (1,)}),
        1, 2, 'features 3+1')
    add('merge-B', mk('merge_layer', 'MergeLayerImpl',
                      {'inputs_1': ('B', 3), 'inputs_2': ('B', 1)}),
        1, 2, 'features 3+1, no time')
    add('noop', mk('noop_layer', 'NoOpLayerImpl', {'default': TB + (2, 2)}),
        2, 2, 'features (2,2)')
    for nm, shp in (('tb', TB + (2,)), ('b', ('B', 3)), ('plain', (3, 2))):
        for imp in (None, 0.25):
            kw = {} if imp is None else {'importance': imp}
            add('loss-%s-%s' % (nm, imp), mk(
                'loss_layer', 'LossLayerImpl', {'default': shp}, **kw),
                3, 2, 'shape %s' % (shp,), unit_deltas=True)
    for f in (-1.0, 0.3):
        add('deltas-scaling-%s' % f, mk(
            'deltas_scaling_layer', 'DeltasScalingLayerImpl',
            {'default': TB + (2,)}, factor=f), 2, 1, 'factor %s' % f,
            scale_deltas=f)
    convs = [((3, 3, 1), 1, (2, 2), (1, 1), 0, 1), ((3, 4, 2), 2, (2, 3), (1, 1), 0, 1),
             ((3, 3, 1), 2, (2, 2), (2, 1), 1, 2), ((4, 3, 1), 1, (3, 2), (1, 2), 1, 1),
             ((2, 2, 2), 2, (1, 1), (1, 1), 0, 2), ((4, 4, 1), 1, (2, 2), (2, 2), 0, 1),
             ((2, 3, 1), 1, (2, 2), (1, 1), 2, 1), ((5, 3, 1), 1, (2, 2), (3, 2), 1, 1)]
    for n, (ish, nf, ks, st, pad, B) in enumerate(convs):
        add('conv-%d' % n, mk(
            'convolution_layer_2d', 'Convolution2DLayerImpl',
            {'default': TB + ish}, num_filters=nf, kernel_size=ks, stride=st,
            padding=pad, activation='linear'), 1, B,
            'image %s filters %d kernel %s stride %s pad %d' % (
                ish, nf, ks, st, pad), weight=5)
    add('conv-T2', mk(
        'convolution_layer_2d', 'Convolution2DLayerImpl',
        {'default': TB + (2, 2, 1)}, num_filters=1, kernel_size=[2, 2],
        activation='tanh'), 2, 2, 'image 2x2x1')
    pools = [((3, 3, 1), (2, 2), (1, 1), 0, 1), ((3, 2, 2), (2, 2), (1, 2), 0, 1),
             ((2, 2, 1), (2, 2), (1, 1), 1, 1), ((3, 3, 1), (2, 2), (2, 2), 1, 1),
             ((2, 4, 1), (1, 3), (1, 2), 1, 1), ((2, 2, 1), (2, 1), (2, 1), 0, 2),
             ((5, 2, 1), (2, 2), (3, 1), 0, 1),
             ((2, 3, 1), (2, 2), (1, 1), 0, 1),
             ((2, 2, 2), (2, 1), (1, 1), 0, 1)]
    for n, (ish, ks, st, pad, B) in enumerate(pools):
        for ty in ('max', 'avg'):
            if ty == 'max' and n < 2 and not thorough:
                continue
            add('pool-%s-%d' % (ty, n), mk(
                'pooling_layer_2d', 'Pooling2DLayerImpl',
                {'default': TB + ish}, kernel_size=ks, stride=st, padding=pad,
                type=ty), 1, B, 'image %s window %s stride %s pad %d' % (
                    ish, ks, st, pad), weight=10 if ty == 'max' else 2,
                special={'default': away_from('x.default')}
                if ty == 'max' else None)
    for n, (shp, T, B) in enumerate([((1,), 1, 3), ((2,), 1, 2), ((2,), 2, 1),
                                     ((2, 1), 1, 1), ((2, 1, 1), 1, 2)]):
        add('batchnorm-%d' % n, mk(
            'batch_normalization_layer', 'BatchNormLayerImpl',
            {'default': TB + shp}), T, B, 'features %s' % (shp,),
            frozen=('mu', 'sigma'))
    add('batchnorm-eps', mk(
        'batch_normalization_layer', 'BatchNormLayerImpl',
        {'default': TB + (1,)}, epsilon=0.5, decay=0.3), 1, 2,
        'features 1, epsilon 0.5 decay 0.3', frozen=('mu', 'sigma'))
    for shp, tsh, T, B in (((3,), (1,), 1, 1), ((2,), (1,), 2, 1),
                           ((2, 2), (2, 1), 1, 1), ((2,), (1,), 1, 2)):
        add('softmaxce-%s-%d%d' % (shp, T, B), mk(
            'softmax_ce_layer', 'SoftmaxCELayerImpl',
            {'default': TB + shp, 'targets': TB + tsh}), T, B,
            'classes %d' % shp[-1], special={'targets': classes(shp[-1])},
            post=unclipped_softmax, weight=10)
    for shp, T, B in (((2,), 1, 1), ((1, 2), 1, 1), ((1,), 2, 2), ((1,), 1, 2)):
        add('sigmoidce-%s-%d%d' % (shp, T, B), mk(
            'sigmoid_ce_layer', 'SigmoidCELayerImpl',
            {'default': TB + shp, 'targets': TB + shp}), T, B,
            'features %s' % (shp,), special={'targets': binary},
            post=unclipped)
        add('binomialce-%s-%d%d' % (shp, T, B), mk(
            'binomial_cross_entropy_layer', 'BinomialCrossEntropyLayerImpl',
            {'default': TB + shp, 'targets': TB + shp}), T, B,
            'features %s' % (shp,), special={
                'targets': binary, 'default': unit('x.default')})
    for shp, T, B in (((2, 1), 2, 1), ((1,), 2, 2), ((3,), 1, 1)):
        add('squareddiff-%s-%d%d' % (shp, T, B), mk(
            'squared_difference_layer', 'SquaredDifferenceLayerImpl',
            {'inputs_1': TB + shp, 'inputs_2': TB + shp}), T, B,
            'features %s' % (shp,))
        add('squarederror-%s-%d%d' % (shp, T, B), mk(
            'squared_error_layer', 'SquaredErrorLayerImpl',
            {'default': TB + shp, 'targets': TB + shp}), T, B,
            'features %s' % (shp,))
        add('l1decay-%s-%d%d' % (shp, T, B), mk(
            'l1_decay', 'L1DecayLayerImpl', {'default': TB + shp}), T, B,
            'features %s' % (shp,), special={'default': nonzero('x.default')})
        add('l2decay-%s-%d%d' % (shp, T, B), mk(
            'l2_decay', 'L2DecayLayerImpl', {'default': TB + shp}), T, B,
            'features %s' % (shp,))
    C += lemma_cases()
    C += big_cases()
    if thorough:
        add('lstm-T3-s2', L(size=2, activation='tanh'), 3, 1, 'size 2',
            weight=400)
        add('lstm-T4', L(size=1, activation='tanh'), 4, 1, 'size 1',
            weight=900)
        add('lstm-ctx-T3', L(size=1, activation='tanh'), 3, 1,
            'size 1, arbitrary context', context=True, weight=200)
        add('rnn-T5', mk('recurrent_layer', 'RecurrentLayerImpl',
                         {'default': TB + (1,)}, size=1, activation='tanh'),
            5, 2, 'size 1', context=True, weight=50)
        add('rnn-T3-s2', mk('recurrent_layer', 'RecurrentLayerImpl',
                            {'default': TB + (2,)}, size=2,
                            activation='tanh'), 3, 2, 'size 2', context=True,
            weight=50)
    return C


def lemma_cases():
    """The sigmoid summary against the real handler code."""
    def sig(ctx):
        from brainstorm.handlers import NumpyHandler
        h = NumpyHandler(ctx.dtype)
        x = ctx.arr('x', (2,))
        y = ctx.to_obj(np.zeros(2))
        x0 = x.copy()
        h.sigmoid(x, y)
        ctx.eq(x, x0, 'sigmoid changed its input')
        dy = ctx.arr('dy', (2,))
        dx = ctx.to_obj(np.zeros(2))
        h.sigmoid_deriv(x, y, dy, dx)
        for i in range(2):
            # y is the logistic function: e^x/(1+e^x) or 1/(1+e^-x)
            if ctx.symbolic:
                core = ctx.core
                e, em = ctx.exp(x[i]), ctx.exp(-x[i])
                ctx.assume(e * em == 1)
                ctx.eq1(y[i] * (1 + e), e, 'sigmoid')
                d = core.backprop([(y[i], dy[i])], [x[i]])[0]
                ctx.eq1(dx[i], d, 'sigmoid derivative')
            else:
                s = ctx.sigmoid(x[i])
                ctx.eq(y[i], s, 'sigmoid')
                ctx.eq(dx[i], dy[i] * s * (1 - s), 'sigmoid derivative')
    return [Case('lemma-sigmoid', sig, bounds='any real, both branches')]


def big_cases():
    """sizes well beyond the other cases: most numbers are fixed, some of
    every array are arbitrary"""
    C = []

    def add(name, factory, T, B, bounds='', weight=5, symbols=1, zero=(),
            tol=1e-4, **kw):
        C.append(Case('big-' + name, sparse(grad_case(factory, T, B, **kw),
                                            symbols, zero),
                      bounds='T=%d B=%d %s, %d arbitrary entries per array' % (
                          T, B, bounds, symbols), weight=weight, tol=tol))
    for a in ('linear', 'tanh', 'sigmoid'):
        add('fc-' + a, mk('fully_connected_layer', 'FullyConnectedLayerImpl',
                          {'default': TB + (3, 2)}, size=(2, 4),
                          activation=a), 5, 4, 'in (3,2) out (2,4) ' + a)
        add('elementwise-' + a, mk(
            'elementwise_layer', 'ElementwiseLayerImpl',
            {'default': TB + (3, 3)}, activation=a), 6, 5, 'features (3,3)',
            symbols=3)
    add('rnn', mk('recurrent_layer', 'RecurrentLayerImpl',
                  {'default': TB + (4,)}, size=3, activation='linear'),
        5, 3, 'in 4 size 3 linear', context=True)
    add('rnn-tanh', mk('recurrent_layer', 'RecurrentLayerImpl',
                       {'default': TB + (2,)}, size=4, activation='tanh'),
        6, 2, 'in 2 size 4', zero=('w.',))
    add('lstm', mk('lstm_layer', 'LstmLayerImpl', {'default': TB + (3,)},
                   size=3, activation='linear'), 3, 3, 'in 3 size 3',
        zero=('w.',))
    tim = lambda *v: {'timing': const(v)}
    for nm, mod, cls in (('cw', 'clockwork_layer', 'ClockworkLayerImpl'),
                         ('cwlstm', 'clockwork_lstm_layer',
                          'ClockworkLstmLayerImpl')):
        size, T, B = (4, 5, 2) if nm == 'cw' else (3, 4, 2)
        add(nm, mk(mod, cls, {'default': TB + (2,)}, size=size,
                   activation='linear'), T, B, 'in 2 size %d' % size,
            special=tim(*(1, 2, 4, 1)[-size:]), zero=('w.',))
    add('highway', mk('highway_layer', 'HighwayLayerImpl',
                      {k: TB + (3, 2, 2) for k in 'HTx'}), 5, 4,
        'features (3,2,2)', symbols=3)
    for shp, m in (((4, 3), (1,)), ((4, 3), (4, 1)), ((5,), (5,))):
        add('mask-%s-%s' % (shp, m), mk(
            'mask_layer', 'MaskLayerImpl',
            {'default': TB + shp, 'mask': TB + m}), 5, 4, 'features %s mask '
            '%s' % (shp, m), symbols=3)
    add('merge', mk('merge_layer', 'MergeLayerImpl',
                    {'inputs_1': TB + (3, 4), 'inputs_2': TB + (3, 5)}),
        5, 4, 'features (3,4)+(3,5)', symbols=4)
    add('noop', mk('noop_layer', 'NoOpLayerImpl', {'default': TB + (4, 3)}),
        6, 5, 'features (4,3)', symbols=4)
    for nm, shp in (('tb', TB + (3, 2)), ('b', ('B', 6))):
        add('loss-' + nm, mk('loss_layer', 'LossLayerImpl',
                             {'default': shp}, importance=0.75),
            6, 5, 'shape %s' % (shp,), unit_deltas=True, symbols=4)
    add('deltas-scaling', mk(
        'deltas_scaling_layer', 'DeltasScalingLayerImpl',
        {'default': TB + (4, 2)}, factor=0.3), 6, 4, '', scale_deltas=0.3,
        symbols=4)
    for n, (ish, nf, ks, st, pad, B) in enumerate([
            ((6, 7, 3), 4, (3, 3), (1, 1), 0, 3),
            ((7, 6, 2), 3, (3, 2), (2, 2), 1, 4),
            ((8, 5, 4), 5, (5, 4), (3, 1), 2, 2),
            ((5, 9, 1), 6, (2, 5), (1, 3), 3, 5)]):
        add('conv-%d' % n, mk(
            'convolution_layer_2d', 'Convolution2DLayerImpl',
            {'default': TB + ish}, num_filters=nf, kernel_size=ks, stride=st,
            padding=pad, activation='linear'), 2, B,
            'image %s filters %d kernel %s stride %s pad %d' % (
                ish, nf, ks, st, pad), symbols=4, weight=15)
    for n, (ish, ks, st, pad, B) in enumerate([
            ((6, 7, 3), (3, 3), (1, 1), 0, 3),
            ((7, 6, 2), (3, 2), (2, 2), 1, 4),
            ((8, 5, 4), (4, 5), (3, 1), 2, 2)]):
        add('pool-%d' % n, mk(
            'pooling_layer_2d', 'Pooling2DLayerImpl', {'default': TB + ish},
            kernel_size=ks, stride=st, padding=pad, type='avg'), 2, B,
            'image %s window %s stride %s pad %d' % (ish, ks, st, pad),
            symbols=3, weight=10)
    add('batchnorm', mk(
        'batch_normalization_layer', 'BatchNormLayerImpl',
        {'default': TB + (2, 3)}), 3, 3, 'features (2,3)',
        frozen=('mu', 'sigma'))
    add('squareddiff', mk(
        'squared_difference_layer', 'SquaredDifferenceLayerImpl',
        {'inputs_1': TB + (3, 4), 'inputs_2': TB + (3, 4)}), 5, 4,
        'features (3,4)', symbols=4)
    add('squarederror', mk(
        'squared_error_layer', 'SquaredErrorLayerImpl',
        {'default': TB + (3, 4), 'targets': TB + (3, 4)}), 5, 4,
        'features (3,4)', symbols=4)
    add('l2decay', mk('l2_decay', 'L2DecayLayerImpl',
                      {'default': TB + (3, 4)}), 5, 4, 'features (3,4)',
        symbols=4)
    return C

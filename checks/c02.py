"""C02: network backward pass = gradient of the total loss, any wiring."""
import numpy as np

from symx.netlib import make_net, make_data
from symx.layers import FakeRnd, set_
from symx.gradlib import interior, one_sided
from symx.runner import Case
from checks.c01 import binary, const

ASSUMPTIONS = [
    'a fixed list of wirings (fan-out, concatenation in permuted order, skip '
    'connections, several losses, shared targets, unused outputs, masks, '
    'regularisers, recurrent layers, convolution stack); all parameter, '
    'input and target values are arbitrary reals',
    'sigmoid summarised by its derivative rule (discharged in C01)',
]


def L():
    import brainstorm.layers as l
    return l


def inp(**shapes):
    return L().Input(out_shapes={k: ('T', 'B') + tuple(v)
                                 for k, v in shapes.items()})




def mlp2(act='tanh'):
    l = L()
    i = inp(default=(2,), targets=(1,))
    se = l.SquaredError(name='se')
    i - 'default' >> l.FullyConnected(2, name='h', activation=act) >> \
        l.FullyConnected(1, name='o', activation='linear') >> se
    i - 'targets' >> 'targets' - se
    se - 'loss' >> l.Loss()
    return i


def fanout():
    l = L()
    i = inp(default=(1,), t1=(1,), t2=(2,))
    h = l.FullyConnected(2, name='h', activation='tanh')
    i >> h
    s1, s2 = l.SquaredError(name='s1'), l.SquaredError(name='s2')
    h >> l.FullyConnected(1, name='a', activation='sigmoid') >> s1
    h >> l.FullyConnected(2, name='b', activation='linear') >> s2
    i - 't1' >> 'targets' - s1
    i - 't2' >> 'targets' - s2
    s1 - 'loss' >> l.Loss(name='l1', importance=0.25)
    s2 - 'loss' >> l.Loss(name='l2', importance=2.0)
    return i


def concat():
    """two sources concatenated into one input, plus each used elsewhere"""
    l = L()
    i = inp(default=(2,), targets=(1,))
    a = l.FullyConnected(1, name='a', activation='tanh')
    b = l.FullyConnected(2, name='b', activation='linear')
    c = l.FullyConnected(1, name='c', activation='linear')
    i >> a
    i >> b
    a >> c
    b >> c
    se = l.SquaredError(name='se')
    c >> se
    i - 'targets' >> 'targets' - se
    se - 'loss' >> l.Loss(name='L1')
    a >> l.L2Decay(name='d') - 'loss' >> l.Loss(name='L2', importance=0.5)
    return i


def perm():
    """a,b -> x ; b,c -> y ; needs b in the middle"""
    l = L()
    i = inp(default=(1,))
    a = l.FullyConnected(1, name='z_a', activation='linear')
    b = l.FullyConnected(2, name='a_b', activation='tanh')
    c = l.FullyConnected(1, name='m_c', activation='linear')
    for s in (a, b, c):
        i >> s
    x = l.FullyConnected(1, name='x', activation='linear')
    y = l.FullyConnected(1, name='y', activation='tanh')
    b >> x
    a >> x
    c >> y
    b >> y
    z = l.FullyConnected(1, name='zz', activation='linear')
    x >> z
    y >> z
    z >> l.L2Decay() - 'loss' >> l.Loss()
    return i


def skip():
    l = L()
    i = inp(default=(2,), targets=(1,))
    h = l.FullyConnected(1, name='h', activation='tanh')
    o = l.FullyConnected(1, name='o', activation='linear')
    i >> h
    h >> o
    i >> o
    se = l.SquaredError(name='se')
    o >> se
    i - 'targets' >> 'targets' - se
    se - 'loss' >> l.Loss()
    return i


def deep():
    """more layers than there are digits, wired up in an odd order"""
    l = L()
    i = inp(default=(1,))
    hs = [l.FullyConnected(1, name='h_%d' % k, activation='linear'
                           if k % 3 else 'tanh') for k in range(1, 13)]
    for k in (7, 3, 10, 1, 0, 5, 2, 8, 4, 9, 6):
        hs[k] >> hs[k + 1]
    i >> hs[0]
    hs[2] >> hs[10]
    hs[11] >> l.L2Decay() - 'loss' >> l.Loss()
    return i


def wide():
    """twelve sources, all of them into one layer and some into another"""
    l = L()
    i = inp(default=(1,))
    hs = [l.FullyConnected(1 + (k == 9), name='h_%d' % k, activation='linear')
          for k in range(1, 13)]
    a, b = (l.FullyConnected(1, name=n, activation='linear') for n in 'ab')
    for k in (10, 0, 9, 1, 11, 5, 4, 3, 8, 2, 7, 6):
        i >> hs[k]
        hs[k] >> a
    for k in (6, 4, 5):
        hs[k] >> b
    s = l.SquaredDifference()
    a >> 'inputs_1' - s
    b >> 'inputs_2' - s
    s >> l.Loss()
    return i


def rnn_skip():
    """external input and a recurrent output share one buffer"""
    l = L()
    i = inp(default=(1,))
    h = l.Recurrent(1, name='h', activation='tanh')
    o = l.FullyConnected(1, name='o', activation='linear')
    i >> h
    h >> o
    i >> o
    o >> l.L2Decay() - 'loss' >> l.Loss()
    return i


def rnn2():
    l = L()
    i = inp(default=(1,))
    h = l.Recurrent(1, name='h', activation='tanh')
    g = l.Recurrent(1, name='g', activation='linear')
    o = l.FullyConnected(1, name='o', activation='linear')
    i >> h >> g
    h >> o
    g >> o
    o >> l.L2Decay() - 'loss' >> l.Loss()
    return i


def lstm():
    l = L()
    i = inp(default=(1,))
    i >> l.Lstm(1, name='h') >> l.FullyConnected(
        1, name='o', activation='linear') >> l.L2Decay() - 'loss' >> l.Loss()
    return i


def bilstm():
    """an Lstm and a Recurrent in parallel, concatenated"""
    l = L()
    i = inp(default=(1,))
    a, b = l.Lstm(1, name='a'), l.Recurrent(1, name='b', activation='tanh')
    o = l.FullyConnected(1, name='o', activation='linear')
    i >> a
    i >> b
    a >> o
    b >> o
    o >> l.L2Decay() - 'loss' >> l.Loss()
    return i


def masked():
    l = L()
    i = inp(default=(1,), mask=(1,), targets=(1,))
    m = l.Mask(name='m')
    se = l.SquaredError(name='se')
    i - 'default' >> l.FullyConnected(1, name='o', activation='tanh') >> se
    i - 'targets' >> 'targets' - se
    se - 'loss' >> m
    i - 'mask' >> 'mask' - m
    m >> l.Loss()
    return i


def softmax():
    l = L()
    i = inp(default=(1,), targets=(1,))
    o = l.SoftmaxCE(name='o')
    h = l.FullyConnected(2, name='h', activation='linear')
    i - 'default' >> h >> o
    i - 'targets' >> 'targets' - o
    o - 'loss' >> l.Loss()
    h >> l.L2Decay(name='l2') - 'loss' >> l.Loss(name='reg', importance=0.125)
    return i


def sigmoidce():
    l = L()
    i = inp(default=(1,), targets=(2,))
    o = l.SigmoidCE(name='o')
    i - 'default' >> l.FullyConnected(2, name='h', activation='tanh') >> o
    i - 'targets' >> 'targets' - o
    o - 'loss' >> l.Loss()
    return i


def highway():
    l = L()
    i = inp(default=(1,))
    h = l.Highway(name='hw')
    i >> l.FullyConnected(1, name='H', activation='tanh') >> 'H' - h
    i >> l.FullyConnected(1, name='T', activation='sigmoid') >> 'T' - h
    i >> l.FullyConnected(1, name='x', activation='linear') >> 'x' - h
    h >> l.L2Decay() - 'loss' >> l.Loss()
    return i


def merge():
    l = L()
    i = inp(default=(1,))
    m = l.Merge(name='m')
    a = l.FullyConnected(1, name='a', activation='tanh')
    i >> a
    a >> 'inputs_1' - m
    i >> l.FullyConnected(2, name='b', activation='linear') >> 'inputs_2' - m
    m >> l.FullyConnected(1, name='o', activation='linear') >> \
        l.L2Decay() - 'loss' >> l.Loss()
    a >> l.L2Decay(name='l2a') - 'loss' >> l.Loss(name='La', importance=3.0)
    return i


def sqdiff():
    l = L()
    i = inp(default=(1,), t=(2,))
    d = l.SquaredDifference(name='d')
    i - 'default' >> l.FullyConnected(2, name='a', activation='tanh') >> \
        'inputs_1' - d
    i - 't' >> 'inputs_2' - d
    d >> l.Loss()
    return i


def regress_both():
    """both sides of a difference depend on the same layer"""
    l = L()
    i = inp(default=(1,))
    d = l.SquaredDifference(name='d')
    a = l.FullyConnected(2, name='a', activation='tanh')
    i >> a
    a >> 'inputs_1' - d
    a >> l.FullyConnected(2, name='b', activation='linear') >> 'inputs_2' - d
    d >> l.Loss()
    return i


def dropout():
    l = L()
    i = inp(default=(1,))
    i >> l.FullyConnected(2, name='a', activation='linear') >> \
        l.Dropout(0.25, name='dr') >> \
        l.FullyConnected(1, name='o', activation='linear') >> \
        l.L2Decay() - 'loss' >> l.Loss()
    return i


def scaled():
    l = L()
    i = inp(default=(1,))
    i >> l.FullyConnected(1, name='a', activation='tanh') >> \
        l.NoOp(name='n') >> l.Elementwise('sigmoid', name='e') >> \
        l.L2Decay() - 'loss' >> l.Loss()
    return i


def conv():
    l = L()
    i = inp(default=(3, 3, 1))
    i >> l.Convolution2D(2, (2, 2), name='c', activation='linear') >> \
        l.Pooling2D((2, 2), type='avg', name='p') >> \
        l.FullyConnected(1, name='o', activation='tanh') >> \
        l.L2Decay() - 'loss' >> l.Loss()
    return i


def conv_fan():
    l = L()
    i = inp(default=(2, 2, 1))
    c = l.Convolution2D(1, (1, 1), name='c', activation='tanh')
    i >> c
    c >> l.Convolution2D(1, (2, 2), name='d', activation='linear') >> \
        l.L2Decay(name='q') - 'loss' >> l.Loss(name='A')
    c >> l.Pooling2D((2, 2), type='avg', name='p') >> l.L2Decay(name='r') - 'loss' \
        >> l.Loss(name='B', importance=0.5)
    return i


def conv_concat(kind='conv'):
    l = L()
    i = inp(default=(2, 2, 1))
    if kind == 'conv':
        a = l.Convolution2D(1, (2, 1), name='a', activation='tanh')
        b = l.Convolution2D(1, (2, 1), name='b', activation='linear')
    else:
        i0 = i
        i = l.FullyConnected((2, 2, 1), name='pre', activation='linear')
        i0 >> i
        a = l.Pooling2D((2, 1), type=kind, name='a')
        b = l.Pooling2D((2, 1), type=kind, name='b')
    o = l.FullyConnected(1, name='o', activation='linear')
    i >> a
    i >> b
    a >> o
    b >> o
    o >> l.L2Decay() - 'loss' >> l.Loss()
    return i


def batchnorm():
    l = L()
    i = inp(default=(1,))
    i >> l.FullyConnected(1, name='a', activation='linear') >> \
        l.BatchNorm(name='bn') >> \
        l.FullyConnected(1, name='o', activation='linear') >> \
        l.L2Decay() - 'loss' >> l.Loss()
    return i


def deltas_free():
    """a branch that carries no loss still runs and changes no gradient"""
    l = L()
    i = inp(default=(1,))
    a = l.FullyConnected(1, name='a', activation='tanh')
    i >> a
    a >> l.L2Decay() - 'loss' >> l.Loss()
    a >> l.FullyConnected(2, name='side', activation='linear')
    return i


def run(ctx, build, data_spec, T, B, w=None, twice=False):
    net = make_net(ctx, build)
    data = make_data(ctx, data_spec, T, B)
    if w is not None:
        set_(net.buffer.parameters, w)
    net.provide_external_data(data)
    net.forward_pass(training_pass=True)
    return net, data


def total_loss(net):
    names = [n for n, l in net.layers.items()
             if type(l).__name__ == 'LossLayerImpl']
    return [net.buffer[n].outputs.loss.reshape(-1)[0] for n in names]


def leave_garbage(net):
    """what an earlier backward pass may have left behind"""
    for n, l in net.layers.items():
        b = net.buffer[n]
        for part in ('input_deltas', 'output_deltas', 'gradients'):
            if part in b and b[part] is not None:
                for v in b[part].values():
                    v[...] = 0.375
        for k, sh in l.internal_shapes.items():
            if sh.is_backward_only:
                b.internals[k][...] = 0.375


def fn(build, spec, T, B, post=None, frozen=()):
    def f(ctx):
        net, data = run(ctx, build, spec, T, B)
        w = net.buffer.parameters.copy()
        interior(ctx, [w])
        if post:
            post(ctx, net)
        losses = total_loss(net)
        ctx.check(len(losses) > 0, 'has losses')
        outs = {k: v.copy() for k, v in net.buffer.Input.outputs.items()}
        got_l = net.get_loss_values()
        leave_garbage(net)
        net.backward_pass()
        grad = net.buffer.gradients.copy()
        ctx.eq(net.buffer.parameters, w, 'backward changed the parameters')
        for k, v in data.items():
            ctx.eq(outs[k], v, 'forward changed the external input ' + k)
            ctx.eq(net.buffer.Input.outputs[k], v,
                   'backward changed the external input ' + k)
        tot = losses[0]
        for x in losses[1:]:
            tot = tot + x
        ctx.eq(got_l['total_loss'], tot, 'total_loss is the sum of losses')
        if ctx.symbolic:
            core = ctx.core
            d = core.backprop([(x, core.const(1)) for x in losses],
                              [core.lift(x) for x in w])
            exp = np.empty(len(d), dtype=object)
            exp[:] = d
        else:
            from symx.ctx import Skip
            exp = np.zeros(w.shape)
            for i in range(w.size):
                e = []
                for eps in (1e-5, 1e-4):
                    v = []
                    for s in (eps, -eps):
                        w2 = w.copy()
                        w2[i] += s
                        net2, _ = run(ctx, build, spec, T, B, w2)
                        v.append(float(sum(total_loss(net2))))
                    e.append((v[0] - v[1]) / (2 * eps))
                    if not one_sided(v[0], float(sum(losses)), v[1], eps,
                                     e[-1]):
                        raise Skip('no derivative here')
                if not abs(e[0] - e[1]) <= 1e-5 * (1 + abs(e[0])):
                    raise Skip('ill-conditioned finite difference')
                exp[i] = e[0]
        # per-parameter views of the gradient
        for ln in net.layers:
            lv = net.buffer[ln]
            if 'parameters' not in lv or lv.parameters is None:
                continue
            for pn, v in lv.parameters.items():
                pass
        ctx.eq(grad, exp, 'gradient of the total loss')
    return f


def unclip(ctx, net):
    p = net.buffer.o.outputs.predictions
    for x in np.asarray(p).ravel():
        ctx.assume(x > 0.001)
        ctx.assume(x < 0.999)


def cls(n):
    def f(ctx, shape):
        a = np.empty(shape, dtype=object)
        for j, i in enumerate(np.ndindex(*shape)):
            a[i] = ctx.choose('target%d' % j, list(range(n)))
        return ctx.to_obj(a.astype(float))
    return f


def cases(tier):
    th = tier == 'thorough'
    C = []

    def add(name, build, spec, T, B, weight=1, **kw):
        C.append(Case(name, fn(build, spec, T, B, **kw),
                      bounds='T=%d B=%d %s' % (T, B, spec), tol=1e-4,
                      weight=weight))
    add('mlp', mlp2, {'default': (2,), 'targets': (1,)}, 1, 2)
    add('mlp-T2', lambda: mlp2('sigmoid'), {'default': (2,), 'targets': (1,)},
        2, 1)
    add('mlp-rel', lambda: mlp2('rel'), {'default': (2,), 'targets': (1,)},
        1, 1)
    add('fanout', fanout, {'default': (1,), 't1': (1,), 't2': (2,)}, 1, 2)
    add('fanout-T', fanout, {'default': (1,), 't1': (1,), 't2': (2,)}, 2, 1)
    add('concat', concat, {'default': (2,), 'targets': (1,)}, 2, 2)
    add('concat-perm', perm, {'default': (1,)}, 2, 2, weight=5)
    add('skip', skip, {'default': (2,), 'targets': (1,)}, 2, 2)
    add('rnn-skip', rnn_skip, {'default': (1,)}, 2, 2)
    add('rnn-skip-T1', rnn_skip, {'default': (1,)}, 1, 1)
    add('rnn-stack', rnn2, {'default': (1,)}, 2, 1, weight=5)
    add('lstm', lstm, {'default': (1,)}, 2, 1, weight=20)
    add('lstm-parallel-rnn', bilstm, {'default': (1,)}, 2, 1, weight=20)
    add('masked', masked, {'default': (1,), 'mask': (1,), 'targets': (1,)},
        2, 2)
    add('softmax', softmax, {'default': (1,), 'targets': ((1,), cls(2))},
        1, 2, weight=10, post=unclip)
    add('sigmoidce', sigmoidce, {'default': (1,), 'targets': ((2,), binary)},
        1, 1, weight=10, post=unclip)
    add('highway', highway, {'default': (1,)}, 2, 1)
    add('merge', merge, {'default': (1,)}, 1, 2)
    add('sqdiff', sqdiff, {'default': (1,), 't': (2,)}, 1, 2)
    add('diff-of-shared', regress_both, {'default': (1,)}, 1, 2)
    add('dropout', dropout, {'default': (1,)}, 1, 2)
    add('elementwise-chain', scaled, {'default': (1,)}, 2, 1)
    add('conv', conv, {'default': (3, 3, 1)}, 1, 1, weight=5)
    add('conv-fanout', conv_fan, {'default': (2, 2, 1)}, 1, 2, weight=5)
    add('conv-concat', conv_concat, {'default': (2, 2, 1)}, 1, 2, weight=5)
    add('avgpool-concat', lambda: conv_concat('avg'),
        {'default': (2, 2, 1)}, 1, 2, weight=5)
    add('maxpool-concat', lambda: conv_concat('max'),
        {'default': (2, 2, 1)}, 1, 1, weight=5)
    add('batchnorm', batchnorm, {'default': (1,)}, 1, 2, weight=5)
    add('deep', deep, {'default': (1,)}, 1, 2, weight=5)
    add('wide', wide, {'default': (1,)}, 1, 2, weight=5)
    add('lossless-branch', deltas_free, {'default': (1,)}, 1, 2)
    if th:
        add('mlp-big', mlp2, {'default': (2,), 'targets': (1,)}, 2, 3)
        add('rnn-skip-T3', rnn_skip, {'default': (1,)}, 3, 1, weight=30)
        add('rnn-stack-T3', rnn2, {'default': (1,)}, 3, 1, weight=60)
        add('lstm-T3', lstm, {'default': (1,)}, 3, 1, weight=200)
        add('fanout-big', fanout, {'default': (1,), 't1': (1,), 't2': (2,)},
            2, 2, weight=5)
    return C

"""C23: results stay finite in single precision, and non-finite values are
noticed where they are looked for."""
import numpy as np

from symx import xfloat as X
from symx.layers import LayerRig, set_
from symx.runner import Case

FLOATS = True
ASSUMPTIONS = [
    'single precision arithmetic: + - * / comparisons and selections are '
    'IEEE-exact (z3 floating point theory), exp/log/tanh/sqrt satisfy the '
    'facts listed in symx/xfloat.py (special values, overflow and underflow '
    'thresholds, range, monotonicity); order of summation is that of numpy '
    'on short arrays',
    'inputs are arbitrary finite float32 values of the stated magnitude',
]
MAX = 3.4e38


def put(ctx, dst, vals):
    dst[...] = vals


# ------------------------------------------------------------- activations --
RANGE = {'sigmoid': (0., 1.), 'tanh': (-1., 1.), 'el': (-1., MAX),
         'rel': (0., MAX)}


def activation(name):
    def fn(ctx):
        h = X.handler(ctx)
        x = X.arr(ctx, 'x', (1, 1), lim=MAX)
        y = h.zeros((1, 1))
        getattr(h, name)(x, y)
        X.finite(ctx, y, name)
        X.within(ctx, y, *RANGE[name], label=name)
        dy = X.arr(ctx, 'dy', (1, 1), lim=1e30)
        dx = h.zeros((1, 1))
        getattr(h, name + '_deriv')(x, y, dy, dx)
        X.finite(ctx, dx, name + '_deriv')
    return fn


def softmax(n):
    def fn(ctx):
        h = X.handler(ctx)
        x = X.arr(ctx, 'x', (1, n), lim=1.5e38)
        y = h.zeros((1, n))
        h.softmax_m(x, y)
        X.finite(ctx, y, 'softmax')
        X.within(ctx, y, 0., 1., 'softmax')
    return fn


def softmax_rows(far):
    """every row of a batch on its own, however different the rows are"""
    def fn(ctx):
        h = X.handler(ctx)
        x = h.zeros((2, 2))
        x[0] = X.arr(ctx, 'x', (2,), lim=1.5e38)
        for k, v in enumerate((far, ctx.choose('other', [0., 0.5, -3.]))):
            x[1, k] = X.XF(X.fval(v)) if ctx.symbolic else v
        if ctx.choose('swap', [False, True]):
            x[:] = x[::-1].copy()
        y = h.zeros((2, 2))
        h.softmax_m(x, y)
        X.finite(ctx, y, 'softmax')
        X.within(ctx, y, 0., 1., 'softmax')
    return fn


# ------------------------------------------------------------------ losses --
def shapes(**kw):
    from brainstorm.structure.buffer_structure import BufferStructure
    return {k: BufferStructure('T', 'B', *v) for k, v in kw.items()}


def ce(kind):
    def fn(ctx):
        import brainstorm.layers as L
        n = 2 if kind == 'softmax' else 1
        if kind == 'softmax':
            from brainstorm.layers.softmax_ce_layer import SoftmaxCELayerImpl
            cls, tar, out = SoftmaxCELayerImpl, (1,), 'loss'
        elif kind == 'sigmoid':
            from brainstorm.layers.sigmoid_ce_layer import SigmoidCELayerImpl
            cls, tar, out = SigmoidCELayerImpl, (1,), 'loss'
        else:
            from brainstorm.layers.binomial_cross_entropy_layer import \
                BinomialCrossEntropyLayerImpl
            cls, tar, out = BinomialCrossEntropyLayerImpl, (1,), 'default'
        lay = cls('l', shapes(default=(n,), targets=tar), set(), set())
        rig = LayerRig(ctx, lay, 1, 1, X.handler(ctx))
        b = rig.b
        if kind == 'binomial':
            put(ctx, b.inputs.default, X.arr(ctx, 'x', (1, 1, 1), lo=0.,
                                             hi=1.))
        else:
            put(ctx, b.inputs.default, X.arr(ctx, 'x', (1, 1, n),
                                             lim=1.5e38))
        put(ctx, b.inputs.targets,
            np.full((1, 1, 1), ctx.choose('target', [0, 1]) * 1.0))
        lay.forward_pass(b, training_pass=True)
        X.finite(ctx, b.outputs[out], 'loss')
        X.within(ctx, b.outputs[out], 0., MAX, 'loss')
        if kind != 'binomial':
            X.within(ctx, b.outputs.predictions, 0., 1., 'predictions')
        d = X.arr(ctx, 'd', (1, 1, 1), lim=1e6)
        put(ctx, b.output_deltas[out], d)
        lay.backward_pass(b)
        X.finite(ctx, b.input_deltas.default, 'deltas')
    return fn


# ---------------------------------------------------------- normalisation --
def batchnorm(train, N):
    def fn(ctx):
        from brainstorm.layers.batch_normalization_layer import \
            BatchNormLayerImpl
        lay = BatchNormLayerImpl('l', shapes(default=(1,)), set(),
                                          set())
        rig = LayerRig(ctx, lay, 1, N, X.handler(ctx))
        b = rig.b
        put(ctx, b.inputs.default, X.arr(ctx, 'x', (1, N, 1), lim=1e6))
        p = b.parameters
        put(ctx, p.gamma, 1.0)
        put(ctx, p.beta, 0.0)
        put(ctx, p.mu, X.arr(ctx, 'mu', p.mu.shape, lim=1e6))
        put(ctx, p.sigma, 1.0 if train else
            X.arr(ctx, 'sigma', p.sigma.shape, lo=1e-3, hi=1e6))
        lay.forward_pass(b, training_pass=train)
        X.finite(ctx, b.outputs.default, 'output')
        if train:
            X.finite(ctx, p.mu, 'mu')
            X.finite(ctx, p.sigma, 'sigma')
    return fn


# ---------------------------------------------------------------- networks --
def chain(kind):
    import brainstorm.layers as L
    k = kind.split('-')
    n = 2 if k[-1] == 'softmaxce' else 1
    i = L.Input(out_shapes={'default': ('T', 'B', 1),
                            'targets': ('T', 'B', 1)})
    x = i
    for p in k[:-1]:
        if p in RANGE or p == 'linear':
            x = x >> L.FullyConnected(1, activation=p)
        elif p == 'rnn':
            x = x >> L.Recurrent(1, activation='tanh')
        elif p == 'rnnel':
            x = x >> L.Recurrent(1, activation='el')
        elif p == 'lstm':
            x = x >> L.Lstm(1, activation='tanh')
        elif p == 'cwlstm':
            x = x >> L.ClockworkLstm(1)
        elif p == 'bn':
            x = x >> L.BatchNorm()
        elif p == 'drop':
            x = x >> L.Dropout(drop_prob=0.5)
        elif p == 'highway':
            h = L.Highway()
            for nm, a in (('H', 'rel'), ('T', 'sigmoid')):
                x >> L.FullyConnected(1, activation=a) >> nm - h
            x >> 'x' - h
            x = h
        else:
            raise KeyError(p)
    if n == 2:
        x = x >> L.FullyConnected(2, activation='linear')
    last = {'softmaxce': L.SoftmaxCE, 'sigmoidce': L.SigmoidCE,
            'squarederror': L.SquaredError}[k[-1]](name='cost')
    x >> last
    i - 'targets' >> 'targets' - last
    last - 'loss' >> L.Loss()
    return i


def network(kind, T):
    def fn(ctx):
        import brainstorm as bs
        net = bs.Network.from_layer(chain(kind))
        net.set_handler(X.handler(ctx, abstract=True))
        rnd = ctx.choose('mask', [0.2, 0.7]) if 'drop' in kind else None
        if rnd is not None:
            class Rnd(object):
                def uniform(self, size=None, **kw):
                    return np.full(size, rnd)
                random_sample = uniform
            net.handler.rnd = Rnd()
        net._buffer_manager.resize(T, 1)
        net.buffer.parameters[...] = X.arr(
            ctx, 'w', net.buffer.parameters.shape, lim=100.)
        if 'bn' in kind:
            for n in net.layers:
                p = net.buffer[n].parameters
                if p is not None and 'sigma' in p:
                    p['sigma'][...] = 1.0
        x = X.arr(ctx, 'x', (T, 1, 1), lim=1e4)
        t = np.full((T, 1, 1), ctx.choose('target', [0, 1]) * 1.0)
        data = {'default': x, 'targets': t.astype(object) if ctx.symbolic
                else t.astype(np.float32)}
        net.provide_external_data(data)
        net.forward_pass(training_pass=True)
        X.finite(ctx, net.get('cost.outputs.loss'), 'loss')
        net.backward_pass()
        X.finite(ctx, net.buffer.gradients, 'gradient')
    return fn


def l2norm(ctx):
    from brainstorm.value_modifiers import ConstrainL2Norm
    h = X.handler(ctx)
    n = ctx.choose('columns', [1, 2])
    w = X.arr(ctx, 'w', (1, n), lim=1e18)
    view = h.zeros((1, n))
    put(ctx, view, w)
    ConstrainL2Norm(ctx.choose('limit', [1.0, 0.5, 3.0]))(h, view)
    X.finite(ctx, view, 'weights')


# ------------------------------------------------------------- monitoring --
def anyfloat(ctx, name, shape):
    return X.arr(ctx, name, shape)


def all_finite(ctx, a):
    a = np.asarray(a)
    if not ctx.symbolic:
        return bool(np.isfinite(a.astype(float)).all())
    from symx.core import SB
    return ctx.And(*[SB(a[i].finite()) for i in np.ndindex(*a.shape)])


def stop_on_nan(ctx):
    import brainstorm as bs
    import brainstorm.layers as L
    from brainstorm.hooks import StopOnNan
    from symx.xfloat import handler
    i = L.Input(out_shapes={'default': ('T', 'B', 1)})
    i >> L.FullyConnected(1, name='o', activation='linear')
    net = bs.Network.from_layer(i)
    net.set_handler(handler(ctx))
    check_p = ctx.choose('check_parameters', [True, False])
    which = ctx.choose('logs', ['none', 'string', 'list'])
    w = anyfloat(ctx, 'w', (2,))
    put(ctx, net.buffer.parameters, w)
    a = anyfloat(ctx, 'a', (2,))
    c = anyfloat(ctx, 'c', (1,))
    # without the rolling training loss: it has its own switch
    logs = {'x': {'a': list(a)}, 'c': list(c)}
    hook = StopOnNan(logs_to_check={'none': (), 'string': 'x.a',
                                    'list': ['c', 'x.a']}[which],
                     check_parameters=check_p, check_training_loss=False)
    hook.start(net, None, False, {})
    want = []
    if check_p:
        want.append(all_finite(ctx, w))
    if which == 'string':
        want.append(all_finite(ctx, a))
    if which == 'list':
        want += [all_finite(ctx, a), all_finite(ctx, c)]
    fine = ctx.And(*want) if want else True
    from brainstorm.training.trainer import Trainer
    try:
        r = hook(ctx.choose('epoch', [0, 1]), 3, net, None, logs)
    except StopIteration:
        ctx.check(ctx.Not(fine), 'stops only if a value is not finite')
    else:
        ctx.check(fine, 'stops if a value is not finite')


def debug_check(ctx):
    """DebugHandler refuses operations whose operands are not finite"""
    from brainstorm.handlers.debug_handler import DebugHandler, DebugArray
    d = DebugHandler(X.handler(ctx))
    a = anyfloat(ctx, 'a', (2,))
    b = anyfloat(ctx, 'b', (2,))
    da, db, out = d.zeros((2,)), d.zeros((2,)), d.zeros((2,))
    put(ctx, da.array, a)
    put(ctx, db.array, b)
    op = ctx.choose('op', ['add_tt', 'mult_tt', 'copy_to', 'abs_t',
                           'mult_st', 'divide_tt'])
    if op == 'copy_to':
        args = dict(src=da, dest=out)
    elif op == 'abs_t':
        args = dict(a=da, out=out)
    elif op == 'mult_st':
        args = dict(s=2.0, t=da, out=out)
    else:
        args = dict(a=da, b=db, out=out)
    # positional and keyword arguments are the same to the caller
    k = ctx.choose('positional', [len(args), 0, 1])
    args = list(args.items())
    try:
        getattr(d, op)(*[v for _, v in args[:k]], **dict(args[k:]))
        ok = True
    except ValueError:
        ok = False
    args = [v for _, v in args]
    used = [x.array for x in args if isinstance(x, DebugArray)]
    fine = ctx.And(*[all_finite(ctx, conv(ctx, u)) for u in used])
    ctx.check(fine if ok else ctx.Not(fine), 'DebugHandler raises exactly if '
              'an operand or the result is not finite (%s)' % op)


def conv(ctx, a):
    if not ctx.symbolic:
        return a
    o = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        z = X.conv(a[i])
        o[i] = X.XF(z)
    return o


def cases(tier):
    thorough = tier == 'thorough'
    out = [Case('activation ' + n, activation(n), {'x': '1x1'})
           for n in sorted(RANGE)]
    out += [Case('softmax, rows apart by %g' % f, softmax_rows(f),
                 {'rows': 2, 'classes': 2}, weight=3) for f in (0., 2e3, 1e38)]
    out += [Case('softmax %d' % n, softmax(n), {'classes': n}, weight=3)
            for n in ([1, 2, 3] if not thorough else [1, 2, 3, 4])]
    out += [Case('cross entropy ' + k, ce(k), {'features': 1}, weight=3)
            for k in ('softmax', 'sigmoid', 'binomial')]
    out += [Case('batch normalization %s %d' % ('training' if t else 'testing',
                                                n), batchnorm(t, n),
                 {'N': n}, weight=5) for t in (True, False) for n in (1, 2)]
    kinds = ['%s-%s' % (a, c) for a in sorted(RANGE) + ['linear'] for c in
             ('softmaxce', 'sigmoidce', 'squarederror')]
    out += [Case('network ' + k, network(k, 1), {'T': 1}, weight=3)
            for k in kinds + ['bn-sigmoidce', 'drop-tanh-sigmoidce',
                              'highway-sigmoidce', 'tanh-el-softmaxce']]
    out += [Case('network %s T=2' % k, network(k, 2), {'T': 2}, weight=8)
            for k in ('rnnel-squarederror', 'rnn-sigmoidce')]
    out += [Case('network %s' % k, network(k, 1), {'T': 1}, weight=8)
            for k in ('rnn-sigmoidce', 'lstm-squarederror')]
    out += [Case('ConstrainL2Norm', l2norm, {'shape': '1x2'}, weight=3),
            Case('StopOnNan', stop_on_nan, {}, weight=2),
            Case('DebugHandler', debug_check, {}, weight=2)]
    return out

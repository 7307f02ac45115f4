"""C27: running on a DebugHandler changes nothing but adds checks."""
import numpy as np

from symx.fakeh5 import Scratch
from symx.layers import make_handler, set_, FakeRnd
from symx.runner import Case
from checks import c25

ASSUMPTIONS = [
    'the same network, data, parameters and random draws on a NumpyHandler '
    'and on a DebugHandler around one; arbitrary reals',
    'what DebugHandler refuses (wrong shapes, types, non-finite values) is '
    'checked on a list of operations and defects',
]


def nets():
    import brainstorm.layers as L
    out = dict(c25.nets())

    def loss(x, i):
        e = L.SquaredError(name='E')
        x >> e
        i - 'targets' >> 'targets' - e
        e - 'loss' >> L.Loss()
        return i

    def rec():
        i = L.Input(out_shapes={'default': ('T', 'B', 1), 'targets':
                                ('T', 'B', 2)})
        return loss(i >> L.Lstm(1, name='lstm') >> L.Clockwork(2, name='cw')
                    >> L.Recurrent(2, activation='tanh'), i)

    def cwlstm():
        i = L.Input(out_shapes={'default': ('T', 'B', 1), 'targets':
                                ('T', 'B', 2)})
        return loss(i >> L.ClockworkLstm(2, name='cw'), i)

    def misc():
        i = L.Input(out_shapes={'default': ('T', 'B', 2), 'targets':
                                ('T', 'B', 1)})
        h = L.FullyConnected((2,), name='x', activation='tanh')
        t = L.FullyConnected(2, activation='sigmoid')
        i >> h
        i >> t
        hw = L.Highway()
        h >> 'H' - hw
        t >> 'T' - hw
        i >> 'x' - hw
        l2 = L.L2Decay(name='l2')
        mg = L.Merge()
        sd = L.SquaredDifference()
        hw >> 'inputs_1' - mg
        h >> 'inputs_2' - mg
        hw >> 'inputs_1' - sd
        i >> 'inputs_2' - sd
        mg >> L.Elementwise(activation='tanh') >> l2
        l2 - 'loss' >> L.Loss(importance=0.1, name='La')
        return loss(sd >> L.DeltasScaling(2.0) >> L.NoOp() >>
                    L.FullyConnected(1, activation='linear'), i)

    def bn():
        i = L.Input(out_shapes={'default': ('T', 'B', 1), 'targets':
                                ('T', 'B', 1)})
        return loss(i >> L.BatchNorm(decay=0.75, epsilon=0.5), i)

    def ce(kind):
        def f():
            i = L.Input(out_shapes={'default': ('T', 'B', 1), 'targets':
                                    ('T', 'B', 1), 'mask': ('T', 'B', 1)})
            m = L.Mask(name='M')
            if kind == 'binomial':
                e = L.BinomialCrossEntropy(name='E')
                i >> L.FullyConnected(1, activation='sigmoid') >> e
                e >> m
            else:
                e = L.SigmoidCE(name='E')
                i >> L.FullyConnected(1, activation='rel') >> e
                e - 'loss' >> m
            i - 'targets' >> 'targets' - e
            i - 'mask' >> 'mask' - m
            m >> L.Loss()
            return i
        return f

    def decay():
        i = L.Input(out_shapes={'default': ('T', 'B', 1), 'targets':
                                ('T', 'B', 1)})
        l1 = L.L1Decay()
        x = i >> L.FullyConnected(1, activation='el')
        x >> l1
        l1 - 'loss' >> L.Loss(importance=2, name='Lb')
        return loss(x, i)

    def tiny():
        i = L.Input(out_shapes={'default': ('T', 'B', 1), 'targets':
                                ('T', 'B', 1)})
        return loss(i >> L.FullyConnected(1, name='h', activation='linear')
                    >> L.FullyConnected(1, name='o', activation='linear'), i)
    out.update(rec=rec, cwlstm=cwlstm, misc=misc, bn=bn, sigmoidce=ce('s'),
               binomial=ce('binomial'), decay=decay, tiny=tiny)
    return out


class Pair(object):
    """two copies of a network, plain and debugged"""
    def __init__(self, ctx, build, params=True):
        import brainstorm as bs
        from brainstorm.handlers.debug_handler import DebugHandler
        self.ctx = ctx
        self.nets, self.raw = [], []
        for k in range(2):
            net = bs.Network.from_layer(build())
            h = make_handler(ctx)
            h.rnd = FakeRnd(ctx)
            self.raw.append(h)
            net.set_handler(h if k == 0 else DebugHandler(h))
            self.nets.append(net)
        if params:
            n = self.nets[0].buffer.parameters.shape
            v = ctx.arr('w', n)
            for net in self.nets:
                net.handler.set_from_numpy(net.buffer.parameters, v.copy())

    def each(self, f):
        out = []
        for net in self.nets:
            out.append(f(net))
        return out

    def same(self, f, label):
        a, b = self.each(f)
        self.ctx.eq(a, b, label)

    def same_net(self, label):
        a, b = self.nets
        self.ctx.check(sorted(a.layers) == sorted(b.layers), 'layers')
        self.same(lambda n: n.get('parameters'), label + ' parameters')
        self.same(lambda n: n.get('gradients'), label + ' gradients')
        for ln in a.layers:
            for cat in ('outputs', 'internals', 'input_deltas',
                        'output_deltas', 'inputs'):
                if cat in a.buffer[ln]:
                    for k in a.buffer[ln][cat].keys():
                        p = '%s.%s.%s' % (ln, cat, k)
                        self.same(lambda n: n.get(p), '%s %s' % (label, p))


def passes(name, T, B):
    def fn(ctx):
        p = Pair(ctx, nets()[name], params=name != 'conv')
        n = p.nets[0].buffer.parameters.size
        shapes = {k: tuple(v.shape[2:]) for k, v in
                  p.nets[0].buffer.Input.outputs.items()}
        if name == 'conv':
            v = ctx.to_obj((np.arange(n) % 5 - 2.25) / 4)
            v[:1] = ctx.arr('w', (1,))
            for net in p.nets:
                net.handler.set_from_numpy(net.buffer.parameters, v.copy())

            class Rnd(object):
                def uniform(self, size=None, **kw):
                    return np.arange(int(np.prod(size))).reshape(size) % 4 / 4
                random_sample = uniform
            for h in p.raw:
                h.rnd = Rnd()
        for net in p.nets:
            for ln in net.layers:
                pb = net.buffer[ln].parameters
                for k in (pb.keys() if pb is not None else ()):
                    if k == 'timing':
                        t = np.arange(pb[k].size).reshape(pb[k].shape) + 1.0
                        net.handler.set_from_numpy(
                            pb[k], t.astype(object) if ctx.symbolic else t)
                    if k == 'sigma':
                        net.handler.fill(pb[k], 1.0)
        d = {}
        for k, sh in sorted(shapes.items()):
            full = (T, B) + sh
            size = int(np.prod(full))
            if k == 'mask':
                v = np.arange(size) % 2
            elif k == 'targets':
                v = np.arange(size) % (3 if name == 'conv' else 2)
            elif name in ('conv', 'sigmoidce', 'binomial', 'decay', 'bn'):
                v = np.arange(size) % 7 / 4 - 0.75
            else:
                d[k] = ctx.arr('x', full)
                continue
            d[k] = ctx.to_obj(v.reshape(full).astype(float))
        train = ctx.choose('training', [True, False])
        for net in p.nets:
            net.provide_external_data({k: v.copy() for k, v in d.items()})
            net.forward_pass(training_pass=train)
            if train or name != 'bn':
                net.backward_pass()
        p.same(lambda n: np.array(n.get_loss_values()['total_loss'],
                                  dtype=object if ctx.symbolic else float),
               'loss')
        p.same_net('after the passes:')
    return fn


def train(stepper):
    def fn(ctx):
        import brainstorm as bs
        from brainstorm.value_modifiers import (ClipValues, MaskValues,
                                                FreezeValues, L2Decay,
                                                L1Decay)
        from brainstorm.data_iterators import Minibatches
        p = Pair(ctx, nets()['tiny'], params=False)
        w = ctx.to_obj(np.array([0.5, 0.25, -1.5, 2.0]))
        w[p.nets[0].buffer.parameters.size - 4] = ctx.real('w')
        kind = ctx.choose('modifiers', ['none', 'clip', 'mask', 'freeze',
                                        'L2', 'L1'])
        x = ctx.to_obj(np.array([[[1.0], [-0.5]]]))
        t = ctx.arr('t', (1, 2, 1)) if kind in ('none', 'L2') else \
            ctx.to_obj(np.array([[[0.5], [2.0]]]))
        for net in p.nets:
            net.handler.set_from_numpy(net.buffer.parameters, w.copy())
            net.output_name = 'o.outputs.default'
            if kind == 'clip':
                net.set_weight_modifiers({'h': {'W': ClipValues(-1., .5)}})
            if kind == 'mask':
                net.set_weight_modifiers({'h': {'W': MaskValues(
                    np.array([[0.5]]))}})
            if kind == 'freeze':
                net.set_weight_modifiers({'h': {'W': FreezeValues()}})
            if kind == 'L2':
                net.set_gradient_modifiers({'h': {'W': L2Decay(0.5)}})
            if kind == 'L1':
                net.set_gradient_modifiers({'o': {'W': L1Decay(0.5)}})
            s = {'sgd': bs.training.SgdStepper(0.25),
                 'momentum': bs.training.MomentumStepper(0.25, 0.5),
                 'nesterov': bs.training.NesterovStepper(0.25, 0.5)}[stepper]
            tr = bs.Trainer(s, verbose=False)
            tr.add_hook(bs.hooks.StopAfterEpoch(1))
            tr.add_hook(bs.hooks.StopOnNan())
            tr.add_hook(bs.hooks.ModifyStepperAttribute(
                lambda *a, **k: a[3] if len(a) > 3 else 0.25,
                'learning_rate'))
            tr.train(net, Minibatches(batch_size=2 if kind != 'none' else
                                      ctx.choose('batch', [1, 2]),
                                      shuffle=False, default=x, targets=t))
        p.same_net('after training:')
    return fn


def l2norm(ctx):
    from brainstorm.value_modifiers import ConstrainL2Norm
    p = Pair(ctx, c25.nets()['fc'])
    which = ctx.choose('view', ['o', 'h bias'])
    lim = ctx.choose('limit', [1.0, 0.5])
    for v in p.nets[0].get('parameters'):
        ctx.assume(ctx.And(v >= -1e6, v <= 1e6))   # squares do not overflow
    for net in p.nets:
        m = ConstrainL2Norm(lim)
        v = net.buffer.o.parameters.W if which == 'o' else \
            net.buffer.h.parameters.bias
        m(net.handler, v)
    p.same(lambda n: n.get('o.parameters.W'), 'limited weights')
    p.same(lambda n: n.get('parameters'), 'all parameters')


def initialise(ctx):
    import brainstorm as bs
    p = Pair(ctx, c25.nets()['fc'], params=False)
    which = ctx.choose('how', ['number', 'array', 'gauss', 'kw'])
    w = ctx.arr('v', (2, 2))
    for net in p.nets:
        if which == 'number':
            net.initialize(0.5)
        elif which == 'array':
            net.initialize({'h': {'W': w.copy()}, 'default': 2.0})
        elif which == 'gauss':
            net.initialize(bs.initializers.Gaussian(0.5), seed=3)
        else:
            net.initialize(default=1.0, h={'bias': [0.25, 0.5],
                                           'default': -1})
    p.same(lambda n: n.get('parameters'), 'initialised parameters')


def tools(ctx):
    import brainstorm.tools as tl
    from brainstorm.data_iterators import Minibatches
    from brainstorm.scorers import MeanSquaredError
    p = Pair(ctx, c25.nets()['fc'])
    x = ctx.arr('x', (1, 3, 2))
    t = ctx.arr('t', (1, 3, 1))
    res, ev = [], []
    for net in p.nets:
        it = Minibatches(batch_size=2, shuffle=False, default=x, targets=t)
        res.append(tl.extract(net, it, ['o.outputs.default',
                                        'h.outputs.default']))
        ev.append(tl.evaluate(net, it, [MeanSquaredError()],
                              out_name='o.outputs.default'))
    for k in res[0]:
        ctx.eq(res[0][k], res[1][k], 'extracted ' + k)
    ctx.check(sorted(ev[0]) == sorted(ev[1]), 'the same scores')
    for k in ev[0]:
        ctx.eq(ev[0][k], ev[1][k], 'score ' + str(k))


def context(ctx):
    import brainstorm.layers as L

    def rnn():
        i = L.Input(out_shapes={'default': ('T', 'B', 1)})
        i >> L.Recurrent(2, name='h', activation='linear')
        return i
    p = Pair(ctx, rnn)
    x = ctx.arr('x', (3, 1, 1))
    for net in p.nets:
        net.provide_external_data({'default': x[:2].copy()})
        net.forward_pass()
        c = net.get_context()
        net.provide_external_data({'default': x[2:].copy()})
        net.forward_pass(context=c)
    p.same(lambda n: n.get('h.outputs.default'), 'continued sequence')


def refusals(ctx):
    from brainstorm.handlers.debug_handler import DebugHandler
    d = DebugHandler(make_handler(ctx))
    a, b = d.zeros((2, 3)), d.zeros((3, 2))
    c = d.zeros((2, 3))
    v = d.zeros((2,))
    bad = {
        'shapes differ': lambda: d.add_tt(a, b, c),
        'out differs': lambda: d.mult_tt(a, c, b),
        'not an array': lambda: d.add_tt(a, a.array, c),
        'product': lambda: d.dot_mm(a, c, d.zeros((2, 3))),
        'product out': lambda: d.dot_mm(a, b, d.zeros((2, 3))),
        'product transposed': lambda: d.dot_add_mm(a, b, d.zeros((3, 3)),
                                                   transa=True),
        'vector': lambda: d.add_mv(a, v, c),
        'vector shape': lambda: d.mult_add_mv(a, d.zeros((3, 1)), c),
        'scalar': lambda: d.mult_st(v, a, c),
        'clip': lambda: d.clip_t(a, 2., 1., c),
        'axis': lambda: d.sum_t(a, 2, v),
        'broadcast': lambda: d.broadcast_t(a, 0, c),
        'copy': lambda: d.copy_to(a, b),
        'numpy shape': lambda: d.set_from_numpy(a, np.zeros((3, 2))),
        'class out of range': lambda: d.binarize_v(
            big, d.zeros((2, 3))),
        'negative class': lambda: d.binarize_v(neg, d.zeros((2, 3))),
        'probability': lambda: d.generate_probability_mask(a, 1.5),
        'merge': lambda: d.merge_tt(a, c, d.zeros((2, 5))),
        'index': lambda: d.index_m_by_v(a, d.zeros((3, 1)), d.zeros((3, 1))),
        'shape': lambda: d.allocate((2, -1)),
        'softmax': lambda: d.softmax_m(v, v),
        'deviation': lambda: d.fill_gaussian(0., -1., a),
    }
    big, neg = d.zeros((2, 1)), d.zeros((2, 1))
    d.set_from_numpy(big, np.array([[3.], [0.]]))
    d.set_from_numpy(neg, np.array([[-1.], [0.]]))
    k = ctx.choose('defect', sorted(bad))
    try:
        bad[k]()
    except AssertionError:
        ctx.check(True, 'refused')
    else:
        ctx.fail('DebugHandler accepts: ' + k)


# operation -> its arguments by name: shapes of arrays, or other values
FINITE = {
    'copy_to': dict(src=(2, 2), dest=(2, 2)),
    'copy_to_if': dict(src=(2, 2), dest=(2, 2), cond=(2, 2)),
    'fill': dict(mem=(2, 2), val=0.5),
    'fill_if': dict(mem=(2, 2), val=0.5, cond=(2, 2)),
    'get_numpy_copy': dict(mem=(2, 2)),
    'abs_t': dict(a=(2, 2), out=(2, 2)),
    'add_into_if': dict(a=(2, 2), out=(2, 2), cond=(2, 2)),
    'add_mv': dict(m=(2, 2), v=(2, 1), out=(2, 2)),
    'add_st': dict(s=0.5, t=(2, 2), out=(2, 2)),
    'add_tt': dict(a=(2, 2), b=(2, 2), out=(2, 2)),
    'broadcast_t': dict(a=(2, 1), axis=1, out=(2, 2)),
    'clip_t': dict(a=(2, 2), a_min=-1., a_max=1., out=(2, 2)),
    'dot_mm': dict(a=(2, 2), b=(2, 2), out=(2, 2)),
    'dot_add_mm': dict(a=(2, 2), b=(2, 2), out=(2, 2)),
    'divide_mv': dict(m=(2, 2), v=(1, 2), out=(2, 2)),
    'divide_tt': dict(a=(2, 2), b=(2, 2), out=(2, 2)),
    'index_m_by_v': dict(m=(2, 2), v=(2, 1), out=(2, 1)),
    'merge_tt': dict(a=(2, 1), b=(2, 2), out=(2, 3)),
    'mult_add_st': dict(s=0.5, t=(2, 2), out=(2, 2)),
    'mult_add_tt': dict(a=(2, 2), b=(2, 2), out=(2, 2)),
    'mult_mv': dict(m=(2, 2), v=(2, 1), out=(2, 2)),
    'mult_add_mv': dict(m=(2, 2), v=(2, 1), out=(2, 2)),
    'mult_st': dict(s=0.5, t=(2, 2), out=(2, 2)),
    'mult_tt': dict(a=(2, 2), b=(2, 2), out=(2, 2)),
    'sign_t': dict(a=(2, 2), out=(2, 2)),
    'split_add_tt': dict(x=(2, 3), out_a=(2, 1), out_b=(2, 2)),
    'sqrt_t': dict(a=(2, 2), out=(2, 2)),
    'log_t': dict(a=(2, 2), out=(2, 2)),
    'subtract_mv': dict(m=(2, 2), v=(2, 1), out=(2, 2)),
    'subtract_tt': dict(a=(2, 2), b=(2, 2), out=(2, 2)),
    'sum_t': dict(a=(2, 2), axis=0, out=(2,)),
    'sigmoid': dict(x=(2, 2), y=(2, 2)),
    'sigmoid_deriv': dict(x=(2, 2), y=(2, 2), dy=(2, 2), dx=(2, 2)),
    'tanh': dict(x=(2, 2), y=(2, 2)),
    'tanh_deriv': dict(x=(2, 2), y=(2, 2), dy=(2, 2), dx=(2, 2)),
    'rel': dict(x=(2, 2), y=(2, 2)),
    'rel_deriv': dict(x=(2, 2), y=(2, 2), dy=(2, 2), dx=(2, 2)),
    'el': dict(x=(2, 2), y=(2, 2)),
    'el_deriv': dict(x=(2, 2), y=(2, 2), dy=(2, 2), dx=(2, 2)),
    'softmax_m': dict(m=(2, 2), out=(2, 2)),
}
# results that a non-finite old value of stays in
KEEPS = {'add_into_if': ['out'],
         'dot_add_mm': ['out'], 'mult_add_st': ['out'], 'mult_add_tt':
         ['out'], 'mult_add_mv': ['out'], 'split_add_tt': ['out_a', 'out_b'],
         'sigmoid_deriv': ['x'], 'get_numpy_copy': ['mem']}
RESULTS = ('out', 'dest', 'mem', 'out_a', 'out_b', 'dx')


def notices(op):
    def fn(ctx):
        """one non-finite operand, wherever it is, is noticed; else nothing"""
        from brainstorm.handlers.debug_handler import DebugHandler
        d = DebugHandler(make_handler(ctx))
        spec = FINITE[op]
        args, where = [], []
        for n, s in spec.items():
            if isinstance(s, tuple):
                v = d.zeros(s)
                x = np.ones(s)
                x[..., 0] = 0.5 if n not in ('cond', 'v') else 1
                if n == 'v' and op == 'index_m_by_v':
                    x[...] = 0
                d.handler.set_from_numpy(v.array, x)
                args.append((n, v))
                fresh = n in RESULTS or (n == 'y' and 'dy' not in spec)
                if n not in ('cond',) and (n not in ('v',) or op !=
                                           'index_m_by_v') and \
                        (not fresh or n in KEEPS.get(op, [])):
                    where.append(n)
            else:
                args.append((n, s))
                if isinstance(s, float) and n in ('s', 'val'):
                    where.append(n)
        bad = ctx.choose('value', [None, float('nan'), float('inf'),
                                   float('-inf')])
        if bad is not None:
            at = ctx.choose('argument', where)
            for i, (n, v) in enumerate(args):
                if n == at:
                    if isinstance(v, float):
                        args[i] = (n, bad)
                    else:
                        # the last element; if only some are touched, one
                        # that is not
                        x = d.handler.get_numpy_copy(v.array)
                        x[(-1,) * x.ndim] = bad
                        d.handler.set_from_numpy(v.array, x)
        k = ctx.choose('positional', [len(args), 0, 1])
        try:
            with np.errstate(all='ignore'):
                getattr(d, op)(*[v for _, v in args[:k]], **dict(args[k:]))
        except ValueError:
            ctx.check(bad is not None, 'finite values are accepted')
        else:
            ctx.check(bad is None, 'a non-finite value is noticed')
    return fn


# arguments whose shape is free
ANY = {('get_numpy_copy', 'mem'), ('fill', 'mem'), ('sum_t', 'out'),
       ('sum_t', 'a')}
# changed shapes that fit all the same
VALID = {('broadcast_t', 'out', 'wider'), ('index_m_by_v', 'm', 'wider'),
         ('mult_mv', 'v', 'wider')}


def operands(op):
    def fn(ctx):
        """an operand of another kind or shape is refused, not computed with"""
        from brainstorm.handlers.debug_handler import DebugHandler
        d = DebugHandler(make_handler(ctx))
        spec = FINITE[op]
        arrays = [n for n in spec if isinstance(spec[n], tuple)]
        scalars = [n for n in spec if isinstance(spec[n], float)]
        at = ctx.choose('argument', arrays + scalars)
        s = spec[at]
        if at in scalars:
            kind = ctx.choose('defect', ['array', 'text'])
        elif (op, at) in ANY:
            kind = 'bare'
        elif op in ('merge_tt', 'split_add_tt'):
            # the rows are only checked as far as numpy does
            kind = ctx.choose('defect', ['bare', 'wider'])
        else:
            kind = ctx.choose('defect', ['bare', 'longer', 'shorter', 'flat',
                                         'wider', 'stacked', 'more stacked'])
        args = {n: d.ones(v) if n in arrays else v for n, v in spec.items()}
        if op == 'index_m_by_v':
            d.handler.fill(args['v'].array, 0)
        args[at] = {
            'bare': lambda: args[at].array,
            'longer': lambda: d.ones((s[0] + 1,) + s[1:]),
            'wider': lambda: d.ones(s[:-1] + (s[-1] + 1,)),
            'shorter': lambda: d.ones((s[0] - 1,) + s[1:]),
            'flat': lambda: d.ones((int(np.prod(s)),)),
            'stacked': lambda: d.ones((1,) + s),
            'more stacked': lambda: d.ones((2,) + s),
            'array': lambda: d.ones((2, 2)),
            'text': lambda: '1'}[kind]()
        ctx.assume((op, at, kind) not in VALID)
        if kind not in ('bare', 'array', 'text'):
            ctx.assume(args[at].shape != s)
        try:
            getattr(d, op)(*args.values())
        except Exception:
            ctx.check(True, 'refused')
        else:
            ctx.fail('DebugHandler.%s accepts: %s %s' % (op, kind, at))
    return fn


def layers_refused(ctx):
    """the same for the operations on images"""
    from brainstorm.handlers.debug_handler import DebugHandler
    d = DebugHandler(make_handler(ctx))
    op = ctx.choose('operation', ['conv2d_forward_batch',
                                  'conv2d_backward_batch',
                                  'maxpool2d_forward_batch',
                                  'maxpool2d_backward_batch',
                                  'avgpool2d_forward_batch',
                                  'avgpool2d_backward_batch'])
    conv, back = op[0] == 'c', 'backward' in op
    img, out = (1, 3, 3, 1), (1, 2, 2, 1)
    args = {'inputs': d.ones(img)}
    if conv:
        args.update(weights=d.ones((1, 2, 2, 1)))
        if back:
            args.update(padding=0, stride=(1, 1), in_deltas=d.zeros(img),
                        out_deltas=d.ones(out),
                        weight_deltas=d.zeros((1, 2, 2, 1)),
                        bias_deltas=d.zeros((1,)))
        else:
            args.update(bias=d.ones((1,)), outputs=d.zeros(out), padding=0,
                        stride=(1, 1))
    else:
        args.update(window=(2, 2), outputs=d.zeros(out), padding=0,
                    stride=(1, 1))
        if op[0] == 'm':
            args.update(argmax=d.zeros(out))
        if back:
            args.update(in_deltas=d.zeros(img), out_deltas=d.ones(out))
    bad = [None]
    for n, v in args.items():
        if hasattr(v, 'array'):
            bad.append((n, 'bare'))
            if not conv and back and n not in ('argmax',):
                bad.append((n, 'shape'))
    bad += [('padding', -1), ('padding', 0.5), ('stride', (1,)),
            ('stride', (1, -1)), ('stride', (1, 1, 1)), ('stride', 1)]
    if not conv:
        bad += [('window', (2,)), ('window', 2), ('window', (2, -2))]
    k = ctx.choose('defect', bad)
    if k is not None:
        n, v = k
        if v == 'bare':
            v = args[n].array
        elif v == 'shape':
            v = d.zeros((2,) + args[n].shape[1:])
        args[n] = v
    try:
        getattr(d, op)(**args)
    except Exception as e:
        if k is None:
            ctx.fail('DebugHandler.%s refuses valid operands: %r' % (op, e))
        ctx.check(True, 'refused')
    else:
        ctx.check(k is None, 'DebugHandler.%s accepts: %s' % (op, k))


def saved(ctx):
    """a debugged network can be saved; its values are those of the plain"""
    import brainstorm as bs
    p = Pair(ctx, c25.nets()['fc'])
    if ctx.symbolic:
        # descriptions of handlers need a real dtype
        for h in p.raw:
            h.dtype = np.float64
    got = []
    with Scratch(ctx) as s:
        for k, net in enumerate(p.nets):
            net.save_as_hdf5(s.path('n%d' % k))
            with s.open('n%d' % k) as f:
                got.append(f['parameters'][()])
    ctx.eq(got[0], got[1], 'saved parameters')


def cases(tier):
    th = tier == 'thorough'
    small = ('conv', 'misc', 'decay', 'bn', 'sigmoidce', 'binomial')
    out = [Case('passes ' + n, passes(n, 1 if n in small else 2,
                                      1 if n in ('conv', 'sigmoidce') else 2),
                {'T': 2, 'B': 2}, weight=5) for n in sorted(nets())]
    out += [Case('training ' + s, train(s), {'updates': 2}, weight=4)
            for s in ('sgd', 'momentum', 'nesterov')]
    out += [Case('ConstrainL2Norm', l2norm, {}, weight=2),
            Case('initialize', initialise, {}),
            Case('extract and evaluate', tools, {'N': 3}),
            Case('context', context, {'T': 3}),
            Case('refusals', refusals, {'defects': 22}),
            Case('saved', saved, {})]
    out += [Case('notices non-finite values: ' + o, notices(o), {'values': 3})
            for o in sorted(FINITE)]
    out += [Case('operands ' + o, operands(o), {'defects': 7})
            for o in sorted(FINITE)]
    out += [Case('operands of image operations', layers_refused,
                 {'defects': 13})]
    return out

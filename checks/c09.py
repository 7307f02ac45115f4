"""C09: training steppers apply exactly their documented update rules."""
import numpy as np

from symx.netlib import make_net, make_data
from symx.layers import FakeRnd, set_
from symx.runner import Case
from checks import c02

ASSUMPTIONS = [
    'learning rate, momentum, parameters and the data of every step are '
    'arbitrary reals, learning rate and momentum may be changed before every '
    'step; the reference gradient comes from a freshly built network',
]


def L():
    import brainstorm.layers as l
    return l


def lin():
    l = L()
    i = c02.inp(default=(1,), targets=(1,))
    se = l.SquaredError(name='se')
    i - 'default' >> l.FullyConnected(1, name='o', activation='linear') >> se
    i - 'targets' >> 'targets' - se
    se - 'loss' >> l.Loss()
    return i


def deep():
    l = L()
    i = c02.inp(default=(1,), targets=(1,))
    se = l.SquaredError(name='se')
    i - 'default' >> l.FullyConnected(1, name='h', activation='tanh') >> \
        l.FullyConnected(1, name='o', activation='linear') >> se
    i - 'targets' >> 'targets' - se
    se - 'loss' >> l.Loss(importance=0.5)
    return i


def rnn():
    l = L()
    i = c02.inp(default=(1,))
    i >> l.Recurrent(1, name='h', activation='linear') >> \
        l.L2Decay() - 'loss' >> l.Loss()
    return i


NETS = {'linear': (lin, {'default': (1,), 'targets': (1,)}),
        'deep': (deep, {'default': (1,), 'targets': (1,)}),
        'rnn': (rnn, {'default': (1,)})}


def vec(ctx, a):
    return np.array(a, dtype=object if ctx.symbolic else float).copy()


def grad(ctx, build, w, data, mod=None):
    net = make_net(ctx, build, params=None)
    set_(net.buffer.parameters, w)
    net.provide_external_data(data)
    net.forward_pass(training_pass=True)
    net.backward_pass()
    return vec(ctx, net.buffer.gradients), net.get_loss_values()['total_loss']


def train(kind, name, steps, shapes, sched=False, restart=False, scale=True):
    build, spec = NETS[name]

    def fn(ctx):
        from brainstorm.training import steppers as S
        if kind == 'sgd':
            st = S.SgdStepper(0.5)
        else:
            cls = S.MomentumStepper if kind == 'momentum' else \
                S.NesterovStepper
            st = cls(0.5, 0.25, scale_learning_rate=scale)
        lr, mu = ctx.real('lr'), ctx.real('mu')
        net = make_net(ctx, build)
        st.start(net)
        w = vec(ctx, net.buffer.parameters)
        v = 0 * w
        for k in range(steps):
            if sched or k == 0:
                lr, mu = ctx.real('lr%d' % k), ctx.real('mu%d' % k)
                st.learning_rate = lr
                if kind != 'sgd':
                    st.momentum = mu
            if restart and k == restart:
                if ctx.symbolic or True:
                    st.start(net)
                v = 0 * w
            T, B = shapes[k % len(shapes)]
            data = make_data(ctx, spec, T, B, str(k))
            net.provide_external_data(data)
            if kind != 'sgd':
                eta = lr * (1 - mu) if scale else lr
            if kind == 'sgd':
                at = w
            elif kind == 'momentum':
                at = w
            else:
                at = w + mu * v
            g, loss = grad(ctx, build, at, data)
            st.run()
            ctx.eq(net.get_loss_values()['total_loss'], loss,
                   'step %d: loss of the pass' % k)
            if kind == 'sgd':
                w = w - lr * g
            else:
                v = mu * v - eta * g
                w = w + v
            ctx.eq(net.buffer.parameters, w, 'parameters after step %d' % k)
            ctx.eq(net.buffer.gradients, g, 'gradients of step %d' % k)
            ctx.eq(st.learning_rate, lr, 'learning rate setting kept')
            if kind != 'sgd':
                ctx.eq(st.momentum, mu, 'momentum setting kept')
            # continue from fresh symbols: the parameters are arbitrary again
            # and the old ones are a sum already proved
            for n in data:
                ctx.eq(net.buffer.Input.outputs[n][:T], data[n], 'data kept')
    return fn


def defaults(ctx):
    """documented defaults"""
    from brainstorm.training import steppers as S
    lr, mu = ctx.real('lr'), ctx.real('mu')
    for cls in (S.MomentumStepper, S.NesterovStepper):
        st = cls(lr, mu)
        ctx.check(st.scale_learning_rate is True, 'scaled by default')
        ctx.eq(st.learning_rate, lr, 'learning rate')
        ctx.eq(st.momentum, mu, 'momentum')
    ctx.eq(S.SgdStepper(lr).learning_rate, lr, 'learning rate')


def switch(kind):
    """one stepper object used on two networks after another"""
    def fn(ctx):
        from brainstorm.training import steppers as S
        build, spec = NETS['linear']
        build2, spec2 = NETS['rnn']
        lr, mu = ctx.real('lr'), ctx.real('mu')
        st = {'sgd': lambda: S.SgdStepper(lr),
              'momentum': lambda: S.MomentumStepper(lr, mu),
              'nesterov': lambda: S.NesterovStepper(lr, mu)}[kind]()
        net = make_net(ctx, build)
        st.start(net)
        net.provide_external_data(make_data(ctx, spec, 1, 1, 'a'))
        st.run()
        left = vec(ctx, net.buffer.parameters)
        net2 = make_net(ctx, build2, params='u')
        w = vec(ctx, net2.buffer.parameters)
        st.start(net2)
        ctx.eq(net2.buffer.parameters, w, 'start leaves the parameters')
        d = make_data(ctx, spec2, 2, 1, 'b')
        net2.provide_external_data(d)
        g, _ = grad(ctx, build2, w, d)
        st.run()
        eta = lr if kind == 'sgd' else lr * (1 - mu)
        ctx.eq(net2.buffer.parameters, w - eta * g, 'first step on new net')
        ctx.eq(net.buffer.parameters, left, 'the other net is left alone')
    return fn


def forward(training):
    def fn(ctx):
        from brainstorm.training import steppers as S
        l = L()

        def build():
            i = c02.inp(default=(1,), targets=(1,))
            se = l.SquaredError(name='se')
            i - 'default' >> l.FullyConnected(1, name='o', activation='tanh') \
                >> l.Dropout(0.5, name='dr') >> se
            i - 'targets' >> 'targets' - se
            se - 'loss' >> l.Loss()
            return i
        spec = {'default': (1,), 'targets': (1,)}
        net = make_net(ctx, build)
        ref = make_net(ctx, build)
        st = S.ForwardStepper(use_training_pass=training)
        st.start(net)
        w = vec(ctx, net.buffer.parameters)
        for k in range(2):
            data = make_data(ctx, spec, 1, 2, str(k))
            net.handler.rnd = FakeRnd(ctx, 'r%d' % k)
            ref.handler.rnd = FakeRnd(ctx, 'r%d' % k)
            net.provide_external_data(data)
            ref.provide_external_data(data)
            ref.forward_pass(training_pass=training)
            r = st.run()
            ctx.eq(r, ref.get_loss_values()['total_loss'], 'returned loss')
            ctx.eq(net.buffer.parameters, w, 'parameters untouched')
            ctx.eq(net.buffer.dr.outputs.default, ref.buffer.dr.outputs.default,
                   'mode of the pass')
    return fn


def cases(tier):
    C = [Case('defaults', defaults, bounds='any learning rate, momentum'),
         Case('forward-eval', forward(False), bounds='2 runs, B=2'),
         Case('forward-training', forward(True), bounds='2 runs, B=2')]
    th = tier == 'thorough'
    for kind in ('sgd', 'momentum', 'nesterov'):
        C.append(Case(kind + '-switch-net', switch(kind), bounds='2 nets'))
        for scale in ((True,) if kind == 'sgd' else (True, False)):
            n = kind + ('' if scale else '-noscale')
            C.append(Case(n + '-linear', train(
                kind, 'linear', 3, [(1, 1), (1, 2)], scale=scale),
                bounds='3 steps, batch sizes 1,2,1', weight=3))
            C.append(Case(n + '-schedule', train(
                kind, 'linear', 3, [(1, 1)], sched=True, scale=scale),
                bounds='3 steps with arbitrary changes of the settings',
                weight=3))
            C.append(Case(n + '-deep', train(kind, 'deep', 2, [(1, 1)],
                                             scale=scale),
                          bounds='2 steps', weight=3))
            C.append(Case(n + '-restart', train(
                kind, 'linear', 3, [(1, 1)], restart=2, scale=scale),
                bounds='start() again before step 3', weight=3))
            C.append(Case(n + '-rnn', train(
                kind, 'rnn', 2, [(2, 1), (1, 1)], scale=scale),
                bounds='2 steps, lengths 2,1', weight=3))
            if th:
                C.append(Case(n + '-long', train(
                    kind, 'linear', 4, [(1, 1), (2, 1), (1, 2)], sched=True,
                    scale=scale), bounds='4 steps', weight=9))
    return C

"""C04: results depend only on parameters and the current data, never on the
history of passes and batch shapes; resizing and handler changes keep the
parameters."""
import numpy as np

from symx.netlib import make_net, make_data
from symx.layers import make_handler, FakeRnd, set_
from symx.runner import Case
from checks import c02

ASSUMPTIONS = [
    'histories: one or two earlier steps, each an arbitrary choice of batch '
    'shape (T, B <= 2) and of pass kind (evaluation forward, training '
    'forward, forward+backward, forward with an arbitrary context), on '
    'arbitrary data; then a measured step on arbitrary data',
]


def L():
    import brainstorm.layers as l
    return l


def rnn():
    l = L()
    i = c02.inp(default=(1,))
    i >> l.Recurrent(1, name='h', activation='tanh') >> l.FullyConnected(
        1, name='o', activation='linear') >> l.L2Decay() - 'loss' >> l.Loss()
    return i


def cw():
    l = L()
    i = c02.inp(default=(1,))
    i >> l.Clockwork(1, name='h', activation='linear') >> l.L2Decay() - \
        'loss' >> l.Loss()
    return i


def cwlstm():
    l = L()
    i = c02.inp(default=(1,))
    i >> l.ClockworkLstm(1, name='h', activation='tanh') >> l.L2Decay() - \
        'loss' >> l.Loss()
    return i


def pool(kind='avg'):
    l = L()
    i = c02.inp(default=(2, 1, 1))
    i >> l.Convolution2D(1, (1, 1), name='c', activation='linear') >> \
        l.Pooling2D((2, 1), type=kind, name='p') >> \
        l.L2Decay() - 'loss' >> l.Loss()
    return i


def maxpool():
    return pool('max')


def dropout():
    l = L()
    i = c02.inp(default=(1,))
    i >> l.FullyConnected(1, name='a', activation='linear') >> \
        l.Dropout(0.5, name='dr') >> l.L2Decay() - 'loss' >> l.Loss()
    return i


NETS = {
    'fanout': (c02.fanout, {'default': (1,), 't1': (1,), 't2': (2,)}),
    'concat': (c02.concat, {'default': (2,), 'targets': (1,)}),
    'rnn': (rnn, {'default': (1,)}),
    'rnn-skip': (c02.rnn_skip, {'default': (1,)}),
    'lstm': (c02.lstm, {'default': (1,)}),
    'clockwork': (cw, {'default': (1,)}),
    'clockwork-lstm': (cwlstm, {'default': (1,)}),
    'masked': (c02.masked, {'default': (1,), 'mask': (1,), 'targets': (1,)}),
    'merge': (c02.merge, {'default': (1,)}),
    'avgpool': (pool, {'default': (2, 1, 1)}),
    'maxpool': (maxpool, {'default': (2, 1, 1)}),
    'batchnorm': (c02.batchnorm, {'default': (1,)}),
    'dropout': (dropout, {'default': (1,)}),
}


def fix_timing(net):
    for n in net.layers:
        p = net.buffer[n].parameters
        if p is not None and 'timing' in p:
            p['timing'][...] = 2
    return net


def step(ctx, net, spec, T, B, kind, tag):
    net.handler.rnd = FakeRnd(ctx, 'rnd' + tag)
    net.provide_external_data(make_data(ctx, spec, T, B, tag))
    if kind == 'context':
        c = net.get_context()
        for i, x in enumerate(c):
            if x is not None:
                set_(x, ctx.arr('ctx%s.%d' % (tag, i), x.shape))
        net.forward_pass(training_pass=True, context=c)
    else:
        net.forward_pass(training_pass=kind != 'eval')
    if kind in ('train', 'context'):
        net.backward_pass()


SHAPES = [(1, 1), (2, 1), (1, 2)]


def snapshot(net):
    out = {}
    for ln in net.layers:
        for cat in ('outputs',):
            for k, v in net.buffer[ln][cat].items():
                out['%s.%s.%s' % (ln, cat, k)] = v.copy()
    return out


def history(name, nsteps, kinds, final=((2, 1), (1, 2)), shapes=None):
    build, spec = NETS[name]
    shapes = shapes or SHAPES

    def fn(ctx):
        net = fix_timing(make_net(ctx, build))
        for s in range(nsteps):
            T, B = ctx.choose('shape%d' % s, shapes)
            kind = ctx.choose('kind%d' % s, kinds)
            before = net.buffer.parameters.copy()
            step(ctx, net, spec, T, B, kind, 'h%d' % s)
            if name != 'batchnorm':
                ctx.eq(net.buffer.parameters, before,
                       'a pass changed the parameters')
            for ln in net.layers:
                pv = net.buffer[ln].parameters
        T, B = ctx.choose('final', list(final))
        w = net.buffer.parameters.copy()
        step(ctx, net, spec, T, B, 'train', 'F')
        got, gg = snapshot(net), net.buffer.gradients.copy()
        fresh = make_net(ctx, build)
        set_(fresh.buffer.parameters, w)
        step(ctx, fresh, spec, T, B, 'train', 'F')
        want, wg = snapshot(fresh), fresh.buffer.gradients.copy()
        for k in want:
            ctx.eq(got[k], want[k], 'output %s after a history' % k)
        ctx.eq(gg, wg, 'gradients after a history')
    return fn


def resize_keeps(name):
    build, spec = NETS[name]

    def fn(ctx):
        net = make_net(ctx, build)
        w = net.buffer.parameters.copy()
        views = {ln: {k: v.copy() for k, v in
                      net.buffer[ln].parameters.items()}
                 for ln in net.layers}
        for s in range(3):
            act = ctx.choose('act%d' % s, ['small', 'tall', 'wide', 'handler',
                                           'pass'])
            if act == 'handler':
                net.set_handler(make_handler(ctx))
                net.handler.rnd = FakeRnd(ctx, 'rnd%d' % s)
            elif act == 'pass':
                step(ctx, net, spec, 2, 1, 'train' if name != 'batchnorm'
                     else 'eval', 'p%d' % s)
            else:
                T, B = {'small': (1, 1), 'tall': (3, 1),
                        'wide': (1, 3)}[act]
                net.provide_external_data(
                    make_data(ctx, spec, T, B, 'r%d' % s))
                for k, v in net.buffer.Input.outputs.items():
                    ctx.eq(v, make_data(ctx, spec, T, B, 'r%d' % s)[k],
                           'provided data is what the network holds')
            ctx.eq(net.buffer.parameters, w, 'parameters survive ' + act)
            for ln in views:
                for k, v in views[ln].items():
                    ctx.eq(net.buffer[ln].parameters[k], v,
                           'parameter %s.%s survives %s' % (ln, k, act))
    return fn


def double_backward(name):
    """repeating forward+backward on the same data repeats the result"""
    build, spec = NETS[name]

    def fn(ctx):
        net = fix_timing(make_net(ctx, build))
        step(ctx, net, spec, 2, 1, 'train', 'A')
        w = net.buffer.parameters.copy()
        a, ga = snapshot(net), net.buffer.gradients.copy()
        step(ctx, net, spec, 2, 1, 'train', 'A')
        if name == 'batchnorm':
            a.pop('x', None)
        b, gb = snapshot(net), net.buffer.gradients.copy()
        for k in a:
            ctx.eq(b[k], a[k], 'repeated pass: ' + k)
        ctx.eq(gb, ga, 'gradients do not accumulate over passes')
        # eval-mode forward does not depend on earlier random draws
        net.provide_external_data(make_data(ctx, spec, 2, 1, 'A'))
        net.handler.rnd = FakeRnd(ctx, 'x1')
        net.forward_pass(training_pass=False)
        e1 = snapshot(net)
        net.handler.rnd = FakeRnd(ctx, 'x2')
        net.forward_pass(training_pass=False)
        e2 = snapshot(net)
        for k in e1:
            ctx.eq(e1[k], e2[k], 'evaluation is deterministic: ' + k)
    return fn


def cases(tier):
    C = []
    th = tier == 'thorough'
    K = ['eval', 'train']
    for n in NETS:
        rec = n in ('rnn', 'rnn-skip', 'lstm', 'clockwork', 'clockwork-lstm')
        kinds = K + (['context'] if rec else ['forward'])
        if n == 'maxpool' and not th:
            # every comparison forks: keep the quick tier small
            C.append(Case('hist1-' + n, history(
                n, 1, ['train', 'eval'], final=[(1, 2)],
                shapes=[(2, 1), (1, 1)]), bounds='1 earlier step', weight=10))
            C.append(Case('repeat-' + n, double_backward(n),
                          bounds='T=2 B=1', weight=5))
            continue
        C.append(Case('hist1-' + n, history(n, 1, kinds),
                      bounds='1 earlier step', tol=1e-6, weight=10))
        C.append(Case('hist2-' + n, history(
            n, 2, kinds if th else (['context', 'eval'] if rec else
                                    ['train', 'eval']),
            shapes=SHAPES if th else [(2, 1), (1, 2)]),
            bounds='2 earlier steps', weight=30))
        C.append(Case('resize-' + n, resize_keeps(n),
                      bounds='3 actions', weight=20))
        if n != 'batchnorm':
            C.append(Case('repeat-' + n, double_backward(n),
                          bounds='T=2 B=1', weight=5))
    return C

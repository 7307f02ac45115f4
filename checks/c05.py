"""C05: processing a sequence in consecutive chunks, handing over the context,
gives the same outputs as processing it at once."""
import numpy as np

from symx.netlib import make_net, make_data
from symx.layers import set_, FakeRnd
from symx.runner import Case
from symx.gradlib import sparse
from checks import c02, c04

ASSUMPTIONS = [
    'the layers of the net are evaluated in evaluation mode (no dropout); '
    'sequence data, parameters and the initial context are arbitrary reals',
]


def L():
    import brainstorm.layers as l
    return l


def lstm_stack():
    l = L()
    i = c02.inp(default=(1,))
    h = l.Lstm(1, name='h')
    g = l.Recurrent(2, name='g', activation='tanh')
    o = l.FullyConnected(1, name='o', activation='linear')
    i >> h >> g
    g >> o
    h >> o
    i >> o
    return i


def rnn2u():
    l = L()
    i = c02.inp(default=(2,))
    i >> l.Recurrent(2, name='h', activation='tanh') >> l.FullyConnected(
        1, name='o', activation='linear')
    return i


def lstm2u():
    l = L()
    i = c02.inp(default=(1,))
    i >> l.Lstm(2, name='h', activation='tanh')
    return i


def cw2u():
    l = L()
    i = c02.inp(default=(1,))
    i >> l.Clockwork(2, name='h', activation='tanh')
    return i


def cwlstm2u():
    l = L()
    i = c02.inp(default=(1,))
    i >> l.ClockworkLstm(2, name='h', activation='tanh')
    return i


NETS = {
    'rnn': (rnn2u, {'default': (2,)}),
    'lstm': (lstm2u, {'default': (1,)}),
    'rnn-stack': (c02.rnn2, {'default': (1,)}),
    'rnn-skip': (c02.rnn_skip, {'default': (1,)}),
    'lstm-stack': (lstm_stack, {'default': (1,)}),
    'lstm-parallel-rnn': (c02.bilstm, {'default': (1,)}),
    'clockwork': (cw2u, {'default': (1,)}),
    'clockwork-lstm': (cwlstm2u, {'default': (1,)}),
}


def set_timing(net, timing):
    for n in net.layers:
        p = net.buffer[n].parameters
        if p is not None and 'timing' in p:
            t = p['timing']
            for k in range(t.shape[0]):
                t[k] = timing[k % len(timing)]


def out_of(net, T):
    r = {}
    for n in list(net.layers)[1:]:
        for k, v in net.buffer[n].outputs.items():
            if v.ndim >= 3 and v.shape[0] >= T:
                r['%s.%s' % (n, k)] = v[:T].copy()
    return r


def split(name, chunks, B, timing=(1,), between=None, start_ctx=False):
    build, spec = NETS[name]
    T = sum(chunks)

    def fn(ctx):
        data = make_data(ctx, spec, T, B)
        whole = make_net(ctx, build)
        set_timing(whole, timing)
        whole.provide_external_data(data)
        c0 = None
        if start_ctx:
            c0 = whole.get_context()
            for k, x in enumerate(c0):
                if x is not None:
                    set_(x, ctx.arr('ctx%d' % k, x.shape))
            whole.forward_pass(context=[None if x is None else x.copy()
                                        for x in c0])
        else:
            whole.forward_pass()
        want = out_of(whole, T)
        net = make_net(ctx, build)
        set_timing(net, timing)
        pos, c, saved = 0, c0, []
        for i, n in enumerate(chunks):
            part = {k: v[pos:pos + n] for k, v in data.items()}
            net.provide_external_data(part)
            if c is None:
                net.forward_pass()
            else:
                net.forward_pass(context=c)
            got = out_of(net, n)
            ctx.check(sorted(got) == sorted(want), 'same outputs')
            for k in want:
                ctx.eq(got[k], want[k][pos:pos + n],
                       'chunk %d of %s' % (i, k))
            c = net.get_context()
            saved.append((c, [None if x is None else x.copy() for x in c]))
            pos += n
            if between == 'pass' and i + 1 < len(chunks):
                # unrelated work on the same network between the chunks
                net.provide_external_data(make_data(ctx, spec, 2, B, 'u'))
                net.forward_pass(training_pass=True)
                net.backward_pass()
        for c, s in saved:
            for x, y in zip(c, s):
                if x is not None:
                    ctx.eq(x, y, 'a context taken earlier is a snapshot')
    return fn


def cases(tier):
    C = []
    th = tier == 'thorough'
    for n in NETS:
        cw = n.startswith('clockwork')
        B = 1 if cw or 'lstm' in n else 2
        C.append(Case('split-1-1-' + n, split(n, [1, 1], B),
                      bounds='T=1+1 B=%d' % B))
        C.append(Case('split-2-1-' + n, split(n, [2, 1], B),
                      bounds='T=2+1 B=%d' % B))
        C.append(Case('split-1-2-' + n, split(n, [1, 2], 2 if th else B),
                      bounds='T=1+2 B=%d' % B))
        C.append(Case('split-1-1-1-' + n, split(n, [1, 1, 1], B),
                      bounds='T=1+1+1 B=%d' % B))
        C.append(Case('work-between-' + n, split(n, [2, 1], B,
                                                 between='pass'),
                      bounds='T=2+1, unrelated training pass in between'))
        C.append(Case('from-context-' + n, split(n, [1, 2], B,
                                                 start_ctx=True),
                      bounds='arbitrary initial context, T=1+2'))
        if cw:
            C.append(Case('aligned-' + n, split(n, [2, 2], 1, (2, 1)),
                          bounds='timing (2,1), split after 2 of 4',
                          weight=4))
            C.append(Case('unaligned-' + n, split(n, [1, 1], 1, (2, 1)),
                          bounds='timing (2,1), split after 1 of 2'))
        C.append(Case('big-' + n, sparse(split(
            n, [4, 5, 3] if not cw else [4, 8, 4], 3, (1,) if not cw else
            (2, 4), start_ctx=not cw), 2), bounds='T=4+5+3 (clockwork: '
            '4+8+4, timing 2,4), B=3, mostly fixed numbers', weight=4))
        if th:
            C.append(Case('long-' + n, split(n, [2, 3, 1], B),
                          bounds='T=2+3+1', weight=8))
    return C

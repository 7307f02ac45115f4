"""C25: saved networks, logs and descriptions come back as they were."""
import json

import numpy as np

from symx.fakeh5 import Scratch
from symx.layers import make_handler, set_
from symx.runner import Case

ASSUMPTIONS = [
    'parameters, logs and data are arbitrary reals, networks a fixed list '
    'covering every layer type; symbolic runs store into an in-memory model '
    'of h5py (files, groups, resizable datasets), replays use the real one',
    'float precision of what is stored is outside (values are exact reals)',
]
_h = []


def handler(ctx):
    """a handler that can be described and re-created"""
    from brainstorm.handlers import NumpyHandler
    if not ctx.symbolic:
        return NumpyHandler(np.float64)
    if not _h:
        class VpFileHandler(NumpyHandler):
            def __init__(self, dtype=object, seed=None):
                super(VpFileHandler, self).__init__(dtype, seed)
                self.EMPTY = np.zeros(0, dtype=object)
        _h.append(VpFileHandler)
    return _h[0](object)


def nets():
    import brainstorm.layers as L

    def fc():
        i = L.Input(out_shapes={'default': ('T', 'B', 2), 'targets':
                                ('T', 'B', 1)})
        h = i >> L.FullyConnected(2, name='h', activation='tanh')
        e = L.SquaredError(name='E')
        h >> L.FullyConnected(1, name='o', activation='linear') >> e
        i - 'targets' >> 'targets' - e
        e - 'loss' >> L.Loss()
        return i

    def conv():
        i = L.Input(out_shapes={'default': ('T', 'B', 3, 4, 1), 'targets':
                                ('T', 'B', 1), 'mask': ('T', 'B', 1)})
        e = L.SoftmaxCE(name='E')
        m = L.Mask(name='M')
        i >> L.Convolution2D(2, (2, 2), stride=(1, 2), padding=1,
                             activation='rel') >> \
            L.Pooling2D((2, 1), type='avg', stride=(2, 1)) >> \
            L.Dropout(drop_prob=0.25) >> L.FullyConnected(3) >> e
        i - 'targets' >> 'targets' - e
        e - 'loss' >> m >> L.Loss(importance=0.5)
        i - 'mask' >> 'mask' - m
        return i

    def rec():
        i = L.Input(out_shapes={'default': ('T', 'B', 1), 'targets':
                                ('T', 'B', 3)})
        e = L.SigmoidCE(name='E')
        i >> L.Lstm(1, name='lstm') >> L.Clockwork(2, name='cw') >> \
            L.Recurrent(3, activation='sigmoid') >> e
        i - 'targets' >> 'targets' - e
        e - 'loss' >> L.Loss(name='main')
        return i

    def misc():
        i = L.Input(out_shapes={'default': ('T', 'B', 2)})
        h = L.FullyConnected((2,), name='x')
        t = L.FullyConnected(2, activation='sigmoid')
        i >> h
        i >> t
        hw = L.Highway()
        h >> 'H' - hw
        t >> 'T' - hw
        i >> 'x' - hw
        bn = L.BatchNorm(decay=0.75, epsilon=0.5)
        hw >> bn
        l2, l1 = L.L2Decay(name='l2'), L.L1Decay()
        mg = L.Merge()
        sd = L.SquaredDifference()
        bn >> 'inputs_1' - mg
        h >> 'inputs_2' - mg
        bn >> 'inputs_1' - sd
        i >> 'inputs_2' - sd
        mg >> L.Elementwise(activation="tanh") >> l2
        l2 - "loss" >> L.Loss(importance=0.1, name="La")
        sd >> L.DeltasScaling(2.0) >> L.NoOp() >> l1
        l1 - "loss" >> L.Loss(importance=2, name="Lb")
        return i
    return {'fc': fc, 'conv': conv, 'rec': rec, 'misc': misc}


def norm(x):
    """what JSON makes of it"""
    return json.loads(json.dumps(x))


def text(x):
    return x.decode() if isinstance(x, bytes) else str(x)


def build(ctx, name, setup='all'):
    import brainstorm as bs
    from brainstorm.value_modifiers import (ClipValues, FreezeValues,
                                            MaskValues)
    net = bs.Network.from_layer(nets()[name]())
    net.set_handler(handler(ctx))
    if setup != 'bare':
        net.initialize(default=bs.initializers.Gaussian(0.5))
    if setup == 'all':
        first = [n for n in net.layers if 'parameters' in net.buffer[n] and
                 len(net.buffer[n].parameters.keys())]
        k = sorted(net.buffer[first[0]].parameters.keys())
        net.initialize({'default': bs.initializers.Uniform(-0.5, 0.25),
                        'fallback': 0,
                        first[0]: {k[0]: bs.initializers.Gaussian(0.25, 1.0),
                                   'default': 0.5}})
        shp = net.buffer[first[0]].parameters[k[0]].shape
        mask = (np.arange(int(np.prod(shp))) % 3 / 2.0).reshape(shp)
        net.set_weight_modifiers({
            'default': ClipValues(-0.5, 2.0),
            first[0]: {k[0]: MaskValues(mask), 'default': FreezeValues()},
            first[-1]: [ClipValues(-3.0, 0.375), ClipValues(0.25, 1.0)]})
        net.set_gradient_modifiers({first[0]: {k[0]: ClipValues(-1.0, 0.5)}})
        net.output_name = 'E.outputs.predictions'
    p = net.buffer.parameters
    if setup == 'bare':
        set_(p, ctx.arr('w', p.shape))
    else:
        set_(p, ctx.arr('w', p.shape))
    return net


def params_of(net):
    out = {}
    for n in net.layers:
        if 'parameters' in net.buffer[n]:
            for k in net.buffer[n].parameters.keys():
                out[n, k] = net.get('%s.parameters.%s' % (n, k))
    return out


def same_structure(ctx, a, b):
    ctx.check(list(a.layers) == list(b.layers), 'the same layers in the same '
              'order')
    ctx.check(norm(a.architecture) == norm(b.architecture), 'the same '
              'architecture')
    for n in a.layers:
        x, y = a.layers[n], b.layers[n]
        ctx.check(type(x) is type(y), 'type of layer ' + n)
        ctx.check(norm(x.kwargs) == norm(y.kwargs), 'arguments of layer ' + n)
        ctx.check(all(list(getattr(x, s)) == list(getattr(y, s)) and
                      all(getattr(x, s)[k].shape == getattr(y, s)[k].shape
                          for k in getattr(x, s))
                      for s in ('in_shapes', 'out_shapes',
                                'parameter_shapes')),
                  'shapes of layer ' + n)
    ctx.check(a.output_name == b.output_name, 'output_name')
    ctx.check(type(a.handler) is type(b.handler) and
              np.dtype(a.handler.dtype) == np.dtype(b.handler.dtype),
              'handler and its dtype')
    from brainstorm.describable import get_description
    ctx.check(norm(get_description(a)) == norm(get_description(b)),
              'the same description (initializers, modifiers, ...)')


def same_params(ctx, got, want, what):
    ctx.check(set(got) == set(want), what + ': the same parameters')
    for k in want:
        ctx.check(got[k].shape == want[k].shape, what + ': shape')
        ctx.eq(got[k], want[k], '%s: %s.%s' % (what, k[0], k[1]), tol=1e-13)


def same_modifiers(ctx, a, b, tag):
    """both networks, put to the same state, are modified alike"""
    for what, buf in (('weight', 'parameters'), ('gradient', 'gradients')):
        v = a.buffer[buf]
        vals = ctx.arr('m' + tag + buf, (min(2, v.size),))
        full = np.zeros(v.shape, dtype=ctx.dtype if ctx.symbolic else float)
        full[...] = 0.75
        # first and last entries are arbitrary
        k = len(vals)
        full[:k - k // 2] = vals[:k - k // 2]
        full[len(full) - k // 2:] = vals[k - k // 2:]
        for net in (a, b):
            if buf == 'gradients':
                set_(net.buffer.parameters, full * 2)
            set_(net.buffer[buf], full)
            getattr(net, 'apply_%s_modifiers' % what)()
        ctx.eq(np.array(b.buffer[buf]), np.array(a.buffer[buf]),
               '%s modifiers do the same' % what)


def roundtrip(name, setup):
    def fn(ctx):
        import brainstorm as bs
        with Scratch(ctx) as s:
            net = build(ctx, name, setup)
            T, B = ctx.choose('size', [(0, 0), (2, 1)])
            if T:
                x = {k: np.zeros((T, B) + tuple(sh.shape[2:]))
                     for k, sh in net.layers['Input'].out_shapes.items()}
                net.provide_external_data(x)
            want = params_of(net)
            comment = ctx.choose('comment', ['', 'hello'])
            net.save_as_hdf5(s.path('n.h5'), comment=comment)
            same_params(ctx, params_of(net), want, 'saving changes nothing')
            with s.open('n.h5') as f:
                ctx.check('parameters' in f and 'description' in f and
                          text(f.attrs['format']) == 'Network file v1.0',
                          'file format')
                if comment:
                    ctx.check(text(f.attrs['comment']) == 'hello', 'comment')
            # later changes do not reach the file
            net2 = bs.Network.from_hdf5(s.path('n.h5'))
            same_structure(ctx, net, net2)
            same_params(ctx, params_of(net2), want, 'parameters survive')
            ctx.eq(net2.get('parameters'), net.get('parameters'),
                   'flat parameter vector')
            same_modifiers(ctx, net, net2, '')
    return fn


def described(name):
    """JSON description -> freshly instantiated network"""
    def fn(ctx):
        import brainstorm as bs
        from brainstorm.describable import (create_from_description,
                                            get_description)
        net = build(ctx, name, ctx.choose('setup', ['all', 'init', 'bare']))
        d = norm(get_description(net))
        net2 = create_from_description(d)
        same_structure(ctx, net, net2)
        same_modifiers(ctx, net, net2, '')
        if ctx.choose('init', [False, True]):
            # deterministic initialisers are applied again
            par = params_of(net)
            k = sorted(par)[-1]
            val = (np.arange(par[k].size) / 4.0).reshape(par[k].shape)
            net.initialize({'default': 0.75, k[0]: {
                k[1]: val.tolist(), 'default': bs.initializers.ArrayInitializer
                (0.5) if False else 0.5}})
            net3 = create_from_description(norm(get_description(net)))
            for kk, v in params_of(net3).items():
                want = val if kk == k else np.full(
                    par[kk].shape, 0.5 if kk[0] == k[0] else 0.75)
                ctx.eq(v, want, 'initial values of a re-created network')
    return fn


def history(ctx):
    """what a file holds is the state at the last save to it"""
    import brainstorm as bs
    with Scratch(ctx) as s:
        net = build(ctx, 'fc', 'init')
        n = net.buffer.parameters.size
        state = {}
        cur = ctx.arr('w', (n,))
        step = 0
        for k in range(3):
            op = ctx.choose('op%d' % k, ['save a', 'save b', 'change',
                                         'load a', 'resize'])
            if op.startswith('save'):
                net.save_as_hdf5(s.path(op[-1]))
                state[op[-1]] = cur
            elif op == 'change':
                step += 1
                cur = ctx.arr('w%d' % step, (n,))
                set_(net.buffer.parameters, cur)
            elif op == 'resize':
                net.provide_external_data({
                    'default': np.zeros((k + 1, 2, 2)),
                    'targets': np.zeros((k + 1, 2, 1))})
            elif 'a' in state:
                net = bs.Network.from_hdf5(s.path('a'))
                cur = state['a']
        ctx.eq(net.get('parameters'), cur, 'parameters of the network')
        for f, want in state.items():
            ctx.eq(bs.Network.from_hdf5(s.path(f)).get('parameters'), want,
                   'a file holds the parameters at the last save to it')


def pass_equal(ctx):
    """a loaded network computes and learns the same"""
    import brainstorm as bs
    with Scratch(ctx) as s:
        net = build(ctx, 'fc', ctx.choose('setup', ['init', 'bare']))
        net.save_as_hdf5(s.path('n.h5'))
        net2 = bs.Network.from_hdf5(s.path('n.h5'))
        x = {'default': ctx.arr('x', (1, 2, 2)),
             'targets': ctx.arr('t', (1, 2, 1))}
        for nn in (net, net2):
            nn.provide_external_data(x)
            nn.forward_pass(training_pass=True)
            nn.backward_pass()
        for p in ('E.outputs.predictions', 'h.outputs.default',
                  'Loss.outputs.loss', 'gradients'):
            ctx.eq(net2.get(p), net.get(p), 'a loaded network computes the '
                   'same ' + p)


def save_hook(ctx):
    """SaveNetwork saves at every call, load_network loads"""
    from brainstorm.hooks import SaveNetwork
    with Scratch(ctx) as s:
        net = build(ctx, 'fc', 'init')
        h = SaveNetwork(s.path('x.h5'))
        n = net.buffer.parameters.size
        calls = ctx.choose('calls', [1, 2, 3])
        for k in range(calls):
            set_(net.buffer.parameters, ctx.arr('w%d' % k, (n,)))
            h(k, 10 * k, net, None, {})
        want = net.get('parameters')
        set_(net.buffer.parameters, ctx.arr('later', (n,)))
        got = h.load_network()
        ctx.eq(got.get('parameters'), want, 'the network at the last call')
        same_structure(ctx, net, got)


def best_hook(criterion):
    def fn(ctx):
        from brainstorm.hooks import SaveBestNetwork
        with Scratch(ctx) as s:
            net = build(ctx, 'fc', 'init')
            n = net.buffer.parameters.size
            h = SaveBestNetwork('val.acc', filename=s.path('b.h5'),
                                criterion=criterion, verbose=False)
            vals = [ctx.real('v%d' % k) for k in range(3)]
            ws, log = [], []
            best = None
            for k, v in enumerate(vals):
                ws.append(ctx.arr('w%d' % k, (n,)))
                set_(net.buffer.parameters, ws[k])
                log.append(v)
                h(k, k, net, None, {'val': {'acc': list(log)}})
                if best is None or (v < vals[best] if criterion == 'min'
                                    else v > vals[best]):
                    best = k
            got = h.load_best_network()
            ctx.eq(got.get('parameters'), ws[best], 'the best network is '
                   'loaded from the file')
            same_structure(ctx, net, got)
    return fn


def logs_hook(ctx):
    from brainstorm.hooks import SaveLogs
    with Scratch(ctx) as s:
        h = SaveLogs(s.path('l.h5'))
        n = ctx.choose('n', [0, 1, 3])
        logs = {'train': {'total_loss': list(ctx.arr('a', (n,))),
                          'Accuracy': list(ctx.arr('b', (2,)))},
                'val': {'deep': {'x': list(ctx.arr('c', (1,)))}},
                'top': list(ctx.arr('d', (2,)))}
        if ctx.choose('twice', [False, True]):
            # more was logged the first time
            h(0, 0, None, None, dict(logs, stale=[1.0], top=[5.0]))
        h(1, 5, None, None, logs)

        def walk(g, d, path):
            ctx.check(sorted(g.keys()) == sorted(d), 'entries of /' + path)
            for k, v in d.items():
                if isinstance(v, dict):
                    walk(g[k], v, path + k + '/')
                else:
                    got = g[k][()] if len(v) else g[k]
                    ctx.check(tuple(got.shape) == (len(v),), 'length of ' + k)
                    if len(v):
                        ctx.eq(got, np.array(v), 'log /%s%s' % (path, k),
                               tol=1e-13)
        with s.open('l.h5') as f:
            walk(f, logs, '')
            ctx.check(text(f.attrs['format']) == 'Logs file v1.0', 'format')


def handlers(ctx):
    """type and precision of the handler survive"""
    import brainstorm as bs
    from brainstorm.describable import (create_from_description,
                                        get_description)
    from brainstorm.handlers import NumpyHandler, DebugHandler
    dt = ctx.choose('dtype', [np.float32, np.float64, 'float32', 'float64'])
    h = NumpyHandler(dt)
    if ctx.choose('debug', [False, True]):
        h = DebugHandler(h)
    net = bs.Network.from_layer(nets()['fc']())
    net.set_handler(h)
    net.initialize(1.5)
    d = norm(get_description(net))
    net2 = create_from_description(d)
    ctx.check(type(net2.handler) is type(h), 'type of the handler')
    p = net2.get('parameters')
    ctx.check((ctx.symbolic or p.dtype == np.dtype(dt)) and bool((p == 1.5).all()),
              'parameters in that precision')


def cases(tier):
    out = []
    for n in ('fc', 'conv', 'rec', 'misc'):
        for s in ('all', 'bare') + (('init',) if tier == 'thorough' or
                                    n == 'fc' else ()):
            out.append(Case('hdf5 %s %s' % (n, s), roundtrip(n, s),
                            {'network': n}, weight=4))
        out.append(Case('described %s' % n, described(n), {'network': n},
                        weight=3))
    out += [
        Case('history', history, {'operations': 3}, weight=6),
        Case('passes', pass_equal, {'T': 1, 'B': 2}, weight=3),
        Case('SaveNetwork', save_hook, {'calls': 3}, weight=2),
        Case('SaveBestNetwork max', best_hook('max'), {'calls': 3}, weight=2),
        Case('SaveBestNetwork min', best_hook('min'), {'calls': 3}, weight=2),
        Case('SaveLogs', logs_hook, {'depth': 3}),
        Case('handlers', handlers, {}),
    ]
    return out

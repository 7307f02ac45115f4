"""C11: the trainer's protocol - order of stepping, scoring, weight modifiers,
hooks, logs and stopping."""
import numpy as np

from symx.netlib import make_net
from symx.layers import make_handler, set_
from symx.runner import Case
from checks import c02

ASSUMPTIONS = [
    'hook timescales, intervals, the calls at which a hook stops the training '
    'and what it returns are arbitrary within the stated bounds; data and '
    'parameters are arbitrary reals where losses are compared',
]


def L():
    import brainstorm.layers as l
    return l


def lossnet():
    l = L()
    i = c02.inp(default=(1,), targets=(1,))
    se = l.SquaredError(name='se')
    i - 'default' >> l.FullyConnected(1, name='o', activation='linear') >> se
    i - 'targets' >> 'targets' - se
    se - 'loss' >> l.Loss()
    return i


def twoloss():
    l = L()
    i = c02.inp(default=(1,), targets=(1,))
    se = l.SquaredError(name='se')
    o = l.FullyConnected(1, name='o', activation='linear')
    i - 'default' >> o
    o >> se
    i - 'targets' >> 'targets' - se
    se - 'loss' >> l.Loss(name='l1')
    o >> l.L2Decay(name='d') - 'loss' >> l.Loss(name='l2', importance=0.5)
    return i


class Iter(object):
    """a data iterator over a given list of batches"""
    def __init__(self, batches):
        self.batches = batches
        self.length = len(batches)
        self.data_shapes = {k: v.shape for k, v in batches[0].items()}
        self.passes = 0

    def __call__(self, handler=None):
        self.passes += 1
        for b in self.batches:
            yield b


def batch(k, B=1):
    return {'default': np.full((1, B, 1), 1.0 + k),
            'targets': np.full((1, B, 1), 10.0 + k)}


class Spec(object):
    def __init__(self, name, timescale, interval):
        self.name, self.timescale, self.interval = name, timescale, interval
        self.calls = 0


def mk_hook(spec, events, decide, value, seen):
    from brainstorm.hooks import Hook

    class Probe(Hook):
        def start(self, net, stepper, verbose, named_data_iters):
            super(Probe, self).start(net, stepper, verbose, named_data_iters)
            events.append(('start', spec.name,
                           tuple(sorted(named_data_iters))))

        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            k = spec.calls
            spec.calls += 1
            events.append(('hook', spec.name, epoch_nr, update_nr))
            seen.append((spec.name, k, snapshot(logs)))
            v = value(spec.name, k)
            if decide(spec.name, k):
                e = StopIteration()
                if v is not None:
                    e = StopIteration(v)
                raise e
            return v
    return Probe(spec.name, spec.timescale, spec.interval, verbose=False)


def snapshot(logs):
    out = {}
    for k, v in logs.items():
        out[k] = snapshot(v) if isinstance(v, dict) else list(v)
    return out


def recorder(events):
    from brainstorm.training.steppers import TrainingStepper

    class St(TrainingStepper):
        def start(self, net):
            super(St, self).start(net)
            events.append(('stepper-start',))

        def run(self):
            self.net.forward_pass(training_pass=True)
            x = self.net.buffer.Input.outputs.default[0, 0, 0]
            events.append(('run', int(x) - 1))
    return St()


def modifier(events):
    from brainstorm.value_modifiers import ValueModifier

    class Mod(ValueModifier):
        def __call__(self, handler, view):
            events.append(('weights',))
    return Mod()


def concrete_net():
    import brainstorm as bs
    from brainstorm.handlers import NumpyHandler
    net = bs.Network.from_layer(lossnet())
    net.set_handler(NumpyHandler(np.float64))
    return net


def add_log(logs, name, v):
    if v is None:
        return
    if isinstance(v, dict):
        d = logs.setdefault(name, {})
        for k, x in v.items():
            add_log(d, k, x)
    else:
        logs.setdefault(name, []).append(v)


def protocol(scales, max_epochs=2, again=False, max_iv=3):
    def fn(ctx):
        from brainstorm.training.trainer import Trainer
        nb = ctx.choose('batches', [1, 2, 3])
        specs = [Spec('h%d' % i, s, ctx.choose('interval%d' % i,
                                               list(range(1, max_iv + 1))))
                 for i, s in enumerate(scales)]
        kinds = {s.name: ctx.choose('kind' + s.name, [None, 'num', 'dict'])
                 if s is specs[0] else 'num' for s in specs}
        specs.append(Spec('end', 'epoch', 1))

        def decide(name, k):
            if name == 'end':
                return k >= max_epochs * (1 if not state['second'] else 2) + \
                    (1 if state['second'] else 0)
            return bool(ctx.bool('stop_%s_%d' % (name, k)))

        def value(name, k):
            if name == 'end' or kinds[name] is None:
                return None
            if kinds[name] == 'num':
                return k + 0.5
            return {'a': k + 0.25, 'b': {'c': k}} if k % 2 == 0 else \
                {'a': k + 0.25}
        state = {'second': False}
        events, seen = [], []
        net = concrete_net()
        net.set_weight_modifiers(o={'W': modifier(events)})
        tr = Trainer(recorder(events), verbose=False)
        for s in specs:
            tr.add_hook(mk_hook(s, events, decide, value, seen))
        try:
            tr.add_hook(mk_hook(specs[0], events, decide, value, seen))
            ctx.fail('a second hook of the same name is refused')
        except ValueError:
            ctx.check(len(tr.hooks) == len(specs), 'and not added')
        it = Iter([batch(k) for k in range(nb)])
        valid = Iter([batch(9)])
        # reference
        want, logs, wseen = [], {}, []
        cnt = {'epoch': 0, 'update': 0}
        ncalls = {s.name: 0 for s in specs}

        def emit(scale):
            stop = False
            for s in specs:
                if s.timescale == scale and cnt[scale] % s.interval == 0:
                    k = ncalls[s.name]
                    ncalls[s.name] += 1
                    want.append(('hook', s.name, cnt['epoch'],
                                 cnt['update']))
                    wseen.append((s.name, k, snapshot(logs)))
                    stop |= decide(s.name, k)
                    add_log(logs, s.name, value(s.name, k))
            return stop

        def reference():
            want.append(('stepper-start',))
            for s in specs:
                want.append(('start', s.name,
                             ('training_data_iter', 'valid')))
            if emit('update') or emit('epoch'):
                return 0
            stop, passes = False, 0
            while not stop:
                cnt['epoch'] += 1
                passes += 1
                got = []
                for k in range(nb):
                    cnt['update'] += 1
                    want.append(('run', k))
                    want.append(('weights',))
                    got.append(k)
                    if emit('update'):
                        stop = True
                        break
                loss = sum(81.0 / 2 for k in got) / len(got)
                add_log(logs, 'rolling_training', {'total_loss': loss})
                stop |= emit('epoch')
            return passes
        set_(net.buffer.parameters, np.array([1.0, 0.0]))
        # W=1, b=0: the loss of every batch is (10 - 1)^2 / 2
        passes = 0
        for rnd in range(2 if again else 1):
            state['second'] = bool(rnd)
            tr.train(net, it, valid=valid)
            passes += reference()
            compare(ctx, events, want)
        ctx.check(it.passes == passes, 'one pass over the data per epoch')
        ctx.check(valid.passes == 0, 'other data left to the hooks')
        ctx.check(tr.current_epoch_nr == cnt['epoch'], 'epoch counter')
        ctx.check(tr.current_update_nr == cnt['update'], 'update counter')
        same_logs(ctx, seen, wseen)
        ctx.check(plain(tr.logs) == plain(logs), 'logs: %s, expected %s' % (
            tr.logs, logs))
    return fn


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return [float(x) for x in v]


def same_logs(ctx, seen, want):
    ctx.check(len(seen) == len(want), 'number of hook calls')
    for (n, k, l), (_, _, w) in zip(seen, want):
        ctx.check(plain(l) == plain(w), 'logs seen by call %d of %s' % (k, n))


def compare(ctx, events, want):
    for i, (a, b) in enumerate(zip(events, want)):
        ctx.check(a == b, 'event %d is %s, expected %s' % (i, a, b))
    ctx.check(len(events) == len(want), 'event after %d: got %s, expected %s'
              % (min(len(events), len(want)), events[len(want):][:2],
                 want[len(events):][:2]))


def losses(build, sizes, epochs, scorer=False):
    """rolling training log = averages over what the stepper saw"""
    def fn(ctx):
        from brainstorm.training.trainer import Trainer
        from brainstorm.training.steppers import ForwardStepper, SgdStepper
        from brainstorm.hooks import StopAfterEpoch
        from brainstorm.scorers import MeanSquaredError
        net = make_net(ctx, build)
        data = [{'default': ctx.arr('x%d' % k, (T, B, 1)),
                 'targets': ctx.arr('t%d' % k, (T, B, 1))}
                for k, (T, B) in enumerate(sizes)]
        lr = ctx.real('lr')
        tr = Trainer(SgdStepper(lr) if epochs == 1 else
                     ForwardStepper(use_training_pass=True), verbose=False)
        if scorer:
            tr.train_scorers = [MeanSquaredError(out_name='o.outputs.default',
                                                 name='mse')]
        tr.add_hook(StopAfterEpoch(epochs))
        # reference run
        ref = make_net(ctx, build)
        st = SgdStepper(lr) if epochs == 1 else \
            ForwardStepper(use_training_pass=True)
        tr.train(net, Iter(data))
        st.start(ref)
        acc, n, sq, cells = {}, 0, 0, 0
        for d in data:
            ref.provide_external_data(d)
            st.run()
            B = d['default'].shape[1]
            for k, v in ref.get_loss_values().items():
                acc[k] = acc.get(k, 0) + B * v
            n += B
            o = ref.buffer.o.outputs.default
            for e in (o - d['targets']).ravel():
                sq = sq + e * e / 2
                cells += 1
        log = tr.logs['rolling_training']
        ctx.check(set(log) == set(acc) | ({'mse'} if scorer else set()),
                  'one entry per loss and scorer')
        for k in acc:
            ctx.check(len(log[k]) == epochs, 'one entry per epoch')
            for e in range(epochs):
                ctx.eq(log[k][e] * n, acc[k], '%s of epoch %d' % (k, e + 1))
        if scorer:
            for e in range(epochs):
                ctx.eq(log['mse'][e] * cells, sq, 'score of epoch %d' % e)
        ctx.eq(net.buffer.parameters, ref.buffer.parameters, 'parameters')
    return fn


def evaluate(ctx):
    """Trainer.evaluate calls the hooks once, results kept apart"""
    from brainstorm.training.trainer import Trainer
    events, seen = [], []
    specs = [Spec('h%d' % i, ctx.choose('scale%d' % i, ['epoch', 'update']),
                  ctx.choose('iv%d' % i, [1, 2])) for i in range(3)]
    tr = Trainer(recorder(events), verbose=False)
    for s in specs:
        tr.add_hook(mk_hook(s, events, lambda n, k: False,
                            lambda n, k: {'v': 1.5} if n == 'h1' else 2.5,
                            seen))
    net = concrete_net()
    w = net.get('parameters')
    r = tr.evaluate(net, test=Iter([batch(1)]))
    hooks = [e[1] for e in events if e[0] == 'hook']
    ctx.check(sorted(hooks) == ['h0', 'h1', 'h2'], 'every hook called once')
    ctx.check([e for e in events if e[0] == 'start'] == [
        ('start', s.name, ('test',)) for s in specs], 'hooks started')
    ctx.check(plain(r) == {'h0': [2.5], 'h1': {'v': [1.5]}, 'h2': [2.5]},
              'results')
    ctx.check(tr.logs == {}, 'training logs untouched')
    ctx.check(not [e for e in events if e[0] in ('run', 'weights')],
              'no training')
    ctx.check(np.array_equal(net.get('parameters'), w), 'parameters')


def refusals(ctx):
    from brainstorm.training.trainer import Trainer
    from brainstorm.hooks import Hook
    net = concrete_net()
    events = []
    kind = ctx.choose('kind', ['missing', 'extra', 'error', 'start-error'])
    data = batch(0)

    class Bad(Hook):
        def start(self, net, stepper, verbose, named_data_iters):
            super(Bad, self).start(net, stepper, verbose, named_data_iters)
            if kind == 'start-error':
                raise RuntimeError('s')

        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            if kind == 'error' and update_nr == 1:
                raise RuntimeError('x')
    tr = Trainer(recorder(events), verbose=False)
    tr.add_hook(Bad(timescale='update', verbose=False))
    if kind == 'missing':
        del data['targets']
    elif kind == 'extra':
        data['more'] = data['default']
    try:
        import io
        import sys
        keep = sys.stderr, sys.stdout
        sys.stderr, sys.stdout = io.StringIO(), io.StringIO()
        try:
            tr.train(net, Iter([data, data]))
        finally:
            sys.stderr, sys.stdout = keep
        ctx.fail('error reported')
    except AssertionError:
        ctx.check(kind in ('missing', 'extra'), 'data names are checked')
    except RuntimeError:
        ctx.check(kind in ('error', 'start-error'), 'hook errors propagate')
    runs = len([e for e in events if e[0] == 'run'])
    ctx.check(runs == (1 if kind == 'error' else 0), 'nothing else ran')


def hook_options(ctx):
    """every provided hook goes by the given name, timescale and interval"""
    import brainstorm.hooks as H
    from brainstorm.training.schedules import Linear
    from brainstorm.training.trainer import Trainer
    args = {'EarlyStopper': ('a.b',), 'ModifyStepperAttribute':
            (Linear(1., 2., 3),), 'MonitorLayerDeltas': ('a',),
            'MonitorLayerGradients': ('a',), 'MonitorLayerInOuts': ('a',),
            'MonitorLayerParameters': ('a',), 'MonitorLoss': ('it',),
            'MonitorScores': ('it', []), 'SaveBestNetwork': ('a.b',),
            'SaveLogs': ('f',), 'SaveNetwork': ('f',), 'StopAfterEpoch': (3,),
            'StopAfterThresholdReached': ('a.b', 0.5), 'StopOnNan': (),
            'StopOnSigQuit': ()}
    kind = ctx.choose('hook', sorted(args))
    name = ctx.choose('name', [None, 'mine', 'a.b c'])
    scale = ctx.choose('timescale', ['epoch', 'update'])
    interval = ctx.int('interval', 1, 1000)
    kw = {}
    if kind not in ('SaveLogs', 'SaveNetwork'):
        kw['verbose'] = ctx.choose('verbose', [None, True, False])
    h = getattr(H, kind)(*args[kind], name=name, timescale=scale,
                         interval=interval, **kw)
    tr = Trainer(recorder([]), verbose=False)
    tr.add_hook(h)
    ctx.check(list(tr.hooks.values()) == [h], 'added')
    key = list(tr.hooks)[0]
    ctx.check(key == name if name else isinstance(key, str) and key != '',
              'goes by its name: %s' % key)
    ctx.check(h.timescale == scale, 'timescale')
    ctx.check(h.interval == interval, 'interval')
    if kw:
        ctx.check(h.verbose is kw['verbose'], 'verbosity')
    other = getattr(H, kind)(*args[kind], name=name)
    try:
        tr.add_hook(other)
        ctx.fail('a second hook of the same name is refused')
    except ValueError:
        ctx.check(list(tr.hooks.values()) == [h], 'the first one stays')


def cases(tier):
    th = tier == 'thorough'
    C = []
    for scales in (('epoch',), ('update',), ('epoch', 'update'),
                   ('update', 'epoch'), ('update', 'update'),
                   ('epoch', 'epoch')):
        C.append(Case('protocol-' + '-'.join(scales),
                      protocol(scales, 2, max_iv=3 if len(scales) == 1 or th
                               else 2),
                      bounds='<=2 epochs of <=3 batches, intervals <=%d, stop '
                      'at any call' % (3 if len(scales) == 1 or th else 2),
                      weight=5, max_paths=60000))
    C.append(Case('protocol-twice', protocol(('update',), 1, again=True),
                  bounds='train() called twice', weight=4))
    if th:
        C.append(Case('protocol-three', protocol(
            ('update', 'epoch', 'update'), 2, max_iv=2),
            bounds='three hooks', weight=20, max_paths=200000))
    for n, b in (('one', lossnet), ('two', twoloss)):
        C.append(Case('rolling-%s-loss' % n,
                      losses(b, [(1, 2), (1, 1)], 1, n == 'one'),
                      bounds='SGD, batches of 2 and 1', weight=2))
        C.append(Case('rolling-%s-epochs' % n,
                      losses(b, [(1, 2), (2, 1), (1, 3)], 2, n == 'one'),
                      bounds='2 epochs, batches of 2, 1 and 3', weight=2))
    C += [Case('evaluate', evaluate, bounds='3 hooks'),
          Case('refusals', refusals, bounds='4 kinds of failure'),
          Case('hook options', hook_options, bounds='15 hooks, intervals up to '
               '1000', max_paths=4000)]
    return C

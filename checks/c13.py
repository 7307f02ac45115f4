"""C13: describe / re-create round trips of all describable objects."""
import inspect
import json

import numpy as np

from symx.netlib import make_net
from symx.layers import FakeRnd, make_handler, set_
from symx.runner import Case
from checks import c11

ASSUMPTIONS = [
    'numeric settings are arbitrary reals (integers where an integer is '
    'meant); JSON itself is trusted: the symbolic run passes the description '
    'through a structural copy that only accepts JSON types, the concrete '
    'run through json.dumps/json.loads with sorted keys',
    'Orthogonal and EchoState: settings only (they call LAPACK)',
]


def jsonify(ctx, d):
    if not ctx.symbolic:
        return json.loads(json.dumps(d, sort_keys=True))

    def walk(v):
        if isinstance(v, dict):
            out = {}
            for k in sorted(v):
                if not isinstance(k, str):
                    ctx.fail('description key %r' % (k,))
                out[k] = walk(v[k])
            return out
        if isinstance(v, (list, tuple)):
            return [walk(x) for x in v]
        if v is None or isinstance(v, (bool, int, float, str)):
            return v
        ctx.fail('description contains a %s' % type(v).__name__)
    return walk(d)


def eqv(ctx, a, b, label):
    """structural equality up to JSON (tuples are lists)"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        ctx.check(type(a) is type(b), label + ': array stays array')
        ctx.eq(a, b, label)
    elif isinstance(a, dict):
        ctx.check(isinstance(b, dict) and sorted(a) == sorted(b),
                  label + ': keys')
        for k in a:
            eqv(ctx, a[k], b[k], '%s.%s' % (label, k))
    elif isinstance(a, (list, tuple)):
        ctx.check(isinstance(b, (list, tuple)) and len(a) == len(b),
                  label + ': length')
        for k, (x, y) in enumerate(zip(a, b)):
            eqv(ctx, x, y, '%s[%d]' % (label, k))
    elif a is None or isinstance(a, (str, bool)):
        ctx.check(type(a) is type(b) and a == b,
                  '%s: %r became %r' % (label, a, b))
    elif isinstance(a, (int, float)):
        ctx.check(isinstance(b, (int, float)) and not isinstance(b, bool),
                  '%s: number became %s' % (label, type(b)))
        if isinstance(a, float) and a in (float('inf'), float('-inf')):
            ctx.check(a == b, label)
        else:
            ctx.eq(a, b, label)
    else:
        ctx.check(type(a) is type(b), '%s: %s became %s' % (
            label, type(a).__name__, type(b).__name__))
        settings(ctx, a, b, label)


def settings(ctx, a, b, label):
    """constructor settings kept as attributes are the same"""
    for n in inspect.signature(type(a).__init__).parameters:
        if n in ('self', 'seed', 'args', 'kwargs', 'name'):
            continue
        if n in a.__dict__:
            if n not in b.__dict__:
                ctx.fail('%s.%s is gone' % (label, n))
            eqv(ctx, a.__dict__[n], b.__dict__[n], '%s.%s' % (label, n))


def roundtrip(ctx, x):
    from brainstorm.describable import get_description, \
        create_from_description
    d = get_description(x)
    j = jsonify(ctx, d)
    y = create_from_description(j)
    ctx.check(type(y) is type(x), 'same type')
    settings(ctx, x, y, type(x).__name__)
    eqv(ctx, d, get_description(y), 'description of the copy')
    eqv(ctx, d, get_description(x), 'describing again')
    return y


# ------------------------------ initializers -------------------------------

def initializer(name, shape):
    def fn(ctx):
        import brainstorm.initializers as I
        from brainstorm.randomness import RandomState
        r = lambda n: ctx.real(n)

        def pos(n):
            v = ctx.real(n)
            ctx.assume(v > 0)
            return v

        def two(a, b):
            ctx.assume(r(a) < r(b))
            return r(a), r(b)
        mk = {
            'DenseSqrtFanIn': lambda: I.DenseSqrtFanIn(r('scale')),
            'DenseSqrtFanIn-default': lambda: I.DenseSqrtFanIn(),
            'DenseSqrtFanIn-tanh': lambda: I.DenseSqrtFanIn('tanh'),
            'DenseSqrtFanInOut': lambda: I.DenseSqrtFanInOut(r('scale')),
            'DenseSqrtFanInOut-sig': lambda: I.DenseSqrtFanInOut('sigmoid'),
            'EchoState': lambda: I.EchoState(r('radius')),
            'Gaussian': lambda: I.Gaussian(r('std'), r('mean')),
            'Gaussian-default': lambda: I.Gaussian(),
            'Gaussian-std': lambda: I.Gaussian(r('std')),
            'Identity': lambda: I.Identity(
                r('scale'), r('std'), bool(ctx.bool('square'))),
            'LstmOptInit': lambda: I.LstmOptInit(
                I.Gaussian(r('std')), r('ig'), I.Uniform(pos('lim')),
                r('og')),
            'Orthogonal': lambda: I.Orthogonal(r('scale')),
            'RandomWalk': lambda: I.RandomWalk(scale=r('scale')),
            'RandomWalk-rel': lambda: I.RandomWalk('rel'),
            'SparseInputs': lambda: I.SparseInputs(
                I.Gaussian(r('std')), ctx.choose('n', [1, 2])),
            'SparseOutputs': lambda: I.SparseOutputs(
                I.Uniform(pos('lim')), 1),
            'Uniform': lambda: I.Uniform(*two('low', 'high')),
            'Uniform-sym': lambda: I.Uniform(pos('low')),
        }[name]
        x = mk()
        y = roundtrip(ctx, x)
        ctx.check(isinstance(y.rnd, RandomState), 'the copy can be seeded')
        if name in ('EchoState', 'Orthogonal'):
            return
        res = []
        for o in (x, y):
            set_rnd(ctx, o)
            res.append(o(shape))
        ctx.eq(res[0], res[1], 'initial values')
    return fn


class SeedRnd(FakeRnd):
    def generate_seed(self):
        return 1

    def set_seed(self, s):
        pass


def set_rnd(ctx, o, name='rnd'):
    o.rnd = SeedRnd(ctx, name)
    from brainstorm.initializers import Initializer
    for k, v in sorted(o.__dict__.items()):
        if isinstance(v, Initializer):
            set_rnd(ctx, v, name + k)


# -------------------------------- modifiers --------------------------------

def modifier(name):
    def fn(ctx):
        import brainstorm.value_modifiers as V
        h = make_handler(ctx)
        w, g = ctx.arr('w', (2, 2)), ctx.arr('g', (2, 2))
        m = ctx.arr('m', (2, 2))

        def limit():
            ctx.assume(ctx.real('limit') > 0)
            return ctx.real('limit')
        x = {
            'ConstrainL2Norm': lambda: V.ConstrainL2Norm(limit()),
            'ClipValues': lambda: V.ClipValues(ctx.real('lo'),
                                               ctx.real('hi')),
            'ClipValues-default': lambda: V.ClipValues(),
            'MaskValues': lambda: V.MaskValues(m),
            'FreezeValues': lambda: V.FreezeValues(),
            'L1Decay': lambda: V.L1Decay(ctx.real('f')),
            'L2Decay': lambda: V.L2Decay(ctx.real('f')),
        }[name]()
        if name == 'ClipValues':
            ctx.assume(ctx.real('lo') <= ctx.real('hi'))
        y = roundtrip(ctx, x)
        used = roundtrip(ctx, x)

        def apply(o, a, b):
            if isinstance(o, V.GradientModifier):
                o(h, a, b)
            else:
                o(h, b)
        if name == 'FreezeValues':
            apply(used, w.copy(), ctx.arr('v', (2, 2)))
        else:
            apply(used, w.copy(), g.copy())
        # a used modifier describes as a new one (the weights FreezeValues
        # remembers are deliberately not described)
        z = roundtrip(ctx, used) if name != 'FreezeValues' else y
        out = []
        for o in (x, y, z):
            a, b = w.copy(), g.copy()
            apply(o, a, b)
            ctx.eq(a, w, 'parameters kept')
            out.append(b)
        ctx.eq(out[0], out[1], 'modified values')
        ctx.eq(out[0], out[2], 'modified values after use')
    return fn


# ---------------------------- schedules, scorers ---------------------------

def schedule(name):
    def fn(ctx):
        import brainstorm.training.schedules as S
        r = ctx.real
        e = ctx.choose('e', [0, 1, 2, 5])
        x = {
            'Linear': lambda: S.Linear(r('a'), r('b'),
                                       ctx.choose('n', [1, 3])),
            'Exponential': lambda: S.Exponential(r('a'), r('f')),
            'Exponential-lim': lambda: S.Exponential(r('a'), r('f'), r('lo'),
                                                     r('hi')),
            'MultiStep': lambda: S.MultiStep(r('a'), [1, 2], [r('b'),
                                                              r('c')]),
            'DecreaseAfterEpoch': lambda: S.DecreaseAfterEpoch(r('a'), 2),
        }[name]()
        y = roundtrip(ctx, x)
        args = (e, 3 * e, ctx.choose('ts', ['epoch', 'update']), 1, None,
                None, {})
        v = x(*args)
        ctx.eq(v, y(*args), 'value')
        z = roundtrip(ctx, x)
        ctx.eq(v, z(*args), 'value after use')
    return fn


def scorer(name):
    def fn(ctx):
        import brainstorm.scorers as C
        kw = {}
        if bool(ctx.bool('named')):
            kw = dict(out_name='a.b', targets_name='t', mask_name='m',
                      name='nm')
        x = {'Accuracy': lambda: C.Accuracy(**kw),
             'Hamming': lambda: C.Hamming(ctx.real('thr'), **kw),
             'MeanSquaredError': lambda: C.MeanSquaredError(**kw)}[name]()
        y = roundtrip(ctx, x)
        ctx.check(y.__name__ == x.__name__, 'name')
        p = ctx.arr('p', (2, 2))
        if name == 'Accuracy':
            t = np.array([[0], [1]])
        elif name == 'Hamming':
            t = np.array([[0, 1], [1, 1]])
        else:
            t = ctx.arr('t', (2, 2))
        ctx.eq(x(t, p), y(t, p), 'score')
    return fn


# --------------------------------- stepper ---------------------------------

def stepper(name):
    def fn(ctx):
        import brainstorm.training.steppers as S
        r = ctx.real
        mk = {
            'Sgd': lambda: S.SgdStepper(r('lr')),
            'Momentum': lambda: S.MomentumStepper(
                r('lr'), r('mu'), bool(ctx.bool('scale'))),
            'Nesterov': lambda: S.NesterovStepper(
                r('lr'), r('mu'), bool(ctx.bool('scale'))),
            'Forward': lambda: S.ForwardStepper(bool(ctx.bool('training'))),
        }[name]
        x = mk()
        y = roundtrip(ctx, x)
        res = []

        def go(st):
            net = make_net(ctx, c11.lossnet)
            st.start(net)
            for k in range(2):
                net.provide_external_data({
                    'default': ctx.arr('x%d' % k, (1, 1, 1)),
                    'targets': ctx.arr('t%d' % k, (1, 1, 1))})
                st.run()
            res.append(np.array(net.buffer.parameters).copy())
        go(x)
        go(y)
        go(roundtrip(ctx, x))
        ctx.eq(res[0], res[1], 'parameters after two steps')
        ctx.eq(res[0], res[2], 'a used stepper describes as a new one')
    return fn


# ---------------------------------- hooks ----------------------------------

def hooks(ctx):
    import brainstorm.hooks as H
    import brainstorm.scorers as C
    import brainstorm.training.schedules as S
    r = ctx.real
    iv = ctx.int('interval', 1, 1000)
    ts = ctx.choose('timescale', ['epoch', 'update'])
    vb = ctx.choose('verbose', [None, True, False])
    kw = dict(timescale=ts, interval=iv, name='some_name')
    kv = dict(kw, verbose=vb)
    mk = {
        'SaveBestNetwork': lambda: H.SaveBestNetwork(
            'v.x', criterion=ctx.choose('crit', ['min', 'max']), **kv),
        'SaveBestNetwork-file': lambda: H.SaveBestNetwork(
            'v.x', filename='/nowhere/f.h5', **kv),
        'SaveLogs': lambda: H.SaveLogs('/nowhere/f.h5', **kw),
        'SaveNetwork': lambda: H.SaveNetwork('/nowhere/f.h5', **kw),
        'MonitorLayerDeltas': lambda: H.MonitorLayerDeltas('l', **kv),
        'MonitorLayerGradients': lambda: H.MonitorLayerGradients('l', **kv),
        'MonitorLayerInOuts': lambda: H.MonitorLayerInOuts('l', **kv),
        'MonitorLayerParameters': lambda: H.MonitorLayerParameters('l',
                                                                   **kv),
        'MonitorLoss': lambda: H.MonitorLoss('it', **kv),
        'MonitorScores': lambda: H.MonitorScores(
            'it', [C.Accuracy(), C.Hamming(r('thr'), name='h')], **kv),
        'EarlyStopper': lambda: H.EarlyStopper(
            'v.x', ctx.int('patience', 1, 1000),
            ctx.choose('crit', ['min', 'max']), **kv),
        'StopAfterEpoch': lambda: H.StopAfterEpoch(
            ctx.int('max', 0, None), **kv),
        'StopAfterThresholdReached': lambda: H.StopAfterThresholdReached(
            'v.x', r('thr'), ctx.choose('crit', ['min', 'max']), **kv),
        'StopOnNan': lambda: H.StopOnNan(
            ['a.b', 'c'], bool(ctx.bool('cp')), bool(ctx.bool('ct')), **kv),
        'StopOnNan-default': lambda: H.StopOnNan(**kv),
        'StopOnSigQuit': lambda: H.StopOnSigQuit(**kv),
        'ProgressBar': lambda: H.ProgressBar(),
        'ModifyStepperAttribute': lambda: H.ModifyStepperAttribute(
            S.Linear(r('a'), r('b'), 3), 'momentum', **kv),
    }
    name = ctx.choose('hook', sorted(mk))
    x = mk[name]()
    y = roundtrip(ctx, x)
    for a in ('timescale', 'interval', 'verbose'):
        eqv(ctx, getattr(x, a), getattr(y, a), a)


def trainer(ctx):
    """names, order, settings and behaviour survive; what happened in
    training does not get into the description"""
    from brainstorm.describable import get_description, \
        create_from_description
    import brainstorm.hooks as H
    import brainstorm.scorers as C
    import brainstorm.training.steppers as S
    from brainstorm.training.trainer import Trainer
    r = ctx.real
    order = ctx.choose('order', [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)])
    mk = [lambda: H.MonitorScores('valid', [C.MeanSquaredError(
              out_name='o.outputs.default')], name='z', verbose=False),
          lambda: H.StopAfterEpoch(1, verbose=False),
          lambda: H.MonitorLoss('valid', name='a', timescale='update',
                                verbose=False),
          lambda: H.SaveBestNetwork('z.total_loss', criterion='min',
                                    name='m', verbose=False)]
    kind = ctx.choose('save', [True, False])
    t = Trainer(S.SgdStepper(r('lr')), verbose=False)
    t.train_scorers = [C.MeanSquaredError(out_name='o.outputs.default',
                                          name='tr')]
    for k in order:
        if k != 3 or (kind and order.index(0) < order.index(3)):
            t.add_hook(mk[k]())
    d = get_description(t)
    names = list(t.hooks)
    u = create_from_description(jsonify(ctx, d))
    ctx.check(list(u.hooks) == names, 'hooks in the order added: %s' %
              list(u.hooks))
    ctx.check([h.__name__ for h in u.hooks.values()] == names, 'names')
    ctx.check(u.logs == {} and u.results == {} and u.current_epoch_nr == 0
              and u.current_update_nr == 0, 'a new trainer')
    eqv(ctx, d, get_description(u), 'description of the copy')
    data = [{'default': ctx.arr('x%d' % k, (1, 1, 1)),
             'targets': ctx.arr('t%d' % k, (1, 1, 1))} for k in range(2)]
    nets = []
    for tr in (t, u):
        net = make_net(ctx, c11.lossnet)
        tr.train(net, c11.Iter(data[:1]), valid=c11.Iter(data[1:]))
        nets.append(net)
    ctx.eq(nets[0].buffer.parameters, nets[1].buffer.parameters,
           'parameters after training')
    cmp_logs(ctx, t.logs, u.logs, 'logs')
    ctx.check(list(t.logs) == list(u.logs), 'order of the logs')
    eqv(ctx, d, get_description(t), 'description after training')
    # a hook added to the copy comes last
    u.add_hook(H.StopOnNan(name='new'))
    v = create_from_description(jsonify(ctx, get_description(u)))
    ctx.check(list(v.hooks) == names + ['new'], 'order with a new hook')


def cmp_logs(ctx, a, b, label):
    ctx.check(sorted(a) == sorted(b), label + ': keys')
    for k in a:
        if isinstance(a[k], dict):
            cmp_logs(ctx, a[k], b[k], label + '.' + k)
        else:
            ctx.check(len(a[k]) == len(b[k]), label + '.' + k)
            for x, y in zip(a[k], b[k]):
                ctx.eq(x, y, label + '.' + k)


def containers(ctx):
    from brainstorm.describable import get_description, \
        create_from_description
    import brainstorm.value_modifiers as V
    r = ctx.real
    x = {'a': [r('p'), (ctx.int('n', None, None), 'text', None, True)],
         'b': {'c': [[], {}], 'd': V.L2Decay(r('q'))},
         'e': ctx.arr('arr', (2, 2))}
    d = get_description(x)
    j = jsonify(ctx, d)
    y = create_from_description(j)
    ctx.eq(y['a'][0], r('p'), 'number')
    ctx.eq(y['a'][1][0], ctx.int('n', None, None), 'integer')
    ctx.check(y['a'][1][1:] == ['text', None, True], 'basic types')
    ctx.check(y['b']['c'] == [[], {}], 'empty containers')
    ctx.check(type(y['b']['d']) is V.L2Decay, 'nested object')
    ctx.eq(y['b']['d'].factor, r('q'), 'nested object')
    ctx.eq(np.array(y['e'], dtype=ctx.dtype), ctx.arr('arr', (2, 2)),
           'array as nested list')

    class Odd(object):
        pass
    for bad in (Odd(), [Odd()], {'a': Odd()}, {1, 2}):
        try:
            get_description(bad)
            ctx.fail('not describable')
        except TypeError:
            ctx.check(True, '')
    for bad in ({'@type': 'NoSuchClassAtAll'}, Odd(), (1, 2)):
        try:
            create_from_description(bad)
            ctx.fail('invalid description refused')
        except TypeError:
            ctx.check(True, '')


_local = []


def local_classes():
    # defined once: descriptions find classes by name
    from brainstorm.describable import Describable
    if not _local or not issubclass(_local[-1], Describable):
        class VpBase(Describable):
            __undescribed__ = {'cache': [], 'tmp': 3}
            __default_values__ = {'x': 1.5, 'l': [1]}

        class VpSub(VpBase):
            __undescribed__ = {'other'}
            __default_values__ = {'y': None}
        _local.append(VpSub)
    return _local[-1]


def inherited(ctx):
    """attributes declared undescribed or default anywhere in the class
    hierarchy"""
    from brainstorm.describable import get_description, \
        create_from_description
    VpSub = local_classes()
    o = VpSub()
    o.cache, o.tmp, o.other = [1, 2], 4, object()
    o.x, o.y, o.l = ctx.real('x'), ctx.choose('y', [None, 'v']), \
        ctx.choose('l', [[1], [2]])
    d = jsonify(ctx, get_description(o))
    ctx.check(not {'cache', 'tmp', 'other'} & set(d), 'left out')
    a, b = create_from_description(d), create_from_description(d)
    for c in (a, b):
        ctx.check(type(c) is VpSub, 'type')
        ctx.check(c.cache == [] and c.tmp == 3 and c.other is None,
                  'initial values of undescribed attributes')
        ctx.eq(c.x, ctx.real('x'), 'x')
        ctx.check(c.y == o.y and c.l == o.l, 'y, l')
    a.cache.append(1)
    a.l.append(5)
    c = create_from_description(d)
    ctx.check(b.cache == [] and c.cache == [] and b.l == o.l and
              c.l == o.l, 'copies share nothing')


def cases(tier):
    C = []
    for n, s in (('DenseSqrtFanIn', (2, 2)), ('DenseSqrtFanIn-default', (1, 2)),
                 ('DenseSqrtFanIn-tanh', (2, 1)),
                 ('DenseSqrtFanInOut', (2, 1)), ('EchoState', (2, 2)),
                 ('DenseSqrtFanInOut-sig', (2, 1)),
                 ('Gaussian', (2,)), ('Gaussian-default', (2,)),
                 ('Gaussian-std', (2, 1)), ('Identity', (2, 2)),
                 ('LstmOptInit', (4, 1)), ('Orthogonal', (2, 2)),
                 ('RandomWalk', (2, 2)), ('RandomWalk-rel', (2, 2)),
                 ('SparseInputs', (2, 2)), ('SparseOutputs', (2, 2)),
                 ('Uniform', (2, 2)), ('Uniform-sym', (3,))):
        C.append(Case('init-' + n, initializer(n, s),
                      bounds='shape %s' % (s,)))
    for n in ('ConstrainL2Norm', 'ClipValues', 'ClipValues-default',
              'MaskValues', 'FreezeValues', 'L1Decay', 'L2Decay'):
        C.append(Case('modifier-' + n, modifier(n), bounds='2x2'))
    for n in ('Linear', 'Exponential', 'Exponential-lim', 'MultiStep',
              'DecreaseAfterEpoch'):
        C.append(Case('schedule-' + n, schedule(n), bounds='4 time points'))
    for n in ('Accuracy', 'Hamming', 'MeanSquaredError'):
        C.append(Case('scorer-' + n, scorer(n), bounds='2x2'))
    for n in ('Sgd', 'Momentum', 'Nesterov', 'Forward'):
        C.append(Case('stepper-' + n, stepper(n), bounds='2 steps'))
    C += [Case('hooks', hooks, bounds='every hook, any settings', weight=3),
          Case('trainer', trainer, bounds='up to 4 hooks in 3 orders, one '
               'epoch', weight=3),
          Case('containers', containers, bounds='nested containers'),
          Case('inherited', inherited, bounds='two-level hierarchy')]
    return C

"""C10: schedules follow their documented curves and reach the stepper at the
right time."""
import numpy as np

from symx.runner import Case

ASSUMPTIONS = [
    'initial/final values, factors and limits are arbitrary reals, epoch and '
    'update numbers arbitrary non-negative integers (bounded where an '
    'exponent or a training run depends on them)',
    'minimum <= maximum and sorted distinct steps, as documented',
]


def S():
    import brainstorm.training.schedules as s
    return s


def counters(ctx, hi=None):
    scale = ctx.choose('timescale', ['epoch', 'update'])
    e, u = ctx.int('epoch', 0, hi), ctx.int('update', 0, hi)
    return scale, e, u, (e if scale == 'epoch' else u)


def call(s, e, u, scale, interval):
    return s(e, u, scale, interval, None, None, {})


def linear(ctx):
    scale, e, u, cur = counters(ctx)
    interval = ctx.choose('interval', [1, 2, 3])
    num = ctx.choose('num', [1, 2, 3, 5])
    a, b = ctx.real('initial'), ctx.real('final')
    s = S().Linear(a, b, num)
    v = call(s, e, u, scale, interval)
    k = cur // interval
    if k >= num:
        ctx.eq(v, b, 'final value after the last change')
    else:
        ctx.eq((v - a) * num, (b - a) * k, 'k-th of num equal increments')
    ctx.check(ctx.Or(ctx.And(v >= a, v <= b), ctx.And(v <= a, v >= b)),
              'never leaves the range')


def exponential(limits):
    def fn(ctx):
        scale, e, u, cur = counters(ctx, 7)
        cur = int(cur)
        e, u = (cur, u) if scale == 'epoch' else (e, cur)
        interval = ctx.choose('interval', [1, 2, 3])
        a, f = ctx.real('initial'), ctx.real('factor')
        kw = {}
        if limits in ('min', 'both'):
            kw['minimum'] = ctx.real('lo')
        if limits in ('max', 'both'):
            kw['maximum'] = ctx.real('hi')
        if limits == 'both':
            ctx.assume(kw['minimum'] <= kw['maximum'])
        v = call(S().Exponential(a, f, **kw), e, u, scale, interval)
        exact = a
        for _ in range(cur // interval):
            exact = exact * f
        if 'minimum' in kw:
            ctx.check(v >= kw['minimum'], 'never below the minimum')
        if 'maximum' in kw:
            ctx.check(v <= kw['maximum'], 'never above the maximum')
        if 'minimum' in kw and bool(exact <= kw['minimum']):
            ctx.eq(v, kw['minimum'], 'clipped to minimum')
        elif 'maximum' in kw and bool(exact >= kw['maximum']):
            ctx.eq(v, kw['maximum'], 'clipped to maximum')
        else:
            ctx.eq(v, exact, 'initial * factor ** k')
    return fn


def multistep(n):
    def fn(ctx):
        scale, e, u, cur = counters(ctx)
        steps = [ctx.int('s%d' % k, 1, None) for k in range(n)]
        for p, q in zip(steps, steps[1:]):
            ctx.assume(p < q)
        a = ctx.real('initial')
        vals = [ctx.real('v%d' % k) for k in range(n)]
        s = S().MultiStep(a, list(steps), list(vals))
        v = call(s, e, u, scale, 1)
        want = a
        for st, x in zip(steps, vals):
            if bool(cur >= st):
                want = x
        ctx.eq(v, want, 'value of the last step reached')
        ctx.eq(call(s, e, u, scale, 1), want, 'same when asked again')
        try:
            call(s, e, u, scale, 2)
            ctx.fail('interval other than 1 is refused')
        except AssertionError:
            ctx.check(True, '')
    return fn


def decrease(ctx):
    scale, e, u, cur = counters(ctx)
    T = ctx.choose('T', [1, 2, 5, 25])
    a = ctx.real('initial')
    v = call(S().DecreaseAfterEpoch(a, T), e, u, scale, 1)
    if e < T:
        ctx.eq(v, a, 'constant for the first T epochs')
    else:
        ctx.eq(v * (e + 1), a * T, 'initial * T / epoch afterwards')


class Stepper(object):
    def __init__(self, lr, mu):
        self.learning_rate = lr
        self.momentum = mu
        self.other = lr
        self.seen = []

    def start(self, net):
        self.net = net

    def run(self):
        self.seen.append((self.learning_rate, self.momentum))


def modify(ctx):
    """the hook sets exactly the schedule's value"""
    from brainstorm.hooks import ModifyStepperAttribute
    scale, e, u, cur = counters(ctx)
    interval = ctx.choose('interval', [1, 2, 3])
    attr = ctx.choose('attr', ['learning_rate', 'momentum'])
    st = Stepper(ctx.real('lr'), ctx.real('mu'))
    before = dict(st.__dict__)
    value = ctx.real('value')
    calls = []

    def sched(epoch_nr, update_nr, timescale, interval, net, stepper, logs):
        calls.append((epoch_nr, update_nr, timescale, interval, net, stepper,
                      logs))
        return value
    logs, net = {}, object()
    if attr == 'learning_rate' and bool(ctx.bool('default')):
        h = ModifyStepperAttribute(sched, timescale=scale, interval=interval)
    else:
        h = ModifyStepperAttribute(sched, attr, scale, interval)
    h.start(net, st, False, {})
    ctx.eq(getattr(st, attr), before[attr], 'start changes nothing')
    h(e, u, net, st, logs)
    ctx.check(len(calls) == 1, 'schedule asked once')
    a = calls[0]
    ctx.eq(a[0], e, 'epoch number')
    ctx.eq(a[1], u, 'update number')
    ctx.check(a[2] == scale and a[3] == interval, 'timescale and interval')
    ctx.check(a[4] is net and a[5] is st and a[6] is logs, 'net, stepper, '
              'logs')
    ctx.eq(getattr(st, attr), value, 'attribute set')
    for k, v in st.__dict__.items():
        if k not in (attr, 'seen'):
            ctx.eq(v, before[k], 'attribute %s untouched' % k)
    try:
        ModifyStepperAttribute(sched, 'no_such').start(net, st, False, {})
        ctx.fail('unknown attribute is refused')
    except AssertionError:
        ctx.check(True, '')


def training(timescale, kind):
    """value in effect while the n-th update runs"""
    def fn(ctx):
        from brainstorm.hooks import ModifyStepperAttribute, StopAfterEpoch
        from brainstorm.training.trainer import Trainer
        s = S()
        interval = 1 if kind in ('multi', 'decrease') else \
            ctx.choose('interval', [1, 2, 3])
        epochs = ctx.choose('epochs', [1, 2, 4])
        nb = ctx.choose('batches', [1, 2, 3])
        a, b = ctx.real('a'), ctx.real('b')
        sched = {'linear': lambda: s.Linear(a, b, 3),
                 'exp': lambda: s.Exponential(a, b),
                 'multi': lambda: s.MultiStep(a, [2], [b]),
                 'decrease': lambda: s.DecreaseAfterEpoch(a, 2)}[kind]()
        net = FakeNet()
        st = Stepper(ctx.real('lr'), ctx.real('mu'))
        mu = st.momentum
        tr = Trainer(st, verbose=False)
        tr.add_hook(ModifyStepperAttribute(sched, timescale=timescale,
                                           interval=interval))
        tr.add_hook(StopAfterEpoch(epochs))
        tr.train(net, FakeIter(nb))
        ctx.check(len(st.seen) == epochs * nb, 'number of updates')
        for n, (lr, m) in enumerate(st.seen):
            cur = n // nb if timescale == 'epoch' else n
            k = cur // interval
            if kind == 'linear':
                want = a + (b - a) * min(k, 3) / 3
            elif kind == 'exp':
                want = a
                for _ in range(k):
                    want = want * b
            elif kind == 'multi':
                want = b if cur >= 2 else a
            else:
                want = a * 2 / max(n // nb + 1, 2)
            ctx.eq(lr, want, 'learning rate during update %d' % (n + 1))
            ctx.eq(m, mu, 'momentum untouched')
    return fn


class FakeIter(object):
    """one named input, n batches"""
    def __init__(self, n):
        self.n = n
        self.length = n
        self.data_shapes = {'default': ('T', 'B', 1)}

    def __call__(self, handler=None):
        for i in range(self.n):
            yield {'default': np.zeros((1, 1, 1)) + i}


class FakeNet(object):
    """stands in for the network where the trainer's protocol is studied"""
    def __init__(self, on=None):
        class O(object):
            pass
        self.buffer = O()
        self.buffer.Input = O()
        self.buffer.Input.outputs = {'default': np.zeros((1, 1, 1))}
        self.handler = None
        self._buffer_manager = O()
        self._buffer_manager.batch_size = 1
        self.on = on or (lambda *a: None)

    def provide_external_data(self, data, all_inputs=True):
        self.on('data', data)

    def get_loss_values(self):
        return {'total_loss': 0.0}

    def apply_weight_modifiers(self):
        self.on('weights')


def cases(tier):
    C = [Case('linear', linear, bounds='1,2,3,5 changes, interval<=3, any '
              'epoch/update number', weight=2)]
    for k in ('none', 'min', 'max', 'both'):
        C.append(Case('exponential-' + k, exponential(k),
                      bounds='limits: %s, up to 7 epochs/updates, '
                      'interval<=3' % k, weight=2))
    for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)):
        C.append(Case('multistep-%d' % n, multistep(n),
                      bounds='%d steps anywhere, any number' % n))
    C.append(Case('decrease-after-epoch', decrease,
                  bounds='T in 1,2,5,25; any epoch'))
    C.append(Case('modify-stepper', modify, bounds='any value'))
    for ts in ('epoch', 'update'):
        for k in ('linear', 'exp', 'multi', 'decrease'):
            if (k, ts) == ('decrease', 'update'):
                continue        # defined per epoch only
            C.append(Case('training-%s-%s' % (k, ts), training(ts, k),
                          bounds='<=4 epochs of <=3 batches', weight=2))
    return C

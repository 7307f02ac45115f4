"""C17: scores, losses and monitor statistics are exactly what they say, on the
whole data, however it is batched, and computing them disturbs nothing."""
import numpy as np

from symx.netlib import make_net
from symx.layers import make_handler, FakeRnd
from symx.runner import Case
from checks import c02, c11

ASSUMPTIONS = [
    'predictions, targets, parameters and thresholds are arbitrary reals, '
    'class labels arbitrary integers in range, masks 0/1 with at least one '
    'valid entry; ties between the highest class scores are excluded',
]


def L():
    import brainstorm.layers as l
    return l


def indicator(ctx, c):
    return ctx.ite(c, 1.0, 0.0)


def ints(ctx, *a):
    v = ctx.ints(*a)
    return v if ctx.symbolic else v.astype(np.float64)


def labels(ctx, name, n, k):
    return ints(ctx, name, (n, 1), 0, k - 1)


def binary(ctx, name, shape):
    """0/1 values, some 1"""
    m = ints(ctx, name, shape, 0, 1)
    ctx.assume(sum(m.ravel()) >= 1)
    if ctx.symbolic:
        m = np.array([1.0 if bool(v > 0) else 0.0
                      for v in m.ravel()]).reshape(shape)
    return m


def score(ctx, kind, pred, true, mask, thr=0.5):
    """(weighted sum, weight) straight from the definition"""
    n, d = pred.shape
    tot = 0.0
    w = 0.0
    for i in range(n):
        m = 1.0 if mask is None else mask[i, 0]
        if kind == 'Accuracy' and d > 1:
            c = ctx.Or(*[ctx.And(true[i, 0] == k, *[
                pred[i, k] > pred[i, j] for j in range(d) if j != k])
                for k in range(d)])
            s = indicator(ctx, c)
        elif kind == 'Accuracy':
            s = indicator(ctx, pred[i, 0] == true[i, 0])
        elif kind == 'Hamming':
            s = sum(indicator(ctx, ctx.Or(
                ctx.And(pred[i, j] >= thr, true[i, j] != 0),
                ctx.And(pred[i, j] < thr, true[i, j] == 0)))
                for j in range(d)) / d
        else:
            s = sum((true[i, j] - pred[i, j]) * (true[i, j] - pred[i, j])
                    for j in range(d)) / 2
        tot = tot + s * m
        w = w + m
    return tot, w


def untied(ctx, pred):
    if pred.shape[-1] > 1:
        for row in pred.reshape(-1, pred.shape[-1]):
            for i in range(len(row)):
                for j in range(i):
                    ctx.assume(ctx.Or(row[i] < row[j], row[i] > row[j]))


def scorer(kind, n, d, masked):
    def fn(ctx):
        import brainstorm.scorers as S
        thr = 0.5
        kw = {}
        if kind == 'Hamming' and ctx.choose('threshold', [0, 1]):
            thr = kw['threshold'] = ctx.real('thr')
        sc = getattr(S, kind)(**kw)
        pred = ctx.arr('p', (n, d))
        if kind == 'Accuracy':
            untied(ctx, pred)
            true = labels(ctx, 't', n, max(d, 2))
        elif kind == 'Hamming':
            true = ints(ctx, 't', (n, d), 0, 1)
        else:
            true = ctx.arr('t', (n, d))
        mask = binary(ctx, 'm', (n, 1)) if masked else None
        keep = [None if a is None else a.copy() for a in (pred, true, mask)]
        got = sc(true, pred, mask)
        ctx.eq(got, score(ctx, kind, keep[0], keep[1], keep[2], thr)[0],
               'score')
        for a, b, name in zip((pred, true, mask), keep, ('predictions',
                                                         'targets', 'mask')):
            if a is not None:
                ctx.eq(a, b, name + ' kept')
    return fn


def aggregate(n):
    def fn(ctx):
        import brainstorm.scorers as S
        pairs = []
        for k in range(n):
            w = ctx.real('w%d' % k)
            ctx.assume(w >= 0)
            pairs.append((w, ctx.real('e%d' % k)))
        ctx.assume(sum(w for w, _ in pairs) > 0)
        got = S.Scorer.aggregate(list(pairs))
        ctx.eq(got * sum(w for w, _ in pairs), sum(e for _, e in pairs),
               'sum of errors / sum of weights')
    return fn


def net_for(ctx, what):
    l = L()

    def build():
        i = c02.inp(default=(2,), targets=(2,), other=(2,), m=(1,))
        a = l.FullyConnected(2, name='a', activation='linear')
        o = l.FullyConnected(2, name='o', activation='linear')
        se = l.SquaredError(name='se')
        loss = l.Loss(name='l', importance=0.5)
        i - 'default' >> a
        x = a
        if what == 'dropout':
            x = a >> l.Dropout(0.5, name='d')
        x >> o >> se
        i - 'targets' >> 'targets' - se
        if what == 'mask':
            mk = l.Mask(name='mk')
            se - 'loss' >> mk
            i - 'm' >> 'mask' - mk
            mk >> loss
        else:
            se - 'loss' >> loss
        if what == 'two':
            o >> l.L2Decay(name='dec') - 'loss' >> l.Loss(name='l2')
        return i
    return make_net(ctx, build)


class Batches(object):
    def __init__(self, data, sizes, axis=1, cuts=None):
        self.data, self.sizes = data, sizes
        self.cuts = cuts or [None] * len(sizes)
        self.data_shapes = {k: v.shape for k, v in data.items()}
        self.handlers = []

    def __call__(self, handler=None):
        self.handlers.append(handler)
        k = 0
        for s, c in zip(self.sizes, self.cuts):
            yield {n: v[:c, k:k + s].copy() for n, v in self.data.items()}
            k += s


def whole_reference(ctx, net, d, what):
    """total losses from the formulas, on the complete data"""
    p = net.buffer.a.parameters
    q = net.buffer.o.parameters
    T, B = d['default'].shape[:2]
    outs = {}
    err = 0.0
    dec = 0.0
    for t in range(T):
        for b in range(B):
            x = d['default'][t, b]
            h = [sum(x[j] * p.W[k, j] for j in range(2)) + p.bias[k]
                 for k in range(2)]
            o = [sum(h[j] * q.W[k, j] for j in range(2)) + q.bias[k]
                 for k in range(2)]
            outs[t, b] = (h, o)
            e = sum((o[k] - d['targets'][t, b, k]) *
                    (o[k] - d['targets'][t, b, k]) for k in range(2)) / 2
            if what == 'mask':
                e = e * d['m'][t, b, 0]
            err = err + e
            dec = dec + sum(v * v for v in o) / 2
    return outs, err * 0.5 / B, dec / B


def evaluation(what, T, sizes, cuts=None):
    """evaluate(): losses and scores of the complete data (batches cut to their
    longest sequence)"""
    def fn(ctx):
        import brainstorm.scorers as S
        from brainstorm.tools import evaluate
        net = net_for(ctx, what)
        N = sum(sizes)
        d = {'default': ctx.arr('x', (T, N, 2)),
             'targets': ctx.arr('t', (T, N, 2)),
             'other': ctx.arr('o', (T, N, 2)),
             'm': binary(ctx, 'm', (T, N, 1))}
        if cuts:
            k = 0
            for n, c in zip(sizes, cuts):
                d['m'][c:, k:k + n] = 0.0
                k += n
            ctx.assume(sum(d['m'].ravel()) > 0)
        keep = {k: v.copy() for k, v in d.items()}
        it = Batches(d, sizes, cuts=cuts)
        named = ctx.choose('names', ['scorer', 'call', 'plain'][:2 if cuts
                                                                else 3]) \
            if what in ('plain', 'mask') else 'call'
        sc = [S.MeanSquaredError(name='mse')]
        kw = {}
        ref = ('o', 'targets')
        masked = what == 'mask'
        if named == 'scorer':
            sc = [S.MeanSquaredError('a.outputs.default', 'other',
                                     'm' if masked else '', 'mse')]
            # the names of the scorer come first
            kw = dict(out_name='o.outputs.default', targets_name='targets')
            ref = ('a', 'other')
        elif named == 'call':
            sc = [S.MeanSquaredError(name='mse', mask_name='m'
                                     if masked and what != 'mask' else '')]
            kw = dict(out_name='a.outputs.default', targets_name='other')
            if masked:
                kw['mask_name'] = 'm'
            ref = ('a', 'other')
        else:
            kw = dict(out_name='o.outputs.default')
            masked = False
        outs, loss, dec = whole_reference(ctx, net, d, what)
        before = np.array(net.buffer.parameters).copy()
        if what == 'dropout':
            net.handler.rnd = None          # must not be used
        res = evaluate(net, it, sc, **kw)
        want = ['total_loss', 'mse'] if what != 'two' else \
            ['l', 'l2', 'total_loss', 'mse']
        ctx.check(list(res) == want, 'names of the results: %s' % list(res))
        if what == 'two':
            ctx.eq(res['l'], loss, 'first loss')
            ctx.eq(res['l2'], dec, 'second loss')
            loss = loss + dec
        ctx.eq(res['total_loss'], loss, 'total loss')
        pred = np.array([[outs[t, b][0 if ref[0] == 'a' else 1]
                          for b in range(N)] for t in range(T)],
                        dtype=ctx.dtype).reshape(-1, 2)
        s, w = score(ctx, 'MSE', pred, d[ref[1]].reshape(-1, 2),
                     d['m'].reshape(-1, 1) if masked else None)
        ctx.eq(res['mse'] * w, s, 'score of the complete data')
        ctx.eq(net.buffer.parameters, before, 'parameters kept')
        for k in keep:
            ctx.eq(d[k], keep[k], 'data kept')
        ctx.check(len(it.handlers) == 1 and it.handlers[0] is net.handler,
                  'one pass over the data, on the handler of the network')
    return fn


def monitors(kind, T, B):
    """statistics of all the views of one layer"""
    def fn(ctx):
        import brainstorm.hooks as H
        l = L()

        def build():
            i = c02.inp(default=(1,), targets=(2,))
            se = l.SquaredError(name='se')
            i - 'default' >> l.Recurrent(2, name='r', activation='linear') \
                >> se
            i - 'targets' >> 'targets' - se
            se - 'loss' >> l.Loss()
            return i
        net = make_net(ctx, build)
        d = {'default': np.ones((T, B, 1)), 'targets': np.ones((T, B, 2))}
        net.provide_external_data(d)
        if ctx.symbolic:
            net.buffer.parameters[...] = 0.5
        net.forward_pass(training_pass=True)
        net.backward_pass()
        layer = ctx.choose('layer', ['r', 'se'])
        cats = {'MonitorLayerDeltas': [('', 'internals'),
                                       ('output_deltas', 'output_deltas'),
                                       ('input_deltas', 'input_deltas')],
                'MonitorLayerGradients': [('', 'gradients')],
                'MonitorLayerInOuts': [('inputs', 'inputs'),
                                       ('outputs', 'outputs')],
                'MonitorLayerParameters': [('', 'parameters')]}[kind]
        views = []
        for i, (key, cat) in enumerate(cats):
            for name, v in sorted(net.buffer[layer][cat].items()):
                v[...] = np.arange(v.size).reshape(v.shape) - len(name)
                views.append((key, name, v))
        # one view at a time holds arbitrary values
        key, name, v = views[ctx.choose('view', list(range(len(views))))]
        v[...] = ctx.arr(name, v.shape)
        every = [(p, c, n, v) for p in net.layers for c in
                 ('parameters', 'gradients', 'inputs', 'outputs', 'internals',
                  'input_deltas', 'output_deltas')
                 for n, v in net.buffer[p][c].items()]
        keep = [np.array(v).copy() for _, _, _, v in every]
        h = getattr(H, kind)(layer)
        bad = getattr(H, kind)('nosuch')
        try:
            bad.start(net, None, False, {})
            ctx.fail('unknown layer refused')
        except AssertionError:
            ctx.check(True, '')
        h.start(net, None, False, {})
        for rep in range(2):
            log = h(1, 1, net, None, {})
            ctx.check(set(k for k in log) ==
                      set([n for k, n, _ in views if not k] +
                          [k for k, _ in cats if k]), 'entries of the log')
            for k, _ in cats:
                if k:
                    ctx.check(set(log[k]) == set(n for q, n, _ in views
                                                 if q == k),
                              'entries of ' + k)
            for key, name, v in views:
                e = (log[key] if key else log)[name]
                want = {'min', 'avg', 'max'}
                if kind == 'MonitorLayerParameters' and len(v.shape) > 1:
                    want |= {'min_L2_norm', 'avg_L2_norm', 'max_L2_norm'}
                ctx.check(set(e) == want, 'statistics of ' + name)
                flat = list(np.array(v).ravel())
                stats(ctx, flat, e['min'], e['avg'], e['max'],
                      '%s %s' % (key, name))
                if len(want) > 3:
                    norms = [ctx.sqrt(sum(x * x for x in row))
                             for row in np.array(v).reshape(len(v), -1)]
                    stats(ctx, norms, e['min_L2_norm'], e['avg_L2_norm'],
                          e['max_L2_norm'], 'norms of ' + name)
        for (p, c, n, v), k in zip(every, keep):
            ctx.eq(v, k, '%s.%s.%s kept' % (p, c, n))
    return fn


def stats(ctx, flat, lo, avg, hi, label):
    ctx.check(ctx.And(*[lo <= x for x in flat]), label + ' min bounds')
    ctx.check(ctx.And(*[hi >= x for x in flat]), label + ' max bounds')
    close = (lambda a, b: a == b) if ctx.symbolic else \
        (lambda a, b: abs(a - b) <= 1e-9 * (1 + abs(a)))
    ctx.check(ctx.Or(*[close(lo, x) for x in flat]), label + ' min attained')
    ctx.check(ctx.Or(*[close(hi, x) for x in flat]), label + ' max attained')
    ctx.eq(avg * len(flat), sum(flat), label + ' average')


def dataset_monitors(ctx):
    """MonitorLoss / MonitorScores use the iterator of their name"""
    import brainstorm.hooks as H
    import brainstorm.scorers as S
    net = make_net(ctx, c11.lossnet)
    kind = ctx.choose('kind', ['MonitorLoss', 'MonitorScores'])
    its = {}
    for k in ('training_data_iter', 'valid'):
        its[k] = Batches({n: ctx.arr('%s.%s' % (k, n), (1, 3, 1))
                          for n in ('default', 'targets')}, [2, 1])
    name = ctx.choose('iter', sorted(its))
    if kind == 'MonitorLoss':
        mk = lambda n: H.MonitorLoss(n)
    else:
        mk = lambda n: H.MonitorScores(n, [S.MeanSquaredError(
            'o.outputs.default', name='s')])
    bad = mk('nosuch')
    try:
        bad.start(net, None, False, its)
        ctx.fail('unknown iterator refused')
    except KeyError:
        ctx.check(True, '')
    h = mk(name)
    h.start(net, None, False, its)
    d = its[name].data
    p = net.buffer.o.parameters
    e = 0.0
    for b in range(3):
        y = d['default'][0, b, 0] * p.W[0, 0] + p.bias[0] - \
            d['targets'][0, b, 0]
        e = e + y * y / 2
    before = np.array(net.buffer.parameters).copy()
    for rep in range(2):
        log = h(rep, rep, net, None, {})
        ctx.check(list(log) == ['total_loss'] + ['s'] * (kind !=
                                                         'MonitorLoss'),
                  'entries')
        ctx.eq(log['total_loss'] * 3, e, 'loss')
        if kind != 'MonitorLoss':
            ctx.eq(log['s'] * 3, e, 'score')
    ctx.eq(net.buffer.parameters, before, 'parameters kept')


def trainer_evaluate(ctx):
    """Trainer.evaluate runs every hook once, logs into results only"""
    import brainstorm.hooks as H
    from brainstorm.training.trainer import Trainer
    from brainstorm.training.steppers import SgdStepper
    net = make_net(ctx, c11.lossnet)
    its = {k: Batches({n: ctx.arr('%s.%s' % (k, n), (1, 2, 1))
                       for n in ('default', 'targets')}, [1, 1])
           for k in ('a', 'b')}
    tr = Trainer(SgdStepper(0.1), verbose=False)
    tr.add_hook(H.MonitorLoss('a', name='A'))
    tr.add_hook(H.MonitorLoss('b', name='B', timescale='update'))
    before = np.array(net.buffer.parameters).copy()
    res = tr.evaluate(net, **its)
    p = net.buffer.o.parameters
    ctx.check(set(res) == {'A', 'B'}, 'entries')
    for k in ('a', 'b'):
        d = its[k].data
        e = 0.0
        for b in range(2):
            y = d['default'][0, b, 0] * p.W[0, 0] + p.bias[0] - \
                d['targets'][0, b, 0]
            e = e + y * y / 2
        got = res[k.upper()]['total_loss']
        ctx.check(len(got) == 1, 'one entry')
        ctx.eq(got[0] * 2, e, 'loss on ' + k)
    ctx.check(tr.logs == {} and tr.current_epoch_nr == 0 and
              tr.current_update_nr == 0, 'no training log')
    ctx.eq(net.buffer.parameters, before, 'parameters kept')


def cases(tier):
    quick = tier == 'quick'
    C = []
    for masked in (False, True):
        for kind, sizes in [
                ('Accuracy', [(1, 1), (2, 2), (1, 3)] +
                 ([] if quick else [(2, 3), (3, 2)])),
                ('Hamming', [(1, 1), (2, 2)] + ([] if quick else [(3, 2),
                                                                  (2, 3)])),
                ('MeanSquaredError', [(1, 1), (2, 2)] +
                 ([] if quick else [(3, 3)]))]:
            for n, d in sizes:
                C.append(Case('%s %dx%d%s' % (kind, n, d, ' masked' * masked),
                              scorer(kind, n, d, masked),
                              bounds='%d rows, %d columns' % (n, d),
                              weight=n * d))
    for n in (1, 2, 3) if quick else (1, 2, 3, 5):
        C.append(Case('aggregate %d' % n, aggregate(n),
                      bounds='%d batches' % n))
    for what, T, sizes in [('plain', 1, [2, 1]), ('plain', 2, [1, 1]),
                           ('two', 1, [1, 2]), ('mask', 2, [1, 1]),
                           ('mask', 1, [2, 1]), ('dropout', 1, [1, 2])] + \
            ([] if quick else [('plain', 2, [2, 1, 1]), ('two', 2, [2, 1]),
                               ('mask', 2, [2, 1])]):
        C.append(Case('evaluate %s T=%d %s' % (what, T, sizes),
                      evaluation(what, T, sizes),
                      bounds='T=%d, batches %s' % (T, sizes), weight=5))
    for T, sizes, cuts in [(2, [1, 1], [1, 2])] + \
            ([] if quick else [(2, [2, 1], [2, 1]), (3, [1, 1], [3, 1])]):
        C.append(Case('evaluate cut T=%d %s' % (T, sizes),
                      evaluation('mask', T, sizes, cuts),
                      bounds='T=%d, batches %s of lengths %s' %
                      (T, sizes, cuts), weight=5))
    for k in ('MonitorLayerDeltas', 'MonitorLayerGradients',
              'MonitorLayerInOuts', 'MonitorLayerParameters'):
        C.append(Case(k, monitors(k, 1, 2 if not quick else 1),
                      bounds='two units', weight=20))
    C += [Case('dataset monitors', dataset_monitors, bounds='2 batches'),
          Case('Trainer.evaluate', trainer_evaluate, bounds='2 batches')]
    return C

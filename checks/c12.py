"""C12: stopping criteria and best-network saving on every log history."""
import os
import shutil
import signal
import tempfile

import numpy as np

from symx.netlib import make_net
from symx.layers import set_
from symx.runner import Case
from checks import c11

ASSUMPTIONS = [
    'log values, thresholds and parameters are arbitrary reals; histories '
    'are bounded as stated per case',
]


def fires(hook, epoch, update, logs, net=None):
    try:
        hook(epoch, update, net, None, logs)
        return False
    except StopIteration:
        return True


def nested(values, deep):
    if deep:
        return {'val': {'scores': {'acc': values}}, 'other': [0.0]}, \
            'val.scores.acc'
    return {'val': {'acc': values}}, 'val.acc'


def early(crit, n):
    def fn(ctx):
        from brainstorm.hooks import EarlyStopper
        p = ctx.choose('patience', list(range(1, n)))
        deep = bool(ctx.bool('deep'))
        vals = [ctx.real('v%d' % k) for k in range(n)]
        h = EarlyStopper(nested([], deep)[1], patience=p, criterion=crit)
        h.start(None, None, False, {})
        ctx.check(not fires(h, 0, 0, {}), 'quiet before the first log entry')
        seen = []
        for k in range(n):
            seen.append(vals[k])
            logs, _ = nested(list(seen), deep)
            got = fires(h, k, 5 * k, logs)
            # stop iff none of the last p entries beats all before them
            m = len(seen)
            want = False
            if m > p:
                head, tail = seen[:m - p], seen[m - p:]
                beat = []
                for t in tail:
                    beat.append(ctx.And(*[(t < x if crit == 'min' else t > x)
                                          for x in head]))
                want = ctx.Not(ctx.Or(*beat))
            ctx.check(ctx.And(ctx.Implies(got, want), ctx.Implies(want, got)),
                      'stops at entry %d exactly if the last %d did not '
                      'improve' % (k, p))
            if got:
                break
    return fn


def threshold(crit, n):
    def fn(ctx):
        from brainstorm.hooks import StopAfterThresholdReached
        thr = ctx.real('threshold')
        deep = bool(ctx.bool('deep'))
        h = StopAfterThresholdReached(nested([], deep)[1], thr,
                                      criterion=crit)
        h.start(None, None, False, {})
        ctx.check(not fires(h, 0, 0, {}), 'quiet before the first log entry')
        seen = []
        for k in range(n):
            seen.append(ctx.real('v%d' % k))
            got = fires(h, k, k, nested(list(seen), deep)[0])
            want = ctx.Or(*[(x <= thr if crit == 'min' else x >= thr)
                            for x in seen])
            ctx.check(ctx.And(ctx.Implies(got, want), ctx.Implies(want, got)),
                      'stops exactly if the threshold was reached')
    return fn


def after_epoch(ctx):
    from brainstorm.hooks import StopAfterEpoch
    m = ctx.int('max', 0, None)
    e, u = ctx.int('epoch', 0, None), ctx.int('update', 0, None)
    h = StopAfterEpoch(m)
    h.start(None, None, False, {})
    got = fires(h, e, u, {})
    want = e >= m
    ctx.check(ctx.And(ctx.Implies(got, want), ctx.Implies(want, got)),
              'stops exactly if max_epochs epochs are over')


VALUES = ['num', float('nan'), float('inf'), float('-inf')]


def val(ctx, name):
    k = ctx.choose(name, [0, 1, 2, 3])
    return (ctx.real(name), True) if k == 0 else (VALUES[k], False)


def on_nan(ctx):
    from brainstorm.hooks import StopOnNan
    what = ctx.choose('what', ['log', 'logs', 'parameters', 'training',
                               'nothing-checked'])
    net = make_net(ctx, c11.lossnet)
    ok = True
    logs = {'a': {'x': [ctx.real('fine')]}, 'b': [ctx.real('also fine')]}
    h = StopOnNan()
    if what == 'log':
        h = StopOnNan('a.x')
        v, ok = val(ctx, 'v')
        logs['a']['x'].insert(ctx.choose('at', [0, 1]), v)
    elif what == 'logs':
        h = StopOnNan(['a.x', 'b'])
        v, o1 = val(ctx, 'v')
        w, o2 = val(ctx, 'w')
        logs['a']['x'].append(v)
        logs['b'].append(w)
        ok = o1 and o2
    elif what == 'parameters':
        v, ok = val(ctx, 'v')
        k = ctx.choose('at', list(range(net.buffer.parameters.shape[0])))
        net.buffer.parameters[k] = v
    elif what == 'training':
        v, ok = val(ctx, 'v')
        logs['rolling_training'] = {'total_loss': [ctx.real('l'), v]}
    else:
        h = StopOnNan(check_parameters=False, check_training_loss=False)
        net.buffer.parameters[0] = float('nan')
        logs['rolling_training'] = {'total_loss': [float('nan')]}
    h.start(net, None, False, {})
    if what in ('log', 'logs'):
        ctx.check(not fires(h, 0, 0, {}, net), 'quiet without logs')
    w = np.array(net.buffer.parameters).copy()
    ctx.check(fires(h, 1, 1, logs, net) == (not ok),
              'stops exactly on invalid values')
    if what not in ('parameters', 'nothing-checked'):
        ctx.eq(net.buffer.parameters, w, 'parameters untouched')


def sigquit(ctx):
    from brainstorm.hooks import StopOnSigQuit
    keep = signal.getsignal(signal.SIGQUIT)
    try:
        h = StopOnSigQuit()
        h.start(None, None, False, {})
        got, sent = False, False
        for k in range(4):
            if bool(ctx.bool('send%d' % k)):
                signal.getsignal(signal.SIGQUIT)(signal.SIGQUIT, None)
                sent = True
            if k == 2 and bool(ctx.bool('restart')):
                h.start(None, None, False, {})
                sent = False
            ctx.check(fires(h, k, k, {}) == sent, 'stops exactly if a signal '
                      'came since the start')
    finally:
        signal.signal(signal.SIGQUIT, keep)


def best(crit, n, timescale='epoch'):
    def fn(ctx):
        from brainstorm.hooks import SaveBestNetwork
        net = make_net(ctx, c11.lossnet)
        P = net.buffer.parameters
        h = SaveBestNetwork('val.acc', criterion=crit, timescale=timescale)
        h.start(net, None, False, {})
        h(0, 0, net, None, {})
        ctx.check(h.load_best_network() is None, 'nothing saved yet')
        vals, best_v, best_w = [], None, None
        for k in range(n):
            vals.append(ctx.real('v%d' % k))
            w = ctx.arr('w%d' % k, P.shape)
            set_(P, w)
            h(k, 3 * k, net, None, {'val': {'acc': list(vals)}})
            v = vals[-1]
            if best_v is None or bool(v < best_v if crit == 'min' else
                                      v > best_v):
                best_v, best_w = v, w.copy()
                at = k if timescale == 'epoch' else 3 * k
            ctx.eq(P, w, 'parameters of the net untouched')
            ctx.check(h.best_t == at, 'time of the best entry')
            ctx.eq(h.load_best_network(), best_w,
                   'parameters of the best entry after %d' % k)
            set_(P, ctx.arr('z', P.shape))
            ctx.eq(h.load_best_network(), best_w, 'a snapshot')
    return fn


def training(crit):
    """in a real training run: monitor, saver and stopper together"""
    def fn(ctx):
        from brainstorm.hooks import (Hook, SaveBestNetwork, EarlyStopper,
                                      StopAfterEpoch)
        from brainstorm.training.trainer import Trainer
        from brainstorm.training.steppers import TrainingStepper
        net = make_net(ctx, c11.lossnet)
        P = net.buffer.parameters
        n = 3

        class Mon(Hook):
            def __call__(self, epoch_nr, update_nr, net, stepper, logs):
                return {'acc': ctx.real('v%d' % epoch_nr)}

        class St(TrainingStepper):
            k = 0

            def run(self):
                St.k += 1
                set_(self.net.buffer.parameters,
                     ctx.arr('w%d' % St.k, P.shape))
        tr = Trainer(St(), verbose=False)
        sv = SaveBestNetwork('val.acc', criterion=crit)
        first = bool(ctx.bool('monitor first'))
        if first:
            tr.add_hook(Mon('val'))
        tr.add_hook(sv)
        tr.add_hook(EarlyStopper('val.acc', patience=1, criterion=crit))
        tr.add_hook(StopAfterEpoch(n))
        if not first:
            return
        w0 = np.array(P).copy()
        tr.train(net, c11.Iter([c11.batch(0)]))
        vals = tr.logs['val']['acc']
        ws = [w0] + [ctx.arr('w%d' % (k + 1), P.shape)
                     for k in range(len(vals) - 1)]
        b = 0
        for k in range(1, len(vals)):
            if bool(vals[k] < vals[b] if crit == 'min' else
                    vals[k] > vals[b]):
                b = k
            else:
                ctx.check(k == len(vals) - 1, 'stopped at the first entry '
                          'without improvement')
        ctx.check(len(vals) == n + 1 or b == len(vals) - 2, 'not earlier')
        ctx.eq(sv.load_best_network(), ws[b], 'parameters of the best epoch')
    return fn


def criteria(ctx):
    from brainstorm.hooks import (EarlyStopper, SaveBestNetwork,
                                  StopAfterThresholdReached)
    for mk, err in ((lambda: EarlyStopper('a', criterion='med'), ValueError),
                    (lambda: StopAfterThresholdReached('a', 1,
                                                       criterion='x'),
                     ValueError),
                    (lambda: SaveBestNetwork('a', criterion='x'),
                     AssertionError)):
        try:
            mk()
            ctx.fail('unknown criterion refused')
        except err:
            ctx.check(True, '')


def cases(tier):
    n = 4 if tier == 'quick' else 5
    C = []
    for c in ('min', 'max'):
        C.append(Case('early-stop-' + c, early(c, n),
                      bounds='%d log entries, every patience' % n, weight=4,
                      max_paths=60000))
        C.append(Case('threshold-' + c, threshold(c, 3),
                      bounds='3 log entries', weight=2))
        C.append(Case('save-best-' + c, best(c, n),
                      bounds='%d log entries' % n, weight=3))
        C.append(Case('save-best-update-' + c, best(c, 2, 'update'),
                      bounds='2 log entries'))
        C.append(Case('training-' + c, training(c), bounds='<=3 epochs',
                      weight=2))
    C += [Case('after-epoch', after_epoch, bounds='any numbers'),
          Case('nan', on_nan, bounds='one or two suspicious values anywhere'),
          Case('sigquit', sigquit, bounds='4 calls, signal at any time'),
          Case('criteria', criteria, bounds='-')]
    return C

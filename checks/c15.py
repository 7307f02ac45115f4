"""C15: seeds make random behaviour reproducible."""
import copy
import pickle

import numpy as np

from symx.layers import make_handler, set_
from symx.runner import Case
from symx.symrng import modelled

ASSUMPTIONS = [
    'a random stream is an arbitrary sequence of values of the right range, '
    'a function of its seed only (numpy\'s generator is trusted); seeds are '
    'arbitrary',
    'EchoState and Orthogonal call LAPACK and are not encoded',
    'one process: the order in which Python iterates over sets of strings is '
    'not varied',
]
SEEDS = (0, 10 ** 9 - 1)


def seed(ctx, name):
    return ctx.int(name, *SEEDS)


def reseed(ctx, name='global'):
    """the process-wide stream in some arbitrary state"""
    import brainstorm as bs
    bs.global_rnd.set_seed(seed(ctx, name))
    return bs.global_rnd


def wrap(f):
    def fn(ctx):
        with modelled(ctx):
            f(ctx)
    return fn


def same(ctx, a, b, label):
    ctx.eq(np.asarray(a, dtype=ctx.dtype), np.asarray(b, dtype=ctx.dtype),
           label)


def distinct(ctx, a, b, label):
    """not the same stream: as terms, or (concretely) as values"""
    x = np.asarray(a, dtype=ctx.dtype).ravel()
    y = np.asarray(b, dtype=ctx.dtype).ravel()
    if ctx.symbolic:
        import z3
        z = [ctx.core.to_z3(ctx.core.lift(p)) !=
             ctx.core.to_z3(ctx.core.lift(q)) for p, q in zip(x, y)]
        ok = ctx.e.query(z3.Or(z))[0] != z3.unsat
    else:
        ok = not np.array_equal(x, y)
    ctx.check(ok, label)


# ------------------------------- RandomState --------------------------------

DRAWS = {
    'rand': lambda r: r.rand(2),
    'randn': lambda r: r.randn(1, 2),
    'uniform': lambda r: r.uniform(-1, 2, size=(2,)),
    'generate_seed': lambda r: [r.generate_seed()],
    'standard_normal': lambda r: r.standard_normal((2,)),
}


def draws(ctx, r, tag, n=2):
    out = []
    for k in range(n):
        f = DRAWS[ctx.choose('%s%d' % (tag, k), sorted(DRAWS))]
        out += list(np.asarray(f(r), dtype=ctx.dtype).ravel())
    return out


def random_state(ctx, how, n=2):
    from brainstorm.randomness import RandomState
    s, s2 = seed(ctx, 's'), seed(ctx, 's2')
    reseed(ctx)
    r = RandomState(s)
    same(ctx, [r.get_seed()], [s], 'get_seed')
    draws(ctx, r, 'before', 1)
    if how in ('copy', 'reduce'):
        if how == 'copy':
            c = copy.deepcopy(r)
        elif ctx.symbolic:
            f, args, st = r.__reduce__()
            c = f(*args)
            c.__setstate__(st)
        else:
            c = pickle.loads(pickle.dumps(r))
        ctx.check(type(c) is RandomState, 'type of the copy')
        same(ctx, [c.get_seed()], [s], 'seed of the copy')
        a = draws(ctx, c, 'd', n)
        same(ctx, a, draws(ctx, r, 'd', n), 'a copy continues where the '
             'original is, independently')
        c.reset()
        r.reset()
        same(ctx, draws(ctx, c, 'e', 1), draws(ctx, r, 'e', 1), 'reset after copy')
        return
    first = draws(ctx, RandomState(s), 'd', n)
    if how == 'reset':
        r.reset()
    elif how == 'set_seed':
        r.set_seed(s2)
        draws(ctx, r, 'between', 1)
        r.set_seed(s)
    elif how == 'seed':
        r.seed(s2)
        draws(ctx, r, 'between', 1)
        r.seed(s)
        r.reset()
    elif how == 'new':
        r = RandomState(s)
    else:
        p = RandomState(s2)
        draws(ctx, p, 'between', 1)
        r = p.create_random_state(s)
    same(ctx, [r.get_seed()], [s], 'seed')
    same(ctx, draws(ctx, r, 'd', n), first, 'same seed, same draws: ' + how)


def derived(ctx):
    """unseeded streams derive from their parent's seed"""
    from brainstorm.randomness import RandomState, Seedable
    s = seed(ctx, 's')
    out = []
    for rep in range(2):
        g = reseed(ctx, 's')
        kids = [RandomState(), RandomState(), Seedable().rnd,
                g.create_random_state(), g.create_random_state()]
        kids += [kids[0].create_random_state(),
                 kids[0].create_random_state()]
        out.append([k.randn(2) for k in kids] + [[g.generate_seed()]])
        RandomState().rand(3)       # other use in between
    for i, (a, b) in enumerate(zip(*out)):
        same(ctx, a, b, 'stream %d is determined by the parent seed' % i)
    o = out[0]
    for i in range(7):
        for j in range(i):
            distinct(ctx, o[i], o[j], 'streams %d and %d differ' % (i, j))
    r = RandomState(s)
    g = r.generate_seed()
    ctx.check(ctx.And(g >= 0, g < 10 ** 9), 'generated seeds are valid')
    same(ctx, Seedable(s).rnd.rand(2), RandomState(s).rand(2),
         'Seedable(seed)')


# ------------------------------ initialisation ------------------------------

def initializers(ctx, kind):
    import brainstorm.initializers as I
    r = ctx.real
    ctx.assume(r('std') > 0.01)
    return {
        'gaussian': lambda: {'default': I.Gaussian(r('std'), r('mean'))},
        'uniform': lambda: {'default': I.Uniform(-0.5, 2.0)},
        'mixed': lambda: {'b': I.DenseSqrtFanIn(),
                          'fallback': -1.0, 'a1': I.Gaussian(r('std')),
                          'a2': {'R': I.RandomWalk(), 'default': 0.5}},
        'nested': lambda: {
            'l': {'W': I.LstmOptInit(I.Gaussian(r('std')), I.Uniform(0.5),
                                     2.0, I.Gaussian(1.0)),
                  'default': I.Gaussian()}, 'default': I.Gaussian(2.0)},
        'sparse': lambda: {'a*': {'W': I.SparseInputs(I.Gaussian(r('std')),
                                                      1),
                                  'default': 0.0},
                           'default': I.Gaussian(1.0)},
        'sparse out': lambda: {'a*': {'W': I.SparseOutputs(
            I.Uniform(0.25), 1), 'default': 0.0}, 'default': 0.0},
        'fallback': lambda: {'default': I.DenseSqrtFanInOut(),
                             'fallback': I.Gaussian(r('std'))},
        'identity': lambda: {'default': I.Identity(
            r('scale'), r('std'), False), 'fallback': I.Uniform(1.0)},
    }[kind]()


def small_net(ctx, kind):
    import brainstorm as bs
    import brainstorm.layers as L
    inp = L.Input(out_shapes={'default': ('T', 'B', 2)})
    if kind == 'nested':
        end = inp >> L.FullyConnected(4, name='l') >> \
            L.FullyConnected(1, name='b')
    elif kind.startswith('sparse'):
        end = inp >> L.FullyConnected(2, name='a1') >> \
            L.FullyConnected(1, name='b')
    else:
        end = inp >> L.FullyConnected(1, name='a1') >> \
            L.Recurrent(1, name='a2') >> L.FullyConnected(1, name='b')
    net = bs.Network.from_layer(end)
    net.set_handler(make_handler(ctx))
    return net


def initialise(kind, seeded):
    @wrap
    def fn(ctx):
        out = []
        s = seed(ctx, 's')
        for rep in range(2):
            reseed(ctx, 'g%d' % rep)
            net = small_net(ctx, kind)
            refs = initializers(ctx, kind)
            if rep:
                refs = dict(reversed(list(refs.items())))
                for o in refs.values():        # used before
                    if hasattr(o, 'rnd'):
                        o.rnd.rand(3)
            if seeded:
                if rep:
                    net.rnd.randn(2)
                    net.initialize(refs, seed=7)
                net.initialize(refs, seed=s)
            else:
                # the network's own stream decides
                net.rnd.set_seed(s)
                net.initialize(refs)
                net.initialize(refs)
            out.append(np.array(net.buffer.parameters).copy())
            if seeded:
                net.initialize(refs, seed=s)
                same(ctx, out[-1], net.buffer.parameters, 'twice the same')
        same(ctx, out[0], out[1], 'parameters depend on the seed and the '
             'references only')
        if kind == 'gaussian':
            p = net.buffer
            distinct(ctx, p.a1.parameters.bias, p.b.parameters.bias,
                     'layers get different values')
            distinct(ctx, p.a2.parameters.R, p.a2.parameters.bias,
                     'weights get different values')
    return fn


# --------------------------------- iterators --------------------------------

def build_iter(ctx, kind):
    import brainstorm.data_iterators as D
    x = ctx.arr('x', (1, 3, 1))
    y = ctx.arr('y', (1, 3, 1))
    if kind == 'minibatches':
        return D.Minibatches(1, True, default=x, t=y)
    if kind == 'noise':
        return D.AddGaussianNoise(D.Minibatches(2, True, default=x, t=y),
                                  {'default': 0.5, 't': 2.0}, {'default': 0.0, 't': 1.0})
    if kind == 'salt':
        return D.AddSaltNPepper(D.Undivided(default=ctx.arr('x', (1, 1, 2))),
                                {'default': 0.5}, {'default': 0.25})
    if kind == 'flip':
        return D.Flip(D.Undivided(default=ctx.arr('v', (1, 2, 1, 2, 1))),
                      {'default': 0.5})
    return D.RandomCrop(D.Undivided(default=ctx.arr('v', (1, 2, 1, 2, 1))),
                        {'default': (1, 1)})


def consume(it, n=2):
    out = []
    for _ in range(n):
        for b in it():
            out.append({k: np.array(v).copy() for k, v in b.items()})
    return out


def iterator(kind):
    @wrap
    def fn(ctx):
        runs = []
        for rep in range(2):
            reseed(ctx, 's')
            it = build_iter(ctx, kind)
            if rep:          # the global stream is used for other things
                reseed(ctx, 'other').rand(2)
            runs.append(consume(it))
        compare(ctx, runs)
        # the object's own seed
        runs = []
        for rep in range(2):
            reseed(ctx, 'g%d' % rep)
            it = build_iter(ctx, kind)
            for k, o in enumerate(chain(it)):
                o.rnd.set_seed(seed(ctx, 'own%d' % k))
            runs.append(consume(it, 1))
        compare(ctx, runs)
    return fn


def chain(it):
    out = []
    while it is not None:
        out.append(it)
        it = getattr(it, 'iter', None)
    return out


def compare(ctx, runs):
    ctx.check(len(runs[0]) == len(runs[1]), 'number of batches')
    for i, (a, b) in enumerate(zip(*runs)):
        ctx.check(sorted(a) == sorted(b), 'names')
        for k in a:
            same(ctx, a[k], b[k], 'batch %d %s' % (i, k))


# ------------------------- handlers, modifiers, tools -----------------------

@wrap
def handler(ctx):
    from brainstorm.handlers import NumpyHandler
    out = []
    for rep in range(2):
        reseed(ctx, 's')
        h = NumpyHandler(ctx.dtype)
        if rep:
            reseed(ctx, 'other')
        h2 = NumpyHandler(ctx.dtype, seed=seed(ctx, 'own'))
        o = []
        for q in (h, h2, h):
            a, b = q.zeros((2, 1)), q.zeros((2,))
            q.fill_gaussian(0.5, 2.0, a)
            q.generate_probability_mask(b, 0.25)
            o += [a, b]
        out.append(o)
    for a, b in zip(*out):
        same(ctx, a, b, 'random numbers of a handler')


@wrap
def modifiers(ctx):
    """modifiers get their randomness from the network"""
    from brainstorm.value_modifiers import ValueModifier, GradientModifier

    class Noise(ValueModifier):
        def __call__(self, handler, view):
            view += self.rnd.randn(*view.shape)

    class GNoise(GradientModifier):
        def __call__(self, handler, parameters, gradients):
            gradients += self.rnd.randn(*gradients.shape)
    out = []
    for rep in range(2):
        reseed(ctx, 'g%d' % rep)
        net = small_net(ctx, 'gaussian')
        set_(net.buffer.parameters,
             ctx.arr('w', net.buffer.parameters.shape))
        net.set_weight_modifiers({'a*': [Noise(), Noise()]})
        net.set_gradient_modifiers({'b': [GNoise(), Noise()]})
        if rep:                    # used before
            net.apply_weight_modifiers()
            set_(net.buffer.parameters,
                 ctx.arr('w', net.buffer.parameters.shape))
        net.rnd.set_seed(seed(ctx, 's'))
        net.buffer.gradients[...] = 0
        for k in range(2):
            net.apply_weight_modifiers()
            net.apply_gradient_modifiers()
        out.append((np.array(net.buffer.parameters).copy(),
                    np.array(net.buffer.gradients).copy()))
    same(ctx, out[0][0], out[1][0], 'weight modifiers')
    same(ctx, out[0][1], out[1][1], 'gradient modifiers')
    g = net.buffer.b.gradients
    distinct(ctx, g.W, g.bias, 'different noise for each view')


@wrap
def shuffle(ctx):
    from brainstorm.tools import shuffle_data
    s = seed(ctx, 's')
    a, b = ctx.arr('a', (1, 3, 1)), ctx.arr('b', (2, 3))
    x, y, n = shuffle_data(a, b, None, seed=s)
    u, v, n2 = shuffle_data(a, b, None, seed=s)
    ctx.check(n is None and n2 is None, 'None is kept')
    same(ctx, x, u, 'same seed')
    same(ctx, y, v, 'same seed')
    # aligned: one permutation for all
    perms = []
    import itertools
    for p in itertools.permutations(range(3)):
        perms.append(ctx.And(*(
            [x[0, i, 0] == a[0, p[i], 0] for i in range(3)] +
            [y[t, i] == b[t, p[i]] for i in range(3) for t in range(2)])))
    ctx.check(ctx.Or(*perms), 'arrays are permuted together')


# ----------------------------- whole experiments ----------------------------

def experiment(kind, default_handler=False):
    @wrap
    def fn(ctx):
        import brainstorm as bs
        import brainstorm.layers as L
        import brainstorm.data_iterators as D
        import brainstorm.training.steppers as S
        import brainstorm.hooks as H
        from brainstorm.initializers import Gaussian
        from brainstorm.training.trainer import Trainer
        x, t = ctx.arr('x', (1, 2, 1)), ctx.arr('t', (1, 2, 1))
        if default_handler and ctx.symbolic:
            import brainstorm.structure.network as N
            from brainstorm.handlers import NumpyHandler
            if not hasattr(N.default_handler, 'vp'):
                N.default_handler = NumpyHandler(object)
                N.default_handler.vp = True
        runs = []
        for rep in range(2):
            # documented: setting the global seed makes it reproducible
            bs.global_rnd.set_seed(seed(ctx, 's'))
            inp = L.Input(out_shapes={'default': ('T', 'B', 1),
                                      'targets': ('T', 'B', 1)})
            h = inp - 'default' >> L.FullyConnected(
                1, name='h', activation='linear')
            if kind == 'dropout':
                h = h >> L.Dropout(0.5, name='d')
            out = L.SquaredDifference(name='e')
            h >> L.FullyConnected(1, name='o', activation='linear') >> \
                'inputs_1' - out
            inp - 'targets' >> 'inputs_2' - out
            net = bs.Network.from_layer(out >> L.Loss(name='loss'))
            if not default_handler:
                net.set_handler(make_handler(ctx))
            net.initialize(Gaussian(0.5))
            it = D.Minibatches(1, True, default=x, targets=t)
            if kind == 'noise':
                it = D.AddGaussianNoise(it, {'default': 0.5})
            tr = Trainer(S.MomentumStepper(0.1, 0.5), verbose=False)
            tr.add_hook(H.StopAfterEpoch(1, verbose=False))
            tr.train(net, it)
            runs.append((np.array(net.buffer.parameters).copy(),
                         tr.logs['rolling_training']['total_loss'][-1]))
        same(ctx, runs[0][0], runs[1][0], 'parameters after training')
        same(ctx, [runs[0][1]], [runs[1][1]], 'training loss')
    return fn


def cases(tier):
    n = 1 if tier == 'quick' else 2
    C = [Case('random-state ' + h,
              wrap(lambda ctx, h=h: random_state(ctx, h, n)),
              bounds='5 kinds of draws, %d after each change' % n)
         for h in ('reset', 'set_seed', 'seed', 'new', 'child', 'copy',
                   'reduce')]
    C += [Case('derived', wrap(derived), bounds='7 streams'),
         Case('handler', handler, bounds='2 handlers'),
         Case('modifiers', modifiers, bounds='2 random modifiers per view'),
         Case('shuffle', shuffle, bounds='3 sequences')]
    for k in ('gaussian', 'uniform', 'mixed', 'nested', 'sparse',
              'sparse out', 'fallback', 'identity'):
        for sd in (True, False):
            C.append(Case('init %s%s' % (k, ' seed' if sd else ''),
                          initialise(k, sd), bounds='2-3 layers'))
    for k in ('minibatches', 'noise', 'salt', 'flip', 'crop'):
        C.append(Case('iterator ' + k, iterator(k), bounds='2 passes',
                      weight=2))
    for k in ('plain', 'noise', 'dropout'):
        C.append(Case('experiment ' + k, experiment(k),
                      bounds='2 updates', weight=3))
    C.append(Case('experiment dropout default handler',
                  experiment('dropout', True), bounds='2 updates', weight=3))
    return C

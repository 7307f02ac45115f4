"""C20: initializers produce weights of the documented form."""
import math

import numpy as np

from symx.netlib import make_net
from symx.layers import FakeRnd
from symx.runner import Case
from checks import c02

ASSUMPTIONS = [
    'a random draw is an arbitrary real (standard normal) or an arbitrary '
    'real in [0,1) (uniform); that numpy draws with the right density is '
    'trusted, the transformation of each draw is not',
    'Orthogonal: numpy.linalg.svd is represented by its contract (factors '
    'with orthonormal columns/rows); EchoState: numpy.linalg.eig by arbitrary '
    'eigenvalues, not all zero',
    'comparisons of irrational constants up to a relative 1e-9',
]


class Rnd(FakeRnd):
    def __init__(self, ctx, name='rnd'):
        FakeRnd.__init__(self, ctx, name)
        self.drawn = []
        self.seeds = []

    def _draw(self, shape, lo=None, hi=None):
        a = FakeRnd._draw(self, shape, lo, hi)
        if lo == 0:
            for v in np.ravel(a):
                self.ctx.assume(v < 1)
        self.drawn.append(np.array(a, dtype=self.ctx.dtype))
        return a

    def set_seed(self, seed):
        self.seeds.append(seed)

    def generate_seed(self):
        self.n += 1
        return self.n


def I():
    import brainstorm.initializers as i
    return i


def use(ctx, o, name='rnd'):
    o.rnd = Rnd(ctx, name)
    return o


def near(ctx, a, b, label, slack=0):
    """equal up to a relative 1e-9 (a, b terms or floats)"""
    eps = 1e-9 if ctx.symbolic else 1e-7
    m = abs(b) + 1
    ctx.check(ctx.And(a - b <= eps * m, b - a <= eps * m), label)


def shape_of(ctx, w, shape):
    w = np.asarray(w, dtype=ctx.dtype)
    ctx.check(w.shape == tuple(shape), 'shape %s' % (w.shape,))
    return w


def affine(ctx, rnd, w, mid, half, unit, label):
    """|w - mid| == half * |u - c| for the draw belonging to each entry:
    unit 'uniform': c=1/2, half the length of the interval per 1/2;
    'normal': c=0"""
    n = sum(d.size for d in rnd.drawn)
    ctx.check(n == w.size, label + ': one draw per weight')
    flat = [v for d in rnd.drawn for v in d.ravel()]
    whole = np.asarray(rnd.drawn[0]) if len(rnd.drawn) == 1 and \
        rnd.drawn[0].shape == w.shape else None
    if whole is None:
        return
    for i in np.ndindex(*w.shape):
        u = whole[i]
        if unit == 'uniform':
            want = 2 * half * (u - 0.5)
        else:
            want = half * u
        d = w[i] - (mid[i] if isinstance(mid, np.ndarray) else mid)
        eps = 1e-9 if ctx.symbolic else 1e-7
        m = eps * (abs(want) + 1)
        ctx.check(ctx.Or(ctx.And(d - want <= m, want - d <= m),
                         ctx.And(d + want <= m, -d - want <= m)),
                  label + ': the draw is mapped onto the whole range')


SHAPES = [(1, 1), (2, 1), (1, 3), (2, 2), (1, 2, 2)]


def dense(kind, shape):
    def fn(ctx):
        s = ctx.choose('scale', ['default', 'rel', 'tanh', 'sigmoid',
                                 'linear', 'number'])
        fans = np.prod(shape[1:]) + (shape[0] if kind.endswith('InOut')
                                     else 0)
        table = {'rel': 6, 'tanh': 3, 'sigmoid': 48, 'linear': 1}
        if kind.endswith('InOut'):
            table = {'rel': 12, 'tanh': 6, 'sigmoid': 96, 'linear': 1}
        if s == 'number':
            sc = ctx.real('scale')
            ctx.assume(sc > 0)
            ctx.assume(sc < 1e6)
            o = getattr(I(), kind)(sc)
        else:
            o = getattr(I(), kind)(*([] if s == 'default' else [s]))
            sc = math.sqrt(table['rel' if s == 'default' else s])
        use(ctx, o)
        for rep in range(2):
            o.rnd = Rnd(ctx, 'r%d' % rep)
            w = shape_of(ctx, o(shape), shape)
            lim = sc / math.sqrt(fans)
            for v in w.ravel():
                ctx.check(ctx.And(v <= lim * (1 + 1e-9),
                                  v >= -lim * (1 + 1e-9)), 'range')
            affine(ctx, o.rnd, w, 0.0, lim, 'uniform', 'interval')
    return fn


def refuse1d(kind, mk, bad, good):
    def fn(ctx):
        from brainstorm.utils import InitializationError
        for s in bad:
            try:
                use(ctx, mk(ctx))(s)
                ctx.fail('%s refuses shape %s' % (kind, s))
            except InitializationError:
                ctx.check(True, '')
    return fn


def uniform(shape):
    def fn(ctx):
        how = ctx.choose('how', ['default', 'one', 'two', 'bad'])
        lo, hi = ctx.real('lo'), ctx.real('hi')
        if how == 'bad':
            ctx.assume(lo >= hi)
            try:
                I().Uniform(lo, hi)
                ctx.fail('an empty interval is refused')
            except AssertionError:
                ctx.check(True, '')
            return
        if how == 'default':
            o, lo, hi = I().Uniform(), -0.1, 0.1
        elif how == 'one':
            ctx.assume(ctx.Or(lo > 0, lo < 0))
            o = I().Uniform(lo)
            lo, hi = -abs(lo), abs(lo)
        else:
            ctx.assume(lo < hi)
            o = I().Uniform(lo, hi)
        use(ctx, o)
        w = shape_of(ctx, o(shape), shape)
        for v in w.ravel():
            ctx.check(ctx.And(v >= lo, v <= hi) if ctx.symbolic else
                      bool(lo - 1e-9 <= v <= hi + 1e-9), 'range')
        affine(ctx, o.rnd, w, (lo + hi) / 2, (hi - lo) / 2, 'uniform',
               'interval')
    return fn


def gaussian(shape):
    def fn(ctx):
        how = ctx.choose('how', ['default', 'std', 'both'])
        std, mean = ctx.real('std'), ctx.real('mean')
        ctx.assume(std >= 0)
        a = {'default': [], 'std': [std], 'both': [std, mean]}[how]
        o = use(ctx, I().Gaussian(*a))
        w = shape_of(ctx, o(shape), shape)
        affine(ctx, o.rnd, w, mean if how == 'both' else 0.0,
               0.1 if how == 'default' else std, 'normal', 'mean + std * z')
    return fn


def identity(shape):
    def fn(ctx):
        from brainstorm.utils import InitializationError
        sc, std = ctx.real('scale'), ctx.real('std')
        force = ctx.choose('square', ['default', True, False])
        a = [sc, std] + ([] if force == 'default' else [force])
        o = use(ctx, I().Identity(*a))
        square = len(shape) == 2 and shape[0] == shape[1]
        try:
            w = shape_of(ctx, o(shape), shape)
        except InitializationError:
            ctx.check(len(shape) != 2 or (force is not False and not square),
                      'refused for no reason')
            return
        ctx.check(len(shape) == 2 and (square or force is False),
                  'not refused')
        mid = np.zeros(shape, dtype=ctx.dtype)
        for i in range(min(shape)):
            mid[i, i] = sc
        affine(ctx, o.rnd, w, mid, std, 'normal', 'scaled identity + noise')
    return fn


def random_walk(n):
    def fn(ctx):
        act = ctx.choose('act', ['default', 'linear', 'rel', 'number'])
        if act == 'number':
            g = ctx.real('scale')
            o = I().RandomWalk(scale=g)
        else:
            o = I().RandomWalk(*([] if act == 'default' else [act]))
            g = math.exp(1.0 / (2 * n)) if act != 'rel' else \
                math.sqrt(2) * math.exp(1.2 / (max(n, 6) - 2.4))
        use(ctx, o)
        w = shape_of(ctx, o((n, n)), (n, n))
        affine(ctx, o.rnd, w, 0.0, g / math.sqrt(n), 'normal',
               'normal with variance g^2 / N')
    return fn


class stub(object):
    """replaces numpy.linalg functions while initializers.py runs"""
    def __init__(self, ctx, **fs):
        self.ctx, self.fs = ctx, fs

    def __enter__(self):
        if not self.ctx.symbolic:
            return
        m = I()
        real = m.np
        st = self

        class LA(object):
            def __getattr__(self, k):
                if k in st.fs:
                    return st.fs[k]
                from symx.ctx import Inconclusive
                raise Inconclusive('numpy.linalg.' + k)

        class NP(object):
            linalg = LA()

            def __getattr__(self, k):
                return getattr(real, k)
        self.real, m.np = real, NP()

    def __exit__(self, *a):
        if self.ctx.symbolic:
            I().np = self.real


class Spectrum(np.ndarray):
    """eigenvalues of the stand-in for numpy.linalg.eig, which may be
    complex"""
    @property
    def real(self):
        return np.array([x.real if isinstance(x, Complex) else x
                         for x in self.ravel()] + [None],
                        dtype=object)[:-1].reshape(self.shape)

    @property
    def imag(self):
        return np.array([x.imag if isinstance(x, Complex) else 0.0
                         for x in self.ravel()] + [None],
                        dtype=object)[:-1].reshape(self.shape)


class Complex(object):
    """size * (c + s i) with c^2 + s^2 = 1"""
    def __init__(self, size, c, s):
        self.size, self.c, self.s = size, c, s
        self.real, self.imag = size * c, size * s

    def __abs__(self):
        return self.size

    def conjugate(self):
        return Complex(self.size, self.c, -self.s)


def echo(n):
    def fn(ctx):
        from brainstorm.utils import InitializationError
        given = ctx.choose('radius', [False, True])
        r = ctx.real('radius', 0.05, 5) if given else 1.0
        o = use(ctx, I().EchoState(*([r] if given else [])))
        lam = np.array([ctx.real('l%d' % k, -3, 3) for k in range(n)],
                       dtype=ctx.dtype)
        pair = n in (2, 3) and ctx.choose(
            'eigenvalues', ['real', 'complex']) == \
            'complex'
        if pair and ctx.symbolic:
            # a conjugate pair and n - 2 real ones
            c, s = ctx.choose('direction', [(0.6, 0.8),
                                            (-0.6, 0.8)])
            ctx.assume(lam[0] > 0)
            z = Complex(lam[0], c, s)
            lam = np.array([z, z.conjugate()] + list(lam[2:]) + [None],
                           dtype=object)[:-1]
        if ctx.symbolic:
            lam = lam.view(Spectrum)
        args = []

        def eig(a):
            args.append(np.array(a).copy())
            return lam, None
        ctx.assume(ctx.Or(*[abs(x) > 0.01 for x in lam]))
        with stub(ctx, eig=eig, eigvals=lambda a: eig(a)[0]):
            w = shape_of(ctx, o((n, n)), (n, n))
        if ctx.symbolic:
            ctx.check(len(args) == 1, 'spectrum computed')
            rho = abs(lam[0])
            for x in lam[1:]:
                rho = ctx.ite(abs(x) > rho, abs(x), rho)
            for i in np.ndindex(n, n):
                ctx.eq(w[i] * rho, args[0][i] * r,
                       'matrix scaled to the spectral radius')
        else:
            rho = max(abs(np.linalg.eigvals(w.astype(float))))
            ctx.check(abs(rho - r) < 1e-6 * (1 + r),
                      'matrix scaled to the spectral radius')
        base = o.rnd.drawn
        ctx.check(sum(d.size for d in base) == n * n, 'one draw per weight')
        for s in [(n, n + 1), (n + 1, n), (n,)]:
            try:
                o(s)
                ctx.fail('refuses shape %s' % (s,))
            except InitializationError:
                ctx.check(True, '')
    return fn


def orthogonal(m, n):
    def fn(ctx):
        given = ctx.choose('scale', [False, True])
        sc = ctx.real('scale') if given else 1.0
        o = use(ctx, I().Orthogonal(*([sc] if given else [])))
        k = min(m, n)
        u, v = ctx.arr('u', (m, k)), ctx.arr('v', (k, n))
        if ctx.symbolic:
            for i in range(k):
                for j in range(i + 1):
                    ctx.assume(sum(u[a, i] * u[a, j] for a in range(m)) ==
                               int(i == j))
                    ctx.assume(sum(v[i, a] * v[j, a] for a in range(n)) ==
                               int(i == j))

        def svd(a, full_matrices=True, **kw):
            if full_matrices and m != n:
                from symx.ctx import Inconclusive
                raise Inconclusive('full_matrices')
            return u, None, v
        with stub(ctx, svd=svd):
            w = shape_of(ctx, o((m, n)), (m, n))
        q = w if m >= n else w.T
        for i in range(k):
            for j in range(i + 1):
                near(ctx, sum(q[a, i] * q[a, j] for a in range(max(m, n))),
                     sc * sc * int(i == j), 'orthogonal %d %d' % (i, j))
    return fn


def lstm_opt(shape):
    def fn(ctx):
        from brainstorm.utils import InitializationError
        i = I()
        if shape[0] % 4:
            try:
                use(ctx, i.LstmOptInit())(shape)
                ctx.fail('refuses shape')
            except InitializationError:
                ctx.check(True, '')
            return
        kinds = [ctx.choose('k%d' % k, ['none', 'number', 'init'])
                 for k in range(4)]
        names = ['input_block', 'input_gate', 'forget_gate', 'output_gate']
        kw, subs, consts = {}, {}, {}
        for k, name in enumerate(names):
            if kinds[k] == 'number':
                kw[name] = consts[k] = 0.25 * (k + 1)
            elif kinds[k] == 'init':
                kw[name] = subs[k] = use(ctx, i.Gaussian(1.0), 's%d' % k)
        o = use(ctx, i.LstmOptInit(**kw))
        w = shape_of(ctx, o(shape), shape)
        n = shape[0] // 4
        for k in range(4):
            part = w[k * n:(k + 1) * n]
            if k in subs:
                d = subs[k].rnd.drawn
                ctx.check(len(d) == 1, 'sub-initializer used once')
                ctx.check(d[0].shape == part.shape, 'for its block')
                ctx.eq(part, d[0], names[k])
            else:
                ctx.eq(part, np.full(part.shape, consts.get(k, 0.0)),
                       names[k])
    return fn


def sparse(kind, shape, n, units=False):
    """exactly n non-zeros along the documented axis, elsewhere the values
    of the sub-initializer"""
    def fn(ctx):
        from brainstorm.utils import InitializationError
        sub = use(ctx, I().Gaussian(1.0), 'sub')
        o = use(ctx, getattr(I(), kind)(sub, connections=n))
        ins = kind == 'SparseInputs'
        axis = 0 if ins else 1
        if shape[axis] < n:
            try:
                o(shape)
                ctx.fail('refuses too many connections')
            except InitializationError:
                ctx.check(True, '')
            return
        w = shape_of(ctx, o(shape), shape)
        v = sub.rnd.drawn[0]
        lines = w.T if ins else w
        vals = v.T if ins else v
        if units:
            lines, vals = lines.T, vals.T
        for k, (a, b) in enumerate(zip(lines, vals)):
            for x, y in zip(a, b):
                ctx.check(ctx.Or(x == 0, x == y),
                          'connections carry the initial values')
                ctx.assume(ctx.Or(y > 0, y < 0))
            cnt = sum(ctx.ite(x == 0, 0, 1) for x in a)
            ctx.check(cnt == n, ('exactly %d connections per line' % n) if
                      not units else
                      '%s: every unit of a (units, inputs) matrix has exactly '
                      '%d connections' % (kind, n))
    return fn


def array_init(shape):
    def fn(ctx):
        from brainstorm.utils import InitializationError
        a = ctx.arr('a', shape)
        o = I().ArrayInitializer(a)
        keep = a.copy()
        a[...] = 0.0
        w = shape_of(ctx, o(shape), shape)
        ctx.eq(w, keep, 'the given values')
        for s in [shape + (1,), (shape[0] + 1,) + shape[1:], shape[::-1] +
                  (2,), (int(np.prod(shape)) + 1,)]:
            try:
                o(s)
                ctx.fail('refuses shape %s' % (s,))
            except InitializationError:
                ctx.check(True, '')
    return fn


def evaluate(shape):
    def fn(ctx):
        from brainstorm.utils import InitializationError
        i = I()

        def bad():
            return use(ctx, i.Identity(), 'bad') if len(shape) != 2 else \
                i.ArrayInitializer(np.zeros((9, 9, 9)))
        what = ctx.choose('what', ['number', 'init', 'fail', 'fallback',
                                   'fallback number', 'chain', 'unused',
                                   'type'])
        g = use(ctx, i.Gaussian(1.0), 'g')
        ev = i.evaluate_initializer
        if what == 'number':
            for v in (2, 0.5, -1):
                ctx.eq(shape_of(ctx, ev(v, shape), shape),
                       np.full(shape, v), 'number')
            ctx.eq(shape_of(ctx, ev(2, shape, fallback=g), shape),
                   np.full(shape, 2), 'number')
            ctx.check(not g.rnd.drawn, 'fallback not used')
        elif what == 'init':
            w = shape_of(ctx, ev(g, shape, seed=17), shape)
            ctx.eq(w, g.rnd.drawn[0], 'values')
            ctx.check(g.rnd.seeds == [17], 'seeded once')
        elif what == 'unused':
            f = use(ctx, i.Gaussian(1.0), 'f')
            w = shape_of(ctx, ev(g, shape, fallback=f, seed=3), shape)
            ctx.eq(w, g.rnd.drawn[0], 'values')
            ctx.check(not f.rnd.drawn, 'fallback not used')
        elif what == 'fail':
            try:
                ev(bad(), shape)
                ctx.fail('the failure is reported')
            except InitializationError:
                ctx.check(True, '')
        elif what == 'fallback':
            w = shape_of(ctx, ev(bad(), shape, fallback=g, seed=5), shape)
            ctx.eq(w, g.rnd.drawn[0], 'fallback')
            ctx.check(g.rnd.seeds == [5], 'fallback seeded')
        elif what == 'fallback number':
            w = shape_of(ctx, ev(bad(), shape, fallback=0.5), shape)
            ctx.eq(w, np.full(shape, 0.5), 'fallback')
        elif what == 'chain':
            try:
                ev(bad(), shape, fallback=bad())
                ctx.fail('the failure of the fallback is reported')
            except InitializationError:
                ctx.check(True, '')
        else:
            for v in ('x', None, [1.0], {}):
                try:
                    ev(v, shape)
                    ctx.fail('refuses %r' % (v,))
                except TypeError:
                    ctx.check(True, '')
    return fn


def on_networks(ctx):
    """the fan-in of the range is the number of inputs of a unit, for every
    kind of layer"""
    import brainstorm.layers as L
    kind = ctx.choose('layer', ['fc', 'rec', 'conv', 'lstm', 'nested'])

    def build():
        i = c02.inp(default=(1, 2, 2) if kind == 'conv' else (3,))
        x = {'fc': lambda: L.FullyConnected(2, name='x'),
             'nested': lambda: L.FullyConnected((1, 2), name='x'),
             'rec': lambda: L.Recurrent(2, name='x'),
             'conv': lambda: L.Convolution2D(1, (1, 2), name='x'),
             'lstm': lambda: L.Lstm(1, name='x')}[kind]()
        i >> x
        return i
    o = I().Uniform(-1.0, 1.0)
    net = make_net(ctx, build, params=None)
    D = I().DenseSqrtFanIn(2.0)
    D.rnd = Rnd(ctx, 'net')
    refs = {'default': D, 'fallback': 0.0}
    if kind == 'lstm':      # peepholes are one row for all the units
        refs['x'] = {'p*': 0.0, 'default': D}
    net.initialize(refs)
    fan = {'fc': {'W': 3}, 'nested': {'W': 3}, 'rec': {'W': 3, 'R': 2},
           'conv': {'W': 4},
           'lstm': dict([(k, 3) for k in ('Wz', 'Wi', 'Wf', 'Wo')] +
                        [(k, 1) for k in ('Rz', 'Ri', 'Rf', 'Ro')])}[kind]
    for v in net.buffer.x.parameters.keys():
        w = net.buffer.x.parameters[v]
        if v not in fan:
            ctx.eq(w, np.zeros(w.shape), v + ' uses the fallback')
            continue
        lim = 2.0 / math.sqrt(fan[v])
        for x in np.asarray(w).ravel():
            ctx.check(ctx.And(x <= lim * (1 + 1e-9), x >= -lim * (1 + 1e-9)),
                      v + ' range')
    flat = [x for d in D.rnd.drawn for x in d.ravel()]
    ctx.check(len(flat) == sum(net.buffer.x.parameters[v].size
                               for v in fan), 'one draw per weight')


def cases(tier):
    quick = tier == 'quick'
    C = []
    shapes = SHAPES if quick else SHAPES + [(3, 2), (2, 1, 2, 1), (2, 3)]
    for s in shapes:
        for k in ('DenseSqrtFanIn', 'DenseSqrtFanInOut'):
            C.append(Case('%s %s' % (k, s), dense(k, s),
                          bounds='shape %s' % (s,), weight=2))
    for s in [(2,), (1, 2)] + ([] if quick else [(2, 2), (1, 1, 3)]):
        C += [Case('Uniform %s' % (s,), uniform(s), bounds='shape %s' % (s,)),
              Case('Gaussian %s' % (s,), gaussian(s),
                   bounds='shape %s' % (s,)),
              Case('ArrayInitializer %s' % (s,), array_init(s),
                   bounds='shape %s' % (s,)),
              Case('evaluate %s' % (s,), evaluate(s),
                   bounds='shape %s' % (s,))]
    for s in [(1, 1), (2, 2), (2, 1), (1, 2), (2,), (1, 1, 1)] + \
            ([] if quick else [(3, 3), (2, 3), (3, 2)]):
        C.append(Case('Identity %s' % (s,), identity(s),
                      bounds='shape %s' % (s,)))
    for n in (1, 2, 3) if quick else (1, 2, 3, 4, 7):
        C.append(Case('RandomWalk %d' % n, random_walk(n),
                      bounds='%d x %d' % (n, n)))
    for n in (1, 2) if quick else (1, 2, 3):
        C.append(Case('EchoState %d' % n, echo(n), bounds='%d x %d' % (n, n)))
    for m, n in [(1, 1), (2, 1), (1, 2), (2, 2)] + \
            ([] if quick else [(3, 2), (2, 3)]):
        C.append(Case('Orthogonal %dx%d' % (m, n), orthogonal(m, n),
                      bounds='%d x %d' % (m, n), weight=3))
    for s in [(4, 1), (4,), (8, 1), (3, 2)] + ([] if quick else [(8, 2),
                                                                 (4, 1, 2)]):
        C.append(Case('LstmOptInit %s' % (s,), lstm_opt(s),
                      bounds='shape %s' % (s,), weight=3))
    for k in ('SparseInputs', 'SparseOutputs'):
        for s, n in [((2, 2), 1), ((3, 1), 2), ((1, 3), 1), ((2, 2), 3)] + \
                ([] if quick else [((3, 2), 2), ((2, 3), 2), ((2, 2), 0)]):
            C.append(Case('%s %s %d' % (k, s, n), sparse(k, s, n),
                          bounds='shape %s' % (s,), weight=3))
        C.append(Case('%s units' % k, sparse(k, (2, 2), 1, True),
                      bounds='shape (2, 2)'))
    bad = [(3,), ()]
    sq = [(2, 3), (3, 2), (3,), (2, 2, 2)]
    for name, mk, shapes_ in [
            ('DenseSqrtFanIn', lambda c: I().DenseSqrtFanIn(), bad),
            ('DenseSqrtFanInOut', lambda c: I().DenseSqrtFanInOut(), bad),
            ('Orthogonal', lambda c: I().Orthogonal(), bad + [(1, 2, 3)]),
            ('RandomWalk', lambda c: I().RandomWalk(), sq),
            ('SparseInputs', lambda c: I().SparseInputs(1.0, 1), bad),
            ('SparseOutputs', lambda c: I().SparseOutputs(1.0, 1), bad)]:
        C.append(Case('refused ' + name, refuse1d(name, mk, shapes_, None),
                      bounds='%d shapes' % len(shapes_)))
    C.append(Case('on networks', on_networks, bounds='five layer kinds'))
    return C

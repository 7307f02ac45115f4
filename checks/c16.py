"""C16: weight and gradient modifiers do exactly what they document, on
exactly the views they are set for, in order, each time."""
import numpy as np

from symx.layers import make_handler, set_
from symx.netlib import make_net, make_data
from symx.runner import Case
from checks.c14 import fglob, expected, Unspecified, PATTERNS
from checks import c11

ASSUMPTIONS = [
    'weights, gradients, limits, factors and masks are arbitrary reals '
    '(limit > 0, low <= high)',
    'when several patterns match one view the order between their modifiers '
    'is unspecified (lists keep their order): only commuting ones are '
    'combined there',
]


def arr(ctx, name, shape):
    return ctx.arr(name, shape)


# ----------------------------- single modifiers -----------------------------

def norm(shape):
    def fn(ctx):
        from brainstorm.value_modifiers import ConstrainL2Norm
        h = make_handler(ctx)
        w0 = arr(ctx, 'w', shape)
        w = w0.copy()
        lim = ctx.real('limit')
        ctx.assume(lim > 1e-6)
        ctx.assume(lim < 1e6)
        for v in w0.ravel():
            ctx.assume(ctx.And(v < 1e6, v > -1e6))
        ConstrainL2Norm(lim)(h, w)
        ctx.check(w.shape == tuple(shape), 'shape')
        if len(shape) < 2:
            ctx.eq(w, w0, 'biases are ignored')
            return
        a = w0.reshape((shape[0], -1))
        b = w.reshape((shape[0], -1))
        for r in range(shape[0]):
            sq0 = sum(x * x for x in a[r])
            sq = sum(x * x for x in b[r])
            if ctx.symbolic:
                ctx.check(sq <= lim * lim, 'norm within the limit')
            else:
                ctx.check(sq <= lim * lim * (1 + 1e-9), 'norm within the '
                          'limit')
            n = ctx.sqrt(sq0)
            inside = sq0 <= lim * lim
            for j in range(len(a[r])):
                # compare without dividing: b * norm == a * limit
                ctx.eq(ctx.ite(inside, b[r][j] - a[r][j],
                               b[r][j] * n - a[r][j] * lim), 0,
                       'row %d: kept if within the limit, else scaled to it'
                       % r)
    return fn


def elementwise(kind, shape):
    def fn(ctx):
        import brainstorm.value_modifiers as V
        h = make_handler(ctx)
        w0, g0 = arr(ctx, 'w', shape), arr(ctx, 'g', shape)
        m = arr(ctx, 'm', shape)
        lo, hi, f = ctx.real('lo'), ctx.real('hi'), ctx.real('f')
        ctx.assume(lo <= hi)

        def clip(v, a, b):
            return ctx.ite(v < a, a, ctx.ite(v > b, b, v))

        def each(fun, *arrs):
            out = np.empty(shape, dtype=ctx.dtype)
            for i in np.ndindex(*shape):
                out[i] = fun(*[x[i] for x in arrs])
            return out

        def sign(v):
            return ctx.ite(v > 0, 1.0, ctx.ite(v < 0, -1.0, 0.0))
        mk = {
            'ClipValues': lambda: (V.ClipValues(lo, hi),
                                   lambda v: clip(v, lo, hi)),
            'ClipValues()': lambda: (V.ClipValues(),
                                     lambda v: clip(v, -1.0, 1.0)),
            'ClipValues(low)': lambda: (V.ClipValues(low=0.5),
                                        lambda v: clip(v, 0.5, 1.0)),
        }
        if kind in mk:
            o, ref = mk[kind]()
            for rep, x in enumerate((w0, g0)):
                w = x.copy()
                o(h, w)
                ctx.eq(w, each(ref, x), 'use %d' % rep)
        elif kind == 'MaskValues':
            o = V.MaskValues(m)
            mm = m.copy()
            for rep, x in enumerate((w0, g0)):
                w = x.copy()
                o(h, w)
                ctx.eq(w, x * mm, 'use %d' % rep)
                ctx.eq(m, mm, 'mask kept')
        else:
            o, ref = {
                'L1Decay': lambda: (V.L1Decay(f), each(
                    lambda v, g: g + f * sign(v), w0, g0)),
                'L2Decay': lambda: (V.L2Decay(f), g0 + f * w0)}[kind]()
            for rep in range(2):
                w, g = w0.copy(), g0.copy()
                o(h, w, g)
                ctx.eq(g, ref, 'use %d' % rep)
                ctx.eq(w, w0, 'parameters kept')
    return fn


def freeze(shape):
    def fn(ctx):
        from brainstorm.value_modifiers import FreezeValues
        h = make_handler(ctx)
        vals = [arr(ctx, 'v%d' % k, shape) for k in range(3)]
        given = ctx.choose('given', [False, True])
        first = arr(ctx, 'frozen', shape) if given else vals[0]
        want = first.copy()
        o = FreezeValues(first) if given else FreezeValues()
        for k in range(3):
            w = vals[k].copy()
            o(h, w)
            ctx.eq(w, want, 'call %d' % k)
            w[...] = 0         # nobody else's weights are remembered
        ctx.eq(first, want, 'given weights kept')
    return fn


# ------------------------------ on networks ---------------------------------

def net3(ctx):
    import brainstorm.layers as L

    def build():
        inp = L.Input(out_shapes={'default': ('T', 'B', 1)})
        return inp >> L.FullyConnected(1, name='a1', activation='linear') \
            >> L.Recurrent(1, name='a2') >> L.FullyConnected(1, name='b')
    return make_net(ctx, build)


def classes():
    from brainstorm.value_modifiers import ValueModifier, GradientModifier
    if not _cls or not issubclass(_cls[-1][0], ValueModifier):
        class VpScale(ValueModifier):
            def __init__(self, f):
                super(VpScale, self).__init__()
                self.f = f

            def __call__(self, handler, view):
                view *= self.f

        class VpShift(ValueModifier):
            def __init__(self, f):
                super(VpShift, self).__init__()
                self.f = f

            def __call__(self, handler, view):
                view += self.f

        class VpMix(GradientModifier):
            def __init__(self, f):
                super(VpMix, self).__init__()
                self.f = f

            def __call__(self, handler, parameters, gradients):
                gradients += self.f * parameters
        _cls.append((VpScale, VpShift, VpMix))
    return _cls[-1]


_cls = []


def act(o, p, v):
    """reference effect of one of the classes above"""
    n = type(o).__name__
    return v * o.f if n == 'VpScale' else \
        v + o.f if n == 'VpShift' else v + o.f * p


def forms(mk, lst):
    return {
        'one': lambda: mk(),
        'list': lambda: lst(),
        'W': lambda: {'W': mk()},
        'list bias': lambda: {'bias': lst(), 'W': mk()},
        'default': lambda: {'b*': mk(), 'default': lst()},
        'star': lambda: {'*': lst()},
        'nothing': lambda: {'nope': mk()},
        'empty': lambda: {},
    }


def selection(pats, names, which):
    def fn(ctx):
        from brainstorm.utils import NetworkValidationError
        Scale, Shift, Mix = classes()
        overlap = pats in (['a*', '*1'], ['*', 'b'], ['*1', 'a2']) and \
            len(pats) > 1
        count = [0]

        def mk():
            count[0] += 1
            f = ctx.real('f%d' % count[0])
            if overlap:
                return Scale(f)
            if which == 'gradient' and count[0] % 3 == 0:
                return Mix(f)
            return (Scale, Shift)[count[0] % 2](f)

        def lst():
            return [mk(), mk()]
        refs = {}
        for p in pats:
            refs[p] = forms(mk, lst)[ctx.choose('form ' + p, names)]()
        k = ctx.choose('default', ['no', 'one', 'list'])
        if k != 'no':
            refs['default'] = mk() if k == 'one' else lst()
        net = net3(ctx)
        P = net.buffer.parameters
        G = net.buffer.gradients
        set_(G, ctx.arr('g', G.shape))
        views = {l: {v: net.buffer[l].parameters[v].shape
                     for v in net.buffer[l].parameters.keys()}
                 for l in net.layers}
        try:
            exp = expected(refs, views)
        except Unspecified:
            return
        setter = net.set_weight_modifiers if which == 'weight' else \
            net.set_gradient_modifiers
        if ctx.choose('earlier', [False, True]):
            setter(Shift(5.0))            # replaced by the next call
        try:
            setter(refs)
        except NetworkValidationError:
            ctx.check(exp is None, 'valid references refused')
            return
        ctx.check(exp is not None, 'references matching nothing accepted')
        buf = 'parameters' if which == 'weight' else 'gradients'
        mods = net.weight_modifiers if which == 'weight' else \
            net.gradient_modifiers
        for l in mods:
            for v in mods[l]:
                ctx.check(all((m.layer_name, m.view_name) == (l, v)
                              for m in mods[l][v]), 'a modifier knows its '
                          'place')
        want = {}
        for l in views:
            for v in views[l]:
                x = net.buffer[l][buf][v].copy()
                p = net.buffer[l].parameters[v].copy()
                for rep in range(2):
                    for c in exp[l][v][0]:
                        for o in c if isinstance(c, list) else [c]:
                            x = act(o, p, x)
                want[l, v] = x
        other = (G if which == 'weight' else P).copy()
        for rep in range(2):
            if which == 'weight':
                net.apply_weight_modifiers()
            else:
                net.apply_gradient_modifiers()
        for (l, v), x in sorted(want.items()):
            ctx.eq(net.buffer[l][buf][v], x, '%s %s.%s' % (which, l, v))
        ctx.eq(G if which == 'weight' else P, other, 'nothing else changes')
    return fn


def refused(ctx):
    Scale = classes()[0]
    for f in ('set_weight_modifiers', 'set_gradient_modifiers'):
        net = net3(ctx)
        try:
            getattr(net, f)({'a*': Scale(1.0), 'fallback': Scale(2.0)})
            ctx.fail('fallback modifier accepted')
        except AssertionError:
            pass
        try:
            getattr(net, f)({'a1': Scale(1.0)}, a1=Scale(2.0))
            ctx.fail('conflicting modifiers accepted')
        except TypeError:
            ctx.check(True, '')


def copies(ctx):
    """one modifier object set for several views: each remembers its own"""
    from brainstorm.value_modifiers import FreezeValues
    net = net3(ctx)
    fz = FreezeValues()
    how = ctx.choose('how', ['default', 'pattern', 'twice'])
    if how == 'default':
        net.set_weight_modifiers(fz)
    elif how == 'pattern':
        net.set_weight_modifiers({'*': fz})
    else:
        net.set_weight_modifiers({'a*': [fz], 'b': fz})
    P = net.buffer.parameters
    first = P.copy()
    net.apply_weight_modifiers()
    ctx.eq(P, first, 'first call')
    for k in range(2):
        set_(P, ctx.arr('u%d' % k, P.shape))
        net.apply_weight_modifiers()
        ctx.eq(P, first, 'frozen to its own weights')
    # the object given stays fresh: it can be used for another network
    net2 = make_net_other(ctx)
    net2.set_weight_modifiers(fz)
    second = net2.buffer.parameters.copy()
    net2.apply_weight_modifiers()
    ctx.eq(net2.buffer.parameters, second, 'another network is not affected')


def make_net_other(ctx):
    import brainstorm.layers as L

    def build():
        inp = L.Input(out_shapes={'default': ('T', 'B', 1)})
        return inp >> L.FullyConnected(1, name='a1')
    return make_net(ctx, build, params='w2')


def after_backward(ctx):
    """the gradient seen by the stepper is the modified one, each pass once;
    forward passes and losses are unaffected"""
    from brainstorm.value_modifiers import L2Decay, ClipValues, MaskValues
    f = ctx.real('f')
    lo, hi = ctx.real('lo'), ctx.real('hi')
    ctx.assume(lo <= hi)
    build = c11.lossnet
    data = {'default': ctx.arr('x', (1, 1, 1)),
            'targets': ctx.arr('t', (1, 1, 1))}
    plain = make_net(ctx, build)
    mod = make_net(ctx, build)
    name = [l for l in mod.layers if len(mod.buffer[l].parameters.keys())][0]
    mod.set_gradient_modifiers({name: {
        'W': [ClipValues(lo, hi), L2Decay(f)], 'bias': L2Decay(f)}})
    for k in range(2):
        for net in (plain, mod):
            net.provide_external_data(data)
            net.forward_pass(training_pass=True)
            net.backward_pass()
        g, m = (n.buffer[name].gradients for n in (plain, mod))
        p = mod.buffer[name].parameters
        v = g.W[0, 0]
        ctx.eq(m.W[0, 0], ctx.ite(v < lo, lo, ctx.ite(v > hi, hi, v)) +
               f * p.W[0, 0], 'clipped, then decayed')
        ctx.eq(m.bias[0], g.bias[0] + f * p.bias[0], 'bias')
        ctx.eq(plain.get_loss_values()['total_loss'],
               mod.get_loss_values()['total_loss'], 'loss')
        ctx.eq(plain.buffer.parameters, mod.buffer.parameters, 'parameters')


def resized(ctx):
    """modifiers keep working on the network's buffers after they were
    re-allocated for another batch size, or the handler was changed"""
    from brainstorm.value_modifiers import MaskValues, FreezeValues
    net = make_net(ctx, c11.lossnet)
    name = [l for l in net.layers if len(net.buffer[l].parameters.keys())][0]
    m = ctx.real('m')
    net.set_weight_modifiers({name: {
        'W': MaskValues(np.array([[m]], dtype=ctx.dtype)),
        'bias': FreezeValues()}})
    b0 = net.buffer[name].parameters.bias.copy()
    w = net.buffer[name].parameters.W.copy()
    for k, (T, B) in enumerate([(1, 1), (2, 3), (1, 2)]):
        net.provide_external_data(make_data(
            ctx, {'default': (1,), 'targets': (1,)}, T, B, str(k)))
        if k == 2:
            w = net.get(name + '.parameters.W')
            net.set_handler(make_handler(ctx))
            set_(net.buffer[name].parameters.W, w)
        net.buffer[name].parameters.bias[...] = ctx.real('new%d' % k)
        if k == 0:
            b0 = net.buffer[name].parameters.bias.copy()
        w = w * m
        net.apply_weight_modifiers()
        ctx.eq(net.buffer[name].parameters.W, w, 'mask, batch %d' % k)
        ctx.eq(net.buffer[name].parameters.bias, b0, 'frozen, batch %d' % k)


def cases(tier):
    quick = tier == 'quick'
    C = []
    for s in ([(1, 1), (1, 2), (2, 1), (1, 1, 2), (3,)] +
              ([] if quick else [(1, 3), (2, 2), (1, 2, 2), (1, 1, 1, 2),
                                 (1,)])):
        C.append(Case('norm %s' % (s,), norm(s), bounds='shape %s' % (s,),
                      weight=3))
    for s in [(2,), (1, 2)] + ([] if quick else [(2, 2), (1, 1, 3)]):
        for k in ('ClipValues', 'ClipValues()', 'ClipValues(low)',
                  'MaskValues', 'L1Decay', 'L2Decay'):
            C.append(Case('%s %s' % (k, s), elementwise(k, s),
                          bounds='shape %s' % (s,), weight=2))
        C.append(Case('freeze %s' % (s,), freeze(s),
                      bounds='shape %s, 3 calls' % (s,)))
    for which in ('weight', 'gradient'):
        for pats in PATTERNS:
            ns = list(forms(None, None))
            if len(pats) > 1:
                ns = ['one', 'list', 'W', 'list bias', 'default'] \
                    if not quick else ['one', 'W', 'list bias']
            elif quick:
                ns.remove('empty')
            C.append(Case('%s %s' % (which, ' '.join(pats)),
                          selection(pats, ns, which),
                          bounds='every combination of %d forms' % len(ns),
                          weight=len(ns) ** len(pats) / 5))
    C += [Case('refused', refused, bounds=''),
          Case('copies', copies, bounds='3 calls'),
          Case('after backward', after_backward, bounds='2 passes'),
          Case('resized', resized, bounds='3 batch sizes, 2 handlers')]
    return C

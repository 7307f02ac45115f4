"""C18: every layer's forward pass computes its documented function."""
import numpy as np

from symx.gradlib import NO, sparse
from symx.layers import LayerRig, FakeRnd, set_
from symx.runner import Case

ASSUMPTIONS = [
    'exact reals; exp, log, tanh, sigmoid, sqrt are the mathematical '
    'functions (uninterpreted up to axioms); the sigmoid summary is '
    'discharged by the lemma case of C01',
    'layers are created through their public wrapper functions, outputs and '
    'internals hold arbitrary stale values before the pass',
    'tensor sizes bounded as listed per case',
]


def BS(*shape):
    from brainstorm.structure.buffer_structure import BufferStructure
    return BufferStructure(*shape)


def build(wrapper, args, kw, ins):
    import brainstorm.layers as L
    from brainstorm.layers.base_layer import get_layer_class_from_typename
    w = getattr(L, wrapper)(*args, **kw)
    d = w.layer
    cls = get_layer_class_from_typename(d.layer_type + 'LayerImpl')
    return cls('L', {k: BS(*s) for k, s in ins.items()}, NO, NO,
               **d.layer_kwargs)


class V(object):
    """what the reference may read"""
    def __init__(self):
        self.x, self.w, self.ctx_out, self.ctx_int = {}, {}, {}, {}


def forward_case(wrapper, ins, ref, T, B, args=(), kw=None, special=None,
                 context=False, training=(True, False), params=None,
                 handler_dtype=None):
    special = special or {}

    def fn(ctx):
        layer = build(wrapper, args, kw or {}, ins)
        rig = LayerRig(ctx, layer, T, B)
        rig.h.rnd = FakeRnd(ctx)
        b = rig.b
        v = V()
        # stale contents
        for cat, shapes in (('outputs', layer.out_shapes),
                            ('internals', layer.internal_shapes)):
            for k, s in shapes.items():
                a = b[cat][k]
                if a.size <= 12:
                    set_(a, ctx.arr('stale.%s.%s' % (cat, k), a.shape))
                else:
                    set_(a, np.full(a.shape, 7.0))
                if s.context_size and not s.is_backward_only:
                    c = a[T:]
                    set_(c, ctx.arr('ctx.%s.%s' % (cat, k), c.shape)
                         if context else ctx.to_obj(np.zeros(c.shape)))
                    (v.ctx_out if cat == 'outputs' else v.ctx_int)[k] = \
                        c.copy()
        for k in layer.in_shapes:
            a = b.inputs[k]
            val = special['x.' + k](ctx, a.shape) if 'x.' + k in special \
                else ctx.arr('x.' + k, a.shape)
            set_(a, val)
            v.x[k] = a.copy()
        for k in layer.parameter_shapes:
            a = b.parameters[k]
            val = special['w.' + k](ctx, a.shape) if 'w.' + k in special \
                else ctx.arr('w.' + k, a.shape)
            set_(a, val)
            v.w[k] = a.copy()
        if params is not None:
            ctx.check(sorted(v.w) == sorted(params), 'parameters %s' %
                      sorted(v.w))
            for k, s in params.items():
                ctx.check(tuple(v.w[k].shape) == tuple(s),
                          'shape of parameter %s: %s' % (k, v.w[k].shape))
        v.T, v.B = T, B
        v.training = ctx.choose('training', list(training))
        v.stale_out = {k: b.outputs[k].copy() for k in layer.out_shapes}
        layer.forward_pass(b, v.training)
        v.draws = rig.h.rnd
        res = ref(ctx, v)
        new_w = res.pop('parameters', {})
        for k, e in res.items():
            got = b.outputs[k]
            if layer.out_shapes[k].context_size:
                ctx.check(got.shape[0] == T + layer.out_shapes[k]
                          .context_size, 'time steps of output ' + k)
                got = got[:T]
            ctx.eq(got, e, 'output ' + k)
        ctx.check(sorted(res) == sorted(layer.out_shapes),
                  'outputs %s' % sorted(layer.out_shapes))
        for k, a in v.x.items():
            ctx.eq(b.inputs[k], a, 'forward pass changed input ' + k)
        for k, a in v.w.items():
            ctx.eq(b.parameters[k], new_w.get(k, a),
                   'parameter %s after the pass' % k)
    return fn


# ------------------------------ references -------------------------------- #

def act(ctx, name, x):
    if name == 'linear':
        return x
    if name == 'tanh':
        return ctx.tanh(x)
    if name == 'sigmoid':
        return ctx.sigmoid(x)
    if name == 'rel':
        return x if bool(x > 0) else 0.0
    if name == 'el':
        return x if bool(x >= 0) else ctx.exp(x) - 1
    raise KeyError(name)


def empty(ctx, shape):
    return np.empty(shape, dtype=ctx.dtype)


def total(xs):
    s = 0.0
    for x in xs:
        s = s + x
    return s


def affine(ctx, x, W, b=None):
    """x (n,) times W (m, n) transposed plus b"""
    r = empty(ctx, (W.shape[0],))
    for i in range(W.shape[0]):
        r[i] = total(x[j] * W[i, j] for j in range(W.shape[1]))
        if b is not None:
            r[i] = r[i] + b[i]
    return r


def ref_fc(a, out_shape):
    def ref(ctx, v):
        x = v.x['default']
        y = empty(ctx, (v.T, v.B) + out_shape)
        for t in range(v.T):
            for b in range(v.B):
                z = affine(ctx, x[t, b].ravel(), v.w['W'], v.w['bias'])
                for i in range(z.size):
                    z[i] = act(ctx, a, z[i])
                y[t, b] = z.reshape(out_shape)
        return {'default': y}
    return ref


def ref_elementwise(a):
    def ref(ctx, v):
        x = v.x['default']
        y = empty(ctx, x.shape)
        for i in np.ndindex(*x.shape):
            y[i] = act(ctx, a, x[i])
        return {'default': y}
    return ref


def skipped(timing, t, i):
    """a clockwork unit is updated at t=0 and when its period divides t"""
    return timing is not None and t > 0 and t % timing[i] != 0


def ref_rnn(a, timing=None):
    def ref(ctx, v):
        x, W, R, bias = v.x['default'], v.w['W'], v.w['R'], v.w['bias']
        n = W.shape[0]
        y = empty(ctx, (v.T, v.B, n))
        for b in range(v.B):
            prev = v.ctx_out['default'][0, b]
            for t in range(v.T):
                z = affine(ctx, x[t, b].ravel(), W, bias) + \
                    affine(ctx, prev, R)
                for i in range(n):
                    y[t, b, i] = prev[i] if skipped(timing, t, i) else \
                        act(ctx, a, z[i])
                prev = y[t, b]
        return {'default': y}
    return ref


def ref_lstm(a, timing=None):
    def ref(ctx, v):
        x, w = v.x['default'], v.w
        n = w['Wz'].shape[0]
        y = empty(ctx, (v.T, v.B, n))
        for b in range(v.B):
            h = v.ctx_out['default'][0, b]
            c = v.ctx_int['Ca'][0, b]
            for t in range(v.T):
                xt = x[t, b].ravel()

                def pre(g):
                    return affine(ctx, xt, w['W' + g], w['b' + g]) + \
                        affine(ctx, h, w['R' + g])
                z, i, f, o = pre('z'), pre('i'), pre('f'), pre('o')
                c2, h2 = empty(ctx, (n,)), empty(ctx, (n,))
                for k in range(n):
                    zb = act(ctx, a, z[k])
                    ib = ctx.sigmoid(i[k] + w['pi'][0, k] * c[k])
                    fb = ctx.sigmoid(f[k] + w['pf'][0, k] * c[k])
                    ck = ib * zb + fb * c[k]
                    ob = ctx.sigmoid(o[k] + w['po'][0, k] * ck)
                    if skipped(timing, t, k):
                        c2[k], h2[k] = c[k], h[k]
                    else:
                        c2[k], h2[k] = ck, ob * act(ctx, a, ck)
                c, h = c2, h2
                y[t, b] = h
        return {'default': y}
    return ref


def ref_conv(a, ks, stride, pad):
    def ref(ctx, v):
        x, W, bias = v.x['default'], v.w['W'], v.w['bias']
        T, B, H, Wd, C = x.shape
        oh = (H + 2 * pad - ks[0]) // stride[0] + 1
        ow = (Wd + 2 * pad - ks[1]) // stride[1] + 1
        y = empty(ctx, (T, B, oh, ow, W.shape[0]))
        for t, b, i, j, f in np.ndindex(*y.shape):
            s = bias[f]
            for p in range(ks[0]):
                for q in range(ks[1]):
                    r, c = i * stride[0] + p - pad, j * stride[1] + q - pad
                    if 0 <= r < H and 0 <= c < Wd:
                        for m in range(C):
                            s = s + x[t, b, r, c, m] * W[f, p, q, m]
            y[t, b, i, j, f] = act(ctx, a, s)
        return {'default': y}
    return ref


def ref_pool(kind, ks, stride, pad):
    def ref(ctx, v):
        x = v.x['default']
        T, B, H, Wd, C = x.shape
        oh = (H + 2 * pad - ks[0]) // stride[0] + 1
        ow = (Wd + 2 * pad - ks[1]) // stride[1] + 1
        y = empty(ctx, (T, B, oh, ow, C))
        for t, b, i, j, m in np.ndindex(*y.shape):
            vals = [x[t, b, r, c, m]
                    for r in range(i * stride[0] - pad,
                                   i * stride[0] - pad + ks[0])
                    for c in range(j * stride[1] - pad,
                                   j * stride[1] - pad + ks[1])
                    if 0 <= r < H and 0 <= c < Wd]
            if not vals:
                y[t, b, i, j, m] = 0.0
            elif kind == 'max':
                best = vals[0]
                for u in vals[1:]:
                    best = ctx.ite(u > best, u, best)
                y[t, b, i, j, m] = best
            else:
                y[t, b, i, j, m] = total(vals) / len(vals)
        return {'default': y}
    return ref


def ref_highway(ctx, v):
    H, Tr, x = v.x['H'], v.x['T'], v.x['x']
    return {'default': Tr * H + (1 - Tr) * x}


def ref_dropout(p):
    def ref(ctx, v):
        x = v.x['default']
        if not v.training:
            return {'default': x}
        y = empty(ctx, x.shape)
        # a unit survives with probability 1-p and is then scaled by 1/(1-p)
        for i in np.ndindex(*x.shape):
            u = ctx.real('rnd1_' + '_'.join(map(str, i)), 0, 1)
            y[i] = x[i] / (1 - p) if bool(u < 1 - p) else 0.0
        return {'default': y}
    return ref


def ref_mask(ctx, v):
    x, m = v.x['default'], v.x['mask']
    y = empty(ctx, x.shape)
    for i in np.ndindex(*x.shape):
        if m.shape[2:] == (1,):
            k = m[i[0], i[1], 0]
        else:
            k = m[i[:-1] + ((0,) if m.shape[-1] == 1 else (i[-1],))]
        y[i] = x[i] * k
    return {'default': y}


def ref_merge(ctx, v):
    return {'default': np.concatenate([v.x['inputs_1'], v.x['inputs_2']],
                                      axis=-1)}


def ref_copy(ctx, v):
    return {'default': v.x['default']}


def ref_loss(imp, batch_axis):
    def ref(ctx, v):
        x = v.x['default']
        n = 1 if batch_axis is None else x.shape[batch_axis]
        a = empty(ctx, (1,))
        a[0] = total(x.ravel()) * imp / n
        return {'loss': a}
    return ref


def ref_bn(eps=1e-5, decay=0.9):
    def ref(ctx, v):
        x, w = v.x['default'], v.w
        C = x.shape[-1]
        flat = x.reshape(-1, C)
        m = flat.shape[0]
        y = empty(ctx, flat.shape)
        mu, sg = w['mu'].copy(), w['sigma'].copy()
        for c in range(C):
            if v.training:
                # 'mu' holds the negative mean
                mean = total(flat[:, c]) / m
                var = total((flat[i, c] - mean) * (flat[i, c] - mean)
                            for i in range(m)) / m
                sd = ctx.sqrt(var + eps)
                mu[c] = decay * w['mu'][c] - (1 - decay) * mean
                sg[c] = decay * w['sigma'][c] + (1 - decay) * sd
            else:
                mean, sd = -w['mu'][c], w['sigma'][c]
            for i in range(m):
                y[i, c] = (flat[i, c] - mean) / sd * w['gamma'][c] + \
                    w['beta'][c]
        return {'default': y.reshape(x.shape),
                'parameters': {'mu': mu, 'sigma': sg}}
    return ref


def neglog(ctx, p):
    """-log p, limited to p >= 1e-6"""
    if bool(p < 1e-6):
        return -ctx.log(1e-6 if not ctx.symbolic else ctx.core.lift(1e-6))
    if bool(p > 1):
        return 0.0
    return -ctx.log(p)


def ref_softmaxce(ctx, v):
    x, t = v.x['default'], v.x['targets']
    p, loss = empty(ctx, x.shape), empty(ctx, t.shape)
    for i in np.ndindex(*x.shape[:-1]):
        row = x[i]
        m = row[0]
        for u in row[1:]:
            if bool(u > m):
                m = u
        e = [ctx.exp(u - m) for u in row]
        s = total(e)
        for j in range(len(e)):
            p[i + (j,)] = e[j] / s
        loss[i + (0,)] = neglog(ctx, p[i + (int(t[i + (0,)]),)])
    return {'predictions': p, 'loss': loss}


def bce(ctx, p, t):
    """binary targets"""
    return neglog(ctx, p) if bool(t == 1) else neglog(ctx, 1 - p)


def ref_sigmoidce(ctx, v):
    x, t = v.x['default'], v.x['targets']
    p, loss = empty(ctx, x.shape), empty(ctx, x.shape)
    for i in np.ndindex(*x.shape):
        p[i] = ctx.sigmoid(x[i])
        loss[i] = bce(ctx, p[i], t[i])
    return {'predictions': p, 'loss': loss}


def ref_binomialce(ctx, v):
    x, t = v.x['default'], v.x['targets']
    loss = empty(ctx, (v.T, v.B, 1))
    for i in np.ndindex(v.T, v.B):
        loss[i + (0,)] = total(bce(ctx, p, u) for p, u in
                               zip(x[i].ravel(), t[i].ravel()))
    return {'default': loss}


def ref_sqdiff(ctx, v):
    d = v.x['inputs_1'] - v.x['inputs_2']
    return {'default': d * d}


def ref_sqerr(ctx, v):
    d = v.x['default'] - v.x['targets']
    return {'predictions': v.x['default'], 'loss': d * d * 0.5}


def ref_decay(f):
    def ref(ctx, v):
        x = v.x['default']
        y = empty(ctx, (v.T, v.B, 1))
        for i in np.ndindex(v.T, v.B):
            y[i + (0,)] = total(f(ctx, u) for u in x[i].ravel())
        return {'loss': y}
    return ref


# -------------------------------- cases ----------------------------------- #

TB = ('T', 'B')


def classes(n):
    def f(ctx, shape):
        a = np.empty(shape, dtype=object)
        for j, i in enumerate(np.ndindex(*shape)):
            a[i] = ctx.choose('target%d' % j, list(range(n)))
        return ctx.to_obj(a.astype(float))
    return f


def unit(name):
    def f(ctx, shape):
        a = np.empty(shape, dtype=ctx.dtype)
        for i in np.ndindex(*shape):
            a[i] = ctx.real(name + '_'.join(map(str, i)), 0, 1)
        return a
    return f


def positive(name):
    def f(ctx, shape):
        a = np.empty(shape, dtype=ctx.dtype)
        for i in np.ndindex(*shape):
            a[i] = ctx.real(name + '_'.join(map(str, i)), 0.01)
        return a
    return f


def const(v):
    def f(ctx, shape):
        return ctx.to_obj(np.array(v, dtype=float).reshape(shape))
    return f


def cases(tier):
    C = []
    thorough = tier == 'thorough'

    def add(name, wrapper, ins, ref, T, B, bounds='', weight=1,
            max_paths=20000, **kw):
        C.append(Case(name, forward_case(wrapper, ins, ref, T, B, **kw),
                      bounds='T=%d B=%d %s' % (T, B, bounds), weight=weight,
                      max_paths=max_paths, tol=1e-6))
    acts = ['linear', 'tanh', 'sigmoid', 'rel', 'el']
    D = lambda *s: {'default': TB + s}
    for a in acts:
        small = a in ('rel', 'el')
        add('fc-' + a, 'FullyConnected', D(2), ref_fc(a, (2,)), 2,
            1 if small else 2, 'in 2 out 2 ' + a, args=(2,),
            kw=dict(activation=a), params={'W': (2, 2), 'bias': (2,)})
        add('elementwise-' + a, 'Elementwise', D(1, 2),
            ref_elementwise(a), 1 if small else 2, 2, a,
            kw=dict(activation=a), params={})
        n = 1 if small else 2
        add('rnn-' + a, 'Recurrent', D(2), ref_rnn(a), 3 if not small else 2,
            n, 'in 2 size %d %s' % (n, a), args=(n,),
            kw=dict(activation=a), context=True,
            params={'W': (n, 2), 'R': (n, n), 'bias': (n,)})
        add('conv-' + a, 'Convolution2D', D(3, 2, 1),
            ref_conv(a, (2, 2), (1, 1), 0), 1, 1, a, args=(1, (2, 2)),
            kw=dict(activation=a))
        add('lstm-' + a, 'Lstm', D(1), ref_lstm(a), 1 if small else 2, 1,
            'size 1 ' + a, args=(1,), kw=dict(activation=a), context=True)
        for w, r in (('Clockwork', ref_rnn), ('ClockworkLstm', ref_lstm)):
            add('%s-%s' % (w, a), w, D(1), r(a, (2,)),
                1 if small and r is ref_lstm else 3, 1,
                'size 1 timing 2 ' + a, args=(1,), kw=dict(activation=a),
                context=True, special={'w.timing': const((2,))})
    # defaults of the documented wrappers
    add('fc-default', 'FullyConnected', D(2), ref_fc('rel', (1,)), 1, 2,
        'default activation', args=(1,))
    add('fc-same', 'FullyConnected', D(2, 1), ref_fc('linear', (2, 1)), 1, 2,
        'size as input', kw=dict(activation='linear'),
        params={'W': (2, 2), 'bias': (2,)})
    add('fc-2d', 'FullyConnected', D(2, 2), ref_fc('tanh', (2, 1, 2)), 2, 1,
        'in (2,2) out (2,1,2)', args=((2, 1, 2),),
        kw=dict(activation='tanh'), params={'W': (4, 4), 'bias': (4,)})
    add('elementwise-default', 'Elementwise', D(2), ref_elementwise('rel'),
        1, 2, 'default activation')
    add('rnn-default', 'Recurrent', D(1, 2), ref_rnn('tanh'), 3, 2,
        'features (1,2)', args=(3,), context=True,
        params={'W': (3, 2), 'R': (3, 3), 'bias': (3,)})
    lp = lambda n, m: dict(
        [('W' + g, (n, m)) for g in 'zifo'] +
        [('R' + g, (n, n)) for g in 'zifo'] +
        [('b' + g, (n,)) for g in 'zifo'] +
        [('p' + g, (1, n)) for g in 'ifo'])
    add('lstm-default', 'Lstm', D(2), ref_lstm('tanh'), 3, 2, 'size 2',
        args=(2,), context=True, params=lp(2, 2), weight=3)
    add('lstm-features', 'Lstm', D(2, 1), ref_lstm('tanh'), 2, 1,
        'features (2,1) size 3', args=(3,), context=True, params=lp(3, 2),
        weight=3)
    for w, r, p in (('Clockwork', ref_rnn, {'W': (3, 2), 'R': (3, 3),
                                            'bias': (3,), 'timing': (3,)}),
                    ('ClockworkLstm', ref_lstm,
                     dict(lp(3, 2), timing=(3,)))):
        add(w + '-default', w, D(2), r('tanh', (1, 2, 3)), 5, 2,
            'size 3 timing 1,2,3', args=(3,), context=True,
            special={'w.timing': const((1, 2, 3))}, params=p, weight=5)
        add(w + '-4', w, D(1), r('tanh', (4, 2)), 6 if thorough else 5, 1,
            'size 2 timing 4,2', args=(2,), context=True,
            special={'w.timing': const((4, 2))}, weight=5)
    convs = [((3, 3, 1), 1, (2, 2), None, None, 1),
             ((3, 4, 2), 2, (2, 3), (1, 1), 0, 1),
             ((3, 3, 1), 2, (2, 2), (2, 1), 1, 2),
             ((4, 3, 1), 1, (3, 2), (1, 2), 1, 1),
             ((2, 2, 3), 2, (1, 1), (1, 1), 0, 2),
             ((4, 4, 1), 1, (2, 2), (2, 2), 0, 1),
             ((2, 3, 1), 1, (2, 2), (1, 1), 2, 1),
             ((5, 3, 2), 1, (2, 2), (3, 2), 1, 1),
             ((5, 6, 1), 2, (3, 2), (2, 3), 1, 1),
             ((2, 5, 2), 2, [1, 4], [1, 2], 2, 1)]
    for n, (ish, nf, ks, st, pad, B) in enumerate(convs):
        kw = dict(activation='linear')
        if st is not None:
            kw.update(stride=st, padding=pad)
        add('conv-%d' % n, 'Convolution2D', D(*ish),
            ref_conv('linear', ks, st or (1, 1), pad or 0), 2, B,
            'image %s filters %d kernel %s stride %s pad %s' % (
                ish, nf, ks, st, pad), args=(nf, ks), kw=kw,
            params={'W': (nf,) + tuple(ks) + (ish[2],), 'bias': (nf,)})
    add('conv-default', 'Convolution2D', D(2, 2, 1),
        ref_conv('rel', (2, 1), (1, 1), 0), 1, 1, 'default activation',
        args=(1, (2, 1)))
    pools = [((3, 3, 1), (2, 2), (1, 1), 0, 1),
             ((3, 3, 2) if thorough else (2, 3, 2), (2, 2), (1, 2), 0, 1),
             ((2, 2, 1), (2, 2), (1, 1), 1, 1),
             ((3, 3, 1), (2, 2), (2, 2), 1, 1),
             ((2, 4, 1), (1, 3), (1, 2), 1, 1),
             ((2, 2, 1), (2, 1), (2, 1), 0, 2),
             ((5, 2, 1), (2, 2), (3, 1), 0, 1),
             ((2, 2, 2), (2, 1), (1, 1), 0, 2),
             ((1, 4, 1), [1, 2], [1, 3], 0, 1),
             ((4, 5, 2), (2, 3), (2, 1), 1, 1)]
    for n, (ish, ks, st, pad, B) in enumerate(pools):
        for ty in ('max', 'avg'):
            if ty == 'max' and n == 9:
                continue
            add('pool-%s-%d' % (ty, n), 'Pooling2D', D(*ish),
                ref_pool(ty, ks, st, pad), 2 if ty == 'avg' else 1, B,
                'image %s window %s stride %s pad %d' % (ish, ks, st, pad),
                args=(ks,), kw=dict(stride=st, padding=pad, type=ty),
                weight=10 if ty == 'max' else 2, max_paths=60000,
                special={'x.default': lambda ctx, shape, _f=_finite:
                         _f(ctx, shape)} if ty == 'max' else None)
    add('pool-default', 'Pooling2D', D(2, 3, 1),
        ref_pool('max', (2, 2), (1, 1), 0), 1, 1, 'defaults',
        args=((2, 2),), weight=5, special={'x.default': _finite})
    add('highway', 'Highway', {'H': TB + (2, 1), 'T': TB + (2, 1),
                               'x': TB + (2, 1)}, ref_highway, 2, 2,
        'features (2,1)')
    for p in (0.5, 0.2, 0.75):
        add('dropout-%s' % p, 'Dropout', D(2), ref_dropout(p), 1, 2,
            'drop_prob %s' % p, kw=dict(drop_prob=p))
    add('dropout-default', 'Dropout', D(1, 2), ref_dropout(0.5), 2, 1,
        'default drop_prob')
    add('dropout-0', 'Dropout', D(2), ref_copy, 2, 1, 'drop_prob 0',
        kw=dict(drop_prob=0.0), special=None)
    for shp, m in (((2, 2), (1,)), ((2, 2), (2, 1)), ((2, 2), (2, 2)),
                   ((3,), (1,)), ((3,), (3,)), ((1, 2, 2), (1, 2, 1))):
        add('mask-%s-%s' % (shp, m), 'Mask',
            {'default': TB + shp, 'mask': TB + m}, ref_mask, 2, 2,
            'features %s mask %s' % (shp, m))
    add('merge', 'Merge', {'inputs_1': TB + (2, 1), 'inputs_2': TB + (2, 2)},
        ref_merge, 2, 2, 'features (2,1)+(2,2)')
    add('merge-1d', 'Merge', {'inputs_1': TB + (3,), 'inputs_2': TB + (1,)},
        ref_merge, 1, 2, 'features 3+1')
    add('merge-B', 'Merge', {'inputs_1': ('B', 1), 'inputs_2': ('B', 3)},
        ref_merge, 1, 2, 'features 1+3, no time')
    add('noop', 'NoOp', D(2, 2), ref_copy, 2, 2, 'features (2,2)')
    add('deltas-scaling', 'DeltasScaling', D(2), ref_copy, 2, 2, 'factor -2',
        args=(-2.0,))
    for nm, shp, ax in (('tb', TB + (2,), 1), ('b', ('B', 3), 0),
                        ('plain', (3, 2), None), ('t3', TB + (1, 2), 1)):
        for imp in (None, 0.25):
            add('loss-%s-%s' % (nm, imp), 'Loss', {'default': shp},
                ref_loss(1.0 if imp is None else imp, ax), 3, 2,
                'shape %s' % (shp,),
                kw={} if imp is None else {'importance': imp})
    for n, (shp, T, B) in enumerate([((1,), 1, 3), ((2,), 1, 2),
                                     ((2,), 2, 1), ((2, 1), 1, 1),
                                     ((2, 1, 1), 1, 2), ((1, 2, 2), 2, 1)]):
        add('batchnorm-%d' % n, 'BatchNorm', D(*shp), ref_bn(), T, B,
            'features %s' % (shp,), special={'w.sigma': positive('w.sigma')},
            params={k: (shp[-1],) for k in ('gamma', 'beta', 'mu', 'sigma')})
    add('batchnorm-eps', 'BatchNorm', D(1), ref_bn(0.5, 0.3), 1, 2,
        'epsilon 0.5 decay 0.3', kw=dict(epsilon=0.5, decay=0.3),
        special={'w.sigma': positive('w.sigma')})
    for shp, tsh, T, B in (((3,), (1,), 1, 1), ((2,), (1,), 2, 1),
                           ((2, 2), (2, 1), 1, 1), ((2,), (1,), 1, 2)):
        add('softmaxce-%s-%d%d' % (shp, T, B), 'SoftmaxCE',
            {'default': TB + shp, 'targets': TB + tsh}, ref_softmaxce, T, B,
            'classes %d' % shp[-1], weight=5,
            special={'x.targets': classes(shp[-1])})
    for shp, T, B in (((2,), 1, 1), ((1, 2), 1, 1), ((1,), 1, 2)):
        add('sigmoidce-%s-%d%d' % (shp, T, B), 'SigmoidCE',
            {'default': TB + shp, 'targets': TB + shp}, ref_sigmoidce, T, B,
            'features %s' % (shp,), special={'x.targets': classes(2)})
        add('binomialce-%s-%d%d' % (shp, T, B), 'BinomialCrossEntropy',
            {'default': TB + shp, 'targets': TB + shp}, ref_binomialce, T, B,
            'features %s' % (shp,), special={
                'x.targets': classes(2), 'x.default': unit('x.default')})
    for shp, T, B in (((2, 1), 2, 1), ((1,), 2, 2), ((3,), 1, 1)):
        add('squareddiff-%s-%d%d' % (shp, T, B), 'SquaredDifference',
            {'inputs_1': TB + shp, 'inputs_2': TB + shp}, ref_sqdiff, T, B,
            'features %s' % (shp,))
        add('squarederror-%s-%d%d' % (shp, T, B), 'SquaredError',
            {'default': TB + shp, 'targets': TB + shp}, ref_sqerr, T, B,
            'features %s' % (shp,))
        add('l1decay-%s-%d%d' % (shp, T, B), 'L1Decay', D(*shp),
            ref_decay(lambda ctx, u: u if bool(u >= 0) else -u), T, B,
            'features %s' % (shp,))
        add('l2decay-%s-%d%d' % (shp, T, B), 'L2Decay', D(*shp),
            ref_decay(lambda ctx, u: u * u * 0.5), T, B,
            'features %s' % (shp,))
    C += big_cases()
    return C


def fixed_classes(n):
    def f(ctx, shape):
        v = (np.arange(int(np.prod(shape))) * 5 + 1) % n
        return ctx.to_obj(v.reshape(shape).astype(float))
    return f


def quarters(shift):
    """positive fixed numbers"""
    def f(ctx, shape):
        v = (np.arange(int(np.prod(shape))) * 3 + shift) % 7 / 8 + 0.125
        return ctx.to_obj(v.reshape(shape))
    return f


def big_cases():
    """sizes well beyond the other cases: most numbers are fixed, some of
    every array are arbitrary"""
    C = []

    def add(name, wrapper, ins, ref, T, B, bounds='', weight=5, symbols=2,
            zero=(), **kw):
        C.append(Case('big-' + name, sparse(forward_case(
            wrapper, ins, ref, T, B, **kw), symbols, zero),
            bounds='T=%d B=%d %s, %d arbitrary entries per array' % (
                T, B, bounds, symbols), weight=weight, tol=1e-6))
    D = lambda *s: {'default': TB + s}
    for a in ('linear', 'tanh', 'sigmoid', 'rel', 'el'):
        kink = a in ('rel', 'el')
        if not kink:
            add('fc-' + a, 'FullyConnected', D(3, 2), ref_fc(a, (2, 4)), 5,
                4, a, args=((2, 4),), kw=dict(activation=a))
        add('elementwise-' + a, 'Elementwise', D(3, 3), ref_elementwise(a),
            6, 5, a, kw=dict(activation=a), symbols=2 if kink else 4)
    add('rnn', 'Recurrent', D(4), ref_rnn('linear'), 6, 4, 'size 5',
        args=(5,), kw=dict(activation='linear'), context=True)
    add('rnn-tanh', 'Recurrent', D(3), ref_rnn('tanh'), 6, 4, 'size 4',
        args=(4,), context=True, zero=('w.',))
    add('lstm', 'Lstm', D(3), ref_lstm('tanh'), 5, 3, 'size 4', args=(4,),
        context=True, zero=('w.',))
    add('cw', 'Clockwork', D(3), ref_rnn('tanh', (1, 2, 4, 8, 3)), 9, 2,
        'size 5', args=(5,), context=True, zero=('w.',),
        special={'w.timing': const((1, 2, 4, 8, 3))})
    add('cwlstm', 'ClockworkLstm', D(3), ref_lstm('tanh', (1, 2, 4, 3)), 6, 2,
        'size 4', args=(4,), context=True, zero=('w.',),
        special={'w.timing': const((1, 2, 4, 3))})
    for n, (ish, nf, ks, st, pad, B) in enumerate([
            ((6, 7, 3), 4, (3, 3), (1, 1), 0, 3),
            ((7, 6, 2), 3, (3, 2), (2, 2), 1, 4),
            ((8, 5, 4), 5, (5, 4), (3, 1), 2, 2),
            ((5, 9, 1), 6, (2, 5), (1, 3), 3, 5)]):
        add('conv-%d' % n, 'Convolution2D', D(*ish),
            ref_conv('linear', ks, st, pad), 2, B,
            'image %s filters %d kernel %s stride %s pad %d' % (
                ish, nf, ks, st, pad), args=(nf, ks),
            kw=dict(stride=st, padding=pad, activation='linear'), symbols=5,
            weight=15)
    for n, (ish, ks, st, pad, B) in enumerate([
            ((6, 7, 3), (3, 3), (1, 1), 0, 3),
            ((7, 6, 2), (3, 2), (2, 2), 1, 4),
            ((8, 5, 4), (4, 5), (3, 1), 2, 2)]):
        for ty in ('avg', 'max'):
            add('pool-%s-%d' % (ty, n), 'Pooling2D', D(*ish),
                ref_pool(ty, ks, st, pad), 2, B,
                'image %s window %s stride %s pad %d' % (ish, ks, st, pad),
                args=(ks,), kw=dict(stride=st, padding=pad, type=ty),
                symbols=5 if ty == 'avg' else 1, weight=10,
                special={'x.default': _finite} if ty == 'max' else None)
    add('highway', 'Highway', {k: TB + (3, 2, 2) for k in 'HTx'},
        ref_highway, 5, 4, 'features (3,2,2)', symbols=4)
    for shp, m in (((4, 3), (1,)), ((4, 3), (4, 1)), ((5,), (5,))):
        add('mask-%s-%s' % (shp, m), 'Mask',
            {'default': TB + shp, 'mask': TB + m}, ref_mask, 5, 4,
            'features %s mask %s' % (shp, m), symbols=4)
    add('merge', 'Merge', {'inputs_1': TB + (3, 4), 'inputs_2': TB + (3, 5)},
        ref_merge, 5, 4, 'features (3,4)+(3,5)', symbols=4)
    add('noop', 'NoOp', D(4, 3), ref_copy, 6, 5, 'features (4,3)', symbols=4)
    for nm, shp, ax in (('tb', TB + (3, 2), 1), ('b', ('B', 6), 0)):
        add('loss-' + nm, 'Loss', {'default': shp}, ref_loss(0.75, ax), 6, 5,
            'shape %s' % (shp,), kw=dict(importance=0.75), symbols=4)
    add('batchnorm', 'BatchNorm', D(2, 3), ref_bn(), 3, 3, 'features (2,3)',
        special={'w.sigma': positive('w.sigma')})
    add('softmaxce', 'SoftmaxCE', {'default': TB + (5,), 'targets':
                                   TB + (1,)}, ref_softmaxce, 2, 2,
        'classes 5', special={'x.targets': fixed_classes(5)}, symbols=0)
    add('sigmoidce', 'SigmoidCE', {'default': TB + (2, 2), 'targets':
                                   TB + (2, 2)}, ref_sigmoidce, 1, 4,
        'features (2,2)', special={'x.targets': fixed_classes(2)}, symbols=1)
    add('binomialce', 'BinomialCrossEntropy',
        {'default': TB + (3, 2), 'targets': TB + (3, 2)}, ref_binomialce, 3,
        4, 'features (3,2)', special={'x.targets': fixed_classes(2),
                                      'x.default': quarters(2)}, symbols=1)
    add('squareddiff', 'SquaredDifference',
        {'inputs_1': TB + (3, 4), 'inputs_2': TB + (3, 4)}, ref_sqdiff, 5, 4,
        'features (3,4)', symbols=4)
    add('squarederror', 'SquaredError',
        {'default': TB + (3, 4), 'targets': TB + (3, 4)}, ref_sqerr, 5, 4,
        'features (3,4)', symbols=4)
    add('l1decay', 'L1Decay', D(3, 4), ref_decay(
        lambda ctx, u: u if bool(u >= 0) else -u), 5, 4, 'features (3,4)',
        symbols=4)
    add('l2decay', 'L2Decay', D(3, 4), ref_decay(
        lambda ctx, u: u * u * 0.5), 5, 4, 'features (3,4)', symbols=4)
    return C


def _finite(ctx, shape):
    a = ctx.arr('x.default', shape)
    for x in a.ravel():
        ctx.assume(ctx.And(x > -1e6, x < 1e6))
    return a

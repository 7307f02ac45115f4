"""C19: handler operations compute their documented function."""
import numpy as np

from symx.gradlib import sparse
from symx.layers import FakeRnd, make_handler
from symx.runner import Case

ASSUMPTIONS = [
    'exact reals; numpy itself is trusted, the calls made to it are executed',
    'modulo_tt and the square root, logarithm and division operations on '
    'their mathematical domains (non-negative dividend and positive divisor, '
    'non-zero divisor, positive argument)',
    'array shapes up to (2, 3) / (2, 1, 2), images up to 4x3',
]


def handler(ctx):
    h = make_handler(ctx, abstract=False)
    h.rnd = FakeRnd(ctx)
    return h


class Mem(object):
    """arrays placed in guarded memory, so that writes elsewhere show"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.guards = []

    def place(self, vals, strided):
        vals = self.ctx.to_obj(vals)
        shape = vals.shape
        if not strided:
            n = vals.size
            full = self.ctx.to_obj(np.full(n + 4, 13.0))
            a = full[2:2 + n].reshape(shape)
            idx = np.ones(n + 4, dtype=bool)
            idx[2:2 + n] = False
        else:
            big = tuple(s + 2 for s in shape)
            full = self.ctx.to_obj(np.full(big, 13.0))
            sl = tuple(slice(1, 1 + s) for s in shape)
            a = full[sl]
            idx = np.ones(big, dtype=bool)
            idx[sl] = False
        a[...] = vals
        self.guards.append((full, idx))
        return a

    def verify(self):
        for full, idx in self.guards:
            self.ctx.eq(full[idx], np.full(int(idx.sum()), 13.0),
                        'memory around the arrays')


def op_case(name, shapes, spec, call=None, scal=(), out=None, prefill=True,
            inplace=(), gen=None, strided=True, pre=None, n_out=1, ints=()):
    """shapes: input shapes by name; out: {name: shape}.  spec(ctx, ins,
    olds) -> expected outputs; inplace: inputs that may be the output."""
    gen = gen or {}

    def fn(ctx):
        h = handler(ctx)
        mem = Mem(ctx)
        modes = ['plain'] + (['strided'] if strided else []) + \
            ['inplace ' + i for i in inplace]
        mode = ctx.choose('mode', modes)
        ins = {}
        for k, s in shapes.items():
            v = gen[k](ctx, s) if k in gen else ctx.arr(k, s)
            ins[k] = mem.place(v, mode == 'strided')
        sc = {}
        for k in scal:
            sc[k] = gen[k](ctx, ()) if k in gen else ctx.real(k)
        before = {k: a.copy() for k, a in ins.items()}
        if pre:
            pre(ctx, before, sc)
        outs, old = {}, {}
        for k, s in out.items():
            if mode.startswith('inplace'):
                outs[k] = ins[mode.split()[1]]
            else:
                outs[k] = mem.place(ctx.arr('old.' + k, s),
                                    mode == 'strided')
            old[k] = outs[k].copy()
        args = dict(ins)
        args.update(sc)
        args.update(outs)
        res = call(h, args)
        exp = spec(ctx, dict(before, **sc), old)
        for k, e in exp.items():
            ctx.eq(outs[k], e, '%s: %s' % (mode, k))
        ctx.check(set(exp) == set(outs), 'outputs')
        for k, a in before.items():
            if mode.startswith('inplace') and mode.split()[1] == k:
                continue
            ctx.eq(ins[k], a, '%s: argument %s changed' % (mode, k))
        mem.verify()
    return fn


def emap(ctx, f, *arrs):
    arrs = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in arrs])
    r = np.empty(arrs[0].shape, dtype=object)
    for i in np.ndindex(*r.shape):
        r[i] = f(*[a[i] for a in arrs])
    return r if ctx.symbolic else r.astype(float)


def matmul(a, b):
    r = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i, j in np.ndindex(*r.shape):
        s = 0.0
        for k in range(a.shape[1]):
            s = s + a[i, k] * b[k, j]
        r[i, j] = s
    return r


def total(xs):
    s = 0.0
    for x in xs:
        s = s + x
    return s


def signed(name):
    """0, or an arbitrary value of either sign"""
    def f(ctx, shape):
        return ctx.arr(name, shape)
    return f


def flags(name, vals=(0, 1)):
    def f(ctx, shape):
        a = np.empty(shape, dtype=object)
        for j, i in enumerate(np.ndindex(*shape)):
            a[i] = float(ctx.choose('%s%d' % (name, j), list(vals)))
        return ctx.to_obj(a.astype(float))
    return f


def nonzero(name):
    def f(ctx, shape):
        a = ctx.arr(name, shape)
        for x in a.ravel():
            ctx.assume(ctx.Or(x > 0.01, x < -0.01))
        return a
    return f


def positive(name, lo=0.01):
    def f(ctx, shape):
        if shape == ():
            return ctx.real(name, lo)
        a = np.empty(shape, dtype=ctx.dtype)
        for i in np.ndindex(*shape):
            a[i] = ctx.real(name + '_'.join(map(str, i)), lo)
        return a
    return f


def cases(tier):
    C = []

    def add(nm, *a, **kw):
        bounds = kw.pop('bounds', '')
        w = kw.pop('weight', 1)
        C.append(Case(nm, op_case(nm, *a, **kw), bounds=bounds, weight=w,
                      tol=1e-6))
    S2, S3 = (2, 3), (2, 1, 2)

    # elementwise, any shape, result may replace an argument
    def ew(nm, f, args, shape=S2, gen=None, acc=False, inplace=None,
           scal=(), **kw):
        tens = [a for a in args if a not in scal]

        def call(h, A):
            getattr(h, nm)(*[A[a] for a in args], out=A['out'])

        def spec(ctx, I, old):
            vals = [I[a] for a in args]
            if acc:
                return {'out': emap(ctx, lambda o, *v: o + f(ctx, *v),
                                    old['out'], *vals)}
            return {'out': emap(ctx, lambda *v: f(ctx, *v), *vals)}
        add('%s-%s' % (nm, 'x'.join(map(str, shape))),
            {a: shape for a in tens}, spec, call, scal=scal,
            out={'out': shape}, gen=gen,
            inplace=(tens if not acc else ()) if inplace is None else inplace,
            bounds='shape %s, also in place and strided' % (shape,), **kw)
    for s in (S2, S3):
        ew('add_tt', lambda c, a, b: a + b, ['a', 'b'], s)
        ew('subtract_tt', lambda c, a, b: a - b, ['a', 'b'], s)
        ew('mult_tt', lambda c, a, b: a * b, ['a', 'b'], s)
        ew('mult_add_tt', lambda c, a, b: a * b, ['a', 'b'], s, acc=True)
        ew('divide_tt', lambda c, a, b: a / b, ['a', 'b'], s,
           gen={'b': nonzero('b')})
        ew('add_st', lambda c, a, b: a + b, ['s', 't'], s, scal=('s',))
        ew('mult_st', lambda c, a, b: a * b, ['s', 't'], s, scal=('s',))
        ew('mult_add_st', lambda c, a, b: a * b, ['s', 't'], s, acc=True,
           scal=('s',))
        ew('sqrt_t', lambda c, a: c.sqrt(a), ['a'], s,
           gen={'a': positive('a')})
        ew('log_t', lambda c, a: c.log(a), ['a'], s,
           gen={'a': positive('a')})
    ew('abs_t', lambda c, a: c.ite(a >= 0, a, -a), ['a'], S3)
    ew('sign_t', lambda c, a: c.ite(a > 0, 1.0, c.ite(a < 0, -1.0, 0.0)),
       ['a'], (1, 2), weight=2)

    def modspec(c, a, b):
        k = int(a // b)
        return a - k * b
    ew('modulo_tt', modspec, ['a', 'b'], (1, 2), gen={
        'a': lambda ctx, s: _range(ctx, 'a', s, 0, 6),
        'b': lambda ctx, s: flags('b', (1, 2, 3))(ctx, s)}, weight=3)

    def clip(c, a, lo, hi):
        return c.ite(a < lo, lo, c.ite(a > hi, hi, a))
    ew('clip_t', clip, ['a', 'a_min', 'a_max'], (1, 3),
       scal=('a_min', 'a_max'),
       pre=lambda ctx, b, sc: ctx.assume(sc['a_min'] <= sc['a_max']))

    # matrix with vector
    for nm, f in (('add_mv', lambda m, v: m + v),
                  ('subtract_mv', lambda m, v: m - v),
                  ('mult_mv', lambda m, v: m * v),
                  ('divide_mv', lambda m, v: m / v),
                  ('mult_add_mv', lambda m, v: m * v)):
        shapes = [(1, 3), (2, 1)] + ([(2, 3)] if nm == 'mult_mv' else [])
        for vs in shapes:
            acc = nm == 'mult_add_mv'
            add('%s-%dx%d' % ((nm,) + vs), {'m': S2, 'v': vs},
                lambda ctx, I, old, f=f, acc=acc: {'out': emap(
                    ctx, lambda o, a, b: (o if acc else 0.0) + f(a, b),
                    old['out'], I['m'], I['v'])},
                lambda h, A, nm=nm: getattr(h, nm)(A['m'], A['v'],
                                                   out=A['out']),
                out={'out': S2}, inplace=() if acc else ('m',),
                gen={'v': nonzero('v')} if nm == 'divide_mv' else None,
                bounds='(2,3) with %s' % (vs,))
        # square matrices, where both orientations fit
        for vs in ((1, 2), (2, 1)):
            add('%s-sq-%dx%d' % ((nm,) + vs), {'m': (2, 2), 'v': vs},
                lambda ctx, I, old, f=f, acc=acc: {'out': emap(
                    ctx, lambda o, a, b: (o if acc else 0.0) + f(a, b),
                    old['out'], I['m'], I['v'])},
                lambda h, A, nm=nm: getattr(h, nm)(A['m'], A['v'],
                                                   out=A['out']),
                out={'out': (2, 2)},
                gen={'v': nonzero('v')} if nm == 'divide_mv' else None,
                bounds='(2,2) with %s' % (vs,))

    # products
    for nm in ('dot_mm', 'dot_add_mm'):
        for ta in (False, True):
            for tb in (False, True):
                sa = (3, 2) if ta else (2, 3)
                sb = (2, 3) if tb else (3, 2)

                def spec(ctx, I, old, nm=nm, ta=ta, tb=tb):
                    a = I['a'].T if ta else I['a']
                    b = I['b'].T if tb else I['b']
                    r = matmul(a, b)
                    if nm == 'dot_add_mm':
                        r = r + old['out']
                    return {'out': r}
                add('%s-%d%d' % (nm, ta, tb), {'a': sa, 'b': sb}, spec,
                    lambda h, A, nm=nm, ta=ta, tb=tb: getattr(h, nm)(
                        A['a'], A['b'], A['out'], transa=ta, transb=tb),
                    out={'out': (2, 2)}, bounds='%s by %s' % (sa, sb))
        add(nm + '-outer', {'a': (2, 1), 'b': (1, 3)},
            lambda ctx, I, old, nm=nm: {'out': matmul(I['a'], I['b']) + (
                old['out'] if nm == 'dot_add_mm' else 0.0)},
            lambda h, A, nm=nm: getattr(h, nm)(A['a'], A['b'], A['out']),
            out={'out': (2, 3)}, bounds='outer product')

    # conditional operations (any non-zero value is true)
    cond = {'cond': flags('cond', (0, 1, -0.5))}
    add('copy_to_if', {'src': (1, 3), 'cond': (1, 3)},
        lambda ctx, I, old: {'dest': emap(
            ctx, lambda o, s, c: s if float(c) != 0 else o, old['dest'],
            I['src'], I['cond'])},
        lambda h, A: h.copy_to_if(A['src'], A['dest'], A['cond']),
        out={'dest': (1, 3)}, gen=cond)
    add('add_into_if', {'a': (1, 3), 'cond': (1, 3)},
        lambda ctx, I, old: {'out': emap(
            ctx, lambda o, s, c: s + o if float(c) != 0 else o, old['out'],
            I['a'], I['cond'])},
        lambda h, A: h.add_into_if(A['a'], A['out'], A['cond']),
        out={'out': (1, 3)}, gen=cond)
    add('fill_if', {'cond': (1, 3)},
        lambda ctx, I, old: {'mem': emap(
            ctx, lambda o, c: I['val'] if float(c) != 0 else o, old['mem'],
            I['cond'])},
        lambda h, A: h.fill_if(A['mem'], A['val'], A['cond']),
        scal=('val',), out={'mem': (1, 3)}, gen=cond)
    add('fill', {}, lambda ctx, I, old: {'mem': emap(
        ctx, lambda o: I['val'], old['mem'])},
        lambda h, A: h.fill(A['mem'], A['val']), scal=('val',),
        out={'mem': S3})
    add('copy_to', {'src': S3}, lambda ctx, I, old: {'dest': I['src']},
        lambda h, A: h.copy_to(A['src'], A['dest']), out={'dest': S3})

    # indices
    for rows, cols in ((2, 3), (3, 2), (1, 1), (1, 2), (2, 1)):
        idx = {'v': flags('v', range(cols))}
        add('binarize_v-%dx%d' % (rows, cols), {'v': (rows, 1)},
            lambda ctx, I, old: {'out': emap(
                ctx, lambda o, v, j: 1.0 if int(v) == j else 0.0,
                old['out'], I['v'],
                np.arange(old['out'].shape[1]).reshape(1, -1))},
            lambda h, A: h.binarize_v(A['v'], A['out']),
            out={'out': (rows, cols)}, gen=idx,
            bounds='%d indices below %d' % (rows, cols))

        def ispec(ctx, I, old):
            r = np.empty(old['out'].shape, dtype=object)
            for i in range(r.shape[0]):
                r[i, 0] = I['m'][i, int(I['v'][i, 0])]
            return {'out': r}
        add('index_m_by_v-%dx%d' % (rows, cols),
            {'m': (rows, cols), 'v': (rows, 1)}, ispec,
            lambda h, A: h.index_m_by_v(A['m'], A['v'], A['out']),
            out={'out': (rows, 1)}, gen=idx,
            bounds='%d indices below %d' % (rows, cols))
    for shp, ax, n in (((1, 2), 0, 3), ((2, 1), 1, 3), ((2, 1, 2), 1, 2),
                       ((1,), 0, 3), ((2, 2, 1), 2, 1), ((1, 1), 0, 2)):
        o = shp[:ax] + (n,) + shp[ax + 1:]
        add('broadcast_t-%s-%d' % (shp, ax), {'a': shp},
            lambda ctx, I, old: {'out': np.broadcast_to(
                I['a'], old['out'].shape)},
            lambda h, A, ax=ax: h.broadcast_t(A['a'], ax, A['out']),
            out={'out': o}, bounds='%s to %s' % (shp, o))

    # joining and splitting along the last axis
    for pre_, na, nb in (((2,), 1, 2), ((2, 1), 2, 1), ((1, 2, 1), 1, 1)):
        add('merge_tt-%s-%d-%d' % (pre_, na, nb),
            {'a': pre_ + (na,), 'b': pre_ + (nb,)},
            lambda ctx, I, old: {'out': np.concatenate(
                [I['a'], I['b']], axis=-1)},
            lambda h, A: h.merge_tt(A['a'], A['b'], A['out']),
            out={'out': pre_ + (na + nb,)}, strided=False)
        add('split_add_tt-%s-%d-%d' % (pre_, na, nb),
            {'x': pre_ + (na + nb,)},
            lambda ctx, I, old, na=na: {
                'out_a': old['out_a'] + I['x'][..., :na],
                'out_b': old['out_b'] + I['x'][..., na:]},
            lambda h, A: h.split_add_tt(A['x'], A['out_a'], A['out_b']),
            out={'out_a': pre_ + (na,), 'out_b': pre_ + (nb,)},
            strided=False)

    # sums, with and without the summed dimension kept
    for shp, ax, o in (((2, 3), 0, (3,)), ((2, 3), 1, (2,)),
                       ((2, 3), 0, (1, 3)), ((2, 3), 1, (2, 1)),
                       ((2, 3), None, ()), ((3,), 0, ()), ((3,), None, ()),
                       ((2, 1, 2), None, ()), ((2, 2), 0, (2,)),
                       ((2, 2), 1, (2,)), ((2, 2), 1, (2, 1)),
                       ((1, 3), 0, (3,)), ((3, 1), 1, (3, 1))):
        def sspec(ctx, I, old, ax=ax, o=o):
            a = I['a']
            if ax is None:
                r = np.empty((), dtype=object)
                r[()] = total(a.ravel())
                return {'out': r}
            m = np.moveaxis(a, ax, 0)
            r = m[0]
            for x in m[1:]:
                r = r + x
            q = np.empty(o, dtype=object)
            q[...] = np.asarray(r, dtype=object).reshape(o)
            return {'out': q}
        add('sum_t-%s-%s-%s' % (shp, ax, o), {'a': shp}, sspec,
            lambda h, A, ax=ax: h.sum_t(A['a'], ax, A['out']),
            out={'out': o}, strided=len(o) > 0,
            bounds='%s along %s into %s' % (shp, ax, o))

    # activation functions
    def sig(ctx, x):
        return ctx.exp(x) / (1 + ctx.exp(x)) if bool(x < 0) else \
            1 / (1 + ctx.exp(-x))
    actf = {
        'sigmoid': sig,
        'tanh': lambda c, x: c.tanh(x),
        'rel': lambda c, x: c.ite(x > 0, x, 0.0),
        'el': lambda c, x: x if bool(x > 0) else c.exp(x) - 1,
    }
    for nm, f in sorted(actf.items()):
        add(nm, {'x': (1, 3)},
            lambda ctx, I, old, f=f: {'y': emap(
                ctx, lambda x: f(ctx, x), I['x'])},
            lambda h, A, nm=nm: getattr(h, nm)(A['x'], A['y']),
            out={'y': (1, 3)}, inplace=('x',), weight=2)
        add('act_func-' + nm, {'x': (1, 2)},
            lambda ctx, I, old, f=f: {'y': emap(
                ctx, lambda x: f(ctx, x), I['x'])},
            lambda h, A, nm=nm: h.act_func[nm](A['x'], A['y']),
            out={'y': (1, 2)})
        add('inplace_act_func-' + nm, {'x': (1, 2)},
            lambda ctx, I, old, f=f: {'y': emap(
                ctx, lambda x: f(ctx, x), old['y'])},
            lambda h, A, nm=nm: h.inplace_act_func[nm](A['y']),
            out={'y': (1, 2)})
    derf = {
        'sigmoid': lambda c, y: y * (1 - y),
        'tanh': lambda c, y: 1 - y * y,
        'rel': lambda c, y: c.ite(y > 0, 1.0, 0.0),
        'el': lambda c, y: c.ite(y >= 0, 1.0, y + 1),
    }
    for nm, f in sorted(derf.items()):
        def dspec(ctx, I, old, f=f, k='dx'):
            return {k: emap(ctx, lambda y, d: d * f(ctx, y), I['y'],
                            I['dy'])}
        for px in (True, False):
            add('%s_deriv%s' % (nm, '' if px else '-nox'),
                {'x': (1, 3), 'y': (1, 3), 'dy': (1, 3)}, dspec,
                lambda h, A, nm=nm, px=px: getattr(h, nm + '_deriv')(
                    A['x'] if px else None, A['y'], A['dy'], A['dx']),
                out={'dx': (1, 3)}, inplace=('dy',))
        add('act_func_deriv-' + nm,
            {'x': (1, 2), 'y': (1, 2), 'dy': (1, 2)}, dspec,
            lambda h, A, nm=nm: h.act_func_deriv[nm](
                A['x'], A['y'], A['dy'], A['dx']), out={'dx': (1, 2)})
        add('inplace_act_func_deriv-' + nm, {'y': (1, 2)},
            lambda ctx, I, old, f=f: {'dy': emap(
                ctx, lambda y, d: d * f(ctx, y), I['y'], old['dy'])},
            lambda h, A, nm=nm: h.inplace_act_func_deriv[nm](
                A['y'], A['dy']), out={'dy': (1, 2)})
    ident = lambda ctx, I, old: {'y': I['x']}
    add('act_func-linear', {'x': (1, 2)}, ident,
        lambda h, A: h.act_func['linear'](A['x'], A['y']),
        out={'y': (1, 2)})
    add('inplace_act_func-linear', {'x': (1, 2)},
        lambda ctx, I, old: {'y': old['y']},
        lambda h, A: h.inplace_act_func['linear'](A['y']),
        out={'y': (1, 2)})
    add('act_func_deriv-linear', {'x': (1, 2), 'y': (1, 2), 'dy': (1, 2)},
        lambda ctx, I, old: {'dx': I['dy']},
        lambda h, A: h.act_func_deriv['linear'](
            A['x'], A['y'], A['dy'], A['dx']), out={'dx': (1, 2)})
    add('inplace_act_func_deriv-linear', {'y': (1, 2)},
        lambda ctx, I, old: {'dy': old['dy']},
        lambda h, A: h.inplace_act_func_deriv['linear'](A['y'], A['dy']),
        out={'dy': (1, 2)})

    def smspec(ctx, I, old):
        m = I['m']
        r = np.empty(m.shape, dtype=object)
        for i in range(m.shape[0]):
            top = m[i, 0]
            for u in m[i, 1:]:
                if bool(u > top):
                    top = u
            e = [ctx.exp(u - top) for u in m[i]]
            s = total(e)
            for j in range(len(e)):
                r[i, j] = e[j] / s
        return {'out': r if ctx.symbolic else r.astype(float)}
    for shp in ((2, 2), (1, 3), (2, 1)):
        add('softmax_m-%dx%d' % shp, {'m': shp}, smspec,
            lambda h, A: h.softmax_m(A['m'], A['out']), out={'out': shp},
            inplace=('m',))

    # random fills
    def mask(ctx):
        h = handler(ctx)
        p = ctx.real('p', 0, 1)
        mem = Mem(ctx)
        m = mem.place(ctx.arr('old', (2, 2)), ctx.choose('st', [0, 1]))
        h.generate_probability_mask(m, p)
        for i in np.ndindex(2, 2):
            u = ctx.real('rnd1_%d_%d' % i, 0, 1)
            ctx.eq(m[i], ctx.ite(u < p, 1.0, 0.0), 'mask')
        mem.verify()
    C.append(Case('generate_probability_mask', mask, bounds='2x2, any p'))

    def gauss(ctx):
        h = handler(ctx)
        mem = Mem(ctx)
        m = mem.place(ctx.arr('old', (2, 2)), ctx.choose('st', [0, 1]))
        mean, std = ctx.real('mean'), ctx.real('std', 0)
        h.fill_gaussian(mean, std, m)
        for i in np.ndindex(2, 2):
            ctx.eq(m[i], mean + std * ctx.real('rnd1_%d_%d' % i), 'value')
        mem.verify()
    C.append(Case('fill_gaussian', gauss, bounds='2x2, any mean, std >= 0'))

    # allocation and exchange with numpy
    def alloc(ctx):
        h = handler(ctx)
        shp = ctx.choose('shape', [(2, 3), (1,), (2, 1, 2), (0, 2)])
        z, o, a = h.zeros(shp), h.ones(shp), h.allocate(shp)
        ctx.eq(z, np.zeros(shp), 'zeros')
        ctx.eq(o, np.ones(shp), 'ones')
        ctx.check(a.shape == shp, 'allocated shape')
        v = ctx.arr('v', shp)
        w = v.copy()
        c = h.create_from_numpy(v)
        ctx.eq(c, v, 'created array')
        n = h.get_numpy_copy(c)
        ctx.eq(n, v, 'numpy copy')
        d = h.allocate(shp)
        h.set_from_numpy(d, v)
        ctx.eq(d, v, 'set array')
        # none of them share memory
        for x in (c, n, d, z, o, a):
            if x.size:
                x[...] = 5.0
            ctx.eq(v, w, 'source changed')
        for x in (c, n, d):
            x.fill(1.0)
            for y in (c, n, d, z, o, a):
                if y is not x:
                    ctx.eq(y, np.full(shp, 5.0), 'shared memory')
            x.fill(5.0)
    C.append(Case('allocation', alloc, bounds='4 shapes'))

    def finite(ctx):
        h = handler(ctx)
        n = 3
        bad = ctx.choose('bad', [None, 0, 1, 2])
        val = ctx.choose('val', [np.inf, -np.inf, np.nan])
        a = np.array([1.0, -2.0, 0.0])
        if bad is not None:
            a[bad] = val
        ctx.check(bool(h.is_fully_finite(a.reshape(1, 3))) == (bad is None),
                  'is_fully_finite')
    C.append(Case('is_fully_finite', finite, bounds='3 entries'))

    C.extend(kernel_cases(tier))
    return C


def _range(ctx, name, shape, lo, hi):
    a = np.empty(shape, dtype=ctx.dtype)
    for i in np.ndindex(*shape):
        a[i] = ctx.real(name + '_'.join(map(str, i)), lo, hi)
    return a


# ------------------------- image kernels ---------------------------------- #

def pairs(H, W, ks, st, pad, oh, ow):
    for i in range(oh):
        for j in range(ow):
            yield i, j, [(i * st[0] - pad + p, j * st[1] - pad + q, p, q)
                         for p in range(ks[0]) for q in range(ks[1])
                         if 0 <= i * st[0] - pad + p < H and
                         0 <= j * st[1] - pad + q < W]


def kernel_cases(tier):
    C = []
    confs = [((3, 3, 1), (2, 2), (1, 1), 0, 1), ((3, 4, 2), (2, 3), (2, 1), 1, 1),
             ((2, 3, 2), (2, 1), (1, 2), 0, 2), ((4, 3, 1), (3, 2), (3, 2), 2, 1),
             ((1, 1, 2), (1, 1), (1, 1), 0, 2), ((2, 2, 1), (2, 2), (1, 1), 2, 1),
             ((5, 2, 1), (2, 1), (3, 3), 0, 2),
             ((2, 3, 1), (2, 2), (1, 1), 0, 1)]
    # with mostly fixed numbers
    confs += [((6, 7, 3), (3, 3), (1, 1), 0, 3),
              ((7, 6, 2), (3, 2), (2, 2), 1, 4),
              ((9, 5, 4), (5, 4), (3, 1), 2, 2),
              ((5, 11, 1), (2, 7), (1, 3), 3, 5)]
    for n, (ish, ks, st, pad, N) in enumerate(confs):
        big = n >= 8
        wrap = (lambda f, k=4: sparse(f, k)) if big else (lambda f, k=4: f)
        H, W, M = ish
        oh = (H + 2 * pad - ks[0]) // st[0] + 1
        ow = (W + 2 * pad - ks[1]) // st[1] + 1
        F = 5 if big else 2
        bnd = 'image %s kernel %s stride %s pad %d, %d images' % (
            ish, ks, st, pad, N)

        def conv(ctx, H=H, W=W, M=M, F=F, ks=ks, st=st, pad=pad, N=N, oh=oh,
                 ow=ow):
            h = handler(ctx)
            mem = Mem(ctx)
            x = mem.place(ctx.arr('x', (N, H, W, M)), False)
            w = mem.place(ctx.arr('w', (F,) + tuple(ks) + (M,)), False)
            b = mem.place(ctx.arr('b', (F,)), False)
            y = mem.place(ctx.arr('old', (N, oh, ow, F)), False)
            x0, w0, b0 = x.copy(), w.copy(), b.copy()
            h.conv2d_forward_batch(x, w, b, y, pad, st)
            e = np.empty(y.shape, dtype=ctx.dtype)
            for i, j, ps in pairs(H, W, ks, st, pad, oh, ow):
                for im, f in np.ndindex(N, F):
                    e[im, i, j, f] = b0[f] + total(
                        x0[im, r, c, m] * w0[f, p, q, m]
                        for r, c, p, q in ps for m in range(M))
            ctx.eq(y, e, 'convolution')
            dx0 = ctx.arr('dx0', x.shape)
            dx = mem.place(dx0, False)
            g0 = ctx.arr('g', y.shape)
            g = mem.place(g0, False)
            dw = mem.place(ctx.arr('dw0', w.shape), False)
            db = mem.place(ctx.arr('db0', b.shape), False)
            h.conv2d_backward_batch(x, w, pad, st, dx, g, dw, db)
            edx = dx0.copy()
            edw = ctx.to_obj(np.zeros(w.shape))
            edb = ctx.to_obj(np.zeros(b.shape))
            for i, j, ps in pairs(H, W, ks, st, pad, oh, ow):
                for im, f in np.ndindex(N, F):
                    edb[f] = edb[f] + g0[im, i, j, f]
                    for r, c, p, q in ps:
                        for m in range(M):
                            edx[im, r, c, m] = edx[im, r, c, m] + \
                                g0[im, i, j, f] * w0[f, p, q, m]
                            edw[f, p, q, m] = edw[f, p, q, m] + \
                                g0[im, i, j, f] * x0[im, r, c, m]
            ctx.eq(dx, edx, 'input deltas')
            ctx.eq(dw, edw, 'weight gradient')
            ctx.eq(db, edb, 'bias gradient')
            for a, o, nm in ((x, x0, 'inputs'), (w, w0, 'weights'),
                             (b, b0, 'bias'), (g, g0, 'deltas')):
                ctx.eq(a, o, nm + ' changed')
            mem.verify()
        C.append(Case('conv2d-%d' % n, wrap(conv), bounds=bnd, weight=3))

        def avg(ctx, H=H, W=W, M=M, ks=ks, st=st, pad=pad, N=N, oh=oh,
                ow=ow):
            h = handler(ctx)
            mem = Mem(ctx)
            x0 = ctx.arr('x', (N, H, W, M))
            x = mem.place(x0, False)
            y = mem.place(ctx.arr('old', (N, oh, ow, M)), False)
            h.avgpool2d_forward_batch(x, tuple(ks), y, pad, tuple(st))
            g0 = ctx.arr('g', y.shape)
            g = mem.place(g0, False)
            dx0 = ctx.arr('dx0', x.shape)
            dx = mem.place(dx0, False)
            e, edx = y.copy(), dx0.copy()
            for i, j, ps in pairs(H, W, ks, st, pad, oh, ow):
                for im, m in np.ndindex(N, M):
                    e[im, i, j, m] = total(
                        x0[im, r, c, m] for r, c, p, q in ps) / max(
                            len(ps), 1)
                    for r, c, p, q in ps:
                        edx[im, r, c, m] = edx[im, r, c, m] + \
                            g0[im, i, j, m] / len(ps)
            ctx.eq(y, e, 'average')
            h.avgpool2d_backward_batch(x, tuple(ks), y, pad, tuple(st), dx, g)
            ctx.eq(dx, edx, 'input deltas')
            ctx.eq(y, e, 'outputs changed')
            ctx.eq(x, x0, 'inputs changed')
            ctx.eq(g, g0, 'deltas changed')
            mem.verify()
        C.append(Case('avgpool2d-%d' % n, wrap(avg), bounds=bnd, weight=3))

        if n in (1, 3) or (n in (0, 2) and tier != 'thorough'):
            continue

        def mx(ctx, H=H, W=W, M=M, big=big, ks=ks, st=st, pad=pad, N=N,
               oh=oh, ow=ow):
            h = handler(ctx)
            mem = Mem(ctx)
            x0 = ctx.arr('x', (N, H, W, M))
            if big:
                # no two alike, one of them arbitrary
                size = x0.size
                v = (np.arange(size) * 379 % size - size / 2) / 4
                x0 = ctx.to_obj(v.reshape(x0.shape))
                x0[0, 1, 2, M - 1] = ctx.real('x')
            for v in x0.ravel():
                ctx.assume(ctx.And(v > -1e6, v < 1e6))
            x = mem.place(x0, False)
            y = mem.place(ctx.to_obj(np.full((N, oh, ow, M), 3.0)), False)
            am = mem.place(ctx.to_obj(np.full((N, oh, ow, M), 3.0)), False)
            h.maxpool2d_forward_batch(x, tuple(ks), y, pad, tuple(st), am)
            g0 = ctx.arr('g', y.shape)
            g = mem.place(g0, False)
            dx0 = ctx.arr('dx0', x.shape)
            dx = mem.place(dx0, False)
            y0, am0 = y.copy(), am.copy()
            edx = dx0.copy()
            distinct = ctx.choose('distinct', [True, False]) if not big \
                else True
            passed = 0.0
            for i, j, ps in pairs(H, W, ks, st, pad, oh, ow):
                for im, m in np.ndindex(N, M):
                    if not ps:
                        ctx.eq(y[im, i, j, m], 0.0, 'empty window')
                        continue
                    best = x0[im, ps[0][0], ps[0][1], m]
                    for r, c, p, q in ps[1:]:
                        v = x0[im, r, c, m]
                        best = ctx.ite(v > best, v, best)
                    ctx.eq(y[im, i, j, m], best, 'maximum')
                    passed = passed + g0[im, i, j, m]
                    if distinct:
                        win = [x0[im, r, c, m] for r, c, p, q in ps]
                        for k, u in enumerate(win):
                            for v in win[:k]:
                                if big and not (
                                        im == 0 and m == M - 1 and
                                        (1, 2) in [q[:2] for q in ps]):
                                    continue
                                ctx.assume(ctx.Or(u - v > 0.001,
                                                  v - u > 0.001))
                    for r, c, p, q in ps:
                        edx[im, r, c, m] = edx[im, r, c, m] + ctx.ite(
                            x0[im, r, c, m] >= best, g0[im, i, j, m], 0.0)
            h.maxpool2d_backward_batch(x, tuple(ks), y, pad, tuple(st), am,
                                       dx, g)
            if distinct:
                ctx.eq(dx, edx, 'input deltas')
            else:
                # also with ties all of the deltas arrive
                ctx.eq(total(dx.ravel()) - total(dx0.ravel()), passed,
                       'sum of the input deltas')
            ctx.eq(y, y0, 'outputs changed')
            ctx.eq(am, am0, 'argmax changed')
            ctx.eq(x, x0, 'inputs changed')
            ctx.eq(g, g0, 'deltas changed')
            mem.verify()
        C.append(Case('maxpool2d-%d' % n, wrap(mx, 1), bounds=bnd, weight=20))
    return C

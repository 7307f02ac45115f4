"""Gradient-exactness harness for one layer (used by C01, C19)."""
import numpy as np

from symx.layers import LayerRig, FakeRnd, set_, make_handler

NO = set()


class Sparse(object):
    """arrays that are fixed numbers except for a few symbolic entries: for
    sizes at which fully symbolic arrays are out of reach"""
    def __init__(self, ctx, symbols=1, zero=()):
        self._ctx, self._symbols, self._zero = ctx, symbols, zero
        self.positions = {}

    def __getattr__(self, k):
        return getattr(self._ctx, k)

    def arr(self, name, shape):
        n = int(np.prod(shape))
        h = sum(ord(c) * (i + 3) for i, c in enumerate(name))
        vals = ((np.arange(n) * 7 + h) % 11 - 5.5) / 4
        if name[:2] in self._zero:
            # mostly zero: every third entry is kept
            vals[(np.arange(n) + h) % 3 != 0] = 0
        out = self._ctx.to_obj(vals.reshape(shape))
        self.positions[name] = []
        for j in range(min(n, self._symbols)):
            # spread out, and a different offset every time
            i = (h + j * max(1, n // self._symbols) + j * j) % n
            i = np.unravel_index(i, shape)
            if i in self.positions[name]:
                continue
            self.positions[name].append(i)
            out[i] = self._ctx.real(name + ''.join('_%d' % q for q in i))
        return out


def sparse(fn, symbols=1, zero=()):
    return lambda ctx: fn(Sparse(ctx, symbols, zero))


def fill_view(ctx, view, names, prefix, special):
    out = {}
    for k in names:
        if k in special:
            v = special[k](ctx, view[k].shape)
        else:
            v = ctx.arr(prefix + k, view[k].shape)
        set_(view[k], v)
        out[k] = view[k].copy()
    return out


def layer_run(ctx, factory, T, B, special, context, values=None, pre=None,
              training=True):
    """Fresh rig, inputs/parameters set (values override), forward pass."""
    layer = factory()
    rig = LayerRig(ctx, layer, T, B)
    rig.h.rnd = FakeRnd(ctx)
    b = rig.b
    vals = {}
    for k in layer.in_shapes:
        vals['x.' + k] = fill_view(ctx, b.inputs, [k], 'x.', special)[k]
    for k in layer.parameter_shapes:
        vals['w.' + k] = fill_view(ctx, b.parameters, [k], 'w.', special)[k]
    if context:
        for cat, shapes in (('outputs', layer.out_shapes),
                            ('internals', layer.internal_shapes)):
            for k, s in shapes.items():
                if s.context_size and not s.is_backward_only:
                    v = b[cat][k][T:]
                    set_(v, ctx.arr('ctx.%s.%s' % (cat, k), v.shape))
    if values:
        for k, v in values.items():
            if k[0] == 'x':
                set_(b.inputs[k[2:]], v)
            else:
                set_(b.parameters[k[2:]], v)
            vals[k] = v
    if pre:
        pre(ctx, layer, b)
    layer.forward_pass(b, training)
    return layer, rig, vals


def outputs_of(layer, b, T, skip=()):
    res = []
    for o, s in layer.out_shapes.items():
        if o in layer.takes_no_output_deltas_from:
            continue
        y = b.outputs[o]
        if s.context_size:
            y = y[:T]
        res.append((o, y.copy()))
    return res


def grad_case(factory, T, B, special=None, context=False, post=None,
              unit_deltas=False, prefill=True, frozen=(), scale_deltas=None,
              keep=True):
    special = special or {}

    def fn(ctx):
        layer, rig, vals = layer_run(ctx, factory, T, B, special, context)
        b = rig.b
        interior(ctx, [vals['x.' + k] for k in layer.in_shapes
                       if k not in layer.computes_no_input_deltas_for] +
                 [vals['w.' + k] for k in layer.parameter_shapes
                  if k not in layer.computes_no_gradients_for and
                  k not in frozen])
        if post:
            post(ctx, layer, b)
        ys = outputs_of(layer, b, T)
        gs = []
        for o, y in ys:
            if unit_deltas:
                g = ctx.to_obj(np.ones(y.shape))
                b.output_deltas[o][...] = g
            else:
                g = ctx.arr('g.' + o, y.shape)
                if layer.out_shapes[o].context_size:
                    b.output_deltas[o][:T] = g
                else:
                    b.output_deltas[o][...] = g
            gs.append(g)
        d0 = {}
        for k in layer.in_shapes:
            if k in layer.computes_no_input_deltas_for:
                continue
            shp = b.input_deltas[k].shape
            v = ctx.arr('d0.' + k, shp) if prefill else \
                ctx.to_obj(np.zeros(shp))
            set_(b.input_deltas[k], v)
            d0[k] = v
        params_before = {k: b.parameters[k].copy()
                         for k in layer.parameter_shapes}
        inputs_before = {k: b.inputs[k].copy() for k in layer.in_shapes}
        layer.backward_pass(b)
        # a backward pass may not disturb what others still read
        if keep:
            for k, v in params_before.items():
                ctx.eq(b.parameters[k], v, 'backward changed parameter ' + k)
            for k, v in inputs_before.items():
                ctx.eq(b.inputs[k], v, 'backward changed input ' + k)
        want = ['x.' + k for k in d0] + [
            'w.' + k for k in layer.parameter_shapes
            if k not in layer.computes_no_gradients_for and k not in frozen]
        exp = expected(ctx, want, vals, ys, gs, factory, T, B, special,
                       context)
        for k in want:
            if k[0] == 'x':
                got = b.input_deltas[k[2:]]
                e = exp[k]
                if scale_deltas is not None:
                    e = e * scale_deltas
                e = d0[k[2:]] + e
                label = 'input delta ' + k[2:]
            else:
                got, e = b.gradients[k[2:]], exp[k]
                label = 'gradient ' + k[2:]
            pos = where(ctx, k)
            if pos is None:
                ctx.eq(got, e, label)
            else:
                ctx.check(np.shape(got) == np.shape(e), label + ': shape')
                for i in pos:
                    ctx.eq(got[i], e[i], label + str(list(map(int, i))))
    return fn


def _strict(z, pos, names, memo):
    """z (or its negation) without the boundary, in the variables `names`"""
    import z3
    k = z.decl().kind()
    if k == z3.Z3_OP_NOT:
        return _strict(z.arg(0), not pos, names, memo)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        c = [_strict(a, pos, names, memo) for a in z.children()]
        return z3.And(c) if (k == z3.Z3_OP_AND) == pos else z3.Or(c)
    if k == z3.Z3_OP_IMPLIES:
        c = [_strict(z.arg(0), not pos, names, memo),
             _strict(z.arg(1), pos, names, memo)]
        return z3.Or(c) if pos else z3.And(c)
    keep = z if pos else z3.Not(z)
    if z.num_args() != 2 or z.arg(0).sort() != z3.RealSort() or \
            not _mentions(z, names, memo):
        return keep
    a, b = z.arg(0), z.arg(1)
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
        return a < b if pos else a > b
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        return a > b if pos else a < b
    if k == z3.Z3_OP_EQ:
        return z3.BoolVal(False) if pos else keep
    return keep


def _mentions(z, names, memo):
    i = z.get_id()
    if i not in memo:
        memo[i] = z.decl().name() in names if z.num_args() == 0 else \
            any(_mentions(c, names, memo) for c in z.children())
    return memo[i]


def interior(ctx, variables):
    """Leave out the boundaries between the branches taken so far (a set of
    measure zero, where the function need not have a derivative: 0 for a
    rectifier, however its code treats equality)."""
    if not ctx.symbolic:
        return
    import z3
    core = ctx.core
    names = set()
    for v in variables:
        for x in np.asarray(v, dtype=object).ravel():
            x = core.lift(x)
            if x.op != 'c':
                names.add(core.to_z3(x).decl().name())
    memo = {}
    for cond, v in list(ctx.e.memo.values()):
        if not isinstance(v, bool):
            continue
        c = _strict(cond, v, names, memo)
        old = cond if v else z3.Not(cond)
        if not c.eq(old):
            ctx.assume(c)


def one_sided(fp, base, fm, eps, d):
    """do the derivatives from the two sides agree (no kink)?"""
    return abs((fp - base) - (base - fm)) / eps <= 1e-2 * (1 + abs(d))


def where(ctx, k):
    """the entries of an array that are compared (None: all)"""
    p = getattr(ctx, 'positions', None)
    return None if p is None else p.get(k, [])


def expected(ctx, want, vals, ys, gs, factory, T, B, special, context):
    if ctx.symbolic:
        core = ctx.core
        seeds = []
        for (o, y), g in zip(ys, gs):
            seeds += list(zip(y.ravel(), g.ravel()))
        out = {}
        flat = []
        for k in want:
            flat += list(vals[k].ravel())
        d = core.backprop([(a, g) for a, g in seeds],
                          [core.lift(v) for v in flat])
        i = 0
        for k in want:
            n = vals[k].size
            a = np.empty(n, dtype=object)
            a[:] = d[i:i + n]
            i += n
            out[k] = a.reshape(vals[k].shape)
        return out
    # concrete oracle: central differences of the real forward pass
    out = {}

    def f(k, v):
        layer, rig, _ = layer_run(ctx, factory, T, B, special, context,
                                  values={k: v})
        return sum(float(np.sum(y * g)) for (o, y), g in
                   zip(outputs_of(layer, rig.b, T), gs))
    from symx.ctx import Skip
    base = None
    for k in want:
        v = np.array(vals[k], dtype=float)
        g = np.zeros_like(v)
        if base is None:
            base = f(k, v)
        pos = where(ctx, k)
        for i in np.ndindex(*v.shape) if pos is None else pos:
            d = []
            for eps in (1e-5, 1e-4):
                p, m = v.copy(), v.copy()
                p[i] += eps
                m[i] -= eps
                fp, fm = f(k, p), f(k, m)
                d.append((fp - fm) / (2 * eps))
                if not one_sided(fp, base, fm, eps, d[-1]):
                    raise Skip('no derivative here')
            if not abs(d[0] - d[1]) <= 1e-5 * (1 + abs(d[0])):
                raise Skip('ill-conditioned finite difference')
            g[i] = d[0]
        out[k] = g
    return out

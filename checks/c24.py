"""C24: the building tools create the network their arguments describe."""
import numpy as np

from symx.layers import make_handler, set_, FakeRnd
from symx.runner import Case
from symx.symrng import modelled
from checks import c22

ASSUMPTIONS = [
    'size cases: every number in a spec and every data size is an unbounded '
    'integer >= 1 (strides 1..3), dropout probabilities are arbitrary reals '
    'in [0.01, 0.99]; spec texts are composed from a list of spellings '
    '(activation, separators, whitespace between letters, numbers and '
    'options) chosen by the solver; whitespace inside numbers is not claimed',
    'value cases: small concrete sizes, arbitrary data and parameters, '
    'compared with the same network wired by hand',
]
TASKS = ('classification', 'multi-label', 'regression')
ACTS = {'': None, 'l': 'linear', 'r': 'rel', 's': 'sigmoid', 't': 'tanh'}


# ------------------------------ spec texts ----------------------------------

class Spec(object):
    """Composes a spec text and, alongside, the layers it stands for."""
    def __init__(self, ctx, fixed=False, few=False):
        # fixed: concrete numbers; few: only few spellings
        self.ctx, self.fixed, self.few = ctx, fixed, few or fixed
        self.text, self.make, self.n = '', [], 0
        self.numbers = {}
        self.bare = True

    def number(self, name, small=(1,)):
        """(text, value)"""
        if self.fixed:
            v = small[self.ctx.choose(name, list(range(len(small))))]
            return str(v), v
        v = self.ctx.int(name, 1, None)
        if not self.ctx.symbolic:
            return str(int(v)), int(v)
        self.n += 1
        t = str(700 + self.n)
        self.numbers[t] = v
        return t, v

    def real(self, name):
        if self.fixed:
            return '.25', 0.25
        v = self.ctx.real(name, 0.01, 0.99)
        if not self.ctx.symbolic:
            return repr(float(v)), float(v)
        self.n += 1
        t = '.%d' % (700 + self.n)
        self.numbers[t] = v
        return t, v

    def add(self, letter, tag):
        ctx = self.ctx
        import brainstorm.layers as L
        t = letter
        ws = ctx.choose(tag + 'ws', ['', ' ', '\t \n'][
            :2 if letter in 'CP' else 3]) if self.bare and not self.few \
            else ''
        if letter in 'FRLC':
            a = ctx.choose(tag + 'act', ['', 's'] if self.few and
                           not self.fixed else sorted(ACTS))
            t += ws + a
            kw = {'activation': ACTS[a] or ('rel' if letter in 'FC'
                                            else 'tanh')}
        if letter in 'FRL':
            nt, n = self.number(tag + 'n')
            t += (ws if a else '') + nt
            cls = {'F': L.FullyConnected, 'R': L.Recurrent, 'L': L.Lstm}
            self.make.append(lambda: cls[letter](n, **kw))
        elif letter == 'B':
            self.make.append(lambda: L.BatchNorm())
        elif letter == 'D':
            if ctx.choose(tag + 'given', [True, False]):
                nt, p = self.real(tag + 'p')
                t += ws + nt
                self.make.append(lambda: L.Dropout(drop_prob=p))
            else:
                self.make.append(lambda: L.Dropout())
        elif letter in 'CP':
            pool = None
            if letter == 'P':
                pool = ctx.choose(tag + 'type', ['', 'm', 'a'])
                t += ws + pool
            else:
                nt, filters = self.number(tag + 'f')
                t += nt + (':' if self.few else ctx.choose(
                    tag + 'sep', [':', '/', '|', ' : ']))
            kt, k = self.number(tag + 'k')
            t += kt
            pad, stride = 0, 1
            for o in ctx.choose(tag + 'opt', ['', 'ps'] if self.few else
                                ['', 'p', 's', 'ps', 'sp']):
                if o == 'p':
                    # the text of a padding may be 0
                    nt, pad = self.number(tag + 'pad')
                else:
                    stride = 2 if self.few else ctx.choose(
                        tag + 'stride', [1, 2, 3])
                    nt = str(stride)
                t += ws + o + nt
            if letter == 'C':
                self.make.append(lambda: L.Convolution2D(
                    filters, (k, k), stride=(stride, stride), padding=pad,
                    **kw))
            else:
                self.make.append(lambda: L.Pooling2D(
                    (k, k), type={'a': 'avg'}.get(pool, 'max'),
                    stride=(stride, stride), padding=pad))
        # letters separate layers, with or without whitespace
        sep = ctx.choose('gap', ['', ' ', '\n  ']) if self.text and \
            self.bare else ' ' if self.text else ''
        self.text += sep + t


def by_hand(task, din, dout, hidden, mask, conv, names):
    """the network that the arguments describe, wired directly"""
    import brainstorm.layers as L
    data, targets, mname, proj, out = names
    tshape = dout[:-1] + (1,) if task == 'classification' else dout
    shapes = {data: ('T', 'B') + din, targets: ('T', 'B') + tshape}
    if mask:
        shapes[mname] = ('T', 'B', 1)
    i = L.Input(out_shapes=shapes)
    x = i - data
    for h in hidden:
        x = x >> h()
    p = L.Convolution2D(dout[-1], (1, 1), activation='linear', name=proj) \
        if conv else L.FullyConnected(dout, activation='linear', name=proj)
    o = {'classification': L.SoftmaxCE, 'multi-label': L.SigmoidCE,
         'regression': L.SquaredError}[task](name=out)
    x >> p >> o
    i - targets >> 'targets' - o
    if mask:
        m = L.Mask()
        o - 'loss' >> m >> L.Loss()
        i - mname >> 'mask' - m
    else:
        o - 'loss' >> L.Loss()
    return o


def instantiate(some):
    from brainstorm.structure.architecture import (
        generate_architecture, instantiate_layers_from_architecture)
    return instantiate_layers_from_architecture(generate_architecture(some))


def outcome(f):
    """(result, None), or (None, error) for a refusal by brainstorm"""
    try:
        return f(), None
    except Exception as e:
        if type(e).__name__ in ('Inconclusive', 'Infeasible', 'Violation'):
            raise
        return None, e


def dims_same(ctx, a, b, what):
    a, b = tuple(a), tuple(b)
    ctx.check(len(a) == len(b), what + ': dimensions')
    c22.same(ctx, a, b, what)


ATTRS = {'FullyConnected': ('activation',), 'Recurrent': ('activation',),
         'Lstm': ('activation',), 'Convolution2D': ('activation', 'stride'),
         'Pooling2D': ('type', 'stride'), 'Dropout': ('drop_prob',)}


def conns(layers):
    r = set()
    for l in layers.values():
        for c in l.outgoing:
            r.add((c.start_layer, c.output_name, c.end_layer, c.input_name))
    return r


def compare(ctx, got, want, named=('Input', 'Output', 'Output_projection')):
    ctx.check([type(l).__name__ for l in got.values()] ==
              [type(l).__name__ for l in want.values()],
              'layers: %s, expected %s' % (
                  [type(l).__name__ for l in got.values()],
                  [type(l).__name__ for l in want.values()]))
    m = dict(zip(got, want))
    for n in named:
        ctx.check(n in got, 'a layer named ' + n)
        ctx.check(m[n] == n, 'position of ' + n)
    ctx.check({(m[a], o, m[b], i) for a, o, b, i in conns(got)} ==
              conns(want), 'wiring')
    for a, b in m.items():
        g, w = got[a], want[b]
        for kind in ('in_shapes', 'out_shapes', 'parameter_shapes'):
            gs, ws = getattr(g, kind), getattr(w, kind)
            ctx.check(set(gs) == set(ws), '%s: %s' % (b, kind))
            for k in ws:
                dims_same(ctx, gs[k].shape, ws[k].shape,
                          '%s: %s of %s' % (b, kind, k))
        for at in ATTRS.get(type(w).__name__.replace('LayerImpl', ''), ()):
            if hasattr(g, at):
                x, y = getattr(g, at), getattr(w, at)
                if at == 'drop_prob':
                    ctx.eq(x, y, '%s: %s' % (b, at))
                else:
                    ctx.check(x == y, '%s: %s' % (b, at))


# ------------------------- sizes: unbounded integers ------------------------

class OnlyLayers(object):
    """stands in for Network where sizes are terms: the layers are
    instantiated by the real code, buffers are not allocated"""
    def __init__(self, layers):
        self.layers = layers
        self.refs = None
        self.output_name = None

    @classmethod
    def from_layer(cls, some):
        return cls(instantiate(some))

    def initialize(self, *args, **kw):
        self.refs = (args, kw)


def tools(ctx, numbers=None):
    import importlib
    import brainstorm.tools
    c22.shadow(ctx)
    import sys
    t = sys.modules['brainstorm.tools']
    t.__dict__['Network'] = OnlyLayers
    if not ctx.symbolic:
        return t
    from symx import npproxy
    numbers = numbers if numbers is not None else {}

    def conv(base, kind):
        import builtins
        real = getattr(builtins, kind)

        class M(type(base)):
            def __call__(cls, x=0, *a):
                if isinstance(x, str) and x.strip() in numbers:
                    v = numbers[x.strip()]
                    if kind == 'int' and type(v).__name__ != 'SI':
                        raise ValueError(x)
                    return v
                return base(x, *a)
        return M(kind, (base,), {})
    t.__dict__['int'] = conv(npproxy.SymIntType, 'int')
    t.__dict__['float'] = conv(npproxy.SymFloatType, 'float')
    return t


def restoring(f):
    """the module namespace is put back after every path"""
    def fn(ctx):
        import sys
        import brainstorm.tools                                   # noqa
        t = sys.modules['brainstorm.tools']
        saved = dict(t.__dict__)
        if ctx.symbolic:
            # numbers are only ever looked up among the letters of the
            # activation functions: no need to enumerate their values
            old = ctx.core.SI.__hash__
            ctx.core.SI.__hash__ = lambda self: 987654321
        try:
            f(ctx)
        finally:
            if ctx.symbolic:
                ctx.core.SI.__hash__ = old
            t.__dict__.clear()
            t.__dict__.update(saved)
    return fn


def in_out(task, nd, mask, use_conv):
    """get_in_out_layers for all sizes"""
    @restoring
    def fn(ctx):
        t = tools(ctx)
        din, dout = c22.dims(ctx, 'in', ctx.choose('ndin', [1, 3])), \
            c22.dims(ctx, 'out', nd)
        names = ['default', 'targets', 'mask' if mask else None,
                 'Output_projection', 'Output']
        kw = {}
        for i, (k, alt) in enumerate([
                ('data_name', 'images'), ('targets_name', 'labels'),
                ('mask_name', 'm'), ('projection_name', 'P'),
                ('outlayer_name', 'O')]):
            if k == 'mask_name' and not mask:
                continue
            how = ctx.choose(k, ['default', 'given'] if k != 'mask_name'
                             else ['given'])
            if how == 'given':
                kw[k] = names[i] = alt
        if 'outlayer_name' in kw and 'projection_name' not in kw:
            names[3] = 'O_projection'
        if use_conv is not None:
            kw['use_conv'] = use_conv
        plain = ctx.choose('plain', [False, True])
        a = din[0] if plain and len(din) == 1 else din
        b = dout[0] if plain and nd == 1 else dout
        conv = nd == 3 and use_conv is not False
        r, err = outcome(lambda: instantiate((lambda io: io[0] - names[0] >>
                         io[1])(t.get_in_out_layers(task, a, b, **kw))))
        w, werr = outcome(lambda: instantiate(by_hand(
            task, din, dout, [], mask, conv, names)))
        if w is None:
            ctx.check(r is None, 'accepted although the shapes do not fit')
            return
        ctx.check(r is not None, 'refused: %s' % err)
        compare(ctx, r, w, ('Input', names[3], names[4]))
    return fn


def unknown(ctx):
    import brainstorm.tools                                       # noqa
    import sys
    t = sys.modules['brainstorm.tools']
    n = ctx.choose('task', ['Classification', 'multilabel', '', None])
    _, err = outcome(lambda: t.get_in_out_layers(n, 3, 2))
    ctx.check(isinstance(err, ValueError), 'unknown task type refused')
    _, err = outcome(lambda: t.get_in_out_layers(
        ctx.choose('t', list(TASKS)), 3, (2, 2)))
    ctx.check(isinstance(err, ValueError), 'two-dimensional output refused '
              'without use_conv')


def sized(letters, nd, conv_in=False):
    @restoring
    def fn(ctx):
        # spellings and arguments vary separately
        vary = len(letters) == 1 and ctx.choose('vary', ['spelling',
                                                         'arguments'])
        s = Spec(ctx, few=vary != 'spelling')
        for k, l in enumerate(letters):
            s.add(l, '%s%d' % (l, k))
        t = tools(ctx, s.numbers)
        task = ctx.choose('task', TASKS) if vary == 'arguments' else \
            TASKS[0]
        mask = vary == 'arguments' and ctx.choose('mask', [False, True])
        din = c22.dims(ctx, 'in', 3 if conv_in else 1)
        dout = c22.dims(ctx, 'out', nd)
        names = ['default', 'targets', 'mask' if mask else None,
                 'Output_projection', 'Output']
        kw = {}
        if vary == 'arguments' and ctx.choose(
                'names', ['default', 'given']) == 'given':
            kw = dict(data_name='images', targets_name='labels')
            names[:2] = ['images', 'labels']
        if mask:
            kw['mask_name'] = 'mask'
        net, err = outcome(lambda: t.create_net_from_spec(
            task, din if len(din) > 1 else din[0],
            dout if nd > 1 else dout[0], s.text, **kw))
        w, werr = outcome(lambda: instantiate(by_hand(
            task, din, dout, s.make, mask, nd == 3, names)))
        if w is None:
            ctx.check(net is None, '%r accepted although wiring its layers by '
                      'hand is refused (%s)' % (s.text, werr))
            return
        ctx.check(net is not None, '%r refused: %s' % (s.text, err))
        compare(ctx, net.layers, w)
        ctx.check(net.output_name == 'Output.outputs.predictions',
                  'output_name')
    return fn


# ------------------------------- values -------------------------------------

SHAPES = {'': ((1,), (2,)), 'c': ((1, 2, 1), (2,)), 'cc': ((1, 2, 1),
                                                           (1, 2, 2))}


def valued(letters, kind, task, mask):
    """same outputs and loss as the hand-wired network on the same data"""
    def fn(ctx):
        import sys
        import brainstorm.tools                                   # noqa
        from brainstorm.structure.network import Network
        t = sys.modules['brainstorm.tools']
        s = Spec(ctx, fixed=True)
        s.bare = False
        for k, l in enumerate(letters):
            s.add(l, '%s%d' % (l, k))
        din, dout = SHAPES[kind]
        names = ['default', 'targets', 'mask' if mask else None,
                 'Output_projection', 'Output']
        nets = []
        a, err = outcome(lambda: t.create_net_from_spec(
            task, din, dout, s.text, mask_name=names[2]))
        b, werr = outcome(lambda: Network.from_layer(by_hand(
            task, din, dout, s.make, mask, kind == 'cc', names)))
        if b is None:
            ctx.check(a is None, '%r accepted although wiring its layers by '
                      'hand is refused (%s)' % (s.text, werr))
            return
        ctx.check(a is not None, '%r refused: %s' % (s.text, err))
        ctx.check(a.buffer.parameters.size == b.buffer.parameters.size,
                  'number of parameters')
        w = ctx.arr('w', b.buffer.parameters.shape)
        if 'B' in letters:      # includes the running variance
            for v in np.ravel(w):
                ctx.assume(v > 0)
        T, B = 1 + (letters == 'R'), 1
        shape = (T, B) + din
        data = {'default': np.linspace(-1.5, 2, int(np.prod(shape))).astype(
            ctx.dtype).reshape(shape)}
        if task == 'classification':
            shape = (T, B) + dout[:-1] + (1,)
            data['targets'] = np.array([float(ctx.choose(
                'y%d' % k, [0, 1])) for k in range(int(np.prod(shape)))]
                ).reshape(shape)
        else:
            data['targets'] = ctx.arr('y', (T, B) + dout)
        if mask:
            data['mask'] = ctx.arr('m', (T, B, 1))
        training = ctx.choose('training', [False, True])
        out = []
        for net in (a, b):
            net.set_handler(make_handler(ctx))
            net.handler.rnd = FakeRnd(ctx)
            set_(net.buffer.parameters, w)
            net.provide_external_data(data)
            net.forward_pass(training_pass=training)
            out.append((net.get(a.output_name), net.get_loss_values()))
        ctx.eq(out[0][0], out[1][0], 'predictions (output_name)')
        ctx.eq(out[0][1]['total_loss'], out[1][1]['total_loss'], 'loss')
    return fn


# --------------------------- initialisation ---------------------------------

def can(ctx, cond):
    import z3
    return ctx.e.query(cond.z)[0] == z3.sat


SCALES = {'rel': 12 ** .5, 'tanh': 6 ** .5, 'sigmoid': 4 * 6 ** .5,
          'linear': 1.0}


def initial(letter, kind):
    """weights of layers with an activation function: uniform within
    scale/sqrt(n1+n2); everything else: standard Gaussian times a constant"""
    def fn(ctx):
        import sys
        import brainstorm as bs
        import brainstorm.tools                                   # noqa
        t = sys.modules['brainstorm.tools']
        s = Spec(ctx, fixed=True)
        s.bare = False
        s.add(letter, letter)
        din, dout = SHAPES[kind]
        import brainstorm.structure.network as N
        from brainstorm.handlers import NumpyHandler
        old = N.default_handler
        with modelled(ctx):
            if ctx.symbolic:
                N.default_handler = NumpyHandler(object)
            bs.global_rnd.set_seed(ctx.int('seed', 0, 10 ** 9 - 1))
            net, err = outcome(lambda: t.create_net_from_spec(
                'multi-label', din, dout, s.text))
            N.default_handler = old
            if net is None:
                ctx.check(True, 'refused')
                return
            for name, l in net.layers.items():
                act = getattr(l, 'activation', None)
                for v, sh in l.parameter_shapes.items():
                    arr = net.buffer[name].parameters[v]
                    shape = arr.shape
                    what = 'initial %s.%s of %r' % (name, v, s.text)
                    if act is None or len(shape) < 2:
                        if ctx.symbolic:
                            e = arr.reshape(-1)[0]
                            ctx.check(can(ctx, e > 2) and can(ctx, e < -2),
                                      what + ': unbounded (Gaussian)')
                        continue
                    n = shape[0] + int(np.prod(shape[1:]))
                    lim = SCALES[act] / n ** .5
                    for e in arr.reshape(-1):
                        ctx.check(ctx.And(e <= lim * (1 + 1e-6),
                                          e >= -lim * (1 + 1e-6)),
                                  what + ': within the DenseSqrtFanInOut '
                                  'interval')
                        if ctx.symbolic:
                            ctx.check(can(ctx, e > .99 * lim) and
                                      can(ctx, e < -.99 * lim),
                                      what + ': uses the whole interval')
            ctx.check(True, 'initialised')
    return fn


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for task in TASKS:
        for nd in (1, 3):
            for mask in (False, True):
                for uc in (None, True, False) if nd == 3 else (None, False):
                    cs.append(Case(
                        'inout %s out%dd%s conv=%s' % (
                            task, nd, ' mask' if mask else '', uc),
                        in_out(task, nd, mask, uc), 'all sizes'))
    cs.append(Case('inout refused', unknown, 'list of arguments'))
    for letters, nd, conv in [
            ('F', 1, False), ('R', 1, False), ('L', 1, False),
            ('B', 1, False), ('D', 1, False), ('C', 3, True),
            ('P', 3, True), ('F', 1, True), ('C', 1, True),
            ('DF', 1, False), ('FD', 1, False), ('FBR', 1, False),
            ('DFDF', 1, False)] + ([
                ('CP', 3, True), ('CPF', 1, True), ('PCB', 3, True),
                ('RLF', 1, False), ('LDR', 1, False)] if th else []):
        cs.append(Case('sizes %s%s out%dd' % (letters, ' image' if conv
                                              else '', nd),
                       sized(letters, nd, conv), 'all sizes', weight=5 if
                       len(letters) > 1 else 2))
    for letters, kind in [('F', ''), ('R', ''), ('L', ''), ('B', ''),
                          ('D', ''), ('FD', ''), ('C', 'cc'), ('P', 'c'),
                          ('C', 'c')]:
        for task in TASKS:
            for mask in (False, True):
                if task == 'multi-label' and not th and (
                        kind == 'cc' or letters == 'B'):
                    continue
                if mask and not th and letters not in ('F', 'D'):
                    continue
                cs.append(Case('values %s %s%s%s' % (
                    letters, kind, task, ' mask' if mask else ''),
                    valued(letters, kind, task, mask),
                    'T<=2 B=1, concrete inputs, arbitrary parameters, targets'))
    for letter, kind in [('F', ''), ('R', ''), ('L', ''), ('B', ''),
                         ('D', ''), ('C', 'cc')]:
        cs.append(Case('initial %s' % letter, initial(letter, kind),
                       'all draws'))
    return cs

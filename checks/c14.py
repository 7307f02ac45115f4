"""C14: initialisation reaches exactly the weights its references name."""
import numpy as np

from symx import symstr
from symx.netlib import make_net
from symx.layers import make_handler
from symx.runner import Case

ASSUMPTIONS = [
    'characters are ASCII (0..127); layer names have up to 3 characters '
    '(names equal to the special words are handled by separate cases)',
    'initial values are arbitrary reals; the initializers used record no '
    'randomness (C15 covers seeding)',
    'a view matched through two overlapping layer patterns, one of which has '
    'a nested default or fallback, is left unspecified',
]


# ------------------------- names with symbolic characters -------------------

def isid(ctx, c, first):
    rng = lambda a, b: ctx.And(c >= ord(a), c <= ord(b))
    alts = [c == ord('_'), rng('a', 'z'), rng('A', 'Z')]
    if not first:
        alts.append(rng('0', '9'))
    return ctx.Or(*alts)


def valid(ctx, cs):
    if not cs:
        return False
    return ctx.And(*[isid(ctx, c, i == 0) for i, c in enumerate(cs)])


def codes(ctx, name, n):
    return [ctx.int('%s_%d' % (name, i), 0, 127) for i in range(n)]


def glob(ctx, p, s):
    """p: list of codes or '*'"""
    if not p:
        return len(s) == 0
    if isinstance(p[0], str):
        return ctx.Or(*[glob(ctx, p[1:], s[k:]) for k in range(len(s) + 1)])
    if not s:
        return False
    return ctx.And(p[0] == s[0], glob(ctx, p[1:], s[1:]))


def text(ctx, name, template):
    """'cc*c' -> string with symbolic characters at the c's"""
    cs = [ctx.int('%s_%d' % (name, i), 0, 127) if t == 'c' else t
          for i, t in enumerate(template)]
    if not ctx.symbolic:
        return ''.join(c if isinstance(c, str) else chr(c) for c in cs), cs
    return symstr.make([c if isinstance(c, str) else c.z for c in cs]), cs


def layer_name(n):
    def fn(ctx):
        from brainstorm.utils import is_valid_layer_name
        s, cs = text(ctx, 's', 'c' * n)
        word = {7: 'default', 8: 'fallback'}.get(n)
        ok = valid(ctx, cs)
        if word:
            ok = ctx.And(ok, ctx.Not(ctx.And(
                *[c == ord(w) for c, w in zip(cs, word)])))
        got = bool(is_valid_layer_name(s))
        ctx.check(ok if got else ctx.Not(ok), 'a layer name is valid iff it '
                  'is an identifier and not reserved (accepted: %s)' % got)
    return fn


def stub_net(ctx, names):
    """a real Network whose parameter buffers carry the given layer names"""
    from brainstorm.structure.buffer_views import BufferView
    from brainstorm.structure.network import Network
    import brainstorm.layers as L
    inp = L.Input(out_shapes={'default': ('T', 'B', 1)})
    net = Network.from_layer(inp >> L.FullyConnected(1, name='x'))
    net.set_handler(make_handler(ctx))
    bufs = [net.handler.zeros((2,)) for _ in names]
    net.buffer = BufferView(names, [
        BufferView(['parameters', 'gradients'],
                   [BufferView(['v'], [b]), BufferView(['v'], [b])])
        for b in bufs])
    return net, bufs


def init_class():
    from brainstorm.initializers import Initializer
    if not _cls or not issubclass(_cls[-1], Initializer):
        from brainstorm.utils import InitializationError

        class VpConst(Initializer):
            """fills with v; refuses vectors if it is `picky`"""
            def __init__(self, v, picky=False):
                super(VpConst, self).__init__()
                self.v, self.picky = v, picky

            def __call__(self, shape):
                if self.picky and len(shape) < 2:
                    raise InitializationError('picky')
                a = np.empty(shape, dtype=object)
                a[...] = self.v
                return a
        _cls.append(VpConst)
    return _cls[-1]


_cls = []


def match(template, lens):
    def fn(ctx):
        from brainstorm.utils import NetworkValidationError
        Const = init_class()
        names, ncs = zip(*[text(ctx, 'n%d' % i, 'c' * n)
                           for i, n in enumerate(lens)])
        for cs in ncs:
            ctx.assume(valid(ctx, cs))
        for i in range(len(ncs)):
            for j in range(i):
                if lens[i] == lens[j]:
                    ctx.assume(ctx.Not(ctx.And(
                        *[a == b for a, b in zip(ncs[i], ncs[j])])))
        ref, rcs = text(ctx, 'r', template)
        ctx.assume(valid(ctx, [ord('_') if c == '*' else c for c in rcs]))
        net, bufs = stub_net(ctx, names)
        m = [glob(ctx, rcs, cs) for cs in ncs]
        a, d = ctx.real('a'), ctx.real('d')
        try:
            net.initialize({ref: Const(a), 'default': Const(d)})
        except NetworkValidationError:
            ctx.check(ctx.Not(ctx.Or(*m)), 'a reference that matches a layer '
                      'is refused')
            return
        ctx.check(ctx.Or(*m), 'a reference matching nothing is refused')
        for i, b in enumerate(bufs):
            want = ctx.ite(m[i], a, d)
            ctx.eq(b, np.array([want, want], dtype=ctx.dtype),
                   'layer %d' % i)
    return fn


def malformed(template):
    def fn(ctx):
        Const = init_class()
        ref, rcs = text(ctx, 'r', template)
        ok = valid(ctx, [ord('_') if c == '*' else c for c in rcs])
        ctx.assume(ctx.Not(ok))
        for c in rcs:       # an additional wildcard is a different template
            if c != '*':
                ctx.assume(c != ord('*'))
        net, bufs = stub_net(ctx, ['ab', 'ba'])
        for f in (net.initialize, net.set_weight_modifiers,
                  net.set_gradient_modifiers):
            try:
                f({ref: Const(ctx.real('a')), 'default': Const(0.0)})
            except Exception as ex:
                if not ctx.symbolic or type(ex).__module__ == 'builtins' or \
                        'brainstorm' in type(ex).__module__:
                    continue
                raise
            ctx.fail('malformed reference accepted')
        ctx.check(True, '')
    return fn


# --------------------------- resolution on networks -------------------------

def fglob(p, s):
    if not p:
        return not s
    if p[0] == '*':
        return any(fglob(p[1:], s[k:]) for k in range(len(s) + 1))
    return bool(s) and p[0] == s[0] and fglob(p[1:], s[1:])


class Unspecified(Exception):
    pass


def expected(refs, views):
    """views: {layer: {view: shape}} -> {layer: {view: (inits, fallbacks)}};
    None if some pattern matches nothing"""
    special = ('default', 'fallback')
    for p in refs:
        if p not in special and not any(fglob(p, l) for l in views):
            return None
    out = {}
    for l, vs in views.items():
        hit = [refs[p] for p in refs if p not in special and fglob(p, l)]
        if len(hit) > 1 and any(isinstance(h, dict) and
                                set(h) & set(special) for h in hit):
            raise Unspecified()
        for h in hit:
            if isinstance(h, dict):
                for q in h:
                    if q not in special and not any(fglob(q, v) for v in vs):
                        return None
        out[l] = {}
        for v in vs:
            cand, fb = [], [refs['fallback']] if 'fallback' in refs else []
            for h in hit:
                if not isinstance(h, dict):
                    cand.append(h)
                    continue
                mine = [h[q] for q in h if q not in special and fglob(q, v)]
                if not mine and 'default' in h:
                    mine = [h['default']]
                cand += mine
                if 'fallback' in h:
                    fb = [h['fallback']]
            if not cand and 'default' in refs:
                cand = [refs['default']]
            out[l][v] = (cand, fb)
    return out


def net3(ctx):
    import brainstorm.layers as L

    def build():
        inp = L.Input(out_shapes={'default': ('T', 'B', 1)})
        return inp >> L.FullyConnected(1, name='a1') \
            >> L.Recurrent(1, name='a2') >> L.FullyConnected(1, name='b')
    return make_net(ctx, build)


PATTERNS = [[], ['a1'], ['a*'], ['a*', 'b'], ['*'], ['*1', 'a2'],
            ['a*', '*1'], ['*', 'b'], ['nope'], ['*a*1*', 'b*']]


def forms(mk):
    """value forms for one layer pattern"""
    return {
        'init': lambda: mk(),
        'picky': lambda: mk(True),
        'W': lambda: {'W': mk()},
        'W bias': lambda: {'W': mk(), 'bias': mk()},
        'b* default': lambda: {'b*': mk(), 'default': mk()},
        'star': lambda: {'*': mk(True)},
        'fallback': lambda: {'*': mk(True), 'fallback': mk()},
        'picky default': lambda: {'default': mk(True), 'fallback': mk()},
        'default only': lambda: {'default': mk()},
        'overlap': lambda: {'*s': mk(), 'bi*': mk()},
        'nothing': lambda: {'nope': mk()},
        'empty': lambda: {},
    }


def resolve(pats, names):
    def fn(ctx):
        from brainstorm.utils import NetworkValidationError, \
            InitializationError
        Const = init_class()
        count = [0]

        def mk(picky=False):
            count[0] += 1
            return Const(ctx.real('v%d' % count[0]), picky)
        refs = {}
        for p in pats:
            refs[p] = forms(mk)[ctx.choose('form ' + p, names)]()
        k = ctx.choose('default', ['no', 'init', 'picky'])
        if k != 'no':
            refs['default'] = mk(k == 'picky')
        if ctx.choose('fallback', [False, True]):
            refs['fallback'] = mk()
        net = net3(ctx)
        views = {l: {v: net.buffer[l].parameters[v].shape
                     for v in net.buffer[l].parameters.keys()}
                 for l in net.layers}
        try:
            exp = expected(refs, views)
        except Unspecified:
            return
        shape = lambda d: {q: shape(x) if isinstance(x, dict) else x
                           for q, x in d.items()}
        before = shape(refs)
        how = ctx.choose('how', ['dict', 'mixed', 'keywords'])
        special = [q for q in refs if q in ('default', 'fallback') or
                   '*' not in q]
        if how == 'dict':
            call = lambda: net.initialize(refs)
        else:
            if how == 'keywords' and len(special) < len(refs):
                return
            kw = {q: refs[q] for q in special}
            rest = {q: refs[q] for q in refs if q not in special}
            if how == 'keywords':
                call = lambda: net.initialize(**kw)
            else:
                call = lambda: net.initialize(rest, **kw)
        err = None
        try:
            call()
        except (NetworkValidationError, InitializationError) as e:
            err = e
        ctx.check(shape(refs) == before, 'the given dictionary is not '
                  'changed')
        bad = exp is None or any(len(c) != 1 for l in exp.values()
                                 for c, f in l.values())
        if bad:
            ctx.check(err is not None, 'unmatched, missing or ambiguous '
                      'references are refused')
            return
        bad = any(c[0].picky and len(views[l][v]) < 2 and
                  (not f or f[0].picky)
                  for l in exp for v, (c, f) in exp[l].items())
        if bad:
            ctx.check(isinstance(err, InitializationError),
                      'failing initializer without fallback')
            return
        ctx.check(err is None, 'valid references refused: %s' % err)
        for l in exp:
            for v, (c, f) in exp[l].items():
                o = c[0]
                if o.picky and len(views[l][v]) < 2:
                    o = f[0]
                want = np.empty(views[l][v], dtype=ctx.dtype)
                want[...] = o.v
                ctx.eq(net.buffer[l].parameters[v], want, '%s.%s' % (l, v))
    return fn


def values(ctx):
    """scalars, nested lists and arrays; several ways to give a default"""
    net = net3(ctx)
    from brainstorm.utils import InitializationError
    R = np.array([[ctx.real('r')]], dtype=ctx.dtype)
    W = [[ctx.real('w')]]
    b = [ctx.real('b')]
    refs = {'a1': {'W': W, 'bias': np.array(b, dtype=ctx.dtype)},
            'a2': {'W': 0.25, 'R': R, 'bias': 1},
            'default': ctx.choose('d', [2, -0.5])}
    snap = repr(sorted((k, sorted(v) if isinstance(v, dict) else v)
                       for k, v in refs.items()))
    for rep in range(2):
        net.initialize(refs)
        ctx.check(type(refs['a1']['W']) is list, 'list given is kept')
        ctx.eq(refs['a1']['W'], [[ctx.real('w')]], 'list given is kept')
        ctx.eq(net.get('a1.parameters.W'), np.array(W, dtype=ctx.dtype), 'W')
        ctx.eq(net.get('a1.parameters.bias'), np.array(b, dtype=ctx.dtype),
               'bias')
        ctx.eq(net.get('a2.parameters.R'), R, 'R')
        ctx.eq(net.get('a2.parameters.W'), [[0.25]], 'scalar')
        ctx.eq(net.get('a2.parameters.bias'), [1], 'integer')
        ctx.eq(net.get('b.parameters.W'), [[refs['default']]], 'default')
        ctx.eq(net.get('b.parameters.bias'), [refs['default']], 'default')
        # the parameters are copies
        net.buffer.parameters[...] = 0
    ctx.eq(R, [[ctx.real('r')]], 'array given is kept')
    ctx.check(snap == repr(sorted(
        (k, sorted(v) if isinstance(v, dict) else v)
        for k, v in refs.items())), 'dictionary given is kept')
    for args, kw in ((({'a1': 0.5},), {'a1': 1.0}), ((0.5,),
                                                     {'default': 1.0})):
        try:
            net.initialize(*args, **kw)
            ctx.fail('conflicting values accepted')
        except TypeError:
            pass
    for bad in ([[1.0, 2.0]], [1.0, 2.0]):
        try:
            net.initialize({'a1': {'W': bad}, 'default': 0})
            ctx.fail('list of the wrong shape accepted')
        except InitializationError:
            pass
    # one positional value is the default
    net.initialize(ctx.choose('s', [3, 0.125]))
    ctx.eq(net.buffer.parameters,
           np.full(net.buffer.parameters.shape, ctx.choose('s', [3, 0.125])),
           'default for everything')


def cases(tier):
    quick = tier == 'quick'
    C = [Case('name-%d' % n, layer_name(n), bounds='every ASCII string of '
              'length %d' % n) for n in ((0, 1, 2, 4, 7, 8) if quick else
                                         range(0, 11))]
    tm = ['c', 'c*', '*c', '*', 'c*c', '*c*', 'cc', '**']
    if not quick:
        tm += ['ccc', 'c**', 'cc*', '*cc', 'c*c*', '*c*c', 'c*c*c']
    for t in tm:
        for lens in ([(2, 1)] if quick else [(1,), (2, 1), (2, 2), (3, 2)]):
            C.append(Case('match %s %s' % (t, lens), match(t, lens),
                          bounds='every name and reference of this form'))
    for t in ('c', 'cc', 'c*', '*c') + (() if quick else ('c*c', 'ccc')):
        C.append(Case('malformed ' + t, malformed(t),
                      bounds='every ASCII reference of this form'))
    names = list(forms(None))
    for pats in PATTERNS:
        ns = names
        if quick and len(pats) > 1:
            ns = ['init', 'picky', 'W', 'W bias', 'b* default', 'fallback']
        C.append(Case('resolve ' + ' '.join(pats), resolve(pats, ns),
                      bounds='every combination of %d forms' % len(ns),
                      weight=len(ns) ** len(pats) / 10))
    C.append(Case('values', values, bounds='1x1 layers'))
    return C

"""C21: wiring layers gives exactly the wired network; broken ones are
refused."""
import itertools
import json

import numpy as np

from symx.runner import Case

ASSUMPTIONS = [
    'names are taken from a small set chosen to collide in every way '
    '(base names that look like indexed ones); which layer has which name, '
    'the wiring, its order and the order of dictionaries are arbitrary',
]
NAMES = ['A', 'A_1', 'A_2', 'A_1_1']


def expected_names(base):
    """layers in creation order -> names"""
    count = {b: base.count(b) for b in base}
    single = {b for b in base if count[b] == 1}
    nxt = {b: 1 for b in base}
    out = []
    for b in base:
        if b in single:
            out.append(b)
            continue
        while '%s_%d' % (b, nxt[b]) in single:
            nxt[b] += 1
        out.append('%s_%d' % (b, nxt[b]))
        nxt[b] += 1
    return out


def triples(arch):
    """connections of an architecture from the documented format"""
    out = []
    for name, d in arch.items():
        for o, ends in d['@outgoing_connections'].items():
            for e in ends:
                layer, _, inp = e.partition('.')
                out.append((name, o, layer, inp or 'default'))
    return sorted(out)


TREES = {
    2: [((0, 1),), ((1, 0),)],
    3: [((0, 1), (1, 2)), ((0, 1), (0, 2)), ((2, 0), (1, 0)),
        ((0, 2), (2, 1))],
    4: [((0, 1), (1, 2), (2, 3)), ((0, 1), (0, 2), (0, 3)),
        ((3, 0), (2, 0), (0, 1)), ((0, 1), (2, 3), (1, 2)),
        ((0, 3), (1, 3), (2, 1))],
}


def names(n, choices=NAMES, shape=None, base=None):
    def fn(ctx, base=base):
        from brainstorm.structure.architecture import generate_architecture
        from brainstorm.structure.construction import ConstructionWrapper
        base = base or [ctx.choose('base%d' % i, choices) for i in range(n)]
        ls = []
        for i, b in enumerate(base):
            # named explicitly, or by the type of the layer
            if i % 2:
                w = ConstructionWrapper.create('VpXLayerImpl', name=b)
            else:
                w = ConstructionWrapper.create(b + 'LayerImpl')
            ls.append(w)
        tree = shape or ctx.choose('tree', TREES[n])
        order = ctx.choose('order', list(itertools.permutations(
            range(len(tree)))) if len(tree) < 3 else
            [(0, 1, 2), (2, 1, 0), (1, 0, 2), (2, 0, 1)]
            if len(tree) == 3 else [tuple(range(len(tree))),
                                    tuple(range(len(tree)))[::-1]])
        for k in order:
            a, b = tree[k]
            ls[a] >> ls[b]
        want = expected_names(base)
        ctx.check(len(set(want)) == n, 'oracle')
        got = [l.layer.name for l in ls]
        ctx.check(len(set(got)) == n, 'layer names are unique: %s' % got)
        ctx.check(got == want, 'layers are named after their type or name, '
                  'indexed in order of creation if there are several: got %s '
                  'expected %s' % (got, want))
        start = ctx.choose('start', [0, n - 1])
        arch = generate_architecture(ls[start])
        ctx.check(set(arch) == set(want), 'the architecture has exactly the '
                  'layers')
        ctx.check(triples(arch) == sorted(
            (want[a], 'default', want[b], 'default') for a, b in tree),
            'and exactly the connections')
        ctx.check(all(arch[want[i]]['@type'] == (
            'VpX' if i % 2 else base[i]) for i in range(n)), 'and types')
    return fn


def wiring(ctx):
    """named inputs and outputs, in all notations, in any order"""
    from brainstorm.structure.architecture import generate_architecture
    from brainstorm.structure.construction import ConstructionWrapper
    kw = [{}, {'size': 3, 'x': [1, 2]}, {'f': 0.5, 'd': {'k': ['T', 'B', 1]}},
          {}]
    ls = [ConstructionWrapper.create('VpXLayerImpl', name='abcd'[i], **kw[i])
          for i in range(4)]
    edges = [(0, 1), (0, 2), (1, 3), (2, 3), (0, 3)]
    want = set()
    todo = []
    for i, (a, b) in enumerate(edges):
        o = ctx.choose('out%d' % i, ['default', 'o1', '..parameters.W']
                       if i < 1 else ['default', 'o1'])
        t = ctx.choose('in%d' % i, ['default', 'i1']) \
            if i != 1 else 'default'
        want.add(('abcd'[a], o, 'abcd'[b], t))
        todo.append((a, b, o, t))
    if ctx.choose('reverse', [False, True]):
        todo.reverse()
    for a, b, o, t in todo:
        src = ls[a] if o == 'default' else ls[a] - o
        dst = ls[b] if t == 'default' else t - ls[b]
        r = src >> dst
        ctx.check(r.layer is ls[b].layer, '>> returns the target for chaining')
    arch = generate_architecture(ls[ctx.choose('start', [0, 2])])
    ctx.check(triples(arch) == sorted(want), 'the architecture has exactly '
              'the connections that were wired')
    for n, k in zip('abcd', kw):
        have = {x: v for x, v in arch[n].items() if not x.startswith('@')}
        ctx.check(have == k, 'and the keyword arguments of every layer')
    again = json.loads(json.dumps(arch))
    ctx.check(again == arch, 'an architecture survives JSON')


def chain(ctx):
    """x >> 'i' - a - 'o' >> b  keeps input and output names"""
    from brainstorm.structure.architecture import generate_architecture
    from brainstorm.structure.construction import ConstructionWrapper
    x, a, b = [ConstructionWrapper.create('VpXLayerImpl', name=n)
               for n in 'xab']
    i = ctx.choose('i', [None, 'i1'])
    o = ctx.choose('o', [None, 'o1'])
    mid = a
    if ctx.choose('input first', [True, False]):
        mid = mid if i is None else i - mid
        mid = mid if o is None else mid - o
    else:
        mid = mid if o is None else mid - o
        mid = mid if i is None else i - mid
    x >> mid >> b
    arch = generate_architecture(x)
    ctx.check(triples(arch) == sorted([('x', 'default', 'a', i or 'default'),
                                       ('a', o or 'default', 'b', 'default')]),
              'input and output names of a chain')
    for bad in (3, None, 1.5):
        for f in (lambda: x >> bad, lambda: x - bad, lambda: bad - x):
            try:
                f()
            except TypeError:
                continue
            ctx.fail('only layers can be wired, only strings name inputs')


def arch_of(preds, out_style, types=None):
    """preds: name -> list of predecessors"""
    out = {'Input': []}
    for n in preds:
        out[n] = []
    for n, ps in preds.items():
        for p in ps:
            if p in out:
                out[p].append(n)
    arch = {}
    for n in out:
        con = out[n]
        if out_style == 'dict':
            con = {'default': con}
        elif out_style == 'named':
            con = {'default': [c + '.default' for c in con]}
        arch[n] = {'@type': 'FullyConnected', '@outgoing_connections': con,
                   'size': 1}
    arch['Input'] = {'@type': 'Input', 'out_shapes': {'default':
                                                      ('T', 'B', 1)},
                     '@outgoing_connections': arch['Input'][
                         '@outgoing_connections']}
    return arch


def has_cycle(preds):
    left = dict(preds)
    done = {'Input'}
    while left:
        ready = [n for n in left if all(p in done for p in left[n])]
        if not ready:
            return True
        for n in ready:
            done.add(n)
            del left[n]
    return False


def layout_of(net):
    p = net.buffer.parameters
    net.handler.set_from_numpy(p, np.arange(p.size, dtype=float))
    return {(l, k): np.array(v, dtype=float).ravel().tolist()
            for l in net.layers for k, v in
            (net.buffer[l].parameters.items()
             if 'parameters' in net.buffer[l] else ())}


def order(nodes, restrict=None, choices=None):
    def fn(ctx):
        from brainstorm.structure.network import Network
        preds = {}
        for n in nodes:
            others = ['Input'] + [m for m in nodes if m != n]
            opts = [c for r in range(1, len(others) + 1)
                    for c in itertools.combinations(others, r)
                    if restrict is None or len(c) <= restrict] \
                if choices is None else choices[n]
            preds[n] = list(ctx.choose('preds of ' + n, opts))
        style = ctx.choose('style', ['list', 'dict', 'named'])
        arch = arch_of(preds, style)
        if has_cycle(preds):
            try:
                Network.from_architecture(arch)
            except Exception:
                ctx.check(True, 'refused')
                return
            ctx.fail('an architecture with a cycle was accepted')
        net = Network.from_architecture(arch)
        seq = list(net.layers)
        ctx.check(sorted(seq) == sorted(arch), 'every layer once: %s' % seq)
        ctx.check(seq[0] == 'Input', 'Input comes first')
        ctx.check(all(seq.index(p) < seq.index(n) for n in nodes
                      for p in preds[n]), 'a layer comes after all layers it '
                  'takes inputs from: %s' % seq)
        for n in nodes:
            layer = net.layers[n]
            ctx.check(tuple(layer.in_shapes['default'].shape) ==
                      ('T', 'B', len(preds[n])), 'the inputs are '
                      'concatenated')
        lay = layout_of(net)
        for perm in (list(reversed(list(arch))),
                     list(arch)[1:] + list(arch)[:1]):
            a2 = {k: dict(arch[k]) for k in perm}
            for k in a2:
                c = a2[k]['@outgoing_connections']
                a2[k]['@outgoing_connections'] = \
                    {o: c[o][::-1] for o in reversed(list(c))} \
                    if isinstance(c, dict) else c[::-1]
            n2 = Network.from_architecture(json.loads(json.dumps(a2)))
            ctx.check(list(n2.layers) == seq and layout_of(n2) == lay,
                      'layer order and parameter layout do not depend on '
                      'the order of dictionaries')
    return fn


# ------------------------------- refusals ------------------------------------

def bases():
    def fc(*out):
        return {'@type': 'FullyConnected', 'size': 2,
                '@outgoing_connections': list(out)}

    def inp(*out):
        return {'@type': 'Input', 'out_shapes': {'default': ('T', 'B', 2)},
                '@outgoing_connections': list(out)}
    return [
        {'Input': inp('h'), 'h': fc('o'), 'o': fc()},
        {'Input': inp('h', 'g'), 'h': fc('o'), 'g': fc('o'), 'o': fc()},
        {'Input': {'@type': 'Input', 'out_shapes': {
            'default': ('T', 'B', 2), 'targets': ('T', 'B', 2)},
            '@outgoing_connections': {'default': ['h.default'],
                                      'targets': ['se.targets']}},
         'h': {'@type': 'Recurrent', 'size': 2, '@outgoing_connections':
               {'default': ['se.default']}},
         'se': {'@type': 'SquaredError', '@outgoing_connections':
                {'loss': ['Loss.default']}},
         'Loss': {'@type': 'Loss', '@outgoing_connections': {}}},
    ]


def add_con(arch, src, con, out='default'):
    c = arch[src]['@outgoing_connections']
    if isinstance(c, list):
        if out == 'default':
            c.append(con)
            return
        c = {'default': c}
        arch[src]['@outgoing_connections'] = c
    c.setdefault(out, []).append(con)


def d_undefined(ctx, arch, n):
    add_con(arch, n, ctx.choose('to', ['nowhere', 'Nowhere.default',
                                       'h_1', 'H']))


def d_no_input(ctx, arch, n):
    arch['input'] = arch.pop('Input')


def d_input_gone(ctx, arch, n):
    del arch['Input']


def d_input_type(ctx, arch, n):
    arch['Input'] = {'@type': 'FullyConnected', 'size': 2,
                     '@outgoing_connections':
                     arch['Input']['@outgoing_connections']}


def d_to_input(ctx, arch, n):
    add_con(arch, n, ctx.choose('con', ['Input', 'Input.default']))


def d_name(ctx, arch, n):
    new = ctx.choose('new', ['default', 'fallback', '1h', 'h-2', 'h 2', '',
                             'h.x', 'h\n', u'h\u00e4'])
    # nothing refers to the renamed layer, so only its name is wrong
    arch[new] = {'@type': 'FullyConnected', 'size': 1,
                 '@outgoing_connections': []}
    add_con(arch, n, new)


def d_nonstring(ctx, arch, n):
    arch[ctx.choose('new', [3, None, ('a',)])] = \
        {'@type': 'FullyConnected', 'size': 1, '@outgoing_connections': []}


def d_no_type(ctx, arch, n):
    del arch[n]['@type']


def d_bad_type(ctx, arch, n):
    arch[n]['@type'] = ctx.choose('type', [3, None, 'Nonsense',
                                           'FullyConnectedLayerImpl', '',
                                           'fullyconnected'])


def d_bad_outgoing(ctx, arch, n):
    arch[n]['@outgoing_connections'] = ctx.choose('o', ['h', 3, None])


def d_kwarg(ctx, arch, n):
    arch[n][ctx.choose('kw', ['siize', 'vp_unknown', 'name'])] = 3


def d_unknown_input(ctx, arch, n):
    to = ctx.choose('to', [x for x in arch if x not in ('Input', n)])
    add_con(arch, n, to + '.vp_no_such_input')


def d_unknown_output(ctx, arch, n):
    out = ctx.choose('out', ['vp_no_such', '..parameters.nope',
                             '..internals.nope', '..inputs.default',
                             '..outputs.default', '..gradients.W'])
    last = [x for x in arch if x != 'Input'][-1]
    arch['vp'] = {'@type': 'FullyConnected', 'size': 1,
                  '@outgoing_connections': []}
    del last
    add_con(arch, n, 'vp', out)


def d_missing_input(ctx, arch, n):
    arch['vp'] = {'@type': ctx.choose('t', ['FullyConnected', 'Recurrent', 'Loss',
                                            'Mask', 'Merge']),
                  '@outgoing_connections': []}
    if arch['vp']['@type'] in ('FullyConnected', 'Recurrent'):
        arch['vp']['size'] = 1
    if arch['vp']['@type'] in ('Mask',):
        add_con(arch, 'Input', 'vp.default')
    if arch['vp']['@type'] in ('Merge',):
        add_con(arch, 'Input', 'vp.inputs_2')


def d_second_input(ctx, arch, n):
    new = ctx.choose('new', ['Input_2', 'Another', 'Aaa'])
    arch[new] = {'@type': 'Input', 'out_shapes': {'default': ('T', 'B', 2)},
                 '@outgoing_connections': []}
    if ctx.choose('connected', [False, True]):
        arch['vp'] = {'@type': 'FullyConnected', 'size': 1,
                      '@outgoing_connections': []}
        arch[new]['@outgoing_connections'] = ['vp']


def d_cycle(ctx, arch, n):
    """a loop through (or beside) the network"""
    arch['vp1'] = {'@type': 'FullyConnected', 'size': 1,
                   '@outgoing_connections': ['vp2']}
    arch['vp2'] = {'@type': 'FullyConnected', 'size': 1,
                   '@outgoing_connections': ['vp1']}
    how = ctx.choose('how', ['beside', 'fed', 'self'])
    if how == 'fed':
        add_con(arch, n, 'vp1')
    if how == 'self':
        arch['vp1']['@outgoing_connections'] = ['vp1']
        arch['vp2']['@outgoing_connections'] = []


def d_types_mixed(ctx, arch, n):
    """inputs of different kinds cannot be concatenated"""
    i = arch['Input']
    i['out_shapes'] = dict(i['out_shapes'])
    i['out_shapes']['vpother'] = ctx.choose(
        'shape', [('B', 2), (2,), ('T', 'B', 2, 2)])
    arch['vp'] = {'@type': 'FullyConnected', 'size': 1,
                  '@outgoing_connections': []}
    add_con(arch, 'Input', 'vp')
    add_con(arch, 'Input', 'vp', 'vpother')


def d_template(ctx, arch, n):
    """input of a shape that the layer cannot take"""
    i = arch['Input']
    i['out_shapes'] = dict(i['out_shapes'])
    shape, t = ctx.choose('shape', [
        (('T', 'B', 2), 'Convolution2D'), (('T', 'B', 2, 2, 2, 2), 'Pooling2D'),
        (('B', 2), 'Recurrent'), ((2, 2), 'Lstm'),
        ((2,), 'FullyConnected'), (('B', 2), 'Dropout')])
    i['out_shapes']['vpother'] = shape
    kw = {'Convolution2D': {'num_filters': 1, 'kernel_size': (1, 1)},
          'Pooling2D': {'kernel_size': (1, 1)}, 'Recurrent': {'size': 1},
          'Lstm': {'size': 1}, 'FullyConnected': {'size': 1}}.get(t, {})
    arch['vp'] = dict({'@type': t, '@outgoing_connections': []}, **kw)
    add_con(arch, 'Input', 'vp', 'vpother')


def d_two_sources_loss(ctx, arch, n):
    """shapes of targets and predictions differ"""
    i = arch['Input']
    i['out_shapes'] = dict(i['out_shapes'])
    i['out_shapes']['vpt'] = ('T', 'B', ctx.choose('n', [1, 3]))
    arch['vp'] = {'@type': ctx.choose('t', ['SquaredError', 'SigmoidCE',
                                            'SquaredDifference']),
                  '@outgoing_connections': {}}
    two = arch['vp']['@type'] == 'SquaredDifference'
    add_con(arch, 'Input', 'vp.inputs_1' if two else 'vp.default')
    add_con(arch, 'Input', 'vp.inputs_2' if two else 'vp.targets', 'vpt')


NOT_FOR_INPUT = {d_bad_outgoing}


def refuse(defect):
    def fn(ctx):
        from brainstorm.structure.network import Network
        k = ctx.choose('base', [0, 1, 2])
        arch = json.loads(json.dumps(bases()[k]))
        Network.from_architecture(arch)          # fine without the defect
        n = ctx.choose('at', [x for x in arch])
        arch = json.loads(json.dumps(bases()[k]))
        out = list(arch)
        if defect in (d_undefined, d_name, d_to_input, d_unknown_input,
                      d_cycle) and k == 2 and n in ('se', 'Loss'):
            n = 'h'
        defect(ctx, arch, n)
        if ctx.choose('dict order', ['as is', 'reversed']) == 'reversed':
            arch = {x: arch[x] for x in reversed(list(arch))}
        try:
            Network.from_architecture(arch)
        except Exception:
            ctx.check(True, 'refused')
            return
        ctx.fail('%s: accepted (at %s of %s)' % (defect.__name__[2:], n, out))
    return fn


def refuse_wiring(ctx):
    """the same through the Python interface"""
    import brainstorm.layers as L
    from brainstorm.structure.construction import ConstructionWrapper
    from brainstorm.structure.network import Network
    from brainstorm.utils import NetworkValidationError

    what = ctx.choose('what', ['name', 'type', 'suffix', 'input_in',
                               'two_inputs', 'cycle', 'missing', 'kwarg',
                               'output'])
    inp = L.Input(out_shapes={'default': ('T', 'B', 2)})
    h = L.FullyConnected(2, name='h')
    o = L.FullyConnected(1, name='o')
    try:
        if what == 'name':
            L.FullyConnected(2, name=ctx.choose('n', [
                '1a', 'a b', 'a.b', 'default', 'fallback', 'a-b']))
        elif what == 'type':
            ConstructionWrapper.create(ctx.choose('n', [
                '1aLayerImpl', 'defaultLayerImpl', 'LayerImpl',
                'a.bLayerImpl']))
        elif what == 'suffix':
            ConstructionWrapper.create(ctx.choose('n', [
                'Foo', 'FooLayer', 'FooLayerImplX', '']))
        elif what == 'input_in':
            inp >> h >> o >> inp
            Network.from_layer(o)
        elif what == 'two_inputs':
            inp >> h
            i2 = L.Input(out_shapes={'default': ('T', 'B', 2)})
            if ctx.choose('join', [True, False]):
                i2 >> h
            else:
                h >> o
                i2 >> o
            Network.from_layer(o if ctx.choose('from', [1, 0]) else h)
        elif what == 'cycle':
            inp >> h >> o >> h
            Network.from_layer(o)
        elif what == 'missing':
            Network.from_layer(h >> o)
        elif what == 'kwarg':
            n = ConstructionWrapper.create('FullyConnectedLayerImpl', size=2,
                                           wrong=1)
            Network.from_layer(inp >> n)
        elif what == 'output':
            Network.from_layer((inp - 'nope') >> h)
    except Exception:
        ctx.check(True, 'refused')
        return
    ctx.fail('accepted: ' + what)


DEFECTS = [d_undefined, d_no_input, d_input_gone, d_input_type, d_to_input,
           d_name, d_nonstring, d_no_type, d_bad_type, d_bad_outgoing,
           d_kwarg, d_unknown_input, d_unknown_output, d_missing_input,
           d_second_input, d_cycle, d_types_mixed, d_template,
           d_two_sources_loss]


def cases(tier):
    out = [
        Case('names[2]', names(2), {'layers': 2}, weight=1, max_paths=4000),
        Case('names[3]', names(3), {'layers': 3}, weight=2, max_paths=6000),
        Case('names[12 alike]', names(12, ['A'], [(k, k + 1)
                                                  for k in range(11)]),
             {'layers': 12}),
        Case('names[14]', names(14, ['A', 'A_1'], [(0, k)
                                                   for k in range(1, 14)],
                                base=['A', 'A_1', 'A', 'A', 'A_1', 'A', 'A_10',
                                      'A', 'A', 'A', 'A', 'A', 'A', 'A_2']),
             {'layers': 14}),
        Case('names[4, two]', names(4, ['A', 'A_1', 'A_2'],
                                    ((0, 1), (0, 2), (2, 3))),
             {'layers': 4, 'names': 3}, weight=2, max_paths=6000),
        Case('wiring', wiring, {'layers': 4, 'connections': 5}, weight=2, max_paths=4000),
        Case('chain', chain, {'layers': 3}),
        Case('order[2]', order('ab'), {'layers': 3}, weight=1, max_paths=4000),
        Case('order[3]', order('abc', 2), {'layers': 4,
             'predecessors': 'at most 2'}, weight=3, max_paths=4000),
        # many layers of the same depth
        Case('order[wide]', order('bcdefag', choices=dict(
            {n: [('Input',), ('b',)] for n in 'cdefa'},
            b=[('Input',)], g=[tuple('cdefa'), ('b', 'a')])),
            {'layers': 8}, weight=3, max_paths=4000),
        Case('refuse wiring', refuse_wiring, {}),
    ]
    for d in DEFECTS:
        out.append(Case('refuse %s' % d.__name__[2:], refuse(d), {}, weight=1, max_paths=4000))
    if tier == 'thorough':
        out += [
            Case('names[4]', names(4), {'layers': 4}, weight=9, max_paths=40000),
            Case('order[3 all]', order('abc'), {'layers': 4}, weight=9, max_paths=40000),
            Case('order[4]', order('abcd', 2), {'layers': 5,
                 'predecessors': 'at most 2'}, weight=20, max_paths=60000),
        ]
    return out

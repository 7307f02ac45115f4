"""C28: reports tell the truth - progress bars, network summaries, log paths."""
import contextlib
import io
import re

import numpy as np

from symx.netlib import make_net
from symx.runner import Case
from checks import c11

ASSUMPTIONS = [
    'progress values are arbitrary numbers; the shapes of nested dictionaries '
    'and lists, key names, numbers of updates, epochs and stopping points are '
    'arbitrary within the stated bounds',
]
BAR = '====1====2====3====4====5====6====7====8====9====0'
DONE = re.compile(r'\] Took: [^\n]*\n\Z')


# --------------------------------------------------------------- the bar -----

def bar(length, steps):
    """any progress: the printed part is that fraction of the bar"""
    def fn(ctx):
        from brainstorm.utils import progress_bar
        text = 'abcdefgh'[:length]
        total = ctx.real('maximum')
        ctx.assume(ctx.And(total > 0, total <= 1000))
        p = progress_bar(total, prefix='<', bar=text, suffix='> {0}!')
        out = next(p)
        ctx.check(out == '<', 'a bar starts with its prefix')
        out, last = '', 0.
        for i in range(steps):
            v = ctx.real('progress%d' % i)
            ctx.assume(ctx.And(v >= last, v <= total))
            last = v
            new = p.send(v)
            fin = new.find('>')
            ctx.check(ctx.Implies(v < total, fin < 0),
                      'a bar is complete only at its maximum')
            shown = out + (new if fin < 0 else new[:fin])
            ctx.check(shown == text[:len(shown)], 'the bar is printed in '
                      'order, nothing twice')
            k = len(shown)
            ctx.check(ctx.And(k * total <= v * length,
                              v * length < (k + 1) * total),
                      'the part shown is the fraction done')
            out = shown
            if fin >= 0:
                ctx.check(new.endswith('!') and out == text, 'the suffix '
                          'follows a complete bar')
                try:
                    p.send(v)
                except StopIteration:
                    return
                ctx.fail('a complete bar ends')
            # at the maximum a complete bar is closed by the same step
            ctx.check(v < total, 'a complete bar is closed')
    return fn


def silent(ctx):
    from brainstorm.utils import silence
    s = silence()
    out = [next(s)]
    for i in range(3):
        out.append(s.send(ctx.real('p%d' % i)))
    ctx.check(out == [''] * 4, 'silence prints nothing')


def bars_in(text):
    """split what was printed into bars; (finished, last unfinished or None)"""
    parts = text.replace('\r', '').split('[')
    if parts[0].strip():
        return None
    out, left = 0, None
    for k, p in enumerate(parts[1:]):
        if '] Took' in p:
            b, _, t = p.partition('] Took: ')
            if b != BAR or left is not None:
                return None
            out += 1
        else:
            if left is not None or not BAR.startswith(p.rstrip('\n')):
                return None
            left = len(p.rstrip('\n'))
    return out, left


def stopper(at):
    import brainstorm.hooks as H
    if 'c' not in STOPPERS:
        class VpStopAt(H.Hook):
            def __init__(self, at):
                super(VpStopAt, self).__init__('stop at', 'update', 1)
                self.at = at

            def __call__(self, epoch_nr, update_nr, net, stepper, logs):
                if update_nr == self.at:
                    raise StopIteration()
        STOPPERS['c'] = VpStopAt
    return STOPPERS['c'](at)


STOPPERS = {}


class Counter(object):
    """a stepper that counts its updates"""
    def __init__(self):
        self.n = 0

    def start(self, net):
        self.net = net

    def run(self):
        self.n += 1


def training(ctx):
    """a progress bar shows the progress and never disturbs training"""
    import brainstorm as bs
    net = make_net(ctx, c11.lossnet)
    n = ctx.choose('updates per epoch', [1, 2, 3, 4])
    first = ctx.choose('epochs', [1, 2])
    stop = ctx.choose('stopped at', [None, 1, n, n + 1])
    again = ctx.choose('continued with', [None, 'the same', 2, 3])
    total = n * first
    if stop is not None and stop > total:
        stop = None
    runs = []
    for with_bar in (True, False):
        st = Counter()
        tr = bs.Trainer(st, verbose=False)
        if with_bar and ctx.choose('bar first', [True, False]):
            tr.add_hook(bs.hooks.ProgressBar())
        tr.add_hook(bs.hooks.StopAfterEpoch(first))
        tr.add_hook(stopper(-1 if stop is None else stop))
        if with_bar and 'ProgressBar' not in tr.hooks:
            tr.add_hook(bs.hooks.ProgressBar())
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            tr.train(net, c11.Iter([c11.batch(k) for k in range(n)]))
        seen = [(st.n, tr.current_epoch_nr, tr.current_update_nr,
                 buf.getvalue())]
        if again is not None:
            m = n if again == 'the same' else again
            tr.hooks['StopAfterEpoch'].max_epochs = tr.current_epoch_nr + 1
            tr.hooks['stop at'].at = -1
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                tr.train(net, c11.Iter([c11.batch(k) for k in range(m)]))
            seen.append((st.n, tr.current_epoch_nr, tr.current_update_nr,
                         buf.getvalue()))
        runs.append(seen)
    a, b = runs
    ctx.check([x[:3] for x in a] == [x[:3] for x in b], 'training with a '
              'progress bar makes the same updates: %s' % (a,))
    did = total if stop is None else stop
    r = bars_in(a[0][3])
    ctx.check(r is not None and r[0] == did // n and
              (r[1] is None) == (did % n == 0) and
              (r[1] is None or r[1] <= len(BAR) * (did % n) // n),
              'one complete bar for every finished epoch: %r' % a[0][3])
    if again is not None:
        r = bars_in(a[1][3])
        ctx.check(r == (1, None), 'and for every epoch of a training that is '
                  'continued: %r' % a[1][3])


# ------------------------------------------------------------ dictionaries ---

SHAPES = [
    {}, {'a': 0}, {'a': 0, 'b': 1}, {'a': {'x': 0}}, {'a': {'x': 0, 'y': 1}},
    {'a': {'x': {'a': 0}, 'y': 1}, 'b': 2}, {'a': {}, 'b': 0},
    {'a': {'a': {'a': 0, 'b': 1}, 'b': 2}, 'b': 3},
    {'x y': {'0': 0}, 'a': [1, {'z': 2}]},
]


def fill(ctx, d, name=''):
    if isinstance(d, dict):
        return {k: fill(ctx, v, name + k) for k, v in d.items()}
    if isinstance(d, list):
        return d
    return ctx.real('v' + name)


def leaves(d, pre=()):
    out = []
    for k, v in d.items():
        if isinstance(v, dict):
            out += leaves(v, pre + (k,))
        else:
            out.append((pre + (k,), v))
    return out


def paths(ctx):
    from brainstorm.utils import get_by_path, flatten_keys
    d = fill(ctx, ctx.choose('dictionary', SHAPES))
    want = leaves(d)
    keys = flatten_keys(d)
    ctx.check(sorted(keys) == sorted('.'.join(p) for p, _ in want),
              'flatten_keys lists the path of every entry: %s' % keys)
    for p, v in want:
        got = get_by_path(d, '.'.join(p))
        ctx.check(got is v, 'get_by_path returns the entry')
        for i in range(1, len(p)):
            sub = get_by_path(d, '.'.join(p[:i]))
            ctx.check(isinstance(sub, dict) and sub is not d, 'or the '
                      'dictionary in between')
        for bad in ('nope', '.'.join(p[:-1] + ('nope',)),
                    '.'.join(('nope',) + p)):
            try:
                get_by_path(d, bad)
            except KeyError as e:
                ctx.check('nope' in str(e), 'names the missing key')
            else:
                ctx.fail('a missing entry is refused')
    ctx.check(flatten_keys(3) == [], 'nothing to list')


def normalized(ctx):
    """'..' removes the part before it, any number of times"""
    from brainstorm.utils import get_normalized_path
    n = ctx.choose('arguments', [1, 2, 3])
    args, want, ok = [], [], True
    for i in range(n):
        ups = ctx.choose('ups%d' % i, [0, 1, 2] if i else [0])
        parts = ['abc'[i]] + ctx.choose('more%d' % i, [[], ['x'],
                                                       ['x', 'y']])
        args.append('..' * ups + '.'.join(parts))
        if ups > len(want):
            ok = False
        want = want[:len(want) - ups] + parts
    try:
        got = get_normalized_path(*args)
    except Exception:
        ctx.check(not ok, 'a valid path is accepted: %s' % args)
        return
    ctx.check(ok and got == '.'.join(want), 'normalized path of %s: %s' % (
        args, got))


def nested(ctx):
    from brainstorm.utils import flatten, convert_to_nested_indices
    n = [0]

    def build(depth, name):
        kind = ctx.choose('kind' + name, ['leaf', 'list', 'empty', 'tuple']
                          if depth else ['leaf'])
        if kind == 'leaf':
            n[0] += 1
            return ctx.real('l%d' % n[0])
        if kind == 'empty':
            return []
        x = [build(depth - 1, name + str(i)) for i in range(2)]
        return x if kind == 'list' else tuple(x)

    def flat(x):
        out = []
        for v in x:
            out += flat(v) if isinstance(v, (list, tuple)) else [v]
        return out

    def same(x, y):
        if isinstance(x, (list, tuple)):
            return isinstance(y, (list, tuple)) and len(x) == len(y) and \
                all(same(a, b) for a, b in zip(x, y))
        return not isinstance(y, (list, tuple))
    x = [build(2, str(i)) for i in range(2)]
    f = list(flatten(x))
    ctx.check(len(f) == n[0] and all(a is b for a, b in zip(f, flat(x))),
              'flatten keeps all elements in order')
    idx = list(convert_to_nested_indices(x))
    ctx.check(same(x, idx), 'indices are nested like the elements')
    ctx.check(flat(idx) == list(range(n[0])), 'and count them')
    idx2 = list(convert_to_nested_indices(x))
    ctx.check(idx2 == idx, 'every time from zero')


def index_key(ctx):
    from brainstorm.utils import sort_by_index_key
    k = [ctx.int('i%d' % i, 0, 6) for i in range(3)]
    ctx.assume(ctx.And(k[0] != k[1], k[1] != k[2], k[0] != k[2]))
    d = {'a': {'@index': k[0]}, 'plain': {'x': 1}, 'b': {'@index': k[1]},
         '@type': 'array', 'c': {'@index': k[2]}}
    got = [x for x, _ in sorted(d.items(), key=sort_by_index_key)]
    ctx.check(sorted(got[:2]) == ['@type', 'plain'], 'entries without an '
              'index first')
    r = [d[x]['@index'] for x in got[2:]]
    ctx.check(ctx.And(r[0] < r[1], r[1] < r[2]), 'then in order of index')


# -------------------------------------------------------------- summaries ----

def summary(ctx):
    import brainstorm.layers as L
    import brainstorm.tools as tl
    k = ctx.choose('net', ['fc', 'lstm', 'conv', 'cost'])
    m = ctx.choose('size', [1, 2, 3])

    def build():
        if k == 'conv':
            i = L.Input(out_shapes={'default': ('T', 'B', 4, 4, m)})
            i >> L.Convolution2D(m, (2, 2), name='c') >> \
                L.FullyConnected(m, name='o')
            return i
        i = L.Input(out_shapes={'default': ('T', 'B', m), 'targets':
                                ('T', 'B', 1)})
        if k == 'fc':
            i >> L.FullyConnected(m, name='o')
        elif k == 'lstm':
            i >> L.Lstm(m, name='l') >> L.FullyConnected((m, 2), name='o')
        else:
            e = L.SoftmaxCE(name='cost')
            i >> L.FullyConnected(m + 1, name='o') >> e
            i - 'targets' >> 'targets' - e
            e - 'loss' >> L.Loss(name='lo')
        return i
    import brainstorm as bs
    net = bs.Network.from_layer(build())
    text = tl.get_network_info(net)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        tl.print_network_info(net)
    ctx.check(text in buf.getvalue(), 'print_network_info prints it')
    nums = [int(x) for x in re.findall(r'total number of parameters: *(\d+)',
                                       text)]
    sizes = {n: sum(int(np.prod(s.shape)) for s in
                    net.buffer[n].parameters.values()) if 'parameters' in
             net.buffer[n] else 0 for n in net.layers}
    ctx.check(nums == [sum(sizes.values())] == [int(
        net.buffer.parameters.size)], 'the total number of parameters')
    # sections start with a line that is the layer's name
    lines = text.split('\n')
    pos = [lines.index(n) for n in net.layers]
    ctx.check(pos == sorted(pos), 'layers in their order')
    for n, a, b in zip(net.layers, pos, pos[1:] + [len(lines)]):
        sec = '\n'.join(lines[a:b])
        ctx.check([int(x) for x in re.findall(
            r'number of parameters: *(\d+)', sec)] == [sizes[n]],
            'the number of parameters of ' + n)
        if 'parameters' in net.buffer[n]:
            for v, s in net.buffer[n].parameters.items():
                ctx.check(v + str(s.shape) in sec, 'the shape of every '
                          'parameter of ' + n)
        for v, s in net.layers[n].in_shapes.items():
            ctx.check(v + str(s.feature_shape) in sec.partition(
                'output shapes')[0].partition('input shapes')[2],
                'the shape of every input of ' + n)
        for v, s in net.layers[n].out_shapes.items():
            ctx.check(v + str(s.feature_shape) in sec.partition(
                'output shapes')[2], 'the shape of every output of ' + n)


def verbose(ctx):
    """printing changes nothing in the logs, and prints every value"""
    import brainstorm as bs
    vals = ctx.choose('value', [1.5, {'a': 1.25}, {'a': {'b': 2.5, 'c': 3.5}},
                                {'a': None, 'd': 4.5}, None])
    if 'h' not in STOPPERS:
        import brainstorm.hooks as H

        class VpReport(H.Hook):
            def __init__(self, val, **kw):
                super(VpReport, self).__init__(**kw)
                self.val = val

            def __call__(self, epoch_nr, update_nr, net, stepper, logs):
                if epoch_nr == 2:
                    raise StopIteration(self.val)
                return self.val
        STOPPERS['h'] = VpReport
    logs, text = [], []
    net = make_net(ctx, c11.lossnet)
    for tv in (False, True):
        for hv in (None, False, True):
            tr = bs.Trainer(Counter(), verbose=tv)
            tr.add_hook(STOPPERS['h'](vals, name='rep', verbose=hv))
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                tr.train(net, c11.Iter([c11.batch(0)]))
            logs.append({k: v for k, v in tr.logs.items()
                         if k != 'rolling_training'})
            text.append(buf.getvalue())
            shown = tv if hv is None else hv

            def nums(v):
                if isinstance(v, dict):
                    return [y for x in v.values() for y in nums(x)]
                return [] if v is None else [v]
            for x in nums(vals):
                ctx.check(buf.getvalue().count(str(x)) == (3 if shown else 0),
                          'values are printed iff the hook is verbose '
                          '(by default like the trainer)')

            def want(v):
                if isinstance(v, dict):
                    return {a: want(b) for a, b in v.items() if b is not None}
                return [v] * 3
            expect = {} if vals is None else {'rep': want(vals)}
            ctx.check(logs[-1] == expect, 'the log does not depend on '
                      'printing: %s' % logs[-1])


class Run(object):
    def __init__(self):
        self.info = {}


def info(ctx):
    """InfoUpdater reports the current state of the training"""
    import brainstorm as bs
    net = make_net(ctx, c11.lossnet)
    r = Run()
    e, u = ctx.int('epoch', 0, 100), ctx.int('update', 0, 100)
    h = bs.hooks.InfoUpdater(r)
    h.start(net, None, False, {})
    for k in range(2):
        logs = {'x': [k]}
        h(e + k, u + 2 * k, net, None, logs)
        ctx.eq(r.info['epoch_nr'], e + k, 'epoch')
        ctx.eq(r.info['update_nr'], u + 2 * k, 'update')
        ctx.check(r.info['logs'] == logs, 'logs')
        ctx.check(r.info['nr_parameters'] == net.buffer.parameters.size,
                  'number of parameters')


class Graph(object):
    """stands in for pygraphviz.AGraph; draws nothing"""
    made = []

    def __init__(self, *a, **k):
        self.edges, self.nodes, self.files, self.kw = [], [], [], k
        Graph.made.append(self)

    def add_edge(self, a, b, *r, **k):
        self.edges.append((a, b))

    def add_node(self, a, *r, **k):
        self.nodes.append(a)

    def draw(self, path, *a, **k):
        self.files.append(path)


def drawing(ctx):
    """draw_network draws the connections of the network, with direction"""
    import sys
    import types
    import brainstorm as bs
    import brainstorm.tools as tl
    from checks import c21
    names = ['a', 'b_1', 'c']
    preds = {'a': ['Input']}
    for i in (1, 2):
        preds[names[i]] = ctx.choose('preds of ' + names[i], [
            ['Input'], names[:i], ['a'], ['Input'] + names[:i]])
    arch = c21.arch_of(preds, ctx.choose('style', ['list', 'dict', 'named']))
    net = bs.Network.from_architecture(arch)
    m = types.ModuleType('pygraphviz')
    m.AGraph = Graph
    ipy, ipd = types.ModuleType('IPython'), types.ModuleType('IPython.display')
    ipd.Image = lambda filename: ('image', filename)
    ipy.display = ipd
    Graph.made = []
    have = ctx.choose('IPython', [True, False])
    mods = {'pygraphviz': m, 'IPython': ipy if have else None,
            'IPython.display': ipd if have else None}
    old = {k: sys.modules.get(k, mods) for k in mods}
    sys.modules.update(mods)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            name = ctx.choose('file', [(), ('/nowhere/x.pdf',)])
            r = tl.draw_network(net, *name)
    finally:
        for k in mods:
            if old[k] is mods:
                del sys.modules[k]
            else:
                sys.modules[k] = old[k]
    want = sorted((p, n) for n in preds for p in preds[n])
    g = Graph.made[-1]
    path = name[0] if name else 'network.png'
    ctx.check(sorted(set(g.edges)) == want, 'one edge for every connection, '
              'from its source: %s' % g.edges)
    ctx.check(g.kw.get('directed') is True, 'edges have a direction')
    ctx.check(set(g.nodes) <= set(net.layers), 'and nothing else')
    ctx.check(g.files == [path], 'written to the file that was named')
    ctx.check(r == (('image', path) if have else None), 'and returned as an '
              'image where there is IPython')


def missing(ctx):
    """using what is not installed raises the error of its import"""
    import sys
    from brainstorm.optional import MissingDependencyMock
    try:
        raise ImportError('no vp')
    except ImportError:
        m = MissingDependencyMock(sys.exc_info())
    how = ctx.choose('use', ['call', 'call with arguments', 'attribute',
                             'module', 'name'])
    use = {'call': lambda: m(), 'call with arguments': lambda: m(1, x=2),
           'attribute': lambda: m.anything, 'module': lambda: m.__module__,
           'name': lambda: m.__name__}[how]
    for k in range(2):
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                use()
        except ImportError as e:
            ctx.check('no vp' in str(e), 'the original error')
        else:
            ctx.fail('a missing dependency is noticed')


class Figure(object):
    def __init__(self):
        self.lines = {}

    def line(self, x, y, name=None, **k):
        r = type('R', (), {})()
        r.data_source = type('D', (), {})()
        r.data_source.data = {'x': x, 'y': y}
        self.lines[name] = r

    def select(self, d):
        return [self.lines[d['name']]]


def visualizer(ctx):
    """the lines of a visualization are the logs"""
    import brainstorm.hooks as H
    if not hasattr(H, 'bk'):
        ctx.check(True, 'bokeh is not installed')
        return
    fig = Figure()
    saved, stored, served = [], [], []
    bk = type('BK', (), {})()
    bk.output_server = served.append
    bk.figure = lambda **k: fig
    bk.show = lambda f: None
    bk.output_file = lambda *a, **k: None
    bk.save = lambda f, filename: saved.append(filename)
    bk.cursession = lambda: type('S', (), {'store_objects': lambda s, d:
                                           stored.append(d)})()
    old, H.bk = H.bk, bk
    try:
        names = ctx.choose('logs', ['a', ['a', 'b.c'], ('b.d', 'a', 'b.c')])
        fn = ctx.choose('file', [None, 'plot'])
        try:
            v = H.BokehVisualizer(3)
        except ValueError:
            pass
        else:
            ctx.fail('names of logs are a string or a list of strings')
        v = H.BokehVisualizer(names, filename=fn)
    finally:
        H.bk = old
    v.start(None, None, False, {})
    if isinstance(names, str):
        names = [names]
    ctx.check(sorted(fig.lines) == sorted(names), 'a line for every log')
    x = ctx.arr('v', (3,))
    logs = {'a': [], 'b': {'c': [], 'd': []}}
    v(0, 0, None, None, {})
    for k in range(1, 3):
        logs['a'].append(x[k])
        logs['b']['c'].append(2 * x[k])
        logs['b']['d'].append(x[0])
        v(k, 5 * k, None, None, logs)
        for n in names:
            d = fig.lines[n].data_source.data
            o = logs['a'] if n == 'a' else logs['b'][n[-1]]
            ctx.check(len(d['y']) == k and list(d['x']) == list(range(k)),
                      'one point for every entry')
            for a, b in zip(d['y'], o):
                ctx.eq(a, b, 'points of ' + n)
        ctx.check(len(stored) == k * len(names), 'all lines are updated')
        ctx.check(saved == ([] if fn is None else ['plot.html'] * k),
                  'and saved if wanted')


def cases(tier):
    th = tier == 'thorough'
    out = [Case('bar %d characters, %d steps' % (l, s), bar(l, s),
                {'bar': l, 'steps': s}, weight=s * l / 4)
           for l, s in ([(1, 2), (3, 3), (5, 2)] +
                        ([(8, 2), (4, 4)] if th else []))]
    out += [Case('silence', silent, {}),
            Case('training', training, {'updates per epoch': 4, 'epochs': 2},
                 weight=3, max_paths=4000),
            Case('paths', paths, {'depth': 3}),
            Case('normalized paths', normalized, {'arguments': 3}),
            Case('nested lists', nested, {'depth': 3}, weight=3,
                 max_paths=40000),
            Case('index order', index_key, {'entries': 5}),
            Case('summary', summary, {'layers': 4}),
            Case('verbose', verbose, {}),
            Case('info', info, {}),
            Case('drawing', drawing, {'layers': 4}),
            Case('missing dependency', missing, {}),
            Case('visualizer', visualizer, {'logs': 3})]
    return out

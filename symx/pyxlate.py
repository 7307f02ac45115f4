"""Translate a Cython module to Python for symbolic execution.

Cython's own parser produces the tree; the emitted Python keeps the C typing
(32-bit ints, truncating casts) and wraps typed memoryviews in `MV`, which
turns an out-of-bounds element access (undefined behaviour in the compiled
code: boundscheck and wraparound are off) into `OutOfBounds`.
"""
import types

import numpy as np

from Cython.Compiler import Nodes, ExprNodes
from Cython.Compiler.TreeFragment import parse_from_strings

from . import core
from .core import SR, SI, SB


class OutOfBounds(Exception):
    pass


class Unsupported(Exception):
    pass


class IntOverflow(Exception):
    pass


def cint(x):
    t = type(x)
    if t is SI:
        return x if x.v is None else x.v
    if t is SB:
        return x._int()
    if t is SR:
        return cint(core.trunc_(x))
    x = int(x)
    if not -2 ** 31 <= x < 2 ** 31:
        raise IntOverflow(str(x))
    return x


def cfloat(x):
    return core.lift(x) if type(x) in (SI, SB, int, bool, float) else x


class MV(object):
    def __init__(self, a, ndim, contig, boundscheck, wraparound, name):
        if type(a) is MV:
            a = a.a
        if a is None:
            raise TypeError('memoryview argument must not be None')
        if a.ndim != ndim:
            raise ValueError('Buffer has wrong number of dimensions '
                             '(expected %d, got %d)' % (ndim, a.ndim))
        if contig and not a.flags.c_contiguous:
            raise ValueError('ndarray is not C-contiguous')
        self.a = a
        self.shape = a.shape
        self.boundscheck = boundscheck
        self.wraparound = wraparound
        self.name = name

    @property
    def size(self):
        return self.a.size

    def _idx(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        if Ellipsis in [i for i in idx if type(i) is type(Ellipsis)]:
            k = [i is Ellipsis for i in idx].index(True)
            idx = idx[:k] + (slice(None),) * (len(self.shape) + 1 -
                                              len(idx)) + idx[k + 1:]
        out = []
        for d, i in enumerate(idx):
            if type(i) is slice:
                out.append(slice(*[None if v is None else v.__index__()
                                   for v in (i.start, i.stop, i.step)]))
                continue
            i = i.__index__()
            n = self.shape[d]
            lo = -n if (self.wraparound or self.boundscheck) else 0
            if not lo <= i < n:
                if self.boundscheck:
                    raise IndexError('Out of bounds on buffer access')
                raise OutOfBounds('%s[...%d...] outside dimension %d of '
                                  'size %d' % (self.name, i, d, n))
            out.append(i)
        return tuple(out)

    def __getitem__(self, idx):
        r = self.a[self._idx(idx)]
        if isinstance(r, np.ndarray):
            return MV(r, r.ndim, False, self.boundscheck, self.wraparound,
                      self.name)
        return r

    def __array__(self, dtype=None):
        return self.a

    def __len__(self):
        return len(self.a)

    ndim = property(lambda self: self.a.ndim)
    T = property(lambda self: MV(self.a.T, self.a.ndim, False,
                                 self.boundscheck, self.wraparound,
                                 self.name))

    def copy(self):
        return MV(self.a.copy(), self.a.ndim, False, self.boundscheck,
                  self.wraparound, self.name)

    def __setitem__(self, idx, v):
        if type(v) is MV:
            v = v.a
        k = self._idx(idx)
        tgt = self.a[k]
        if isinstance(v, np.ndarray) and isinstance(tgt, np.ndarray) and \
                v.shape != tgt.shape:
            raise ValueError('got differing extents in dimension 0')
        self.a[k] = v if isinstance(v, np.ndarray) else cfloat(v)


INT_TYPES = {'int', 'long', 'short', 'char', 'Py_ssize_t', 'size_t',
             'int_t', 'int32_t', 'int64_t', 'bint'}


def cdiv(a, b):
    """`//` under cdivision(True): C division of integers"""
    if isinstance(a, (int, SI)) and isinstance(b, (int, SI)):
        neg = (a < 0) != (b < 0)
        q = abs(a) // abs(b)
        return -q if neg else q
    return a // b


def cmod(a, b):
    if isinstance(a, (int, SI)) and isinstance(b, (int, SI)):
        return a - b * cdiv(a, b)
    return a % b


def _math():
    from .npproxy import PROXY
    two = {'fmax': lambda a, b: a if a >= b else b,
           'fmin': lambda a, b: a if a <= b else b,
           'fabs': lambda a: a if a >= 0 else -a,
           'pow': lambda a, b: a ** b}
    two.update({n: (lambda f: lambda v: f(v))(getattr(PROXY, n)) for n in
                ('exp', 'log', 'sqrt', 'tanh', 'sin', 'cos', 'floor',
                 'ceil', 'expm1', 'log1p')})
    out = dict(two)
    out.update({n + 'f': f for n, f in two.items()})
    out['INFINITY'] = float('inf')
    out['prange'] = lambda *a, **k: range(*a)
    return out


class Emit(object):
    defaults = {'boundscheck': True, 'wraparound': True}

    def __init__(self):
        self.lines = []
        self.ind = 0
        self.types = {}
        self.fused = set()
        self.cfuncs = {}
        self.directives = {}

    def w(self, s):
        self.lines.append('    ' * self.ind + s)

    # ------------------------------------------------------- types ------
    def ctype(self, t):
        n = type(t).__name__
        if n == 'MemoryViewSliceTypeNode':
            ax = t.axes
            contig = type(ax[-1].step).__name__ != 'NoneNode'
            return ('mv', len(ax), contig, self.ctype(t.base_type_node))
        if n == 'CSimpleBaseTypeNode':
            if t.name in INT_TYPES:
                return 'int'
            if t.name in ('float', 'double', 'float32_t', 'float64_t') or \
                    t.name in self.fused:
                return 'float'
            return 'obj'
        if n in ('CConstTypeNode', 'CConstOrVolatileTypeNode'):
            return self.ctype(t.base_type)
        if n == 'CFusedTypeNode':
            return 'float'
        return 'obj'

    def conv(self, ct, s):
        if ct == 'int':
            return '_cint(%s)' % s
        if ct == 'float':
            return '_cfloat(%s)' % s
        return s

    # -------------------------------------------------- expressions ------
    def x(self, e):
        n = type(e).__name__
        m = getattr(self, 'x_' + n, None)
        if m is not None:
            return m(e)
        if isinstance(e, ExprNodes.NumBinopNode) and \
                e.operator in ('//', '%') and self.directives.get('cdivision'):
            return '%s(%s, %s)' % (
                '_cdiv' if e.operator == '//' else '_cmod',
                self.x(e.operand1), self.x(e.operand2))
        if isinstance(e, ExprNodes.NumBinopNode):
            return '(%s %s %s)' % (self.x(e.operand1), e.operator,
                                   self.x(e.operand2))
        raise Unsupported('expression %s' % n)

    def x_NameNode(self, e):
        return e.name

    def x_IntNode(self, e):
        return '(%s)' % e.value

    def x_FloatNode(self, e):
        return '(%s)' % e.value

    def x_BoolNode(self, e):
        return repr(bool(e.value))

    def x_NoneNode(self, e):
        return 'None'

    def x_UnicodeNode(self, e):
        return repr(str(e.value))

    def x_StringNode(self, e):
        return repr(str(e.value))

    def x_TupleNode(self, e):
        return '(%s,)' % ', '.join(self.x(a) for a in e.args)

    def x_ListNode(self, e):
        return '[%s]' % ', '.join(self.x(a) for a in e.args)

    def x_AttributeNode(self, e):
        return '%s.%s' % (self.x(e.obj), e.attribute)

    def x_UnaryMinusNode(self, e):
        return '(-%s)' % self.x(e.operand)

    def x_UnaryPlusNode(self, e):
        return '(+%s)' % self.x(e.operand)

    def x_NotNode(self, e):
        return '(not %s)' % self.x(e.operand)

    def x_BoolBinopNode(self, e):
        return '(%s %s %s)' % (self.x(e.operand1), e.operator,
                               self.x(e.operand2))

    def x_CondExprNode(self, e):
        return '(%s if %s else %s)' % (self.x(e.true_val), self.x(e.test),
                                       self.x(e.false_val))

    def x_PrimaryCmpNode(self, e):
        s = '%s %s %s' % (self.x(e.operand1), e.operator.replace('_', ' '),
                          self.x(e.operand2))
        c = e.cascade
        while c is not None:
            s += ' %s %s' % (c.operator.replace('_', ' '), self.x(c.operand2))
            c = c.cascade
        return '(%s)' % s

    def x_IndexNode(self, e):
        return '%s[%s]' % (self.x(e.base), self.idx(e.index))

    def idx(self, e):
        if type(e).__name__ == 'TupleNode':
            return ', '.join(self.idx(a) for a in e.args)
        if type(e).__name__ == 'SliceNode':
            return ':'.join('' if type(p).__name__ == 'NoneNode' else
                            self.x(p) for p in (e.start, e.stop, e.step))
        return self.x(e)

    def x_SliceIndexNode(self, e):
        return '%s[%s:%s]' % (self.x(e.base),
                              self.x(e.start) if e.start else '',
                              self.x(e.stop) if e.stop else '')

    def x_TypecastNode(self, e):
        return self.conv(self.ctype(e.base_type), self.x(e.operand))

    def x_SimpleCallNode(self, e):
        return '%s(%s)' % (self.x(e.function),
                           ', '.join(self.x(a) for a in e.args))

    def x_GeneralCallNode(self, e):
        args = []
        if e.positional_args is not None:
            args.append('*' + self.x(e.positional_args))
        if e.keyword_args is not None:
            args.append('**' + self.x(e.keyword_args))
        return '%s(%s)' % (self.x(e.function), ', '.join(args))

    def x_DictNode(self, e):
        return '{%s}' % ', '.join(
            '%s: %s' % (self.x(i.key), self.x(i.value))
            for i in e.key_value_pairs)

    def x_IdentifierStringNode(self, e):
        return repr(str(e.value))

    def x_EllipsisNode(self, e):
        return '...'

    def x_JoinedStrNode(self, e):       # only ever a message
        return repr('text')

    # ---------------------------------------------------- statements ------
    def s(self, st):
        n = type(st).__name__
        getattr(self, 's_' + n)(st)

    def __getattr__(self, a):
        if a.startswith('s_'):
            raise Unsupported('statement ' + a[2:])
        raise AttributeError(a)

    def body(self, st):
        self.ind += 1
        k = len(self.lines)
        if st is not None:
            self.s(st)
        if len(self.lines) == k:
            self.w('pass')
        self.ind -= 1

    def s_StatListNode(self, st):
        for q in st.stats:
            self.s(q)

    def s_PassStatNode(self, st):
        self.w('pass')

    def s_ExprStatNode(self, st):
        self.w(self.x(st.expr))

    def s_CImportStatNode(self, st):
        pass

    def s_FromCImportStatNode(self, st):
        for name in st.imported_names:
            if name[2] and name[2] != name[1]:
                self.w('%s = globals().get(%r)' % (name[2], str(name[1])))

    def s_FromImportStatNode(self, st):
        raise Unsupported('import of names')

    def s_CDefExternNode(self, st):
        pass

    def s_WithStatNode(self, st):
        e = st.manager
        if type(e).__name__ == 'SimpleCallNode' and \
                type(e.function).__name__ == 'AttributeNode' and \
                e.function.attribute in ('boundscheck', 'wraparound',
                                         'cdivision', 'nonecheck'):
            old = dict(self.directives)
            self.directives[e.function.attribute] = \
                self.x(e.args[0]) == 'True'
            self.s(st.body)
            self.directives = old
        else:
            raise Unsupported('with')

    def s_DelStatNode(self, st):
        for a in st.args:
            self.w('del %s' % self.x(a))

    def s_FusedTypeNode(self, st):
        self.fused.add(st.name)
        self.w('%s = "fused"' % st.name)

    def s_CTypeDefNode(self, st):
        pass

    def s_CVarDefNode(self, st):
        ct = self.ctype(st.base_type)
        for d in st.declarators:
            nm = self.decl_name(d)
            self.types[nm] = ct
            if getattr(d, 'default', None) is not None:
                self.w('%s = %s' % (nm, self.conv(ct, self.x(d.default))))

    def decl_name(self, d):
        while type(d).__name__ != 'CNameDeclaratorNode':
            d = d.base
        return d.name

    def assign(self, lhs, s):
        n = type(lhs).__name__
        if n == 'NameNode':
            self.w('%s = %s' % (lhs.name,
                                self.conv(self.types.get(lhs.name), s)))
        elif n == 'TupleNode':
            self.w('%s = %s' % (self.x(lhs), s))
            for a in lhs.args:
                if type(a).__name__ == 'NameNode' and a.name in self.types:
                    self.w('%s = %s' % (a.name, self.conv(
                        self.types[a.name], a.name)))
        else:
            self.w('%s = %s' % (self.x(lhs), s))

    def s_SingleAssignmentNode(self, st):
        if type(st.rhs).__name__ == 'ImportNode':
            return
        self.assign(st.lhs, self.x(st.rhs))

    def s_CascadedAssignmentNode(self, st):
        self.w('_tmp = %s' % self.x(st.rhs))
        for l in st.lhs_list:
            self.assign(l, '_tmp')

    def s_InPlaceAssignmentNode(self, st):
        self.assign(st.lhs, '%s %s %s' % (self.x(st.lhs), st.operator,
                                          self.x(st.rhs)))

    def s_IfStatNode(self, st):
        kw = 'if'
        for c in st.if_clauses:
            self.w('%s %s:' % (kw, self.x(c.condition)))
            self.body(c.body)
            kw = 'elif'
        if st.else_clause is not None:
            self.w('else:')
            self.body(st.else_clause)

    def s_GILStatNode(self, st):
        self.s(st.body)

    def s_ForInStatNode(self, st):
        it = st.iterator.sequence if hasattr(st.iterator, 'sequence') else \
            st.iterator
        self.w('for %s in %s:' % (self.x(st.target), self.x(it)))
        self.body(st.body)
        if st.else_clause is not None:
            self.w('else:')
            self.body(st.else_clause)

    def s_ForFromStatNode(self, st):
        lo, hi = self.x(st.bound1), self.x(st.bound2)
        if st.step is not None or st.relation1[0] != '<':
            raise Unsupported('for-from with steps')
        self.w('for %s in range(%s%s, %s%s):' % (
            self.x(st.target), lo, '' if '=' in st.relation1 else ' + 1', hi,
            ' + 1' if '=' in st.relation2 else ''))
        self.body(st.body)

    def s_WhileStatNode(self, st):
        self.w('while %s:' % self.x(st.condition))
        self.body(st.body)

    def s_BreakStatNode(self, st):
        self.w('break')

    def s_ContinueStatNode(self, st):
        self.w('continue')

    def s_ReturnStatNode(self, st):
        self.w('return %s' % (self.x(st.value) if st.value is not None
                              else 'None'))

    def s_AssertStatNode(self, st):
        c = getattr(st, 'cond', None) or st.condition
        self.w('assert %s' % self.x(c))

    def s_RaiseStatNode(self, st):
        self.w('raise %s' % (self.x(st.exc_type) if st.exc_type else ''))

    def func(self, name, args, body, decorators=()):
        dirs = dict(self.defaults)
        for d in decorators or []:
            e = d.decorator
            if type(e).__name__ == 'SimpleCallNode' and \
                    type(e.function).__name__ == 'AttributeNode':
                dirs[e.function.attribute] = self.x(e.args[0]) == 'True'
        old, self.types = self.types, {}
        self.directives = dirs
        params = []
        pre = []
        for a in args:
            ct = self.ctype(a.base_type)
            nm = self.decl_name(a.declarator)
            if not nm:   # untyped argument: the "type" is the name
                nm, ct = a.base_type.name, 'obj'
            self.types[nm] = ct if not isinstance(ct, tuple) else 'mv'
            params.append(nm if a.default is None else
                          '%s=%s' % (nm, self.x(a.default)))
            if isinstance(ct, tuple):
                pre.append('%s = _MV(%s, %d, %r, %r, %r, %r)' % (
                    nm, nm, ct[1], ct[2], dirs['boundscheck'],
                    dirs['wraparound'], nm))
            elif ct in ('int', 'float'):
                pre.append('%s = %s' % (nm, self.conv(ct, nm)))
        self.w('def %s(%s):' % (name, ', '.join(params)))
        self.ind += 1
        for p in pre:
            self.w(p)
        self.ind -= 1
        self.body(body)
        self.w('')
        self.types = old

    def s_CFuncDefNode(self, st):
        d = st.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        self.func(self.decl_name(d), d.args, st.body,
                  getattr(st, 'decorators', None))

    def s_DefNode(self, st):
        self.func(st.name, st.args, st.body, st.decorators)


def translate(path):
    src = open(path).read()
    tree = parse_from_strings('cpuop.pyx', src)
    e = Emit()
    # '# cython: boundscheck=False' at the top of the file
    import re
    e.defaults = dict(e.defaults)
    for line in src.split('\n'):
        if line.strip() and not line.startswith('#'):
            break
        if re.match(r'#\s*cython\s*:', line):
            for k, v in re.findall(r'(\w+)\s*=\s*(\w+)', line):
                e.defaults[k] = v == 'True'
    e.s(tree.body)
    return '\n'.join(e.lines) + '\n'


class _NPStub(object):
    float32_t = 'np.float32_t'
    float64_t = 'np.float64_t'

    def __getattr__(self, a):
        return getattr(np, a)


def load(path, name):
    code = translate(path)
    mod = types.ModuleType(name)
    mod.__dict__.update(_math())
    mod.__dict__.update(_cdiv=cdiv, _cmod=cmod)
    mod.__dict__.update(_cint=cint, _cfloat=cfloat, _MV=MV, np=_NPStub(),
                        FLT_MAX=core.const(3.4028234663852886e+38),
                        DBL_MAX=core.const(1.7976931348623157e+308),
                        cython=None)
    mod.__translated__ = code
    exec(compile(code, '<translated _cpuop.pyx>', 'exec'), mod.__dict__)
    return mod

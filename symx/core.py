"""Symbolic values and the path-exploring engine.

`SR`/`SI`/`SB` are symbolic reals / integers / booleans.  The real Python code
of /repo is *run* on them; every operation builds a term, every `bool()` of a
symbolic condition asks the solver which outcomes are feasible under the
current path condition and forks the execution (by re-execution), and every
`__index__` of a symbolic integer forks over all values the solver admits.
"""
import math
import os
import time
from fractions import Fraction

import z3

SOLVER_TIMEOUT_MS = 20000


class Infeasible(BaseException):
    """The current path is infeasible (assumption contradicts it)."""


class PathLimit(BaseException):
    """An exploration bound was exceeded - the result is inconclusive."""


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.asserts = 0
        self.unknown = 0
        self.forks = 0


class Lineariser(object):
    def __init__(self):
        self.s = z3.Solver()
        self.s.set('timeout', 5000)
        self.memo, self.mons, self.done = {}, {}, (0, 0)

    def som(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][1]
        if z3.is_int(t):
            r = self.lin(z3.simplify(t, som=True))
        elif z3.is_app(t) and t.num_args():
            r = t.decl()(*[self.som(c) for c in t.children()])
        else:
            r = t
        self.memo[k] = (t, r)
        return r

    def lin(self, t):
        if z3.is_app_of(t, z3.Z3_OP_MUL):
            fl, todo = [], [t]
            while todo:
                x = todo.pop()
                if z3.is_app_of(x, z3.Z3_OP_MUL):
                    todo.extend(x.children())
                else:
                    fl.append(x)
            c = [x for x in fl if not z3.is_int_value(x)]
            k = [x for x in fl if z3.is_int_value(x)]
            if len(c) < 2:
                return t
            key = tuple(sorted(str(x) for x in c))
            if key not in self.mons:
                self.mons[key] = (z3.Int('mon!%d' % len(self.mons)), c)
                self.new.append(key)
            r = self.mons[key][0]
            for x in k:
                r = x * r
            return r
        if z3.is_app(t) and t.num_args():
            return t.decl()(*[self.lin(c) if z3.is_int(c) else self.som(c)
                              for c in t.children()])
        return t

    def unsat(self, base, extra):
        self.new = []
        b = [self.som(c) for l, d in zip(base, self.done) for c in l[d:]]
        self.done = [len(l) for l in base]
        x = [self.som(c) for c in extra]
        for k in self.new:
            m, c = self.mons[k]
            self.s.add(z3.Implies(z3.And(*[v >= 1 for v in c]),
                                  z3.And(*[m >= v for v in c])))
        self.s.add(*b)
        self.s.push()
        self.s.add(*x)
        r = self.s.check()
        self.s.pop()
        return r == z3.unsat


class Engine(object):
    def __init__(self, max_paths=20000):
        self.stats = Stats()
        self.max_paths = max_paths
        self.stack = []      # entries [options, idx]
        self.reset_path()

    # -- one path ---------------------------------------------------------
    def reset_path(self):
        self.pos = 0
        self.pc = []
        self.side = []       # definitional side constraints (inv, sqrt ...)
        self.side_keys = set()
        self.atoms = []
        self.solver = z3.Solver()
        self.solver.set('timeout', SOLVER_TIMEOUT_MS)
        self.vars = {}       # name -> z3 var (inputs)
        self.obligations = []
        self.memo = {}
        self.lin = None

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def add_side(self, key, c):
        if key in self.side_keys:
            return
        self.side_keys.add(key)
        self.side.append(c)
        self.solver.add(c)

    def linear_unsat(self, extra):
        """Integer products abstracted to fresh variables (>= each factor
        when all factors are >= 1): unsat here implies unsat."""
        if self.lin is None:
            self.lin = Lineariser()
        return self.lin.unsat((self.pc, self.side), extra)

    linearise = False

    def query(self, *extra):
        t = time.time()
        if self.linearise and extra and self.linear_unsat(extra):
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            return z3.unsat, None
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, m

    def _decide(self, make_options):
        """Next decision: replayed from the stack, or freshly enumerated."""
        if self.pos < len(self.stack):
            e = self.stack[self.pos]
        else:
            opts = make_options()
            if not opts:
                raise Infeasible()
            e = [opts, 0]
            self.stack.append(e)
            if len(opts) > 1:
                self.stats.forks += 1
        self.pos += 1
        return e[0][e[1]], len(e[0]) > 1

    def branch(self, cond):
        """Fork on a z3 boolean."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        if k in self.memo:
            return self.memo[k][1]

        def opts():
            rt, _ = self.query(cond)
            if rt == z3.unsat:
                return [False]
            rf, _ = self.query(z3.Not(cond))
            if rf == z3.unsat:
                return [True]
            return [True, False]
        v, forked = self._decide(opts)
        self.memo[k] = (cond, v)
        if forked:
            self.add(cond if v else z3.Not(cond))
        return v

    def concretize(self, expr, limit=200):
        """Fork over every value the solver admits for an integer term."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()

        def opts():
            vals = []
            self.solver.push()
            while True:
                r, m = self.query()
                if r == z3.unknown:
                    self.solver.pop()
                    raise PathLimit('unknown while concretising')
                if r == z3.unsat:
                    break
                v = m.eval(expr, model_completion=True).as_long()
                vals.append(v)
                if len(vals) > limit:
                    self.solver.pop()
                    raise PathLimit('too many values for an index')
                self.solver.add(expr != v)
            self.solver.pop()
            return sorted(vals)
        v, forked = self._decide(opts)
        if forked:
            self.add(expr == v)
        return v

    def choose(self, n):
        v, _ = self._decide(lambda: list(range(n)))
        return v

    def assume(self, cond):
        cond = tobool(cond)
        if z3.is_true(cond):
            return
        self.add(cond)
        if self.pos < len(self.stack):
            return
        r, _ = self.query()
        if r == z3.unsat:
            raise Infeasible()

    def backtrack(self):
        while self.stack:
            e = self.stack[-1]
            e[1] += 1
            if e[1] < len(e[0]):
                return True
            self.stack.pop()
        return False


ENGINE = None
EXT = ()            # further element types (xfloat)
FINFO = float       # the type whose limits terms have


def set_engine(e):
    global ENGINE
    ENGINE = e
    return e


# ---------------------------------------------------------------- reals ----
_intern = {}


def clear_intern():
    _intern.clear()


def _fr(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    # the simplest rational that rounds to this double (1/3, not 0.333...3)
    # or, not being an integer, to a neighbour (0.1 * 3 is 3/10)
    x = float(x)
    f = Fraction(x).limit_denominator(10 ** 6)
    if float(f) == x or f.denominator > 1 and \
            abs(float(f) - x) <= 4.5e-16 * abs(x):
        return f
    return Fraction(repr(x))


def _conc_num(x):
    import numpy as np
    t = type(x)
    if t is int or t is float or t is bool or t is Fraction:
        return True
    return isinstance(x, (np.integer, np.floating, np.bool_)) and \
        t not in (SR, SI, SB)


def lift(x):
    """Anything numeric -> SR."""
    t = type(x)
    if t is SR:
        return x
    if t is SI:
        if x.v is not None:
            return const(x.v)
        return mk('i', (x.z,))
    if t is SB:
        return mk('i', (z3.If(x.z, z3.IntVal(1), z3.IntVal(0)),))
    if t is bool:
        return const(int(x))
    if t is float or hasattr(x, 'dtype') and x.dtype.kind == 'f':
        f = float(x)
        if math.isnan(f) or math.isinf(f):
            raise NonFinite(f)
        return const(_fr(f))
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        return const(Fraction(int(x)))
    if t is int or t is Fraction:
        return const(Fraction(x))
    raise TypeError('cannot lift %r' % (type(x),))


class NonFinite(Exception):
    pass


def const(q):
    q = Fraction(q)
    k = ('c', q)
    n = _intern.get(k)
    if n is None:
        n = SR('c', q)
        _intern[k] = n
    return n


def mk(op, args):
    k = (op,) + tuple(a if isinstance(a, str) else
                      (a.get_id() if isinstance(a, z3.AstRef) else id(a))
                      for a in args)
    n = _intern.get(k)
    if n is None:
        n = SR(op, args)
        _intern[k] = n
    return n


def var(name):
    return mk('v', (name,))


def _add(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.args + b.args)
        if a.args == 0:
            return b
    elif b.op == 'c' and b.args == 0:
        return a
    if id(b) < id(a):
        a, b = b, a
    return mk('+', (a, b))


def _mul(a, b):
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        if b.op == 'c':
            return const(a.args * b.args)
        if a.args == 0:
            return a
        if a.args == 1:
            return b
        if b.op == '*' and b.args[0].op == 'c':
            return _mul(const(a.args * b.args[0].args), b.args[1])
        return mk('*', (a, b))
    if id(b) < id(a):
        a, b = b, a
    return mk('*', (a, b))


def _neg(a):
    return _mul(const(-1), a)


def _inv(a):
    if a.op == 'c':
        if a.args == 0:
            raise ZeroDivisionError
        return const(1 / a.args)
    if a.op == 'inv':
        return a.args[0]
    return mk('inv', (a,))


def _ipow(a, n):
    if n < 0:
        return _inv(_ipow(a, -n))
    r = const(1)
    for _ in range(n):
        r = _mul(r, a)
    return r


def fn(name, *args):
    args = [lift(a) for a in args]
    a = args[0]
    if all(x.op == 'c' for x in args):
        q = a.args
        if name in ('tanh', 'sqrt') and q == 0:
            return const(0)
        if name == 'exp' and q == 0:
            return const(1)
        if name == 'log' and q == 1:
            return const(0)
        if name == 'sqrt' and q == 1:
            return const(1)
        if name == 'sqrt' and q > 0:
            n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if n * n == q.numerator and d * d == q.denominator:
                return const(Fraction(n, d))
    return mk('f', (name,) + tuple(args))


class SR(object):
    __slots__ = ('op', 'args', '_z', '__weakref__')
    __array_priority__ = 1000

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._z = None

    @property
    def __class__(self):
        return float

    # arithmetic ----------------------------------------------------------
    def _bin(self, o, f, swap=False):
        if type(o) is not SR:
            if _isarr(o):
                return NotImplemented
            if type(o) is float and (math.isnan(o) or math.isinf(o)):
                return float('nan')
            try:
                o = lift(o)
            except TypeError:
                return NotImplemented
        return f(o, self) if swap else f(self, o)

    def __add__(self, o):
        return self._bin(o, _add)

    __radd__ = __add__

    def __mul__(self, o):
        return self._bin(o, _mul)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: _add(a, _neg(b)))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: _add(a, _neg(b)), True)

    def __neg__(self):
        return _neg(self)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        return self._bin(o, _div, True)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: lift(floor_(_div(a, b))))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: lift(floor_(_div(a, b))), True)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: _add(a, _neg(_mul(b, lift(floor_(_div(a, b)))))))

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: _add(a, _neg(_mul(b, lift(floor_(_div(a, b)))))), True)

    def __pow__(self, o):
        if type(o) is int or (hasattr(o, 'dtype') and o.dtype.kind in 'iu'):
            return _ipow(self, int(o))
        return self._bin(o, _pow)

    def __rpow__(self, o):
        return self._bin(o, _pow, True)

    def __abs__(self):
        if self >= 0:
            return self
        return -self

    # comparisons ---------------------------------------------------------
    def _cmp(self, o, kind):
        if type(o) is not SR:
            if _isarr(o):
                return NotImplemented
            if type(o) is float:
                if math.isnan(o):
                    return kind == '!='
                if math.isinf(o):
                    pos = o > 0
                    return {'<': pos, '<=': pos, '>': not pos,
                            '>=': not pos, '==': False, '!=': True}[kind]
            try:
                o = lift(o)
            except TypeError:
                if kind == '==':
                    return False
                if kind == '!=':
                    return True
                return NotImplemented
        return rcmp(self, o, kind)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __hash__(self):
        if self.op == 'c':
            return hash(self.args)
        return id(self)

    def __bool__(self):
        return bool(self != 0)

    # numpy object-ufunc protocol ------------------------------------------
    def exp(self):
        return fn('exp', self)

    def log(self):
        return fn('log', self)

    def sqrt(self):
        return fn('sqrt', self)

    def tanh(self):
        return fn('tanh', self)

    def fabs(self):
        return abs(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def fmod(self, o):
        o = lift(o)
        q = trunc_(_div(self, o))
        return self - o * lift(q)

    def square(self):
        return self * self

    def reciprocal(self):
        return 1 / self

    def floor(self):
        return lift(floor_(self))

    def rint(self):
        return lift(round_(self))

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def item(self):
        return self

    # concretisation ---------------------------------------------------------
    def __float__(self):
        if self.op == 'c':
            return float(self.args)
        raise TypeError('symbolic real forced to a concrete float')

    def __int__(self):
        if self.op == 'c':
            return int(self.args)
        return ENGINE.concretize(z3.simplify(trunc_(self).z))

    __index__ = None

    def __trunc__(self):
        return trunc_(self)

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return -floor_(-self)

    def __round__(self, n=None):
        return round_(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'SR(%s)' % show(self)

    def __format__(self, spec):
        return 'SR'


del SR.__index__


def _isarr(o):
    import numpy as np
    return isinstance(o, np.ndarray) and type(o) is not SR


def _div(a, b):
    if b.op == 'c' and b.args == 0:
        raise ZeroDivisionError('division of a symbolic real by zero')
    return _mul(a, _inv(b))


def _pow(a, b):
    if b.op == 'c':
        if b.args.denominator == 1 and abs(b.args) <= 64:
            return _ipow(a, int(b.args))
        if b.args == Fraction(1, 2):
            return fn('sqrt', a)
        if b.args == Fraction(-1, 2):
            return _inv(fn('sqrt', a))
    return mk('f', ('pow', a, b))


def show(n, depth=4):
    if type(n) is not SR:
        return repr(n)
    if n.op == 'c':
        return str(n.args)
    if n.op == 'v':
        return n.args[0]
    if depth == 0:
        return '..'
    if n.op == 'f':
        return '%s(%s)' % (n.args[0], ','.join(show(a, depth - 1)
                                                for a in n.args[1:]))
    if n.op == 'inv':
        return '1/(%s)' % show(n.args[0], depth - 1)
    if n.op == 'i':
        return str(n.args[0])
    return '(%s)' % n.op.join(show(a, depth - 1) for a in n.args)


# ------------------------------------------------------------- to z3 ------
def topo(roots):
    seen, order = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            order.append(n)
            continue
        if id(n) in seen:
            continue
        seen.add(id(n))
        stack.append((n, True))
        if n.op in ('+', '*', 'inv', 'f', 'ite'):
            for a in n.args:
                if type(a) is SR and id(a) not in seen:
                    stack.append((a, False))
    return order


def to_z3(node):
    if node._z is None:
        for n in topo([node]):
            if n._z is None:
                n._z = _z1(n)
            
    return node._z


def _z1(n):
    op = n.op
    if op == 'c':
        return z3.RealVal(n.args)
    if op == 'v':
        return z3.Real(n.args[0])
    if op == '+':
        return n.args[0]._z + n.args[1]._z
    if op == '*':
        return n.args[0]._z * n.args[1]._z
    if op == 'i':
        return z3.ToReal(n.args[0])
    if op == 'inv':
        return atom('inv', [z3.simplify(n.args[0]._z, som=True,
                                        sort_sums=True)])
    if op == 'ite':
        return z3.If(n.args[0].z, n.args[1]._z, n.args[2]._z)
    if op == 'f':
        # normalise arguments so syntactically different but polynomially
        # equal arguments share one atom
        return atom(n.args[0], [z3.simplify(a._z, som=True, sort_sums=True)
                                for a in n.args[1:]])
    raise AssertionError(op)


_atoms = {}        # (fn, arg ids) -> (var, fn, args)
_atom_by_id = {}   # var id -> (var, fn, args)


def atom(name, zargs):
    """A real-valued variable standing for fn(args); facts about it are
    instantiated on demand (axioms_for, congruence)."""
    k = (name,) + tuple(a.get_id() for a in zargs)
    r = _atoms.get(k)
    if r is None:
        v = z3.Real('%s!%d' % (name, len(_atoms)))
        r = (v, name, zargs)
        _atoms[k] = r
        _atom_by_id[v.get_id()] = r
    return r[0]


def atoms_of(zexprs, deep=True):
    """All atoms occurring in the given z3 terms (and in atoms' arguments)."""
    seen, out = set(), []
    stack = list(zexprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        r = _atom_by_id.get(i)
        if r is not None:
            out.append(r)
            if deep:
                stack.extend(r[2])
        elif z3.is_app(e):
            stack.extend(e.children())
    return out


def axioms_for(at):
    """Sound facts about inv / exp / sqrt / tanh / log atoms (instances)."""
    v, nm, args = at
    a = args[0]
    if nm == 'inv':
        return [z3.Implies(a != 0, a * v == 1)]
    if nm == 'sqrt':
        return [z3.Implies(a >= 0, z3.And(v * v == a, v >= 0)),
                z3.Implies(a > 0, v > 0)]
    if nm == 'exp':
        return [v > 0, z3.Implies(a > 0, v > 1),
                z3.Implies(a < 0, v < 1), z3.Implies(a == 0, v == 1),
                v >= 1 + a]
    if nm == 'tanh':
        return [v > -1, v < 1, z3.Implies(a > 0, v > 0),
                z3.Implies(a < 0, v < 0), z3.Implies(a == 0, v == 0)]
    if nm == 'sigmoid':
        return [v > 0, v < 1, z3.Implies(a >= 0, v >= z3.Q(1, 2)),
                z3.Implies(a < 0, v < z3.Q(1, 2))]
    if nm == 'log':
        return [z3.Implies(a > 1, v > 0),
                z3.Implies(z3.And(a > 0, a < 1), v < 0),
                z3.Implies(a == 1, v == 0)]
    return []


MONOTONE = ('exp', 'sqrt', 'tanh', 'sigmoid', 'log')


def ensure_axioms(*zexprs):
    eng = ENGINE
    for at in atoms_of(zexprs):
        i = at[0].get_id()
        if ('ax', i) in eng.side_keys:
            continue
        eng.side_keys.add(('ax', i))
        for k, ax in enumerate(axioms_for(at)):
            eng.add_side((i, k), ax)
        # congruence / monotonicity against the atoms already present
        for o in eng.atoms:
            if o[1] != at[1]:
                continue
            if at[1] in MONOTONE:
                eng.add_side((i, o[0].get_id(), 'm'), z3.And(
                    z3.Implies(at[2][0] < o[2][0], at[0] < o[0]),
                    z3.Implies(at[2][0] > o[2][0], at[0] > o[0]),
                    z3.Implies(at[2][0] == o[2][0], at[0] == o[0]))
                    if at[1] not in ('sqrt', 'log') else z3.Implies(
                        at[2][0] == o[2][0], at[0] == o[0]))
            else:
                eng.add_side((i, o[0].get_id(), 'c'), z3.Implies(
                    z3.And([x == y for x, y in zip(at[2], o[2])]),
                    at[0] == o[0]))
        eng.atoms.append(at)


def rcmp(a, b, kind):
    if a is b:
        return kind in ('<=', '>=', '==')
    if a.op == 'c' and b.op == 'c':
        x, y = a.args, b.args
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y,
                '==': x == y, '!=': x != y}[kind]
    d = z3.simplify(to_z3(a) - to_z3(b), som=True)
    zero = z3.RealVal(0)
    if z3.is_rational_value(d):
        x = d.as_fraction()
        return {'<': x < 0, '<=': x <= 0, '>': x > 0, '>=': x >= 0,
                '==': x == 0, '!=': x != 0}[kind]
    if ENGINE is not None:
        ensure_axioms(d)
    za, zb = to_z3(a), to_z3(b)
    c = {'<': za < zb, '<=': za <= zb, '>': za > zb, '>=': za >= zb,
         '==': za == zb, '!=': za != zb}[kind]
    return SB(c)


# --------------------------------------------------------- bools, ints ----
class SB(object):
    __slots__ = ('z',)
    __array_priority__ = 1000

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ENGINE.branch(self.z)

    def __and__(self, o):
        if _isarr(o):
            return NotImplemented
        return SB(z3.And(self.z, tobool(o)))

    __rand__ = __and__

    def __or__(self, o):
        if _isarr(o):
            return NotImplemented
        return SB(z3.Or(self.z, tobool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SB(z3.Xor(self.z, tobool(o)))

    def __invert__(self):
        return SB(z3.Not(self.z))

    def logical_not(self):
        return SB(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, bool):
            return SB(self.z == tobool(o))
        return lift(self) == o

    def __ne__(self, o):
        if isinstance(o, bool):
            return SB(z3.Not(self.z == tobool(o)))
        return lift(self) != o

    def __hash__(self):
        return hash(bool(self))

    def _int(self):
        return SI(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __repr__(self):
        return 'SB(%s)' % self.z


def tobool(c):
    t = type(c)
    if t is SB:
        return c.z
    if isinstance(c, z3.BoolRef):
        return c
    return z3.BoolVal(bool(c))


def b_and(*cs):
    return SB(z3.And([tobool(c) for c in cs])) if cs else True


def b_or(*cs):
    return SB(z3.Or([tobool(c) for c in cs])) if cs else False


def b_not(c):
    return SB(z3.Not(tobool(c)))


def b_implies(a, b):
    return SB(z3.Implies(tobool(a), tobool(b)))


class SI(object):
    """Symbolic (mathematical) integer."""
    __slots__ = ('z', 'v')
    __array_priority__ = 1000

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __init__(self, z):
        self.z = z
        self.v = None
        if z3.is_int_value(z):
            self.v = z.as_long()

    @property
    def __class__(self):
        return int

    def _bin(self, o, f, rf=None):
        t = type(o)
        if t is SI:
            return SI(f(self.z, o.z))
        if t is SB:
            return SI(f(self.z, o._int().z))
        if t is SR or t is float:
            return None
        if _isarr(o):
            return NotImplemented
        if isinstance(o, bool):
            return SI(f(self.z, z3.IntVal(int(o))))
        if t is int or (hasattr(o, 'dtype') and o.dtype.kind in 'iu'):
            return SI(f(self.z, z3.IntVal(int(o))))
        if hasattr(o, 'dtype') and o.dtype.kind == 'f':
            return None
        return NotImplemented

    def _do(self, o, f, name, swap=False):
        r = self._bin(o, (lambda a, b: f(b, a)) if swap else f)
        if r is None:
            a, b = lift(self), lift(o)
            if swap:
                a, b = b, a
            return getattr(a, name)(b)
        if r is not NotImplemented and type(r) is SI:
            return SI(z3.simplify(r.z))
        return r

    def __add__(self, o):
        return self._do(o, lambda a, b: a + b, '__add__')

    def __radd__(self, o):
        return self._do(o, lambda a, b: a + b, '__add__', True)

    def __sub__(self, o):
        return self._do(o, lambda a, b: a - b, '__sub__')

    def __rsub__(self, o):
        return self._do(o, lambda a, b: a - b, '__sub__', True)

    def __mul__(self, o):
        if type(o) in (list, tuple, str):
            return o * self.__index__()
        return self._do(o, lambda a, b: a * b, '__mul__')

    def __rmul__(self, o):
        if type(o) in (list, tuple, str):
            return o * self.__index__()
        return self._do(o, lambda a, b: a * b, '__mul__', True)

    def __neg__(self):
        return SI(z3.simplify(-self.z))

    def __pos__(self):
        return self

    def __abs__(self):
        return SI(z3.If(self.z >= 0, self.z, -self.z))

    def __floordiv__(self, o):
        return self._do(o, pydiv, '__floordiv__')

    def __rfloordiv__(self, o):
        return self._do(o, pydiv, '__floordiv__', True)

    def __mod__(self, o):
        return self._do(o, pymod, '__mod__')

    def __rmod__(self, o):
        if type(o) is str:
            return NotImplemented
        return self._do(o, pymod, '__mod__', True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        if _isarr(o):
            return NotImplemented
        if type(o) is SI or type(o) is int:
            if isinstance(o, int) and not (type(o) is SI) and o == 0:
                raise ZeroDivisionError
            if type(o) is SI and bool(o == 0):
                raise ZeroDivisionError('division by zero')
        return lift(self) / lift(o)

    def __rtruediv__(self, o):
        if _isarr(o):
            return NotImplemented
        if bool(self == 0):
            raise ZeroDivisionError('division by zero')
        return lift(o) / lift(self)

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 16:
            r = SI(z3.IntVal(1))
            for _ in range(o):
                r = r * self
            return r
        return lift(self) ** o

    def __rpow__(self, o):
        return lift(o) ** lift(self)

    def _cmp(self, o, f, name):
        t = type(o)
        if t is SI:
            return SB(z3.simplify(f(self.z, o.z)))
        if t is SB:
            return SB(z3.simplify(f(self.z, o._int().z)))
        if t is SR or t is float or (hasattr(o, 'dtype') and not _isarr(o)
                                     and o.dtype.kind == 'f'):
            return getattr(lift(self), name)(o)
        if _isarr(o):
            return NotImplemented
        if isinstance(o, (int, bool)) or hasattr(o, 'dtype'):
            return SB(z3.simplify(f(self.z, z3.IntVal(int(o)))))
        if name == '__eq__':
            return False
        if name == '__ne__':
            return True
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, '__lt__')

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, '__le__')

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, '__ge__')

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, '__eq__')

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, '__ne__')

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        if self.v is not None:
            return self.v
        return ENGINE.concretize(self.z)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    def conjugate(self):
        return self

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def sqrt(self):
        return fn('sqrt', self)

    def item(self):
        return self

    def exp(self):
        return fn('exp', self)

    def log(self):
        return fn('log', self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'SI(%s)' % self.z

    def __format__(self, spec):
        return 'SI'

    def __str__(self):
        return 'SI'


def pydiv(a, b):
    """Python floor division on z3 ints (z3 `/` floors for b>0, ceils b<0)."""
    if z3.is_int_value(b):
        k = b.as_long()
        if k == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if k > 0:
            return a / b
        return (-a) / (-b)
    if ENGINE.branch(b == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    return z3.If(b > 0, a / b, (-a) / (-b))


def pymod(a, b):
    return a - b * pydiv(a, b)


def floor_(a):
    a = lift(a)
    if a.op == 'c':
        return SI(z3.IntVal(math.floor(a.args)))
    if a.op == 'i':
        return SI(a.args[0])
    z = to_z3(a)
    ensure_axioms(z)
    return SI(z3.ToInt(z))


def trunc_(a):
    a = lift(a)
    if a.op == 'c':
        return SI(z3.IntVal(math.trunc(a.args)))
    if a.op == 'i':
        return SI(a.args[0])
    z = to_z3(a)
    ensure_axioms(z)
    return SI(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))


def round_(a):
    """Banker-free approximation is unsound; be exact (ties to even)."""
    a = lift(a)
    if a.op == 'c':
        return SI(z3.IntVal(round(a.args)))
    if a.op == 'i':
        return SI(a.args[0])
    z = to_z3(a)
    ensure_axioms(z)
    f = z3.ToInt(z)
    d = z - z3.ToReal(f)
    half = z3.Q(1, 2)
    return SI(z3.If(d < half, f, z3.If(d > half, f + 1,
                                       z3.If(f % 2 == 0, f, f + 1))))


def ite(c, a, b):
    """Merge two values without forking."""
    if type(c) is not SB:
        return a if c else b
    if z3.is_true(c.z):
        return a
    if z3.is_false(c.z):
        return b
    if type(a) in (SI, int) and type(b) in (SI, int):
        return SI(z3.If(c.z, zint(a), zint(b)))
    if type(a) in (SB, bool) and type(b) in (SB, bool):
        return SB(z3.If(c.z, tobool(a), tobool(b)))
    a, b = lift(a), lift(b)
    if a is b:
        return a
    return mk_ite(c, a, b)


def mk_ite(c, a, b):
    k = ('ite', c.z.get_id(), id(a), id(b))
    n = _intern.get(k)
    if n is None:
        n = SR('ite', (c, a, b))
        _intern[k] = n
    return n


def zint(x):
    if type(x) is SI:
        return x.z
    if type(x) is SB:
        return x._int().z
    return z3.IntVal(int(x))


# ------------------------------------------------------------ autodiff ----
def backprop(seeds, wrt):
    """Reverse-mode derivative of sum(adj_i * node_i) w.r.t. `wrt` vars.

    The derivative of the *forward term DAG* that the real code built; the
    rules for atoms are the mathematical derivatives.
    """
    adj = {}
    nodes = {}
    for n, a in seeds:
        n = lift(n)
        nodes[id(n)] = n
        adj[id(n)] = _add(adj[id(n)], lift(a)) if id(n) in adj else lift(a)
    need = _depends([lift(n) for n, _ in seeds], wrt)
    order = topo([lift(n) for n, _ in seeds])

    def acc(n, g):
        if id(n) not in need:
            return
        adj[id(n)] = _add(adj[id(n)], g) if id(n) in adj else g

    for n in reversed(order):
        g = adj.get(id(n))
        if g is None or (g.op == 'c' and g.args == 0):
            continue
        if n.op == '+':
            acc(n.args[0], g)
            acc(n.args[1], g)
        elif n.op == '*':
            a, b = n.args
            acc(a, _mul(g, b))
            acc(b, _mul(g, a))
        elif n.op == 'inv':
            acc(n.args[0], _neg(_mul(g, _mul(n, n))))
        elif n.op == 'ite':
            c, a, b = n.args
            acc(a, ite(c, g, const(0)))
            acc(b, ite(c, const(0), g))
        elif n.op == 'f':
            nm, a = n.args[0], n.args[1]
            if nm == 'exp':
                acc(a, _mul(g, n))
            elif nm == 'log':
                acc(a, _mul(g, _inv(a)))
            elif nm == 'sqrt':
                acc(a, _mul(g, _inv(_mul(const(2), n))))
            elif nm == 'tanh':
                acc(a, _mul(g, _add(const(1), _neg(_mul(n, n)))))
            elif nm == 'sigmoid':
                acc(a, _mul(g, _mul(n, _add(const(1), _neg(n)))))
            elif id(n) in need:
                raise NotImplementedError('derivative of ' + nm)
    return [adj.get(id(v), const(0)) for v in wrt]


def _depends(roots, wrt):
    ids = set(id(v) for v in wrt)
    need = set()
    for n in topo(roots):
        if id(n) in ids:
            need.add(id(n))
        elif n.op in ('+', '*', 'inv', 'f', 'ite'):
            if any(type(a) is SR and id(a) in need for a in n.args):
                need.add(id(n))
    return need




def _lift_arrays(cls):
    """ndarray <op> scalar: numpy defers to the scalar (array priority), so
    broadcast here; comparisons fork per element like numpy's do."""
    import numpy as np
    arith = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow']
    for base in arith + ['r' + a for a in arith] + ['lt', 'le', 'gt', 'ge',
                                                    'eq', 'ne']:
        name = '__%s__' % base
        orig = cls.__dict__.get(name)
        if orig is None:
            continue

        def g(self, o, orig=orig, base=base):
            if isinstance(o, np.ndarray) and type(o) not in (SR, SI, SB):
                f = np.frompyfunc(lambda x: orig(self, x), 1, 1)
                r = f(o.astype(object))
                if base in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
                    r = np.asarray(r).astype(bool)
                return r
            return orig(self, o)
        g.__name__ = name
        h = cls.__dict__.get('__hash__')
        setattr(cls, name, g)
        if h is not None:
            cls.__hash__ = h


for _c in (SR, SI, SB):
    _lift_arrays(_c)


def _array_ufunc(self, ufunc, method, *inputs, **kwargs):
    """numpy's in-place operators must update the array (a scalar with only
    an array priority would make numpy give the operation up and rebind)."""
    import numpy as np

    def wrap(x):
        if type(x) in _SCALARS:
            a = np.empty((), dtype=object)
            a[()] = x
            return a
        return x
    ins = [wrap(x) for x in inputs]
    if ufunc.nout == 1 and method == '__call__' and not kwargs and \
            ufunc.__name__ in _CMP and len(ins) == 2:
        f = np.frompyfunc(_CMP[ufunc.__name__], 2, 1)
        r = f(*ins)
        if isinstance(r, np.ndarray):
            return r.astype(bool)       # forks per element like numpy's do
        return r
    return getattr(ufunc, method)(*ins, **kwargs)


_CMP = {'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b,
        'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b,
        'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b}
_SCALARS = [SR, SI, SB]
for _c in _SCALARS:
    _c.__array_ufunc__ = _array_ufunc

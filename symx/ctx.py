"""Harness context: the same harness runs symbolically (SymCtx) and, for
replay of counterexamples and validation of the encoding, concretely on the
real build (ConcCtx)."""
import math
import random
import traceback

import numpy as np


class Skip(Exception):
    """concrete run: an assumption of the harness is not met"""


class Failure(Exception):
    """concrete run: a property assertion failed"""


class BaseCtx(object):
    def arr(self, name, shape):
        a = np.empty(shape, dtype=self.dtype)
        for idx in np.ndindex(*a.shape):
            a[idx] = self.real(name + ''.join('_%d' % i for i in idx))
        return a

    def ints(self, name, shape, lo, hi):
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*a.shape):
            a[idx] = self.int(name + ''.join('_%d' % i for i in idx), lo, hi)
        return a

    def choose(self, name, options):
        options = list(options)
        i = int(self.int('choice:' + name, 0, len(options) - 1))
        return options[i]


class ConcCtx(BaseCtx):
    symbolic = False
    dtype = np.float64

    def __init__(self, values, seed=0, tol=1e-6, scale=1.0):
        self.values = values
        self.rnd = random.Random(seed)
        self.used = {}
        self.tol = tol
        self.scale = scale
        self.nchecks = 0
        self.np = np
        self.fresh = 0

    def real(self, name, lo=None, hi=None):
        if name in self.used:
            return self.used[name]
        if name in self.values:
            v = float(self.values[name])
        elif lo is not None and hi is not None:
            v = self.rnd.uniform(float(lo), float(hi))
        else:
            v = self.rnd.uniform(-2, 2) * self.scale
            if lo is not None:
                v = float(lo) + abs(v)
            elif hi is not None:
                v = float(hi) - abs(v)
        self.used[name] = v
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Skip('range of ' + name)
        return v

    def int(self, name, lo, hi):
        if name in self.used:
            return self.used[name]
        if name in self.values:
            v = int(self.values[name])
        else:
            v = self.rnd.randint(lo, lo + 6 if hi is None else hi)
        self.used[name] = v
        if v < lo or (hi is not None and v > hi):
            raise Skip('range of ' + name)
        return v

    def bool(self, name):
        if name in self.used:
            return self.used[name]
        v = bool(self.values[name]) if name in self.values else \
            self.rnd.random() < 0.5
        self.used[name] = v
        return v

    def assume(self, cond):
        if not bool(cond):
            raise Skip('assumption')

    def check(self, cond, label=''):
        self.nchecks += 1
        if not bool(cond):
            raise Failure(label)

    def eq(self, a, b, label='', tol=None):
        self.nchecks += 1
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise Failure('%s: shapes %s != %s' % (label, a.shape, b.shape))
        tol = tol or self.tol
        if a.size and not np.allclose(a, b, rtol=tol, atol=tol):
            raise Failure('%s: %s != %s' % (label, a.tolist(), b.tolist()))

    def fail(self, label):
        self.nchecks += 1
        raise Failure(label)

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not bool(c)

    def Implies(self, a, b):
        return (not bool(a)) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    # math
    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def tanh(self, x):
        return math.tanh(x)

    def sigmoid(self, x):
        if x >= 0:
            return 1 / (1 + math.exp(-x))
        return math.exp(x) / (1 + math.exp(x))

    def to_obj(self, v):
        return np.asarray(v, dtype=self.dtype)

    def note(self, *a):
        pass


class Violation(Exception):
    def __init__(self, label, values):
        Exception.__init__(self, label)
        self.label = label
        self.values = values


class Inconclusive(Exception):
    pass


class SymCtx(BaseCtx):
    symbolic = True
    dtype = object

    def __init__(self, engine):
        from . import core
        self.core = core
        self.e = engine
        self.inputs = {}
        self.nchecks = 0
        from .npproxy import PROXY
        self.np = PROXY

    # -- inputs -----------------------------------------------------------
    def real(self, name, lo=None, hi=None):
        v = self.core.var(name)
        if name not in self.inputs:
            self.inputs[name] = ('real', v)
            z = self.core.to_z3(v)
            if lo is not None:
                self.e.add(z >= self.core.to_z3(self.core.lift(lo)))
            if hi is not None:
                self.e.add(z <= self.core.to_z3(self.core.lift(hi)))
        return v

    def int(self, name, lo, hi):
        import z3
        z = z3.Int(name)
        if name not in self.inputs:
            self.inputs[name] = ('int', z)
            if lo is not None:
                self.e.add(z >= lo)
            if hi is not None:
                self.e.add(z <= hi)
        if lo is not None and lo == hi:
            return self.core.SI(z3.IntVal(lo))
        return self.core.SI(z)

    def bool(self, name):
        import z3
        z = z3.Bool(name)
        self.inputs[name] = ('bool', z)
        return self.core.SB(z)

    def assume(self, cond):
        self.e.assume(cond)

    # -- assertions ---------------------------------------------------------
    def values_from(self, m):
        import z3
        out = {}
        for name, (kind, v) in self.inputs.items():
            z = self.core.to_z3(v) if kind == 'real' else v
            x = m.eval(z, model_completion=True)
            if kind == 'real':
                if z3.is_algebraic_value(x):
                    x = x.approx(20)
                try:
                    out[name] = float(x.as_fraction())
                except OverflowError:
                    out[name] = 0.0
            elif kind == 'int':
                out[name] = x.as_long()
            elif kind == 'fp':
                from .xfloat import tofloat
                out[name] = tofloat(x)
            else:
                out[name] = z3.is_true(x)
        return out

    def pins(self):
        """simple values for floating point inputs: candidate witnesses"""
        fp = [v for k, v in self.inputs.values() if k == 'fp']
        if not fp:
            return []
        from .xfloat import fval
        return [[v == fval((i * q) % 3 - 0.5) for i, v in enumerate(fp)]
                for q in (0.5, 1.25)]

    def prove(self, zneg, label, extra=()):
        """zneg: z3 term that must be unsatisfiable with the path."""
        import z3
        self.nchecks += 1
        self.e.stats.asserts += 1
        self.core.ensure_axioms(zneg)
        r, m = self.e.query(zneg)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            raise Inconclusive('%s: solver unknown' % label)
        if self.core.EXT:
            from .xfloat import refine
            defs = refine(self.e)
            if defs:
                r, m2 = self.e.query(zneg, *defs)
                if r == z3.unsat:
                    return
                m = m2 if r == z3.sat else m
        raise Violation(label, self.values_from(m))

    def check(self, cond, label=''):
        import z3
        c = self.core.tobool(cond)
        self.prove(z3.Not(c), label)

    def fail(self, label):
        import z3
        self.prove(z3.BoolVal(True), label)

    def eq(self, a, b, label='', tol=None):
        a = np.asarray(a, dtype=object)
        b = np.asarray(b, dtype=object)
        if a.shape != b.shape:
            self.fail('%s: shapes %s != %s' % (label, a.shape, b.shape))
        for idx in np.ndindex(*a.shape):
            self.eq1(a[idx], b[idx], '%s%s' % (label, list(idx) or ''))

    def eq1(self, x, y, label):
        import z3
        core = self.core
        self.nchecks += 1
        bad = lambda v: (type(v) is float and (v != v or abs(v) == float('inf')))
        if bad(x) or bad(y):
            if bad(x) and bad(y) and (x != x) == (y != y):
                return
            self.fail(label + ': non-finite')
        x, y = core.lift(x), core.lift(y)
        prove_equal(self, x, y, label)

    def And(self, *cs):
        return self.core.b_and(*cs)

    def Or(self, *cs):
        return self.core.b_or(*cs)

    def Not(self, c):
        return self.core.b_not(c)

    def Implies(self, a, b):
        return self.core.b_implies(a, b)

    def ite(self, c, a, b):
        return self.core.ite(c, a, b)

    def exp(self, x):
        return self.core.fn('exp', x)

    def log(self, x):
        return self.core.fn('log', x)

    def sqrt(self, x):
        return self.core.fn('sqrt', x)

    def tanh(self, x):
        return self.core.fn('tanh', x)

    def sigmoid(self, x):
        return self.core.fn('sigmoid', x)

    def to_obj(self, v):
        a = np.asarray(v)
        o = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            o[i] = self.core.lift(a[i])
        return o

    def note(self, *a):
        pass


def prove_equal(ctx, x, y, label):
    """Ask the solver whether x != y is satisfiable on this path.

    Rational terms are first brought over a common denominator (sound where
    the terms are defined: denominators non-zero)."""
    import z3
    core = ctx.core
    e = ctx.e
    e.stats.asserts += 1
    if x is y:
        # the same hash-consed term: its value cannot differ from itself,
        # whatever it is (and needs neither expansion nor path condition)
        t = _t()
        s = z3.Solver()
        s.add(z3.Not(z3.Real('term!%d' % id(x)) == z3.Real('term!%d' % id(y))))
        r = s.check()
        e.stats.queries += 1
        e.stats.solver_s += _t() - t
        if r != z3.unsat:
            raise Inconclusive(label)
        return
    memo = {}
    nx, dx = ratio(core, x, memo)
    ny, dy = ratio(core, y, memo)
    lhs, rhs = nx * dy, ny * dx
    diff = reduce_sqrt(core, z3.simplify(lhs - rhs, som=True))
    t = _t()
    s = z3.Solver()
    s.set('timeout', 10000 if _is_ground_zero(diff) else 2000)
    s.add(diff != 0)
    r = s.check()
    e.stats.queries += 1
    e.stats.solver_s += _t() - t
    if r == z3.unsat:
        return
    # needs the path condition / axioms
    core.ensure_axioms(diff)
    for d in (dx, dy):
        core.ensure_axioms(d)
    # a separating point with pinned inputs is easy to find when there is one
    vals = guess_point(ctx, [diff != 0, dx != 0, dy != 0])
    if vals is not None:
        raise Violation(label, vals)
    r, m = e.query(diff != 0, dx != 0, dy != 0)
    if r == z3.unsat:
        return
    if r == z3.unknown:
        raise Inconclusive(label + ': solver unknown')
    raise Violation(label, ctx.values_from(m))


def _is_ground_zero(d):
    import z3
    return z3.is_rational_value(d)


def _t():
    import time
    return time.time()


def guess_point(ctx, goal, tries=3):
    import z3
    rnd = random.Random(7)
    ctx.e.solver.set('timeout', 3000)
    try:
        for _ in range(tries):
            pins = []
            for name, (kind, v) in ctx.inputs.items():
                if kind == 'real':
                    pins.append(ctx.core.to_z3(v) ==
                                z3.Q(rnd.randint(-40, 40) or 3, 16))
            r, m = ctx.e.query(*(list(goal) + pins))
            if r == z3.sat:
                return ctx.values_from(m)
    finally:
        ctx.e.solver.set('timeout', ctx.core.SOLVER_TIMEOUT_MS)
    return None


def ratio(core, node, memo):
    """(numerator, denominator) as z3 polynomials over atoms."""
    import z3
    one = z3.RealVal(1)

    def mul(a, b):
        if z3.eq(a, one):
            return b
        if z3.eq(b, one):
            return a
        return z3.simplify(a * b, som=True)
    for n in core.topo([node]):
        if id(n) in memo:
            continue
        if n.op == '+':
            (a, p), (b, q) = memo[id(n.args[0])], memo[id(n.args[1])]
            if z3.eq(p, q):
                r = (z3.simplify(a + b, som=True), p)
            else:
                r = (z3.simplify(a * q + b * p, som=True), mul(p, q))
        elif n.op == '*':
            (a, p), (b, q) = memo[id(n.args[0])], memo[id(n.args[1])]
            if z3.eq(a, q):
                r = (b, p)
            elif z3.eq(b, p):
                r = (a, q)
            else:
                r = (mul(a, b), mul(p, q))
        elif n.op == 'inv':
            a, p = memo[id(n.args[0])]
            r = (p, a)
        elif n.op == 'f':
            core.to_z3(n)
            r = (n._z, one)
        else:
            r = (core.to_z3(n), one)
        memo[id(n)] = r
    return memo[id(node)]


def reduce_sqrt(core, p, rounds=12):
    """Rewrite s*s -> a for sqrt atoms s = sqrt(a) in a polynomial."""
    import z3
    sq = [a for a in core.atoms_of([p], deep=False) if a[1] == 'sqrt']
    if not sq:
        return p
    for _ in range(rounds):
        subs = []
        seen = set()
        stack = [p]
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_mul(t):
                ch = list(t.children())
                ids = [c.get_id() for c in ch]
                new = None
                for s in sq:
                    if ids.count(s[0].get_id()) >= 2:
                        k = 0
                        rest = []
                        for c in ch:
                            if c.get_id() == s[0].get_id() and k < 2:
                                k += 1
                            else:
                                rest.append(c)
                        new = s[2][0]
                        for c in rest:
                            new = new * c
                        break
                if new is not None:
                    subs.append((t, new))
                    continue
            stack.extend(t.children() if z3.is_app(t) and (z3.is_add(t) or z3.is_mul(t)) else [])
        if not subs:
            return p
        p = z3.simplify(z3.substitute(p, *subs), som=True)
    return p

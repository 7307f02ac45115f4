"""IEEE single precision values (z3 FPSort(8,24)), including infinities and
NaN, as array elements.

Comparisons and selections are exact; sums, products and quotients are
summarised by exact facts (special values, signs, magnitudes, exponents), and
their definitions (round to nearest even) are added before a counterexample
counts.
exp, log, tanh and sqrt are summarised by facts that hold for every correctly
implemented single precision version (special values, sign, range, overflow
and underflow thresholds, monotonicity)."""
import math
import time

import numpy as np
import z3

from . import core
from .core import SR, SI, SB

F32 = z3.Float32()
RM = z3.RNE()


def fval(x):
    return z3.FPVal(float(np.float32(x)), F32)


def conv(o):
    """element -> z3 float, or None"""
    t = type(o)
    if t is XF:
        return o.z
    if t is SR:
        if o.op == 'c':
            return fval(float(o.args))
        return None
    if t is SB:
        return z3.If(o.z, fval(1), fval(0))
    if t is SI:
        return fval(o.v) if o.v is not None else None
    if isinstance(o, (bool, int, float, np.integer, np.floating, np.bool_)):
        return fval(o)
    return None


class XF(object):
    __slots__ = ('z', '_n', '__weakref__')
    __array_priority__ = 1000

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return float

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _bin(self, o, f, swap=False):
        if isinstance(o, np.ndarray) and type(o) is not XF:
            return NotImplemented
        z = conv(o)
        if z is None:
            return NotImplemented
        return mkf(f(z, self.z) if swap else f(self.z, z))

    def __add__(self, o):
        return self._bin(o, add)

    def __radd__(self, o):
        return self._bin(o, add, True)

    def __sub__(self, o):
        return self._bin(o, sub)

    def __rsub__(self, o):
        return self._bin(o, sub, True)

    def __mul__(self, o):
        return self._bin(o, mul)

    def __rmul__(self, o):
        return self._bin(o, mul, True)

    def __truediv__(self, o):
        return self._bin(o, div)

    def __rtruediv__(self, o):
        return self._bin(o, div, True)

    def __neg__(self):
        return mkf(z3.fpNeg(self.z), hi(self.z))

    def __pos__(self):
        return self

    def __abs__(self):
        return mkf(z3.fpAbs(self.z), hi(self.z))

    def __pow__(self, n):
        if n == 2:
            return self * self
        if n == 0.5:
            return self.sqrt()
        if n == 1:
            return self
        return NotImplemented

    # -- comparisons ---------------------------------------------------------
    def _cmp(self, o, f, default=None):
        if isinstance(o, np.ndarray) and type(o) is not XF:
            return NotImplemented
        z = conv(o)
        if z is None:
            return NotImplemented if default is None else default
        return mkb(f(self.z, z))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ, False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: z3.Not(z3.fpEQ(a, b)), True)

    def __hash__(self):
        return self.z.hash()

    def __bool__(self):
        return bool(mkb(z3.Not(z3.fpIsZero(self.z))))

    # -- classification ------------------------------------------------------
    def isfinite(self):
        return mkb(z3.Not(z3.Or(z3.fpIsInf(self.z), z3.fpIsNaN(self.z))))

    def isnan(self):
        return mkb(z3.fpIsNaN(self.z))

    def isinf(self):
        return mkb(z3.fpIsInf(self.z))

    def finite(self):
        return z3.Not(z3.Or(z3.fpIsInf(self.z), z3.fpIsNaN(self.z)))

    # -- numpy's maximum / minimum / clip / sign (NaN propagates) ------------
    def max_(self, o):
        b = conv(o)
        a = self.z
        return mkf(z3.If(z3.fpIsNaN(a), a, z3.If(z3.fpIsNaN(b), b, z3.If(
            z3.fpGEQ(a, b), a, b))), max(hi(a), hi(b)))

    def min_(self, o):
        b = conv(o)
        a = self.z
        return mkf(z3.If(z3.fpIsNaN(a), a, z3.If(z3.fpIsNaN(b), b, z3.If(
            z3.fpLEQ(a, b), a, b))), max(hi(a), hi(b)))

    def sign_(self):
        a = self.z
        return mkf(z3.If(z3.fpIsNaN(a), a, z3.If(z3.fpIsZero(a), fval(0), z3.If(
            z3.fpIsNegative(a), fval(-1), fval(1)))), 1. if hi(a) < BIG else math.inf)

    # -- functions -----------------------------------------------------------
    def exp(self):
        return func('exp', self)

    def log(self):
        return func('log', self)

    def tanh(self):
        return func('tanh', self)

    def sqrt(self):
        # exact square roots are expensive to decide; their facts suffice
        return func('sqrt', self)

    def conjugate(self):
        return self

    def item(self):
        return self

    @property
    def real(self):
        return self

    def __float__(self):
        v = z3.simplify(self.z)
        if z3.is_fp_value(v):
            return tofloat(v)
        raise TypeError('symbolic float forced to a concrete one')

    def __repr__(self):
        return 'XF(...)'

    __str__ = __repr__

    def __format__(self, spec):
        return 'XF'


XF.__array_ufunc__ = core._array_ufunc
core._SCALARS.append(XF)

_hi = {}         # id of a term -> (term, bound of the magnitude)
BIG = 3e38


def hi(z):
    """proved upper bound of the magnitude of a term (then it is finite)"""
    r = _hi.get(z.get_id())
    if r is not None:
        return r[1]
    if z3.is_fp_value(z):
        v = tofloat(z)
        return abs(v) if math.isfinite(v) else math.inf
    return math.inf


def sethi(z, b):
    if b < BIG:
        _hi[z.get_id()] = (z, b)


def mkf(z, bound=math.inf):
    bound = min(bound, hi(z))
    z = z3.simplify(z)
    if bound < hi(z):
        sethi(z, bound)
    return XF(z)


def mkb(z):
    return SB(z3.simplify(z))


def tofloat(v):
    """z3 floating point literal -> python float"""
    if v.isNaN():
        return float('nan')
    if v.isInf():
        return float('-inf') if v.isNegative() else float('inf')
    if v.isZero():
        return -0.0 if v.isNegative() else 0.0
    bits = z3.simplify(z3.fpToIEEEBV(v)).as_long()
    return float(np.frombuffer(np.array([bits], dtype=np.uint32).tobytes(),
                               dtype=np.float32)[0])


def expo(z):
    return z3.ZeroExt(3, z3.Extract(30, 23, z3.fpToIEEEBV(z)))


def easy(z):
    """literals that cost nothing to multiply with"""
    if not z3.is_fp_value(z):
        return False
    f = tofloat(z)
    return f == 0 or f in (1.0, -1.0, 0.5, 2.0)


def bv_(n):
    return z3.BitVecVal(n, 11)


def _facts(kind, a, b, r):
    nan, inf, zero = z3.fpIsNaN, z3.fpIsInf, z3.fpIsZero
    A, B, R = z3.fpAbs(a), z3.fpAbs(b), z3.fpAbs(r)
    I, And, Or, Not = z3.Implies, z3.And, z3.Or, z3.Not
    one = fval(1)
    ab = Not(Or(nan(a), nan(b)))
    if kind == 'add':
        mx = z3.If(z3.fpGEQ(A, B), A, B)
        fin = And(ab, Not(inf(a)), Not(inf(b)))
        same = z3.fpIsNegative(a) == z3.fpIsNegative(b)
        nb = z3.fpNeg(b)
        em = expo(mx)
        return [nan(r) == Or(Not(ab), And(inf(a), inf(b), Not(same))),
                I(And(Not(nan(r)), Or(inf(a), inf(b))), inf(r)),
                I(And(ab, z3.fpGEQ(a, nb)), Or(nan(r), z3.fpGEQ(r, fval(0)))),
                I(And(ab, z3.fpLEQ(a, nb)), Or(nan(r), z3.fpLEQ(r, fval(0)))),
                I(And(fin, Not(a == nb), Not(And(zero(a), zero(b)))),
                  Not(zero(r))),
                I(And(fin, z3.fpEQ(a, nb)), zero(r)),
                I(And(ab, z3.fpGEQ(b, fval(0))), Or(nan(r), z3.fpGEQ(r, a))),
                I(And(ab, z3.fpLEQ(b, fval(0))), Or(nan(r), z3.fpLEQ(r, a))),
                I(And(ab, z3.fpGEQ(a, fval(0))), Or(nan(r), z3.fpGEQ(r, b))),
                I(And(ab, z3.fpLEQ(a, fval(0))), Or(nan(r), z3.fpLEQ(r, b))),
                I(And(ab, zero(b)), Or(nan(r), z3.fpEQ(r, a))),
                I(And(ab, zero(a)), Or(nan(r), z3.fpEQ(r, b))),
                I(And(fin, same), z3.fpGEQ(R, mx)),
                I(And(fin, Not(same)), z3.fpLEQ(R, mx)),
                I(And(fin, z3.ULE(em, bv_(253))), z3.ULE(expo(r), em + 1))]
    neg = z3.Xor(z3.fpIsNegative(a), z3.fpIsNegative(b))
    out = [I(And(Not(nan(r)), ab), z3.fpIsNegative(r) == neg)]
    ea, eb, er = expo(a), expo(b), expo(r)
    bv = bv_
    norm = And(z3.fpIsNormal(a), z3.fpIsNormal(b))
    if kind == 'mul':
        out += [nan(r) == Or(Not(ab), And(inf(a), zero(b)),
                             And(zero(a), inf(b))),
                I(And(Not(nan(r)), Or(inf(a), inf(b))), inf(r)),
                I(And(Not(nan(r)), Or(zero(a), zero(b))), zero(r)),
                I(And(ab, z3.fpLEQ(A, one)), Or(nan(r), z3.fpLEQ(R, B))),
                I(And(ab, z3.fpLEQ(B, one)), Or(nan(r), z3.fpLEQ(R, A))),
                I(And(ab, z3.fpGEQ(A, one)), Or(nan(r), z3.fpGEQ(R, B))),
                I(And(ab, z3.fpGEQ(B, one)), Or(nan(r), z3.fpGEQ(R, A))),
                I(And(ab, A == one), Or(nan(r), R == B)),
                I(And(ab, B == one), Or(nan(r), R == A))]
        s = ea + eb - bv(127)
        # the exponent of the result is s or s + 1
        out += [I(And(norm, s >= bv(255)), inf(r)),
                I(And(norm, s == bv(254)), Or(inf(r), er == bv(254))),
                I(And(norm, s >= bv(1), s < bv(254)),
                  Or(er == s, er == s + 1)),
                I(And(norm, s < bv(1)), z3.ULE(er, bv(1)))]
    else:
        out += [nan(r) == Or(Not(ab), And(inf(a), inf(b)),
                             And(zero(a), zero(b))),
                I(And(Not(nan(r)), Or(inf(a), zero(b))), inf(r)),
                I(And(Not(nan(r)), Or(zero(a), inf(b))), zero(r)),
                I(And(ab, z3.fpGEQ(B, one)), Or(nan(r), z3.fpLEQ(R, A))),
                I(And(ab, z3.fpLEQ(B, one)), Or(nan(r), z3.fpGEQ(R, A))),
                I(And(ab, z3.fpLEQ(A, B)), Or(nan(r), z3.fpLEQ(R, one))),
                I(And(ab, z3.fpGEQ(A, B)), Or(nan(r), z3.fpGEQ(R, one))),
                I(And(ab, A == B), Or(nan(r), R == one)),
                I(And(ab, B == one), Or(nan(r), R == A))]
        s = ea - eb + bv(127)
        # the exponent of the result is s - 1 or s
        out += [I(And(norm, s >= bv(256)), inf(r)),
                I(And(norm, s == bv(255)), Or(inf(r), er == bv(254))),
                I(And(norm, s >= bv(2), s <= bv(254)),
                  Or(er == s, er == s - 1)),
                I(And(norm, s < bv(2)), z3.ULE(er, bv(1)))]
    return out


_ops = {}


def _op(kind, f, a, b):
    if kind == 'add' and not (z3.is_fp_value(a) and z3.is_fp_value(b)):
        pass
    elif easy(a) or easy(b) or (z3.is_fp_value(a) and z3.is_fp_value(b)):
        if not (kind == 'div' and easy(a)) or z3.is_fp_value(b):
            z = f(RM, a, b)
            if kind == 'mul' and max(hi(a), hi(b)) < BIG:
                sethi(z, hi(a) * hi(b) * (1 + 1e-6) + 1e-38)
            return z
    if kind != 'div' and b.get_id() < a.get_id():
        a, b = b, a
    k = (kind, a.get_id(), b.get_id())
    if k not in _ops:
        _ops[k] = (z3.FP('%s!o%d' % (kind, len(_ops)), F32), a, b)
    r = _ops[k][0]
    eng = core.ENGINE
    key = ('xo', r.get_id())
    if key not in eng.side_keys:
        eng.side_keys.add(key)
        for i, c in enumerate(_facts(kind, a, b, r)):
            eng.add_side(('xo', r.get_id(), i), c)
        if not hasattr(eng, 'xdefs') or eng.xpath is not eng.side_keys:
            eng.xdefs, eng.xpath = [], eng.side_keys
        eng.xdefs.append(r == f(RM, a, b))
        # interval bounds: rounding adds less than a factor 1 + 2**-23
        u = {'add': lambda: hi(a) + hi(b),
             'mul': lambda: hi(a) * hi(b) if max(hi(a), hi(b)) < BIG
             else math.inf,
             'div': lambda: math.inf}[kind]() * (1 + 1e-6) + 1e-38
        if u < BIG:
            u = float(np.nextafter(np.float32(u), np.float32(np.inf)))
            sethi(r, u)
            eng.add_side(('xh', r.get_id()), z3.fpLEQ(z3.fpAbs(r), fval(u)))
    return r


def add(a, b):
    return _op('add', z3.fpAdd, a, b)


def sub(a, b):
    n = z3.simplify(z3.fpNeg(b))
    if hi(b) < hi(n):
        sethi(n, hi(b))
    return _op('add', z3.fpAdd, a, n)


def mul(a, b):
    return _op('mul', z3.fpMul, a, b)


def div(a, b):
    return _op('div', z3.fpDiv, a, b)


def refine(eng):
    """definitions of the summarised products and quotients"""
    if getattr(eng, 'xpath', None) is eng.side_keys:
        return eng.xdefs
    return []


def _fn_facts(name, a, r):
    nan, inf = z3.fpIsNaN, z3.fpIsInf
    fin = z3.Not(z3.Or(nan(a), inf(a)))
    I = z3.Implies
    if name == 'exp':
        ax = [nan(r) == nan(a),
              I(z3.Not(nan(a)), z3.fpGEQ(r, fval(0))),
              I(z3.fpGEQ(a, fval(88.8)), inf(r)),
              I(z3.fpLEQ(a, fval(88.7)), z3.Not(inf(r))),
              I(z3.fpLEQ(a, fval(0)), z3.fpLEQ(r, fval(1))),
              I(z3.fpGEQ(a, fval(0)), z3.fpGEQ(r, fval(1))),
              I(z3.fpIsZero(a), r == fval(1)),
              I(z3.fpLEQ(a, fval(-105)), z3.fpIsZero(r)),
              I(z3.fpGEQ(a, fval(-87)), z3.fpGEQ(r, fval(1e-38))),
              z3.Not(z3.fpIsNegative(r))]
    elif name == 'log':
        ax = [I(z3.Or(nan(a), z3.fpLT(a, fval(0))), nan(r)),
              I(z3.fpIsZero(a), z3.And(inf(r), z3.fpIsNegative(r))),
              I(z3.And(inf(a), z3.fpGT(a, fval(0))),
                z3.And(inf(r), z3.fpGT(r, fval(0)))),
              I(z3.And(fin, z3.fpGT(a, fval(0))), z3.And(
                  z3.fpGEQ(r, fval(-104)), z3.fpLEQ(r, fval(89)))),
              I(z3.And(fin, z3.fpGT(a, fval(0)), z3.fpLEQ(a, fval(1))),
                z3.fpLEQ(r, fval(0))),
              I(z3.fpGEQ(a, fval(1)), z3.fpGEQ(r, fval(0))),
              I(a == fval(1), r == fval(0)),
              I(z3.fpGEQ(a, fval(9.9e-7)), z3.fpGEQ(r, fval(-14)))]
    elif name == 'tanh':
        ax = [nan(r) == nan(a),
              I(z3.Not(nan(a)), z3.And(z3.fpGEQ(r, fval(-1)),
                                       z3.fpLEQ(r, fval(1)))),
              I(z3.fpGEQ(a, fval(0)), z3.fpGEQ(r, fval(0))),
              I(z3.fpLEQ(a, fval(0)), z3.fpLEQ(r, fval(0))),
              I(z3.fpGEQ(a, fval(10)), r == fval(1)),
              I(z3.fpLEQ(a, fval(-10)), r == fval(-1))]
    elif name == 'sqrt':
        ax = [nan(r) == z3.Or(nan(a), z3.fpLT(a, fval(0))),
              I(z3.fpGEQ(a, fval(0)), z3.fpGEQ(r, fval(0))),
              inf(r) == z3.And(inf(a), z3.fpGT(a, fval(0))),
              I(z3.fpIsZero(a), z3.fpIsZero(r)),
              I(z3.fpGEQ(a, fval(1)), z3.And(z3.fpGEQ(r, fval(1)),
                                             z3.fpLEQ(r, a))),
              I(z3.And(z3.fpGEQ(a, fval(0)), z3.fpLEQ(a, fval(1))), z3.And(
                  z3.fpLEQ(r, fval(1)), z3.fpGEQ(r, a))),
              # 9.99e-7**0.5 and the like
              I(z3.fpGEQ(a, fval(1e-16)), z3.fpGEQ(r, fval(1e-8))),
              I(z3.And(fin, z3.fpGEQ(a, fval(0))), z3.fpLEQ(r, fval(2e19)))]
    return ax


_fns = {}


def func(name, x):
    a = x.z
    k = (name, a.get_id())
    v = z3.simplify(a)
    if z3.is_fp_value(v):
        f = np.float32(tofloat(v))
        with np.errstate(all='ignore'):
            return XF(z3.FPVal(float(getattr(np, name)(f)), F32))
    eng = core.ENGINE
    if k not in _fns:
        _fns[k] = (z3.FP('%s!f%d' % (name, len(_fns)), F32), a)
    r = _fns[k][0]
    key = ('xf', r.get_id())
    if key in eng.side_keys:
        return XF(r)
    eng.side_keys.add(key)
    ax = _fn_facts(name, a, r)
    nan, I = z3.fpIsNaN, z3.Implies
    for i, c in enumerate(ax):
        eng.add_side(('xf', r.get_id(), i), c)
    for (nm, _), (v, b) in list(_fns.items()):
        if nm == name and v is not r and ('xf', v.get_id()) in eng.side_keys:
            eng.add_side(('xfm', r.get_id(), v.get_id()), z3.And(
                I(z3.fpLEQ(a, b), z3.Or(nan(r), nan(v), z3.fpLEQ(r, v))),
                I(z3.fpLEQ(b, a), z3.Or(nan(r), nan(v), z3.fpLEQ(v, r)))))
    if name == 'tanh' and hi(a) < BIG:
        sethi(r, 1.)
    return XF(r)


core.EXT = (XF,)


# ---------------------------------------------------------------- harness --
def contract(ctx, name, x, lo, top):
    r = np.empty(x.shape, dtype=object)
    eng = core.ENGINE
    for i in np.ndindex(*x.shape):
        a = conv(x[i])
        # one variable per (path-independent) position of the call
        ctx._fresh = getattr(ctx, '_fresh', 0) + 1
        v = z3.FP('%s!c%d' % (name, ctx._fresh), F32)
        t = fval(top) if top is not None else z3.If(
            z3.fpGEQ(a, fval(0)), a, fval(0))
        ok = z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsInf(a)))
        eng.add(z3.Implies(ok, z3.And(z3.fpGEQ(v, fval(lo)), z3.fpLEQ(v, t))))
        if hi(a) < BIG:
            sethi(v, max(1., hi(a) if top is None else 1.))
        r[i] = XF(v)
    return r


def handler(ctx, abstract=False):
    """a single precision NumpyHandler"""
    from brainstorm.handlers import NumpyHandler
    if not ctx.symbolic:
        return NumpyHandler(np.float32)
    core.FINFO = np.float32

    class Single(NumpyHandler):
        if abstract:
            # contracts of these functions, discharged by their own cases
            def sigmoid(self, x, y):
                y[:] = contract(ctx, 'sigmoid', x, 0., 1.)

            def softmax_m(self, m, out):
                out[:] = contract(ctx, 'softmax', m, 0., 1.)

            def el(self, x, y):
                y[:] = contract(ctx, 'el', x, -1., None)
    h = Single(object)
    h.EMPTY = np.zeros(0, dtype=object)
    return h


def real(ctx, name, lim=None, lo=None, hi=None):
    """an arbitrary finite float32 in a range, or any float32 with lim=None"""
    if not ctx.symbolic:
        v = ctx.values.get(name)
        if v is None:
            r = ctx.rnd
            pick = r.random()
            if pick < .3:
                v = r.uniform(-3, 3)
            elif pick < .45:
                v = 0.0
            else:
                v = r.choice([-1, 1]) * 10 ** r.uniform(-3, 38)
            if lim is not None:
                v = max(-lim, min(lim, v))
            if lo is not None:
                v = max(lo, v)
            if hi is not None:
                v = min(hi, v)
        v = float(np.float32(v))
        ctx.used[name] = v
        return np.float32(v)
    z = z3.FP(name, F32)
    b = lim if lim is not None else max(abs(lo), abs(hi)) if None not in (
        lo, hi) else math.inf
    sethi(z, float(np.nextafter(np.float32(b), np.float32(np.inf))))
    if name not in ctx.inputs:
        ctx.inputs[name] = ('fp', z)
        if lim is not None:
            ctx.e.add(z3.fpLEQ(z3.fpAbs(z), fval(lim)))
        if lo is not None:
            ctx.e.add(z3.fpGEQ(z, fval(lo)))
        if hi is not None:
            ctx.e.add(z3.fpLEQ(z, fval(hi)))
    return XF(z)


def arr(ctx, name, shape, **kw):
    a = np.empty(shape, dtype=object if ctx.symbolic else np.float32)
    for i in np.ndindex(*a.shape):
        a[i] = real(ctx, name + ''.join('_%d' % k for k in i), **kw)
    return a


bound_of = hi


def finite(ctx, a, label):
    """every element is neither infinite nor NaN"""
    a = np.asarray(a)
    for i in np.ndindex(*a.shape):
        v = a[i]
        if ctx.symbolic and type(v) is XF:
            u = bound_of(v.z)
            if u < BIG:
                # the interval fact alone decides
                t = time.time()
                s = z3.Solver()
                s.add(z3.fpLEQ(z3.fpAbs(v.z), fval(u)), z3.Not(v.finite()))
                r = s.check()
                ctx.nchecks += 1
                ctx.e.stats.asserts += 1
                ctx.e.stats.queries += 1
                ctx.e.stats.solver_s += time.time() - t
                if r == z3.unsat:
                    continue
            ctx.check(SB(v.finite()), '%s%s is finite' % (label, list(i)))
        else:
            ctx.check(bool(np.isfinite(float(v))), '%s%s is finite' % (
                label, list(i)))


def within(ctx, a, lo, hi, label):
    a = np.asarray(a)
    for i in np.ndindex(*a.shape):
        v = a[i]
        if not ctx.symbolic:
            v = float(v)
        ctx.check(ctx.And(v >= lo, v <= hi), '%s%s is in [%s, %s]' % (
            label, list(i), lo, hi))


def selftest(n=60):
    """the facts hold for numpy's single precision arithmetic"""
    rng = np.random.RandomState(0)
    special = [0., -0., 1., -1., 1e-6, 88.7, 88.72, 88.8, -87., -104., 2.,
               1e-45, 1.2e-38, 3.4028234e38, -3.4028234e38, np.inf, -np.inf,
               np.nan, 0.5, 0.9999999, 1.0000001]
    bits = rng.randint(0, 2 ** 32, n, dtype=np.uint64).astype(np.uint32)
    vals = [np.float32(v) for v in special] + list(bits.view(np.float32)) + \
        [np.float32(v) for v in rng.randn(20)]
    bad = []

    def lit(v):
        return z3.FPVal(float(v), F32)

    def test(what, facts):
        for i, c in enumerate(facts):
            if not z3.is_true(z3.simplify(c)):
                bad.append('%s: fact %d' % (what, i))
    with np.errstate(all='ignore'):
        for name in ('exp', 'log', 'tanh', 'sqrt'):
            for v in vals:
                test('%s(%r)' % (name, v), _fn_facts(
                    name, lit(v), lit(getattr(np, name)(v))))
        for k in range(400):
            a, b = [vals[i] for i in rng.randint(0, len(vals), 2)]
            if k % 5 == 0:
                b = -a
            for kind, r in (('add', a + b), ('mul', a * b), ('div', a / b)):
                test('%s(%r, %r)' % (kind, a, b), _facts(
                    kind, lit(a), lit(b), lit(r)))
    return bad

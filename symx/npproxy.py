"""A stand-in for the name `np` inside brainstorm's modules.

Everything is delegated to the real numpy; only operations whose object-dtype
loops do not work on terms are replaced by element-wise equivalents, and float
allocations become object arrays (so terms can be stored in them).
"""
import builtins
import sys
import types

import numpy

from . import core
from .core import SR, SI, SB, lift


def _is_sym(x):
    return type(x) in (SR, SI, SB) or type(x) in core.EXT


def _objarr(x):
    return type(x) is numpy.ndarray and x.dtype == object


def _has_sym(x):
    if _is_sym(x) or _objarr(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(i) for i in x)
    return False


def L(x):
    """lift an element, keep specials (nan/inf/None) as they are"""
    if type(x) is SR or x is None or type(x) in core.EXT:
        return x
    if isinstance(x, float) and x != x or x in (float('inf'), float('-inf')):
        return x
    return lift(x)


def _toobj(x):
    if _objarr(x):
        return x
    if _is_sym(x):
        a = numpy.empty((), dtype=object)
        a[()] = x
        return a
    a = numpy.asarray(x)
    return a.astype(object)


def elementwise(f, *arrs, **kw):
    out = kw.pop('out', None)
    if isinstance(out, tuple):
        out = out[0]
    where = kw.pop('where', True)
    arrs = [_toobj(a) for a in arrs]
    b = numpy.broadcast(*arrs) if len(arrs) > 1 else arrs[0]
    res = numpy.empty(b.shape, dtype=object)
    bs = numpy.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    for idx in numpy.ndindex(*b.shape):
        res[idx] = f(*[a[idx] for a in bs])
    if where is not True:
        assert out is not None
        out[where] = res[where]
        return out
    if out is not None:
        out[...] = res
        return out
    if res.shape == ():
        return res[()]
    return res


def _unary(name, f):
    real = getattr(numpy, name)

    def g(x, *args, **kw):
        if not _has_sym(x):
            out = args[0] if args else kw.get('out')
            if not (out is not None and _has_sym(out)):
                return real(x, *args, **kw)
        if args:
            kw['out'] = args[0]
        kw.pop('dtype', None)
        return elementwise(f, x, **kw)
    return g


def _sign(x):
    x = L(x)
    if type(x) in core.EXT:
        return x.sign_()
    if x > 0:
        return core.const(1)
    if x < 0:
        return core.const(-1)
    return core.const(0)


def _isfinite(x):
    if type(x) in core.EXT:
        return bool(x.isfinite())
    return not (isinstance(x, float) and not _is_sym(x) and
                (x != x or x in (float('inf'), float('-inf'))))


def _isnan(x):
    if type(x) in core.EXT:
        return bool(x.isnan())
    return isinstance(x, float) and not _is_sym(x) and x != x


def _isinf(x):
    if type(x) in core.EXT:
        return bool(x.isinf())
    return isinstance(x, float) and not _is_sym(x) and \
        x in (float('inf'), float('-inf'))


def _max2(x, y):
    for a, b in ((x, y), (y, x)):
        if type(a) in core.EXT:
            return a.max_(b)
    return x if L(x) >= L(y) else y


def _min2(x, y):
    for a, b in ((x, y), (y, x)):
        if type(a) in core.EXT:
            return a.min_(b)
    return x if L(x) <= L(y) else y


def _nanaware(f):
    def g(x):
        x = L(x)
        if type(x) is not SR and type(x) not in core.EXT:
            return float('nan')
        return f(x)
    return g


def _domain(name):
    def f(x):
        if type(x) in core.EXT:
            return getattr(x, name)()
        return core.fn(name, x)
    return f


# while set, terms put into single precision come out changed (files, C25)
NARROW = [False]


def _narrowed(a, dtype):
    if NARROW[0] and getattr(dtype, '__name__', dtype) in \
            ('float32', 'single', 'float16', 'half', 'f4', 'f2', '<f4'):
        out = [v * (1 + 2.0 ** -30) for v in a.ravel()]
        return numpy.array(out + [None], dtype=object)[:-1].reshape(a.shape)
    return a


def _is_floatish(dtype):
    if dtype is None:
        return True
    try:
        return numpy.dtype(dtype).kind in 'fO'
    except TypeError:
        return False


def _filled(shape, val):
    a = numpy.empty(shape, dtype=object)
    a.fill(val)
    return a


def _einsum(spec, ops):
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise TypeError('einsum with an ellipsis on terms')
    if '->' in spec:
        ins, res = spec.split('->')
    else:
        ins = spec
        res = ''.join(sorted(c for c in set(ins.replace(',', ''))
                             if ins.count(c) == 1))
    ins = ins.split(',')
    size = {}
    if len(ins) != len(ops):
        raise ValueError('einsum: number of operands')
    for labels, a in zip(ins, ops):
        if len(labels) != a.ndim:
            raise ValueError('einsum: number of subscripts')
        for c, n in zip(labels, a.shape):
            if size.setdefault(c, n) != n and n != 1 and size[c] != 1:
                raise ValueError('einsum: dimensions differ')
            size[c] = max(size[c], n)
    red = [c for c in size if c not in res]
    out = numpy.empty([size[c] for c in res], dtype=object)
    for idx in numpy.ndindex(*out.shape):
        env = dict(zip(res, idx))
        tot = core.const(0)
        for ridx in numpy.ndindex(*[size[c] for c in red]):
            env.update(zip(red, ridx))
            p = None
            for labels, a in zip(ins, ops):
                v = a[tuple(env[c] if n > 1 else 0
                            for c, n in zip(labels, a.shape))]
                p = v if p is None else p * v
            tot = tot + p
        out[idx] = tot
    return out if out.shape else out[()]


def _floattype(real):
    """Stands for a numpy float type: conversion keeps terms (arrays become
    object arrays), everything else is the real type."""
    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real)

        def __subclasscheck__(cls, o):
            return issubclass(o, real)

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)

        def __getattr__(cls, k):
            return getattr(real, k)

        def __call__(cls, *a, **kw):
            if a and _has_sym(a[0]):
                return lift(a[0]) if _is_sym(a[0]) else _toobj(a[0])
            return real(*a, **kw)
    return Meta(real.__name__, (object,), {'dtype': numpy.dtype(object)})


class NP(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        E = self.__dict__
        E['float64'] = E['double'] = E['float_'] = _floattype(numpy.float64)
        E['float32'] = E['single'] = _floattype(numpy.float32)
        for nm in ('exp', 'log', 'sqrt', 'tanh'):
            E[nm] = _unary(nm, _nanaware(_domain(nm)))
        E['abs'] = E['absolute'] = _unary('abs', lambda x: abs(L(x)))
        E['fabs'] = _unary('fabs', lambda x: abs(L(x)))
        E['sign'] = _unary('sign', _sign)
        E['expm1'] = _unary('expm1', _nanaware(lambda x: _domain('exp')(x) -
                                               1))
        E['log1p'] = _unary('log1p', _nanaware(lambda x: _domain('log')(1 +
                                                                        x)))
        E['positive'] = _unary('positive', lambda x: L(x))
        E['sinh'] = _unary('sinh', _nanaware(lambda x: (
            _domain('exp')(x) - _domain('exp')(-x)) / 2))
        E['cosh'] = _unary('cosh', _nanaware(lambda x: (
            _domain('exp')(x) + _domain('exp')(-x)) / 2))
        E['trunc'] = E['fix'] = _unary('trunc', lambda x: lift(
            core.trunc_(L(x))))
        E['square'] = _unary('square', lambda x: L(x) * L(x))
        E['reciprocal'] = _unary('reciprocal', lambda x: 1 / L(x))
        E['negative'] = _unary('negative', lambda x: -L(x))
        E['floor'] = _unary('floor', lambda x: lift(core.floor_(x)))
        E['ceil'] = _unary('ceil', lambda x: -lift(core.floor_(-L(x))))
        E['rint'] = _unary('rint', lambda x: lift(core.round_(x)))
        E['round'] = E['around'] = _unary('round',
                                          lambda x: lift(core.round_(x)))

        def boolfn(name, f):
            real = getattr(numpy, name)

            def g(x, *a, **k):
                if not _has_sym(x):
                    return real(x, *a, **k)
                r = elementwise(f, x)
                if type(r) is numpy.ndarray:
                    return r.astype(bool)
                return r
            return g
        E['isfinite'] = boolfn('isfinite', _isfinite)
        E['isnan'] = boolfn('isnan', _isnan)
        E['isinf'] = boolfn('isinf', _isinf)

        def logic(name, f):
            real = getattr(numpy, name)

            def g(*a, **k):
                if not any(_has_sym(x) for x in a[:2]):
                    return real(*a, **k)
                r = elementwise(f, *a)
                if type(r) is numpy.ndarray:
                    return r.astype(bool)
                return r
            return g
        E['logical_xor'] = logic('logical_xor',
                                 lambda x, y: bool(x) != bool(y))
        E['logical_and'] = logic('logical_and',
                                 lambda x, y: bool(x) and bool(y))
        E['logical_or'] = logic('logical_or',
                                lambda x, y: bool(x) or bool(y))
        E['logical_not'] = logic('logical_not', lambda x: not bool(x))

        def fmod(a, b, *args, **kw):
            if not (_has_sym(a) or _has_sym(b)):
                return numpy.fmod(a, b, *args, **kw)
            if args:
                kw['out'] = args[0]
            return elementwise(lambda x, y: L(x).fmod(L(y)), a, b, **kw)
        E['fmod'] = fmod

        def maximum(a, b, *args, **kw):
            if not (_has_sym(a) or _has_sym(b)):
                return numpy.maximum(a, b, *args, **kw)
            if args:
                kw['out'] = args[0]
            return elementwise(_max2, a, b, **kw)

        def minimum(a, b, *args, **kw):
            if not (_has_sym(a) or _has_sym(b)):
                return numpy.minimum(a, b, *args, **kw)
            if args:
                kw['out'] = args[0]
            return elementwise(_min2, a, b, **kw)
        E['maximum'] = E['fmax'] = maximum
        E['minimum'] = E['fmin'] = minimum

        def clip(a, lo, hi, out=None, **kw):
            if not (_has_sym(a) or _has_sym(lo) or _has_sym(hi)):
                return numpy.clip(a, lo, hi, out, **kw)

            def c(x, l, h):
                if type(x) in core.EXT:
                    if l is not None:
                        x = x.max_(l)
                    if h is not None:
                        x = x.min_(h)
                    return x
                if l is not None and x < l:
                    x = l
                if h is not None and x > h:
                    x = h
                return x
            return elementwise(c, a, lo, hi, out=out)
        E['clip'] = clip

        def divide(a, b, *args, **kw):
            if not (_has_sym(a) or _has_sym(b)):
                return numpy.divide(a, b, *args, **kw)
            if args:
                kw['out'] = args[0]
            return elementwise(lambda x, y: L(x) / L(y), a, b, **kw)
        E['divide'] = E['true_divide'] = divide

        def power(a, b, *args, **kw):
            if not (_has_sym(a) or _has_sym(b)):
                return numpy.power(a, b, *args, **kw)
            if args:
                kw['out'] = args[0]
            return elementwise(lambda x, y: L(x) ** y, a, b, **kw)
        E['power'] = power

        def zeros(shape, dtype=None, order='C', **kw):
            if _is_floatish(dtype):
                return _filled(shape, core.const(0))
            return numpy.zeros(shape, dtype, order)

        def ones(shape, dtype=None, order='C', **kw):
            if _is_floatish(dtype):
                return _filled(shape, core.const(1))
            return numpy.ones(shape, dtype, order)

        def empty(shape, dtype=None, order='C', **kw):
            if _is_floatish(dtype):
                return _filled(shape, core.var('__uninit'))
            return numpy.empty(shape, dtype, order)

        def full(shape, v, dtype=None, order='C', **kw):
            if _is_floatish(dtype):
                return _filled(shape, L(v) if not _has_sym(v) else v)
            return numpy.full(shape, v, dtype, order)

        def eye(n, m=None, k=0, dtype=float, **kw):
            r = numpy.eye(n, m, k)
            if _is_floatish(dtype):
                o = _filled(r.shape, core.const(0))
                o[r == 1] = core.const(1)
                return o
            return r.astype(dtype)
        E['zeros'], E['ones'], E['empty'], E['eye'] = zeros, ones, empty, eye
        E['full'] = full

        def like(real, mk):
            def g(a, dtype=None, *args, **kw):
                a_ = numpy.asarray(a)
                if dtype is None and a_.dtype.kind in 'fO' or \
                        dtype is not None and _is_floatish(dtype):
                    return mk(kw.get('shape') or a_.shape)
                return real(a, dtype, *args, **kw)
            return g
        E['zeros_like'] = like(numpy.zeros_like, zeros)
        E['ones_like'] = like(numpy.ones_like, ones)
        E['empty_like'] = like(numpy.empty_like, empty)

        def array(x, dtype=None, **kw):
            if _has_sym(x) and dtype is not None and _is_floatish(dtype):
                return _narrowed(numpy.array(x, dtype=object, **kw), dtype)
            elif _has_sym(x) and dtype is not None:
                k = numpy.dtype(dtype).kind
                a = numpy.array(x, dtype=object)
                return a.astype(dtype)
            return numpy.array(x, dtype=dtype, **kw)

        def asarray(x, dtype=None, **kw):
            if _has_sym(x) and dtype is not None and _is_floatish(dtype):
                return _narrowed(numpy.asarray(x, dtype=object, **kw), dtype)
            return numpy.asarray(x, dtype=dtype, **kw)
        E['array'], E['asarray'] = array, asarray

        def ascontiguousarray(x, dtype=None):
            if _has_sym(x) and dtype is not None and _is_floatish(dtype):
                dtype = object
            return numpy.ascontiguousarray(x, dtype=dtype)
        E['ascontiguousarray'] = ascontiguousarray

        def copyto(dst, src, casting='same_kind', where=True):
            return numpy.copyto(dst, src, casting=casting, where=where)
        E['copyto'] = copyto

        def allclose(a, b, *args, **kw):
            if not (_has_sym(a) or _has_sym(b)):
                return numpy.allclose(a, b, *args, **kw)
            raise TypeError('allclose on terms')
        E['allclose'] = allclose

        def nansafe_mean(real):
            def g(a, axis=None, dtype=None, out=None, **kw):
                if dtype is not None and _has_sym(a):
                    dtype = None
                return real(a, axis=axis, dtype=dtype, out=out, **kw)
            return g
        E['mean'] = nansafe_mean(numpy.mean)
        E['sum'] = self._sum

        def dot(a, b, out=None):
            if (_objarr(a) or _objarr(b)) and 0 in (numpy.shape(a) +
                                                    numpy.shape(b)):
                # numpy's object dot yields None for empty contractions
                r = numpy.dot(numpy.zeros(numpy.shape(a)),
                              numpy.zeros(numpy.shape(b))).astype(object)
            else:
                r = numpy.dot(a, b)
            if out is not None:
                out[...] = r
                return out
            return r
        E['dot'] = dot

        def matmul(a, b, out=None, **kw):
            if not (_objarr(a) or _objarr(b)):
                return numpy.matmul(a, b) if out is None else \
                    numpy.matmul(a, b, out=out)
            a, b = _toobj(a), _toobj(b)
            if not a.ndim or not b.ndim:
                raise ValueError('matmul: operand without dimensions')
            if 0 in a.shape + b.shape:
                r = numpy.matmul(numpy.zeros(a.shape),
                                 numpy.zeros(b.shape)).astype(object)
            else:
                r = numpy.matmul(a, b)
            if out is not None:
                if isinstance(out, tuple):
                    out = out[0]
                out[...] = r
                return out
            return r
        E['matmul'] = matmul

        def einsum(spec, *ops, **kw):
            if not any(_objarr(a) for a in ops):
                return numpy.einsum(spec, *ops, **kw)
            r = _einsum(spec, [_toobj(a) for a in ops])
            out = kw.get('out')
            if out is not None:
                out[...] = r
                return out
            return r
        E['einsum'] = einsum

        def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
            if not _has_sym(x):
                return numpy.nan_to_num(x, copy, nan, posinf, neginf)
            fi = numpy.finfo(core.FINFO)

            def one(v):
                if _isnan(v):
                    return core.const(nan)
                if _isinf(v):
                    pos = bool(v > 0)
                    w = posinf if pos else neginf
                    return core.const(float(w if w is not None else
                                            fi.max if pos else fi.min))
                return v
            r = elementwise(one, x)
            if not copy and type(x) is numpy.ndarray:
                x[...] = r
                return x
            return r
        E['nan_to_num'] = nan_to_num

        def reducer(real, pick):
            def g(a, axis=None, out=None, keepdims=False, **kw):
                if not _objarr(a):
                    if out is not None:
                        kw['out'] = out
                    return real(a, axis=axis, keepdims=keepdims, **kw)
                r = real(a, axis=axis, keepdims=keepdims)
                if out is not None:
                    out[...] = r
                    return out
                return r
            return g
        for nm in ('amax', 'amin', 'max', 'min'):
            if hasattr(numpy, nm):
                E[nm] = reducer(getattr(numpy, nm), nm)

        def logaddexp(a, b, *args, **kw):
            if not (_has_sym(a) or _has_sym(b)):
                return numpy.logaddexp(a, b, *args, **kw)
            if args:
                kw['out'] = args[0]
            return elementwise(lambda x, y: _domain('log')(
                _domain('exp')(L(x)) + _domain('exp')(L(y))), a, b, **kw)
        E['logaddexp'] = logaddexp

        def heaviside(a, b, *args, **kw):
            if not (_has_sym(a) or _has_sym(b)):
                return numpy.heaviside(a, b, *args, **kw)
            if args:
                kw['out'] = args[0]
            return elementwise(lambda x, y: core.const(1) if L(x) > 0 else
                               core.const(0) if L(x) < 0 else L(y),
                               a, b, **kw)
        E['heaviside'] = heaviside

        def outer(a, b, out=None):
            if not (_has_sym(a) or _has_sym(b)):
                return numpy.outer(a, b, out)
            r = _toobj(a).reshape(-1, 1) * _toobj(b).reshape(1, -1)
            if out is not None:
                out[...] = r
                return out
            return r
        E['outer'] = outer

        def int_(x=0, *a, **k):
            if _is_sym(x):
                return x
            return builtins.int(x, *a, **k)

    @staticmethod
    def _sum(a, *args, **kw):
        if _has_sym(a) and kw.get('dtype') is not None:
            kw['dtype'] = None
        return numpy.sum(a, *args, **kw)

    @staticmethod
    def finfo(dtype):
        # terms stand for reals: use the widest float's limits
        return numpy.finfo(core.FINFO if numpy.dtype(dtype) == object
                           else dtype)

    def __getattr__(self, name):
        return getattr(numpy, name)


PROXY = NP()


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class SymIntType(metaclass=_IntMeta):
    """Shadow of the builtin `int` (does not concretise terms)."""
    def __new__(cls, x=0, *a):
        if type(x) is SI:
            return x
        if type(x) is SR:
            return core.trunc_(x)
        if _objarr(x) and x.size == 1:
            return cls(x.reshape(-1)[0])
        return builtins.int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class SymFloatType(metaclass=_FloatMeta):
    def __new__(cls, x=0.0, *a):
        if _is_sym(x):
            return lift(x)
        if _objarr(x) and x.size == 1:
            return lift(x.reshape(-1)[0])
        return builtins.float(x, *a)


def sym_max(*args, **kw):
    if kw or len(args) < 2 or not any(_is_sym(a) for a in args):
        return builtins.max(*args, **kw)
    r = args[0]
    for a in args[1:]:
        r = core.ite(a > r, a, r)
    return r


def sym_min(*args, **kw):
    if kw or len(args) < 2 or not any(_is_sym(a) for a in args):
        return builtins.min(*args, **kw)
    r = args[0]
    for a in args[1:]:
        r = core.ite(a < r, a, r)
    return r


def patch_modules(prefix='brainstorm'):
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == prefix or
                               name.startswith(prefix + '.')):
            continue
        if '.tests' in name:
            continue
        d = mod.__dict__
        for k in ('np', 'numpy'):
            if d.get(k) is numpy:
                d[k] = PROXY
        d.setdefault('float', SymFloatType)
        d.setdefault('max', sym_max)
        d.setdefault('min', sym_min)


def shadow_int(*names):
    """Opt-in: `int(x)` in these modules keeps terms symbolic."""
    for n in names:
        sys.modules[n].__dict__.setdefault('int', SymIntType)

"""Strings of a fixed length whose characters are symbolic, and a regular
expression matcher over them (built from the pattern CPython parses).

Text produced by `str.format` / `%` / `+` from such strings carries private
markers, so patterns assembled in any of these ways are still understood.
"""
import builtins
import re
import re._parser as sre
import re._constants as K
import sys

import z3

from . import core
from .ctx import Inconclusive

REGISTRY = {'default', 'fallback'}     # plain strings used as dict keys
META = set('.^$*+?{}[]\\|()')
_marks = {}          # private-use character -> z3 char
_ids = {}
MARK0 = 0xF0000


def _c(ch):
    return z3.IntVal(ord(ch)) if isinstance(ch, str) else ch


def _mark(z):
    i = z.get_id()
    if i not in _ids:
        _ids[i] = chr(MARK0 + len(_marks))
        _marks[_ids[i]] = z        # also keeps the term (and its id) alive
    return _ids[i]


def lift(s):
    """text with markers -> SymStr, or the plain string"""
    if type(s) is str and any(ch in _marks for ch in s):
        return SymStr([_marks.get(ch, ch) for ch in s])
    return s


def make(chars):
    if all(isinstance(c, str) for c in chars):
        return ''.join(chars)
    return SymStr(chars)


def branch(c):
    return core.ENGINE.branch(z3.simplify(c))


class SymStr(object):
    __slots__ = ('chars',)

    @property
    def __class__(self):
        return str

    def __init__(self, chars):
        self.chars = tuple(chars)

    def marked(self):
        return ''.join(c if isinstance(c, str) else _mark(c)
                       for c in self.chars)

    __str__ = marked

    def __format__(self, spec):
        return self.marked()

    def __repr__(self):
        return '%r' % self.marked()

    def __len__(self):
        return len(self.chars)

    def __iter__(self):
        return iter([make([c]) for c in self.chars])

    def __getitem__(self, i):
        r = self.chars[i]
        return make(r if isinstance(i, slice) else [r])

    @staticmethod
    def _of(o):
        o = lift(o)
        return list(o.chars) if type(o) is SymStr else list(o)

    def __add__(self, o):
        return make(list(self.chars) + self._of(o))

    def __radd__(self, o):
        return make(self._of(o) + list(self.chars))

    def eq_term(self, o):
        b = self._of(o)
        if len(b) != len(self.chars):
            return z3.BoolVal(False)
        return z3.And([_c(x) == _c(y) for x, y in zip(self.chars, b)] +
                      [z3.BoolVal(True)])

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return branch(self.eq_term(o))

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        b = self._of(o)
        r = z3.BoolVal(len(self.chars) < len(b))
        for x, y in reversed(list(zip(self.chars, b))):
            r = z3.Or(_c(x) < _c(y), z3.And(_c(x) == _c(y), r))
        return branch(r)

    def __gt__(self, o):
        return not (self < o or self == o)

    def __le__(self, o):
        return self < o or self == o

    def __ge__(self, o):
        return not self < o

    def __hash__(self):
        for s in sorted(REGISTRY):
            if len(s) == len(self.chars) and self == s:
                return hash(s)
        return hash(tuple(c if isinstance(c, str) else c.get_id()
                          for c in self.chars))

    def __contains__(self, ch):
        if len(ch) != 1:
            raise Inconclusive('substring of a symbolic string')
        return branch(z3.Or([_c(c) == ord(ch) for c in self.chars]))

    def replace(self, a, b):
        if len(a) != 1:
            raise Inconclusive('replace in a symbolic string')
        out = []
        for c in self.chars:
            if branch(_c(c) == ord(a)):
                out += self._of(b)
            else:
                out.append(c)
        return make(out)

    def split(self, sep, maxsplit=-1):
        if len(sep) != 1:
            raise Inconclusive('split of a symbolic string')
        out, cur = [], []
        for c in self.chars:
            if (maxsplit < 0 or len(out) < maxsplit) and \
                    branch(_c(c) == ord(sep)):
                out.append(make(cur))
                cur = []
            else:
                cur.append(c)
        return out + [make(cur)]

    def startswith(self, p):
        return len(p) <= len(self.chars) and self[:len(p)] == p

    def endswith(self, p):
        return len(p) == 0 or len(p) <= len(self.chars) and \
            self[-len(p):] == p

    def partition(self, sep):
        i = self.find(sep)
        return (self[:], '', '') if i < 0 else \
            (self[:i], sep, self[i + 1:])

    def find(self, sep, lo=0):
        if len(sep) != 1:
            raise Inconclusive('find in a symbolic string')
        for i in range(lo, len(self.chars)):
            if branch(_c(self.chars[i]) == ord(sep)):
                return i
        return -1

    def index(self, sep, lo=0):
        i = self.find(sep, lo)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sep):
        if len(sep) != 1:
            raise Inconclusive('count in a symbolic string')
        return sum(branch(_c(c) == ord(sep)) for c in self.chars)

    def _all(self, items):
        return len(self.chars) > 0 and branch(z3.And(
            [_isin(items, _c(c)) for c in self.chars]))

    def isdigit(self):
        return self._all(_DIGIT)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(_ALPHA)

    def isalnum(self):
        return self._all(_DIGIT + _ALPHA)

    def isidentifier(self):
        w = [(K.LITERAL, 95)] + _ALPHA
        return len(self.chars) > 0 and branch(z3.And(
            [_isin(w if i == 0 else w + _DIGIT, _c(c))
             for i, c in enumerate(self.chars)]))

    def strip(self, cs=None):
        return self.lstrip(cs).rstrip(cs)

    def lstrip(self, cs=None):
        i = 0
        while i < len(self.chars) and self._space(self.chars[i], cs):
            i += 1
        return self[i:]

    def rstrip(self, cs=None):
        n = len(self.chars)
        while n > 0 and self._space(self.chars[n - 1], cs):
            n -= 1
        return self[:n]

    @staticmethod
    def _space(c, cs):
        if cs is None:
            return branch(_cat(K.CATEGORY_SPACE, _c(c)))
        return branch(z3.Or([_c(c) == ord(x) for x in cs] +
                            [z3.BoolVal(False)]))

    def join(self, items):
        return join(self, items)

    def __getattr__(self, n):
        raise Inconclusive('str.%s on a symbolic string' % n)


_DIGIT = [(K.RANGE, (48, 57))]
_ALPHA = [(K.RANGE, (65, 90)), (K.RANGE, (97, 122))]


def join(sep, items):
    """what `sep.join(items)` in brainstorm's modules becomes"""
    if not isinstance(sep, str):
        return sep.join(items)
    items = list(items)
    if type(sep) is str and not any(type(i) is SymStr for i in items):
        return sep.join(items)
    out = []
    for k, i in enumerate(items):
        out += (SymStr._of(sep) if k else []) + SymStr._of(i)
    return make(out)


def contains(x, y):
    """what `x in y` in brainstorm's modules becomes"""
    if type(x) is SymStr:
        if type(y) is str:
            n = len(x)
            return branch(z3.Or([x.eq_term(y[i:i + n]) for i in
                                 range(len(y) - n + 1)] +
                                [z3.BoolVal(False)]))
        if type(y) in (set, frozenset):
            return branch(z3.Or([x.eq_term(o) for o in y
                                 if isinstance(o, str)] +
                                [z3.BoolVal(False)]))
    return x in y


def symbolic(ctx, name, length, lo=0, hi=127):
    """an arbitrary string of this length (plain str when run concretely)"""
    cs = [ctx.int('%s_%d' % (name, i), lo, hi) for i in range(length)]
    if not ctx.symbolic:
        return ''.join(chr(c) for c in cs)
    return make([c.z for c in cs])


# ------------------------------ matching ------------------------------------

def _isin(items, ch):
    neg, alts = False, []
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            alts.append(ch == _code(av))
        elif op is K.RANGE:
            alts.append(z3.And(ch >= av[0], ch <= av[1]))
        elif op is K.CATEGORY:
            alts.append(_cat(av, ch))
        else:
            raise Inconclusive('regex set %s' % op)
    r = z3.Or(alts)
    return z3.Not(r) if neg else r


def _cat(av, ch):
    dig = z3.And(ch >= 48, ch <= 57)
    word = z3.Or(dig, ch == 95, z3.And(ch >= 65, ch <= 90),
                 z3.And(ch >= 97, ch <= 122))
    sp = z3.Or(ch == 32, z3.And(ch >= 9, ch <= 13),
               z3.And(ch >= 28, ch <= 31))
    return {K.CATEGORY_DIGIT: dig, K.CATEGORY_NOT_DIGIT: z3.Not(dig),
            K.CATEGORY_WORD: word, K.CATEGORY_NOT_WORD: z3.Not(word),
            K.CATEGORY_SPACE: sp, K.CATEGORY_NOT_SPACE: z3.Not(sp)}[av]


def _code(av):
    return _marks[chr(av)] if chr(av) in _marks else z3.IntVal(av)


def _run(ops, st, s):
    n = len(s)
    for op, av in ops:
        new = {}

        def put(i, c):
            new[i] = z3.Or(new[i], c) if i in new else c
        if op in (K.LITERAL, K.NOT_LITERAL, K.IN, K.ANY):
            for i, c in st.items():
                if i < n:
                    ch = s[i]
                    t = {K.LITERAL: lambda: ch == _code(av),
                         K.NOT_LITERAL: lambda: ch != _code(av),
                         K.IN: lambda: _isin(av, ch),
                         K.ANY: lambda: ch != 10}[op]()
                    put(i + 1, z3.simplify(z3.And(c, t)))
        elif op is K.AT:
            for i, c in st.items():
                if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                    if i == 0:
                        put(i, c)
                elif av is K.AT_END:
                    if i == n:
                        put(i, c)
                    elif i == n - 1:
                        put(i, z3.And(c, s[i] == 10))
                elif av is K.AT_END_STRING:
                    if i == n:
                        put(i, c)
                else:
                    raise Inconclusive('regex anchor %s' % av)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            cur, k = dict(st), 0
            while True:
                if k >= lo:
                    for i, c in cur.items():
                        put(i, c)
                k += 1
                if (hi is not K.MAXREPEAT and k > hi) or k > lo + n + 1 or \
                        not cur:
                    break
                cur = _run(sub, cur, s)
        elif op is K.SUBPATTERN:
            new = _run(av[-1], st, s)
        elif op is K.BRANCH:
            for b in av[1]:
                for i, c in _run(b, st, s).items():
                    put(i, c)
        else:
            raise Inconclusive('regex construct %s' % op)
        st = {i: c for i, c in new.items() if not z3.is_false(c)}
    return st


def match_term(pattern, string, how='match'):
    p = pattern.marked() if type(pattern) is SymStr else pattern
    for ch in p:
        if ch in _marks:
            z = _marks[ch]
            if branch(z3.Or([z == ord(m) for m in META])):
                raise Inconclusive('symbolic regex metacharacter')
    s = [_c(c) for c in SymStr._of(string)]
    start = {0: z3.BoolVal(True)} if how != 'search' else \
        {i: z3.BoolVal(True) for i in range(len(s) + 1)}
    end = _run(sre.parse(p), start, s)
    if how == 'fullmatch':
        end = {i: c for i, c in end.items() if i == len(s)}
    return z3.Or(list(end.values()) + [z3.BoolVal(False)])


class Match(object):
    def __init__(self, s):
        self.string = s

    def __getattr__(self, n):
        raise Inconclusive('regex match.%s' % n)


class Pattern(object):
    def __init__(self, pattern, flags=0, real=None):
        self.pattern, self.flags, self._real = pattern, flags, real

    def real(self):
        if self._real is None:
            self._real = re.compile(self.pattern, self.flags)
        return self._real

    def _do(self, how, s, *a):
        p, s = lift(self.pattern), lift(s)
        if type(p) is not SymStr and type(s) is not SymStr:
            return getattr(self.real(), how)(s, *a)
        if a or (self.flags and int(self.flags) & ~int(re.U | re.A)):
            raise Inconclusive('regex flags')
        return Match(s) if branch(match_term(p, s, how)) else None

    def match(self, s, *a):
        return self._do('match', s, *a)

    def fullmatch(self, s, *a):
        return self._do('fullmatch', s, *a)

    def search(self, s, *a):
        return self._do('search', s, *a)

    def __getattr__(self, n):
        return getattr(self.real(), n)


class Re(object):
    """stand-in for the module `re`"""
    @staticmethod
    def compile(p, flags=0):
        if isinstance(p, (Pattern, re.Pattern)):
            return wrap(p)
        return Pattern(p, flags)

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def escape(self, p):
        if type(lift(p)) is not SymStr:
            return re.escape(p)
        # a literal that is not an identifier character is escaped
        out = []
        for c in lift(p).chars:
            if isinstance(c, str):
                out += re.escape(c)
            elif branch(z3.Or([c == ord(m) for m in META])):
                raise Inconclusive('re.escape of a symbolic metacharacter')
            else:
                out.append(c)
        return make(out)

    def __getattr__(self, n):
        return getattr(re, n)


RE = Re()


class Fnmatch(object):
    """stand-in for the module `fnmatch`"""
    def translate(self, pat):
        import fnmatch
        p = lift(pat)
        if type(p) is not SymStr:
            return fnmatch.translate(pat)
        out = []
        for c in p.chars:
            if not isinstance(c, str):
                if branch(z3.Or([c == ord(m) for m in META])):
                    raise Inconclusive('symbolic wildcard')
                out.append(c)
            elif c in '*?':
                out += '(?s:.%s)' % ('*' if c == '*' else '')
            elif c in '[]':
                raise Inconclusive('fnmatch of character sets')
            else:
                out += re.escape(c)
        return make(list('^(?:') + out + list(')\\Z'))

    def fnmatchcase(self, name, pat):
        return RE.compile(self.translate(pat)).match(name) is not None

    fnmatch = fnmatchcase

    def filter(self, names, pat):
        return [n for n in names if self.fnmatchcase(n, pat)]


FNMATCH = Fnmatch()


def wrap(p):
    return p if isinstance(p, Pattern) else Pattern(p.pattern, p.flags, p)


def patch_modules(prefix='brainstorm'):
    import fnmatch
    functions = {id(getattr(re, n)): getattr(RE, n) for n in
                 ('compile', 'match', 'fullmatch', 'search', 'escape')}
    functions.update({id(getattr(fnmatch, n)): getattr(FNMATCH, n) for n in
                      ('translate', 'fnmatchcase', 'fnmatch', 'filter')})
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith(prefix) or '.tests' in name:
            continue
        d = mod.__dict__
        for k, v in list(d.items()):
            if v is re:
                d[k] = RE
            elif v is fnmatch:
                d[k] = FNMATCH
            elif id(v) in functions:
                d[k] = functions[id(v)]
            elif isinstance(v, re.Pattern):
                d[k] = wrap(v)

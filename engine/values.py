"""Symbolic stand-ins for int, unicode text and datetime values.

All comparisons decide (fork) immediately and return real bools, so the code
under test never sees a symbolic boolean.  Anything the encoding does not
cover raises Leak, which ends the path as "not decided".
"""
import datetime as _dt

from . import explore, tables, terms
from .explore import Leak, branch
from .terms import (T, add, and_, div, eq, inr, ite, le, lt, mod, mul, neg,
                    not_, or_, sub)


def leak(what):
    raise Leak(what)


# ---------------------------------------------------------------- integers

def mkint(t):
    return SymInt(t) if type(t) is T else t


def iterm(x):
    """int-like -> term, or None"""
    tx = type(x)
    if tx is SymInt:
        return x.t
    if tx is int:
        return x
    if tx is bool:
        return int(x)
    if isinstance(x, int):
        return int(x)
    return None


def _arith(fn):
    def op(self, other):
        o = iterm(other)
        if o is None:
            if isinstance(other, float):
                leak('float arithmetic on a symbolic integer')
            return NotImplemented
        return mkint(fn(self.t, o))

    def rop(self, other):
        o = iterm(other)
        if o is None:
            if isinstance(other, float):
                leak('float arithmetic on a symbolic integer')
            return NotImplemented
        return mkint(fn(o, self.t))
    return op, rop


def _divcheck(b):
    if type(b) is T:
        return explore.current.concretize(b)
    return b


def _fdiv(a, b):
    b = _divcheck(b)
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if b < 0:
        return _fdiv(neg(a), -b)
    return div(a, b)


def _fmod(a, b):
    b = _divcheck(b)
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if b < 0:
        return neg(_fmod(neg(a), -b))
    return mod(a, b)


def _fmul(a, b):
    if type(a) is T and type(b) is T:
        b = explore.current.concretize(b)
    return mul(a, b)


def _cmpop(fn):
    def op(self, other):
        o = iterm(other)
        if o is None:
            if isinstance(other, float):
                leak('float comparison with a symbolic integer')
            return NotImplemented
        return branch(fn(self.t, o))
    return op


class SymInt(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    def __hash__(self):
        return 11

    __add__, __radd__ = _arith(add)
    __sub__, __rsub__ = _arith(sub)
    __mul__, __rmul__ = _arith(_fmul)
    __floordiv__, __rfloordiv__ = _arith(_fdiv)
    __mod__, __rmod__ = _arith(_fmod)

    def __divmod__(self, other):
        return self // other, self % other

    def __rdivmod__(self, other):
        return other // self, other % self

    def __truediv__(self, other):
        leak('true division of a symbolic integer')
    __rtruediv__ = __truediv__

    def __neg__(self):
        return mkint(neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(neg(self.t)) if branch(lt(self.t, 0)) else self

    def __eq__(self, other):
        o = iterm(other)
        if o is None:
            if isinstance(other, float):
                leak('float comparison with a symbolic integer')
            return NotImplemented
        return branch(eq(self.t, o))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    __lt__ = _cmpop(lt)
    __le__ = _cmpop(le)
    __gt__ = _cmpop(lambda a, b: lt(b, a))
    __ge__ = _cmpop(lambda a, b: le(b, a))

    def __bool__(self):
        return branch(not_(eq(self.t, 0)))

    def __index__(self):
        return explore.current.concretize(self.t)

    __int__ = __index__

    def _bit(self, other, op):
        return op(self.__index__(), other.__index__())

    def __and__(self, o):
        return self.__index__() & o
    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | o
    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ o
    __rxor__ = __xor__

    def __pow__(self, o):
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        return self.__index__() << o

    def __rshift__(self, o):
        return self.__index__() >> o

    def __float__(self):
        leak('float() of a symbolic integer')

    def __str__(self):
        leak('native str() of a symbolic integer')

    __repr__ = __str__

    def __format__(self, spec):
        leak('native format() of a symbolic integer')


def int_digits(t, pad=0):
    """Non-negative term -> list of digit terms, most significant first,
    at least *pad* of them."""
    if type(t) is not T:
        return [int(c) for c in str(t).rjust(pad, '0')]
    p = explore.current
    known = p.digits.get(id(t))
    if known is not None:
        ds = list(known)
        while len(ds) < pad:
            ds.insert(0, 0)
        while len(ds) > max(pad, 1) and branch(eq(ds[0], 0)):
            ds.pop(0)
        return ds
    n = max(pad, 1)
    while not branch(lt(t, 10 ** n)):
        n += 1
        if n > 40:
            leak('integer with more than 40 digits')
    if n == 1:
        return [t]
    v = terms.ev(t, p.model)
    ds, acc = [], 0
    p.fresh += 1
    text = str(v).rjust(n, '0')
    for i in range(n):
        name = '#d%d.%d' % (p.fresh, i)
        d = p.new_var(name, 0, 9, int(text[i]))
        # the definition below fixes the digits: keep the model in step
        p.model[name] = int(text[i])
        ds.append(d)
        acc = add(acc, mul(d, 10 ** (n - 1 - i)))
    p.assume(eq(t, acc))
    p.digits[id(t)] = ds
    return ds


def int_to_str(x):
    t = iterm(x)
    if type(t) is not T:
        return str(t)
    if branch(lt(t, 0)):
        return mkstr([45] + [add(d, 48) for d in int_digits(neg(t))])
    return mkstr([add(d, 48) for d in int_digits(t)])


# -------------------------------------------------------------------- text

def chars_of(s):
    if type(s) is SymStr:
        return s.c
    return [ord(ch) for ch in s]


def is_text(x):
    return type(x) is SymStr or isinstance(x, str)


def mkstr(chars, cls=str):
    for c in chars:
        if type(c) is T:
            return SymStr(list(chars), cls)
    s = ''.join(map(chr, chars))
    return s if cls is str else str.__new__(cls, s)


def resolve(s):
    """A SymStr all of whose characters are pinned by the path -> str."""
    if type(s) is not SymStr:
        return s
    p = explore.current
    out = []
    for c in s.c:
        if type(c) is T:
            v = terms.ev(c, p.model)
            if p.known.get(id(eq(c, v))) is not True:
                return s
            out.append(v)
        else:
            out.append(c)
    return mkstr(out, s.cls)


def chars_eq(a, b):
    """Term: char lists equal."""
    if len(a) != len(b):
        return False
    return and_(*[eq(x, y) for x, y in zip(a, b)])


def _text_only(fn):
    def method(self, other, *rest):
        if not is_text(other):
            return NotImplemented
        return fn(self, other, *rest)
    return method


def lower_char(c):
    if type(c) is not T:
        return tables.LOWER_MAP.get(c, [c])
    for m in tables.LOWER_MULTI:
        if branch(eq(c, m)):
            return tables.LOWER_MULTI[m]
    r = c
    for d, rs in tables.LOWER:
        r = ite(inr(c, rs), add(c, d), r)
    return [r]


def upper_char(c):
    if type(c) is not T:
        return tables.UPPER_MAP.get(c, [c])
    if tables.UPPER_MULTI:
        if branch(inr(c, tables.from_codes(tables.UPPER_MULTI))):
            return tables.UPPER_MULTI[explore.current.concretize(c)]
    r = c
    for d, rs in tables.UPPER:
        r = ite(inr(c, rs), add(c, d), r)
    return [r]


class SymStr(object):
    __slots__ = ('c', 'cls', 'decoded')

    def __init__(self, chars, cls=str):
        self.c = chars
        self.cls = cls

    @property
    def __class__(self):
        return self.cls

    def __getattr__(self, name):
        if name == 'decoded':
            raise AttributeError(name)
        cls = object.__getattribute__(self, 'cls')
        for k in cls.__mro__:
            if k is str or k is object:
                break
            if name in k.__dict__:
                return k.__dict__[name].__get__(self, k)
        if hasattr(str, name) and name not in _PY3_ONLY:
            leak('str.%s on symbolic text' % name)
        raise AttributeError(name)

    def __hash__(self):
        return 7

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return bool(self.c)

    def __iter__(self):
        for c in self.c:
            yield mkstr([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.c[i])
        return mkstr([self.c[i]])

    def __add__(self, other):
        if not is_text(other):
            return NotImplemented
        return mkstr(self.c + chars_of(other))

    def __radd__(self, other):
        if not is_text(other):
            return NotImplemented
        return mkstr(chars_of(other) + self.c)

    def __mul__(self, n):
        return mkstr(self.c * n.__index__())
    __rmul__ = __mul__

    def __eq__(self, other):
        if not is_text(other):
            return NotImplemented
        return branch(chars_eq(self.c, chars_of(other)))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def _lex(self, other):
        """-1, 0, 1"""
        a, b = self.c, chars_of(other)
        for x, y in zip(a, b):
            if not branch(eq(x, y)):
                return -1 if branch(lt(x, y)) else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    @_text_only
    def __lt__(self, other):
        return self._lex(other) < 0

    @_text_only
    def __le__(self, other):
        return self._lex(other) <= 0

    @_text_only
    def __gt__(self, other):
        return self._lex(other) > 0

    @_text_only
    def __ge__(self, other):
        return self._lex(other) >= 0

    def __contains__(self, sub):
        if not is_text(sub):
            raise TypeError("'in <string>' requires string as left operand")
        return self.find(sub) >= 0

    def __str__(self):
        leak('native str() of symbolic text')

    def __repr__(self):
        leak('native repr() of symbolic text')

    def __format__(self, spec):
        leak('native format() of symbolic text')

    # -- searching
    def _range(self, start, end):
        n = len(self.c)
        s = slice(start, end).indices(n)
        return s[0], s[1]

    def find(self, sub, start=None, end=None):
        n = chars_of(sub)
        lo, hi = self._range(start, end)
        for i in range(lo, hi - len(n) + 1):
            if branch(chars_eq(self.c[i:i + len(n)], n)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        n = chars_of(sub)
        lo, hi = self._range(start, end)
        for i in range(hi - len(n), lo - 1, -1):
            if branch(chars_eq(self.c[i:i + len(n)], n)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found in string.index')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found in string.rindex')
        return r

    def count(self, sub, start=None, end=None):
        n = chars_of(sub)
        lo, hi = self._range(start, end)
        if not n:
            return hi - lo + 1
        i, k = lo, 0
        while i <= hi - len(n):
            if branch(chars_eq(self.c[i:i + len(n)], n)):
                k += 1
                i += len(n)
            else:
                i += 1
        return k

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        if not is_text(p):
            raise TypeError('expected a character buffer object')
        lo, hi = self._range(start, end)
        n = chars_of(p)
        if hi - lo < len(n):
            return False
        return branch(chars_eq(self.c[lo:lo + len(n)], n))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        if not is_text(p):
            raise TypeError('expected a character buffer object')
        lo, hi = self._range(start, end)
        n = chars_of(p)
        if hi - lo < len(n):
            return False
        return branch(chars_eq(self.c[hi - len(n):hi], n))

    # -- stripping / splitting
    def _strip(self, chars, left, right):
        c = self.c
        if chars is None:
            pred = lambda x: inr(x, tables.STRIP)
        else:
            cs = chars_of(chars)
            pred = lambda x: or_(*[eq(x, y) for y in cs])
        lo, hi = 0, len(c)
        if left:
            while lo < hi and branch(pred(c[lo])):
                lo += 1
        if right:
            while hi > lo and branch(pred(c[hi - 1])):
                hi -= 1
        return mkstr(c[lo:hi])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        c = self.c
        if sep is None:
            out, i, n = [], 0, len(c)
            sp = lambda x: branch(inr(x, tables.SPLITSPACE))
            while True:
                while i < n and sp(c[i]):
                    i += 1
                if i >= n:
                    return out
                if 0 <= maxsplit <= len(out):
                    j = n
                    while sp(c[j - 1]):
                        j -= 1
                    out.append(mkstr(c[i:j] if False else c[i:]))
                    return out
                j = i
                while j < n and not sp(c[j]):
                    j += 1
                out.append(mkstr(c[i:j]))
                i = j
        n = chars_of(sep)
        if not n:
            raise ValueError('empty separator')
        out, start, i = [], 0, 0
        while i <= len(c) - len(n):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if branch(chars_eq(c[i:i + len(n)], n)):
                out.append(mkstr(c[start:i]))
                i += len(n)
                start = i
            else:
                i += 1
        out.append(mkstr(c[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            leak('rsplit(None, n) on symbolic text')
        c, n = self.c, chars_of(sep)
        out, end = [], len(c)
        i = end - len(n)
        while i >= 0 and len(out) < maxsplit:
            if branch(chars_eq(c[i:i + len(n)], n)):
                out.append(mkstr(c[i + len(n):end]))
                end = i
                i -= len(n)
            else:
                i -= 1
        out.append(mkstr(c[:end]))
        out.reverse()
        return out

    def splitlines(self, keepends=False):
        leak('splitlines on symbolic text')

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (mkstr(self.c[:i]), sep, mkstr(self.c[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (mkstr(self.c[:i]), sep, mkstr(self.c[i + len(sep):]))

    def replace(self, old, new, count=-1):
        c, o, n = self.c, chars_of(old), chars_of(new)
        if not o:
            leak('replace of the empty string')
        out, i, k, hit = [], 0, 0, False
        while i < len(c):
            if (count < 0 or k < count) and i <= len(c) - len(o) and \
                    branch(chars_eq(c[i:i + len(o)], o)):
                out.extend(n)
                i += len(o)
                k += 1
                hit = True
            else:
                out.append(c[i])
                i += 1
        return mkstr(out)

    def join(self, seq):
        out, first = [], True
        for s in seq:
            if not is_text(s):
                raise TypeError('sequence item: expected string, %s found' %
                                type(s).__name__)
            if not first:
                out.extend(self.c)
            out.extend(chars_of(s))
            first = False
        return mkstr(out)

    # -- character classes
    def _all(self, rs):
        if not self.c:
            return False
        return branch(and_(*[inr(x, rs) for x in self.c]))

    def isspace(self):
        return self._all(tables.ISSPACE)

    def isdigit(self):
        return self._all(tables.ISDIGIT)

    def isdecimal(self):
        return self._all(tables.ISDECIMAL)

    def isnumeric(self):
        return self._all(tables.ISNUMERIC)

    def isalpha(self):
        return self._all(tables.ISALPHA)

    def isalnum(self):
        return self._all(tables.ISALNUM)

    def lower(self):
        out = []
        for c in self.c:
            out.extend(lower_char(c))
        return mkstr(out)

    def upper(self):
        out = []
        for c in self.c:
            out.extend(upper_char(c))
        return mkstr(out)

    def zfill(self, width):
        if len(self.c) >= width:
            return self
        c = self.c
        if c and branch(or_(eq(c[0], 43), eq(c[0], 45))):
            return mkstr([c[0]] + [48] * (width - len(c)) + c[1:])
        return mkstr([48] * (width - len(c)) + c)

    def ljust(self, width, fill=' '):
        return mkstr(self.c + chars_of(fill) * max(0, width - len(self.c)))

    def rjust(self, width, fill=' '):
        return mkstr(chars_of(fill) * max(0, width - len(self.c)) + self.c)

    def encode(self, encoding='ascii', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('ascii', 'us-ascii'):
            if branch(and_(*[inr(c, ((0, 127),)) for c in self.c])):
                return self
            raise UnicodeEncodeError('ascii', '?', 0, 1,
                                     'ordinal not in range(128)')
        if enc in ('utf-8', 'utf8', 'latin-1', 'iso-8859-1'):
            if branch(and_(*[inr(c, ((0, 127),)) for c in self.c])):
                return self
            leak('%s encoding of non-ASCII symbolic text' % enc)
        if enc == 'idna':
            from .idna import idna_encode
            return idna_encode(self)
        leak('encode(%r) on symbolic text' % encoding)

    def decode(self, encoding='ascii', errors='strict'):
        if encoding == 'raw_unicode_escape' and hasattr(self, 'decoded'):
            return self.decoded
        return self.encode('ascii')

    def __html_sym__(self):
        return self


_PY3_ONLY = set(['casefold', 'isidentifier', 'isprintable', 'isascii',
                 'format_map', 'maketrans', 'removeprefix', 'removesuffix',
                 '__rmod__', '__radd__', '__getstate__', '__iter__'])


def digit_value(c):
    """Term for the decimal value of digit character *c*."""
    if type(c) is not T:
        for z in tables.DIGIT_ZEROS:
            if z <= c <= z + 9:
                return c - z
        raise AssertionError(c)
    groups = {}
    for z in tables.DIGIT_ZEROS:
        groups.setdefault(z % 16, []).append((z, z + 9))
    low = mod(c, 16)
    r = None
    for k, rs in sorted(groups.items(), key=lambda i: len(i[1])):
        v = sub(low, k)
        r = v if r is None else ite(inr(c, tables.union(rs)), v, r)
    return r


def parse_int(s):
    """int(text) with Jython 2.7's grammar."""
    err = lambda: ValueError('invalid literal for int() with base 10')
    if isinstance(s, str):
        try:
            s.encode('ascii')
        except UnicodeError:
            pass
    c = chars_of(s)
    lo, hi = 0, len(c)
    sp = lambda x: branch(inr(x, tables.INT_SPACE))
    while lo < hi and sp(c[lo]):
        lo += 1
    while hi > lo and sp(c[hi - 1]):
        hi -= 1
    if lo == hi:
        raise err()
    negative = False
    if branch(eq(c[lo], 45)):
        negative = True
        lo += 1
        while lo < hi and sp(c[lo]):
            lo += 1
    elif branch(eq(c[lo], 43)):
        lo += 1
        while lo < hi and sp(c[lo]):
            lo += 1
        if lo < hi and branch(or_(eq(c[lo], 45), eq(c[lo], 43))):
            negative = branch(eq(c[lo], 45))
            lo += 1
    if lo == hi:
        raise err()
    body = c[lo:hi]
    if branch(and_(*[inr(x, ((48, 57),)) for x in body])):
        vals = [sub(x, 48) for x in body]
    elif branch(and_(*[inr(x, tables.DIGITS) for x in body])):
        vals = [digit_value(x) for x in body]
    else:
        raise err()
    acc = 0
    for v in vals:
        acc = add(mul(acc, 10), v)
    if type(acc) is T:
        explore.current.digits[id(acc)] = vals
    return mkint(neg(acc) if negative else acc)


def repr_text(s):
    """Python 2 repr() of unicode text (and its raw_unicode_escape decode)."""
    c = chars_of(s)
    has_sq = has_dq = False
    for x in c:
        if branch(eq(x, 39)):
            has_sq = True
            break
    if has_sq:
        for x in c:
            if branch(eq(x, 34)):
                has_dq = True
                break
    q = 34 if has_sq and not has_dq else 39
    raw, dec = [117, q], [117, q]

    def put(xs):
        raw.extend(xs)
        dec.extend(xs)
    esc = {92: '\\\\', 9: '\\t', 10: '\\n', 13: '\\r'}
    esc[q] = '\\' + chr(q)
    hexd = lambda d: ite(lt(d, 10), add(d, 48), add(d, 87))
    for x in c:
        for k, v in esc.items():
            if branch(eq(x, k)):
                put([ord(ch) for ch in v])
                break
        else:
            if branch(inr(x, ((32, 126),))):
                put([x])
            elif branch(lt(x, 256)):
                put([92, 120, hexd(div(x, 16)), hexd(mod(x, 16))])
            else:
                raw.extend([92, 117] + [hexd(mod(div(x, 16 ** k), 16))
                                        for k in (3, 2, 1, 0)])
                dec.append(x)
    put([q])
    r = mkstr(raw)
    if type(r) is SymStr:
        r.decoded = mkstr(dec)
    return r


# ---------------------------------------------------------------- datetime

_FIELDS = {
    _dt.date: ('year', 'month', 'day'),
    _dt.time: ('hour', 'minute', 'second', 'microsecond'),
    _dt.datetime: ('year', 'month', 'day', 'hour', 'minute', 'second',
                   'microsecond'),
}
_LIMITS = {'year': (1, 9999), 'month': (1, 12), 'hour': (0, 23),
           'minute': (0, 59), 'second': (0, 59), 'microsecond': (0, 999999)}


def _dim(y, m):
    leap = and_(eq(mod(y, 4), 0),
                or_(not_(eq(mod(y, 100), 0)), eq(mod(y, 400), 0)))
    return ite(eq(m, 2), ite(leap, 29, 28),
               ite(or_(eq(m, 4), eq(m, 6), eq(m, 9), eq(m, 11)), 30, 31))


def mkdate(cls, args, kw):
    names = _FIELDS[cls]
    vals = dict((n, 0) for n in names)
    for n, a in zip(names, args):
        vals[n] = a
    vals.update(kw)
    for n in ('year', 'month', 'day'):
        if n in names and n not in kw and names.index(n) >= len(args):
            raise TypeError('Required argument %r not found' % n)
    if len(args) > len(names):
        raise TypeError('too many arguments')
    ts = {}
    for n in names:
        t = iterm(vals[n])
        if t is None:
            raise TypeError('an integer is required')
        ts[n] = t
    for n in names:
        if n == 'day':
            ok = and_(le(1, ts[n]), le(ts[n], _dim(ts['year'], ts['month'])))
        else:
            lo, hi = _LIMITS[n]
            ok = and_(le(lo, ts[n]), le(ts[n], hi))
        if not branch(ok):
            raise ValueError('%s is out of range' % n)
    if not any(type(t) is T for t in ts.values()):
        return cls(*[ts[n] for n in names])
    return SymDate(cls, ts)


class SymDate(object):
    def __init__(self, cls, ts):
        object.__setattr__(self, '_cls', cls)
        object.__setattr__(self, '_ts', ts)

    @property
    def __class__(self):
        return self._cls

    def __getattr__(self, name):
        ts = object.__getattribute__(self, '_ts')
        if name in ts:
            return mkint(ts[name])
        if name == 'tzinfo':
            return None
        if name == 'date' and self._cls is _dt.datetime:
            return lambda: SymDate(_dt.date, dict(
                (n, ts[n]) for n in ('year', 'month', 'day')))
        if name == 'isoformat' and self._cls is _dt.date:
            from .ops import mod_format
            return lambda: mod_format('%04i-%02i-%02i', (
                self.year, self.month, self.day))
        if hasattr(self._cls, name):
            leak('%s.%s on a symbolic value' % (self._cls.__name__, name))
        raise AttributeError(name)

    def __setattr__(self, name, value):
        raise AttributeError(name)

    def __hash__(self):
        return 13

    def _other(self, other):
        if type(other) is SymDate:
            return other._ts if other._cls is self._cls else None
        if type(other) is self._cls:
            return dict((n, getattr(other, n)) for n in _FIELDS[self._cls])
        return None

    def __eq__(self, other):
        o = self._other(other)
        if o is None:
            return NotImplemented
        return branch(and_(*[eq(self._ts[n], o[n]) for n in self._ts]))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def _lex(self, other):
        o = self._other(other)
        if o is None:
            raise TypeError("can't compare date-like values")
        for n in _FIELDS[self._cls]:
            if not branch(eq(self._ts[n], o[n])):
                return -1 if branch(lt(self._ts[n], o[n])) else 1
        return 0

    def __lt__(self, other):
        return self._lex(other) < 0

    def __le__(self, other):
        return self._lex(other) <= 0

    def __gt__(self, other):
        return self._lex(other) > 0

    def __ge__(self, other):
        return self._lex(other) >= 0

    def __bool__(self):
        # Python 2: datetime.time is false at midnight
        if self._cls is _dt.time:
            return branch(not_(and_(*[eq(t, 0) for t in self._ts.values()])))
        return True

    def __str__(self):
        leak('native str() of a symbolic date')
    __repr__ = __str__


SYM = (SymStr, SymInt, SymDate)


def is_sym(x):
    t = type(x)
    return t is SymStr or t is SymInt or t is SymDate


def has_sym(x, depth=4):
    t = type(x)
    if t is SymStr or t is SymInt or t is SymDate:
        return True
    if depth and t in (list, tuple, set, frozenset):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and t is dict:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1)
                   for k, v in x.items())
    return False


def concrete(x, model):
    """JSON-able concrete version of an observation under *model*."""
    t = type(x)
    if t is SymStr:
        return ''.join(chr(terms.ev(c, model)) for c in x.c)
    if t is SymInt:
        return terms.ev(x.t, model)
    if t is SymDate:
        return ['~' + x._cls.__name__] + [
            terms.ev(x._ts[n], model) for n in _FIELDS[x._cls]]
    if x is None or t in (bool, int):
        return x
    if isinstance(x, _dt.datetime) or isinstance(x, (_dt.date, _dt.time)):
        cls = t
        return ['~' + cls.__name__] + [getattr(x, n) for n in _FIELDS[cls]]
    if isinstance(x, bool):
        return bool(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, str):
        return str.__str__(x)
    if isinstance(x, dict):
        items = [[concrete(k, model), concrete(v, model)]
                 for k, v in dict.items(x)]
        return ['~dict'] + sorted(items, key=repr)
    if isinstance(x, (list, tuple)):
        return [concrete(y, model) for y in x]
    if isinstance(x, (set, frozenset)):
        return ['~set'] + sorted((concrete(y, model) for y in x), key=repr)
    if isinstance(x, float):
        return x
    return '~' + type(x).__name__

"""Runtime helpers the transformed source calls: Python 2 semantics over
possibly symbolic operands."""
import datetime as _dt
import functools
import types

from . import explore, tables, terms, values
from .explore import Leak, branch
from .terms import T, add, eq, inr, le, lt, mod, mul
from .values import (SymDate, SymInt, SymStr, chars_of, has_sym, int_digits,
                     int_to_str, is_sym, is_text, iterm, leak, mkdate, mkint,
                     mkstr, parse_int, repr_text, resolve)

_MAXINT = 2147483647
_BuiltinMethod = types.BuiltinMethodType
_MethodDescr = type(str.join)
_SlotWrapper = type(dict.__getitem__)  # method_descriptor (METH_COEXIST)
_Wrapper = type(list.__setitem__)
_MethodWrapper = type([].__setitem__)

_DICT_METHODS = set(['get', 'setdefault', 'update', 'pop', '__contains__',
                     '__getitem__', '__setitem__', '__delitem__', 'keys',
                     'values', 'items', 'copy'])
_SET_METHODS = set(['add', 'discard', 'remove', 'update', 'difference',
                    'difference_update', 'union', 'intersection',
                    'intersection_update', 'issubset', 'issuperset',
                    '__contains__', 'symmetric_difference'])


# ------------------------------------------------------- keyed collections

def canon(keys, k):
    """The key of *keys* that equals *k* on this path, else *k* itself."""
    tk = type(k)
    if tk is SymStr:
        k = resolve(k)
        tk = type(k)
    if tk is SymStr or tk is SymInt or tk is SymDate or \
            (tk is tuple and has_sym(k)):
        for e in keys:
            if e is k:
                return e
        for e in keys:
            if e is not None and e == k:
                return e
        return k
    if tk is str or tk is int or tk is tuple or isinstance(k, (str, int)):
        for e in keys:
            te = type(e)
            if te is SymStr or te is SymInt or te is SymDate or \
                    (te is tuple and has_sym(e)):
                if e == k:
                    return e
    return k


def dkeys(d):
    return list(dict.keys(d))


def build_set(items, base=()):
    out = set()
    order = []
    for i in list(base):
        if i not in order if False else True:
            k = canon(order, i)
            if not any(k is o for o in order):
                order.append(k)
                out.add(k)
    for i in items:
        k = canon(order, i)
        if k not in out:
            order.append(k)
            out.add(k)
    return out


def dict_put(d, k, v, raw=None):
    k = canon(dkeys(d), k)
    if raw is not None:
        raw(d, k, v)
    else:
        dict.__setitem__(d, k, v)


def _pairs_of(src):
    if hasattr(src, 'keys'):
        if isinstance(src, dict) and type(src).keys is dict.keys:
            return [(k, dict.__getitem__(src, k)) for k in dkeys(src)]
        return [(k, getitem(src, k)) for k in list(src.keys())]
    return [tuple(p) for p in src]


def make_dict(*a, **kw):
    if len(a) > 1:
        raise TypeError('dict expected at most 1 arguments, got %d' % len(a))
    d = {}
    if a:
        for p in _pairs_of(a[0]):
            if len(p) != 2:
                raise ValueError('dictionary update sequence element has '
                                 'length %d; 2 is required' % len(p))
            dict_put(d, p[0], p[1])
    d.update(kw)
    return d


def dict_method(d, name, a, kw):
    if name == 'keys':
        return dkeys(d)
    if name == 'values':
        return list(dict.values(d))
    if name == 'items':
        return list(dict.items(d))
    if name == 'update':
        if len(a) > 1:
            raise TypeError('update expected at most 1 arguments')
        if a:
            for k, v in _pairs_of(a[0]):
                dict_put(d, k, v)
        for k, v in kw.items():
            dict_put(d, k, v)
        return None
    if name == 'copy':
        return dict.copy(d)
    if not a:
        return getattr(dict, name)(d, *a, **kw)
    k = canon(dkeys(d), a[0])
    return getattr(dict, name)(d, k, *a[1:], **kw)


def set_method(s, name, a, kw):
    if name == '__contains__':
        return canon(list(s), a[0]) in s
    if name == 'add':
        s.add(canon(list(s), a[0]))
        return None
    if name in ('discard', 'remove'):
        return getattr(s, name)(canon(list(s), a[0]))
    others = [list(o) for o in a]
    if name in ('update', 'union'):
        out = set(s)
        for o in others:
            for i in o:
                out.add(canon(list(out), i))
    elif name.startswith('difference'):
        out = set(s)
        for o in others:
            for i in o:
                out.discard(canon(list(out), i))
    elif name.startswith('intersection'):
        out = set(s)
        for o in others:
            keep = set()
            for i in o:
                k = canon(list(out), i)
                if k in out:
                    keep.add(k)
            out = keep
    elif name == 'issubset':
        o = build_set(others[0])
        return all(canon(list(o), i) in o for i in s)
    elif name == 'issuperset':
        return all(canon(list(s), i) in s for i in others[0])
    elif name == 'symmetric_difference':
        o = build_set(others[0])
        a_ = set_method(s, 'difference', (o,), {})
        b_ = set_method(o, 'difference', (s,), {})
        return set_method(a_, 'union', (b_,), {})
    else:
        leak('set.%s with symbolic members' % name)
    if name.endswith('update'):
        s.clear()
        s.update(out)
        return None
    return out if type(s) is set else type(s)(out)


# ------------------------------------------------------------ subscription

def getitem(a, b):
    ta = type(a)
    if ta is list or ta is tuple:
        return a[b]
    if isinstance(a, dict):
        g = ta.__getitem__
        if g is dict.__getitem__:
            k = canon(dkeys(a), b)
            return a[k]
        return a[b]
    if isinstance(b, slice) and b.step is None:
        gs = getattr(ta, '__getslice__', None)
        if gs is not None:
            i, j = slice_bounds(a, b)
            return a.__getslice__(i, j)
    if ta is str and type(b) is SymInt:
        return a[b.__index__()]
    return a[b]


def slice_bounds(a, s):
    i = 0 if s.start is None else s.start
    j = _MAXINT if s.stop is None else s.stop
    if i < 0:
        i = i + len(a)
    if j < 0:
        j = j + len(a)
    return i, j


class Sub(object):
    """Store/delete/augmented subscription target."""
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        return getitem(self.o, k)

    def __setitem__(self, k, v):
        o = self.o
        to = type(o)
        if isinstance(o, dict) and to.__setitem__ is dict.__setitem__:
            o[canon(dkeys(o), k)] = v
            return
        if isinstance(k, slice) and k.step is None:
            ss = getattr(to, '__setslice__', None)
            if ss is not None:
                i, j = slice_bounds(o, k)
                o.__setslice__(i, j, v)
                return
        o[k] = v

    def __delitem__(self, k):
        o = self.o
        to = type(o)
        if isinstance(o, dict) and to.__delitem__ is dict.__delitem__:
            del o[canon(dkeys(o), k)]
            return
        if isinstance(k, slice) and k.step is None:
            ss = getattr(to, '__delslice__', None)
            if ss is not None:
                i, j = slice_bounds(o, k)
                o.__delslice__(i, j)
                return
        del o[k]


# -------------------------------------------------------------- comparison

def in_(a, b):
    tb = type(b)
    if tb is SymStr:
        return b.__contains__(a)
    if tb is str or isinstance(b, str):
        if type(a) is SymStr:
            if len(a.c) == 1 and b:
                return branch(inr(a.c[0], tables.from_codes(map(ord, b))))
            return SymStr(chars_of(b)).__contains__(a)
        return a in b
    if isinstance(b, dict):
        if tb.__contains__ is dict.__contains__:
            return dict.__contains__(b, canon(dkeys(b), a))
        return a in b
    if tb is set or tb is frozenset:
        return canon(list(b), a) in b
    return a in b


def notin(a, b):
    return not in_(a, b)


def eq_(a, b):
    ta = type(a)
    if ta is dict and type(b) is dict and (has_sym(a) or has_sym(b)):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            kb = canon(dkeys(b), k)
            if kb not in b or not eq_(v, b[kb]):
                return False
        return True
    if ta in (set, frozenset) and type(b) in (set, frozenset) and \
            (has_sym(a) or has_sym(b)):
        return len(a) == len(b) and set_method(a, 'issubset', (b,), {})
    return a == b


def ne_(a, b):
    ta = type(a)
    if ta in (dict, set, frozenset):
        return not eq_(a, b)
    return a != b


def _rank(x):
    if x is None:
        return (0, '')
    if isinstance(x, (int, float)):
        return (1, '')
    if is_text(x):
        return (2, 'unicode')
    return (2, type(x).__name__)


def _ordered(a, b):
    """Comparable the Python 3 way?"""
    if a is None or b is None:
        return False
    an = isinstance(a, (int, float))
    bn = isinstance(b, (int, float))
    if an and bn:
        return True
    if an != bn:
        return False
    if is_text(a) and is_text(b):
        return True
    if is_text(a) or is_text(b):
        return not (is_text(a) or is_text(b)) or False
    return True


_DATES = (_dt.date, _dt.time)


def _order(native, ranks):
    def op(a, b):
        if a is None or b is None or not _ordered(a, b):
            if isinstance(a, _DATES) or isinstance(b, _DATES):
                raise TypeError("can't compare date-like values")
            return ranks(_rank(a), _rank(b))
        return native(a, b)
    return op

import operator as _op
lt_ = _order(_op.lt, _op.lt)
le_ = _order(_op.le, _op.le)
gt_ = _order(_op.gt, _op.gt)
ge_ = _order(_op.ge, _op.ge)


def chain(ops, first, *rest):
    left = first
    for op, thunk in zip(ops, rest):
        right = thunk()
        if not op(left, right):
            return False
        left = right
    return True


def div_(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    if is_sym(a) or is_sym(b):
        leak('true division of symbolic values')
    return a / b


def setop(op, native):
    def f(a, b):
        if isinstance(a, (set, frozenset)) and isinstance(
                b, (set, frozenset)) and (has_sym(a) or has_sym(b)):
            return set_method(a, op, (b,), {})
        return native(a, b)
    return f

sub_ = setop('difference', _op.sub)
or__ = setop('union', _op.or_)
and__ = setop('intersection', _op.and_)
xor_ = setop('symmetric_difference', _op.xor)


# -------------------------------------------------------------- formatting

def to_text(x=u'', encoding='ascii', errors='strict'):
    """unicode(x)"""
    tx = type(x)
    if tx is bytes:
        return x.decode(encoding, errors)
    if tx is SymStr:
        return x if x.cls is str else SymStr(x.c)
    if tx is str:
        return x
    if tx is SymInt:
        return int_to_str(x)
    if tx is SymDate:
        if x._cls is _dt.date:
            return x.isoformat()
        leak('unicode() of a symbolic %s' % x._cls.__name__)
    if x is None or tx is bool or tx is int:
        return str(x)
    if isinstance(x, str):
        return str.__str__(x)
    if isinstance(x, type) or isinstance(x, types.ModuleType):
        return str(x)
    u = getattr(tx, '__unicode__', None)
    if u is not None:
        r = u(x)
        if not is_text(r):
            raise TypeError('__unicode__ returned non-unicode')
        return r
    if tx in (list, tuple, dict, set, frozenset) or (
            isinstance(x, (list, tuple, dict)) and
            tx.__str__ in (object.__str__, list.__str__)):
        return py2_repr(x)
    if tx is float:
        return '%.12g' % x if x != int(x) else str(x)
    s = tx.__str__
    if isinstance(s, types.FunctionType):
        return s(x)
    r = getattr(tx, '__repr__')
    if isinstance(r, types.FunctionType) and s is object.__str__:
        return r(x)
    return str(x)


def to_str(x):
    """Python 2 str(x); text stands in for byte strings."""
    if is_text(x):
        if type(x) is SymStr:
            x.encode('ascii')
        return x
    tx = type(x)
    if not is_sym(x) and isinstance(tx.__str__, types.FunctionType):
        return tx.__str__(x)
    return to_text(x)


def py2_repr(x):
    tx = type(x)
    if tx is SymStr:
        return repr_text(x)
    if tx is SymInt:
        return int_to_str(x)
    if isinstance(x, str):
        f = tx.__repr__
        if isinstance(f, types.FunctionType):
            return f(x)
        return repr_text(x)
    if x is None or tx is bool or tx is int or tx is float:
        return repr(x)
    f = tx.__repr__
    if isinstance(f, types.FunctionType):
        return f(x)
    if f is list.__repr__:
        return _joinrepr('[', [py2_repr(i) for i in list.__iter__(x)], ']')
    if f is tuple.__repr__:
        if len(x) == 1:
            return _joinrepr('(', [py2_repr(x[0])], ',)')
        return _joinrepr('(', [py2_repr(i) for i in x], ')')
    if f is dict.__repr__:
        out = []
        for k, v in dict.items(x):
            out.append(py2_repr(k) + ': ' + py2_repr(v))
        return _joinrepr('{', out, '}')
    if f is set.__repr__ or f is frozenset.__repr__:
        return _joinrepr(tx.__name__ + '([', [py2_repr(i) for i in x], '])')
    if tx is SymDate:
        leak('repr() of a symbolic date')
    return repr(x)


def _joinrepr(a, items, b):
    out = a
    for n, i in enumerate(items):
        if n:
            out = out + ', '
        out = out + i
    return out + b


_OPAQUE = '<symbolic>'


def mod_(a, b):
    if type(a) is SymStr:
        a = resolve(a)
        if type(a) is SymStr:
            return mod_symbolic_format(a, b)
    if isinstance(a, str):
        return mod_format(a, b)
    return a % b


def mod_symbolic_format(a, b):
    # literal text with symbolic characters: sound only when none of them
    # can be a '%'
    p = explore.current
    fixed, holes = [], {}
    for c in a.c:
        if type(c) is T:
            if branch(eq(c, 37)):
                fixed.append(37)
            else:
                h = 0xE000 + len(holes)
                holes[h] = c
                fixed.append(h)
        else:
            fixed.append(c)
    r = mod_format(''.join(map(chr, fixed)), b)
    out = []
    for c in chars_of(r):
        out.append(holes.get(c, c) if type(c) is not T else c)
    return mkstr(out)


def mod_format(fmt, args):
    is_map = not isinstance(args, (tuple, str)) and type(args) is not SymStr \
        and hasattr(type(args), '__getitem__') and not is_sym(args)
    if isinstance(args, tuple) and type(args) is not SymDate:
        pos = list(args)
    else:
        pos = [args]
    used = 0
    used_map = False
    out = ''
    i, n = 0, len(fmt)
    while i < n:
        j = fmt.find('%', i)
        if j < 0:
            out = out + fmt[i:]
            break
        if j > i:
            out = out + fmt[i:j]
        i = j + 1
        if i >= n:
            raise ValueError('incomplete format')
        if fmt[i] == '%':
            out = out + '%'
            i += 1
            continue
        key = None
        if fmt[i] == '(':
            depth, k = 1, i + 1
            while k < n and depth:
                if fmt[k] == '(':
                    depth += 1
                elif fmt[k] == ')':
                    depth -= 1
                k += 1
            if depth:
                raise ValueError('incomplete format key')
            if not is_map:
                raise TypeError('format requires a mapping')
            key = fmt[i + 1:k - 1]
            i = k
        flags = ''
        while i < n and fmt[i] in '#0- +':
            flags += fmt[i]
            i += 1

        def star():
            nonlocal used
            if used >= len(pos):
                raise TypeError('not enough arguments for format string')
            used += 1
            v = pos[used - 1]
            return v.__index__()
        width = prec = None
        if i < n and fmt[i] == '*':
            width = star()
            i += 1
        else:
            w = ''
            while i < n and fmt[i].isdigit():
                w += fmt[i]
                i += 1
            width = int(w) if w else None
        if i < n and fmt[i] == '.':
            i += 1
            if i < n and fmt[i] == '*':
                prec = star()
                i += 1
            else:
                w = ''
                while i < n and fmt[i].isdigit():
                    w += fmt[i]
                    i += 1
                prec = int(w) if w else 0
        while i < n and fmt[i] in 'hlL':
            i += 1
        if i >= n:
            raise ValueError('incomplete format')
        conv = fmt[i]
        i += 1
        if key is not None:
            v = getitem(args, key)
            used_map = True
        else:
            if used >= len(pos):
                raise TypeError('not enough arguments for format string')
            v = pos[used]
            used += 1
        out = out + _convert(conv, v, flags, width, prec)
    if used < len(pos) and not is_map and not used_map:
        raise TypeError(
            'not all arguments converted during string formatting')
    return out


def _pad(s, flags, width):
    if width is None or len(s) >= width:
        return s
    if '-' in flags:
        return s + ' ' * (width - len(s))
    return ' ' * (width - len(s)) + s


def _convert(conv, v, flags, width, prec):
    if conv == 's':
        s = to_text(v)
        if prec is not None:
            s = s[:prec]
        return _pad(s, flags, width)
    if conv == 'r':
        if is_sym(v):
            # representation of symbolic data only ever appears in
            # diagnostics; it is kept opaque
            return _OPAQUE
        return _pad(py2_repr(v), flags, width)
    if conv in 'diu':
        if is_text(v) or v is None:
            raise TypeError('%%%s format: a number is required, not %s' % (
                conv, 'unicode' if is_text(v) else 'NoneType'))
        t = iterm(v)
        if type(t) is not T:
            if isinstance(v, SymDate) or not hasattr(v, '__int__'):
                raise TypeError('%%%s format: a number is required' % conv)
            spec = '%' + flags + ('' if width is None else str(width)) + \
                ('' if prec is None else '.%d' % prec) + 'd'
            return spec % int(v)
        if '+' in flags or ' ' in flags or prec is not None:
            leak('integer format flags on a symbolic integer')
        negative = branch(lt(t, 0))
        ds = [add(d, 48) for d in int_digits(
            terms.neg(t) if negative else t,
            width - (1 if negative else 0)
            if width and '0' in flags and '-' not in flags else 0)]
        body = len(ds) + (1 if negative else 0)
        if '0' in flags and '-' not in flags and width and body < width:
            ds = [48] * (width - body) + ds
        s = mkstr(([45] if negative else []) + ds)
        return _pad(s, flags, width)
    if conv == 'c' and is_sym(v):
        return v if is_text(v) else mkstr([v.t])
    if is_sym(v):
        leak('%%%s of a symbolic value' % conv)
    spec = '%' + flags + ('' if width is None else str(width)) + \
        ('' if prec is None else '.%d' % prec) + conv
    return spec % (v,)


def str_format(fmt, args, kw):
    """'...'.format(): plain fields only."""
    out, i, auto = '', 0, 0
    while i < len(fmt):
        ch = fmt[i]
        if ch in '{}' and fmt[i:i + 2] == ch * 2:
            out = out + ch
            i += 2
        elif ch == '{':
            j = fmt.index('}', i)
            field = fmt[i + 1:j]
            i = j + 1
            conv = spec = ''
            if ':' in field:
                field, spec = field.split(':', 1)
            if '!' in field:
                field, conv = field.split('!', 1)
            import re
            m = re.match(r'[^.\[]*', field)
            head, rest = m.group(0), field[m.end():]
            if head == '':
                v = args[auto]
                auto += 1
            elif head.isdigit():
                v = args[int(head)]
            else:
                v = kw[head]
            for attr, item in re.findall(r'\.([^.\[]+)|\[([^\]]+)\]', rest):
                if attr:
                    v = getattr(v, attr)
                else:
                    v = getitem(v, int(item) if item.isdigit() else item)
            if conv == 'r':
                v = _OPAQUE if is_sym(v) else py2_repr(v)
            elif conv == 's':
                v = to_text(v)
            if spec == '' or spec == 's':
                out = out + to_text(v)
            else:
                m = re.match(r'^(0?)(\d*)([dis]?)$', spec)
                if not m:
                    if is_sym(v):
                        leak('format spec %r' % spec)
                    out = out + format(v, spec)
                    continue
                zero, w, c = m.groups()
                if not c:
                    c = 's' if is_text(v) else 'd'
                fl = zero
                if c == 's':
                    fl = '-'
                out = out + _convert(c, v, fl, int(w) if w else None, None)
        else:
            out = out + ch
            i += 1
    return out


# --------------------------------------------------------------- attributes

class ByteStr(str):
    """Concrete non-ASCII byte string."""

    def decode(self, encoding='ascii', errors='strict'):
        return self.encode('latin-1').decode(encoding, errors)


def _encode(s, encoding='ascii', errors='strict'):
    if type(s) is SymStr:
        return s.encode(encoding, errors)
    enc = encoding.lower().replace('_', '-')
    if enc == 'idna':
        from .idna import idna_encode
        return idna_encode(s)
    b = str.encode(s, encoding, errors)
    try:
        return b.decode('ascii')
    except UnicodeDecodeError:
        return ByteStr(b.decode('latin-1'))


def _decode(s, encoding='ascii', errors='strict'):
    if type(s) is SymStr:
        return s.decode(encoding, errors)
    if encoding == 'raw_unicode_escape':
        # produced from repr(): undo \uXXXX only
        import re
        return re.sub(r'\\u([0-9a-f]{4})',
                      lambda m: chr(int(m.group(1), 16)), s)
    if isinstance(s, ByteStr):
        return s.decode(encoding, errors)
    str.encode(s, 'ascii')
    return s


def attr(o, name):
    """Attribute access for names that differ between Python 2 and 3."""
    if isinstance(o, dict) and name in ('iteritems', 'iterkeys',
                                        'itervalues', 'has_key', 'viewitems',
                                        'viewkeys', 'viewvalues'):
        own = getattr(type(o), name, None)
        if own is not None:
            return getattr(o, name)
        if name == 'iteritems':
            return lambda: iter(list(dict.items(o)))
        if name == 'iterkeys':
            return lambda: iter(dkeys(o))
        if name == 'itervalues':
            return lambda: iter(list(dict.values(o)))
        if name == 'has_key':
            return lambda k: in_(k, o)
        return getattr(o, {'viewitems': 'items', 'viewkeys': 'keys',
                           'viewvalues': 'values'}[name])
    if name == 'encode' and is_text(o):
        return functools.partial(_encode, o)
    if name == 'decode' and is_text(o):
        return functools.partial(_decode, o)
    if name == 'next' and not hasattr(o, 'next'):
        return o.__next__
    if name == 'func_name':
        return o.__name__
    if name == 'im_func':
        return o.__func__
    if name == 'im_self':
        return o.__self__
    if name == 'message' and isinstance(o, Exception):
        return o.args[0] if o.args else ''
    return getattr(o, name)


PY2_ATTRS = set(['iteritems', 'iterkeys', 'itervalues', 'has_key',
                 'viewitems', 'viewkeys', 'viewvalues', 'encode', 'decode',
                 'next', 'func_name', 'im_func', 'im_self', 'message'])


# --------------------------------------------------------------------- calls

def _int(x=0, *base):
    if base:
        if is_sym(x):
            if base[0] != 10:
                leak('int(text, base)')
        else:
            return int(x, *base)
    tx = type(x)
    if tx is SymInt:
        return x
    if tx is SymStr or isinstance(x, str):
        return parse_int(x)
    if tx is SymDate:
        raise TypeError("int() argument must be a string or a number")
    if isinstance(x, bytes):
        if x.isascii():
            return parse_int(x.decode('ascii'))
        raise ValueError('invalid literal for int(): %r' % x)
    return int(x)


def _bool(x=False):
    return True if x else False


def _type(*a):
    if len(a) == 1:
        x = a[0]
        if is_sym(x):
            return x.__class__
        return type(x)
    return type(*a)


def _hasattr(o, name):
    if type(name) is SymStr:
        name = resolve(name)
        if type(name) is SymStr:
            try:
                _symgetattr(o, name, ())
            except AttributeError:
                return False
            return True
    if isinstance(o, dict) and name in ('iteritems', 'iterkeys', 'itervalues',
                                        'has_key'):
        return True
    if is_text(o):
        if name == '__iter__':
            return False
        if name in ('decode', 'encode'):
            return True
    if name in ('__next__',) and not isinstance(o, types.GeneratorType):
        pass
    if name == 'next' and hasattr(o, '__next__'):
        return True
    try:
        getattr(o, name)
    except Exception:
        return False
    return True


def _getattr(o, name, *default):
    if type(name) is SymStr:
        name = resolve(name)
        if type(name) is SymStr:
            return _symgetattr(o, name, default)
    if name in PY2_ATTRS:
        try:
            return attr(o, name)
        except AttributeError:
            if default:
                return default[0]
            raise
    return getattr(o, name, *default)


def _symgetattr(o, name, default):
    pool = [n for n in dir(o) if n != '__class__' and len(n) == len(name)]
    for n in pool:
        if name == n:
            return getattr(o, n, *default)
    dynamic = getattr(type(o), '__getattr__', None)
    if dynamic is not None:
        try:
            return dynamic(o, name)
        except AttributeError:
            if not default:
                raise
    if default:
        return default[0]
    raise AttributeError('no such attribute')


def _setattr(o, name, value):
    if type(name) is SymStr:
        name = resolve(name)
        if type(name) is SymStr:
            leak('setattr with a symbolic name')
    return setattr(o, name, value)


def _set(items=()):
    items = list(items)
    if has_sym(items):
        return build_set(items)
    return set(items)


def _frozenset(items=()):
    items = list(items)
    if has_sym(items):
        return frozenset(build_set(items))
    return frozenset(items)


def _ord(c):
    if type(c) is SymStr:
        if len(c.c) != 1:
            raise TypeError('ord() expected a character')
        return mkint(c.c[0])
    return ord(c)


def _chr(i):
    if type(i) is SymInt:
        return mkstr([i.t])
    return chr(i)


def _sum(items, start=0):
    acc = start
    for i in items:
        acc = acc + i
    return acc


def _sorted(items, cmp=None, key=None, reverse=False):
    if cmp is not None:
        key = functools.cmp_to_key(cmp)
    items = list(items)
    if key is None:
        key = Py2Key
    else:
        k0 = key
        key = lambda x: Py2Key(call(k0, x))
    return sorted(items, key=key, reverse=reverse)


class Py2Key(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __lt__(self, other):
        return py2_lt(self.v, other.v)


def py2_lt(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        for x, y in zip(a, b):
            if not eq_(x, y):
                return py2_lt(x, y)
        return len(a) < len(b)
    return lt_(a, b)


def _extreme(better):
    def f(*a, **kw):
        key = kw.get('key') or (lambda x: x)
        items = list(a[0]) if len(a) == 1 else list(a)
        if not items:
            raise ValueError('empty sequence')
        best = items[0]
        for i in items[1:]:
            if better(call(key, i), call(key, best)):
                best = i
        return best
    return f


def _cmp(a, b):
    if eq_(a, b):
        return 0
    return -1 if py2_lt(a, b) else 1


def _abs(x):
    return x.__abs__()


def _round(*a):
    if is_sym(a[0]):
        leak('round')
    return round(*a)


def _float(*a):
    if a and is_sym(a[0]):
        leak('float()')
    return float(*a)


def _pow(*a):
    return pow(*[x.__index__() if type(x) is SymInt else x for x in a])


def _divmod(a, b):
    return divmod(a, b)


def _isinstance(o, cls):
    return isinstance(o, cls)


def _iter(*a):
    return iter(*a)


def _list(x=()):
    return list(x)


def _map(f, *its):
    if f is None:
        return list(zip(*its)) if len(its) > 1 else list(its[0])
    return [call(f, *a) for a in zip(*its)]


def _filter(f, it):
    if f is None:
        r = [x for x in it if x]
    else:
        r = [x for x in it if call(f, x)]
    if isinstance(it, tuple):
        return tuple(r)
    if is_text(it):
        return mkstr([c for x in r for c in chars_of(x)])
    return r


def _range(*a):
    return list(range(*a))


def _reduce(f, it, *init):
    return functools.reduce(f, it, *init)


def _dict_fromkeys(it, value=None):
    d = {}
    for k in it:
        dict_put(d, k, value)
    return d


def _print(*a, **k):
    pass


def _hash(x):
    if is_sym(x):
        leak('hash() of a symbolic value')
    return hash(x)


def _id(x):
    return id(x)


def _open(*a, **k):
    leak('file access')


def _str_cls(cls, *a, **kw):
    """str subclass construction."""
    if a and type(a[0]) is SymStr:
        return SymStr(a[0].c, cls)
    if a and type(a[0]) is SymInt:
        return mkstr(chars_of(int_to_str(a[0])), cls)
    if a and not isinstance(a[0], str):
        t = to_text(a[0])
        return mkstr(chars_of(t), cls)
    return cls(*a, **kw)


def _dt_cls(cls):
    def make(*a, **kw):
        if has_sym(list(a)) or has_sym(list(kw.values())):
            return mkdate(cls, a, kw)
        return cls(*a, **kw)
    return make


BUILTINS = {
    str: to_str, int: _int, bool: _bool, repr: py2_repr, type: _type,
    hasattr: _hasattr, getattr: _getattr, setattr: _setattr, set: _set,
    frozenset: _frozenset, dict: make_dict, ord: _ord, chr: _chr,
    sum: _sum, sorted: _sorted, min: _extreme(lt_), max: _extreme(gt_),
    map: _map, filter: _filter, zip: lambda *a: list(zip(*a)),
    range: _range, round: _round, float: _float, pow: _pow, abs: _abs,
    hash: _hash, print: _print, open: _open, dict.fromkeys: _dict_fromkeys,
    functools.reduce: _reduce,
    _dt.date: _dt_cls(_dt.date), _dt.datetime: _dt_cls(_dt.datetime),
    _dt.time: _dt_cls(_dt.time),
    _op.contains: lambda a, b: in_(b, a), _op.lt: lt_, _op.le: le_,
    _op.gt: gt_, _op.ge: ge_, _op.eq: eq_, _op.ne: ne_, _op.mod: mod_,
    _op.getitem: getitem,
}
_BY_ID = dict((id(k), v) for k, v in BUILTINS.items())
_STR_METHOD_NAMES = set(n for n in dir(str) if not n.startswith('__'))
import decimal as _decimal
_NUMERIC_LEAK = set([_decimal.Decimal])


def call(f, *a, **kw):
    tf = type(f)
    if tf is types.FunctionType or tf is types.MethodType:
        return f(*a, **kw)
    h = _BY_ID.get(id(f))
    if h is not None:
        return h(*a, **kw)
    if tf is types.BuiltinFunctionType:
        o = f.__self__
        if isinstance(o, dict):
            n = f.__name__
            if n in _DICT_METHODS:
                return dict_method(o, n, a, kw)
        elif isinstance(o, str):
            n = f.__name__
            if n == 'join':
                items = list(a[0])
                for x in items:
                    if type(x) is SymStr:
                        return SymStr(chars_of(o)).join(items)
                return f(items)
            if n == 'format':
                return str_format(o, a, kw)
            if n == 'encode':
                return _encode(o, *a, **kw)
            for x in a:
                if is_sym(x) or (type(x) is tuple and has_sym(x)):
                    return getattr(SymStr(chars_of(o)), n)(*a, **kw)
            if n == 'split' or n == 'rsplit' or n == 'strip' or \
                    n == 'lstrip' or n == 'rstrip':
                # whitespace classes follow Jython
                if not o.isascii():
                    return getattr(SymStr(chars_of(o)), n)(*a, **kw)
            elif n in ('lower', 'upper', 'isspace', 'isdigit', 'isalnum',
                       'isalpha', 'isdecimal', 'isnumeric'):
                if not o.isascii():
                    return getattr(SymStr(chars_of(o)), n)(*a, **kw)
        elif isinstance(o, (set, frozenset)):
            n = f.__name__
            if n in _SET_METHODS and (has_sym(o) or has_sym(list(a))):
                return set_method(o, n, a, kw)
        elif isinstance(o, list):
            if f.__name__ == 'sort':
                return _list_sort(o, *a, **kw)
            if f.__name__ == 'index':
                return _list_index(o, *a)
        return f(*a, **kw)
    if tf is _MethodDescr or tf is _Wrapper:
        n = f.__name__
        oc = f.__objclass__
        if a:
            o = a[0]
            if oc is dict and n in _DICT_METHODS:
                return dict_method(o, n, a[1:], kw)
            if oc is str:
                if n == 'join':
                    return call(o.join, *a[1:])
                if n == '__repr__':
                    return repr_text(o)
                if has_sym(list(a)):
                    return getattr(SymStr(chars_of(o)), n)(*a[1:], **kw)
            if oc is list and n == 'sort':
                return _list_sort(o, *a[1:], **kw)
            if oc is list and n == 'index':
                return _list_index(o, *a[1:])
            if oc in (set, frozenset) and n in _SET_METHODS and \
                    has_sym(list(a)):
                return set_method(o, n, a[1:], kw)
        return f(*a, **kw)
    if isinstance(f, type):
        if issubclass(f, str):
            return _str_cls(f, *a, **kw)
        if f in _NUMERIC_LEAK and has_sym(list(a)):
            leak('%s() of a symbolic value' % f.__name__)
        if f is list or f is tuple:
            return f(*a, **kw)
        if f is type:
            return _type(*a)
    return f(*a, **kw)


def _list_index(o, v, start=0, stop=None):
    n = list.__len__(o)
    for i in range(*slice(start, stop).indices(n)):
        x = list.__getitem__(o, i)
        if x is v or eq_(x, v):
            return i
    raise ValueError('item is not in list')


def _list_sort(o, cmp=None, key=None, reverse=False):
    if cmp is not None:
        key = functools.cmp_to_key(cmp)
    if key is None:
        k = Py2Key
    else:
        k = lambda x: Py2Key(call(key, x))
    return list.sort(o, key=k, reverse=reverse)

"""A backtracking matcher for Python 2 regular expressions whose character
tests are decided by the solver.  Patterns are parsed by CPython's sre parser;
flags follow Python 2 (no re.UNICODE means ASCII classes and ASCII case
folding).  Pattern text may itself contain symbolic characters."""
import re as _re
from re import _constants as K, _parser

from . import explore, tables
from .explore import Leak, branch
from .terms import T, and_, eq, inr, not_, or_
from .values import SymStr, chars_of, has_sym, is_text, lower_char, mkstr

I, L, M, S, U, X = (_re.I, _re.L, _re.M, _re.S, _re.U, _re.X)
error = _re.error

_CAT = {
    K.CATEGORY_DIGIT: (tables.RE_D, tables.RE_DU),
    K.CATEGORY_SPACE: (tables.RE_S, tables.RE_SU),
    K.CATEGORY_WORD: (tables.RE_W, tables.RE_WU),
}
_NCAT = {
    K.CATEGORY_NOT_DIGIT: K.CATEGORY_DIGIT,
    K.CATEGORY_NOT_SPACE: K.CATEGORY_SPACE,
    K.CATEGORY_NOT_WORD: K.CATEGORY_WORD,
}
_META = [ord(ch) for ch in '.^$*+?{}[]\\|()']
_PUA = 0xF000


def _fold(rs, uni):
    """All characters whose lower case is (the lower case of one) in *rs*."""
    extra = []
    codes = []
    for lo, hi in rs:
        if hi - lo > 3000:
            continue
        codes.extend(range(lo, hi + 1))
    S_ = set(codes)
    low = set()
    for c in S_:
        m = tables.LOWER_MAP.get(c) if (uni or c < 128) else None
        low.add(m[0] if m and len(m) == 1 else c)
    if uni:
        src = [c for c, m in tables.LOWER_MAP.items()
               if len(m) == 1 and m[0] in low]
    else:
        src = [c for c, m in tables.LOWER_MAP.items()
               if c < 128 and len(m) == 1 and m[0] in low]
    return tables.union(rs, tables.from_codes(low | set(src)))


_OPEN_ESCAPE = _re.compile(
    r'(?<!\\)(?:\\\\)*\\(?:0[0-7]?|[1-9][0-9]?|x[0-9a-fA-F]?|u[0-9a-fA-F]{0,3})\Z')


class Pattern(object):
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.flags = flags
        self._holes = {}
        if type(pattern) is SymStr:
            text = self._concretise(pattern)
            self._native = None
        else:
            text = pattern
            py3 = flags if flags & U else flags | _re.A
            self._native = _re.compile(text, py3 & ~(U if not flags & U else 0))
        p = _parser.parse(text, (flags & ~U) | (0 if flags & U else _re.A))
        self._tree = list(p)
        self.groups = p.state.groups - 1
        self.groupindex = dict(p.state.groupdict)
        # inline flags such as (?i)
        self.flags = (flags | (p.state.flags & (I | M | S | X | U)))
        if not flags & U and p.state.flags & _re.A:
            self.flags &= ~U
        self._sets = {}

    def _concretise(self, pattern):
        out = []
        c = pattern.c
        k = 0
        for i, x in enumerate(c):
            if type(x) is not T:
                out.append(chr(x))
                continue
            # a symbolic character in the pattern text: literal unless the
            # path lets it be a metacharacter / an escaped letter or digit
            nback = 0
            while i - nback - 1 >= 0 and c[i - nback - 1] == 92:
                nback += 1
            if nback % 2:
                special = inr(x, ((48, 57), (65, 90), (97, 122)))
            elif _OPEN_ESCAPE.search(''.join(out)):
                # may go on with an octal, hexadecimal or group number
                special = inr(x, tables.from_codes(
                    [ord(ch) for ch in '0123456789abcdefABCDEF'] + _META))
            else:
                special = or_(inr(x, tables.from_codes(_META)),
                              inr(x, tables.from_codes(
                                  [ord(ch) for ch in '-,=!<>:#& \t\n'])
                                  if self._in_special(c, i) else ()))
            if branch(special):
                out.append(chr(explore.current.concretize(x)))
                continue
            hole = chr(_PUA + k)
            k += 1
            self._holes[ord(hole)] = x
            out.append(hole)
        return ''.join(out)

    def _in_special(self, c, i):
        # inside an (unescaped) bracket or brace, or in verbose mode
        if self.flags & X:
            return True
        depth = False
        for j in range(i):
            if c[j] == 92:
                continue
            if c[j] in (91, 123, 40) and (j == 0 or c[j - 1] != 92):
                depth = True
        return depth

    # ---- character predicates
    def _lit(self, code):
        """literal -> function(char) -> term"""
        hole = self._holes.get(code)
        ic = self.flags & I
        if hole is not None:
            if ic:
                raise Leak('symbolic pattern character with IGNORECASE')
            return lambda x: eq(x, hole)
        if ic:
            rs = _fold(((code, code),), self.flags & U)
            return lambda x: inr(x, rs)
        return lambda x: eq(x, code)

    def _setpred(self, items):
        items = list(items)
        negate = False
        rs = []
        holes = []
        uni = 1 if self.flags & U else 0
        for op, av in items:
            if op is K.NEGATE:
                negate = True
            elif op is K.LITERAL:
                if av in self._holes:
                    holes.append(self._holes[av])
                else:
                    rs.append((av, av))
            elif op is K.RANGE:
                if av[0] in self._holes or av[1] in self._holes:
                    raise Leak('symbolic character range')
                rs.append(tuple(av))
            elif op is K.CATEGORY:
                if av in _CAT:
                    rs.extend(_CAT[av][uni])
                else:
                    rs.extend(tables.complement(_CAT[_NCAT[av]][uni]))
            else:
                raise Leak('regex set item %s' % op)
        rs = tables.union(rs)
        if self.flags & I:
            rs = _fold(rs, uni)
        if negate and not holes:
            rs = tables.complement(rs)
            return lambda x: inr(x, rs)
        if holes:
            if negate:
                return lambda x: not_(or_(inr(x, rs),
                                          *[eq(x, h) for h in holes]))
            return lambda x: or_(inr(x, rs), *[eq(x, h) for h in holes])
        return lambda x: inr(x, rs)

    def _single(self, node):
        """Single-character node -> predicate, else None."""
        op, av = node
        if op is K.LITERAL:
            return self._lit(av)
        if op is K.NOT_LITERAL:
            f = self._lit(av)
            return lambda x: not_(f(x))
        if op is K.ANY:
            if self.flags & S:
                return lambda x: True
            return lambda x: not_(eq(x, 10))
        if op is K.IN:
            key = id(av)
            f = self._sets.get(key)
            if f is None:
                f = self._sets[key] = self._setpred(av)
            return f
        return None

    # ---- matcher (continuation passing)
    def _m(self, nodes, i, s, pos, g, k):
        if i == len(nodes):
            return k(pos, g)
        node = nodes[i]
        op, av = node
        pred = self._single(node)
        if pred is not None:
            if pos < len(s) and branch(pred(s[pos])):
                return self._m(nodes, i + 1, s, pos + 1, g, k)
            return None
        nxt = lambda p, gg: self._m(nodes, i + 1, s, p, gg, k)
        if op is K.AT:
            return nxt(pos, g) if self._at(av, s, pos) else None
        if op is K.SUBPATTERN:
            group, add_f, del_f, sub = av
            if add_f or del_f:
                raise Leak('scoped regex flags')

            def close(p, gg):
                if group is not None:
                    gg = dict(gg)
                    gg[group] = (pos, p)
                    gg['last'] = group
                return nxt(p, gg)
            return self._m(list(sub), 0, s, pos, g, close)
        if op is K.BRANCH:
            for alt in av[1]:
                r = self._m(list(alt), 0, s, pos, g, nxt)
                if r is not None:
                    return r
            return None
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is K.MAX_REPEAT
            if len(sub) == 1:
                pred = self._single(sub[0])
                if pred is not None:
                    return self._single_repeat(pred, lo, hi, greedy, s, pos,
                                               g, nxt)

            def loop(n, p, gg):
                def again(p2, g2):
                    if p2 == p and n >= lo:
                        return None
                    return loop(n + 1, p2, g2)
                if n < lo:
                    return self._m(sub, 0, s, p, gg, again)
                if greedy:
                    if hi is K.MAXREPEAT or n < hi:
                        r = self._m(sub, 0, s, p, gg, again)
                        if r is not None:
                            return r
                    return nxt(p, gg)
                r = nxt(p, gg)
                if r is not None:
                    return r
                if hi is K.MAXREPEAT or n < hi:
                    return self._m(sub, 0, s, p, gg, again)
                return None
            return loop(0, pos, g)
        if op in (K.ASSERT, K.ASSERT_NOT):
            direction, sub = av
            sub = list(sub)
            if direction < 0:
                w = self._width(sub)
                start = pos - w
                if start < 0:
                    r = None
                else:
                    r = self._m(sub, 0, s, start, g,
                                lambda p, gg: (p, gg) if p == pos else None)
            else:
                r = self._m(sub, 0, s, pos, g, lambda p, gg: (p, gg))
            if op is K.ASSERT:
                return nxt(pos, r[1]) if r is not None else None
            return nxt(pos, g) if r is None else None
        if op is K.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            for ch in s[a:b]:
                if pos >= len(s) or not branch(eq(s[pos], ch)):
                    return None
                pos += 1
            return nxt(pos, g)
        raise Leak('regex construct %s' % op)

    def _single_repeat(self, pred, lo, hi, greedy, s, pos, g, nxt):
        p = pos
        limit = len(s) if hi is K.MAXREPEAT else min(len(s), pos + hi)
        if greedy:
            while p < limit and branch(pred(s[p])):
                p += 1
            while p - pos >= lo:
                r = nxt(p, g)
                if r is not None:
                    return r
                p -= 1
            return None
        while True:
            if p - pos >= lo:
                r = nxt(p, g)
                if r is not None:
                    return r
            if p < limit and branch(pred(s[p])):
                p += 1
            else:
                return None

    def _width(self, sub):
        n = 0
        for node in sub:
            op, av = node
            if self._single(node) is not None:
                n += 1
            elif op is K.SUBPATTERN:
                n += self._width(list(av[3]))
            elif op is K.MAX_REPEAT and av[0] == av[1]:
                n += av[0] * self._width(list(av[2]))
            elif op is K.BRANCH:
                n += self._width(list(av[1][0]))
            elif op in (K.AT, K.ASSERT, K.ASSERT_NOT):
                pass
            else:
                raise Leak('look-behind construct %s' % op)
        return n

    def _at(self, av, s, pos):
        if av is K.AT_BEGINNING:
            if pos == 0:
                return True
            return bool(self.flags & M) and branch(eq(s[pos - 1], 10))
        if av is K.AT_BEGINNING_STRING:
            return pos == 0
        if av is K.AT_END:
            if pos == len(s):
                return True
            if self.flags & M:
                return branch(eq(s[pos], 10))
            return pos == len(s) - 1 and branch(eq(s[pos], 10))
        if av is K.AT_END_STRING:
            return pos == len(s)
        if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            w = _CAT[K.CATEGORY_WORD][1 if self.flags & U else 0]
            a = pos > 0 and branch(inr(s[pos - 1], w))
            b = pos < len(s) and branch(inr(s[pos], w))
            return (a != b) == (av is K.AT_BOUNDARY)
        raise Leak('regex position %s' % av)

    # ---- public API
    def _run(self, string, pos, must_end=False):
        s = chars_of(string)
        return self._m(self._tree, 0, s, pos, {},
                       lambda p, g: (p, g) if not must_end or p == len(s)
                       else None)

    def _subject(self, string):
        if not is_text(string):
            raise TypeError('expected string or buffer')

    def _search(self, string, start):
        for b in range(start, len(string) + 1):
            r = self._run(string, b)
            if r is not None:
                return Match(self, string, b, r[0], r[1])
        return None

    def match(self, string, pos=0, endpos=None):
        if type(string) is bytes:
            string = string.decode('latin-1')
        self._subject(string)
        if endpos is not None:
            string = string[:endpos]
        pos = pos.__index__()
        r = self._run(string, pos)
        return None if r is None else Match(self, string, pos, r[0], r[1])

    def fullmatch(self, string):
        raise AttributeError('fullmatch')

    def search(self, string, pos=0, endpos=None):
        self._subject(string)
        if endpos is not None:
            string = string[:endpos]
        return self._search(string, pos.__index__())

    def finditer(self, string, pos=0):
        self._subject(string)
        start = pos
        while start <= len(string):
            m = self._search(string, start)
            if m is None:
                return
            yield m
            start = m._e + 1 if m._e == m._b else m._e

    def findall(self, string, pos=0):
        out = []
        for m in self.finditer(string, pos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m._get(1, ''))
            else:
                out.append(tuple(m._get(i, '') for i in
                                 range(1, self.groups + 1)))
        return out

    def _expand(self, repl, m):
        if callable(repl):
            return repl(m)
        if '\\' not in repl:
            return repl
        if has_sym(repl):
            raise Leak('symbolic replacement template')
        out, i = '', 0
        while i < len(repl):
            ch = repl[i]
            if ch != '\\':
                out = out + ch
                i += 1
                continue
            nx = repl[i + 1]
            if nx.isdigit():
                j = i + 1
                while j < len(repl) and repl[j].isdigit() and j < i + 3:
                    j += 1
                out = out + (m.group(int(repl[i + 1:j])) or '')
                i = j
            elif nx == 'g':
                j = repl.index('>', i)
                name = repl[i + 3:j]
                out = out + (m.group(int(name) if name.isdigit() else name)
                             or '')
                i = j + 1
            elif nx in 'nrtfvab\\':
                out = out + {'n': '\n', 'r': '\r', 't': '\t', 'f': '\f',
                             'v': '\v', 'a': '\a', 'b': '\b',
                             '\\': '\\'}[nx]
                i += 2
            else:
                out = out + ch + nx
                i += 2
        return out

    def subn(self, repl, string, count=0):
        self._subject(string)
        out, i, n, start = '', 0, 0, 0
        while (count == 0 or n < count) and start <= len(string):
            m = self._search(string, start)
            if m is None:
                break
            b, e = m._b, m._e
            if i < b:
                out = out + string[i:b]
            if not (i == b and i == e and n > 0):
                out = out + self._expand(repl, m)
                i = e
                n += 1
            start = e + 1 if e == b else e
        return out + string[i:], n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        self._subject(string)
        out, last, n, start = [], 0, 0, 0
        while (maxsplit == 0 or n < maxsplit) and start <= len(string):
            m = self._search(string, start)
            if m is None:
                break
            if m._b == m._e:
                if last == len(string):
                    break
                start = m._e + 1
                continue
            out.append(string[last:m._b])
            for i in range(1, self.groups + 1):
                out.append(m._get(i, None))
            n += 1
            last = start = m._e
        out.append(string[last:])
        return out


class Match(object):
    def __init__(self, re, string, b, e, g):
        self.re = re
        self.string = string
        self._b, self._e, self._g = b, e, g
        self.lastindex = g.get('last')
        self.pos = 0
        self.endpos = len(string)

    def _idx(self, i):
        if is_text(i):
            if i not in self.re.groupindex:
                raise IndexError('no such group')
            i = self.re.groupindex[i]
        if not 0 <= i <= self.re.groups:
            raise IndexError('no such group')
        return i

    def span(self, i=0):
        i = self._idx(i)
        if i == 0:
            return self._b, self._e
        return self._g.get(i, (-1, -1))

    def _get(self, i, default):
        a, b = self.span(i)
        if a < 0:
            return default
        return self.string[a:b]

    def group(self, *idx):
        if not idx:
            idx = (0,)
        if len(idx) == 1:
            return self._get(idx[0], None)
        return tuple(self._get(i, None) for i in idx)

    def groups(self, default=None):
        return tuple(self._get(i, default)
                     for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return dict((k, self._get(v, default))
                    for k, v in self.re.groupindex.items())

    def start(self, i=0):
        return self.span(i)[0]

    def end(self, i=0):
        return self.span(i)[1]

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self.lastindex:
                return k


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if type(pattern) is SymStr:
        return Pattern(pattern, int(flags))
    key = (pattern, int(flags))
    p = _cache.get(key)
    if p is None:
        p = _cache[key] = Pattern(pattern, int(flags))
    return p


def match(pattern, string, flags=0):
    return compile(pattern, flags).match(string)


def search(pattern, string, flags=0):
    return compile(pattern, flags).search(string)


def findall(pattern, string, flags=0):
    return compile(pattern, flags).findall(string)


def finditer(pattern, string, flags=0):
    return compile(pattern, flags).finditer(string)


def sub(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).sub(repl, string, count)


def subn(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).subn(repl, string, count)


def split(pattern, string, maxsplit=0, flags=0):
    return compile(pattern, flags).split(string, maxsplit)


_alnum = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')


def escape(pattern):
    """Python 2.7's re.escape."""
    out = []
    for c in chars_of(pattern):
        if branch(inr(c, ((48, 57), (65, 90), (97, 122)))):
            out.append(c)
        elif branch(eq(c, 0)):
            out.extend([92, 48, 48, 48])
        else:
            out.extend([92, c])
    return mkstr(out)


IGNORECASE, LOCALE, MULTILINE, DOTALL, UNICODE, VERBOSE = I, L, M, S, U, X

"""Jython's idna codec: identity on ASCII text whose labels fit 63 characters;
other text is pinned to one value per path and encoded natively."""
import re

from . import explore, terms
from .explore import Leak, branch
from .terms import and_, inr
from .values import SymStr, chars_of, leak, mkstr

_dots = re.compile(u"[\u002E\u3002\uFF0E\uFF61]")


def idna_encode(s):
    if not len(s):
        return s if type(s) is SymStr else str(s)
    c = chars_of(s)
    if branch(and_(*[inr(x, ((0, 127),)) for x in c])):
        if len(c) <= 63:
            return mkstr(c)
        if type(s) is SymStr:
            leak('idna of long symbolic text')
    elif type(s) is SymStr:
        p = explore.current
        s = ''.join(chr(p.concretize(x)) for x in c)
    from encodings.idna import ToASCII
    labels = _dots.split(s)
    tail = ''
    if labels and not labels[-1]:
        tail = '.'
        del labels[-1]
    out = []
    for label in labels:
        if not label:
            out.append('')
            continue
        try:
            out.append(ToASCII(label).decode('ascii'))
        except UnicodeError:
            # java.lang.IllegalArgumentException: not a Python exception
            leak('idna: label rejected by the platform codec')
    return '.'.join(out) + tail

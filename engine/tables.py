"""Unicode facts of Jython 2.7, extracted by extract_tables.py."""
import json
import os

_path = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                     '..', 'data', 'jython_unicode.json')
with open(_path) as fp:
    _d = json.load(fp)


def _r(key):
    return tuple((a, b) for a, b in _d[key])

STRIP = _r('strip')
ISSPACE = _r('isspace')
SPLITSPACE = _r('splitspace')
SPLITLINES = _r('splitlines')
ISDIGIT = _r('isdigit')
ISDECIMAL = _r('isdecimal')
ISNUMERIC = _r('isnumeric')
ISALPHA = _r('isalpha')
ISALNUM = _r('isalnum')
ISUPPER = _r('isupper')
ISLOWER = _r('islower')
RE_D, RE_S, RE_W = _r('re_d'), _r('re_s'), _r('re_w')
RE_S = ((9, 13), (32, 32))
RE_DU, RE_SU, RE_WU = _r('re_du'), _r('re_su'), _r('re_wu')
INT_SPACE = _r('int_space_after')

# zero code points of the decimal digit runs accepted by int()
_val = {}
for v, codes in _d['digits'].items():
    for c in codes:
        _val[c] = int(v)
DIGIT_ZEROS = tuple(sorted(c for c in _val if _val[c] == 0))
for z in DIGIT_ZEROS:
    for k in range(10):
        assert _val[z + k] == k
assert len(_val) == 10 * len(DIGIT_ZEROS)
DIGITS = tuple((z, z + 9) for z in DIGIT_ZEROS)

BMP = ((0, 0xD7FF), (0xE000, 0xFFFF))
ASCII = ((0, 127),)


def union(*rs):
    allr = sorted(r for x in rs for r in x)
    out = []
    for lo, hi in allr:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def complement(rs, top=0xFFFF):
    out, at = [], 0
    for lo, hi in union(rs):
        if lo > at:
            out.append((at, lo - 1))
        at = hi + 1
    if at <= top:
        out.append((at, top))
    return tuple(out)


def intersect(a, b):
    return complement(union(complement(a), complement(b)))


def from_codes(codes):
    out = []
    for c in sorted(set(codes)):
        if out and out[-1][1] == c - 1:
            out[-1] = (out[-1][0], c)
        else:
            out.append((c, c))
    return tuple(out)


def _groups(key):
    deltas, multi = {}, {}
    for c, m in _d[key].items():
        c = int(c)
        if len(m) == 1:
            deltas.setdefault(m[0] - c, []).append(c)
        else:
            multi[c] = m
    return ([(d, from_codes(cs)) for d, cs in
             sorted(deltas.items(), key=lambda i: -len(i[1]))], multi)

LOWER, LOWER_MULTI = _groups('lower')
UPPER, UPPER_MULTI = _groups('upper')
LOWER_MAP = dict((int(c), m) for c, m in _d['lower'].items())
UPPER_MAP = dict((int(c), m) for c, m in _d['upper'].items())

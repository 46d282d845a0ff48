# Run once under Jython 2.7: dumps the Unicode facts the encoding relies on
# (which characters strip()/isspace()/\d/\w/\s/isdigit/int() recognise, case
# mappings) so that the symbolic string operations follow Jython, not the
# CPython the engine happens to run on.
#   jython -B extract_tables.py > ../data/jython_unicode.json
import json, re, sys


def ranges(pred):
    out = []
    for c in range(0x10000):
        if 0xD800 <= c <= 0xDFFF:
            continue
        try:
            ok = pred(unichr(c))
        except Exception:
            ok = False
        if ok:
            if out and out[-1][1] == c - 1:
                out[-1][1] = c
            else:
                out.append([c, c])
    return out


def digits():
    out = {}
    for c in range(0x10000):
        if 0xD800 <= c <= 0xDFFF:
            continue
        try:
            v = int(unichr(c))
        except Exception:
            continue
        out.setdefault(str(v), []).append(c)
    return out


def casemap(fn):
    out = {}
    for c in range(0x10000):
        if 0xD800 <= c <= 0xDFFF:
            continue
        r = fn(unichr(c))
        if r != unichr(c):
            out[str(c)] = [ord(x) for x in r]
    return out


def pat(p, fl):
    r = re.compile(p, fl)
    return lambda ch: r.match(ch) is not None

data = {
    'version': sys.version,
    'strip': ranges(lambda ch: ch.strip() == u''),
    'strip_inner': ranges(lambda ch: (u'a' + ch).strip() == u'a'),
    'isspace': ranges(lambda ch: ch.isspace()),
    'splitspace': ranges(lambda ch: len((u'a' + ch + u'a').split()) == 2),
    'splitlines': ranges(lambda ch: len((u'a' + ch + u'a').splitlines()) == 2),
    'isdigit': ranges(lambda ch: ch.isdigit()),
    'isdecimal': ranges(lambda ch: ch.isdecimal()),
    'isnumeric': ranges(lambda ch: ch.isnumeric()),
    'isalpha': ranges(lambda ch: ch.isalpha()),
    'isalnum': ranges(lambda ch: ch.isalnum()),
    'isupper': ranges(lambda ch: ch.isupper()),
    'islower': ranges(lambda ch: ch.islower()),
    're_d': ranges(pat(u'\\d$', 0)), 're_s': ranges(pat(u'\\s\\Z', 0)),
    're_w': ranges(pat(u'\\w\\Z', 0)),
    're_du': ranges(pat(u'\\d\\Z', re.U)), 're_su': ranges(pat(u'\\s\\Z', re.U)),
    're_wu': ranges(pat(u'\\w\\Z', re.U)),
    'int_space': ranges(lambda ch: int(ch + u'7') == 7 and not ch.isdigit()),
    'int_space_after': ranges(lambda ch: int(u'7' + ch) == 7),
    'int_sign': ranges(lambda ch: int(ch + u'7') == -7),
    'digits': digits(),
    'lower': casemap(lambda ch: ch.lower()),
    'upper': casemap(lambda ch: ch.upper()),
}
json.dump(data, sys.stdout, sort_keys=True)

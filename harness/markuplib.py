# Reading generated tags back (runs under the encoding and under Jython).

ENTITIES = [(u'amp;', u'&'), (u'lt;', u'<'), (u'gt;', u'>'), (u'quot;', u'"'),
            (u'apos;', u"'"), (u'#34;', u'"'), (u'#39;', u"'"),
            (u'#x27;', u"'"), (u'#60;', u'<'), (u'#62;', u'>'),
            (u'#38;', u'&')]


def unescape(sym, text):
    sym.check(u'<' not in text, 'a tag opens inside text')
    out, i = u'', 0
    while i < len(text):
        c = text[i]
        i += 1
        if c == u'&':
            for name, char in ENTITIES:
                if text[i:i + len(name)] == name:
                    out += char
                    i += len(name)
                    break
            else:
                sym.fail('stray ampersand')
        else:
            out += c
    return out


def parse(sym, out):
    """(tag, [(attribute, text)], how it ends, raw contents)"""
    sym.check(out[:1] == u'<', 'start of a tag')
    i = 1
    while out[i] not in u' />':
        i += 1
    tag = out[1:i]
    attrs = []
    while out[i] == u' ' and out[i + 1] != u'/':
        i += 1
        start = i
        while out[i] != u'=':
            i += 1
        name = out[start:i]
        sym.check(out[i + 1] == u'"', 'attribute is not quoted')
        i += 2
        start = i
        while i < len(out) and out[i] != u'"':
            i += 1
        sym.check(i < len(out), 'attribute is not closed')
        attrs.append((name, unescape(sym, out[start:i])))
        i += 1
    if out[i] == u' ':
        sym.check(out[i:] == u' />', 'end of an empty tag')
        return tag, attrs, 'empty', u''
    sym.check(out[i] == u'>', 'end of a tag')
    rest = out[i + 1:]
    if rest == u'':
        return tag, attrs, 'open', u''
    end = u'</' + tag + u'>'
    sym.check(len(rest) >= len(end) and rest[-len(end):] == end,
              'closing tag')
    return tag, attrs, 'closed', rest[:-len(end)]


def names(attrs):
    return [a for a, _ in attrs]

# C25: generated markup reads back: nothing in data can break out of it.
from flatland import Dict, Integer, List, String
from flatland.out.generic import Markup
from flatland.out.markup import Generator
from markuplib import names, parse, unescape

BOUNDS = ('every tag method and a general tag, three kinds of markup, bound '
          'to an element with a text of up to 3 arbitrary characters and a '
          'name of 1 arbitrary character, or unbound, with up to 2 further '
          'attributes of up to 2 arbitrary characters and explicit contents; '
          'texts that spell entities, comments and tags, next to arbitrary '
          'characters, and texts of 3 to 5 of the characters &amp;lt<" in '
          'attributes and contents')
OUTSIDE = ('attribute values that are not text; escaping of explicit '
           'contents, which is markup by contract')
ASSUMPTIONS = []

TAGS = [u'input', u'textarea', u'button', u'select', u'option', u'form',
        u'label', u'div', u'Br']
PAIRED = (u'textarea', u'select', u'option', u'form')
NAMED = (u'input', u'textarea', u'button', u'select', u'form')
VALUED = (u'input', u'button')


EXTRA = ['none', 'value', 'class', 'both', 'raw', 'blank']


class Html(object):
    """Foreign markup."""

    def __init__(self, text):
        self.text = text

    def __html__(self):
        return self.text


def call(g, tag, how):
    low = tag.lower()
    if how == 'tag':
        return lambda bind, **kw: g.tag(tag, bind, **kw)
    return getattr(g, low)


def order(attrs):
    def key(name):
        first = [u'type', u'name', u'value']
        return (0, first.index(name), u'') if name in first else (1, 0, name)
    return sorted(attrs, key=key)


def element(sym, kind):
    if kind == 'none':
        return None, None, u''
    if kind == 'number':
        return Integer.named(u'n')(7), u'n', u'7'
    if kind == 'nested':
        s = sym.text('u', 2)
        el = Dict.named(u'd').of(List.named(u'l').of(String.named(u's').using(
            strip=False)))({u'l': [s]})
        return el[u'l'][0], u'd_l_0_s', s
    name = sym.text('name', 1, 1) if kind == 'odd name' else u'fld'
    s = sym.text('u', {'odd name': 1, 'text': 2}.get(kind, 3))
    return String.named(name).using(strip=False)(s), name, s


def render(sym, kind, how):
    markup = sym.choice('markup', ['xml', 'html', 'xhtml'][
        :2 + (kind == 'none')])
    tag = sym.choice('tag', TAGS if how == 'tag' else TAGS[:-2])
    g = Generator(markup)
    bind, name, u = element(sym, kind)
    given = {}
    kw = {}
    extra = sym.choice('extra', EXTRA if kind != 'long' else EXTRA[:1])
    if extra in ('value', 'both'):
        kw['value'] = given[u'value'] = sym.text('v', 2 - (kind == 'odd name'))
    if extra in ('class', 'both'):
        kw['class_'] = given[u'class'] = sym.text('c', 2 - (extra == 'both'))
    if extra == 'raw':
        wrap = sym.choice('wrap', [Markup, Html])
        kw['title'] = wrap(u'&lt;b&quot;')
        given[u'title'] = u'<b"'
    if extra == 'blank':
        kw['title'] = sym.choice('blank', [None, u''])
        given[u'title'] = u''
    out = call(g, tag, how)(bind, **kw)
    if how == 'tag' and bind is None and not kw:
        out = out.__html__()
    sym.check(isinstance(out, Markup) and hasattr(out, '__html__'),
              'result is not marked as markup')
    low = tag.lower()
    got, attrs, end, contents = parse(sym, out)
    want = dict(given)
    body = u''
    if bind is not None:
        if low in NAMED and u'name' not in want:
            want[u'name'] = name
        if low in VALUED and u'value' not in want:
            want[u'value'] = u
        if low == u'textarea':
            body = u
        if low == u'option':
            if (given.get(u'value') or u'') == u:
                want[u'selected'] = u'selected'
    sym.equal(got, low, 'tag name')
    sym.check(len(set(names(attrs))) == len(attrs), 'repeated attribute')
    sym.check(names(attrs) == order(want), 'attributes and their order')
    for k, v in attrs:
        sym.equal(v, want[k], 'attribute text')
    sym.equal(unescape(sym, contents), body, 'text contents')
    if low in PAIRED or body != u'':
        sym.check(end == 'closed', 'a tag that must be closed')
    elif markup != 'html':
        sym.check(end == 'empty', 'an empty tag')
    elif low == u'input':
        sym.check(end == 'open', 'an empty tag of html')
    else:
        sym.check(end == 'closed', 'a tag of html')
    sym.cover(kind)
    sym.observe(out)


def halves(sym):
    """open() + contents + close() is the whole tag."""
    markup = sym.choice('markup', ['xml', 'html'])
    g = Generator(markup)
    tag = sym.choice('tag', [u'textarea', u'select', u'option', u'form',
                             u'label', u'button'])
    s = sym.text('u', 2)
    el = String.named(u'n').using(strip=False)(s)
    kw = {'title': sym.text('t', 1)}
    body = sym.choice('body', [None, u'<b>x</b>', Markup(u'<i>'),
                               Html(u'&amp;'), u''])
    if body is not None:
        kw['contents'] = body
    t = getattr(g, tag)
    head = t.open(el, **kw)
    sym.check(getattr(g, tag) is t, 'an open tag is reused')
    middle = t.contents
    tail = t.close()
    sym.check(getattr(g, tag) is not t, 'a closed tag is reused')
    whole = getattr(g, tag)(el, **kw)
    if whole[-2:] != u'/>':
        sym.equal(head + middle + tail, whole, 'halves of a tag')
    else:
        sym.check(middle == u'' and head == whole[:-3] + u'>',
                  'halves of an empty tag')
    if body is not None:
        raw = body.__html__() if hasattr(body, '__html__') else body
        sym.equal(middle, raw, 'explicit contents')
    elif tag == u'textarea':
        sym.equal(unescape(sym, middle), s, 'contents of a textarea')
    else:
        sym.equal(middle, u'', 'no contents')
    sym.check(isinstance(head, Markup) and isinstance(tail, Markup),
              'halves are markup')
    sym.cover('halves')
    sym.observe([head, middle, tail])


def unordered(sym):
    g = Generator('html', ordered_attributes=False)
    a = sym.text('a', 2)
    el = String.named(u'n')(u'x')
    _, attrs, end, _ = parse(sym, g.input(el, alt=a, zip=u'1', class__=a))
    want = {u'name': u'n', u'value': u'x', u'alt': a, u'zip': u'1',
            u'class': a}
    sym.check(sorted(names(attrs)) == sorted(want), 'attributes')
    for k, v in attrs:
        sym.equal(v, want[k], 'attribute text')
    for bad in ('sgml', u'', None):
        try:
            Generator(bad)
            sym.fail('unknown markup accepted')
        except TypeError:
            pass
    sym.cover('done')


SPELLED = [u'&amp;', u'&lt;', u'&gt;', u'&quot;', u'&#39;', u'&#x27;',
           u'&nbsp;', u'&#60;', u'&copy', u'&amp;amp;', u'<!--', u'-->',
           u']]>', u'</textarea>', u'<br />', u'&&', u'""', u"'", u'\\"']


def spelled(sym, how):
    """Text that is spelled like markup is text all the same."""
    g = Generator(sym.choice('markup', ['xml', 'html']))
    if how == 'any':
        s = sym.text('s', 5, 3, u'&amp;lt<"')
    else:
        a = sym.text('a', 1)
        s = a + sym.choice('spelled', SPELLED) + sym.text('b', 1)
    el = String.named(u'n').using(strip=False)(s)
    if sym.flag('in attribute'):
        out = g.input(el, title=s)
        got, attrs, _, _ = parse(sym, out)
        sym.check(names(attrs) == [u'name', u'value', u'title'],
                  'attributes and their order')
        sym.equal(attrs[1][1], s, 'attribute text')
        sym.equal(attrs[2][1], s, 'attribute text')
    else:
        out = g.textarea(el)
        got, attrs, _, contents = parse(sym, out)
        sym.check(names(attrs) == [u'name'], 'attributes and their order')
        sym.equal(unescape(sym, contents), s, 'text contents')
    sym.cover('spelled')
    sym.observe(out)


CASES = []
for _k in ('none', 'text', 'long', 'odd name', 'nested', 'number'):
    CASES.append(('render.' + _k, render, (_k, 'method'), [_k], 'q'))
CASES += [
    ('tag.text', render, ('text', 'tag'), ['text'], 'q'),
    ('tag.none', render, ('none', 'tag'), ['none'], 'q'),
    ('halves', halves, (), ['halves'], 'q'),
    ('unordered', unordered, (), ['done'], 'q'),
    ('spelled.near', spelled, ('near',), ['spelled'], 'q'),
    ('spelled.any', spelled, ('any',), ['spelled'], 'q'),
]

# C27: check boxes, radio buttons and options show what the element holds.
from flatland import (Array, Boolean, Enum, Integer, JoinedString, MultiValue,
                      String)
from flatland.out.generic import Context, Markup, transform
from flatland.out.markup import Generator
from markuplib import parse

BOUNDS = ('radio, checkbox and option tags with a value of up to 3 arbitrary '
          'characters, or none, or contents, bound to text, number, boolean, '
          'enumeration elements and arrays of up to 3 members with texts of '
          'up to 2 arbitrary characters; stale marks; forced, on and off')
OUTSIDE = 'containers other than arrays; contents with entities'
ASSUMPTIONS = []

WS = u' \t\n'


def element(sym, kind):
    """(element, the texts it holds)"""
    if kind == 'text':
        t = sym.text('t', 2)
        return String.named(u'n').using(strip=False)(t), [t]
    if kind == 'stripped':
        el = String.named(u'n')(sym.text('t', 2, alphabet=u'a '))
        return el, [el.u]
    if kind == 'number':
        el = Integer.named(u'n')()
        el.set(sym.text('t', 2, alphabet=u'01 -x'))
        return el, [el.u]
    if kind == 'empty':
        return String.named(u'n')(), [u'']
    if kind == 'boolean':
        el = Boolean.named(u'n')()
        el.set(sym.choice('b', [True, False, None, u'on', u'junk']))
        return el, [el.u]
    if kind == 'enum':
        el = Enum.named(u'n').valued(u'a', u'b')(sym.text('t', 1))
        return el, [el.u]
    if kind == 'texts':
        n = sym.pick_int('n', 0, 3)
        ts = [sym.text('t%d' % i, 2 if i == 0 else 1,
                       alphabet=None if i == 0 else u'ab<') for i in range(n)]
        S = sym.choice('S', [Array, MultiValue])
        return S.named(u'n').of(String.using(strip=False))(ts), ts
    if kind == 'stripped texts':
        ts = [sym.text('t%d' % i, 2, alphabet=u'a ') for i in range(2)]
        el = Array.named(u'n').of(String)(ts)
        return el, [x.u for x in el]
    if kind == 'numbers':
        el = Array.named(u'n').of(Integer)([1, u'x', None, u'01'])
        return el, [u'1', u'x', u'', u'1']
    el = JoinedString.named(u'n')(u'a,b')
    return el, [u'a', u'b']


def value_for(sym, kind):
    alphabet = {'number': u'01 -', 'numbers': u'01 x-', 'stripped': u'a ',
                'stripped texts': u'a ', 'boolean': u'1 on', 'joined': u'ab,',
                'enum': None, 'text': None, 'texts': u'ab<',
                'empty': None}[kind]
    return sym.text('v', 3 if kind in ('text', 'joined') else 2, 0, alphabet)


OPTS = ['default', 'off', 'forced']


def run(sym, tag, attrs, contents, el, how):
    """The attributes of the tag, by way of the Generator."""
    kw = dict((str(k), attrs[k]) for k in attrs)
    if how == 'off':
        kw['auto_value'] = False
    elif how == 'forced':
        kw['auto_value'] = True
    if contents is not None:
        kw['contents'] = contents
    g = Generator(sym.choice('markup', ['xml', 'html']) if how == 'default'
                  and contents is None else 'xml')
    _, got, _, body = parse(sym, getattr(g, tag)(el, **kw))
    got = dict(got)
    got.pop(u'name', None)
    return got, body


def check_boxes(sym, kind):
    el, held = element(sym, kind)
    typ = sym.choice('type', [u'radio', u'checkbox'])
    how = sym.choice('how', OPTS)
    attrs = {u'type': typ}
    given = sym.flag('given')
    v = None
    if given:
        v = attrs[u'value'] = value_for(sym, kind)
    want = dict(attrs)
    if sym.flag('stale'):
        attrs[u'checked'] = u'checked'
    if how == 'off':
        want = attrs
    else:
        if v is None and kind == 'boolean' and typ == u'checkbox':
            v = want[u'value'] = u'1'
        if v is None:
            want = attrs
        if v is not None and any(v == h for h in held):
            want[u'checked'] = u'checked'
            sym.cover('checked')
        else:
            sym.cover('unchecked')
    got, body = run(sym, 'input', attrs, None, el, how)
    sym.check(sorted(got) == sorted(want), 'mark of a box')
    for k in want:
        sym.equal(got[k], want[k], 'attribute of a box')
    sym.observe(sorted(got))


def options(sym, kind):
    el, held = element(sym, kind)
    how = sym.choice('how', OPTS)
    attrs, contents = {}, None
    source = sym.choice('source', ['value', 'contents', 'nothing', 'both',
                                   'markup'])
    v = u''
    if source in ('value', 'both'):
        v = attrs[u'value'] = value_for(sym, kind)
        if source == 'both':
            contents = u'a'
    elif source in ('contents', 'markup'):
        contents = value_for(sym, kind)
        sym.assume(u'<' not in contents and u'&' not in contents)
        v = contents
        lo, hi = 0, len(v)
        while lo < hi and v[lo].isspace():
            lo += 1
        while hi > lo and v[hi - 1].isspace():
            hi -= 1
        v = v[lo:hi]
        if source == 'markup':
            contents = Markup(contents)
    want = dict(attrs)
    if sym.flag('stale'):
        attrs[u'selected'] = u'selected'
    if how == 'off':
        want = attrs
    elif any(v == h for h in held):
        want[u'selected'] = u'selected'
        sym.cover('selected')
    else:
        sym.cover('unselected')
    got, body = run(sym, 'option', attrs, contents, el, how)
    sym.check(sorted(got) == sorted(want), 'mark of an option')
    for k in want:
        sym.equal(got[k], want[k], 'attribute of an option')
    sym.equal(body, contents or u'', 'contents of an option')
    sym.observe(sorted(got))


def fields(sym, kind):
    """Other input types and buttons."""
    el, held = element(sym, kind)
    typ = sym.choice('type', [None, u'text', u'hidden', u'submit',
                              u'password', u'file', u'image'])
    tag = sym.choice('tag', ['input', 'button'])
    how = sym.choice('how', OPTS)
    attrs = {}
    if typ is not None:
        attrs[u'type'] = typ
    if sym.flag('given'):
        attrs[u'value'] = sym.text('v', 1)
    want = dict(attrs)
    secret = tag == 'input' and typ in (u'password', u'file', u'image')
    if how == 'forced' or (how == 'default' and not secret and
                           u'value' not in attrs):
        want[u'value'] = el.u
        sym.cover('filled')
    else:
        sym.cover('left alone')
    got, body = run(sym, tag, attrs, None, el, how)
    sym.check(sorted(got) == sorted(want), 'attributes of a field')
    for k in want:
        sym.equal(got[k], want[k], 'value of a field')
    sym.equal(body, u'', 'contents of a field')
    sym.observe(sorted(got))


def round_trip(sym):
    """What a browser would submit from the marked boxes is what the
    element holds."""
    held = [k for k in (u'a', u'b', u'c') if sym.flag(k)]
    if held and sym.flag('more'):
        held.append(held[0])
    S = sym.choice('S', [Array, MultiValue]).named(u'n').of(String)
    el = S(held)
    g = Generator('html')
    sent = []
    for v in (u'a', u'b', u'c', u'd'):
        if sym.flag('option ' + v):
            _, attrs, _, _ = parse(sym, g.option(el, value=v))
            on = u'selected' in dict(attrs)
        else:
            _, attrs, _, _ = parse(sym, g.input(el, type=u'checkbox',
                                                value=v))
            on = u'checked' in dict(attrs)
        if on:
            sent.append((u'n', v))
    back = S.from_flat(sent)
    sym.check(set(back.value) == set(held) if S is Array else
              set(x.value for x in back) == set(held), 'submitted boxes')
    b = Boolean.named(u'b').using(true=u'yes', false=u'')(sym.flag('bool'))
    _, attrs, _, _ = parse(sym, g.input(b, type=u'checkbox'))
    attrs = dict(attrs)
    sym.check((u'checked' in attrs) is b.value and attrs[u'value'] == u'yes',
              'check box of a boolean')
    sym.cover('done')
    sym.observe(sent)


KINDS = ['text', 'stripped', 'number', 'empty', 'boolean', 'enum', 'texts',
         'stripped texts', 'numbers', 'joined']
CASES = []
for _k in KINDS:
    _n = _k.replace(' ', '-')
    CASES.append(('box.' + _n, check_boxes, (_k,), ['checked', 'unchecked'],
                  'q'))
    CASES.append(('option.' + _n, options, (_k,), ['selected', 'unselected'],
                  'q'))
for _k in ('text', 'boolean', 'numbers', 'joined'):
    CASES.append(('field.' + _k, fields, (_k,), ['filled', 'left alone'],
                  'q'))
CASES.append(('roundtrip', round_trip, (), ['done'], 'q'))

# C36: a rendered form submitted unchanged loads as the same form.
from flatland import (Array, Boolean, Dict, Enum, Form, Integer, List,
                      MultiValue, SparseDict, String)
from flatland.out.markup import Generator
from hlib import norm
from markuplib import parse, unescape

BOUNDS = ('leaves with texts of up to 2 arbitrary characters in text, hidden '
          'and forced password inputs, text areas and buttons; check boxes; '
          'radio buttons and selections over 3 choices with texts of 1 '
          'arbitrary character; arrays of up to 2 members as boxes, options '
          'and inputs; mappings and lists of up to 2 members of mappings, '
          'two levels; names that need escaping; xhtml and html, whole tags '
          'and opened ones')
OUTSIDE = ('line break normalization of browsers; blank members of pruning '
           'lists; texts that are no choice in boxes and selections')
ASSUMPTIONS = []

NAMES = [u'a', u'a"b', u'<&>', u'.*', u"'"]


class Browser(object):
    """Fills the form's data set from the tags it is given."""

    def __init__(self, sym, gen, opened):
        self.sym, self.gen, self.opened = sym, gen, opened
        self.pairs = []

    def read(self, tag, bind, **kw):
        """(attributes, text inside) of a rendered tag."""
        maker = getattr(self.gen, tag)
        if self.opened and tag != 'input':
            if isinstance(bind, str):
                bind = None
            head = maker.open(bind, **kw)
            out = head + maker.contents + maker.close()
        else:
            out = maker(bind, **kw)
        got, attrs, how, inside = parse(self.sym, out)
        self.sym.check(got == tag, 'name of the tag')
        d = {}
        for k, v in attrs:
            self.sym.check(k not in d, 'attribute given twice')
            d[k] = v
        return d, inside

    def name(self, d):
        self.sym.check(u'name' in d, 'a control without a name')
        return d[u'name']

    def input(self, bind, **kw):
        d, _ = self.read('input', bind, **kw)
        if d.get(u'type') in (u'checkbox', u'radio'):
            if u'checked' not in d:
                return
            self.sym.cover('checked')
        self.pairs.append((self.name(d), d[u'value']))

    def button(self, bind, **kw):
        d, _ = self.read('button', bind, **kw)
        self.pairs.append((self.name(d), d[u'value']))

    def textarea(self, bind, **kw):
        d, inside = self.read('textarea', bind, **kw)
        self.pairs.append((self.name(d), unescape(self.sym, inside)))

    def select(self, bind, choices, style, **kw):
        """Options by value, or by text, as a nested tag."""
        head = self.gen.select.open(bind, **kw)
        _, attrs, how, _ = parse(self.sym, head)
        name = self.name(dict(attrs))
        picked = []
        for c in choices:
            if style == 'value':
                d, _ = self.read('option', bind, value=c)
                value = d[u'value']
            else:
                d, inside = self.read('option', bind, contents=u' ' + c
                                      + u' ')
                value = d.get(u'value', inside.strip())
            self.sym.check(value == c, 'value of an option')
            if u'selected' in d:
                self.sym.cover('checked')
                picked.append(value)
        self.gen.select.close()
        for value in picked:
            self.pairs.append((name, value))
        return picked


def browser(sym, full=True):
    gen = Generator(sym.choice('markup', ['xhtml', 'html']))
    if not full:
        return Browser(sym, gen, False)
    if sym.flag('settings'):
        gen.set(auto_domid=True, auto_tabindex=True, tabindex=1)
    return Browser(sym, gen, sym.flag('opened'))


def submit(sym, b, S, el, what='form'):
    again = S.from_flat(b.pairs)
    sym.equal(norm(again), norm(el), what)
    sym.observe(sorted([k + u'=' + v for k, v in b.pairs]))
    return again


def text(sym, full):
    """Any text in any text control, valid or not."""
    T = sym.choice('type', [String, String.using(strip=False), Integer])
    S = Dict.named(sym.choice('form', [None, u'f'])).of(
        T.named(sym.choice('name', NAMES)), String.named(u'z'))
    el = S()
    field = el.field_schema[0].name
    t = sym.text('t', 2)
    el[field].set(t)
    el[u'z'].set(u'w')
    b = browser(sym, full)
    how = sym.choice('control', ['text', 'plain', 'hidden', 'textarea',
                                 'button', 'password'])
    if how == 'textarea':
        b.textarea(el[field])
    elif how == 'button':
        b.button(el[field])
    elif how == 'plain':
        b.input(el[field])
    elif how == 'password':
        b.input(el[field], type=u'password', auto_value=True)
    else:
        b.input(el[field], type=sym.choice('as', [u'text', u'search'])
                if how == 'text' else u'hidden')
    b.input(el[u'z'])
    again = submit(sym, b, S, el)
    sym.check(again[field].u == el[field].u, 'text')
    sym.cover(how)


def choices_of(sym, n):
    out = [sym.text('c%d' % i, 1, minlen=1) for i in range(n)]
    for i in range(n):
        sym.assume(out[i].strip() != u'')
        for j in range(i):
            sym.assume(out[i] != out[j])
    return out


def choice(sym, how):
    """One of several values, or none."""
    choices = choices_of(sym, 2 if how == 'option' else 3)
    S = Dict.named(u'f').of(Enum.named(u'e').using(valid_values=choices))
    el = S()
    k = sym.pick_int('which', -1, len(choices) - 1)
    if k >= 0:
        sym.check(el[u'e'].set(choices[k]), 'setting a choice')
    b = browser(sym)
    if how == 'radio':
        for c in choices:
            b.input(el[u'e'], type=u'radio', value=c)
    elif how == 'select':
        b.select(el[u'e'], [u''] + choices, 'value')
    else:
        for c in choices:
            sym.assume(c not in u'<>&')
        b.select(el[u'e'], [u''] + choices, 'contents')
    sym.check(len(b.pairs) == (1 if k >= 0 or how != 'radio' else 0),
              'number of values of a choice')
    again = submit(sym, b, S, el)
    sym.check(again[u'e'].u == el[u'e'].u, 'choice')
    sym.cover('one' if k >= 0 else 'none')


def numbers(sym):
    """Choices that are not texts."""
    S = Dict.of(Enum.named(u'e').using(child_type=Integer,
                                       valid_values=[1, 20, -3]))
    el = S()
    k = sym.pick_int('which', -1, 2)
    if k >= 0:
        el[u'e'].set([1, 20, -3][k])
    b = browser(sym)
    if sym.flag('radio'):
        for c in [u'1', u'20', u'-3']:
            b.input(el[u'e'], type=u'radio', value=c)
    else:
        b.select(el[u'e'], [u'', u'1', u'20', u'-3'],
                 sym.choice('style', ['value', 'contents']))
    again = submit(sym, b, S, el)
    sym.check(again[u'e'].value == el[u'e'].value, 'choice')
    sym.cover('one' if k >= 0 else 'none')


def booleans(sym):
    """Check boxes, with any text for yes."""
    true = sym.choice('true', [u'1', u'yes', u'<"&>'])
    B = Boolean.using(true=true) if true != u'1' else Boolean
    S = Dict.named(u'f').of(B.named(u'x'), B.named(u'y'), String.named(u'z'))
    el = S()
    for k in [u'x', u'y']:
        v = sym.choice(k, [None, False, True, u'on'])
        if v is not None:
            el[k].set(v)
    b = browser(sym)
    order = [u'x', u'z', u'y'] if sym.flag('order') else [u'y', u'x', u'z']
    for k in order:
        if k == u'z':
            b.input(el[k])
        elif sym.flag('value ' + k):
            b.input(el[k], type=u'checkbox', value=true)
        else:
            b.input(el[k], type=u'checkbox')
    again = submit(sym, b, S, el)
    for k in [u'x', u'y']:
        sym.check(bool(again[k].value) is bool(el[k].value), 'check box')


def yesno(sym):
    """A boolean as a pair of radio buttons, or a selection."""
    true, false = sym.choice('texts', [(u'1', u''), (u'1', u'0'),
                                       (u'yes', u'no'), (u'', u'off')])
    B = Boolean.named(u'x').using(true=true, false=false)
    S = Dict.named(u'f').of(B, String.named(u'z'))
    el = S()
    v = sym.choice('value', [None, False, True])
    if v is not None:
        el[u'x'].set(v)
    b = browser(sym)
    if sym.flag('radio'):
        for c in [true, false] if sym.flag('order') else [false, true]:
            b.input(el[u'x'], type=u'radio', value=c)
        sym.check(len(b.pairs) <= 1, 'both buttons are checked')
    else:
        picked = b.select(el[u'x'], [true, false],
                          sym.choice('style', ['value', 'contents']))
        sym.check(len(picked) <= 1, 'both options are selected')
    again = S.from_flat(b.pairs)
    sym.check(bool(again[u'x'].value) is bool(el[u'x'].value) or
              v is None, 'yes or no')
    if v is not None:
        sym.check(len(b.pairs) == 1, 'a value that is submitted')
        sym.equal(again[u'x'].u, el[u'x'].u, 'text')
    sym.cover('set' if v is not None else 'unset')
    sym.observe([again[u'x'].u])


def several(sym, how, full):
    """Any selection of several values."""
    A = sym.choice('class', [Array, MultiValue])
    choices = choices_of(sym, 2 if full else 1) + [u'last', u'a&"<']
    S = Dict.named(sym.choice('form', [None, u'f'])).of(
        A.named(sym.choice('name', [u'a', u'<&"'])).of(String))
    el = S()
    a = el[el.field_schema[0].name]
    sym.assume(choices[0] != u'a&"<')
    want = [c for i, c in enumerate(choices) if sym.flag('in%d' % i)]
    start = list(want)
    if sym.flag('reverse'):
        start.reverse()
    a.set(start)
    b = browser(sym, full)
    if how == 'boxes':
        for c in choices:
            b.input(a, type=u'checkbox', value=c)
    else:
        b.select(a, choices, 'value', multiple=u'multiple')
    again = S.from_flat(b.pairs)
    sym.equal([m.u for m in again[a.name]], want, 'selected values')
    sym.cover('several' if len(want) > 1 else 'few')
    sym.observe([m.u for m in again[a.name]])


def repeated(sym):
    """One input for each member, in order, duplicates included."""
    A = sym.choice('class', [Array, MultiValue])
    S = Dict.named(u'f').of(
        A.named(sym.choice('name', [u'a', u'.*'])).of(
            String.named(sym.choice('member', [None, u'm', u'"']))))
    el = S()
    a = el[el.field_schema[0].name]
    n = sym.pick_int('n', 0, 3)
    texts = [sym.text('t%d' % i, 1, minlen=1) for i in range(n)]
    for t in texts:
        sym.assume(t.strip() != u'')
    a.set(texts)
    b = browser(sym, False)
    area = sym.flag('area')
    for m in a:
        if area:
            b.textarea(m)
        else:
            b.input(m)
    again = S.from_flat(b.pairs)
    sym.equal([m.u for m in again[a.name]], texts, 'members')
    sym.cover('members' if n else 'none')
    sym.observe([m.u for m in again[a.name]])


def render(sym, b, el):
    """A control for every leaf of the tree."""
    if isinstance(el, dict):
        for f in el.field_schema:
            if f.name in el:
                render(sym, b, el[f.name])
    elif isinstance(el, list) and el.children_flattenable:
        for m in el:
            render(sym, b, m)
    elif isinstance(el, Array):
        for c in [u'p', u'q']:
            b.input(el, type=u'checkbox', value=c)
    elif isinstance(el, Boolean):
        b.input(el, type=u'checkbox')
    elif isinstance(el, Enum):
        b.select(el, [u'', u'r', u's'], 'value')
    elif el.name == u't':
        b.textarea(el)
    else:
        b.input(el, type=u'text')


def member(sym, kind):
    if kind == 'string':
        return String
    if kind == 'named':
        return String.named(sym.choice('mname', [u'm', u'0']))
    if kind == 'dict':
        return Dict.named(sym.choice('mname', [None, u'm'])).of(
            String.named(u'k'), Boolean.named(u'x'), String.named(u't'))
    return List.of(String).using(prune_empty=False)


def lists(sym, kind):
    """Members come back in their places."""
    M = member(sym, kind)
    prune = sym.flag('prune')
    L = List.named(sym.choice('name', [u'l', u'<"'])).of(M).using(
        prune_empty=prune)
    S = Dict.named(u'f').of(L, String.named(u'z'))
    el = S()
    l = el[L.name]
    n = sym.pick_int('n', 0, 2)
    for i in range(n):
        t = sym.text('t%d' % i, 1)
        if prune:
            sym.assume(t.strip() != u'')
        if kind == 'dict':
            l.append({u'k': t, u'x': sym.flag('x%d' % i), u't': u'u' + t})
        elif kind == 'list':
            l.append([t] * (1 + sym.pick_int('m%d' % i, 0, 1)))
        else:
            l.append(t)
    el[u'z'].set(u'end')
    b = browser(sym, kind in ('string', 'named'))
    render(sym, b, el)
    again = submit(sym, b, S, el)
    sym.check(len(again[L.name]) == n, 'number of members')
    sym.cover('members' if n else 'none')


def whole(sym, full):
    """A form of everything."""
    class Everything(Form):
        s = String
        t = String
        n = Integer
        b = Boolean
        e = Enum.using(valid_values=[u'r', u's'])
        a = Array.of(String)
        d = Dict.of(String.named(u's'), Boolean.named(u'b'),
                    Array.named(u'a').of(String))
        l = List.of(Dict.of(String.named(u's'), Boolean.named(u'b'),
                            Array.named(u'a').of(String)))
    name = sym.choice('form', [None, u'f'])
    S = Everything.named(name)
    el = S()
    el[u's'].set(sym.text('s', 1))
    el[u't'].set(sym.text('t', 1) if full else u'<t"')
    el[u'n'].set(sym.choice('n', [None, -3, u'x']))
    part = {u's': u'd', u'b': sym.flag('db'),
            u'a': [c for c in [u'p', u'q'] if sym.flag('d' + c)]}
    el[u'b'].set(sym.flag('b') if full else True)
    el[u'e'].set(sym.choice('e', [u'', u'r', u's']))
    el[u'a'].set([u'q'])
    el[u'd'].set(part)
    el[u'l'].set([part, part][:sym.pick_int('members', 0, 2)])
    b = browser(sym, full)
    render(sym, b, el)
    again = submit(sym, b, S, el)
    sym.equal([m.u for m in again[u'd'][u'a']], part[u'a'], 'array')
    for m in again[u'l']:
        sym.equal([x.u for x in m[u'a']], part[u'a'], 'array of a member')
    sym.cover('whole')


def sparse(sym):
    """Fields that are not there are not submitted, and stay away."""
    S = SparseDict.named(u'f').of(String.named(u'a'), String.named(u'b'),
                                  Dict.named(u'd').of(String.named(u'c')))
    el = S()
    t = sym.text('t', 2)
    for k in [u'a', u'b', u'd']:
        if sym.flag('in ' + k):
            el[k] = {u'c': t} if k == u'd' else t
    b = browser(sym)
    render(sym, b, el)
    again = submit(sym, b, S, el)
    sym.equal(sorted(again.keys()), sorted(el.keys()), 'fields')
    sym.cover('some' if b.pairs else 'none')


CASES = [
    ('text', text, (False,), ['text', 'plain', 'hidden', 'textarea',
                              'button', 'password'], 'q'),
    ('text.full', text, (True,), ['text', 'plain', 'hidden', 'textarea',
                                  'button', 'password'], 't'),
    ('choice.radio', choice, ('radio',), ['one', 'none', 'checked'], 'q'),
    ('choice.select', choice, ('select',), ['one', 'none', 'checked'], 'q'),
    ('choice.option', choice, ('option',), ['one', 'none', 'checked'], 'q'),
    ('numbers', numbers, (), ['one', 'none', 'checked'], 'q'),
    ('yesno', yesno, (), ['set', 'unset', 'checked'], 'q'),
    ('booleans', booleans, (), ['checked'], 'q'),
    ('several.boxes', several, ('boxes', False), ['several', 'few'], 'q'),
    ('several.boxes.full', several, ('boxes', True), ['several', 'few'], 't'),
    ('several.select', several, ('select', False), ['several', 'few'], 'q'),
    ('several.select.full', several, ('select', True), ['several', 'few'], 't'),
    ('repeated', repeated, (), ['members', 'none'], 'q'),
    ('lists.string', lists, ('string',), ['members', 'none'], 'q'),
    ('lists.named', lists, ('named',), ['members', 'none'], 'q'),
    ('lists.dict', lists, ('dict',), ['members', 'none'], 'q'),
    ('lists.list', lists, ('list',), ['members', 'none'], 'q'),
    ('whole', whole, (False,), ['whole'], 'q'),
    ('whole.full', whole, (True,), ['whole'], 't'),
    ('sparse', sparse, (), ['some', 'none'], 'q'),
]

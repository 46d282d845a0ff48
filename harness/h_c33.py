# C33: Genshi templates produce what the tag generator produces: the same
# attributes and contents, only on bound tags, scoped by the blocks.
#
# The templates are built as streams of events, because neither the XML parser
# nor the expression compiler of Genshi runs on this Jython.
from genshi.core import Attrs, END, Markup, Namespace, QName, START, Stream, TEXT
from genshi.template.base import Context, EXPR, SUB
from genshi.template.directives import IfDirective, WithDirective
from genshi.template import MarkupTemplate

from flatland import Array, Boolean, Dict, Integer, List, String
from flatland.out import genshi as front
from flatland.out.markup import Generator
from markuplib import parse, unescape

BOUNDS = ('every tag that has transformations and one that has none, bound, '
          'unbound or bound to nothing; existing attributes, controls on the '
          'tag and settings in scope; element texts and attribute values of '
          'up to 2 arbitrary characters; selects with up to 4 options over '
          'three levels of nesting, some bound for themselves; up to 3 '
          'operations of blocks and settings, nested in each other and in '
          'scopes of the template engine')
OUTSIDE = ('parsing of templates and compiling of expressions (replaced by '
           'event streams and values, as neither runs on this Jython); '
           'iterables of anything but events as contents; generation that is '
           'abandoned or fails inside a block')
ASSUMPTIONS = ['Genshi 0.7.12 itself is executed, not analysed']

X = Namespace(u'http://www.w3.org/1999/xhtml')
OTHER = Namespace(u'http://other')
POS = (None, 1, 0)


class Expr(object):
    """A compiled expression."""

    def __init__(self, value):
        self.value = value

    def evaluate(self, data):
        return self.value


def bind(el):
    return front.Binding(u'', bind=el)


def bind_expr(el):
    b = front.Binding(u'')
    b.expr = Expr(el)
    return b


def if_(value):
    d = IfDirective(None, MarkupTemplate(Stream([])))
    d.expr = Expr(value)
    return d


CONTROL = {u'auto_name': front.AutoName, u'auto_value': front.AutoValue,
           u'auto_domid': front.AutoDomID, u'auto_for': front.AutoFor,
           u'auto_tabindex': front.AutoTabindex,
           u'auto_filter': front.AutoFilter}


def control(key, value):
    return CONTROL[key](value)


def control_expr(key, *parts):
    c = CONTROL[key](u'')
    c.raw_value = [(TEXT, p, POS) if i % 2 else (EXPR, Expr(p), POS)
                   for i, p in enumerate(parts)]
    return c


def tag(name, attrs, contents, *directives):
    """The events of a tag; *attrs* is a list of pairs."""
    attrs = Attrs([(n if isinstance(n, QName) else QName(n), v)
                   for n, v in attrs])
    events = [(START, (X[name], attrs), POS)]
    events.extend(contents)
    events.append((END, X[name], POS))
    if directives:
        return [(SUB, (list(directives), events), POS)]
    return events


def block(directive, contents):
    return [(SUB, ([directive], contents), POS)]


def text(value):
    return [(TEXT, value, POS)]


def expr(value):
    return [(EXPR, Expr(value), POS)]


def render(sym, events, ctxt=None):
    """Start tags in order: [name, {attribute: text}, [contents]]."""
    template = MarkupTemplate(Stream([]))
    front.setup(template)
    out, stack = [], [[None, {}, []]]
    for kind, data, pos in template._flatten(iter(events), ctxt or Context()):
        if kind is START:
            name, attrs = data
            entry = [name.localname, {}, []]
            for n, v in attrs:
                sym.check(n.localname not in entry[1], 'an attribute twice')
                entry[1][n.localname] = v
            stack[-1][2].append(name.localname)
            stack.append(entry)
            out.append(entry)
        elif kind is END:
            sym.check(stack.pop()[0] == data.localname, 'nesting of tags')
        else:
            sym.check(kind is TEXT, 'kind of an event')
            if isinstance(data, Markup):
                # a number, marked as such by Genshi
                data = u''.join([unichr(ord(c)) for c in data])
            elif hasattr(data, '__html__'):
                data = unescape(sym, data.__html__())
            stack[-1][2].append([data])
    sym.check(len(stack) == 1, 'nesting of tags')
    return out


def content_text(entry):
    sym_out = u''
    for c in entry[2]:
        sym_out += c[0]
    return sym_out


def generated(sym, g, name, el, attrs, contents=None):
    """The same by the generator."""
    kw = dict((str(k), v) for k, v in attrs)
    if contents is not None:
        kw['contents'] = contents
    make = g.tag
    out = make(name, el, **kw) if el is not None else make(name, **kw)
    t, got, _, raw = parse(sym, out)
    if contents is not None and raw == contents:
        return [t, dict(got), contents]
    return [t, dict(got), unescape(sym, raw)]


def compare(sym, got, want):
    sym.equal(got[0], want[0], 'tag')
    sym.check(sorted(got[1]) == sorted(want[1]), 'attributes')
    for k in want[1]:
        sym.equal(got[1][k], want[1][k], 'attribute ' + k)
    sym.equal(content_text(got), want[2], 'contents')


TAGS = [(u'input', u'text'), (u'input', u'checkbox'), (u'input', u'password'),
        (u'button', None), (u'textarea', None), (u'label', None),
        (u'form', None), (u'option', None), (u'select', None),
        (u'div', None)]


def tags(sym, name, typ, free):
    """A bound tag has the generator's attributes and contents."""
    left = [free]

    def vary(key, first, *rest):
        """A choice, away from the first only as often as *free*."""
        if left[0] == 0 or not sym.flag('vary ' + key):
            return first
        left[0] -= 1
        return sym.choice(key, list(rest))
    t = sym.text('t', 1, alphabet=u'a1 <&"')
    kind = vary('kind', 'leaf', 'nested', 'boolean')
    if kind == 'leaf':
        el = String.named(u'f').using(strip=False)(t)
    elif kind == 'nested':
        el = Dict.named(u'd').of(List.named(u'l').of(
            String.using(strip=False)))({u'l': [t]})[u'l'][0]
    else:
        el = Boolean.named(u'b')(True)
    attrs = [(u'class', u'k')]
    if typ:
        attrs.append((u'type', typ))
    given = vary('given', 'nothing', u'value', u'name', u'id')
    v = None
    if given != 'nothing':
        v = sym.text('v', 1, alphabet=u'a1<')
        attrs.append((given, v))
    key = vary('control', 'none', *sorted(CONTROL))
    value = None
    if key != 'none':
        value = sym.choice('on', [u'on', u'off', u'auto'])
    has = vary('contents', 'none', 'text', 'value', 'both')
    body, contents = [], None
    if has != 'none':
        contents = u''
        if has != 'value':
            contents += t
            body += text(t)
        if has != 'text':
            contents += u'7'
            body += expr(7)
    settings = {}
    scope = vary('scope', 'none', u'auto_domid', u'auto_for', u'auto_value')
    if scope != 'none':
        settings[scope] = u'off' if scope == u'auto_value' else u'on'
    how = vary('how', 'bound', 'expression', 'controls first',
               'attribute expression')
    # the template
    mine = [(n, expr(x) if how == 'attribute expression' else x)
            for n, x in attrs]
    mine.append((OTHER[u'extra'], u'e'))
    directives = [bind_expr(el) if how == 'expression' else bind(el)]
    if key != 'none':
        directives.append(control(key, value) if how == 'bound' else
                          control_expr(key, value[:1], value[1:]))
    if how == 'controls first':
        directives[0:0] = [if_(True)]
    events = tag(name, mine, body, *directives)
    if settings:
        events = block(front.With(dict((k.replace(u'_', u'-'), settings[k])
                                       for k in settings)), events)
    got = render(sym, events)
    # the generator
    g = Generator()
    for k in settings:
        g.set(**{str(k): settings[k]})
    if key != 'none':
        attrs.append((key, value))
    want = generated(sym, g, name, el, attrs, contents)
    sym.check(len(got) == 1, 'number of tags')
    sym.equal(got[0][1].pop(u'extra', None), u'e', 'a foreign attribute')
    compare(sym, got[0], want)
    sym.cover('tag')
    sym.observe([got[0][0], sorted(got[0][1].items()), content_text(got[0])])


def unbound(sym):
    """Without a binding only controls and settings have an effect."""
    name, typ = sym.choice('tag', TAGS)
    v = sym.text('v', 2, alphabet=u'a1<')
    attrs = [(u'value', v), (u'name', u'n')]
    how = sym.choice('how', ['plain', 'nothing', 'control', 'false'])
    body = tag(u'b', [], text(v)) + expr(None)
    if how == 'plain':
        events = tag(name, attrs, body)
    elif how == 'nothing':
        events = tag(name, attrs, body, bind(None))
    elif how == 'control':
        events = tag(name, attrs, body, control(u'auto_domid', u'on'))
    else:
        events = tag(name, attrs, body, if_(False), bind(String(u'x')))
    got = render(sym, events)
    if how == 'false':
        sym.check(got == [], 'a tag that is not rendered')
        return
    want = {u'value': v, u'name': u'n'}
    if how == 'control':
        want[u'id'] = u'f_n'
    sym.check(sorted(got[0][1]) == sorted(want), 'attributes of an unbound '
              'tag')
    for k in want:
        sym.equal(got[0][1][k], want[k], 'attributes of an unbound tag')
    sym.equal(got[0][2], [u'b'], 'contents of an unbound tag')
    sym.equal(content_text(got[1]), v, 'inner contents')
    sym.cover(how)
    sym.observe(sorted(got[0][1].items()))


def contents(sym):
    """Contents are kept, values among them become text."""
    el = String.named(u'f')(u'x')
    name = sym.choice('tag', [u'button', u'div', u'option', u'select'])
    events, want = [], []
    for i in range(3):
        k = sym.choice('k%d' % i, ['none', 'text', 'number', 'nothing',
                                   'tag', 'stream'])
        if k == 'none':
            continue
        elif k == 'text':
            t = sym.text('t%d' % i, 1)
            events += text(t)
            want.append(t)
        elif k == 'number':
            n = sym.pick_int('n%d' % i, -1, 1)
            events += expr(n)
            want.append(u'%d' % n)
        elif k == 'nothing':
            events += expr(None)
        elif k == 'tag':
            events += tag(u'b', [], [])
            want.append(None)
        else:
            events += expr(iter(tag(u'b', [], []) + text(u'z')))
            want += [None, u'z']
        sym.cover(k)
    got = render(sym, tag(name, [], events, bind(el)))
    sym.check(got[0][0] == name, 'tag')
    have = []
    for c in got[0][2]:
        if c == u'b':
            have.append(None)
        elif have and have[-1] is not None:
            have[-1] = have[-1] + c[0]
        else:
            have.append(c[0])
    merged = []
    for w in want:
        if w is not None and merged and merged[-1] is not None:
            merged[-1] = merged[-1] + w
        else:
            merged.append(w)
    sym.equal([h for h in have if h != u''], [m for m in merged if m != u''],
              'contents')
    sym.check(len(got) == 1 + want.count(None), 'number of tags')
    sym.observe(have)


def selects(sym, n, deep):
    """Options inside a bound select are marked for its element."""
    multi = sym.flag('array')
    t = sym.text('t', 2, alphabet=u'ab ')
    if multi:
        el = Array.named(u's').of(String)([u'b', t])
    else:
        el = String.named(u's')(t)
    other = String(u'b')
    holds = [c.u for c in el] if multi else [el.u]
    want = []

    def options(i, depth):
        out = []
        for j in range(n if depth == 0 else 1):
            key = '%s%d' % (i, j)
            own = sym.choice('own' + key, ['no', 'nothing', 'other',
                                           'control', 'if', 'group'])
            v = sym.choice('v' + key, [u'b', u''])
            where = 'contents'
            if own == 'no':
                where = sym.choice('where' + key, ['value', 'contents'])
            if own == 'group':
                sym.cover('group')
                want.append([u'optgroup', False])
                inner = options(key + 'g', depth + 1) if depth < deep else []
                out += tag(u'optgroup', [], inner)
                continue
            spot = len(want)
            want.append(None)
            attrs, body = [], []
            if where == 'value':
                attrs = [(u'value', v)]
            else:
                body = text(v)
            if own in ('no', 'nothing') and sym.flag('already' + key):
                attrs.append((u'selected', u'selected'))
            directives = {'no': [], 'nothing': [bind(None)],
                          'other': [bind(other)], 'if': [if_(True)],
                          'control': [control(u'auto_value', u'on')],
                          }[own]
            marked = v in holds
            if own == 'nothing':
                marked = bool(attrs) and attrs[-1][0] == u'selected'
            elif own == 'other':
                marked = v == u'b'
            sym.cover(own)
            want[spot] = [u'option', bool(marked)]
            out += tag(u'option', attrs, body, *directives)
        return out
    events = tag(u'select', [], options('o', 0), bind(el))
    got = render(sym, events)
    sym.check(got[0][0] == u'select' and got[0][1] == {u'name': u's'},
              'the select')
    sym.check([g[0] for g in got[1:]] == [w[0] for w in want], 'tags')
    for g, w in zip(got[1:], want):
        sym.check((u'selected' in g[1]) is w[1], 'mark of an option')
    sym.cover('marked' if any(w[1] for w in want) else 'unmarked')
    sym.observe([w[1] for w in want])


def scopes(sym, steps):
    """A block ends where it began; a setting lasts until its block ends."""
    count = [0]
    want, model = [], [{u'auto-domid': u'off', u'domid-format': u'f_%s',
                        u'auto-tabindex': u'off', u'tabindex': 0}]
    el = String.named(u'e')(u'v')

    def probe():
        now = model[-1]
        w = {u'name': u'e', u'value': u'v'}
        if now[u'auto-domid'] == u'on':
            w[u'id'] = now[u'domid-format'] % u'e'
        if now[u'auto-tabindex'] == u'on' and now[u'tabindex']:
            w[u'tabindex'] = u'%d' % now[u'tabindex']
            if now[u'tabindex'] > 0:
                now[u'tabindex'] += 1
        want.append(w)
        return tag(u'input', [], [], bind(el))

    def settings(i):
        kind = sym.choice('s' + i, ['id', 'format', 'tab', 'no id'])
        if kind == 'id':
            return {u'auto-domid': u'on'}
        elif kind == 'no id':
            return {u'auto-domid': u'off'}
        elif kind == 'format':
            return {u'auto-domid': u'on', u'domid-format': u'x%s'}
        return {u'auto-tabindex': u'on',
                u'tabindex': sym.pick_int('tab' + i, 0, 2)}

    def level(i, left):
        out = []
        if sym.flag('probe' + i):
            out += probe()
        if left:
            op = sym.choice('op' + i, ['with', 'set', 'scope', 'if'])
            sym.cover(op)
            if op == 'with':
                s = settings(i)
                model.append(dict(model[-1], **dict(
                    (str(k), v) for k, v in s.items())))
                inner = level(i + 'i', left - 1)
                model.pop()
                out += block(front.With(as_text(s)), inner)
            elif op == 'set':
                s = settings(i)
                model[-1].update(s)
                out += block(front.Set(as_text(s)), [])
                out += level(i + 's', left - 1)
            elif op == 'scope':
                w = WithDirective(u'', MarkupTemplate(Stream([])))
                w.vars = []
                out += block(w, level(i + 'v', left - 1))
            else:
                out += block(if_(True), level(i + 'c', left - 1))
            out += probe()
        return out
    got = render(sym, level('r', steps))
    sym.equal([g[1] for g in got], want, 'attributes')
    sym.observe(len(want))


def as_text(s):
    return dict((k, u'%s' % (v,)) for k, v in s.items())


def filters(sym):
    """Filters given by a block run on the tags inside."""
    el = String.named(u'e')(u'v')
    ran = []

    def f(tagname, attributes, contents, context, bind):
        ran.append(tagname)
        attributes[u'data'] = u'd'
        return u'new'
    made = front.With if sym.flag('with') else front.Set
    d = made({u'filters': u'fs', u'auto-filter': u'on'})
    inner = tag(u'button', [], text(u'old'), bind(el))
    saved = front.Expression, front._eval_expr
    front.Expression = lambda source: Expr([f] if source == u'fs' else None)
    try:
        got = render(sym, block(d, inner) if made is front.With
                     else block(d, []) + inner)
    finally:
        front.Expression = saved[0]
    sym.check(ran == [u'button'], 'runs of a filter')
    sym.check(got[0][1][u'data'] == u'd' and content_text(got[0]) == u'new',
              'effect of a filter')
    sym.cover('ran')
    sym.observe(sorted(got[0][1].items()))


CASES = [('tag.%s.%s' % (_n, _t or u''), tags, (_n, _t, 3), ['tag'], 'q')
         for _n, _t in TAGS]
CASES += [
    ('unbound', unbound, (), ['plain', 'nothing', 'control'], 'q'),
    ('contents', contents, (), ['text', 'number', 'nothing', 'tag', 'stream'],
     'q'),
    ('selects.deep', selects, (1, 2), ['no', 'group', 'marked'], 'q'),
    ('selects.three', selects, (3, 1), ['no', 'group', 'marked'], 't'),
    ('selects', selects, (2, 1), ['no', 'nothing', 'other', 'control', 'if',
                                'group', 'marked', 'unmarked'], 'q'),
    ('scopes', scopes, (3,), ['with', 'set', 'scope', 'if'], 'q'),
    ('filters', filters, (), ['ran'], 'q'),
]

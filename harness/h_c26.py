# C26: generated attributes appear exactly when the options say.
from flatland import Boolean, Dict, Integer, List, String
from flatland.out import generic
from flatland.out.generic import Context, transform
from flatland.out.markup import Generator
from flatland.out.util import parse_trool
from flatland.util import Maybe
from markuplib import parse

BOUNDS = ('every tag; each option on the tag (absent, booleans, words, '
          'byte strings, numbers, None, arbitrary text of up to 5 letters), in scope and by default; '
          'existing attribute absent, blank or text; bound to named, unnamed, '
          'nested elements or unbound; all five generated attributes '
          'together; tab indexes -2..3; suffix texts of up to 3 arbitrary '
          'characters; up to 2 filters with and without tags')
OUTSIDE = ''
ASSUMPTIONS = []

YES = (u'1', u'true', u't', u'on', u'yes')
NO = (u'0', u'false', u'nil', u'off', u'no')
AUTO = {
    u'name': (u'input', u'button', u'select', u'textarea', u'form'),
    u'value': (u'button', u'input', u'option', u'textarea'),
    u'id': (u'input', u'button', u'select', u'textarea'),
    u'for': (u'label',),
    u'tabindex': (u'input', u'button', u'select', u'textarea'),
}
DEFAULT = {u'name': True, u'value': True, u'id': False, u'for': False,
           u'tabindex': False}
OPTION = {u'name': u'auto_name', u'value': u'auto_value',
          u'id': u'auto_domid', u'for': u'auto_for',
          u'tabindex': u'auto_tabindex'}
ASCII = (u'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
         u'_:.-')


def trool(x):
    """The meaning of an option: True, False or None (automatic)."""
    if x is True or x is False:
        return x
    if x is Maybe or x is None:
        return None
    t = u'%s' % (x,)
    low = u''.join(c.lower() for c in t)
    if low in YES:
        return True
    if low in NO:
        return False
    return None


def applies(attr, tag, local, scope, present):
    """Whether an attribute is generated."""
    mine = trool(local)
    if mine is False:
        return False
    if mine is True:
        return True
    theirs = trool(scope)
    on = DEFAULT[attr] if theirs is None else theirs
    return on and not present and tag in AUTO[attr]


def sanitize(text):
    return u''.join(c for c in text if c in ASCII)


BINDS = ['none', 'named', 'anonymous', 'nested', 'child of anonymous']


def bound(sym, kind):
    if kind == 'none':
        return None, None, None
    if kind == 'named':
        return Integer.named(u'num')(u'12'), u'num', u'12'
    if kind == 'anonymous':
        return Integer(u'12'), u'', u'12'
    if kind == 'nested':
        el = Dict.named(u'd').of(List.named(u'l').of(String))(
            {u'l': [u'x']})
        return el[u'l'][0], u'd_l_0', u'x'
    el = Dict.of(String.named(u's'))({u's': u''})
    return el[u's'], u's', u''


LOCAL = ['absent', True, False, u'on', u'OFF', u'auto']
SCOPE = [True, False, u'no', u'auto', Maybe]
TAGS = [u'input', u'button', u'select', u'textarea', u'form', u'option',
        u'label', u'div']


def one(sym, attr, kinds):
    """One attribute, the whole table."""
    kind = sym.choice('bind', kinds)
    bind, name, u = bound(sym, kind)
    tag = sym.choice('tag', TAGS)
    sym.assume(not (attr == u'value' and tag in (u'textarea', u'option')))
    local = sym.choice('local', LOCAL)
    scope = sym.choice('scope', SCOPE)
    ctx = Context()
    ctx.push()
    opt = OPTION[attr]
    ctx[opt] = scope
    for a in OPTION:
        if a != attr:
            ctx[OPTION[a]] = False
    tab = sym.pick_int('tab', -2, 3) if attr == u'tabindex' else 0
    ctx[u'tabindex'] = tab
    attrs = {u'class': u'k'}
    old = sym.choice('old', ['absent', u'', u'text'])
    if old != 'absent':
        attrs[attr] = old
    if attr == u'id' and sym.flag('named tag'):
        attrs[u'name'] = u'tagname'
    if local != 'absent':
        attrs[opt] = local
    want = dict(attrs)
    want.pop(opt, None)
    if applies(attr, tag, None if local == 'absent' else local, scope,
               old != 'absent'):
        basis = name
        if bind is None and attr == u'id':
            basis = attrs.get(u'name')
        if attr == u'tabindex':
            if tab:
                want[attr] = unicode(tab)
                tab += tab > 0
        elif attr == u'value':
            if bind is not None:
                want[attr] = u
        elif basis:
            want[attr] = basis if attr == u'name' else u'f_' + basis
    got = transform(tag, attrs, None, ctx, bind)
    if tag == u'textarea' and attr == u'value':
        pass
    sym.check(got is None, 'contents')
    sym.check(sorted(attrs) == sorted(want), 'generated attributes')
    for k in want:
        sym.equal(attrs[k], want[k], 'text of an attribute')
    sym.check(ctx[u'tabindex'] == tab, 'next tab index')
    sym.cover('applied' if want.get(attr, 'absent') != old else 'kept')
    sym.observe(sorted(attrs.items()))


KINDS = [(True, True), (False, False), (Maybe, None), (None, None),
         (1, True), (0, False), (2, None), (b'on', True), (b'Off', False),
         (b'auto', None), (b'', None)]


def words(sym, length):
    """The words of an option."""
    if length:
        t = sym.text('t', length)
        want = trool(t)
    else:
        t, want = KINDS[sym.pick_int('t', 0, len(KINDS) - 1)]
    got = parse_trool(t)
    sym.check(got is (Maybe if want is None else want), 'meaning of a word')
    g = Generator('xml')
    scope = sym.flag('scope')
    g.set(auto_name=scope)
    el = String.named(u'n')()
    _, attrs, _, _ = parse(sym, g.select(el, auto_name=t, title=u'x'))
    on = scope if want is None else want
    sym.check((u'name' in dict(attrs)) == on, 'effect of a word on a tag')
    g.set(auto_name=t)
    _, attrs, _, _ = parse(sym, g.select(el))
    on = True if want is None else want
    sym.check((u'name' in dict(attrs)) == on, 'effect of a word in scope')
    g.begin(auto_name=t)
    _, attrs, _, _ = parse(sym, g.select(el))
    sym.check((u'name' in dict(attrs)) == on, 'effect of a word in a block')
    sym.cover('auto' if want is None else 'on' if want else 'off')
    sym.observe(want)


def contents(sym):
    """Contents of a textarea come from the element unless given."""
    u = sym.text('u', 2)
    el = String.named(u'n').using(strip=False)(u)
    local = sym.choice('local', LOCAL)
    scope = sym.choice('scope', SCOPE)
    given = sym.choice('given', [None, u'', u'text', generic.Markup(u'<b>')])
    g = Generator('xml', auto_value=scope)
    kw = {}
    if local != 'absent':
        kw['auto_value'] = local
    out = g.textarea(el, contents=given, **kw)
    _, attrs, end, body = parse(sym, out)
    on = applies(u'value', u'textarea', None if local == 'absent' else local,
                 scope, given is not None)
    want = given or u''
    if on:
        want = u.replace(u'&', u'&amp;').replace(u'<', u'&lt;').replace(
            u'>', u'&gt;')
    sym.equal(body, want, 'contents')
    sym.check(end == 'closed' and dict(attrs) == {u'name': u'n'}, 'tag')
    sym.cover('from the element' if on else 'given')
    sym.observe(body)


def suffix(sym):
    """Check boxes and radio buttons have the value in their id; labels
    point at the id."""
    v = sym.text('v', 3)
    typ = sym.choice('type', [u'radio', u'checkbox', u'text', None])
    kind = sym.choice('bind', ['named', 'none', 'boolean'])
    fmt = sym.choice('fmt', [u'f_%s', u'%s', u'x-%s-%%'])
    bind = {'named': String.named(u'n')(), 'none': None,
            'boolean': Boolean.named(u'n')()}[kind]
    g = Generator('html', auto_domid=True, auto_for=True, domid_format=fmt)
    kw = {'name': u'n'}
    if typ is not None:
        kw['type'] = typ
    given = sym.flag('given')
    if given:
        kw['value'] = v
    _, attrs, _, _ = parse(sym, g.input(bind, **kw))
    raw = u'n'
    if typ in (u'radio', u'checkbox'):
        if not given:
            v = u'1' if kind == 'boolean' and typ == u'checkbox' else u''
        s = sanitize(v)
        if s != u'':
            raw += u'_' + s
            sym.cover('suffix')
    sym.equal(dict(attrs)[u'id'], fmt % raw, 'id')
    _, attrs, _, _ = parse(sym, g.label(bind, title=u'x'))
    if bind is None:
        sym.check(u'for' not in dict(attrs), 'label of nothing')
    else:
        sym.equal(dict(attrs)[u'for'], fmt % u'n', 'label')
    sym.cover('plain')
    sym.observe(dict(attrs).get(u'for'))


def together(sym):
    """All options at once do not disturb each other."""
    kind = sym.choice('bind', ['none', 'named', 'anonymous'])
    bind, name, u = bound(sym, kind)
    tag = sym.choice('tag', [u'input', u'select', u'label', u'div'])
    on = dict((a, sym.choice(a, [True, False, 'auto'])) for a in OPTION)
    opts = dict((str(OPTION[a]), on[a]) for a in OPTION)
    where = sym.choice('where', ['tag', 'scope', 'block'])
    g = Generator('xml', tabindex=5)
    kw = {}
    if where == 'tag':
        kw = opts
    elif where == 'scope':
        g.set(**opts)
    else:
        g.begin(**opts)
    _, attrs, _, _ = parse(sym, g.tag(tag, bind, lang=u'en', **kw))
    want = {u'lang': u'en'}
    for a in OPTION:
        if where == 'tag':
            doit = applies(a, tag, on[a], DEFAULT[a], False)
        else:
            doit = applies(a, tag, None, on[a], False)
        if not doit:
            continue
        if a == u'tabindex':
            want[a] = u'5'
        elif bind is not None:
            if a == u'value':
                want[a] = u
            elif name:
                want[a] = name if a == u'name' else u'f_' + name
    sym.check(dict(attrs) == want, 'all attributes')
    if where == 'block':
        g.end()
        _, attrs, _, _ = parse(sym, g.tag(tag, bind, lang=u'en'))
        sym.check(u'id' not in dict(attrs) and u'tabindex' not in dict(attrs),
                  'options after the block')
    sym.cover(where)
    sym.observe(sorted(attrs))


def filters(sym):
    calls = []

    def make(key, tags):
        def fn(tagname, attributes, contents, context, bind):
            calls.append(key)
            sym.check(bind is el, 'bind of a filter')
            attributes[u'f' + key] = u'%d' % len(calls)
            return (contents or u'') + key
        if tags is not None:
            fn.tags = tags
        return fn
    el = String.named(u'n')(u'x')
    n = sym.pick_int('n', 0, 2)
    fs = []
    for i in range(n):
        fs.append((u'ab'[i], sym.choice('tags%d' % i, [
            None, (), (u'div',), (u'p', u'i')])))
    tag = sym.choice('tag', [u'div', u'p'])
    local = sym.choice('local', LOCAL)
    scope = sym.choice('scope', SCOPE)
    g = Generator('xml', auto_filter=scope,
                  filters=[make(k, t) for k, t in fs])
    kw = {} if local == 'absent' else {'auto_filter': local}
    out = g.tag(tag, el, title=u'x', **kw)
    _, attrs, _, body = parse(sym, out)
    mine, theirs = trool(None if local == 'absent' else local), trool(scope)
    on = mine if mine is not None else bool(theirs)
    want = [k for k, t in fs if on and (not t or tag in t)]
    sym.check(calls == want, 'filters that ran')
    sym.equal(body, u''.join(want), 'filtered contents')
    sym.check(sorted(dict(attrs)) == sorted([u'title'] + [
        u'f' + k for k in want]), 'filtered attributes')
    sym.cover('ran' if want else 'did not run')
    sym.observe(body)


CASES = [
    ('one.name', one, (u'name', BINDS), ['applied', 'kept'], 'q'),
    ('one.value', one, (u'value', BINDS), ['applied', 'kept'], 'q'),
    ('one.id', one, (u'id', BINDS), ['applied', 'kept'], 'q'),
    ('one.for', one, (u'for', BINDS), ['applied', 'kept'], 'q'),
    ('one.tabindex', one, (u'tabindex', ['none', 'named']),
     ['applied', 'kept'], 'q'),
    ('words', words, (3,), ['auto', 'on', 'off'], 'q'),
    ('words.kinds', words, (0,), ['auto', 'on', 'off'], 'q'),
    ('words.long', words, (5,), ['auto', 'on', 'off'], 't'),
    ('contents', contents, (), ['from the element', 'given'], 'q'),
    ('suffix', suffix, (), ['suffix', 'plain'], 'q'),
    ('together', together, (), ['tag', 'scope', 'block'], 'q'),
    ('filters', filters, (), ['ran', 'did not run'], 'q'),
]

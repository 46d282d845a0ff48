# C20: message expansion: where a placeholder is looked up, pluralization,
# translation and recording.
from six.moves import builtins

from flatland import Dict, Integer, List, String
from flatland.validation import Validator
from hlib import Obj

BOUNDS = ('placeholders resolved from any subset of the note_error arguments, '
          'the state (item or attribute), the validator, the element; state '
          'None, mapping, object, text or list; texts of up to 2 arbitrary '
          'characters; singular/plural messages over any count; translators '
          'on the state, the element, an ancestor, in builtins or none; up to '
          '3 recordings')
OUTSIDE = 'messages with conversions other than %(name)s and %%'
ASSUMPTIONS = []


class V(Validator):
    where = None
    msg = u'<%(where)s>'


def states(sym, text):
    """(state, value found there or None)."""
    kind = sym.choice('state', ['none', 'dict', 'dict-other', 'obj',
                                'obj-other', 'text', 'list', 'both'])
    if kind == 'none':
        return None, None
    if kind == 'dict':
        return {u'where': text}, text
    if kind == 'dict-other':
        return {u'other': text}, None
    if kind == 'obj':
        return Obj(where=text), text
    if kind == 'obj-other':
        return Obj(other=text), None
    if kind == 'text':
        return u'state', None
    if kind == 'list':
        return [1, 2], None

    class Both(dict):
        where = u'attribute'
    return Both(where=text), text


class OnElement(String):
    where = u'element'


def lookup(sym):
    a = sym.text('a', 2, 1)
    state, in_state = states(sym, u'st')
    info = {u'where': a} if sym.flag('info') else {}
    v = V(where=u'validator') if sym.flag('override') else V()
    if sym.flag('no validator attribute'):
        class W(Validator):
            msg = u'<%(where)s>'
        v = W()
        from_v = False
    else:
        from_v = True
    el = OnElement.named(u'n')()
    if info:
        want = a
    elif in_state is not None:
        want = in_state
    elif from_v:
        want = u'validator' if v.where is not None else u'None'
    else:
        want = u'element'
    info = dict((str(k), info[k]) for k in info)
    warn = sym.flag('warn')
    note = v.note_warning if warn else v.note_error
    style = sym.choice('style', ['key', 'keyword', 'message', 'callable'])
    if style == 'key':
        got = note(el, state, 'msg', **info)
    elif style == 'keyword':
        got = note(el, state, key='msg', **info)
    elif style == 'message':
        got = note(el, state, message=u'<%(where)s>', **info)
    else:
        def dynamic(element, st):
            sym.check(element is el and st is state, 'callable message')
            return u'<%(where)s>'
        v.msg = dynamic
        got = note(el, state, 'msg', **info)
    sym.check(got is False, 'note_error() is not False')
    mine, other = ((el.warnings, el.errors) if warn
                   else (el.errors, el.warnings))
    sym.equal(list(mine), [u'<%s>' % want], 'recorded message')
    sym.check(other == [], 'recorded elsewhere')
    sym.cover('recorded')
    sym.observe(list(mine))


def recording(sym):
    """Duplicates are recorded once, in order; empty messages never."""
    el = String.named(u'n')()
    v = V()
    want, wwant = [], []
    for i in range(3):
        t = sym.choice('m%d' % i, [u'', None, u'x%%', u'%(label)s', u'txt'])
        if t == u'txt':
            t = sym.text('t%d' % i, 1, 1, u'an ')
        warn = sym.flag('w%d' % i)
        v.msg = t
        (v.note_warning if warn else v.note_error)(el, None, 'msg')
        text = {u'x%%': u'x%', u'%(label)s': u'n'}.get(t, t)
        if t:
            into = wwant if warn else want
            if not any(text == x for x in into):
                into.append(text)
    sym.equal(list(el.errors), want, 'errors')
    sym.equal(list(el.warnings), wwant, 'warnings')
    fresh = String()
    sym.check(fresh.errors == [] and fresh.warnings == [], 'shared lists')
    sym.cover('recorded')
    sym.observe([list(el.errors), list(el.warnings)])


def word(text):
    """Translates words, leaves numbers and None."""
    if isinstance(text, unicode) and not text.isdigit():
        return u't' + text
    return text


def plural(sym, translated):
    v = V(msg=(u'one %(label)s', u'%(count)s of %(label)s', 'count'))
    kind = sym.choice('n', ['int', 'text', 'none', 'missing', 'word',
                            'element'])
    info = {}
    if kind == 'int':
        n = sym.int('i', -1, 3)
        info = {'count': n}
    elif kind == 'text':
        n = sym.pick_int('i', 0, 2)
        info = {'count': u'%d' % n}
    elif kind == 'none':
        n = None
        info = {'count': None}
    elif kind == 'word':
        n = u'many'
        info = {'count': n}
    elif kind == 'element':
        n = sym.pick_int('i', 0, 2)
        v.msg = (u'one %(label)s', u'%(value)s of %(label)s', 'value')
    else:
        n = 'absent'
        v.msg = (u'one %(label)s', u'some of %(label)s', n)
    el = Integer.named(u'n')()
    if kind == 'element':
        el.set(n)
    if sym.flag('dynamic'):
        message = v.msg
        v.msg = lambda e, s: message
    calls = []

    def ungettext(single, plural, n):
        calls.append(n)
        return u'T:' + (single if n == 1 else plural)

    def ugettext(text):
        calls.append(None)
        return word(text)
    form = Dict.named(u'f').of(String.named(u'z'))()
    el.parent = form
    un = ug = False
    if translated:
        un, ug = sym.flag('ungettext'), sym.flag('ugettext')
        if un:
            form.ungettext = ungettext
        if ug:
            form.ugettext = ugettext
    v.note_error(el, None, 'msg', **info)
    # under translation every substituted value is translated as well
    tr = word if ug else (lambda x: x)
    if kind == 'word' and ug:
        n = word(n)
    single = n == 1
    if single:
        want = u'one %s' % tr(u'n')
    elif kind == 'missing':
        want = u'some of %s' % tr(u'n')
    else:
        want = u'%s of %s' % (n, tr(u'n'))
    if un:
        want = u'T:' + want
    elif ug:
        want = u't' + want
    sym.equal(list(el.errors), [want], 'pluralized message')
    sym.cover('one' if single else 'many')
    sym.observe(list(el.errors))


def translate(sym):
    """Which translator is used."""
    where = ['state-attr', 'state-item', 'element', 'parent', 'root',
             'builtin']
    have = [w for w in where if sym.flag(w)]
    sym.assume(not ('state-attr' in have and 'state-item' in have))

    def tr(tag):
        def ugettext(text):
            return tag + u':' + unicode(text)
        return ugettext
    root = Dict.named(u'root').of(List.named(u'l').of(String.named(u'nm')))()
    root.set({u'l': [u'x']})
    el = root[u'l'][0]
    state = sym.choice('plain', [None, u'text', [], {}, Obj()])
    if 'state-attr' in have:
        state = Obj(ugettext=tr(u'state-attr'))
    if 'state-item' in have:
        state = {'ugettext': tr(u'state-item')}
    silent = not have or not have[0].startswith('state')
    silent = silent and sym.flag('silent')
    if silent:
        state = Obj(ugettext=None) if sym.flag('item') else {'ugettext': None}
    if 'element' in have:
        el.ugettext = tr(u'element')
    if 'parent' in have:
        el.parent.parent.ugettext = tr(u'parent')
    if 'root' in have:
        root.ugettext = tr(u'root')
    v = V(msg=u'Hi %(label)s')
    try:
        if 'builtin' in have:
            builtins.ugettext = tr(u'builtin')
        v.note_error(el, state, 'msg')
    finally:
        if 'builtin' in have:
            del builtins.ugettext
    if have and not silent:
        t = [w for w in where if w in have][0]
        want = u'%s:Hi %s:nm' % (t, t)
        sym.cover('translated')
    else:
        want = u'Hi nm'
        sym.cover('plain')
    sym.equal(list(el.errors), [want], 'translated message')
    sym.observe(list(el.errors))


def verbatim(sym):
    """Substituted text is never expanded again."""
    t = sym.text('t', 3, alphabet=u'%(s)a')
    el = String.named(u'n').using(strip=False)(t)
    V(msg=u'[%(u)s] %(value)s%%').note_error(el, None, 'msg')
    sym.equal(list(el.errors), [u'[%s] %s%%' % (t, t)], 'expanded twice')
    el.label = t
    V(msg=u'%(label)s').note_warning(el, {u'u': u''}, 'msg')
    sym.equal(list(el.warnings), [t], 'label')
    try:
        V(msg=u'%(nowhere)s').note_error(el, None, 'msg')
        sym.fail('an unknown placeholder was expanded')
    except KeyError:
        sym.cover('unknown')
    sym.observe([list(el.errors), list(el.warnings)])


CASES = [
    ('lookup', lookup, (), ['recorded'], 'q'),
    ('recording', recording, (), ['recorded'], 'q'),
    ('plural', plural, (False,), ['one', 'many'], 'q'),
    ('plural.translated', plural, (True,), ['one', 'many'], 'q'),
    ('translate', translate, (), ['translated', 'plain'], 'q'),
    ('verbatim', verbatim, (), ['unknown'], 'q'),
]

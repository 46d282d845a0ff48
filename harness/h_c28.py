# C28: settings of a generator are scoped: a block ends where it began.
from flatland import String
from flatland.out.generic import Context, _default_context
from flatland.out.markup import Generator
from flatland.out.util import parse_trool
from markuplib import parse

BOUNDS = ('histories of up to 4 operations (begin with zero to two settings, '
          'end, set, tags that use a tab index, mistakes) on generators and '
          'raw contexts, over all settings, with symbolic values; tags left '
          'open and closed in any order')
OUTSIDE = 'the Genshi front end'
ASSUMPTIONS = []

WORDS = [True, False, u'on', u'off', u'auto']


def stack_view(sym, g, model, keys):
    for k in keys:
        got, want = g[k], model[-1][k]
        if k.startswith('auto_'):
            got, want = parse_trool(got), parse_trool(want)
        sym.check(got == want, 'setting ' + k)


ANY = ['none', 'tab', 'name', 'two', 'format']


def pick(sym, i, options=ANY):
    """Some settings."""
    which = sym.choice('which%d' % i, options)
    kw = {}
    if which in ('tab', 'two'):
        kw['tabindex'] = sym.int('tab%d' % i, -1, 3)
    if which in ('name', 'two'):
        kw['auto_name'] = sym.choice('word%d' % i, WORDS)
    if which == 'format':
        kw['domid_format'] = u'x%s'
    return kw


KEYS = ('auto_name', 'auto_value', 'auto_domid', 'auto_for', 'auto_tabindex',
        'auto_filter', 'tabindex', 'domid_format', 'filters',
        'ordered_attributes')


def fresh(**kw):
    d = {'auto_name': True, 'auto_value': True, 'auto_domid': False,
         'auto_for': False, 'auto_tabindex': False, 'auto_filter': False,
         'tabindex': 0, 'domid_format': u'f_%s', 'filters': (),
         'ordered_attributes': True}
    d.update(kw)
    return d


def generator(sym, steps, ops):
    first = pick(sym, 9, ['none', 'tab'])
    g = Generator('xml', **first)
    model = [fresh(**first)]
    other = Generator('xml')
    el = String.named(u'n')(u'v')
    for i in range(steps):
        op = sym.choice('op%d' % i, ops)
        if op == 'begin':
            kw = pick(sym, i)
            sym.check(g.begin(**kw) == u'', 'result of begin')
            model.append(dict(model[-1]))
            model[-1].update(kw)
        elif op == 'end':
            if len(model) > 1:
                sym.check(g.end() == u'', 'result of end')
                model.pop()
            else:
                try:
                    g.end()
                    sym.fail('end without begin')
                except RuntimeError:
                    sym.cover('unmatched')
        elif op == 'set':
            kw = pick(sym, i)
            sym.check(g.set(**kw) == u'', 'result of set')
            model[-1].update(kw)
        elif op == 'tag':
            force = sym.flag('force%d' % i)
            tab = model[-1]['tabindex']
            out = g.input(el, auto_tabindex=True) if force else g.input(el)
            _, attrs, _, _ = parse(sym, out)
            attrs = dict(attrs)
            sym.check((u'tabindex' in attrs) is (force and tab != 0),
                      'tab index of a tag')
            if force and tab != 0:
                sym.equal(attrs[u'tabindex'], unicode(tab), 'tab index')
                if tab > 0:
                    model[-1]['tabindex'] = tab + 1
            sym.check((u'name' in attrs) is (parse_trool(
                model[-1]['auto_name']) is not False), 'name of a tag')
        else:
            bad = sym.choice('bad%d' % i, ['set', 'begin', 'item', 'update'])
            kw = pick(sym, i)
            kw[['bogus', 'zz'][i % 2]] = 1
            try:
                if bad == 'set':
                    g.set(**kw)
                elif bad == 'begin':
                    g.begin(**kw)
                elif bad == 'item':
                    g['bogus'] = 1
                else:
                    g.update({'bogus': 1})
                sym.fail('unknown setting accepted')
            except TypeError:
                sym.check(bad == 'set', 'kind of error')
            except KeyError:
                sym.check(bad != 'set', 'kind of error')
            sym.check('bogus' not in g, 'unknown setting kept')
        sym.cover(op)
        stack_view(sym, g, model, KEYS)
    while len(model) > 1:
        g.end()
        model.pop()
        stack_view(sym, g, model, KEYS)
    stack_view(sym, other, [fresh()], KEYS)
    stack_view(sym, Generator('html'), [fresh()], KEYS)
    sym.check('bogus' not in _default_context, 'defaults changed')
    sym.observe([g['tabindex'], g['domid_format']])


def context(sym, steps):
    """The raw stacked mapping."""
    c = Context()
    model = [dict((k, c[k]) for k in KEYS if k in c)]
    keys = sorted(model[0])
    for i in range(steps):
        op = sym.choice('op%d' % i, ['push', 'pop', 'item', 'update',
                                     'bad push', 'bad update'])
        kw = {}
        if sym.flag('two%d' % i):
            kw['tabindex'] = sym.int('tab%d' % i, 0, 3)
        if sym.flag('fmt%d' % i):
            kw['domid_format'] = sym.text('f%d' % i, 1)
        if op == 'push':
            c.push(**kw)
            model.append(dict(model[-1]))
            model[-1].update(kw)
        elif op == 'pop':
            if len(model) > 1:
                c.pop()
                model.pop()
            else:
                try:
                    c.pop()
                    sym.fail('the base can be popped')
                except RuntimeError:
                    pass
        elif op == 'item':
            for k in sorted(kw):
                c[k] = kw[k]
            model[-1].update(kw)
        elif op == 'update':
            if sym.flag('mapping%d' % i):
                c.update(kw)
            else:
                c.update(sorted(kw.items()), auto_name=False)
                kw['auto_name'] = False
            model[-1].update(kw)
        elif op == 'bad push':
            kw['bogus'] = 1
            try:
                c.push(**kw)
                sym.fail('unknown setting accepted')
            except KeyError:
                pass
        else:
            for args in ([{}, {}], [[(u'bogus', 1)]]):
                try:
                    c.update(*args)
                    sym.fail('bad update accepted')
                except (KeyError, TypeError):
                    pass
        sym.cover(op)
        for k in keys:
            sym.check(c[k] == model[-1][k], 'setting ' + k)
        sym.check('bogus' not in c, 'unknown setting kept')
    fresh_one = Context()
    for k in keys:
        sym.check(fresh_one[k] == fresh()[k], 'default of ' + k)
    sym.observe(c['tabindex'])


def open_tags(sym, steps):
    """An open tag is the current one of its kind until it is closed."""
    g = Generator('xml')
    kinds = ['textarea', 'select']
    open_ = {'textarea': [], 'select': []}
    made = []
    for i in range(steps):
        op = sym.choice('op%d' % i, ['open', 'reopen', 'close', 'new'])
        k = sym.choice('k%d' % i, kinds)
        if op == 'open':
            t = getattr(g, k)
            t.open(title=u'x')
            if t not in open_[k]:
                open_[k].append(t)
                made.append((k, t))
        elif op == 'reopen' and made:
            k, t = made[sym.pick_int('m%d' % i, 0, len(made) - 1)]
            t.open()
            if t not in open_[k]:
                open_[k].append(t)
        elif op == 'close' and made:
            k, t = made[sym.pick_int('m%d' % i, 0, len(made) - 1)]
            sym.check(t.close() == u'</' + k + u'>', 'closing tag')
            if t in open_[k]:
                open_[k].remove(t)
        else:
            sym.check(getattr(g, k).close() == u'</' + k + u'>',
                      'closing tag')
            if open_[k]:
                open_[k].pop()
        sym.cover(op)
        for kind in kinds:
            t = getattr(g, kind)
            if open_[kind]:
                sym.check(t is open_[kind][-1], 'the current tag')
            else:
                sym.check(all(t is not m for _, m in made), 'a closed tag')
    sym.observe([len(open_[k]) for k in kinds])


OPS = ['begin', 'end', 'set', 'tag', 'mistake']
CASES = [
    ('generator.two', generator, (2, OPS), OPS + ['unmatched'], 'q'),
    ('generator.three', generator, (3, ['begin', 'end', 'tag']),
     ['begin', 'end', 'tag'], 'q'),
    ('generator.all.three', generator, (3, OPS), OPS, 't'),
    ('context', context, (3,), ['push', 'pop', 'item', 'update', 'bad push',
                                'bad update'], 'q'),
    ('tags', open_tags, (4,), ['open', 'reopen', 'close', 'new'], 'q'),
    ('tags.long', open_tags, (6,), ['open', 'reopen', 'close', 'new'], 't'),
]

# C16: validate() visits down breadth-first and up in reverse, honours the
# short cuts and combines the outcomes.
from flatland import (Array, DateYYYYMMDD, Dict, Form, Integer, List,
                      MultiValue, Skip, SkipAll, SkipAllFalse, SparseDict,
                      String, Unevaluated)

BOUNDS = ('five tree shapes of up to 9 elements and 4 levels; at every '
          'validated element each validator may return True, False, None, '
          'Skip, SkipAll, SkipAllFalse, Unevaluated or another integer;'
          ' one repeated validation of the same tree')
OUTSIDE = 'validators that change the tree while it is being walked'
ASSUMPTIONS = ['validators return a bool, an int or None (others: the suite '
               'expects TypeError)']

OUT = [True, False, None, Skip, SkipAll, SkipAllFalse, Unevaluated, 0, 1, 2,
       -1]
SHORT = [True, False, SkipAll, SkipAllFalse]
UP = [True, False, SkipAllFalse]
YES = [True]


class Rec(object):
    """Validators that log their calls and return chosen outcomes."""

    def __init__(self, sym, state):
        self.sym, self.state = sym, state
        self.log, self.round = [], 0

    def validator(self, phase, outcomes):
        def validate(element, state):
            self.sym.check(state is self.state, 'state of a validator')
            i = 0
            if len(outcomes) > 1:
                i = self.sym.choice('%s.%d.%d' % (
                    phase, self.round, len(self.log)),
                    list(range(len(outcomes))))
            self.log.append((phase, element, outcomes[i]))
            return outcomes[i]
        return validate


def truth(x):
    """The standing a validator's return value gives."""
    if x is None:
        return False
    if x is Skip or x is SkipAll or x is Unevaluated:
        return True
    if x is SkipAllFalse:
        return False
    return bool(x)


def breadth(root, closed):
    out, level = [], [root]
    while level:
        nxt = []
        for e in level:
            out.append(e)
            if not any(e is c for c in closed):
                nxt.extend(list(e.children))
        level = nxt
    return out


def all_elements(el):
    out = [el]
    for c in el.children:
        out.extend(all_elements(c))
    return out


def expect(sym, root, rec, start, got, before):
    log = rec.log[start:]
    downs = [x for x in log if x[0] == 'down']
    ups = [x for x in log if x[0] == 'up']
    sym.check([x[0] for x in log] ==
              ['down'] * len(downs) + ['up'] * len(ups), 'phases mixed')
    closed = [e for _, e, r in downs if r is SkipAll or r is SkipAllFalse]
    visited = breadth(root, closed)
    want_down = [e for e in visited
                 if e.validates_down == 'validators' and e.validators or
                 e.validates_down == 'descent_validators'
                 and e.descent_validators]
    want_up = [e for e in reversed(visited)
               if e.validates_up == 'validators' and e.validators]
    sym.check(len(downs) == len(want_down) and all(
        a[1] is b for a, b in zip(downs, want_down)), 'descent order')
    sym.check(len(ups) == len(want_up) and all(
        a[1] is b for a, b in zip(ups, want_up)), 'ascent order')
    ok = True
    for e in all_elements(root):
        mine = [r for _, x, r in log if x is e]
        if not any(v is e for v in visited):
            sym.check(not mine, 'validator of a skipped element')
            old = [s for x, s in before if x is e][0]
            sym.check(e.valid is old, 'valid of a skipped element changed')
            sym.cover('skipped')
            continue
        good = all(truth(r) for r in mine)
        if not e.validates_down == 'validators' and not (
                e.validates_up == 'validators' and e.validators):
            good = good and not e.is_empty
        elif e.validates_down == 'validators' and not e.validators:
            good = good and not e.is_empty
        sym.check(e.valid is good, 'valid of an element')
        ok = ok and good
    sym.check(got is ok, 'result of validate()')
    sym.cover('valid' if ok else 'invalid')
    sym.observe([got, len(log)])


def build(which, rec):
    """(schema, value) per shape; every element that has validators is not
    optional, the others are filled in."""
    D = lambda o: [rec.validator('down', o)]
    U = lambda o: [rec.validator('up', o)]
    if which == 'pair':
        return Dict.named(u'r').of(
            String.named(u'a').using(validators=D(OUT)),
            Integer.named(u'b').using(validators=D(SHORT)),
        ).using(descent_validators=D(SHORT), validators=U(OUT)), \
            {u'a': u'x', u'b': 1}
    if which == 'root':
        return Dict.named(u'r').of(
            String.named(u'a').using(validators=D(YES)),
            Array.named(u'b').of(String.using(validators=D(UP))),
        ).using(descent_validators=D(OUT), validators=U(OUT)), \
            {u'a': u'x', u'b': [u'1']}
    if which == 'deep':
        return List.named(u'r').of(Dict.of(
            List.named(u'l').of(String.using(validators=D(UP))).using(
                descent_validators=D(SHORT), validators=U(UP)),
            String.named(u's').using(validators=D(YES)),
        ).using(descent_validators=D(SHORT), validators=U(UP))).using(
            validators=U(YES)), [{u'l': [u'1'], u's': u'2'}]
    if which == 'wide':
        return SparseDict.named(u'r').of(
            Dict.named(u'd').of(Integer.named(u'i').using(
                validators=D(YES))).using(descent_validators=D(SHORT)),
            MultiValue.named(u'm').of(String.using(validators=D(YES))).using(
                validators=U(UP)),
            DateYYYYMMDD.named(u't').using(validators=U(UP)),
        ).using(descent_validators=D(YES)), \
            {u'd': {u'i': 3}, u'm': [u'x', u'y'],
             u't': __import__('datetime').date(2001, 2, 3)}
    return List.named(u'r').of(List.of(
        Dict.of(String.named(u'x').using(validators=D(YES))).using(
            validators=U(UP))).using(descent_validators=D(SHORT))).using(
                descent_validators=D(YES), validators=U(UP)), \
        [[{u'x': u'1'}], [{u'x': u'2'}]]


def walk(sym, which, rounds):
    state = sym.choice('state', [None, [1]]) if which == 'wide' else {}
    rec = Rec(sym, state)
    S, v = build(which, rec)
    root = S()
    root.set(v)
    before = [(e, e.valid) for e in all_elements(root)]
    sym.check(all(s is Unevaluated for _, s in before), 'fresh elements')
    for r in range(rounds):
        rec.round = r
        start = len(rec.log)
        got = root.validate(state) if state is not None else root.validate()
        sym.check(len(root.errors) == 0, 'errors appeared')
        expect(sym, root, rec, start, got, before)
        before = [(e, e.valid) for e in all_elements(root)]


def alone(sym, kind):
    """recurse=False touches one element only."""
    state = object()
    rec = Rec(sym, state)
    D = lambda: [rec.validator('down', OUT)]
    U = lambda: [rec.validator('up', OUT)]
    has_down, has_up = sym.flag('has_down'), sym.flag('has_up')
    boom = lambda e, s: 1 // 0
    if kind == 'dict':
        S = Dict.of(String.named(u'a').using(validators=[boom]))
        v = {u'a': u'x'}
        if has_down:
            S = S.using(descent_validators=D())
        if has_up:
            S = S.using(validators=U())
    else:
        sym.assume(not has_up)
        S, v = String, u'x'
        if has_down:
            S = S.using(validators=D())
    el = S()
    el.set(v)
    got = el.validate(state, recurse=False)
    sym.check(len(rec.log) == has_down + has_up, 'number of calls')
    sym.check([x[0] for x in rec.log] ==
              ['down'] * int(has_down) + ['up'] * int(has_up), 'phases')
    if has_up:
        want = truth(rec.log[-1][2])
    elif kind == 'dict':
        want = True
    else:
        want = all(truth(x[2]) for x in rec.log)
    sym.check(bool(got) == want, 'result')
    sym.check(bool(el.valid) == want, 'valid')
    if kind == 'dict':
        sym.check(el[u'a'].valid is Unevaluated, 'child touched')
    sym.cover('alone')
    sym.observe(bool(got))


def default(sym):
    """Without validators an element is valid unless empty and required."""
    opt = [sym.flag('opt%d' % i) for i in range(4)]
    S = Dict.named(u'r').of(
        String.named(u's').using(optional=opt[0]),
        Integer.named(u'i').using(optional=opt[1]),
        List.named(u'l').of(String).using(optional=opt[2]),
        DateYYYYMMDD.named(u'd').using(optional=opt[3]),
        Form.named(u'f').of(String.named(u'z').using(optional=True)),
        Array.named(u'o').of(Integer).using(optional=True))
    root = S()
    s = sym.text('s', 2, alphabet=u'a \t')
    i = sym.text('i', 2, alphabet=u'1x ')
    n = sym.pick_int('n', 0, 2)
    l = [sym.choice('l%d' % k, [u'', u'v']) for k in range(n)]
    d = sym.choice('d', [None, u'x', (2001, 2, 3)])
    root.set({u's': s, u'i': i, u'l': l})
    if d == u'x':
        root[u'd'].set_flat([(u'd_day', u'x')])
        root[u'd'].el(u'day').set(u'x')
    elif d is not None:
        root[u'd'].set(__import__('datetime').date(*d))
    got = root.validate()
    t = s.strip()
    want = {u's': t != u'' or opt[0], u'i': i != u'' or opt[1],
            u'l': n > 0 or opt[2], u'd': d is not None or opt[3],
            u'f': True, u'o': True}
    for k in sorted(want):
        sym.check(bool(root[k].valid) == want[k], 'valid of ' + k)
    for k in range(n):
        sym.check(bool(root[u'l'][k].valid) == (l[k] == u'v'), 'members')
    ok = all(want.values()) and all(x == u'v' for x in l)
    for c in root[u'd'].children:
        ok = ok and bool(c.valid)
    sym.check(got is ok, 'result of validate()')
    sym.check(bool(root.valid), 'a mapping with no validators')
    sym.cover('valid' if ok else 'invalid')
    sym.observe(got)


def hollow(sym):
    """Empty elements: validators run exactly when they are not optional."""
    state = object()
    rec = Rec(sym, state)
    kinds = [List.of(String), Array.of(Integer), MultiValue.of(String),
             SparseDict.of(String.named(u'x')), String, Integer]
    S = sym.choice('kind', kinds)
    full = sym.flag('full')
    box = S not in (kinds[4], kinds[5])
    kw = {'optional': sym.flag('optional')}
    if sym.flag('up'):
        kw['validators'] = [rec.validator('up', UP)]
    if box and sym.flag('down'):
        kw['descent_validators'] = [rec.validator('down', SHORT)]
    root = Dict.named(u'r').of(S.named(u'e').using(**kw))()
    e = root[u'e']
    if full:
        e.set({u'x': u'1'} if S is kinds[3] else [u'1']
              if box else u'1')
    got = root.validate(state)
    quiet = e.optional and not full
    mine = [x[0] for x in rec.log]
    up = ['up'] if 'validators' in kw else []
    down = ['down'] if 'descent_validators' in kw else []
    # a MultiValue is validated on the way up, as all containers are
    sym.equal(mine, [] if quiet else down + up, 'validators that ran')
    sym.check(all(x[1] is e for x in rec.log), 'element')
    if quiet:
        want = True
        sym.cover('quiet')
    else:
        want = all(truth(x[2]) for x in rec.log)
        if not up:
            want = want and full
        sym.cover('ran' if mine else 'plain')
    sym.check(bool(e.valid) == want, 'valid of the element')
    skipped = any(x[0] == 'down' and (x[2] is SkipAll or x[2] is SkipAllFalse)
                  for x in rec.log)
    for c in e.children:
        sym.check((c.valid is Unevaluated) if skipped else c.valid is True,
                  'members')
    sym.check(got is want, 'result')
    sym.observe([bool(got), mine])


CASES = [
    ('hollow', hollow, (), ['quiet', 'ran', 'plain'], 'q'),
    ('walk.pair', walk, ('pair', 1), ['valid', 'invalid', 'skipped'], 'q'),
    ('walk.root', walk, ('root', 1), ['valid', 'invalid', 'skipped'], 'q'),
    ('walk.deep', walk, ('deep', 1), ['valid', 'invalid', 'skipped'], 'q'),
    ('walk.wide', walk, ('wide', 1), ['valid', 'invalid', 'skipped'], 'q'),
    ('walk.rows', walk, ('rows', 1), ['valid', 'invalid', 'skipped'], 'q'),
    ('walk.wide.again', walk, ('wide', 2), ['valid', 'invalid', 'skipped'],
     'q'),
    ('walk.deep.again', walk, ('deep', 2), ['valid', 'invalid', 'skipped'],
     't'),
    ('walk.rows.again', walk, ('rows', 2), ['valid', 'invalid', 'skipped'],
     't'),
    ('alone.dict', alone, ('dict',), ['alone'], 'q'),
    ('alone.string', alone, ('string',), ['alone'], 'q'),
    ('default', default, (), ['valid', 'invalid'], 'q'),
]

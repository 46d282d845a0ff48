# C22: email addresses and URLs: accepted exactly when their parts allow it.
import re

from flatland import String
from flatland.validation import (HTTPURLValidator, IsEmail, URLCanonicalizer,
                                 URLValidator)

BOUNDS = ('email texts of up to 5 arbitrary ASCII characters and addresses '
          'with local parts of up to 2 arbitrary characters and domains of up '
          'to 4 characters, label and domain lengths around the limits; URLs '
          'composed of every combination of scheme, user, password, host, '
          'port, path, params, query and fragment with up to 2 symbolic '
          'characters per part; arbitrary URL texts of up to 4 characters')
OUTSIDE = 'non-ASCII domains; labels over 63 characters (platform codec)'
ASSUMPTIONS = []

LDH = u'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-'


def domain_ok(domain, non_local):
    labels, cur = [], u''
    for c in domain:
        if c == u'.':
            labels.append(cur)
            cur = u''
        else:
            if c not in LDH:
                return False
            cur = cur + c
    labels.append(cur)
    if any(x == u'' or len(x) > 63 for x in labels):
        return False
    return len(domain) <= 253 and (len(labels) > 1 or not non_local)


def address_ok(t, non_local):
    ats = [i for i in range(len(t)) if t[i] == u'@']
    if len(ats) != 1:
        return False
    local, domain = t[:ats[0]], t[ats[0] + 1:]
    if local == u'' or local.isspace():
        return False
    return domain_ok(domain, non_local)


def judge_email(sym, t, **kw):
    non_local = kw.get('non_local', True)
    el = String.named(u'mail').using(strip=False)(t)
    good = address_ok(t, non_local)
    if good and 'local_part_pattern' in kw:
        good = t[0] == u'b'
    got = IsEmail(**kw)(el, None)
    sym.check(bool(got) == bool(good), 'verdict on an address')
    sym.equal(list(el.errors), [] if good else [
        u'mail is not a valid email address.'], 'errors')
    sym.check(el.u == t, 'address changed')
    sym.cover('accept' if good else 'reject')
    sym.observe(bool(got))


def email_text(sym, maxlen, alphabet):
    t = sym.text('t', maxlen, alphabet=alphabet)
    kw = {'non_local': False} if sym.flag('local') else {}
    judge_email(sym, t, **kw)


def email_parts(sym):
    local = sym.text('local', 2)
    sym.assume(not any(c == u'@' for c in local))
    domain = sym.text('domain', 4, alphabet=u'aZ0-. _\n')
    kw = sym.choice('kw', [{}, {'non_local': False},
                           {'local_part_pattern': re.compile(u'b')}])
    judge_email(sym, local + u'@' + domain, **kw)


def email_limits(sym):
    n = sym.pick_int('n', 61, 63)
    m = sym.pick_int('m', 56, 63)
    c = sym.choice('c', [u'c', u'-', u'_', u'\n'])
    rest = u'.'.join([u'x' * 63] * 3)
    domain = sym.choice('shape', [c + u'y' * (n - 1), c * n + u'.com',
                                  rest + u'.' + c * m, c + u'.' + rest
                                  + u'.' + u'z' * m])
    judge_email(sym, u'me@' + domain)


SCHEMES = [u'http', u'https', u'HTTP', u'ftp', u'x-y', None]


class Url(object):
    """A URL put together from its parts, and what its parts are."""

    def __init__(self, sym, full):
        scheme = sym.choice('scheme', SCHEMES)
        user = sym.choice('user', [None, u'', u'u', u'u:p', u':'])
        host = sym.text('host', 2 if full else 1, alphabet=u'aB1-.')
        port = sym.choice('port', [None, u'80', u'', u'99999', u'x', u'0']
                          if full else [None, u'80', u'x', u'0'])
        def part(name, mark, alphabet):
            if not sym.flag(name + '?'):
                return None
            return mark + sym.text(name, 1, 0 if full else 1, alphabet)
        self.path = part('path', u'/', u'a/.:') or u''
        params = part('params', u';', u'a=') if self.path else None
        if scheme == u'x-y':
            sym.assume(params is None)
        query = part('query', u'?', u'a=/:;?')
        fragment = part('fragment', u'#', u'a=/:;?#')
        netloc = u''
        if user is not None:
            netloc += user + u'@'
        netloc += host
        if port is not None:
            netloc += u':' + port
        self.netloc = netloc
        self.scheme = u'' if scheme is None else scheme.lower()
        self.params = u'' if params is None else params[1:]
        self.query = u'' if query is None else query[1:]
        self.fragment = u'' if fragment is None else fragment[1:]
        self.username = self.password = None
        if user is not None:
            self.username = user.split(u':')[0]
            if u':' in user:
                self.password = user.split(u':')[1]
        self.hostname = host.lower()
        if host == u'' and port is None:
            self.hostname = None
        self.port, self.bad_port = None, port in (u'', u'x')
        if port is not None and not self.bad_port and int(port) < 65536:
            self.port = port
        self.front = (scheme + u':' if scheme else u'') + u'//'
        self.text = self.front + netloc + self.path + (params or u'') + (
            query or u'') + (fragment or u'')


def url_parts(sym, full):
    u = Url(sym, full)
    el = String.named(u'url')(u.text)
    kw = {'bad_format': u'F', 'blocked_scheme': u'S', 'blocked_part': u'P'}
    which = sym.choice('restrict', ['none', 'schemes', 'parts', 'nothing'])
    want = None
    if u.scheme == u'':
        want = u'S'
    if which == 'schemes':
        kw['allowed_schemes'] = (u'https', u'ftp')
        if u.scheme not in (u'https', u'ftp'):
            want = u'S'
    elif which == 'parts':
        kw['allowed_parts'] = set(['scheme', 'netloc', 'path'])
        if want is None and (u.params or u.query or u.fragment):
            want = u'P'
    elif which == 'nothing':
        kw['allowed_parts'] = ()
        if want is None:
            want = u'P'
    got = URLValidator(**kw)(el, None)
    sym.check(bool(got) == (want is None), 'verdict on a URL')
    sym.equal(list(el.errors), [] if want is None else [want], 'errors')
    sym.check(el.u == u.text, 'URL changed')
    sym.cover('accept' if want is None else 'reject')
    sym.observe([u.text, bool(got)])


def http_parts(sym, full):
    u = Url(sym, full)
    el = String.named(u'url')(u.text)
    kw = {'bad_format': u'F', 'required_part': u'R', 'forbidden_part': u'X'}
    required = {'scheme': (u'http', u'https'), 'hostname': True}
    forbidden = {'username': True, 'password': True}
    which = sym.choice('rules', ['default', 'query', 'lists', 'none',
                               'port', 'port list'])
    if which == 'query':
        required = {'query': True, 'path': True}
        kw['required_parts'] = required
    elif which == 'lists':
        required = {'port': (u'80',)}
        forbidden = {'path': (u'/a', u'/'), 'fragment': True,
                     'hostname': (u'a', u'')}
        kw['required_parts'], kw['forbidden_parts'] = required, forbidden
    elif which == 'port':
        required, forbidden = {}, {'port': True}
        kw['required_parts'], kw['forbidden_parts'] = {}, forbidden
    elif which == 'port list':
        required, forbidden = {'port': True}, {'port': (u'80', u'443')}
        kw['required_parts'], kw['forbidden_parts'] = required, forbidden
    elif which == 'none':
        required, forbidden = {}, {}
        kw['required_parts'], kw['forbidden_parts'] = {}, {}
    problems = set()
    if u.bad_port:
        problems.add(u'F')
    for k in required:
        v = getattr(u, k)
        if required[k] is True:
            if not v:
                problems.add(u'R')
        elif v is None or v not in required[k]:
            problems.add(u'R')
    for k in forbidden:
        v = getattr(u, k)
        if forbidden[k] is True:
            if v:
                problems.add(u'X')
        elif v is not None and v in forbidden[k]:
            problems.add(u'X')
    got = HTTPURLValidator(**kw)(el, None)
    sym.check(bool(got) == (not problems), 'verdict on a URL')
    sym.check(len(el.errors) == (1 if problems else 0), 'number of errors')
    for e in el.errors:
        sym.check(e in problems, 'message')
    sym.cover('accept' if not problems else 'reject')
    sym.observe([u.text, bool(got), list(el.errors)])


def http_default(sym):
    u = Url(sym, False)
    el = String.named(u'url')(u.text)
    good = (u.scheme in (u'http', u'https') and bool(u.hostname)
            and not u.username and not u.password and not u.bad_port)
    got = HTTPURLValidator()(el, None)
    sym.check(bool(got) == bool(good), 'verdict on a URL')
    sym.equal(list(el.errors), [] if good else [
        u'url is not a valid URL.'], 'errors')
    sym.cover('accept' if good else 'reject')


def canonical(sym, full):
    u = Url(sym, full)
    sym.assume(u.netloc != u'' and u.scheme != u'')
    which = sym.choice('discard', [None, ('query', 'fragment'), (),
                                   ('params',), ('path', 'params', 'query')])
    v = URLCanonicalizer() if which is None else \
        URLCanonicalizer(discard_parts=which)
    drop = ('fragment',) if which is None else which
    el = String.named(u'url')(u.text)
    sym.check(v(el, None) is True, 'canonicalizer refused')
    want = u.scheme + u'://' + u.netloc
    if not drop:
        want = u.text
    else:
        for k, mark in [('path', u''), ('params', u';'), ('query', u'?'),
                        ('fragment', u'#')]:
            x = getattr(u, k)
            if k not in drop and x:
                want = want + mark + x
    sym.equal(el.value, want, 'canonical URL')
    sym.equal(el.u, want, 'text of a canonical URL')
    sym.check(v(el, None) is True, 'canonicalizer refused')
    sym.equal(el.value, want, 'canonical URL is not a fixpoint')
    sym.check(el.errors == [], 'errors')
    sym.cover('accept')
    sym.observe(el.value)


def any_url(sym, maxlen, alphabet):
    """No text raises and a refusal is recorded once."""
    t = sym.choice('front', [u'', u'http://', u'x:']) + sym.text(
        't', maxlen, alphabet=alphabet)
    for V in (URLValidator, HTTPURLValidator):
        el = String.named(u'url')(t)
        got = V()(el, None)
        sym.check(got is True or got is False, 'kind of verdict')
        sym.equal(list(el.errors), [] if got else [
            u'url is not a valid URL.'], 'errors')
        sym.observe(bool(got))
    el = String.named(u'url')(t)
    got = URLCanonicalizer()(el, None)
    sym.check(got is True or got is False, 'kind of verdict')
    if got:
        sym.check(u'#' not in el.value, 'fragment kept')
    sym.equal(list(el.errors), [] if got else [
        u'url is not a valid URL.'], 'errors of the canonicalizer')
    if not got:
        sym.equal((el.u, el.value), (t.strip(), t.strip()),
                  'a refused URL changed')
    el = String.named(u'url')()
    sym.check(not URLValidator()(el, None), 'no value')
    sym.check(not URLCanonicalizer()(el, None), 'no value')
    sym.check(HTTPURLValidator()(String(), None) is True, 'no value')
    sym.check(not IsEmail()(String.named(u'a')(), None), 'no value')
    sym.cover('walked')


CASES = [
    ('email.text', email_text, (4, [(u'\x00', u'\x7f')]),
     ['accept', 'reject'], 'q'),
    ('email.text.6', email_text, (6, u'aZ@.- \n'), ['accept', 'reject'],
     't'),
    ('email.parts', email_parts, (), ['accept', 'reject'], 'q'),
    ('email.limits', email_limits, (), ['accept', 'reject'], 'q'),
    ('url', url_parts, (False,), ['accept', 'reject'], 'q'),
    ('url.full', url_parts, (True,), ['accept', 'reject'], 't'),
    ('http', http_parts, (False,), ['accept', 'reject'], 'q'),
    ('http.full', http_parts, (True,), ['accept', 'reject'], 't'),
    ('http.default', http_default, (), ['accept', 'reject'], 'q'),
    ('canonical', canonical, (False,), ['accept'], 'q'),
    ('canonical.full', canonical, (True,), ['accept'], 't'),
    ('any', any_url, (2, None), ['walked'], 'q'),
    ('any.url', any_url, (3, u'a:/[]@#?;'), ['walked'], 'q'),
]

# Runs harness cases on concrete inputs against the real sources (Jython).
# -*- coding: utf-8 -*-
import datetime
import json
import os
import sys
import time
import traceback


class Pruned(BaseException):
    pass


class Violation(BaseException):
    pass


class Diverged(BaseException):
    """The run asks for an input that its path did not have."""


class Witness(dict):
    def __missing__(self, name):
        raise Diverged(name)


class ConcreteApi(object):
    symbolic = False

    def __init__(self, witness, known=()):
        self._w = Witness(witness)
        self._known = known
        self.covers = set()
        self.observed = []

    def text(self, name, maxlen, minlen=0, alphabet=None):
        v = self._w[name]
        return v if isinstance(v, unicode) else unicode(v)

    def int(self, name, lo, hi, pref=None):
        return self._w[name]

    pick_int = int

    def choice(self, name, seq):
        return seq[self._w[name]]

    def flag(self, name):
        return self.choice(name, (False, True))

    def assume(self, cond):
        if not cond:
            raise Pruned()

    def known(self, ident, cond=True):
        if cond and ident in self._known:
            self.covers.add('known:' + ident)
            return True
        return False

    def cover(self, label):
        self.covers.add(label)

    def observe(self, x):
        self.observed.append(x)

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg)

    def equal(self, a, b, msg):
        if not a == b:
            raise Violation(u'%s: %r != %r' % (msg, a, b))

    def fail(self, msg):
        raise Violation(msg)


_FIELDS = {
    datetime.date: ('year', 'month', 'day'),
    datetime.time: ('hour', 'minute', 'second', 'microsecond'),
    datetime.datetime: ('year', 'month', 'day', 'hour', 'minute', 'second',
                        'microsecond'),
}


def concrete(x):
    if x is None or isinstance(x, bool):
        return x
    for cls in (datetime.datetime, datetime.date, datetime.time):
        if isinstance(x, cls):
            return [u'~' + cls.__name__] + [getattr(x, n)
                                            for n in _FIELDS[cls]]
    if isinstance(x, (int, long)):
        return int(x) if type(x) in (int, long) else int(x)
    if isinstance(x, unicode):
        return unicode.__str__(x) if False else u''.join(c for c in x)
    if isinstance(x, str):
        return x.decode('latin-1')
    if isinstance(x, dict):
        items = [[concrete(k), concrete(v)] for k, v in dict.items(x)]
        return [u'~dict'] + items
    if isinstance(x, (list, tuple)):
        return [concrete(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return [u'~set'] + [concrete(y) for y in x]
    if isinstance(x, float):
        return x
    return u'~' + type(x).__name__


def run_one(mod, case, args, witness, known):
    api = ConcreteApi(witness, known)
    fn = None
    for c in mod.CASES:
        if c[0] == case:
            fn = c[1]
            args = c[2]
    try:
        fn(api, *args)
        status, msg = 'ok', ''
    except Pruned:
        status, msg = 'pruned', ''
    except Diverged, e:
        status, msg = 'diverged', u'input %s' % e.args[0]
    except Violation, e:
        status, msg = 'violation', e.args[0]
    except Exception, e:
        status = 'violation'
        msg = u'uncaught %s: %s' % (type(e).__name__, repr(e))
        msg += u'\n' + traceback.format_exc().decode('utf-8', 'replace')
    except:
        e = sys.exc_info()
        status, msg = 'violation', u'uncaught %s: %s' % (e[0], e[1])
    try:
        obs = [concrete(o) for o in api.observed]
    except Exception, e:
        obs = [u'~unprintable %r' % e]
    return {'status': status, 'msg': unicode(msg), 'observed': obs,
            'covers': sorted(api.covers)}


def main(jobfile, outfile):
    with open(jobfile) as fp:
        job = json.load(fp)
    sys.path.insert(0, job['harness'])
    sys.path.insert(0, job['repo'])
    sys.dont_write_bytecode = True
    mod = __import__(job['module'])
    out = []
    t0 = time.time()
    for case, witness in job['witnesses']:
        if time.time() - t0 > job.get('seconds', 120):
            break
        out.append(run_one(mod, case, (), witness, job.get('known', ())))
    with open(outfile, 'w') as fp:
        json.dump(out, fp)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])

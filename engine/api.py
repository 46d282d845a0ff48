"""What a harness sees: symbolic inputs, assumptions, assertions, markers."""
from . import explore, tables, terms
from .explore import Pruned, Violation
from .values import SymStr, concrete, mkint, mkstr


BMP = ((0, 0xD7FF), (0xE000, 0xFFFF))


def ranges_of(alphabet):
    if alphabet is None:
        return BMP
    if isinstance(alphabet, str):
        return tables.from_codes(set(map(ord, alphabet)))
    out = []
    for a in alphabet:
        if isinstance(a, str):
            out.append((ord(a), ord(a)))
        else:
            lo, hi = a
            out.append((ord(lo) if isinstance(lo, str) else lo,
                        ord(hi) if isinstance(hi, str) else hi))
    return tables.union(tuple(sorted(out)), ())


class SymApi(object):
    """Implementation over the current path."""
    symbolic = True

    def __init__(self, path, known=()):
        self._p = path
        self._known = known

    # inputs
    def text(self, name, maxlen, minlen=0, alphabet=None):
        p = self._p
        rs = ranges_of(alphabet)
        n = self._int(name + '.len', minlen, maxlen)
        n = p.concretize(n)
        s = mkstr([p.new_var('%s.%d' % (name, i), None, None, ord('a'), rs)
                   for i in range(n)])
        p.inputs.append((name, s))
        return s

    def _int(self, name, lo, hi, pref=None):
        if lo == hi:
            return lo
        return self._p.new_var(name, lo, hi, lo if pref is None else pref)

    def int(self, name, lo, hi, pref=None):
        v = mkint(self._int(name, lo, hi, pref))
        self._p.inputs.append((name, v))
        return v

    def choice(self, name, seq):
        i = self._p.concretize(self._int(name, 0, len(seq) - 1))
        self._p.inputs.append((name, i))
        return seq[i]

    def flag(self, name):
        return self.choice(name, (False, True))

    def pick_int(self, name, lo, hi):
        """A concrete integer: one path per value."""
        v = self._p.concretize(self._int(name, lo, hi))
        self._p.inputs.append((name, v))
        return v

    # control
    def assume(self, cond):
        if not cond:
            raise Pruned()

    def known(self, ident, cond=True):
        """True when the path lies in the region of a listed finding."""
        if not cond:
            return False
        if ident in self._known:
            self._p.covers.add('known:' + ident)
            return True
        return False

    def cover(self, label):
        self._p.covers.add(label)

    def observe(self, x):
        self._p.observed.append(x)

    # assertions
    def check(self, cond, msg):
        self._p.assertions += 1
        if not cond:
            raise Violation(msg)

    def equal(self, a, b, msg):
        self._p.assertions += 1
        from .ops import eq_
        if not eq_(a, b):
            raise Violation(msg)

    def fail(self, msg):
        self._p.assertions += 1
        raise Violation(msg)

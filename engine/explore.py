"""Path exploration by re-execution: every symbolic branch is decided by the
solver, both feasible sides are explored, nothing is sampled."""
import signal
import time

from . import terms
from .terms import T, ev, not_


class EngineStop(BaseException):
    """Base of everything that ends a path from inside the engine."""


class Pruned(EngineStop):
    """An assumption of the harness does not hold on this path."""


class Violation(EngineStop):
    """A harness assertion is false on this path."""

    def __init__(self, msg):
        self.msg = msg


class Leak(EngineStop):
    """The code did something the encoding does not cover."""


class PathLimit(EngineStop):
    """Decision or time limit of one path."""


class Diverged(EngineStop):
    """Re-execution did not follow the recorded prefix."""


class Path(object):
    MAX_DECISIONS = 20000

    def __init__(self, prefix, model):
        self.prefix = prefix
        self.model = dict(model)
        self.constraints = []
        self.decisions = []
        self.known = {}
        self.pending = []
        self.vars = {}
        self.inputs = []
        self.covers = set()
        self.observed = []
        self.notes = []
        self.unknown_sides = 0
        self.assertions = 0
        self.fresh = 0
        self.digits = {}

    # -- variables
    def new_var(self, name, lo, hi, pref=None, ranges=None):
        if name in self.vars:
            raise AssertionError('duplicate symbolic input %r' % name)
        v = terms.var(name)
        if ranges is None:
            ranges = ((lo, hi),)
        dom = terms.inr(v, ranges)
        self.vars[name] = v
        if name not in self.model:
            if pref is None or not terms.inr(pref, ranges):
                pref = ranges[0][0]
            self.model[name] = pref
        self.constraints.append(dom)
        self.known[id(dom)] = True
        return v

    # -- branching
    def branch(self, cond, aux=None):
        if cond is True or cond is False:
            return cond
        k = self.known.get(id(cond))
        if k is not None:
            return k
        idx = len(self.decisions)
        if idx < len(self.prefix):
            v, h, _ = self.prefix[idx]
            if h != cond.h:
                raise Diverged('decision %d: %r' % (idx, cond))
            self.decisions.append((v, h, aux))
        else:
            if idx >= self.MAX_DECISIONS:
                raise PathLimit('more than %d decisions' % idx)
            v = ev(cond, self.model)
            other = not_(cond) if v else cond
            try:
                m = terms.solve(self.constraints, other)
            except terms.SolverUnknown:
                m = None
                self.unknown_sides += 1
            if m is not None:
                nm = dict(self.model)
                nm.update(m)
                self.pending.append(
                    (self.decisions + [(not v, cond.h, aux)], nm))
            self.decisions.append((v, cond.h, aux))
        c = cond if v else not_(cond)
        self.constraints.append(c)
        self.known[id(cond)] = v
        n = not_(cond)
        if type(n) is T:
            self.known[id(n)] = not v
        return v

    def assume(self, cond):
        """Constrain the path to *cond* (a term) without exploring the rest."""
        if cond is True:
            return
        if cond is False:
            raise Pruned()
        k = self.known.get(id(cond))
        if k is True:
            return
        if k is False:
            raise Pruned()
        if not ev(cond, self.model):
            m = terms.solve(self.constraints, cond)
            if m is None:
                raise Pruned()
            self.model.update(m)
        self.constraints.append(cond)
        self.known[id(cond)] = True

    def concretize(self, term, limit=2000):
        """Fork until *term* has a single value; return it."""
        if type(term) is not T:
            return term
        for _ in range(limit):
            v = ev(term, self.model)
            c = terms.eq(term, v)
            if c is True or self.known.get(id(c)) is True:
                return v
            idx = len(self.decisions)
            if idx < len(self.prefix):
                # follow the value order of the recorded run
                v = self.prefix[idx][2]
                if v is None:
                    raise Diverged('concretisation at %d' % idx)
                c = terms.eq(term, v)
            if self.branch(c, v):
                return v
        raise Leak('more than %d values for one concretisation' % limit)


current = None


def branch(cond):
    if cond is True or cond is False:
        return cond
    return current.branch(cond)


class PathResult(object):
    __slots__ = ('status', 'msg', 'model', 'inputs', 'covers', 'observed',
                 'decisions', 'assertions', 'unknown', 'wall')


def _alarm(signum, frame):
    raise PathLimit('path time limit')


def run_path(fn, prefix, model, path_seconds=20):
    """Run *fn(path)* once along *prefix*; return (PathResult, pending)."""
    global current
    p = Path(prefix, model)
    res = PathResult()
    current = p
    t0 = time.time()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, path_seconds)
    try:
        try:
            fn(p)
            res.status, res.msg = 'ok', ''
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Pruned:
        res.status, res.msg = 'pruned', ''
    except Violation as e:
        res.status, res.msg = 'violation', e.msg
    except Leak as e:
        res.status, res.msg = 'leak', str(e)
    except PathLimit as e:
        res.status, res.msg = 'limit', str(e)
    except Diverged as e:
        res.status, res.msg = 'diverged', str(e)
    except RecursionError as e:
        res.status, res.msg = 'limit', 'recursion'
    except Exception as e:  # an exception escaping the harness is a failure
        import traceback
        res.status = 'violation'
        res.msg = 'uncaught %s: %s' % (type(e).__name__, e)
        p.notes.append(traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        current = None
    res.model = p.model
    res.inputs = p.inputs
    res.covers = p.covers
    res.observed = p.observed
    res.decisions = len(p.decisions)
    res.assertions = p.assertions
    res.unknown = p.unknown_sides
    res.wall = time.time() - t0
    return res, p

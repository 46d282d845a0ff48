"""Hash-consed integer/boolean terms, their translation to z3, and a sliced,
cached satisfiability front end.

Every branch condition met while the real flatland code runs on symbolic
values is one of these terms.  Terms are cheap to build (re-executing a path
prefix builds no z3 object at all); z3 objects are made only when a query is
really sent to the solver.
"""
import time

import z3

_intern = {}


class T(object):
    __slots__ = ('op', 'args', 'vars', 'h', 'z', 'isbool')

    def __init__(self, op, args, isbool):
        self.op = op
        self.args = args
        self.isbool = isbool
        self.z = None
        if op == 'var':
            self.vars = frozenset((args[0],))
        else:
            vs = frozenset()
            for a in args:
                if type(a) is T:
                    vs = vs | a.vars if vs else a.vars
            self.vars = vs
        self.h = hash((op,) + tuple(a.h if type(a) is T else a for a in args))

    def __repr__(self):
        if self.op == 'var':
            return self.args[0]
        return '(%s %s)' % (self.op, ' '.join(map(repr, self.args)))


def mk(op, args, isbool=False):
    key = (op,) + tuple(('T', id(a)) if type(a) is T else a for a in args)
    t = _intern.get(key)
    if t is None:
        t = T(op, args, isbool)
        _intern[key] = t
    return t


def reset_interning():
    _intern.clear()
    _sat_cache.clear()


def var(name):
    return mk('var', (name,))


def is_t(x):
    return type(x) is T


# -- integer terms: python ints are constants ------------------------------

def add(a, b):
    if type(a) is not T and type(b) is not T:
        return a + b
    if type(a) is not T:
        if a == 0:
            return b
        a, b = b, a
    if type(b) is not T:
        if b == 0:
            return a
        if a.op == '+' and type(a.args[1]) is not T:
            return add(a.args[0], a.args[1] + b)
    return mk('+', (a, b))


def neg(a):
    if type(a) is not T:
        return -a
    return mul(a, -1)


def sub(a, b):
    if type(a) is T and a is b:
        return 0
    return add(a, neg(b))


def mul(a, b):
    if type(a) is not T and type(b) is not T:
        return a * b
    if type(a) is not T:
        a, b = b, a
    if type(b) is not T:
        if b == 0:
            return 0
        if b == 1:
            return a
        if a.op == '*' and type(a.args[1]) is not T:
            return mul(a.args[0], a.args[1] * b)
    return mk('*', (a, b))


def div(a, b):
    """floor division (python semantics)."""
    if type(a) is not T and type(b) is not T:
        return a // b
    return mk('div', (a, b))


def mod(a, b):
    if type(a) is not T and type(b) is not T:
        return a % b
    return mk('mod', (a, b))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (type(a) is not T and type(b) is not T and a == b):
        return a
    return mk('ite', (c, a, b))


# -- boolean terms: python bools are constants ------------------------------

def not_(c):
    if c is True:
        return False
    if c is False:
        return True
    if c.op == 'not':
        return c.args[0]
    return mk('not', (c,), True)


def and_(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c.op == 'and':
            out.extend(x for x in c.args if x not in out)
        elif c not in out:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), True)


def or_(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if c not in out:
            out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(out), True)


def eq(a, b):
    if a is b:
        return True
    if type(a) is not T and type(b) is not T:
        return a == b
    if type(a) is not T:
        a, b = b, a
    if type(b) is not T and a.op == '+' and type(a.args[1]) is not T:
        return eq(a.args[0], b - a.args[1])
    return mk('=', (a, b), True)


def lt(a, b):
    if a is b:
        return False
    if type(a) is not T and type(b) is not T:
        return a < b
    return mk('<', (a, b), True)


def le(a, b):
    if a is b:
        return True
    if type(a) is not T and type(b) is not T:
        return a <= b
    return mk('<=', (a, b), True)


def inr(a, ranges):
    """a is within one of *ranges* (tuple of (lo, hi), sorted, disjoint)."""
    if type(a) is not T:
        for lo, hi in ranges:
            if lo <= a <= hi:
                return True
        return False
    if not ranges:
        return False
    if len(ranges) == 1 and ranges[0][0] == ranges[0][1]:
        return eq(a, ranges[0][0])
    return mk('in', (a, tuple(tuple(r) for r in ranges)), True)


# -- concrete evaluation under a model ---------------------------------------

class Defaults(dict):
    pass


def ev(t, m):
    """Evaluate *t* under model *m* (var name -> int)."""
    if type(t) is not T:
        return t
    memo = {}

    def go(t):
        if type(t) is not T:
            return t
        k = id(t)
        r = memo.get(k)
        if r is not None:
            return r
        op, a = t.op, t.args
        if op == 'var':
            r = m[a[0]]
        elif op == '+':
            r = go(a[0]) + go(a[1])
        elif op == '*':
            r = go(a[0]) * go(a[1])
        elif op == 'div':
            r = go(a[0]) // go(a[1])
        elif op == 'mod':
            r = go(a[0]) % go(a[1])
        elif op == 'ite':
            r = go(a[1]) if go(a[0]) else go(a[2])
        elif op == '=':
            r = go(a[0]) == go(a[1])
        elif op == '<':
            r = go(a[0]) < go(a[1])
        elif op == '<=':
            r = go(a[0]) <= go(a[1])
        elif op == 'in':
            v = go(a[0])
            r = any(lo <= v <= hi for lo, hi in a[1])
        elif op == 'not':
            r = not go(a[0])
        elif op == 'and':
            r = all(go(x) for x in a)
        elif op == 'or':
            r = any(go(x) for x in a)
        else:
            raise AssertionError(op)
        memo[k] = r
        return r
    return go(t)


# -- z3 -------------------------------------------------------------------

def to_z3(t):
    if type(t) is not T:
        if t is True or t is False:
            return z3.BoolVal(t)
        return z3.IntVal(t)
    if t.z is not None:
        return t.z
    op, a = t.op, t.args
    if op == 'var':
        r = z3.Int(a[0])
    elif op == '+':
        r = to_z3(a[0]) + to_z3(a[1])
    elif op == '*':
        r = to_z3(a[0]) * to_z3(a[1])
    elif op in ('div', 'mod'):
        x, y = to_z3(a[0]), a[1]
        # z3's div/mod agree with Python's floor semantics for a positive
        # divisor; other divisors are not produced by the encoding.
        if type(y) is T or y <= 0:
            raise NotImplementedError('division by a symbolic/negative term')
        r = (x / y) if op == 'div' else (x % y)
    elif op == 'ite':
        r = z3.If(to_z3(a[0]), to_z3(a[1]), to_z3(a[2]))
    elif op == '=':
        r = to_z3(a[0]) == to_z3(a[1])
    elif op == '<':
        r = to_z3(a[0]) < to_z3(a[1])
    elif op == '<=':
        r = to_z3(a[0]) <= to_z3(a[1])
    elif op == 'in':
        v = to_z3(a[0])
        parts = []
        for lo, hi in a[1]:
            if lo == hi:
                parts.append(v == lo)
            else:
                parts.append(z3.And(v >= lo, v <= hi))
        r = z3.Or(parts) if len(parts) > 1 else parts[0]
    elif op == 'not':
        r = z3.Not(to_z3(a[0]))
    elif op == 'and':
        r = z3.And([to_z3(x) for x in a])
    elif op == 'or':
        r = z3.Or([to_z3(x) for x in a])
    else:
        raise AssertionError(op)
    t.z = r
    return r


class SolverUnknown(Exception):
    pass


class Stats(object):
    def __init__(self):
        self.queries = 0        # satisfiability questions asked
        self.solver_calls = 0   # of those, sent to z3 (the rest: cache)
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0


stats = Stats()
_sat_cache = {}
TIMEOUT_MS = 20000


def solve(constraints, cond):
    """Satisfiability of conj(constraints) and cond.

    *constraints* is a sequence of Terms known to be satisfiable together;
    only those connected with *cond* by shared variables are sent.
    Returns None for unsat, else a dict assigning the variables of the slice.
    """
    stats.queries += 1
    if cond is True:
        stats.sat += 1
        return {}
    if cond is False:
        stats.unsat += 1
        return None
    need = set(cond.vars)
    pool = [c for c in constraints]
    sl = []
    changed = True
    while changed:
        changed = False
        rest = []
        for c in pool:
            if c.vars & need:
                sl.append(c)
                if not c.vars <= need:
                    need |= c.vars
                    changed = True
                else:
                    changed = changed or False
            else:
                rest.append(c)
        if len(rest) == len(pool):
            break
        pool = rest
    key = (id(cond), frozenset(id(c) for c in sl))
    hit = _sat_cache.get(key, False)
    if hit is not False:
        if hit is None:
            stats.unsat += 1
        else:
            stats.sat += 1
        return hit
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', TIMEOUT_MS)
    for c in sl:
        s.add(to_z3(c))
    s.add(to_z3(cond))
    r = s.check()
    stats.solver_calls += 1
    if r == z3.unsat:
        res = None
        stats.unsat += 1
    elif r == z3.sat:
        model = s.model()
        res = {}
        for v in need:
            val = model.eval(z3.Int(v), model_completion=True)
            res[v] = val.as_long()
        stats.sat += 1
    else:
        stats.solver_s += time.time() - t0
        stats.unknown += 1
        raise SolverUnknown('z3 returned %s' % r)
    stats.solver_s += time.time() - t0
    _sat_cache[key] = res
    return res

"""Runs the repository's own tests through the encoding (no symbolic input):
checks that the rewritten sources behave as Jython runs them."""
import importlib
import inspect
import os
import sys
import traceback
import types
import unittest

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..'))
from engine import loader  # noqa


def main(repo='/repo', verbose=False):
    loader.install(repo, os.path.join(os.path.dirname(
        os.path.abspath(__file__)), '..', 'harness'))
    loader.ROOTS['tests'] = repo
    for n in ('six', 'six.moves', 'urlparse'):
        sys.modules[n] = loader.shim(n)
    npass, bad, skipped = 0, [], []
    for root, _, files in os.walk(os.path.join(repo, 'tests')):
        for fn in sorted(files):
            if not fn.startswith('test_') or not fn.endswith('.py'):
                continue
            name = os.path.relpath(os.path.join(root, fn), repo)[:-3]
            name = name.replace('/', '.')
            try:
                mod = importlib.import_module(name)
            except Exception as e:
                skipped.append((name, repr(e)))
                continue
            for label, fn_ in cases(mod):
                try:
                    r = fn_()
                    if r is not None and inspect.isgenerator(r):
                        for item in r:
                            if callable(item):
                                item()
                            else:
                                loader.ops.call(item[0], *item[1:])
                            npass += 1
                    else:
                        npass += 1
                except unittest.SkipTest:
                    pass
                except BaseException as e:
                    if type(e).__name__ == 'Skipped':
                        continue
                    bad.append((name, label, traceback.format_exc()))
    return npass, bad, skipped


def cases(mod):
    for k, v in sorted(vars(mod).items()):
        if isinstance(v, types.FunctionType) and k.startswith('test'):
            if v.__code__.co_argcount == 0 and v.__module__ == mod.__name__:
                yield k, v
        elif inspect.isclass(v) and (k.startswith('Test') or issubclass(
                v, unittest.TestCase)):
            for m in sorted(dir(v)):
                if not m.startswith('test'):
                    continue
                if len(inspect.signature(getattr(v, m)).parameters) != 1:
                    continue

                def run(v=v, m=m):
                    o = v(m) if issubclass(v, unittest.TestCase) else v()
                    for s in ('setup', 'setUp', 'setup_method'):
                        if hasattr(o, s):
                            getattr(o, s)()
                    try:
                        return getattr(o, m)()
                    finally:
                        for s in ('teardown', 'tearDown'):
                            if hasattr(o, s):
                                getattr(o, s)()
                yield '%s.%s' % (k, m), run


if __name__ == '__main__':
    p, bad, sk = main()
    for n, l, tb in bad:
        print('FAIL', n, l, tb.strip().split('\n')[-1])
        if '-v' in sys.argv:
            print(tb)
    for s in sk:
        print('SKIP', s)
    print('passed', p, 'failed', len(bad), 'skipped modules', len(sk))

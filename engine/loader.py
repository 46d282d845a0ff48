"""Loads the real sources with Python 2 semantics over symbolic values.

Every module under the repository's ``flatland`` package (and the harness
modules, and the Jython standard library modules the code leans on) is parsed
from its current text on every run and rewritten node by node: calls,
subscripts, comparisons, `%`, `/` and set operators become calls of the
helpers in ops.py; nothing of the code under test is replaced by a model.
"""
import ast
import builtins
import functools
import importlib.abc
import importlib.machinery
import os
import sys
import types
import warnings
import zipfile

from . import ops, regex, values
from .values import SymInt, SymStr

_CMP = {
    ast.Eq: '_V_eq', ast.NotEq: '_V_ne', ast.In: '_V_in',
    ast.NotIn: '_V_notin', ast.Lt: '_V_lt', ast.LtE: '_V_le',
    ast.Gt: '_V_gt', ast.GtE: '_V_ge', ast.Is: '_V_is',
    ast.IsNot: '_V_isnot',
}
_BIN = {ast.Mod: '_V_mod', ast.Sub: '_V_sub', ast.BitOr: '_V_or',
        ast.BitAnd: '_V_and', ast.BitXor: '_V_xor', ast.Div: '_V_div'}
_RENAME = {'__nonzero__': '__bool__', '__bool__': '__py3_bool__'}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, future_division):
        self.future_division = future_division
        self.fn = []
        self.cls = []

    # names
    def visit_Name(self, node):
        node.id = _RENAME.get(node.id, node.id)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        node.attr = _RENAME.get(node.attr, node.attr)
        if isinstance(node.ctx, ast.Load) and node.attr in ops.PY2_ATTRS:
            return ast.copy_location(
                _call('_V_attr', node.value, ast.Constant(node.attr)), node)
        return node

    # definitions
    def _fndef(self, node):
        node.name = _RENAME.get(node.name, node.name)
        gen = _is_generator(node)
        self.fn.append(gen)
        saved, self.cls = self.cls, []
        self.generic_visit(node)
        self.cls = saved
        self.fn.pop()
        return node

    visit_FunctionDef = _fndef

    def visit_Lambda(self, node):
        self.fn.append(False)
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_ClassDef(self, node):
        self.fn.append(False)
        self.generic_visit(node)
        self.fn.pop()
        extra = []
        for st in node.body:
            if isinstance(st, ast.FunctionDef) and st.name == 'next':
                extra.append(ast.parse('__next__ = next').body[0])
        node.body.extend(extra)
        node.decorator_list.append(_name('_V_cls'))
        return node

    # statements
    def visit_Raise(self, node):
        self.generic_visit(node)
        if self.fn and self.fn[-1]:
            e = node.exc
            if isinstance(e, ast.Call) and getattr(
                    e.func, 'id', None) == '_V_call' and e.args:
                e = e.args[0]
            if isinstance(e, ast.Name) and e.id == 'StopIteration':
                return ast.copy_location(ast.Return(value=None), node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = _name('Exception')
        return node

    def visit_AugAssign(self, node):
        fn = _BIN.get(type(node.op))
        if fn is None or (fn == '_V_div' and self.future_division):
            self.generic_visit(node)
            return node
        value = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[ast.Name(id=t.id, ctx=ast.Store())],
                value=_call('_V_iop', ast.Constant(fn), _name(t.id), value)),
                node)
        if isinstance(t, ast.Attribute):
            obj = self.visit(t.value)
            return ast.copy_location(ast.Expr(value=_call(
                '_V_iattr', ast.Constant(fn), obj, ast.Constant(t.attr),
                value)), node)
        obj = self.visit(t.value)
        key = self._slice(t.slice)
        return ast.copy_location(ast.Expr(value=_call(
            '_V_iitem', ast.Constant(fn), obj, key, value)), node)

    # expressions
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == '_getframe':
            self.generic_visit(node)
            return node
        if isinstance(f, ast.Name) and f.id in ('super', 'locals', 'globals',
                                                'vars'):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=_name('_V_call'), args=[node.func] + node.args,
            keywords=node.keywords), node)

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(func=_name('_V_slice'), args=[
                self.visit(x) if x is not None else none
                for x in (s.lower, s.upper, s.step)], keywords=[])
        return self.visit(s)

    def visit_Subscript(self, node):
        value = self.visit(node.value)
        key = self._slice(node.slice)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call('_V_getitem', value, key), node)
        return ast.copy_location(ast.Subscript(
            value=_call('_V_Sub', value), slice=key, ctx=node.ctx), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot)):
                r = _isconst(node.comparators[0]) or _isconst(node.left)
                if r:
                    return node
            return ast.copy_location(_call(
                _CMP[type(op)], node.left, node.comparators[0]), node)
        lam = lambda e: ast.Lambda(args=ast.arguments(
            posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
            defaults=[]), body=e)
        return ast.copy_location(_call(
            '_V_chain', ast.Tuple(elts=[_name(_CMP[type(o)])
                                        for o in node.ops], ctx=ast.Load()),
            node.left, *[lam(c) for c in node.comparators]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        fn = _BIN.get(type(node.op))
        if fn is None or (fn == '_V_div' and self.future_division):
            return node
        return ast.copy_location(_call(fn, node.left, node.right), node)

    # displays whose keys may be symbolic
    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(_isconst(k) for k in node.keys if k is not None):
            return node
        pairs = ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())
                               for k, v in zip(node.keys, node.values)],
                         ctx=ast.Load())
        return ast.copy_location(_call('_V_mkdict', pairs), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('_V_mkset', ast.List(
            elts=node.elts, ctx=ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('_V_mkdict', ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
            generators=node.generators)), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('_V_mkset', ast.ListComp(
            elt=node.elt, generators=node.generators)), node)

    def visit_JoinedStr(self, node):
        raise SyntaxError('f-string in Python 2 source')


def _isconst(n):
    return isinstance(n, ast.Constant)


class _Gen(ast.NodeVisitor):
    def __init__(self):
        self.found = False

    def visit_Yield(self, node):
        self.found = True

    visit_YieldFrom = visit_Yield

    def visit_FunctionDef(self, node):
        pass

    visit_Lambda = visit_ClassDef = visit_FunctionDef


def _is_generator(fn):
    v = _Gen()
    for st in fn.body:
        v.visit(st)
    return v.found


def _cls(cls):
    """Class decorator: Python 2 keeps the inherited __hash__."""
    d = cls.__dict__
    if d.get('__hash__', 0) is None and '__eq__' in d:
        for k in cls.__mro__[1:]:
            if '__hash__' in k.__dict__:
                type.__setattr__(cls, '__hash__', k.__dict__['__hash__'])
                break
    return cls


def _iop(fn, a, b):
    m = {'_V_mod': None, '_V_sub': '__isub__', '_V_or': '__ior__',
         '_V_and': '__iand__', '_V_xor': '__ixor__', '_V_div': None}[fn]
    if m and isinstance(a, set):
        r = HELPERS[fn](a, b)
        a.clear()
        a.update(r)
        return a
    if m and hasattr(type(a), m):
        return getattr(a, m)(b)
    return HELPERS[fn](a, b)


def _iattr(fn, o, name, v):
    setattr(o, name, _iop(fn, getattr(o, name), v))


def _iitem(fn, o, k, v):
    ops.Sub(o)[k] = _iop(fn, ops.getitem(o, k), v)


def _is(a, b):
    if a is b:
        return True
    # literal identity of small values never matters to the sources; classes
    # of symbolic values compare as the class they stand for
    return _PYSTR.get(id(a), a) is _PYSTR.get(id(b), b)


class _Py2StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, str)

    def __subclasscheck__(cls, c):
        return issubclass(c, str)


class py2str(str, metaclass=_Py2StrMeta):
    """The Python 2 ``str`` builtin: byte strings are ASCII text here."""

    def __new__(cls, x=''):
        return ops.to_str(x)

_PYSTR = {id(py2str): str}


class py2long(int):
    pass


HELPERS = {
    '_V_call': ops.call, '_V_getitem': ops.getitem, '_V_Sub': ops.Sub,
    '_V_eq': ops.eq_, '_V_ne': ops.ne_, '_V_in': ops.in_,
    '_V_notin': ops.notin, '_V_lt': ops.lt_, '_V_le': ops.le_,
    '_V_gt': ops.gt_, '_V_ge': ops.ge_, '_V_is': _is,
    '_V_isnot': lambda a, b: not _is(a, b), '_V_chain': ops.chain,
    '_V_mod': ops.mod_, '_V_sub': ops.sub_, '_V_or': ops.or__,
    '_V_and': ops.and__, '_V_xor': ops.xor_, '_V_div': ops.div_,
    '_V_attr': ops.attr, '_V_slice': slice, '_V_cls': _cls, '_V_iop': _iop,
    '_V_mkdict': ops.make_dict, '_V_mkset': ops._set,
    '_V_iattr': _iattr, '_V_iitem': _iitem,
}


def _xrange(*a):
    return range(*[x.__index__() for x in a])


def _cmp(a, b):
    return ops._cmp(a, b)


def _callable(x):
    return callable(x)


def _apply(f, a=(), kw={}):
    return ops.call(f, *a, **kw)


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if fromlist is None:
        fromlist = ()
    if name in _SHIM and level <= 0:
        m = shim(name)
        if not fromlist and '.' in name:
            return shim(name.split('.')[0])
        return m
    if globals is not None and level <= 0 and \
            '__future_abs__' not in globals and globals.get('__package__'):
        # Python 2 implicit relative import
        pkg = globals['__package__']
        head = name.split('.')[0]
        if head != 'flatland' and _find('%s.%s' % (pkg, head)):
            return builtins.__import__(name, globals, locals, fromlist, 1)
    return builtins.__import__(name, globals, locals, fromlist,
                               max(level, 0))


def make_builtins():
    b = dict(vars(builtins))
    b.update(HELPERS)
    b.update(unicode=str, str=py2str, basestring=str, long=int,
             xrange=_xrange, unichr=ops._chr, reduce=functools.reduce,
             cmp=_cmp, raw_input=None, callable=_callable, apply=_apply,
             intern=lambda s: s, __import__=_import)
    ops.BUILTINS[py2str] = ops.to_str
    ops._BY_ID[id(py2str)] = ops.to_str
    ops._BY_ID[id(str)] = ops.to_text
    return b


# ---------------------------------------------------------------- shims

def _shim_six():
    six = types.ModuleType('six')
    six.PY2, six.PY3 = True, False
    six.text_type = str
    six.binary_type = py2str
    six.string_types = (str, bytes)
    six.integer_types = (int, int)
    six.class_types = (type, type)
    six.MAXSIZE = ops._MAXINT
    six.u = lambda s: s
    six.b = lambda s: s
    six.unichr = ops._chr
    six.iteritems = lambda d, **k: iter(ops.call(ops.attr(d, 'iteritems')))
    six.iterkeys = lambda d, **k: iter(ops.call(ops.attr(d, 'iterkeys')))
    six.itervalues = lambda d, **k: iter(ops.call(ops.attr(d, 'itervalues')))
    six.next = next
    six.callable = callable
    six.get_function_code = lambda f: f.__code__
    six.get_unbound_function = lambda f: getattr(f, '__func__', f)
    six.python_2_unicode_compatible = lambda c: c

    def with_metaclass(meta, *bases):
        class metaclass(meta):
            def __new__(cls, name, this_bases, d):
                return meta(name, bases, d)
        return type.__new__(metaclass, 'temporary_class', (), {})
    six.with_metaclass = with_metaclass

    def add_metaclass(metaclass):
        def wrapper(cls):
            d = dict(cls.__dict__)
            d.pop('__dict__', None)
            d.pop('__weakref__', None)
            return metaclass(cls.__name__, cls.__bases__, d)
        return wrapper
    six.add_metaclass = add_metaclass

    def reraise(tp, value, tb=None):
        raise value
    six.reraise = reraise
    moves = types.ModuleType('six.moves')
    moves.builtins = shim('__builtin__')
    moves.xrange = _xrange
    moves.range = _xrange
    moves.reduce = functools.reduce
    moves.zip = zip
    moves.map = map
    moves.filter = filter
    moves.zip_longest = __import__('itertools').zip_longest
    six.moves = moves
    six.__path__ = []
    return six


def _shim_builtin():
    m = types.ModuleType('__builtin__')
    m.__dict__.update(make_builtins())
    return m


def _shim_re():
    m = types.ModuleType('re')
    for k in ('compile', 'match', 'search', 'findall', 'finditer', 'sub',
              'subn', 'split', 'escape', 'error', 'I', 'L', 'M', 'S', 'U',
              'X'):
        setattr(m, k, getattr(regex, k))
    m.IGNORECASE, m.LOCALE, m.MULTILINE = m.I, m.L, m.M
    m.DOTALL, m.UNICODE, m.VERBOSE = m.S, m.U, m.X
    m.purge = lambda: None
    return m


def _jar():
    return zipfile.ZipFile(os.path.realpath('/usr/share/java/jython.jar'))


def _shim_urlparse():
    src = _jar().read('Lib/urlparse.py').decode('utf-8')
    m = types.ModuleType('urlparse')
    run_source(src, 'Lib/urlparse.py', m)
    # a result cache keyed by symbolic text would only add branches
    class NoCache(dict):
        def get(self, k, d=None):
            return d

        def __setitem__(self, k, v):
            pass
    m._parse_cache = NoCache()
    return m


def _shim_saxutils():
    src = _jar().read('Lib/xml/sax/saxutils.py').decode('utf-8')
    head = src.index('def __dict_replace')
    tail = src.index('# --- DefaultHandler')
    m = types.ModuleType('xml.sax.saxutils')
    run_source(src[head:tail], 'Lib/xml/sax/saxutils.py', m)
    return m


def _shim_xml():
    x = types.ModuleType('xml')
    x.__path__ = []
    x.sax = shim('xml.sax')
    return x


def _shim_xml_sax():
    s = types.ModuleType('xml.sax')
    s.__path__ = []
    s.saxutils = shim('xml.sax.saxutils')
    return s


def _shim_collections():
    import collections
    import collections.abc
    m = types.ModuleType('collections')
    m.__dict__.update(collections.__dict__)
    for k in collections.abc.__all__:
        setattr(m, k, getattr(collections.abc, k))
    return m


def _shim_types():
    m = types.ModuleType('types')
    m.__dict__.update(types.__dict__)
    m.StringTypes = (str,)
    m.UnicodeType = str
    m.StringType = py2str
    m.IntType = m.LongType = int
    m.ListType, m.DictType, m.TupleType = list, dict, tuple
    m.NoneType = type(None)
    m.ClassType = type
    return m


_SHIM = {
    'six': _shim_six, '__builtin__': _shim_builtin, 're': _shim_re,
    'urlparse': _shim_urlparse, 'xml.sax.saxutils': _shim_saxutils,
    'xml': _shim_xml, 'xml.sax': _shim_xml_sax,
    'six.moves': lambda: shim('six').moves,
    'collections': _shim_collections, 'types': _shim_types,
}
_made = {}


def shim(name):
    if name not in _made:
        _made[name] = _SHIM[name]()
    return _made[name]


# ---------------------------------------------------------------- import

def parse(src, filename):
    warnings.simplefilter('ignore', SyntaxWarning)
    try:
        return ast.parse(src, filename)
    except SyntaxError:
        return ast.parse(_py2_to_3(src), filename)


def _py2_to_3(src):
    """The Python 2-only statement forms, line by line."""
    import re
    src = re.sub(r'(?m)^(\s*except\s+[^:\n]+?),\s*(\w+)\s*:', r'\1 as \2:', src)
    src = re.sub(r'(?m)^(\s*raise\s+[\w.]+)\s*,\s*(.+)$', r'\1(\2)', src)
    src = re.sub(r'(?m)^(\s*)print\s+([^(\n].*)$', r'\1print(\2)', src)
    src = re.sub(r'(?m)^(\s*)print\s*$', r'\1print()', src)
    src = re.sub(r"\b[uU][rR](['\"])", r'r\1', src)
    src = re.sub(r'(?<![\w.])0([0-7]+)(?![\w.])', r'0o\1', src)
    src = re.sub(r'(?<![\w.])(\d+)[lL]\b', r'\1', src)
    return src.replace('<>', '!=')


def rewrite(src, filename):
    tree = parse(src, filename)
    future = [a.name for st in tree.body if isinstance(st, ast.ImportFrom)
              and st.module == '__future__' for a in st.names]
    tree.body = [st for st in tree.body if not (
        isinstance(st, ast.ImportFrom) and st.module == '__future__')]
    tree = Rewriter('division' in future).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True), future


_builtins = None


def run_source(src, filename, module):
    global _builtins
    if _builtins is None:
        _builtins = make_builtins()
    code, future = rewrite(src, filename)
    module.__dict__['__builtins__'] = _builtins
    if 'absolute_import' in future:
        module.__dict__['__future_abs__'] = True
    exec(code, module.__dict__)


ROOTS = {}      # top-level package/module name -> directory
SOURCES = {}    # module name -> file


def _find(fullname):
    parts = fullname.split('.')
    if parts[0] not in ROOTS:
        return None
    base = os.path.join(ROOTS[parts[0]], *parts)
    if os.path.isfile(os.path.join(base, '__init__.py')):
        return os.path.join(base, '__init__.py'), True
    if os.path.isfile(base + '.py'):
        return base + '.py', False
    return None


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        hit = _find(fullname)
        if hit is None:
            return None
        spec = importlib.machinery.ModuleSpec(
            fullname, self, origin=hit[0], is_package=hit[1])
        spec.has_location = True
        if hit[1]:
            spec.submodule_search_locations = [os.path.dirname(hit[0])]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        SOURCES[module.__name__] = fn
        with open(fn, encoding='utf-8') as fp:
            src = fp.read()
        run_source(src, fn, module)


def install(repo, harness_dir):
    ROOTS['flatland'] = repo
    for fn in os.listdir(harness_dir):
        if fn.endswith('.py') and fn[0] != '_':
            ROOTS[fn[:-3]] = harness_dir
    sys.meta_path.insert(0, Finder())
    for p in ('/opt/venv/lib/python3.12/site-packages', '/opt/jylib'):
        if p not in sys.path:
            sys.path.append(p)

"""Instrumentation: rewrites Python code so that it runs on symbolic values."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

_CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>',
        ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in',
        ast.NotIn: 'not in'}
_RAW_CALLS = {'super', 'locals', 'globals', 'vars', 'dir', 'exec', 'eval',
              'property', 'staticmethod', 'classmethod', 'TypeVar',
              'NewType', 'namedtuple', 'NamedTuple', '__import__'}


class Instrument(ast.NodeTransformer):
    def __init__(self, magic=False):
        self.magic = magic

    def _rt(self, name, *args, **kw):
        return ast.Call(
            func=ast.Attribute(
                value=ast.Name(id='__sx_rt__', ctx=ast.Load()), attr=name,
                ctx=ast.Load()), args=list(args), keywords=kw.get('kw', []))

    # annotations are left alone
    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None
                         for d in a.kw_defaults]
        node.body = self._body(node.body)
        return node

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in _RAW_CALLS:
            self.generic_visit(node)
            return node
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value))
               for k in node.keywords]
        if isinstance(node.func, ast.Attribute):
            f = node.func
            new = self._rt('callm', self.visit(f.value),
                           ast.Constant(value=f.attr), *args, kw=kws)
        else:
            new = self._rt('call', self.visit(node.func), *args, kw=kws)
        return ast.copy_location(new, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            new = self._rt('cmp', ast.Constant(value=_CMP[type(node.ops[0])]),
                           node.left, node.comparators[0])
        else:
            new = self._rt(
                'cmpchain',
                ast.Tuple(elts=[ast.Constant(value=_CMP[type(o)])
                                for o in node.ops], ctx=ast.Load()),
                ast.Tuple(elts=[node.left] + node.comparators,
                          ctx=ast.Load()))
        return ast.copy_location(new, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                self._rt('mod', node.left, node.right), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(
                self._rt('getitem', node.value, _slice(node.slice)), node)
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0],
                                                 ast.Subscript):
            t = node.targets[0]
            new = ast.Expr(value=self._rt(
                'setitem', self.visit(t.value), _slice(self.visit(t.slice)),
                node.value))
            return ast.copy_location(new, node)
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            self._rt('setlit', ast.Tuple(elts=node.elts, ctx=ast.Load())),
            node)

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = self._rt('iter_', node.iter)
        ast.copy_location(node.iter, node)
        ast.fix_missing_locations(node)
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        old = node.iter
        node.iter = self._rt('iter_', old)
        ast.copy_location(node.iter, old)
        ast.fix_missing_locations(node.iter)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = chr(v.conversion) if v.conversion >= 0 else ''
                spec = (self.visit(v.format_spec) if v.format_spec is not None
                        else ast.Constant(value=''))
                parts.append(ast.Tuple(
                    elts=[self.visit(v.value), ast.Constant(value=conv), spec],
                    ctx=ast.Load()))
        return ast.copy_location(self._rt('fstr', *parts), node)

    def visit_Constant(self, node):
        if self.magic and type(node.value) in (int, float):
            from sx.core import MAGIC
            if MAGIC.lookup(node.value) is not None:
                return ast.copy_location(
                    self._rt('magic', ast.Constant(value=node.value)), node)
        return node


def _slice(s):
    if isinstance(s, ast.Slice):
        none = ast.Constant(value=None)
        return ast.Call(func=ast.Name(id='slice', ctx=ast.Load()),
                        args=[s.lower or none, s.upper or none,
                              s.step or none], keywords=[])
    return s


def instrument_source(source, filename, magic=False):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(source, filename)
    # keep the docstring and the future imports in front
    tree = Instrument(magic).visit(tree)
    imp = ast.parse('import sx.rt as __sx_rt__').body
    pos = 0
    body = tree.body
    if body and isinstance(body[0], ast.Expr) and isinstance(
            body[0].value, ast.Constant) and isinstance(
                body[0].value.value, str):
        pos = 1
    while pos < len(body) and isinstance(body[pos], ast.ImportFrom) and \
            body[pos].module == '__future__':
        pos += 1
    tree.body = body[:pos] + imp + body[pos:]
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            src = f.read().decode('utf-8')
        LOADED[fullname] = path
        return instrument_source(src, path)


LOADED = {}


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes, roots):
        self.prefixes = prefixes
        self.roots = roots

    def find_spec(self, fullname, path=None, target=None):
        if not any(fullname == p or fullname.startswith(p + '.')
                   for p in self.prefixes):
            return None
        search = path if path is not None else (self.roots + sys.path)
        spec = importlib.machinery.PathFinder.find_spec(fullname, search)
        if spec is None or spec.origin is None or not spec.origin.endswith(
                '.py'):
            return spec
        return importlib.util.spec_from_file_location(
            fullname, spec.origin, loader=_Loader(fullname, spec.origin),
            submodule_search_locations=spec.submodule_search_locations)


def load_copy(modname):
    """Instrumented private copy of a pure-Python library module."""
    import importlib
    import types
    real = importlib.import_module(modname)
    path = real.__file__
    with open(path) as f:
        code = instrument_source(f.read(), path)
    m = types.ModuleType('sx_copy_' + modname.replace('.', '_'))
    m.__dict__['__file__'] = path
    m.__dict__['__package__'] = modname.rpartition('.')[0]
    exec(code, m.__dict__)
    return m


_DONE = False


def install(repo=os.environ.get('SX_REPO', '/repo')):
    """Make ``import mapry`` load the instrumented sources of the repository."""
    global _DONE
    if _DONE:
        return
    _DONE = True
    os.environ.setdefault('ICONTRACT_SLOW', '')
    for site in ('/opt/venv/lib/python3.12/site-packages', ):
        if site not in sys.path:
            sys.path.insert(0, site)
    if repo not in sys.path:
        sys.path.insert(0, repo)
    for m in list(sys.modules):
        if m == 'mapry' or m.startswith('mapry.'):
            raise RuntimeError('mapry was already imported')
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(
        ['mapry', 'lexery', 'jinja2.filters'], [repo]))
    from sx import rt, strs
    import jinja2
    import jinja2.environment
    import jinja2.runtime
    import jinja2.filters

    def _compile(self, source, filename):
        return instrument_source(source, filename)
    jinja2.Environment._compile = _compile

    def concat(it):
        lst = list(it)
        for x in lst:
            if isinstance(x, strs.SymStr):
                return strs.join('', lst)
        return ''.join(lst)
    jinja2.environment.concat = concat
    orig = jinja2.runtime.concat
    rt.HANDLERS[orig] = concat
    # the string conversions of jinja2 are ``str`` or wrappers of it
    import markupsafe
    for fn in (jinja2.runtime.to_string, getattr(
            markupsafe, 'soft_str', None)):
        if fn is not None and fn not in rt.HANDLERS:
            rt.HANDLERS[fn] = rt._str
    import textwrap
    rt.install_shadow(textwrap, load_copy('textwrap'),
                      ['dedent', 'indent', 'wrap', 'fill'])
    _install_json()
    from sx import core

    def magic(v):
        z = core.MAGIC.lookup(v)
        return core.SymInt(z) if type(v) is int else core.SymFloat(z)
    rt.magic = magic


def _install_json():
    """The pure-Python decoder of JSON on symbolic texts."""
    import json
    from sx import core, rt, strs
    scanner = load_copy('json.scanner')
    decoder = load_copy('json.decoder')
    scanner.make_scanner = scanner.py_make_scanner
    decoder.scanner = scanner
    decoder.scanstring = decoder.py_scanstring
    decoder.JSONDecodeError = type(
        'JSONDecodeError', (json.JSONDecodeError, ),
        {'__init__': decoder.JSONDecodeError.__init__})

    def loads(s, *, cls=None, **k):
        if not isinstance(s, strs.SymStr):
            return json.loads(s, cls=cls, **k)
        if cls is not None:
            raise core.Unsupported('class of a JSON decoder')
        if bool(s[0:1] == '\ufeff'):
            raise decoder.JSONDecodeError(
                'Unexpected UTF-8 BOM (decode using utf-8-sig)', s, 0)
        return decoder.JSONDecoder(**k).decode(s)

    def load(fp, **k):
        return loads(rt.call(fp.read), **k)
    rt.HANDLERS[json.loads] = loads
    rt.HANDLERS[json.load] = load

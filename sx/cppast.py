"""Executes the syntax tree of the generated C++ code (from clang)."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from sx import cpprt as R
from sx.core import (MAGIC, Sym, SymBool, SymFloat, SymInt, Unsupported,
                     engine, num_cmp, sym_trunc, to_z)
from sx.cpprt import Cell, CStr, CppExc, CppHang, CppUB, rv, truth
from sx.jv import JV

import z3

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUB = os.path.join(ROOT, 'cppstub')
NS = 'some'
LOWEST_MAGIC = 6e11
MAX_LOOPS = 60


class CompileErrors(Exception):
    """clang refuses the generated code."""


def clang_dump(files):
    """Top-level declarations of the generated code."""
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    d = tempfile.mkdtemp(prefix='sxcpp', dir=base)
    try:
        for n, t in files.items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(t)
        with open(os.path.join(d, 'tu.cpp'), 'w') as f:
            f.write('#include "parse.cpp"\n#include "jsoncpp.cpp"\n')
        p = subprocess.run(
            ['clang++', '-w', '-std=c++17', '-fsyntax-only', '-nostdinc',
             '-nostdinc++', '-I' + STUB, '-I' + d, '-Xclang',
             '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + NS,
             os.path.join(d, 'tu.cpp')], capture_output=True, text=True,
            timeout=120)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if p.returncode != 0:
        raise CompileErrors(p.stderr.replace(d + '/', '')[:1500])
    s = p.stdout
    dec = json.JSONDecoder()
    out, i = [], 0
    while True:
        i = s.find('{', i)
        if i < 0:
            return out
        o, i = dec.raw_decode(s, i)
        out.append(o)


BREAK, CONTINUE, FALL = object(), object(), None


class Ret:
    __slots__ = ('v', )

    def __init__(self, v):
        self.v = v


INTS = {'int': (32, True), 'long': (64, True), 'long long': (64, True),
        'short': (16, True), 'char': (8, True), 'signed char': (8, True),
        'unsigned int': (32, False), 'unsigned long': (64, False),
        'unsigned long long': (64, False), 'unsigned char': (8, False),
        'unsigned short': (16, False), 'size_t': (64, False),
        'int64_t': (64, True), 'int32_t': (32, True),
        'uint64_t': (64, False), 'uint32_t': (32, False),
        'rep_t': (64, True), 'unsigned': (32, False),
        'std::size_t': (64, False), 'Json::ArrayIndex': (32, False),
        'ArrayIndex': (32, False)}
FLOATS = ('double', 'float', 'long double')


def type_of(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''


def is_ref(t):
    return t.rstrip().endswith('&')


def is_scalar(t):
    t = R.norm(t)
    if t.endswith('*'):
        return True
    return t in INTS or t in FLOATS or t in (
        'bool', 'Json::ValueType', 'ValueType', 'std::nullptr_t',
        'wchar_t', 'char16_t', 'char32_t', 'time_t')


def split_template(t):
    """('std::map', ['std::string', 'X'])"""
    i = t.find('<')
    if i < 0:
        return t, []
    args, depth, cur = [], 0, ''
    for c in t[i + 1:t.rstrip().rfind('>')]:
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        if c == ',' and depth == 0:
            args.append(cur.strip())
            cur = ''
        else:
            cur += c
    args.append(cur.strip())
    return t[:i].strip(), args


SKIP = ('FullComment', 'ParagraphComment', 'TextComment')


def parts(n):
    return [c for c in n.get('inner', ())
            if c and not c.get('kind', '').endswith('Comment')
            and not c.get('kind', '').endswith('Attr')]


def raw_parts(n):
    """With the empty places of absent parts."""
    return [c for c in n.get('inner', ())
            if not c.get('kind', '').endswith('Comment')]


ESC = {'n': '\n', 't': '\t', 'r': '\r', 'a': '\a', 'b': '\b', 'f': '\f',
       'v': '\v', '\\': '\\', '"': '"', "'": "'", '?': '?', '0': '\0'}


def literal(s):
    """Text of a string literal as clang prints it."""
    i = s.index('"')
    body = s[i + 1:s.rindex('"')]
    out = []
    i = 0
    while i < len(body):
        c = body[i]
        if c != '\\':
            out.append(c)
            i += 1
            continue
        m = re.match(r'\\([0-7]{1,3}|x[0-9a-fA-F]+|u[0-9a-fA-F]{4}|'
                     r'U[0-9a-fA-F]{8}|.)', body[i:], re.S)
        e = m.group(1)
        if e[0] in '01234567':
            out.append(chr(int(e, 8)))
        elif e[0] in 'xuU' and len(e) > 1:
            out.append(chr(int(e[1:], 16)))
        else:
            out.append(ESC[e])
        i += m.end()
    return ''.join(out)


def magic(v):
    if abs(v) <= LOWEST_MAGIC:
        return v
    z = MAGIC.lookup(v)
    if z is None:
        return v
    return SymInt(z) if z3.is_int(z) else SymFloat(z)


def call_name(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
        n = n['inner'][0]
    return n


class Program:
    """The declarations of the generated code."""

    def __init__(self, objs):
        self.records = {}
        self.funcs = {}
        self.byid = {}
        self.globals = {}
        self.fields = {}
        self.cache = {}
        self.overrides = {}
        for o in objs:
            self.collect(o, ())

    def collect(self, n, path):
        k = n.get('kind')
        if k == 'NamespaceDecl':
            p = path + (n.get('name', ''), )
            for c in parts(n):
                self.collect(c, p)
        elif k == 'CXXRecordDecl':
            if n.get('completeDefinition'):
                q = '::'.join(path + (n.get('name', ''), ))
                rec = Record(q, n)
                self.records[q] = rec
                for c in parts(n):
                    if c['kind'] == 'FieldDecl':
                        rec.fields.append(c)
                    elif c['kind'] == 'CXXConstructorDecl':
                        rec.ctors.append((type_of(c), c.get('mangledName'),
                                          c))
                        self.func(c)
                    elif c['kind'] in ('CXXMethodDecl', ):
                        self.func(c)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
            self.func(n)
        elif k == 'FunctionTemplateDecl':
            for c in parts(n):
                if c['kind'] == 'FunctionDecl' and 'mangledName' in c:
                    self.func(c)
        elif k == 'VarDecl':
            self.byid[n['id']] = n
            self.globals[n['id']] = n
        elif k == 'LinkageSpecDecl':
            for c in parts(n):
                self.collect(c, path)

    def func(self, n):
        m = n.get('mangledName')
        self.byid[n['id']] = n
        if any(c.get('kind') == 'CompoundStmt' for c in parts(n)):
            self.funcs[m] = n

    # -- types ------------------------------------------------------------
    def record(self, t):
        t = R.norm(t)
        r = self.records.get(t)
        if r is not None:
            return r
        hits = [x for q, x in self.records.items()
                if q == t or q.endswith('::' + t)]
        return hits[0] if len(hits) == 1 else None

    def zero(self, t, value_init=False):
        """A new object of the type."""
        t = R.norm(t)
        if t.endswith('*'):
            return Cell(None if value_init else R.UNINIT)
        if t in INTS:
            return Cell(0 if value_init else R.UNINIT)
        if t == 'bool':
            return Cell(False if value_init else R.UNINIT)
        if t in FLOATS:
            return Cell(0.0 if value_init else R.UNINIT)
        if t in ('std::string', 'string', 'std::basic_string'):
            return CStr()
        head, args = split_template(t)
        leaf = head.rpartition('::')[2]
        if leaf == 'vector':
            return R.Vec(self, args[0])
        if leaf in ('map', 'unordered_map'):
            return R.Map(self, args[1])
        if leaf == 'unique_ptr':
            return R.UPtr(args[0])
        if leaf == 'optional':
            return R.Opt(self, args[0])
        if leaf == 'tm':
            return R.Tm()
        if leaf == 'path':
            return R.PathVal('')
        if leaf == 'nanoseconds':
            return R.Nanos()
        if leaf in ('local_days', 'local_seconds', 'time_of_day', 'seconds'):
            return R.DateVal()
        if leaf in ('stringstream', 'ostringstream', 'istringstream'):
            return R.Stream()
        if leaf == 'Value':
            return R.JOut()
        if leaf == 'nullopt_t' or leaf == 'none_t':
            return R.NULLOPT
        if leaf == 'pair':
            return R.Pair(self.zero(args[0], True), self.zero(args[1], True))
        rec = self.record(t)
        if rec is None:
            raise Unsupported('C++: a new {}'.format(t))
        for ty, mangled, c in rec.ctors:
            if ty == 'void ()' and mangled in self.funcs and \
                    not c.get('explicitlyDefaulted') and \
                    not c.get('isImplicit'):
                return self.construct_user(rec, 'void ()', [])
        return self.fresh(rec, value_init)

    def fresh(self, rec, value_init):
        f = {}
        for c in rec.fields:
            f[c['name']] = self.field(rec, c, value_init)
        return R.Struct(rec, f)

    def field(self, rec, c, value_init):
        t = type_of(c)
        init = parts(c)
        if c.get('hasInClassInitializer') and init:
            return self.bind(t, init[-1])({})
        return self.zero(t, value_init)

    def construct_user(self, rec, ctor, args):
        for ty, mangled, c in rec.ctors:
            if ty == ctor and mangled in self.funcs and \
                    not c.get('isImplicit') and \
                    not c.get('explicitlyDefaulted'):
                fn = self.funcs[mangled]
                obj = R.Struct(rec, {})
                fr = {'this': obj}
                params = [p for p in parts(fn) if p['kind'] == 'ParmVarDecl']
                for p, a in zip(params, args):
                    fr[p['id']] = self.pass_arg(p, a)
                inits = {p['anyInit']['name']: p for p in parts(fn)
                         if p['kind'] == 'CXXCtorInitializer' and
                         'anyInit' in p}
                for fd in rec.fields:
                    ini = inits.get(fd['name'])
                    if ini is not None and parts(ini):
                        obj.f[fd['name']] = self.memo(
                            ini, 'bind', lambda i=ini, d=fd: self.bind(
                                type_of(d), parts(i)[-1]))(fr)
                    else:
                        obj.f[fd['name']] = self.field(rec, fd, False)
                body = [p for p in parts(fn) if p['kind'] == 'CompoundStmt']
                self.stmt(body[0])(fr)
                return obj
        if ctor == 'void ()' or not args:
            return self.fresh(rec, False)
        if '&&' in ctor:
            return R.move(self, args[0])
        if '&' in ctor:
            return args[0].copy()
        raise Unsupported('C++: constructor {} of {}'.format(ctor, rec.name))

    def memo(self, n, what, make):
        k = (id(n), what)
        f = self.cache.get(k)
        if f is None:
            f = self.cache[k] = make()
        return f

    # -- variables --------------------------------------------------------
    def bind(self, t, init):
        """Closure which gives the object of a new variable."""
        e = self.expr(init)
        if is_ref(t):
            return e
        if is_scalar(t):
            return lambda fr: Cell(e(fr))
        return lambda fr: own(e(fr))

    def pass_arg(self, p, a):
        t = type_of(p)
        if is_ref(t):
            return a if not isinstance(a, (int, float, str, type(None))) \
                else Cell(a)
        if is_scalar(t):
            return Cell(rv(a))
        return a

    def var(self, n):
        t = type_of(n)
        init = parts(n)
        key = n['id']
        if n.get('storageClass') == 'static' or n['id'] in self.globals:
            # constants: evaluated where they are met
            pass
        if init:
            b = self.bind(t, init[-1])

            def f(fr):
                fr[key] = b(fr)
            return f

        def g(fr):
            fr[key] = self.zero(t)
        return g

    def global_var(self, i):
        n = self.globals[i]
        return self.memo(n, 'global', lambda: self.bind(
            type_of(n), parts(n)[-1]))({})

    # -- functions --------------------------------------------------------
    def find(self, name):
        """Definitions of the functions with a name."""
        return [n for n in self.funcs.values() if n.get('name') == name]

    def call(self, fn, args, this=None):
        name = fn.get('name')
        o = self.overrides.get(name)
        if o is not None:
            return o(*args)
        c = self.memo(fn, 'fn', lambda: self.function(fn))
        return c(args, this)

    def function(self, fn):
        params = [p for p in parts(fn) if p['kind'] == 'ParmVarDecl']
        modes = []
        for p in params:
            t = type_of(p)
            modes.append((p['id'], 'ref' if is_ref(t) else
                          'scalar' if is_scalar(t) else 'class', p))
        body = [self.stmt(p) for p in parts(fn)
                if p['kind'] == 'CompoundStmt'][0]

        def run(args, this):
            fr = {}
            if this is not None:
                fr['this'] = this
            for i, (pid, mode, p) in enumerate(modes):
                if i >= len(args) or args[i] is DEFAULT:
                    fr[pid] = self.bind(type_of(p), parts(p)[-1])({})
                    continue
                a = args[i]
                if mode == 'scalar':
                    fr[pid] = Cell(rv(a))
                elif mode == 'ref':
                    fr[pid] = R.slot(a) if not isinstance(
                        a, (R.Obj, Cell)) else a
                else:
                    fr[pid] = a
            r = body(fr)
            return r.v if type(r) is Ret else None
        return run

    # -- statements -------------------------------------------------------
    def stmt(self, n):
        f = getattr(self, 's_' + n['kind'], None)
        if f is not None:
            return self.memo(n, 's', lambda: f(n))
        e = self.expr(n)

        def run(fr):
            e(fr)
        return run

    def s_CompoundStmt(self, n):
        body = [self.stmt(c) for c in parts(n)]

        def run(fr):
            for s in body:
                r = s(fr)
                if r is not None:
                    return r
        return run

    def s_NullStmt(self, n):
        return lambda fr: None

    def s_DeclStmt(self, n):
        vs = []
        for c in parts(n):
            if c['kind'] == 'VarDecl':
                vs.append(self.var(c))
            elif c['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl',
                               'UsingDirectiveDecl', 'StaticAssertDecl'):
                continue
            else:
                raise Unsupported('C++: declaration of ' + c['kind'])

        def run(fr):
            for v in vs:
                v(fr)
        return run

    def s_IfStmt(self, n):
        ps = [c for c in raw_parts(n)]
        pre = []
        if n.get('hasInit'):
            pre.append(self.stmt(ps.pop(0)))
        if n.get('hasVar'):
            pre.append(self.stmt(ps.pop(0)))
        cond = self.expr(ps[0])
        then = self.stmt(ps[1])
        els = self.stmt(ps[2]) if len(ps) > 2 else None

        def run(fr):
            for p in pre:
                p(fr)
            if truth(cond(fr)):
                return then(fr)
            if els is not None:
                return els(fr)
        return run

    def loop(self, cond, inc, body):
        def run(fr):
            k = 0
            while cond is None or truth(cond(fr)):
                k += 1
                if k > MAX_LOOPS:
                    raise CppHang('a loop goes on after {} iterations'.format(
                        MAX_LOOPS))
                r = body(fr)
                if r is BREAK:
                    break
                if r is not None and r is not CONTINUE:
                    return r
                if inc is not None:
                    inc(fr)
        return run

    def s_WhileStmt(self, n):
        ps = raw_parts(n)
        if n.get('hasVar'):
            raise Unsupported('C++: declaration in a while statement')
        return self.loop(self.expr(ps[0]), None, self.stmt(ps[1]))

    def s_DoStmt(self, n):
        ps = raw_parts(n)
        body, cond = self.stmt(ps[0]), self.expr(ps[1])
        rest = self.loop(cond, None, body)

        def run(fr):
            r = body(fr)
            if r is BREAK:
                return None
            if r is not None and r is not CONTINUE:
                return r
            return rest(fr)
        return run

    def s_ForStmt(self, n):
        ps = raw_parts(n)
        if len(ps) != 5 or ps[1]:
            raise Unsupported('C++: for statement')
        init = self.stmt(ps[0]) if ps[0] else None
        loop = self.loop(self.expr(ps[2]) if ps[2] else None,
                         self.expr(ps[3]) if ps[3] else None,
                         self.stmt(ps[4]))
        if init is None:
            return loop

        def run(fr):
            init(fr)
            return loop(fr)
        return run

    def s_CXXForRangeStmt(self, n):
        ps = raw_parts(n)
        decls = [c for c in ps if c and c.get('kind') == 'DeclStmt']
        rng = [c for c in decls if parts(c)[0].get('name', '').startswith(
            '__range')][0]
        rng = self.expr(parts(parts(rng)[0])[-1])
        var = [c for c in decls if not parts(c)[0].get('name', '').startswith(
            '__')][-1]
        v = parts(var)[0]
        if v['kind'] != 'VarDecl':
            raise Unsupported('C++: ' + v['kind'])
        t = type_of(v)
        key = v['id']
        ref, scalar = is_ref(t), is_scalar(t)
        body = self.stmt(ps[-1])

        def run(fr):
            for x in each(rng(fr)):
                fr[key] = x if ref else Cell(rv(x)) if scalar else x.copy()
                r = body(fr)
                if r is BREAK:
                    break
                if r is not None and r is not CONTINUE:
                    return r
        return run

    def s_ReturnStmt(self, n):
        ps = parts(n)
        if not ps:
            return lambda fr: Ret(None)
        e = self.expr(ps[0])
        return lambda fr: Ret(e(fr))

    def s_BreakStmt(self, n):
        return lambda fr: BREAK

    def s_ContinueStmt(self, n):
        return lambda fr: CONTINUE

    def s_SwitchStmt(self, n):
        ps = parts(n)
        cond = self.expr(ps[0])
        body = ps[-1]
        flat = []

        def add(s):
            labels = []
            while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                inner = parts(s)
                if s['kind'] == 'CaseStmt':
                    labels.append(self.expr(inner[0]))
                else:
                    labels.append(None)
                s = inner[-1]
            flat.append((labels, self.stmt(s)))
        for s in (parts(body) if body['kind'] == 'CompoundStmt' else [body]):
            add(s)

        def run(fr):
            v = rv(cond(fr))
            start = None
            for i, (labels, _) in enumerate(flat):
                if any(lb is not None and truth(equal(v, lb(fr)))
                       for lb in labels):
                    start = i
                    break
            if start is None:
                for i, (labels, _) in enumerate(flat):
                    if None in labels:
                        start = i
                        break
            if start is None:
                return None
            for _, s in flat[start:]:
                r = s(fr)
                if r is BREAK:
                    return None
                if r is not None:
                    return r
        return run

    def s_CXXTryStmt(self, n):
        ps = parts(n)
        body = self.stmt(ps[0])
        catches = []
        for c in ps[1:]:
            inner = raw_parts(c)
            blk = self.stmt(inner[-1])
            v = inner[0] if inner and inner[0].get('kind') == 'VarDecl' \
                else None
            if v is None:
                catches.append((None, None, blk))
            else:
                t = R.norm(type_of(v))
                t = t[5:] if t.startswith('std::') else t
                catches.append((t, v['id'], blk))

        def run(fr):
            try:
                return body(fr)
            except CppExc as ex:
                for t, key, blk in catches:
                    if t is None or R.is_a(ex.cls, t):
                        if key is not None:
                            fr[key] = R.Exc(ex.cls, ex.text)
                        return blk(fr)
                raise
        return run

    # -- expressions ------------------------------------------------------
    def expr(self, n):
        f = getattr(self, 'x_' + n['kind'], None)
        if f is None:
            raise Unsupported('C++: expression ' + n['kind'])
        return self.memo(n, 'x', lambda: f(n))

    def first(self, n):
        return self.expr(parts(n)[0])

    x_ExprWithCleanups = x_ParenExpr = x_CXXBindTemporaryExpr = first
    x_ConstantExpr = x_SubstNonTypeTemplateParmExpr = first

    def x_MaterializeTemporaryExpr(self, n):
        e = self.first(n)
        if is_scalar(type_of(n)):
            return lambda fr: Cell(rv(e(fr)))
        return e

    def x_IntegerLiteral(self, n):
        v = int(n['value'])
        if abs(v) <= LOWEST_MAGIC:
            return lambda fr: v
        return lambda fr: magic(v)

    def x_FloatingLiteral(self, n):
        v = float(n['value'])
        if abs(v) <= LOWEST_MAGIC:
            return lambda fr: v
        return lambda fr: magic(v)

    def x_CXXBoolLiteralExpr(self, n):
        v = bool(n['value'])
        return lambda fr: v

    def x_CharacterLiteral(self, n):
        v = n['value']
        return lambda fr: v

    def x_StringLiteral(self, n):
        v = literal(n['value'])
        return lambda fr: v

    def x_CXXNullPtrLiteralExpr(self, n):
        return lambda fr: None

    x_GNUNullExpr = x_CXXNullPtrLiteralExpr

    def x_ImplicitValueInitExpr(self, n):
        t = type_of(n)
        if is_scalar(t):
            return lambda fr: rv(self.zero(t, True))
        return lambda fr: self.zero(t, True)

    x_CXXScalarValueInitExpr = x_ImplicitValueInitExpr

    def x_CXXThisExpr(self, n):
        return lambda fr: fr['this']

    def x_CXXDefaultArgExpr(self, n):
        return lambda fr: DEFAULT

    def x_DeclRefExpr(self, n):
        d = n['referencedDecl']
        k = d['kind']
        i = d['id']
        if k == 'EnumConstantDecl':
            name = d['name']
            if name in R.JTYPES:
                v = R.Enum(name, R.JTYPES[name])
                return lambda fr: v
            raise Unsupported('C++: enumerator ' + name)
        if k in ('VarDecl', 'ParmVarDecl'):
            if i in self.globals:
                return lambda fr: self.global_var(i)
            if d.get('name') in ('nullopt', 'none'):
                return lambda fr: R.NULLOPT

            def get(fr):
                try:
                    return fr[i]
                except KeyError:
                    raise Unsupported('C++: variable {}'.format(
                        d.get('name'))) from None
            return get
        raise Unsupported('C++: reference to ' + k)

    def x_ImplicitCastExpr(self, n):
        c = n.get('castKind')
        e = self.first(n) if c not in ('FunctionToPointerDecay',
                                       'BuiltinFnToFnPtr') else None
        if c == 'LValueToRValue':
            def load(fr):
                v = rv(e(fr)) if True else None
                if isinstance(v, R.StrElem):
                    v = v.v
                if v is R.UNINIT:
                    raise Unsupported('C++: read of an uninitialised '
                                      'variable')
                if isinstance(v, R.CharPtr) and not \
                        type_of(n).rstrip().endswith('*'):
                    return v.v
                return v
            return load
        if c in ('NoOp', 'ArrayToPointerDecay', 'ConstructorConversion',
                 'UserDefinedConversion', 'DerivedToBase',
                 'UncheckedDerivedToBase', 'Dependent'):
            return e
        if c == 'NullToPointer':
            return lambda fr: None
        if c in ('IntegralToBoolean', 'PointerToBoolean',
                 'FloatingToBoolean'):
            def tobool(fr):
                v = e(fr)
                if isinstance(v, (SymInt, SymFloat)):
                    return SymBool(v.z != 0)
                return truth(v)
            return tobool
        if c == 'IntegralCast':
            t = R.norm(type_of(n))
            return lambda fr: fit(e(fr), t)
        if c in ('IntegralToFloating', ):
            def tofloat(fr):
                v = e(fr)
                if isinstance(v, Sym):
                    z = to_z(v)
                    return SymFloat(z3.ToReal(z) if z3.is_int(z) else z)
                return float(v)
            return tofloat
        if c == 'FloatingCast':
            return e
        if c == 'FloatingToIntegral':
            def toint(fr):
                v = e(fr)
                if isinstance(v, Sym):
                    return sym_trunc(v)
                return int(v)
            return toint
        if c == 'ToVoid':
            return e
        raise Unsupported('C++: cast {}'.format(c))

    x_CXXFunctionalCastExpr = x_ImplicitCastExpr
    x_CXXStaticCastExpr = x_CStyleCastExpr = x_ImplicitCastExpr

    def x_ConditionalOperator(self, n):
        c, a, b = [self.expr(x) for x in parts(n)]
        return lambda fr: a(fr) if truth(c(fr)) else b(fr)

    def x_UnaryOperator(self, n):
        op = n['opcode']
        e = self.first(n)
        if op in ('*', '&'):
            if op == '*':
                def deref(fr):
                    v = e(fr)
                    if v is None:
                        raise CppUB('dereference of a null pointer')
                    return v
                return deref
            return e
        if op == '!':
            def neg(fr):
                v = e(fr)
                if isinstance(v, SymBool):
                    return SymBool(z3.Not(v.z))
                return not truth(v)
            return neg
        if op in ('++', '--'):
            d = 1 if op == '++' else -1
            post = n.get('isPostfix')
            t = R.norm(type_of(n))

            def step(fr):
                s = e(fr)
                old = s.v
                if old is R.UNINIT:
                    raise Unsupported('C++: uninitialised variable')
                s.v = fit(old + d, t)
                return old if post else s
            return step
        if op == '-':
            t = R.norm(type_of(n))
            return lambda fr: fit(-e(fr), t)
        if op == '+':
            return e
        raise Unsupported('C++: operator ' + op)

    def x_BinaryOperator(self, n):
        op = n['opcode']
        a, b = [self.expr(x) for x in parts(n)]
        if op == '=':
            def assign(fr):
                v = b(fr)
                s = a(fr)
                if not isinstance(s, Cell):
                    raise Unsupported('C++: assignment to {!r}'.format(s))
                s.v = rv(v)
                return s
            return assign
        if op == '&&':
            return lambda fr: truth(a(fr)) and truth(b(fr))
        if op == '||':
            return lambda fr: truth(a(fr)) or truth(b(fr))
        if op == ',':
            def seq(fr):
                a(fr)
                return b(fr)
            return seq
        if op in ('==', '!='):
            def same(fr):
                c = equal(a(fr), b(fr))
                if op == '==':
                    return c
                return SymBool(z3.Not(c.z)) if isinstance(c, SymBool) \
                    else not c
            return same
        if op in ('<', '<=', '>', '>='):
            def cmp(fr):
                x, y = a(fr), b(fr)
                if isinstance(x, Sym) or isinstance(y, Sym):
                    return num_cmp(op, x, y)
                if x is None or y is None:
                    raise Unsupported('C++: order of pointers')
                return {'<': x < y, '<=': x <= y, '>': x > y,
                        '>=': x >= y}[op]
            return cmp
        t = R.norm(type_of(n))
        return lambda fr: arith(op, a(fr), b(fr), t)

    def x_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = [self.expr(x) for x in parts(n)]
        t = R.norm(type_of(n))

        def run(fr):
            v = b(fr)
            s = a(fr)
            s.v = arith(op, s.v, rv(v), t)
            return s
        return run

    def x_ArraySubscriptExpr(self, n):
        a, i = [self.expr(x) for x in parts(n)]

        def run(fr):
            s, k = a(fr), i(fr)
            if isinstance(s, str) and not isinstance(k, Sym):
                if k > len(s):
                    raise CppUB('read behind a string')
                return Cell(ord(s[k]) if k < len(s) else 0)
            raise Unsupported('C++: subscript')
        return run

    def x_MemberExpr(self, n):
        e = self.first(n)
        name = n['name']

        def run(fr):
            o = e(fr)
            if isinstance(o, Cell):
                o = o.v
            if o is None:
                raise CppUB('member of a null pointer')
            if isinstance(o, (R.Struct, R.Pair)):
                return o.field(name)
            raise Unsupported('C++: member {} of {!r}'.format(name, o))
        return run

    def x_InitListExpr(self, n):
        t = type_of(n)
        ps = parts(n)
        if R.norm(t) in ('tm', '::tm', 'std::tm'):
            return lambda fr: R.Tm()
        rec = self.record(t)
        if rec is not None:
            inits = [self.bind(type_of(d), p)
                     for d, p in zip(rec.fields, ps)]

            def run(fr):
                f = {}
                for i, d in enumerate(rec.fields):
                    f[d['name']] = inits[i](fr) if i < len(inits) else \
                        self.field(rec, d, True)
                return R.Struct(rec, f)
            return run
        if is_scalar(t):
            if not ps:
                return lambda fr: rv(self.zero(t, True))
            return self.expr(ps[0])
        raise Unsupported('C++: initialiser list of ' + t)

    def x_CXXDefaultInitExpr(self, n):
        ps = parts(n)
        if ps:
            return self.expr(ps[0])
        raise Unsupported('C++: default initialiser')

    def x_CXXStdInitializerListExpr(self, n):
        raise Unsupported('C++: initialiser list')

    def x_CXXThrowExpr(self, n):
        ps = parts(n)
        if not ps:
            raise Unsupported('C++: rethrow')
        e = self.expr(ps[0])

        def run(fr):
            o = e(fr)
            if not isinstance(o, R.Exc):
                raise Unsupported('C++: throw of {!r}'.format(o))
            raise CppExc(o.cls, o.v)
        return run

    def x_CXXConstructExpr(self, n):
        t = type_of(n)
        ctor = n.get('ctorType', {}).get('qualType', '')
        args = [self.expr(x) for x in parts(n)]
        nt = R.norm(t)
        head, targs = split_template(nt)
        leaf = head.rpartition('::')[2]
        make = self.maker(nt, leaf, targs, ctor)

        def run(fr):
            return make([a(fr) for a in args])
        return run

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def maker(self, nt, leaf, targs, ctor):
        def args_of(a):
            return [x for x in a if x is not DEFAULT]
        moved = '&&' in ctor
        if leaf in R.BASES or nt in ('std::exception', ):
            def exc(a):
                a = args_of(a)
                if a and isinstance(a[0], R.Exc):
                    return a[0].copy()
                return R.Exc(leaf, R.text(a[0]) if a else '')
            return exc
        if leaf == 'regex':
            def regex(a):
                a = args_of(a)
                if len(a) != 1:
                    raise Unsupported('C++: options of a regex')
                return R.Regex(R.text(a[0]))
            return regex
        if leaf in ('string', 'basic_string'):
            def string(a):
                a = args_of(a)
                if not a:
                    return CStr()
                if len(a) == 1:
                    s = CStr()
                    s.assign(a[0], moved)
                    return s
                x, y = rv(a[0]), rv(a[1])
                if isinstance(x, int) and 'char)' in ctor:
                    if isinstance(x, Sym):
                        raise Unsupported('C++: string(n, c)')
                    return CStr(chr(y) * x)
                return CStr(R.prefix(R.text(x), y))
            return string
        if leaf == 'Value' and nt.startswith('Json'):
            return lambda a: R.json_value(args_of(a), ctor) if not (
                moved and isinstance(rv(a[0]), R.JOut)) else R.move(
                    self, rv(a[0]))
        if leaf in ('stringstream', 'ostringstream', 'istringstream'):
            return lambda a: R.Stream(R.text(a[0]) if args_of(a) else '')
        if leaf == 'path':
            return lambda a: R.PathVal(
                (a[0].v if isinstance(a[0], R.PathVal) else R.text(a[0]))
                if args_of(a) else '')
        if leaf == 'ValueConstIterator':
            return lambda a: a[0].copy()
        if leaf in ('iterator', 'const_iterator'):
            return lambda a: a[0].copy() if a else R.SeqIter(None, None)
        if leaf == 'unique_ptr':
            def uptr(a):
                a = args_of(a)
                u = R.UPtr(targs[0])
                if a:
                    x = rv(a[0])
                    if isinstance(x, R.UPtr):
                        u.assign(x)
                    else:
                        u.v = x
                return u
            return uptr
        if leaf == 'optional':
            def opt(a):
                a = args_of(a)
                o = R.Opt(self, targs[0])
                if a:
                    o.assign(a[0], moved)
                return o
            return opt
        if leaf == 'nanoseconds':
            def nanos(a):
                a = args_of(a)
                if a and isinstance(a[0], R.Nanos):
                    return a[0].copy()
                return R.Nanos(rv(a[0]) if a else None)
            return nanos
        if leaf in ('local_days', 'local_seconds', 'time_of_day', 'seconds'):
            def dateval(a):
                a = args_of(a)
                if a and isinstance(a[0], R.DateVal):
                    return R.DateVal(a[0].v)
                return R.DateVal()
            return dateval
        if leaf == 'tm':
            return lambda a: a[0].copy() if a else R.Tm()
        if leaf == 'vector':
            def vec(a):
                a = args_of(a)
                v = R.Vec(self, targs[0])
                if a:
                    if isinstance(a[0], R.Vec):
                        return v.assign(a[0], moved)
                    v.m_resize(*a)
                return v
            return vec
        if leaf in ('map', 'unordered_map'):
            def mp(a):
                m = R.Map(self, targs[1])
                return m.assign(a[0], moved) if a else m
            return mp
        if leaf == 'pair':
            def pair(a):
                if len(a) == 1:
                    return R.move(self, a[0]) if moved else a[0].copy()
                if not a:
                    return self.zero(nt, True)
                return R.Pair(R.take(self, targs[0], a[0], moved),
                              R.take(self, targs[1], a[1], moved))
            return pair
        if leaf in ('nullopt_t', 'none_t'):
            return lambda a: R.NULLOPT
        rec = self.record(nt)
        if rec is None:
            raise Unsupported('C++: construction of ' + nt)
        return lambda a: self.construct_user(rec, ctor, a)

    # -- calls ------------------------------------------------------------
    def args(self, ns):
        out = []
        for a in ns:
            out.append((self.expr(a), a.get('valueCategory') != 'lvalue'))
        return out

    def x_CallExpr(self, n):
        ps = parts(n)
        callee = call_name(ps[0])
        args = self.args(ps[1:])
        if callee.get('kind') != 'DeclRefExpr':
            raise Unsupported('C++: call of ' + callee.get('kind', '?'))
        d = callee['referencedDecl']
        decl = self.byid.get(d['id'])
        name = d.get('name')
        if decl is not None:
            m = decl.get('mangledName')
            if m not in self.funcs:
                raise Unsupported('C++: function without a body: ' + name)
            fn = self.funcs[m]
            return lambda fr: self.call(fn, [a(fr) for a, _ in args])
        lib = getattr(self, 'l_' + name, None)
        if lib is None:
            raise Unsupported('C++: function ' + str(name))
        t = type_of(n)
        return lambda fr: lib([a(fr) for a, _ in args], t)

    def l_move(self, a, t):
        return a[0]

    l_forward = l_move

    def l_strlen(self, a, t):
        return R.length(R.text(a[0]))

    def l_to_string(self, a, t):
        return CStr(R.num_text(rv(a[0])))

    def l_make_unique(self, a, t):
        inner = split_template(R.norm(t))[1][0]
        if a:
            raise Unsupported('C++: make_unique with arguments')
        return R.UPtr(inner, self.zero(inner, True))

    def l_make_pair(self, a, t):
        x, y = split_template(R.norm(t))[1]
        return R.Pair(R.take(self, x, a[0], False),
                      R.take(self, y, a[1], False))

    def l_regex_match(self, a, t):
        return R.regex_match(*a)

    l_regex_search = l_regex_match

    def l_strptime(self, a, t):
        return R.strptime(*a)

    def l_strftime(self, a, t):
        return R.strftime(*a)

    def l_parse(self, a, t):
        return R.date_parse(*a)

    def l_make_time(self, a, t):
        return R.DateVal(a[0].v)

    def l_format(self, a, t):
        return R.date_format(*a)

    def l_locate_zone(self, a, t):
        return R.locate_zone(*a)

    def x_CXXMemberCallExpr(self, n):
        ps = parts(n)
        me = call_name(ps[0])
        if me.get('kind') != 'MemberExpr':
            raise Unsupported('C++: member call')
        obj = self.expr(parts(me)[0])
        name = me['name']
        args = self.args(ps[1:])
        decl = self.byid.get(me.get('referencedMemberDecl'))
        if decl is not None:
            fn = self.funcs.get(decl.get('mangledName'))
            if fn is not None:
                return lambda fr: self.call(
                    fn, [a(fr) for a, _ in args], obj(fr))
            if not name.startswith('operator'):
                raise Unsupported('C++: method without a body: ' + name)
        return lambda fr: self.method(
            obj(fr), name, [(a(fr), m) for a, m in args], n)

    def method(self, o, name, args, n):
        if isinstance(o, Cell):
            o = o.v
        if o is None:
            raise CppUB('method of a null pointer')
        vals = [a for a, _ in args if a is not DEFAULT]
        if isinstance(o, (JV, R.NullJ)):
            f = R.JVM.get(name)
            if f is not None:
                return f(o, *vals)
            if name == 'operator[]':
                return R.j_index(o, *vals)
            raise Unsupported('C++: Json::Value::' + name)
        if name == 'operator bool':
            return o.as_bool()
        if name.startswith('operator'):
            if name in ('operator string', 'operator std::string'):
                return o.m_str()
            return self.operator(name[8:].strip(), [o] + vals, False, n)
        f = getattr(o, 'm_' + name, None)
        if f is None:
            raise Unsupported('C++: {}::{}'.format(type(o).__name__, name))
        if args and args[-1][1] and name in (
                'push_back', 'emplace_back', 'emplace', 'insert'):
            if not isinstance(o, CStr):
                return f(*vals, moved=True)
        return f(*vals)

    def x_CXXOperatorCallExpr(self, n):
        ps = parts(n)
        callee = call_name(ps[0])
        d = callee.get('referencedDecl') or {}
        name = d.get('name', '')
        if not name.startswith('operator'):
            raise Unsupported('C++: operator call')
        op = name[8:].strip()
        args = [self.expr(a) for a in ps[1:]]
        moved = '&&' in (d.get('type') or {}).get('qualType', '')
        if op == '=':
            a, b = args

            def assign(fr):
                v = b(fr)
                s = a(fr)
                return self.operator('=', [s, v], moved, n)
            return assign
        decl = self.byid.get(d.get('id'))
        fn = self.funcs.get(decl.get('mangledName')) if decl else None
        if fn is not None:
            if d.get('kind') == 'CXXMethodDecl':
                return lambda fr: self.call(
                    fn, [a(fr) for a in args[1:]], args[0](fr))
            return lambda fr: self.call(fn, [a(fr) for a in args])
        return lambda fr: self.operator(op, [a(fr) for a in args], moved, n)

    def operator(self, op, a, moved, n):
        x = a[0]
        if op == '=':
            if not isinstance(x, R.Obj):
                raise Unsupported('C++: operator=')
            return x.assign(a[1], moved)
        if op == '[]':
            if isinstance(x, (JV, R.NullJ)):
                return R.j_index(x, a[1])
            return x.index(a[1])
        if op == '->':
            return x.arrow()
        if op == '*':
            return x.deref()
        if op == '++':
            if len(a) > 1:
                old = x.copy()
                x.inc()
                return old
            return x.inc()
        if op == '+=':
            return x.op_add_assign(a[1])
        if op == '+':
            y = rv(a[1])
            if isinstance(y, int):
                y = chr(y)
            return CStr(R.text(x) + R.text(y))
        if op in ('==', '!='):
            y = a[1]
            if isinstance(x, (R.SeqIter, R.JIter)):
                c = x.same(y)
            elif isinstance(x, (R.UPtr, )) or isinstance(y, R.UPtr):
                p, q = [v.v if isinstance(v, R.UPtr) else rv(v)
                        for v in (x, y)]
                c = p is q
            elif isinstance(x, R.Opt) and isinstance(y, R.NullOpt):
                c = x.v is None
            elif isinstance(x, R.JType) or isinstance(x, R.Enum):
                c = equal(x, y)
            else:
                c = R.eq(x, y)
            if op == '==':
                return c
            return SymBool(z3.Not(c.z)) if isinstance(c, SymBool) else not c
        if op == '<<':
            return x.put(a[1])
        if op == '>>':
            return R.read(x, a[1])
        if op == '!':
            return x.op_not()
        raise Unsupported('C++: operator' + op)


DEFAULT = object()


class Record:
    def __init__(self, name, node):
        self.name = name
        self.leaf = name.rpartition('::')[2]
        self.node = node
        self.fields = []
        self.ctors = []


def own(x):
    """The object of a variable which is initialised by a value."""
    if isinstance(x, (JV, R.NullJ)):
        return x
    if not isinstance(x, R.Obj):
        raise Unsupported('C++: a variable out of {!r}'.format(x))
    return x


def each(x):
    if isinstance(x, (JV, R.NullJ)):
        return iter([v for _, v in R.j_pairs(x)]) \
            if not x.test(6 - 1) else x._iter_list()
    if isinstance(x, (R.Vec, R.Map)):
        return x.each()
    raise Unsupported('C++: range of {!r}'.format(x))


def equal(a, b):
    """Equality of scalars: bool or SymBool."""
    a, b = rv(a), rv(b)
    if isinstance(a, R.JType) and isinstance(b, R.Enum):
        return a.eq(b.n)
    if isinstance(b, R.JType) and isinstance(a, R.Enum):
        return b.eq(a.n)
    if isinstance(a, R.Enum) and isinstance(b, R.Enum):
        return a.n == b.n
    if a is None or b is None or isinstance(a, R.Obj) or \
            isinstance(b, R.Obj):
        return a is b
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        x = a.z if isinstance(a, SymBool) else z3.BoolVal(bool(a))
        y = b.z if isinstance(b, SymBool) else z3.BoolVal(bool(b))
        return SymBool(x == y)
    if a is R.WRITTEN or b is R.WRITTEN:
        return a == b
    if isinstance(a, Sym) or isinstance(b, Sym):
        return num_cmp('==', a, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return a is b


_SMALL = {}


def small(z):
    """A sum of a few lengths of strings."""
    k = z.get_id()
    r = _SMALL.get(k)
    if r is None or not r[0].eq(z):
        if z3.is_int_value(z):
            ok = 0 <= z.as_long() < 2**30
        elif z3.is_add(z):
            ok = z.num_args() < 9 and all(small(c) for c in z.children())
        else:
            ok = z3.is_app(z) and z.decl().eq(R.STRLEN)
        r = _SMALL[k] = (z, ok)
    return r[1]


def fit(v, t):
    """Convert an integer to its type."""
    r = INTS.get(t)
    if isinstance(v, SymBool):
        if r is None:
            return v
        return SymInt(z3.If(v.z, z3.IntVal(1), z3.IntVal(0)))
    if r is None or not isinstance(v, int):
        return v
    bits, signed = r
    lo, hi = (-2**(bits - 1), 2**(bits - 1) - 1) if signed else (
        0, 2**bits - 1)
    if isinstance(v, SymInt):
        if bits > 31 and small(v.z):
            return v
        if engine().branch(z3.And(v.z >= lo, v.z <= hi)):
            return v
        m = v.z % z3.IntVal(2**bits)
        return SymInt(z3.If(m > hi, m - 2**bits, m) if signed else m)
    if isinstance(v, bool):
        return int(v)
    if lo <= v <= hi:
        return v
    m = v % 2**bits
    return m - 2**bits if signed and m > hi else m


def arith(op, a, b, t):
    if a is R.UNINIT or b is R.UNINIT:
        raise Unsupported('C++: uninitialised variable')
    if op == '+':
        v = a + b
    elif op == '-':
        v = a - b
    elif op == '*':
        v = a * b
    elif op in ('/', '%') and not isinstance(a, Sym) and \
            not isinstance(b, Sym):
        if b == 0:
            raise CppUB('division by zero')
        if isinstance(a, float) or isinstance(b, float):
            v = a / b
        else:
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            v = q if op == '/' else a - q * b
    else:
        raise Unsupported('C++: operator ' + op)
    return fit(v, t)


# ---------------------------------------------------------------------------
# the package
# ---------------------------------------------------------------------------

_PROGRAMS = {}


class Package:
    """The generated code, ready to be executed."""

    def __init__(self, files, stub_durations=True):
        files = {n: t for n, t in files.items()
                 if n.endswith('.cpp') or n.endswith('.h')}
        key = tuple(sorted(files.items()))
        p = _PROGRAMS.get(key)
        if p is None:
            if len(_PROGRAMS) > 4:
                _PROGRAMS.clear()
            p = _PROGRAMS[key] = Program(clang_dump(files))
            self.prepare(p, stub_durations)
        self.p = p

    @staticmethod
    def prepare(p, stub_durations):
        if stub_durations:
            if p.find('duration_from_string'):
                p.overrides['duration_from_string'] = R.dur_from
            if p.find('duration_to_string'):
                p.overrides['duration_to_string'] = R.dur_to
        fn = p.find('value_type_to_string')
        if len(fn) == 1:
            try:
                for name, i in R.JTYPES.items():
                    out = p.call(fn[0], [R.Enum(name, i)])
                    if not isinstance(out, CStr):
                        return
            except CppExc:
                return
            p.overrides['value_type_to_string'] = lambda t: CStr(t.text())

    def func(self, name):
        fs = self.p.find(name)
        if len(fs) != 1:
            raise Unsupported('C++: {} functions {}'.format(len(fs), name))
        return fs[0]

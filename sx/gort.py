"""Run-time model of Go for the translated code (see gotrans)."""
import fractions
import math
import re

import z3

from sx import pyexec, strs
from sx.core import (MAGIC, Sym, SymBool, SymFloat, SymInt, Unsupported,
                     concretize_int, engine, num_cmp, sym_trunc, to_z, wrap)
from sx.jv import BOOL, DICT, FLOAT, INT, JV, LIST, NULL, STR

INT_RANGE = {'int': (64, True), 'int64': (64, True), 'int32': (32, True),
             'int16': (16, True), 'int8': (8, True), 'uint': (64, False),
             'uint64': (64, False), 'uint32': (32, False),
             'uint16': (16, False), 'uint8': (8, False), 'byte': (8, False),
             'rune': (32, True)}
FLOATS = ('float64', 'float32', 'untyped float')


class GoPanic(Exception):
    pass


class GoType:
    __slots__ = ('kind', 'a', 'b', 'name', 'pkg', 'fields', 'i')

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return 'GoType({}, {})'.format(self.kind, self.name)


class Types:
    """Lazy table of the types of a package."""

    def __init__(self, table):
        self.table = table
        self.cache = {}

    def __getitem__(self, i):
        t = self.cache.get(i)
        if t is not None:
            return t
        t = self.cache[i] = GoType(i)
        t.name = t.pkg = t.fields = t.a = t.b = None
        e = self.table[i]
        if e[0] == 'alias':
            self.cache[i] = self[e[1]]
            return self.cache[i]
        if e[0] == 'named':
            if e[3] >= 0:
                u = self[e[3]]
                t.kind, t.a, t.b, t.fields = u.kind, u.a, u.b, u.fields
            else:
                t.kind = 'opaque'
            t.pkg, t.name = e[1], e[2]
        elif e[0] == 'basic':
            t.kind, t.name = 'basic', e[1]
            t.a = e[1]
        elif e[0] in ('pointer', 'slice'):
            t.kind, t.a = e[0], e[1]
        elif e[0] == 'map':
            t.kind, t.a, t.b = 'map', e[1], e[2]
        elif e[0] == 'struct':
            t.kind = 'struct'
            t.fields = [(n, self._lazy(k)) for n, k in e[1] or ()]
        elif e[0] == 'array':
            t.kind, t.a, t.b = 'array', e[2], e[1]
        else:
            t.kind = e[0]
            t.a = e[1] if len(e) > 1 else None
        if t.kind == 'basic' and t.a is None:
            t.a = t.name
        return t

    def _lazy(self, k):
        return lambda: self[k]


class Cell:
    """A variable; pointers are cells."""
    __slots__ = ('v', )

    def __init__(self, v):
        self.v = v


class FieldPtr:
    __slots__ = ('d', 'n')

    def __init__(self, d, n):
        self.d, self.n = d, n

    @property
    def v(self):
        return self.d[self.n]

    @v.setter
    def v(self, x):
        self.d[self.n] = x

    def same(self, o):
        return type(o) is FieldPtr and o.d is self.d and o.n == self.n


class ElemPtr(FieldPtr):
    __slots__ = ()

    def same(self, o):
        return type(o) is ElemPtr and o.d is self.d and o.n == self.n


class GoStruct:
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, f

    def copy(self):
        return GoStruct(self.t, {k: copy(v) for k, v in self.f.items()})


class GoSlice:
    __slots__ = ('arr', 'off', 'n', 'cap')

    def __init__(self, arr, off=0, n=None, cap=None):
        self.arr, self.off = arr, off
        self.n = len(arr) if n is None else n
        self.cap = self.n if cap is None else cap

    def items(self):
        return self.arr[self.off:self.off + self.n]


class GoMap:
    __slots__ = ('e', )

    def __init__(self, e=()):
        self.e = [list(x) for x in e]

    def find(self, k):
        for x in self.e:
            c = key_eq(x[0], k)
            if c is True or c is not False and engine().branch(c):
                return x
        return None


class GoError:
    def __init__(self, text):
        self.text = text


def key_eq(a, b):
    if strs.is_str(a) and strs.is_str(b):
        return strs.eq_cond(a, b)
    r = a == b
    return r.z if isinstance(r, SymBool) else bool(r)


def copy(v):
    return v.copy() if type(v) is GoStruct else v


def panic(v):
    raise GoPanic(v)


def deref(p):
    if p is None:
        raise GoPanic('nil pointer dereference')
    return p


def fields(x):
    if type(x) is GoStruct:
        return x.f
    if x is None:
        raise GoPanic('nil pointer dereference')
    v = x.v
    if type(v) is not GoStruct:
        raise Unsupported('field of {!r}'.format(v))
    return v.f


def zero(t):
    k = t.kind
    if k == 'basic':
        if t.a == 'string':
            return ''
        if t.a == 'bool':
            return False
        return 0.0 if t.a in FLOATS else 0
    if k == 'struct':
        return GoStruct(t, {n: zero(ft()) for n, ft in t.fields})
    if k == 'opaque':
        if (t.pkg, t.name) == ('time', 'Time'):
            return pyexec.Moment(z3.Int('zero_time'))
        raise Unsupported('zero value of {}'.format(t.name))
    if k == 'array':
        raise Unsupported('arrays')
    return None


def struct(t, vals):
    if t.kind != 'struct':
        raise Unsupported('literal of {}'.format(t.name))
    f = {}
    for n, ft in t.fields:
        f[n] = vals[n] if n in vals else zero(ft())
    return GoStruct(t, f)


def mkslice(xs):
    return GoSlice(list(xs))


def mkmap(pairs):
    return GoMap(pairs)


def make(t, n, cap=None, limit=64):
    n = concretize_int(n) if isinstance(n, SymInt) else int(n)
    if n < 0:
        raise GoPanic('makeslice: len out of range')
    return GoSlice([zero(t) for _ in range(n)])


def elems(s):
    return () if s is None else s.items()


def append(s, *xs):
    if s is None:
        return GoSlice(list(xs))
    if isinstance(s, JV):
        raise Unsupported('append to a JSON value')
    if s.off + s.n == len(s.arr) and s.off == 0:
        # growing in place is visible only through the new slice
        s.arr.extend(xs)
        return GoSlice(s.arr, 0, s.n + len(xs))
    return GoSlice(s.items() + list(xs))


def b_len(x):
    if x is None:
        return 0
    if isinstance(x, JV):
        return x.__sx_len__()
    if isinstance(x, GoSlice):
        return x.n
    if isinstance(x, GoMap):
        return len(x.e)
    if isinstance(x, str):
        return len(x.encode('utf-8'))
    if isinstance(x, strs.SymStr):
        if strs.has_atom(x):
            return SymInt(strs.STRLEN(strs.term_of(x)))
        return len(x)
    raise Unsupported('len of {!r}'.format(x))


def b_cap(x):
    raise Unsupported('cap')


def b_delete(m, k):
    if m is not None:
        x = m.find(k)
        if x is not None:
            m.e.remove(x)


def b_copy(dst, src):
    raise Unsupported('copy')


def index_of(i):
    return concretize_int(i) if isinstance(i, SymInt) else int(i)


def at(x, i):
    if isinstance(x, JV):
        i = index_of(i)
        if i < 0 or i >= len(x.items_) or not engine().branch(x._more(i)):
            raise GoPanic('index out of range')
        return x.items_[i]
    if x is None:
        raise GoPanic('index out of range')
    if isinstance(x, GoSlice):
        i = index_of(i)
        if not 0 <= i < x.n:
            raise GoPanic('index out of range')
        return x.arr[x.off + i]
    if isinstance(x, str):
        i = index_of(i)
        b = x.encode('utf-8')
        if not 0 <= i < len(b):
            raise GoPanic('index out of range')
        return b[i]
    if isinstance(x, strs.SymStr) and not strs.has_atom(x):
        i = index_of(i)
        if not 0 <= i < len(x.items):
            raise GoPanic('index out of range')
        c = x.items[i]
        return ord(c) if isinstance(c, str) else SymInt(c.z)
    raise Unsupported('index of {!r}'.format(x))


def elemptr(x, i):
    at(x, i)
    return ElemPtr(x.arr, x.off + index_of(i))


def reslice(x, lo, hi):
    if isinstance(x, GoSlice):
        lo = 0 if lo is None else index_of(lo)
        hi = x.n if hi is None else index_of(hi)
        if not 0 <= lo <= hi <= x.n:
            raise GoPanic('slice bounds out of range')
        return GoSlice(x.arr, x.off + lo, hi - lo)
    if strs.is_str(x) and not strs.has_atom(x):
        its = strs.items_of(x)
        lo = 0 if lo is None else index_of(lo)
        hi = len(its) if hi is None else index_of(hi)
        if not 0 <= lo <= hi <= len(its):
            raise GoPanic('slice bounds out of range')
        return strs.mk(its[lo:hi])
    raise Unsupported('slice of {!r}'.format(x))


def mapget2(m, k, t):
    if m is None:
        return zero(t), False
    if isinstance(m, JV):
        r = m.find(k)
        return (zero(t), False) if r is None else (r[1], True)
    r = m.find(k)
    return (zero(t), False) if r is None else (copy(r[1]), True)


def mapget(m, k, t):
    return mapget2(m, k, t)[0]


def setitem(x, k, v):
    if isinstance(x, JV):
        raise Unsupported('change of the parsed JSON value')
    if x is None:
        raise GoPanic('assignment to entry in nil map')
    if isinstance(x, GoMap):
        r = x.find(k)
        if r is None:
            x.e.append([k, v])
        else:
            r[1] = v
        return
    i = index_of(k)
    if not 0 <= i < x.n:
        raise GoPanic('index out of range')
    x.arr[x.off + i] = v


def rangeslice(x):
    if x is None:
        return
    if isinstance(x, JV):
        for i, y in enumerate(x._iter_list()):
            yield i, y
        return
    for i in range(x.n):
        yield i, x.arr[x.off + i]


MAP_ORDER = False


def rangemap(x):
    """Pairs in an arbitrary order (symbolic when MAP_ORDER is set)."""
    if x is None:
        return
    if isinstance(x, JV):
        es = list(x.live_entries())
    else:
        es = [tuple(e) for e in x.e]
    if MAP_ORDER and len(es) > 1:
        es = list(es)
        out = []
        while es:
            i = engine().choose('order', len(es))
            out.append(es.pop(i))
        es = out
    for k, v in es:
        yield k, v


def rangeint(n):
    for i in range(concretize_int(n)):
        yield i, i


# -- types of values --------------------------------------------------------


def type_test(x, t):
    """(holds, value) of a type assertion."""
    if x is None:
        return False, None
    k = t.kind
    if k == 'interface':
        return True, x
    if isinstance(x, JV):
        if t.pkg:
            return False, None
        if k == 'basic':
            if t.a == 'string':
                return (True, x.sstr()) if x.test(STR) else (False, None)
            if t.a == 'bool':
                return (True, SymBool(x.b)) if x.test(BOOL) else (False, None)
            if t.a == 'float64':
                return (True, SymFloat(x.f)) if x.test(FLOAT) else (
                    False, None)
            return False, None
        if k == 'map':
            ok = x.test(DICT) and t.is_any_map
            return ok, x if ok else None
        if k == 'slice':
            ok = x.test(LIST) and t.is_any_slice
            return ok, x if ok else None
        return False, None
    raise Unsupported('type assertion on {!r}'.format(type(x)))


def _elem_is_any(self):
    return TYPES[self.a if self.kind == 'slice' else self.b].kind == \
        'interface'


TYPES = None


def _bind(ty):
    """The table of the running package (element types of assertions)."""
    global TYPES
    TYPES = ty


class _GoTypeProps:
    @property
    def is_any_map(self):
        return TYPES[self.b].kind == 'interface' and \
            TYPES[self.a].a == 'string'

    @property
    def is_any_slice(self):
        return TYPES[self.a].kind == 'interface'


GoType.is_any_map = _GoTypeProps.is_any_map
GoType.is_any_slice = _GoTypeProps.is_any_slice


def assert2(x, t):
    ok, v = type_test(x, t)
    return (v, True) if ok else (zero(t), False)


def assert1(x, t):
    ok, v = type_test(x, t)
    if not ok:
        raise GoPanic('interface conversion')
    return v


def has_type(x, t):
    return type_test(x, t)[0]


# -- numbers ----------------------------------------------------------------


def K(v):
    """Number of the text: possibly a symbolic one."""
    z = MAGIC.lookup(v)
    if z is None:
        z = MAGIC.lookup(-v)
        if z is not None:
            z = -z
    if z is None:
        return v
    if z3.is_int(z) and isinstance(v, float):
        return SymFloat(z3.ToReal(z))
    return SymInt(z) if z3.is_int(z) else SymFloat(z)


def Q(text):
    f = fractions.Fraction(text)
    # the nearest double
    v = f.numerator / f.denominator
    return v


def fit(v, kind):
    """Wrap an integer into its type."""
    r = INT_RANGE.get(kind)
    if r is None:
        return v
    bits, signed = r
    lo, hi = (-2**(bits - 1), 2**(bits - 1) - 1) if signed else (
        0, 2**bits - 1)
    if isinstance(v, SymInt):
        if engine().branch(z3.And(v.z >= lo, v.z <= hi)):
            return v
        m = v.z % z3.IntVal(2**bits)
        return wrap(z3.If(m > hi, m - 2**bits, m) if signed else m)
    if lo <= v <= hi:
        return v
    m = v % 2**bits
    return m - 2**bits if signed and m > hi else m


def neg(x, kind):
    return fit(-x, kind)


def go_div(a, b):
    """Truncated quotient and remainder of integers."""
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if b == 0:
            raise GoPanic('integer divide by zero')
        q = abs(a) // abs(b)
        q = q if (a >= 0) == (b >= 0) else -q
        return q, a - b * q
    za, zb = to_z(a), to_z(b)
    if engine().branch(zb == 0):
        raise GoPanic('integer divide by zero')
    pos_a = engine().branch(za >= 0)
    pos_b = engine().branch(zb > 0)
    aa = za if pos_a else -za
    bb = zb if pos_b else -zb
    q = aa / bb
    r = aa % bb
    return wrap(q if pos_a == pos_b else -q), wrap(r if pos_a else -r)


def same(x, y):
    """Equality of pointers, interfaces and the like."""
    if x is None or y is None:
        o = y if x is None else x
        if o is None:
            return True
        if isinstance(o, JV):
            return SymBool(o.k == NULL)
        return False
    if isinstance(x, FieldPtr):
        return x.same(y)
    if isinstance(x, (Cell, GoError, GoMap, GoSlice)) or isinstance(
            y, (Cell, GoError)):
        return x is y
    if isinstance(x, (JV, GoStruct)) or isinstance(y, (JV, GoStruct)):
        raise Unsupported('equality of {} and {}'.format(type(x), type(y)))
    return x == y


def bin_(op, x, y, kind):
    if kind == 'string' or kind == 'untyped string':
        if op == '+':
            return strs.join('', [x, y])
        if op in ('==', '!='):
            c = strs.eq_cond(x, y)
            if isinstance(c, bool):
                return c if op == '==' else not c
            return SymBool(c if op == '==' else z3.Not(c))
        if isinstance(x, str) and isinstance(y, str):
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        raise Unsupported('order of strings')
    if kind in ('nil', 'pointer', 'interface', 'func', 'struct', 'map',
                'slice', 'opaque', 'named'):
        r = same(x, y)
        if op == '==':
            return r
        if op == '!=':
            return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r
        raise Unsupported('operator {} on {}'.format(op, kind))
    if kind in ('bool', 'untyped bool'):
        if isinstance(x, Sym) or isinstance(y, Sym):
            zx = x.z if isinstance(x, Sym) else z3.BoolVal(x)
            zy = y.z if isinstance(y, Sym) else z3.BoolVal(y)
            return SymBool(zx == zy if op == '==' else zx != zy)
        return x == y if op == '==' else x != y
    if op in ('==', '!=', '<', '<=', '>', '>='):
        if isinstance(x, Sym) or isinstance(y, Sym):
            return num_cmp(op, x, y)
        return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y,
                '>': x > y, '>=': x >= y}[op]
    is_float = kind in FLOATS
    if op in '+-*':
        r = x + y if op == '+' else x - y if op == '-' else x * y
        return r if is_float else fit(r, kind)
    if op == '/':
        if is_float:
            if not isinstance(x, Sym) and not isinstance(y, Sym) and y == 0:
                return math.nan if x == 0 else math.copysign(math.inf, x)
            return x / y
        return fit(go_div(x, y)[0], kind)
    if op == '%':
        return go_div(x, y)[1]
    if not isinstance(x, Sym) and not isinstance(y, Sym):
        if op == '&':
            return x & y
        if op == '|':
            return x | y
        if op == '^':
            return x ^ y
        if op == '<<':
            return fit(x << y, kind)
        if op == '>>':
            return x >> y
    raise Unsupported('operator {} on {}'.format(op, kind))


INDEFINITE = -2**63


def conv(t, x):
    if t.kind == 'basic':
        k = t.a
        if k in INT_RANGE:
            if isinstance(x, (SymFloat, float)) and not isinstance(
                    x, SymInt):
                bits, signed = INT_RANGE[k]
                lo, hi = (-2**(bits - 1), 2**(bits - 1)) if signed else (
                    0, 2**bits)
                if isinstance(x, SymFloat):
                    if engine().branch(z3.And(x.z > lo - 1, x.z < hi)):
                        return sym_trunc(x)
                    # not specified by the language; as on amd64
                    return INDEFINITE if signed else 2**63
                if lo - 1 < x < hi:
                    return int(x)
                return INDEFINITE if signed else 2**63
            if isinstance(x, (int, SymInt)):
                return fit(x, k)
            raise Unsupported('conversion to {}'.format(k))
        if k in FLOATS:
            if isinstance(x, SymFloat):
                return x
            if isinstance(x, SymInt):
                if engine().branch(z3.And(x.z >= -2**53, x.z <= 2**53)):
                    return SymFloat(z3.ToReal(x.z))
                return big_float(x)
            return float(x)
        if k == 'string':
            if strs.is_str(x):
                return x
            raise Unsupported('conversion to string')
        if k == 'bool':
            return x
    return x


def big_float(x):
    engine().notes.add('rounding of integers beyond 2**53 is not modelled')
    return SymFloat(z3.ToReal(x.z))


# -- library ----------------------------------------------------------------

ANCHORED = ('^', r'\A')


class GoRegexp:
    def __init__(self, text):
        self.text = text


def _compile(p):
    if isinstance(p, Sym):
        raise Unsupported('symbolic pattern')
    return GoRegexp(p)


def go_pattern_name(text):
    return text


def match_string(r, s):
    if not strs.has_atom(s):
        raise Unsupported('regular expression on characters')
    p = r.text
    m = pyexec.pat_ok(p)(strs.term_of(s))
    if not (p.startswith('^') and '|' not in p):
        m = z3.Or(m, pyexec.pred('found[{}]'.format(p))(strs.term_of(s)))
    return SymBool(m)


def find_submatch(r, s):
    return LIB_FIND(r, s)


def LIB_FIND(r, s):
    raise Unsupported('submatches')


def _text(hint):
    return strs.opaque(z3.Int(engine().name(hint)))


def sprintf(fmt, args):
    return _text('sprintf')


def join(xs, sep):
    return strs.join(sep, elems(xs))


def itoa(i):
    if isinstance(i, Sym):
        return _text('itoa')
    return str(i)


def trunc(x):
    if isinstance(x, SymFloat):
        t = sym_trunc(x)
        return SymFloat(z3.ToReal(to_z(t))) if isinstance(t, Sym) else float(t)
    return float(math.trunc(x))


def floor(x):
    if isinstance(x, SymFloat):
        return SymFloat(z3.ToReal(z3.ToInt(x.z)))
    return float(math.floor(x))


def time_parse(layout, s):
    if isinstance(layout, Sym):
        raise Unsupported('symbolic layout')
    z = strs.term_of(s)
    if engine().branch(pyexec.date_ok('go:' + layout)(z)):
        return pyexec.Moment(pyexec.parsed('go:' + layout)(z)), None
    return pyexec.Moment(z3.Int('zero_time')), GoError(_text('err'))


def time_format(t, layout):
    return strs.opaque(pyexec.printed('go:' + layout)(t.z))


def load_location(s):
    z = strs.term_of(s)
    if engine().branch(pyexec.tz_ok()(z)):
        return pyexec.SymTz(z), None
    return None, GoError(_text('err'))


def tz_string(t):
    if t is None:
        return 'UTC'
    return strs.opaque(t.z, ('tz', t))


def error_text(e):
    if e is None:
        raise GoPanic('nil pointer dereference')
    return e.text


LIB = {
    'fmt.Sprintf': sprintf,
    'fmt.Errorf': lambda f, a: GoError(_text('err')),
    'fmt.Sprint': lambda a: _text('sprint'),
    'errors.New': lambda t: GoError(t),
    'strings.Join': join,
    'strconv.Itoa': itoa,
    'strconv.Quote': lambda s: _text('quote'),
    'strconv.FormatInt': lambda i, b: itoa(i) if b == 10 else _text('int'),
    'math.Trunc': trunc,
    'math.Floor': floor,
    'math.Abs': lambda x: abs(x),
    'math.IsNaN': lambda x: x != x,
    'math.IsInf': lambda x, s: False,
    'regexp.MustCompile': _compile,
    'time.Parse': time_parse,
    'time.LoadLocation': load_location,
}
METH = {
    'regexp.Regexp.MatchString': match_string,
    'regexp.Regexp.FindStringSubmatch': find_submatch,
    'time.Time.Format': time_format,
    'time.Location.String': tz_string,
    '.error.Error': error_text,
}


def lib(name):
    f = LIB.get(name)
    if f is None:
        raise Unsupported('Go function ' + name)
    return f


def meth(name):
    f = METH.get(name)
    if f is None:
        raise Unsupported('Go method ' + name)
    return f


def libvar(name):
    raise Unsupported('Go variable ' + name)


def run_deferred(body, defers):
    panicked = None
    try:
        body()
    except GoPanic as ex:
        panicked = ex
    for f in reversed(defers):
        f()
    if panicked is not None:
        raise panicked

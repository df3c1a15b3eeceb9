"""Run-time model of the C++ libraries which the generated code uses."""
import z3

from sx import pyexec, strs
from sx.oracle import prefix_ok
from sx.core import (Sym, SymBool, SymFloat, SymInt, Unsupported,
                     concretize_int, engine, num_cmp, to_z)
from sx.jv import BOOL, DICT, FLOAT, INT, JV, LIST, NULL, STR

STRLEN = z3.Function('string_length', z3.IntSort(), z3.IntSort())
NUMTXT = z3.Function('text_of_int', z3.IntSort(), z3.IntSort())
REALTXT = z3.Function('text_of_real', z3.RealSort(), z3.IntSort())


class CppExc(Exception):
    """A C++ exception."""

    def __init__(self, cls, what=''):
        super().__init__(cls, what if isinstance(what, str) else '...')
        self.cls = cls
        self.text = what


class CppHang(Exception):
    """A loop which does not end."""


class CppUB(Exception):
    """Undefined behaviour."""


BASES = {'runtime_error': 'exception', 'logic_error': 'exception',
         'overflow_error': 'runtime_error', 'range_error': 'runtime_error',
         'invalid_argument': 'logic_error', 'domain_error': 'logic_error',
         'bad_alloc': 'exception', 'out_of_range': 'logic_error', 'length_error': 'logic_error',
         'bad_optional_access': 'exception', 'Json::LogicError': 'exception'}


def is_a(cls, base):
    while cls is not None:
        if cls == base:
            return True
        cls = BASES.get(cls)
    return False


class _Uninit:
    def __repr__(self):
        return '<uninitialised>'


UNINIT = _Uninit()


class Cell:
    """An object of a scalar type; pointers to it are the cell itself."""
    __slots__ = ('v', )

    def __init__(self, v):
        self.v = v

    def copy(self):
        return Cell(self.v)


def rv(x):
    """Value of an argument which may be bound by reference."""
    return x.v if type(x) is Cell else x


def truth(v):
    if v is True or v is False:
        return v
    if isinstance(v, SymBool):
        return engine().branch(v.z)
    if v is None:
        return False
    if isinstance(v, (int, float)) and not isinstance(v, Sym):
        return v != 0
    if isinstance(v, (SymInt, SymFloat)):
        return engine().branch(v.z != 0)
    if v is UNINIT:
        raise CppUB('read of an uninitialised variable')
    return True


def length(s):
    """Length of a text."""
    if isinstance(s, str):
        return len(s.encode('utf-8', 'surrogatepass'))
    n = 0
    z = None
    for c in strs.items_of(s):
        if type(c) is strs.Atom:
            t = STRLEN(c.z)
            engine().assume(z3.And(t >= 0, t < 2**28))
            z = t if z is None else z + t
        elif isinstance(c, str):
            n += len(c.encode('utf-8', 'surrogatepass'))
        else:
            n += 1
    return n if z is None else SymInt(z + n)


def text(x):
    """Text of a string, a literal or a character pointer."""
    x = rv(x)
    if isinstance(x, CStr):
        if x.pad is not None:
            raise Unsupported('C++: rubbish behind a text')
        return x.v
    if isinstance(x, str) or strs.is_str(x):
        return x
    if isinstance(x, CharPtr):
        return x.text()
    if isinstance(x, SubPath):
        return x.v
    raise Unsupported('C++: text of {!r}'.format(x))


class Obj:
    """An object of a class type."""
    __slots__ = ()


class CStr(Obj):
    """std::string; ``pad`` is the size of a buffer with rubbish behind."""
    __slots__ = ('v', 'pad')

    def __init__(self, v=''):
        self.v = v
        self.pad = None

    def copy(self):
        return CStr(self.v)

    def assign(self, o, moved=False):
        v = text(o)
        if moved and isinstance(o, CStr) and o is not self:
            o.v = ''
        self.v = v
        return self

    def m_append(self, a, n=None, *_):
        a = rv(a)
        if n is not None:
            n = rv(n)
            t = text(a) if not isinstance(a, (int, SymInt)) else None
            if t is None:
                raise Unsupported('C++: append(n, c)')
            self.v = self.v + prefix(t, n)
            return self
        self.v = self.v + text(a)
        return self

    def op_add_assign(self, o):
        o = rv(o)
        self.v = self.v + (chr(o) if isinstance(o, int) else text(o))
        return self

    def m_push_back(self, c):
        return self.op_add_assign(c)

    def m_reserve(self, n):
        return None

    def m_shrink_to_fit(self):
        return None

    def m_clear(self):
        self.v = ''

    def m_resize(self, n, c=0):
        n = rv(n)
        if n is WRITTEN:
            self.pad = None
            return
        if isinstance(n, int) and not isinstance(n, Sym) and n > 10**7:
            raise CppExc('bad_alloc', 'std::bad_alloc')
        if self.pad is not None:
            if isinstance(n, Sym) or n < self.pad:
                raise Unsupported('C++: resize of a buffer')
            self.pad = n
            return
        if isinstance(n, Sym) or isinstance(self.v, Sym):
            self.v = prefix(self.v, n)
            return
        self.v = self.v[:n] + chr(rv(c)) * (n - len(self.v))

    def m_size(self):
        return length(self.v) if self.pad is None else self.pad

    m_length = m_size

    def m_empty(self):
        if isinstance(self.v, str):
            return not self.v
        if any(type(c) is not strs.Atom for c in strs.items_of(self.v)):
            return False
        return SymBool(strs.term_of(self.v) == strs.intern(''))

    def m_c_str(self):
        return self.v

    m_data = m_c_str

    def m_substr(self, i=0, n=None):
        i, n = rv(i), rv(n)
        if isinstance(self.v, str) and not isinstance(i, Sym) and \
                not isinstance(n, Sym):
            return CStr(self.v[i:] if n is None else self.v[i:i + n])
        if n is None and not isinstance(i, Sym):
            items = list(strs.items_of(self.v))
            if all(type(c) is not strs.Atom for c in items[:i]):
                return CStr(strs.mk(items[i:]))
        raise Unsupported('C++: substr of an opaque string')

    def m_compare(self, o):
        c = eq(self, o)
        if c is True:
            return 0
        raise Unsupported('C++: compare')

    def index(self, i):
        i = rv(i)
        if isinstance(self.v, str) and not isinstance(i, Sym):
            if i == len(self.v):
                return Cell(0)
            return StrElem(self, i)
        return StrElem(self, i)


class StrElem:
    """A character of a string as an lvalue."""
    __slots__ = ('s', 'i')

    def __init__(self, s, i):
        self.s, self.i = s, i

    @property
    def v(self):
        if isinstance(self.s.v, str):
            return ord(self.s.v[self.i])
        c = list(strs.items_of(self.s.v))
        if any(type(x) is strs.Atom for x in c[:self.i + 1]):
            raise Unsupported('C++: character of an opaque string')
        return ord(c[self.i]) if isinstance(c[self.i], str) else SymInt(
            c[self.i].z)


def prefix(t, n):
    """The first ``n`` bytes of a text."""
    if isinstance(t, str) and not isinstance(n, Sym):
        b = t.encode('utf-8', 'surrogatepass')
        if n > len(b):
            raise CppUB('read behind a string')
        return b[:n].decode('utf-8', 'surrogatepass')
    m = length(t)
    if n is m or isinstance(n, Sym) and isinstance(m, Sym) and \
            n.z.eq(m.z):
        return t
    if isinstance(n, Sym):
        z = z3.simplify(n.z)
        if z3.is_int_value(z):
            n = z.as_long()
        elif z3.simplify(n.z - to_z(m)).eq(z3.IntVal(0)):
            return t
        else:
            return _sym_prefix(t, n.z)
    items = list(strs.items_of(t))
    out, k = [], 0
    for c in items:
        if k == n:
            return strs.mk(out)
        if type(c) is strs.Atom:
            break
        k += len(c.encode('utf-8')) if isinstance(c, str) else 1
        out.append(c)
    if k == n:
        return strs.mk(out)
    raise Unsupported('C++: part of an opaque string')


def _sym_prefix(t, z):
    """Prefix which ends at a boundary of the parts of the text."""
    out, k = [], z3.IntVal(0)
    for c in list(strs.items_of(t)) + [None]:
        if z3.simplify(k - z).eq(z3.IntVal(0)):
            return strs.mk(out)
        if c is None:
            break
        k = k + (STRLEN(c.z) if type(c) is strs.Atom else
                 len(c.encode('utf-8')) if isinstance(c, str) else 1)
        out.append(c)
    raise Unsupported('C++: part of an opaque string')


class CharPtr:
    """``char*`` into a text, by what it points at."""

    def __init__(self, first, rest=None):
        self.first = first
        self.rest = rest

    @property
    def v(self):
        return self.first

    def text(self):
        if self.rest is None:
            raise Unsupported('C++: text at a character pointer')
        return self.rest


class SubPath:
    __slots__ = ('v', )


class Vec(Obj):
    __slots__ = ('e', 't', 'ip')

    def __init__(self, ip, t, e=()):
        self.ip, self.t, self.e = ip, t, list(e)

    def copy(self):
        return Vec(self.ip, self.t, [x.copy() for x in self.e])

    def assign(self, o, moved=False):
        if o is self:
            return self
        if not isinstance(o, Vec):
            raise Unsupported('C++: assignment to a vector')
        self.e = o.e if moved else [x.copy() for x in o.e]
        if moved:
            o.e = []
        return self

    def m_resize(self, n, v=None):
        n = rv(n)
        if isinstance(n, Sym):
            n = concretize_int(n)
        if n > 10**6:
            raise CppExc('length_error')
        del self.e[n:]
        while len(self.e) < n:
            self.e.append(self.ip.zero(self.t, True) if v is None
                          else slot(v).copy())

    def m_reserve(self, n):
        return None

    def m_clear(self):
        self.e = []

    def m_size(self):
        return len(self.e)

    def m_empty(self):
        return not self.e

    def _i(self, i, check):
        i = rv(i)
        if isinstance(i, Sym):
            i = concretize_int(i)
        if not 0 <= i < len(self.e):
            if check:
                raise CppExc('out_of_range')
            raise CppUB('index out of range')
        return self.e[i]

    def m_at(self, i):
        return self._i(i, True)

    def index(self, i):
        return self._i(i, False)

    def m_back(self):
        return self._i(len(self.e) - 1, False)

    def m_front(self):
        return self._i(0, False)

    def m_push_back(self, x, moved=False):
        self.e.append(take(self.ip, self.t, x, moved))

    def m_emplace_back(self, *a, moved=False):
        if not a:
            self.e.append(self.ip.zero(self.t, True))
        elif len(a) == 1:
            self.e.append(take(self.ip, self.t, a[0], moved))
        else:
            raise Unsupported('C++: emplace_back of several arguments')
        return self.e[-1]

    def m_pop_back(self):
        self.e.pop()

    def m_begin(self):
        return SeqIter(self, 0)

    def m_end(self):
        return SeqIter(self, None)

    m_cbegin, m_cend = m_begin, m_end

    def seq(self):
        return self.e

    def each(self):
        return iter(list(self.e))


def slot(x):
    """The object which a (reference) argument names."""
    if isinstance(x, (Cell, Obj, JV, StrElem)):
        return x
    return Cell(x)


def take(ip, t, x, moved):
    """A new object of the type out of an argument."""
    x = slot(x) if not isinstance(x, StrElem) else Cell(x.v)
    if norm(t) == 'std::string' and not isinstance(x, CStr):
        return CStr(text(x))
    if t.startswith('std::optional<') and not isinstance(x, Opt):
        o = ip.zero(t, True)
        return o.assign(x, moved)
    if isinstance(x, (Cell, JV)):
        return Cell(x.v) if isinstance(x, Cell) else x
    return move(ip, x) if moved else x.copy()


def move(ip, x):
    """A new object out of an object which is moved from."""
    if isinstance(x, Cell):
        return Cell(x.v)
    if isinstance(x, UPtr):
        y = UPtr(x.t, x.v)
        x.v = None
        return y
    if isinstance(x, JOut):
        y = JOut()
        y.assign(x, True)
        return y
    if isinstance(x, CStr):
        y = CStr(x.v)
        x.v = ''
        return y
    if isinstance(x, (Vec, Map)):
        y = type(x)(ip, x.t, x.e)
        x.e = []
        return y
    if isinstance(x, Struct):
        return Struct(x.rec, {k: move(ip, v) for k, v in x.f.items()})
    return x.copy()


class Pair(Obj):
    __slots__ = ('first', 'second')

    def __init__(self, a, b):
        self.first, self.second = a, b

    def copy(self):
        return Pair(self.first.copy(), self.second.copy())

    def field(self, name):
        return getattr(self, name)


class Map(Obj):
    """std::map with keys of strings, in the order of the insertion."""
    __slots__ = ('e', 't', 'ip')

    def __init__(self, ip, t, e=()):
        self.ip, self.t, self.e = ip, t, list(e)

    def copy(self):
        return Map(self.ip, self.t, [Pair(p.first.copy(), p.second.copy())
                                     for p in self.e])

    def assign(self, o, moved=False):
        if o is self:
            return self
        if not isinstance(o, Map):
            raise Unsupported('C++: assignment to a map')
        self.e = o.e if moved else o.copy().e
        if moved:
            o.e = []
        return self

    def find(self, key):
        key = text(key)
        for p in self.e:
            if truth(eq(p.first, key)):
                return p
        return None

    def index(self, key):
        p = self.find(key)
        if p is None:
            p = Pair(CStr(text(key)), self.ip.zero(self.t, True))
            self.e.append(p)
        return p.second

    def m_at(self, key):
        p = self.find(key)
        if p is None:
            raise CppExc('out_of_range', 'map::at')
        return p.second

    def m_count(self, key):
        return 0 if self.find(key) is None else 1

    def m_contains(self, key):
        return self.find(key) is not None

    def m_find(self, key):
        p = self.find(key)
        return SeqIter(self, None if p is None else self.e.index(p))

    def m_size(self):
        return len(self.e)

    def m_empty(self):
        return not self.e

    def m_clear(self):
        self.e = []

    def m_erase(self, key):
        p = self.find(key)
        if p is None:
            return 0
        self.e.remove(p)
        return 1

    def m_insert(self, pair, moved=False):
        if not isinstance(pair, Pair):
            raise Unsupported('C++: insert')
        return self.m_emplace(pair.first, pair.second, moved=moved)

    def m_emplace(self, *a, moved=False):
        if len(a) != 2:
            raise Unsupported('C++: emplace of a map')
        p = self.find(a[0])
        new = p is None
        if new:
            p = Pair(CStr(text(a[0])), take(self.ip, self.t, a[1], moved))
            self.e.append(p)
        return Pair(SeqIter(self, self.e.index(p)), Cell(new))

    def m_begin(self):
        return SeqIter(self, 0)

    def m_end(self):
        return SeqIter(self, None)

    m_cbegin, m_cend = m_begin, m_end

    def seq(self):
        return self.e

    def each(self):
        return iter(list(self.e))


class SeqIter(Obj):
    """Iterator of a container; the end has no index."""
    __slots__ = ('c', 'i')

    def __init__(self, c, i):
        self.c, self.i = c, i

    def copy(self):
        return SeqIter(self.c, self.i)

    def assign(self, o, moved=False):
        self.c, self.i = o.c, o.i
        return self

    def deref(self):
        s = self.c.seq()
        if self.i is None or self.i >= len(s):
            raise CppUB('dereference of an end')
        return s[self.i]

    arrow = deref

    def inc(self):
        self.i += 1
        return self

    def at_end(self):
        return self.i is None or self.i >= len(self.c.seq())

    def same(self, o):
        if self.at_end() or o.at_end():
            return self.at_end() and o.at_end()
        return self.i == o.i


class JIter(Obj):
    """Json::ValueConstIterator."""
    __slots__ = ('j', 'e', 'i')

    def __init__(self, j, e, i):
        self.j, self.e, self.i = j, e, i

    def copy(self):
        return JIter(self.j, self.e, self.i)

    def assign(self, o, moved=False):
        self.j, self.e, self.i = o.j, o.e, o.i
        return self

    def deref(self):
        if self.at_end():
            raise CppUB('dereference of an end')
        return self.e[self.i][1]

    arrow = deref

    def inc(self):
        self.i += 1
        return self

    def at_end(self):
        return self.e is None or self.i >= len(self.e)

    def same(self, o):
        if self.at_end() or o.at_end():
            return self.at_end() and o.at_end()
        return self.i == o.i

    def m_name(self):
        if self.at_end():
            raise CppUB('name of an end')
        k = self.e[self.i][0]
        return CStr('' if k is None else k)

    m_memberName = m_name

    def m_key(self):
        k = JOut()
        k.set('str', self.m_name().v)
        return k


class UPtr(Obj):
    __slots__ = ('v', 't')

    def __init__(self, t, v=None):
        self.t, self.v = t, v

    def copy(self):
        raise Unsupported('C++: copy of a unique_ptr')

    def assign(self, o, moved=False):
        if o is None or rv(o) is None:
            self.v = None
        else:
            v = o.v
            o.v = None
            self.v = v
        return self

    def m_get(self):
        return self.v

    def m_reset(self, v=None):
        self.v = rv(v)

    def m_release(self):
        v, self.v = self.v, None
        return v

    def deref(self):
        if self.v is None:
            raise CppUB('dereference of a null pointer')
        return self.v

    arrow = deref

    def as_bool(self):
        return self.v is not None


class NullOpt(Obj):
    def copy(self):
        return self


NULLOPT = NullOpt()


class Opt(Obj):
    __slots__ = ('v', 't', 'ip')

    def __init__(self, ip, t, v=None):
        self.ip, self.t, self.v = ip, t, v

    def copy(self):
        return Opt(self.ip, self.t, None if self.v is None else self.v.copy())

    def assign(self, o, moved=False):
        if isinstance(o, NullOpt):
            self.v = None
        elif isinstance(o, Opt):
            self.v = None if o.v is None else take(self.ip, self.t, o.v,
                                                   moved)
        elif self.v is not None and isinstance(self.v, Obj):
            self.v.assign(o, moved)
        else:
            self.v = take(self.ip, self.t, o, moved)
        return self

    def m_emplace(self, *a, moved=False):
        if not a:
            self.v = self.ip.zero(self.t, True)
        elif len(a) == 1:
            self.v = take(self.ip, self.t, a[0], moved)
        else:
            raise Unsupported('C++: emplace of several arguments')
        return self.v

    def m_reset(self):
        self.v = None

    def m_has_value(self):
        return self.v is not None

    m_is_initialized = m_has_value

    def m_value(self):
        if self.v is None:
            raise CppExc('bad_optional_access')
        return self.v

    def m_get(self):
        return self.deref()

    def deref(self):
        if self.v is None:
            raise CppUB('dereference of an empty optional')
        return self.v

    arrow = deref

    def as_bool(self):
        return self.v is not None


class Struct(Obj):
    """An object of a generated structure or class."""
    __slots__ = ('rec', 'f')

    def __init__(self, rec, f):
        self.rec, self.f = rec, f

    def copy(self):
        return Struct(self.rec, {k: v.copy() for k, v in self.f.items()})

    def assign(self, o, moved=False):
        if o is self:
            return self
        if not isinstance(o, Struct) or o.rec is not self.rec:
            raise Unsupported('C++: assignment to a structure')
        n = move(None, o) if moved else o.copy()
        for k, v in n.f.items():
            if isinstance(v, Cell):
                self.f[k].v = v.v
            else:
                self.f[k].assign(v, True)
        return self

    def field(self, name):
        return self.f[name]


class Plain(Obj):
    """A value object: dates, paths and durations."""
    __slots__ = ('v', )

    def __init__(self, v=None):
        self.v = v

    def copy(self):
        return type(self)(self.v)

    def assign(self, o, moved=False):
        if type(o) is not type(self):
            raise Unsupported('C++: {} = {}'.format(
                type(self).__name__, type(o).__name__))
        self.v = o.v
        return self


class Tm(Plain):
    """struct tm; ``v`` is the moment it holds."""
    __slots__ = ()


class DateVal(Plain):
    """A value of date.h."""
    __slots__ = ()

    def m_to_duration(self):
        return DateVal(self.v)


class Nanos(Plain):
    __slots__ = ()

    def m_count(self):
        raise Unsupported('C++: count of a duration')


class PathVal(Plain):
    __slots__ = ()

    def assign(self, o, moved=False):
        self.v = o.v if isinstance(o, PathVal) else text(o)
        return self

    def m_string(self):
        return CStr(self.v)

    m_generic_string = m_string

    def m_c_str(self):
        return self.v

    m_native = m_string


class TzPtr(Obj):
    """A time zone of the database."""
    __slots__ = ('z', )

    def __init__(self, z):
        self.z = z

    def m_name(self):
        return CStr(strs.opaque(self.z, ('tz', self)))


class Regex(Obj):
    __slots__ = ('p', )

    def __init__(self, p):
        self.p = p

    def copy(self):
        return Regex(self.p)


class Exc(Obj):
    __slots__ = ('cls', 'v')

    def __init__(self, cls, v):
        self.cls, self.v = cls, v

    def copy(self):
        return Exc(self.cls, self.v)

    def m_what(self):
        return self.v


class Stream(Obj):
    """stringstream, ostringstream and istringstream."""
    __slots__ = ('v', 'bad')

    def __init__(self, v=''):
        self.v = v
        self.bad = False

    def m_str(self):
        return CStr(self.v)

    def m_fail(self):
        return self.bad

    m_bad = m_fail

    def m_good(self):
        return not self.bad

    def as_bool(self):
        return not self.bad

    def op_not(self):
        return self.bad

    def put(self, x):
        x = rv(x)
        if isinstance(x, (CStr, str)) or strs.is_str(x):
            self.v = self.v + text(x)
        elif isinstance(x, JType):
            self.v = self.v + x.text()
        else:
            self.v = self.v + num_text(x)
        return self


class Manip(Obj):
    """Result of date::parse."""
    __slots__ = ('fmt', 'target')

    def __init__(self, fmt, target):
        self.fmt, self.target = fmt, target


def num_text(x):
    if isinstance(x, SymFloat):
        return strs.opaque(REALTXT(x.z))
    if isinstance(x, SymInt):
        return strs.opaque(NUMTXT(x.z))
    if isinstance(x, bool):
        return '1' if x else '0'
    if isinstance(x, float):
        return '{:f}'.format(x)
    if isinstance(x, int):
        return str(x)
    raise Unsupported('C++: text of {!r}'.format(x))


def eq(a, b):
    """Equality of texts: bool or SymBool."""
    c = strs.eq_cond(text(a), text(b))
    return c if isinstance(c, bool) else SymBool(c)


# ---------------------------------------------------------------------------
# JSON
# ---------------------------------------------------------------------------

# enumerators of Json::ValueType
JTYPES = {'nullValue': 0, 'intValue': 1, 'uintValue': 2, 'realValue': 3,
          'stringValue': 4, 'booleanValue': 5, 'arrayValue': 6,
          'objectValue': 7}
I63 = 2**63


class JType(Sym):
    """Json::ValueType of an input."""

    def __init__(self, j):
        self.j = j

    def eq(self, n):
        j = self.j
        if n == 1:
            c = z3.And(j.k == INT, j.i < I63)
        elif n == 2:
            c = z3.And(j.k == INT, j.i >= I63)
        else:
            c = j.is_kind({0: NULL, 3: FLOAT, 4: STR, 5: BOOL, 6: LIST,
                           7: DICT}[n])
        return SymBool(c)

    def text(self):
        return strs.opaque(z3.Int(self.j.name + '.type'))


class NullJ:
    """The null which absent members are."""
    name = 'null'
    k = z3.IntVal(NULL)
    i = z3.IntVal(0)
    f = z3.RealVal(0)
    b = z3.BoolVal(False)
    items_ = ()
    n = z3.IntVal(0)

    def __init__(self):
        self._kinds = {}

    def test(self, *ks):
        return NULL in ks

    def is_kind(self, *ks):
        return z3.BoolVal(NULL in ks)


NULLJ = NullJ()


def json_error(what):
    raise CppExc('Json::LogicError', what)


def cached(j, name, make):
    c = j._kinds.get(name)
    if c is None:
        c = j._kinds[name] = make()
    return c


def _whole(j, lo, hi):
    """Condition: a double which is an integer in [lo, hi)."""
    w = getattr(j, 'whole', None)
    if w is not None:
        return z3.And(j.k == FLOAT, w, j.i >= lo, j.i < hi)
    return z3.And(j.k == FLOAT, z3.IsInt(j.f), j.f < hi, j.f >= lo)


def j_int64(j):
    return SymBool(cached(j, 'int64', lambda: z3.Or(
        z3.And(j.k == INT, j.i < I63, j.i >= -I63),
        _whole(j, -I63, I63))))


def j_uint64(j):
    return SymBool(cached(j, 'uint64', lambda: z3.Or(
        z3.And(j.k == INT, j.i >= 0, j.i < 2 * I63),
        _whole(j, 0, 2 * I63))))


def j_narrow(bits, signed):
    lo, hi = (-2**(bits - 1), 2**(bits - 1) - 1) if signed else (
        0, 2**bits - 1)

    def f(j):
        return SymBool(cached(j, ('narrow', lo), lambda: z3.Or(
            z3.And(j.k == INT, j.i <= hi, j.i >= lo),
            _whole(j, lo, hi + 1))))
    return f


def j_integral(j):
    return SymBool(cached(j, 'integral', lambda: z3.Or(
        j.k == INT, _whole(j, -I63, 2 * I63))))


def kind_test(*ks):
    def f(j):
        return SymBool(j.is_kind(*ks))
    return f


def as_integer(lo, hi):
    def f(j):
        if j.test(INT, FLOAT):
            if getattr(j, 'whole', None) is not None:
                z, whole = j.i, z3.Or(j.k == INT, j.whole)
            else:
                z = cached(j, 'as_int', lambda: z3.If(
                    j.k == INT, j.i, z3.ToInt(j.f)))
                whole = z3.Or(j.k == INT, z3.IsInt(j.f))
            if engine().branch(z3.And(z >= lo, z <= hi)):
                # truncation towards zero
                if engine().branch(z3.Or(whole, z >= 0)):
                    return SymInt(z)
                return SymInt(z + 1)
            json_error('out of range')
        if j.test(NULL):
            return 0
        if j.test(BOOL):
            return SymInt(z3.If(j.b, z3.IntVal(1), z3.IntVal(0)))
        json_error('not convertible to int')
    return f


def as_double(j):
    if j.test(INT, FLOAT):
        return SymFloat(cached(j, 'as_double', lambda: z3.If(
            j.k == FLOAT, j.f, z3.ToReal(j.i))))
    if j.test(NULL):
        return 0.0
    if j.test(BOOL):
        return SymFloat(z3.If(j.b, z3.RealVal(1), z3.RealVal(0)))
    json_error('not convertible to double')


def as_bool(j):
    if j.test(BOOL):
        return SymBool(j.b)
    if j.test(NULL):
        return False
    if j.test(INT):
        return SymBool(j.i != 0)
    if j.test(FLOAT):
        return SymBool(j.f != 0)
    json_error('not convertible to bool')


def as_string(j):
    if j.test(STR):
        return CStr(j.sstr())
    if j.test(NULL):
        return CStr('')
    if j.test(BOOL):
        return CStr('true' if engine().branch(j.b) else 'false')
    if j.test(INT):
        return CStr(strs.opaque(NUMTXT(j.i)))
    if j.test(FLOAT):
        return CStr(strs.opaque(REALTXT(j.f)))
    json_error('not convertible to string')


def as_cstring(j):
    if j.test(STR):
        return j.sstr()
    json_error('asCString')


def j_size(j):
    if j.test(LIST):
        return SymInt(j.n)
    if j.test(DICT):
        return j.__sx_len__()
    return 0


def j_empty(j):
    if j.test(NULL, LIST, DICT):
        n = j_size(j)
        return SymBool(n.z == 0) if isinstance(n, Sym) else n == 0
    return False


def j_member(j, key):
    if j.test(NULL):
        return False
    if not j.test(DICT):
        json_error('isMember')
    return j.find(text(key)) is not None


def j_index(j, key):
    key = rv(key)
    if isinstance(key, (int, SymInt)):
        if j.test(NULL):
            return NULLJ
        if not j.test(LIST):
            json_error('operator[](index)')
        i = concretize_int(key) if isinstance(key, Sym) else key
        if i < 0:
            json_error('negative index')
        if i >= len(j.items_) or not engine().branch(j._more(i)):
            return NULLJ
        return j.items_[i]
    if j.test(NULL):
        return NULLJ
    if not j.test(DICT):
        json_error('operator[](key)')
    r = j.find(text(key))
    return NULLJ if r is None else r[1]


def j_get(j, key, default):
    x = j_index(j, key)
    return default if x is NULLJ else x


def j_pairs(j):
    if j.test(DICT):
        return list(j.live_entries())
    if j.test(LIST):
        return [(None, x) for x in j._iter_list()]
    return []


def j_begin(j):
    return JIter(j, j_pairs(j), 0)


def j_end(j):
    return JIter(j, None, 0)


def j_names(j):
    if j.test(NULL):
        return Vec(None, 'std::string')
    if not j.test(DICT):
        json_error('getMemberNames')
    return Vec(None, 'std::string', [CStr(k) for k, _ in j.live_entries()])


JVM = {
    'isNull': kind_test(NULL), 'isBool': kind_test(BOOL),
    'isString': kind_test(STR), 'isArray': kind_test(LIST),
    'isObject': kind_test(DICT), 'isDouble': kind_test(INT, FLOAT),
    'isNumeric': kind_test(INT, FLOAT), 'isInt64': j_int64,
    'isUInt64': j_uint64, 'isInt': j_narrow(32, True),
    'isUInt': j_narrow(32, False), 'isIntegral': j_integral,
    'asBool': as_bool, 'asDouble': as_double, 'asFloat': as_double,
    'asInt64': as_integer(-I63, I63 - 1),
    'asLargestInt': as_integer(-I63, I63 - 1),
    'asInt': as_integer(-2**31, 2**31 - 1),
    'asUInt': as_integer(0, 2**32 - 1), 'asUInt64': as_integer(0, 2**64 - 1),
    'asString': as_string, 'asCString': as_cstring, 'size': j_size,
    'empty': j_empty, 'isMember': j_member, 'begin': j_begin, 'end': j_end,
    'type': JType, 'getMemberNames': j_names, 'get': j_get,
}


class JOut(Obj):
    """A JSON value which is built."""
    __slots__ = ('k', 'v')

    def __init__(self, k='null', v=None):
        self.k, self.v = k, v

    def set(self, k, v):
        self.k, self.v = k, v
        return self

    def copy(self):
        j = JOut(self.k, self.v)
        if self.k == 'arr':
            j.v = [x.copy() for x in self.v]
        elif self.k == 'obj':
            j.v = [(k, x.copy()) for k, x in self.v]
        return j

    def assign(self, o, moved=False):
        if o is self:
            return self
        if not isinstance(o, JOut):
            raise Unsupported('C++: assignment of {!r} to a JSON value'.format(
                o))
        n = o if moved else o.copy()
        self.k, self.v = n.k, n.v
        if moved:
            o.k, o.v = 'null', None
        return self

    def index(self, key):
        key = rv(key)
        if isinstance(key, (int, SymInt)):
            if self.k == 'null':
                self.set('arr', [])
            if self.k != 'arr':
                json_error('operator[](index)')
            i = concretize_int(key) if isinstance(key, Sym) else key
            while len(self.v) <= i:
                self.v.append(JOut())
            return self.v[i]
        if self.k == 'null':
            self.set('obj', [])
        if self.k != 'obj':
            json_error('operator[](key)')
        t = text(key)
        for k, x in self.v:
            if truth(eq(k, t)):
                return x
        x = JOut()
        self.v.append((t, x))
        return x

    def m_append(self, x, moved=False):
        if self.k == 'null':
            self.set('arr', [])
        if self.k != 'arr':
            json_error('append')
        self.v.append(x.copy())
        return self.v[-1]

    def m_resize(self, n):
        n = rv(n)
        if self.k == 'null':
            self.set('arr', [])
        if self.k != 'arr':
            json_error('resize')
        del self.v[n:]
        while len(self.v) < n:
            self.v.append(JOut())

    def m_clear(self):
        if self.k in ('arr', 'obj'):
            self.v = []

    def m_isNull(self):
        return self.k == 'null'

    def m_isObject(self):
        return self.k == 'obj'

    def m_isArray(self):
        return self.k == 'arr'

    def m_empty(self):
        return self.k == 'null' or self.k in ('arr', 'obj') and not self.v

    def m_size(self):
        return len(self.v) if self.k in ('arr', 'obj') else 0

    def m_asString(self):
        if self.k == 'str':
            return CStr(self.v)
        raise Unsupported('C++: asString of a built value')


def json_value(a, ctor):
    """Json::Value(...) with the parameter type of its constructor."""
    if not a:
        return JOut()
    x = rv(a[0])
    if isinstance(x, (JOut, )):
        return x.copy()
    if isinstance(x, JV):
        raise Unsupported('C++: copy of an input')
    p = ctor
    if 'ValueType' in p:
        j = JOut()
        n = x.n if isinstance(x, Enum) else x
        return j.set({0: 'null', 1: 'int', 2: 'int', 3: 'real', 4: 'str',
                      5: 'bool', 6: 'arr', 7: 'obj'}[n],
                     {0: None, 1: 0, 2: 0, 3: 0.0, 4: '', 5: False, 6: [],
                      7: []}[n])
    if 'bool' in p:
        return JOut('bool', x)
    if 'double' in p or 'float' in p:
        return JOut('real', x)
    if 'char' in p or 'string' in p:
        return JOut('str', text(x))
    if 'int' in p or 'long' in p or 'unsigned' in p:
        return JOut('int', x)
    raise Unsupported('C++: Json::Value({})'.format(p))


class Enum:
    __slots__ = ('name', 'n')

    def __init__(self, name, n):
        self.name, self.n = name, n


# ---------------------------------------------------------------------------
# dates and times
# ---------------------------------------------------------------------------

WIDEST = {'a': 3, 'A': 9, 'b': 3, 'B': 9, 'd': 2, 'e': 2, 'm': 2, 'y': 2,
          'Y': 4, 'H': 2, 'I': 2, 'l': 2, 'M': 2, 'S': 2, 'p': 2, 'P': 2,
          'z': 5, 'Z': 6, 'f': 6, '%': 1}


def widest(fmt):
    n = i = 0
    while i < len(fmt):
        if fmt[i] == '%' and i + 1 < len(fmt):
            n += WIDEST.get(fmt[i + 1], 30)
            i += 2
        else:
            n += 1
            i += 1
    return n


def strptime(s, fmt, tm):
    s, fmt = text(s), text(fmt)
    if not isinstance(fmt, str):
        raise Unsupported('C++: symbolic date format')
    t = strs.term_of(s)
    if engine().branch(pyexec.date_ok(fmt)(t)):
        tm.v = pyexec.Moment(pyexec.parsed(fmt)(t))
        return CharPtr(0, '')
    if engine().branch(prefix_ok(fmt)(t)):
        tm.v = None
        return CharPtr(ord('x'))
    return None


def long_ok(fmt, n=None):
    """The text of a moment does not fit four times the format."""
    if n is None:
        n = 4 * len(fmt)
    return pyexec.pred('longer[{}]{}'.format(fmt, n))


def strftime(buf, n, fmt, tm):
    """Writes into the string which the first argument points at."""
    fmt = text(fmt)
    if not isinstance(buf, StrElem) or buf.i != 0:
        raise Unsupported('C++: buffer of strftime')
    if tm.v is None:
        raise Unsupported('C++: strftime of an unset time')
    n = rv(n)
    if widest(fmt) + 1 > n:
        # only the widest texts do not fit
        if engine().branch(long_ok(fmt, n)(tm.v.z)):
            return 0
    buf.s.pad = n
    buf.s.v = strs.opaque(pyexec.printed(fmt)(tm.v.z), ('strftime', tm.v))
    return WRITTEN


class _Written(Sym):
    """Length of the text which strftime wrote."""

    def __eq__(self, o):
        if o == 0:
            return False
        raise Unsupported('C++: length of a printed time')

    def __ne__(self, o):
        return not self.__eq__(o)

    def __gt__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return 5


WRITTEN = _Written()


def date_parse(fmt, target):
    fmt = text(fmt)
    if not isinstance(fmt, str):
        raise Unsupported('C++: symbolic date format')
    if not isinstance(target, (DateVal, )):
        raise Unsupported('C++: date::parse into {!r}'.format(target))
    return Manip(fmt, target)


def read(iss, m):
    if not isinstance(m, Manip):
        raise Unsupported('C++: operator>>')
    if iss.bad:
        return iss
    t = strs.term_of(iss.v)
    if engine().branch(z3.Or(pyexec.date_ok(m.fmt)(t),
                             prefix_ok(m.fmt)(t))):
        m.target.v = pyexec.Moment(pyexec.parsed(m.fmt)(t))
    else:
        iss.bad = True
    return iss


def date_format(fmt, v):
    fmt = text(fmt)
    if v.v is None:
        raise Unsupported('C++: format of an unset date')
    return CStr(strs.opaque(pyexec.printed(fmt)(v.v.z), ('strftime', v)))


def locate_zone(s):
    t = strs.term_of(text(s))
    if engine().branch(pyexec.tz_ok()(t)):
        return TzPtr(t)
    raise CppExc('runtime_error', 'not found in timezone database')


def regex_match(s, *rest):
    r = rest[-1]
    if len(rest) != 1 or not isinstance(r.p, str):
        raise Unsupported('C++: regex_match')
    return SymBool(pyexec.pat_ok(r.p)(strs.term_of(text(s))))


# ---------------------------------------------------------------------------
# durations
# ---------------------------------------------------------------------------


def dur_from(s, error):
    t = strs.term_of(text(s))
    if engine().branch(pyexec.dur_ok()(t)):
        return Nanos(pyexec.Dur(pyexec.PARSE_DUR(t)))
    error.v = 'failed to match the duration'
    return Nanos()


def dur_to(d):
    if isinstance(d.v, pyexec.Dur):
        return CStr(strs.opaque(pyexec.PRINT_DUR(d.v.z), ('dur', d.v)))
    raise Unsupported('a duration which was not parsed')


def norm(t):
    t = t.strip()
    changed = True
    while changed:
        changed = False
        for p in ('const ', 'struct ', 'class ', 'constexpr '):
            if t.startswith(p):
                t = t[len(p):].strip()
                changed = True
        if t.endswith('*const'):
            t = t[:-5]
            changed = True
        for p in (' const', '&'):
            if t.endswith(p):
                t = t[:-len(p)].strip()
                changed = True
    return t

"""Runtime of the instrumented code: operations on possibly symbolic values."""
import builtins
import collections
import functools
import itertools
import operator
import re
import types

import z3

from sx import strs
from sx.core import (Sym, SymBool, SymFloat, SymInt, Unsupported, engine,
                     concretize_int, sym_trunc, to_z, wrap, zb)
from sx.strs import SymStr, SymMatch

_sentinel = object()

# float(int) may overflow; off where the inputs are bounded by assumption
HUGE_INTS = False


def is_sym(x):
    return isinstance(x, Sym)


def any_sym(args):
    for a in args:
        if isinstance(a, Sym):
            return True
    return False


def deep_sym(x):
    """Symbolic value directly or as an element of a plain container."""
    if isinstance(x, Sym):
        return True
    t = type(x)
    if t in (list, tuple, set, frozenset):
        return any(isinstance(y, Sym) for y in x)
    if t in (dict, collections.OrderedDict):
        return any(isinstance(y, Sym) for y in x.values()) or any(
            isinstance(y, Sym) for y in x)
    return False


def strlike(x):
    """Symbolic string behind a value (JSON values are narrowed)."""
    f = getattr(x, '__sx_as_str__', None)
    return f() if f is not None else x


# ---------------------------------------------------------------------------
# comparisons, subscripts, iteration
# ---------------------------------------------------------------------------


def _contains(item, cont):
    if isinstance(item, Sym):
        item = strlike(item)
    t = type(cont)
    if isinstance(cont, Sym):
        if isinstance(cont, SymStr):
            if not strs.is_str(item):
                raise TypeError("'in <string>' requires string as left operand")
            return cont.find(item) != -1
        return cont.__sx_contains__(item)
    if t is str and isinstance(item, SymStr):
        if len(item.items) == 1 and type(item.items[0]) is strs.Ch:
            return bool_(strs.in_ranges(item.items[0],
                                        [(ord(c), ord(c)) for c in set(cont)]))
        return SymStr(cont).find(item) != -1
    if isinstance(item, Sym) or _has_sym_keys(cont):
        xs = _plain_iter(cont)
        if isinstance(item, SymStr) and all(type(x) is str for x in xs):
            return bool_(strs._disj([strs.eq_cond(item, x) for x in xs]))
        for x in xs:
            if eq(x, item):
                return True
        return False
    return item in cont


def bool_(c):
    return c if isinstance(c, bool) else engine().branch(c)


def _has_sym_keys(cont):
    t = type(cont)
    if t in (dict, collections.OrderedDict, set, frozenset, list, tuple):
        if len(cont) < 400:
            for k in cont:
                if isinstance(k, Sym):
                    return True
    elif isinstance(cont, collections.abc.Set) or isinstance(
            cont, (collections.abc.KeysView, collections.abc.ValuesView)):
        for k in cont:
            if isinstance(k, Sym):
                return True
    return False


def _plain_iter(c):
    if type(c) in (set, frozenset):
        # symbolic elements are hashed by identity: fix the order
        return sorted(c, key=_order_key)
    return list(c)


def _order_key(x):
    if isinstance(x, SymStr):
        return 1, [c if isinstance(c, str) else str(c.z) for c in x.items]
    return 0, [str(type(x)), str(x)]


def setlit(elts):
    if any(isinstance(x, Sym) for x in elts):
        return SxSet(elts)
    return set(elts)


def eq(a, b):
    """Truth of ``a == b`` with forks."""
    return bool(cmp('==', a, b))


def cmp(op, a, b):
    if op == 'is' or op == 'is not':
        if b is None or b is True or b is False:
            f = getattr(a, '__sx_is__', None)
            if f is not None:
                r = f(b)
                if op == 'is':
                    return r
                return (not r) if isinstance(r, bool) else SymBool(
                    z3.Not(r.z))
        if isinstance(a, SymBool) and isinstance(b, bool):
            r = a == b
            return r if op == 'is' else SymBool(z3.Not(r.z))
        return (a is b) if op == 'is' else (a is not b)
    if op == 'in':
        return _contains(a, b)
    if op == 'not in':
        r = _contains(a, b)
        return not r
    if op == '==' or op == '!=':
        if a is b and isinstance(a, Sym):
            return op == '=='
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (
                deep_sym(a) or deep_sym(b)):
            r = type(a) is type(b) and len(a) == len(b) and all(
                eq(x, y) for x, y in zip(a, b))
            return r if op == '==' else not r
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a, b = b, a
        if op == '==':
            return a == b
        return a != b
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    return a >= b


def cmpchain(ops, vals):
    r = True
    for i, op in enumerate(ops):
        r = cmp(op, vals[i], vals[i + 1])
        if i + 1 < len(ops) and not r:
            return r
    return r


def _dict_find(d, key):
    """The key object of the dictionary which equals ``key``."""
    key = strlike(key)
    if not isinstance(key, Sym) and not _has_sym_keys(d):
        return key if key in d else _sentinel
    for k in list(d):
        if k is key:
            return k
    for k in list(d):
        if eq(k, key):
            return k
    return _sentinel


_DICTS = (dict, collections.OrderedDict)


def getitem(a, i):
    t = type(a)
    if t in _DICTS:
        if isinstance(i, Sym) or _has_sym_keys(a):
            k = _dict_find(a, i)
            if k is _sentinel:
                raise KeyError(i)
            return a[k]
        return a[i]
    if isinstance(i, SymInt) and t in (list, tuple, str):
        return a[concretize_int(i)]
    if isinstance(i, slice) and (isinstance(i.start, SymInt) or isinstance(
            i.stop, SymInt)):
        i = slice(
            concretize_int(i.start) if i.start is not None else None,
            concretize_int(i.stop) if i.stop is not None else None, i.step)
    return a[i]


def setitem(a, i, v):
    if type(a) in _DICTS:
        if isinstance(i, Sym) or _has_sym_keys(a):
            i = strlike(i)
            k = _dict_find(a, i)
            a[i if k is _sentinel else k] = v
            return
    a[i] = v


def iter_(x):
    t = type(x)
    if (t is set or t is frozenset) and _has_sym_keys(x):
        return _plain_iter(x)
    return x


def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            val, conv, spec = p
            if conv:
                val = strs._conv(val, conv)
            out.append(strs.fmt_spec(val, spec))
    return strs.join('', out)


def mod(a, b):
    if isinstance(a, str):
        if isinstance(b, tuple) and any(isinstance(x, Sym) for x in b) or \
                isinstance(b, Sym) or isinstance(b, dict) and deep_sym(b):
            if isinstance(b, tuple):
                b = tuple(strlike(x) if hasattr(x, '__sx_str__') else x
                          for x in b)
            return strs.fmt_percent(a, b)
    return a % b


# ---------------------------------------------------------------------------
# calls
# ---------------------------------------------------------------------------

HANDLERS = {}
METHODS = {}


def handler(*fs):
    def deco(h):
        for f in fs:
            HANDLERS[f] = h
        return h
    return deco


def method(t, *names):
    def deco(h):
        for tt in (t if isinstance(t, tuple) else (t, )):
            for n in names:
                METHODS[(tt, n)] = h
        return h
    return deco


_BUILTIN_TYPES = (types.BuiltinFunctionType, types.MethodDescriptorType,
                  types.WrapperDescriptorType, types.MethodWrapperType,
                  types.BuiltinMethodType, type(re.compile('').match))


def call(f, /, *a, **k):
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if type(f) in _BUILTIN_TYPES:
        o = getattr(f, '__self__', None)
        if o is not None and not isinstance(o, _SKIP):
            # a method which was taken before it is called
            return callm(o, f.__name__, *a, **k)
        if any_str_sym(a) and f not in _THROUGH:
            a = tuple(concretize(x) for x in a)
    return f(*a, **k)


# (these only pass their arguments on)
_THROUGH = {iter, next, sum, functools.reduce, id, callable, operator.add,
            operator.concat, operator.not_, operator.is_, operator.is_not,
            operator.truth}
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'contains'):
    _op = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==',
           'ne': '!=', 'contains': None}[_n]
    HANDLERS[getattr(operator, _n)] = (
        (lambda a, b: _contains(b, a)) if _op is None else
        (lambda a, b, _op=_op: cmp(_op, a, b)))
HANDLERS[operator.getitem] = getitem
HANDLERS[operator.mod] = lambda a, b: mod(a, b)


def any_str_sym(a):
    for x in a:
        if isinstance(x, SymStr):
            return True
    return False


def concretize(x):
    """Last resort: fix a symbolic string to one value of the path."""
    if not isinstance(x, SymStr):
        return x
    e = engine()
    if strs.has_atom(x):
        raise Unsupported('native call on an opaque string')
    out = []
    for c in x.items:
        if isinstance(c, str):
            out.append(c)
        else:
            out.append(chr(concretize_int(SymInt(c.z), limit=4096)))
    e.notes.add('a string was enumerated for a native call')
    return ''.join(out)


_SKIP = (types.ModuleType, )


def callm(o, name, /, *a, **k):
    h = METHODS.get((type(o), name))
    if h is not None:
        return h(o, *a, **k)
    f = getattr(o, name)
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if type(f) in _BUILTIN_TYPES and any_str_sym(a) and not isinstance(
            o, (list, dict, set)) and name != '__init__':
        a = tuple(concretize(x) for x in a)
    return f(*a, **k)


# -- builtins ----------------------------------------------------------------


@handler(isinstance)
def _isinstance(x, t):
    if isinstance(x, Sym):
        f = getattr(x, '__sx_isinstance__', None)
        if f is not None:
            return f(t)
        if isinstance(x, SymStr):
            return _in_types(str, t)
        if isinstance(x, SymBool):
            return _in_types(bool, t)
        if isinstance(x, SymMatch):
            return _in_types(re.Match, t)
    return isinstance(x, t)


def _in_types(base, t):
    if isinstance(t, tuple):
        return any(_in_types(base, x) for x in t)
    if isinstance(t, types.UnionType):
        return any(_in_types(base, x) for x in t.__args__)
    return issubclass(base, t)


@handler(type)
def _type(*a):
    if len(a) == 1:
        f = getattr(a[0], '__sx_type__', None)
        if f is not None:
            return f()
        if isinstance(a[0], SymStr):
            return str
        if isinstance(a[0], SymInt):
            return int
        if isinstance(a[0], SymFloat):
            return float
        if isinstance(a[0], SymBool):
            return bool
    return type(*a)


@handler(len)
def _len(x):
    if isinstance(x, Sym):
        f = getattr(x, '__sx_len__', None)
        if f is not None:
            return f()
        if strs.has_atom(x):
            z = strs.STRLEN(strs.term_of(x))
            engine().assume(z3.And(z >= 0,
                                   (z == 0) == (strs.term_of(x) ==
                                                strs.intern(''))))
            return SymInt(z)
    return len(x)


@handler(str)
def _str(*a, **k):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymStr):
            return x
        f = getattr(x, '__sx_str__', None)
        if f is not None:
            return f()
        if isinstance(x, Exception) and len(x.args) == 1 and isinstance(
                x.args[0], SymStr):
            return x.args[0]
        r = type(x).__str__ if hasattr(type(x), '__str__') else None
        if r is not None and isinstance(r, types.FunctionType):
            return x.__str__()
    return str(*a, **k)


@handler(repr)
def _repr(x):
    return strs.repr_any(x)


@handler(int)
def _int(*a, **k):
    if a and isinstance(a[0], Sym):
        x = a[0]
        f = getattr(x, '__sx_int__', None)
        if f is not None:
            return f()
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymFloat):
            return sym_trunc(x)
        if isinstance(x, SymBool):
            return wrap(z3.If(x.z, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(x, SymStr):
            if len(a) > 1 or k:
                raise Unsupported('int() with a base')
            return int_of_str(x)
    return int(*a, **k)


def int_of_str(s):
    s = s.strip()
    if isinstance(s, str):
        return int(s)
    it = list(s.items)
    sign = 1
    if it and bool_(strs._disj([strs.ch_eq(it[0], '-'),
                                strs.ch_eq(it[0], '+')])):
        if bool_(strs.ch_eq(it[0], '-')):
            sign = -1
        it = it[1:]
    if not it:
        raise ValueError('invalid literal for int()')
    known = strs.number_of(strs.mk(it), 10)
    if known is not None:
        return known * sign
    z = z3.IntVal(0)
    for i, c in enumerate(it):
        if bool_(strs.in_ranges(c, [(48, 57)])):
            z = z * 10 + (strs._code(c) - 48)
        elif bool_(strs.ch_eq(c, '_')) and 0 < i < len(it) - 1:
            raise Unsupported('int() of a string with underscores')
        elif bool_(strs.pred_cond(c, str.isdecimal)):
            raise Unsupported('int() of non-ASCII digits')
        else:
            raise ValueError('invalid literal for int()')
    return wrap(z * sign)


@handler(float)
def _float(*a):
    if a and isinstance(a[0], Sym):
        x = a[0]
        f = getattr(x, '__sx_float__', None)
        if f is not None:
            return f()
        if isinstance(x, SymInt):
            if HUGE_INTS:
                big = z3.IntVal(2**1024 - 2**970)
                if bool_(z3.Or(x.z >= big, x.z <= -big)):
                    raise OverflowError('int too large to convert to float')
            return SymFloat(z3.ToReal(x.z))
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, SymStr):
            return float_of_str(x)
    return float(*a)


def float_of_str(s):
    """Decimal numerals ``digits[.digits]`` (exact value as a real)."""
    s = s.strip()
    if isinstance(s, str):
        return float(s)
    it = list(s.items)
    sign = 1
    if it and bool_(strs._disj([strs.ch_eq(it[0], '-'),
                                strs.ch_eq(it[0], '+')])):
        if bool_(strs.ch_eq(it[0], '-')):
            sign = -1
        it = it[1:]
    known = strs.number_of(strs.mk(it), 10)
    if known is not None:
        return _float(known * sign)
    num = z3.IntVal(0)
    scale = 1
    seen = False
    n = 0
    for c in it:
        if bool_(strs.in_ranges(c, [(48, 57)])):
            num = num * 10 + (strs._code(c) - 48)
            n += 1
            if seen:
                scale *= 10
        elif not seen and bool_(strs.ch_eq(c, '.')):
            seen = True
        else:
            raise Unsupported('float() of a symbolic string')
    if n == 0:
        raise ValueError('could not convert string to float')
    return SymFloat(z3.ToReal(num * sign) / scale)


@handler(bool)
def _bool(*a):
    if a and isinstance(a[0], Sym):
        return bool(a[0])
    return bool(*a)


@handler(abs)
def _abs(x):
    return abs(x)


@handler(hash)
def _hash(x):
    return hash(x)


@handler(ord)
def _ord(x):
    if isinstance(x, SymStr):
        if len(x.items) != 1:
            raise TypeError('ord() expected a character')
        return SymInt(x.items[0].z)
    return ord(x)


@handler(hex)
def _hex(x):
    return '0x' + strs.digits(x.z, 0, 'x') if isinstance(x, SymInt) else hex(x)


@handler(oct)
def _oct(x):
    return '0o' + strs.digits(x.z, 0, 'o') if isinstance(x, SymInt) else oct(x)


@handler(bin)
def _bin(x):
    if isinstance(x, SymInt):
        raise Unsupported('binary digits of a number')
    return bin(x)


@handler(chr)
def _chr(x):
    if isinstance(x, SymInt):
        return strs.mk((strs.Ch(x.z), ))
    return chr(x)


@handler(enumerate)
def _enumerate(it, start=0):
    return zip(itertools.count(start), it)


@handler(map)
def _map(f, *its):
    return (call(f, *xs) for xs in zip(*[iter_(it) for it in its]))


@handler(range)
def _range(*a):
    if any_sym(a):
        a = list(a)
        if len(a) == 1:
            a = [0, a[0]]
        if len(a) == 2:
            return _sym_range(a[0], a[1])
        a = [concretize_int(x) for x in a]
    return range(*a)


def _sym_range(lo, hi):
    i = lo
    n = 0
    while cmp('<', i, hi):
        yield i
        i = i + 1
        n += 1
        if n > 4096:
            raise Unsupported('range too long')


@handler(sorted)
def _sorted(it, key=None, reverse=False):
    lst = _plain_iter(it)
    if deep_sym(lst) or key is not None:
        ks = [key(x) if key is not None else x for x in lst]
        if deep_sym(ks) or any(deep_sym(x) for x in ks):
            # insertion sort with forks (stable)
            out = []
            for kx, x in zip(ks, lst):
                j = len(out)
                while j > 0 and bool(cmp('<', kx, out[j - 1][0])):
                    j -= 1
                out.insert(j, (kx, x))
            r = [x for _, x in out]
            return r[::-1] if reverse else r
    return sorted(lst, key=key, reverse=reverse)


@handler(min)
def _min(*a, **k):
    return _minmax(min, '<', a, k)


@handler(max)
def _max(*a, **k):
    return _minmax(max, '>', a, k)


def _minmax(f, op, a, k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not deep_sym(xs):
        return f(*a, **k) if len(a) > 1 else f(xs, **k)
    best = xs[0]
    for x in xs[1:]:
        if cmp(op, x, best):
            best = x
    return best


@handler(any)
def _any(it):
    for x in it:
        if x:
            return True
    return False


@handler(all)
def _all(it):
    for x in it:
        if not x:
            return False
    return True


class SxSet(collections.abc.MutableSet):
    """Set whose members may be symbolic (membership by forked equality)."""

    def __init__(self, it=()):
        self._l = []
        for x in _plain_iter(it):
            self.add(x)

    def __contains__(self, x):
        return any(eq(y, x) for y in self._l)

    def __iter__(self):
        return iter(list(self._l))

    def __len__(self):
        return len(self._l)

    def add(self, x):
        if not self.__contains__(x):
            self._l.append(x)

    def discard(self, x):
        for i, y in enumerate(self._l):
            if eq(y, x):
                del self._l[i]
                return

    def update(self, *its):
        for it in its:
            for x in _plain_iter(it):
                self.add(x)

    def union(self, *its):
        r = SxSet(self._l)
        r.update(*its)
        return r

    def difference(self, o):
        o = SxSet(o)
        return SxSet(x for x in self._l if x not in o)

    def intersection(self, o):
        o = SxSet(o)
        return SxSet(x for x in self._l if x in o)

    def issubset(self, o):
        o = SxSet(o)
        return all(x in o for x in self._l)

    def copy(self):
        return SxSet(self._l)

    @classmethod
    def _from_iterable(cls, it):
        return cls(it)


# instrumented code sees this class under the name ``set`` when needed
@handler(set)
def _set(*a):
    if a:
        xs = _plain_iter(a[0])
        if deep_sym(xs) or any(deep_sym(x) for x in xs):
            return SxSet(xs)
        return set(xs)
    return set()


@method(set, 'add')
def _set_add(s, x):
    if isinstance(x, Sym) or _has_sym_keys(s):
        x = strlike(x)
        for y in _plain_iter(s):
            if eq(y, x):
                return
    s.add(x)


@method(set, 'discard', 'remove')
def _set_discard(s, x):
    if isinstance(x, Sym) or _has_sym_keys(s):
        for y in _plain_iter(s):
            if eq(y, x):
                s.discard(y)
                return
        return
    s.discard(x)


@method(set, 'update')
def _set_update(s, *its):
    for it in its:
        for x in _plain_iter(it):
            _set_add(s, x)


@method(set, 'union')
def _set_union(s, *its):
    r = SxSet(_plain_iter(s))
    r.update(*its)
    return r


@method(set, 'difference')
def _set_difference(s, *its):
    r = SxSet(_plain_iter(s))
    for it in its:
        r = r.difference(it)
    return r


@handler(frozenset)
def _frozenset(*a):
    return frozenset(*a)


@handler(list)
def _list(*a):
    return _plain_iter(*a) if a else []


@handler(getattr)
def _getattr(o, n, *d):
    if isinstance(n, SymStr):
        n = concretize(n)
    return getattr(o, n, *d)


@handler(print)
def _print(*a, **k):
    if getattr(k.get('file'), 'sx_sink', False):
        texts = [_str(x) for x in a]
        sep, end = k.get('sep'), k.get('end')
        k['file'].write(strs.join(' ' if sep is None else sep, texts))
        k['file'].write('\n' if end is None else end)
        return
    print(*[strs.to_str(x) if not isinstance(x, Sym) else repr(x) for x in a],
          **k)


@handler(dict)
def _dict(*a, **k):
    d = {}
    if a:
        src = a[0]
        pairs = src.items() if hasattr(src, 'items') else src
        for kk, v in pairs:
            setitem(d, kk, v)
    d.update(k)
    return d


@handler(collections.OrderedDict)
def _odict(*a, **k):
    d = collections.OrderedDict()
    if a:
        src = a[0]
        pairs = src.items() if hasattr(src, 'items') else src
        for kk, v in pairs:
            setitem(d, kk, v)
    d.update(k)
    return d


# -- methods of plain containers ---------------------------------------------


@method(_DICTS, 'get')
def _dget(d, key, default=None):
    if isinstance(key, Sym) or _has_sym_keys(d):
        k = _dict_find(d, key)
        return default if k is _sentinel else d[k]
    return d.get(key, default)


@method(_DICTS, 'setdefault')
def _dsetdefault(d, key, default=None):
    key = strlike(key)
    k = _dict_find(d, key)
    if k is _sentinel:
        d[key] = default
        return default
    return d[k]


@method(_DICTS, 'pop')
def _dpop(d, key, *default):
    k = _dict_find(d, key)
    if k is _sentinel:
        if default:
            return default[0]
        raise KeyError(key)
    return d.pop(k)


@method(_DICTS, 'update')
def _dupdate(d, *a, **k):
    if a:
        src = a[0]
        for kk, v in (src.items() if hasattr(src, 'items') else src):
            setitem(d, kk, v)
    d.update(k)


@method(list, 'count')
def _lcount(lst, x):
    if isinstance(x, Sym) or deep_sym(lst):
        return sum(1 for y in lst if eq(y, x))
    return lst.count(x)


@method(list, 'index')
def _lindex(lst, x, *a):
    if isinstance(x, Sym) or deep_sym(lst):
        for i, y in enumerate(lst):
            if eq(y, x):
                return i
        raise ValueError('not in list')
    return lst.index(x, *a)


@method(list, 'remove')
def _lremove(lst, x):
    i = _lindex(lst, x)
    del lst[i]


@method(list, 'sort')
def _lsort(lst, key=None, reverse=False):
    lst[:] = _sorted(lst, key=key, reverse=reverse)


# -- methods of str ----------------------------------------------------------


@method(str, 'join')
def _sjoin(s, it):
    lst = [strlike(x) if isinstance(x, Sym) else x for x in it]
    for x in lst:
        if isinstance(x, SymStr):
            return strs.join(s, lst)
    return s.join(lst)


@method(str, 'format')
def _sformat(s, *a, **k):
    for x in itertools.chain(a, k.values()):
        if isinstance(x, Sym) or deep_sym(x) or hasattr(x, '__sx_str__') or \
                isinstance(x, Exception):
            return strs.fmt_braces(
                s, [_exc_str(x) for x in a],
                {n: _exc_str(x) for n, x in k.items()})
    return s.format(*a, **k)


def _exc_str(x):
    if isinstance(x, Exception):
        return _str(x)
    return x


def _str_method(name):
    def h(s, *a, **k):
        if any(isinstance(x, SymStr) or type(x) is tuple and deep_sym(x)
               for x in a):
            return getattr(SymStr(s), name)(*a, **k)
        a = tuple(strlike(x) if isinstance(x, Sym) else x for x in a)
        if any(isinstance(x, SymStr) for x in a):
            return getattr(SymStr(s), name)(*a, **k)
        return getattr(s, name)(*a, **k)
    METHODS[(str, name)] = h


for _n in ('replace', 'split', 'rsplit', 'startswith', 'endswith', 'find',
           'rfind', 'index', 'count', 'strip', 'lstrip', 'rstrip',
           'partition', 'rpartition', 'removeprefix', 'removesuffix',
           'translate'):
    _str_method(_n)


# unbound calls such as str.lower(x)
def _unbound(name):
    f = getattr(str, name)

    def h(s, *a, **k):
        if isinstance(s, SymStr):
            return getattr(s, name)(*a, **k)
        return callm(s, name, *a, **k)
    HANDLERS[f] = h


for _n in ('lower', 'upper', 'strip', 'capitalize', 'title', 'replace',
           'split', 'join', 'format', 'startswith', 'endswith', 'isdigit',
           'isupper', 'islower', 'isspace', 'isalnum', 'isalpha'):
    _unbound(_n)


# -- regular expressions -----------------------------------------------------


class OpaqueRegex:
    """Hook: decides matches of opaque strings (set by the harness)."""
    decide = None


def _re_on(pat, s, kind):
    s = strlike(s)
    if strs.has_atom(s):
        if OpaqueRegex.decide is None:
            raise Unsupported('regular expression on an opaque string')
        return OpaqueRegex.decide(pat, s, kind)
    return {'match': strs.re_match, 'fullmatch': strs.re_fullmatch,
            'search': strs.re_search}[kind](pat, s)


def _re_fn(kind):
    def pm(p, s, *a):
        if isinstance(s, Sym):
            if a:
                s2 = strlike(s)
                return {'match': strs.re_match,
                        'fullmatch': strs.re_fullmatch,
                        'search': strs.re_search}[kind](p, s2, *a)
            return _re_on(p, s, kind)
        return getattr(p, kind)(s, *a)
    METHODS[(re.Pattern, kind)] = pm

    def fm(pattern, string, flags=0):
        if isinstance(pattern, SymStr):
            pattern = concretize(pattern)
        p = pattern if isinstance(pattern, re.Pattern) else re.compile(
            pattern, flags)
        return pm(p, string)
    HANDLERS[getattr(re, kind)] = fm


for _n in ('match', 'fullmatch', 'search'):
    _re_fn(_n)


@method(re.Pattern, 'sub')
def _psub(p, repl, s, count=0):
    if isinstance(s, SymStr):
        return strs.re_sub(p, repl, s, count)
    if isinstance(repl, SymStr):
        raise Unsupported('symbolic replacement')
    if callable(repl):
        return strs.re_sub(p, repl, SymStr(s), count)
    return p.sub(repl, s, count)


@method(re.Pattern, 'split')
def _psplit(p, s, maxsplit=0):
    if isinstance(s, SymStr):
        return strs.re_split(p, s, maxsplit)
    return p.split(s, maxsplit)


@method(re.Pattern, 'findall')
def _pfindall(p, s):
    if isinstance(s, SymStr):
        return strs.re_findall(p, s)
    return p.findall(s)


@method(re.Pattern, 'finditer')
def _pfinditer(p, s):
    if isinstance(s, SymStr):
        return strs.re_finditer(p, s)
    return p.finditer(s)


def _pattern(p, flags):
    if isinstance(p, SymStr):
        p = concretize(p)
    return re.compile(p, flags) if isinstance(p, str) else p


@handler(re.sub)
def _resub(p, repl, s, count=0, flags=0):
    return _psub(_pattern(p, flags), repl, s,
                 count)


@handler(re.split)
def _resplit(p, s, maxsplit=0, flags=0):
    return _psplit(_pattern(p, flags), s,
                   maxsplit)


@handler(re.findall)
def _refindall(p, s, flags=0):
    return _pfindall(_pattern(p, flags), s)


@handler(re.finditer)
def _refinditer(p, s, flags=0):
    return _pfinditer(_pattern(p, flags), s)


@handler(re.compile)
def _recompile(p, flags=0):
    if isinstance(p, SymStr):
        h = SymPattern.hook
        if h is not None:
            return h(p)
        p = concretize(p)
    return re.compile(p, flags)


class SymPattern(Sym):
    """A compiled pattern whose text is symbolic."""
    hook = None

    def __init__(self, text):
        self.pattern = text
        self.flags = 32


@handler(re.escape)
def _reescape(s):
    if isinstance(s, SymStr):
        out = []
        special = ''.join(c for c in map(chr, range(128)) if re.escape(c) != c)
        for c in s.items:
            if isinstance(c, str):
                out.extend(re.escape(c))
            elif bool_(strs.in_ranges(c, [(ord(x), ord(x)) for x in special])):
                out.extend(['\\', c])
            else:
                out.append(c)
        return strs.mk(out)
    return re.escape(s)


def install_shadow(mod, shadow, names):
    """Route calls of a library module to its instrumented copy."""
    for n in names:
        f, g = getattr(mod, n), getattr(shadow, n)
        HANDLERS[f] = functools.partial(_shadowed, f, g)


def _shadowed(f, g, *a, **k):
    if any(deep_sym(x) for x in a) or any(deep_sym(x) for x in k.values()):
        return g(*a, **k)
    return f(*a, **k)

"""Symbolic JSON-able values (bounded in shape, unbounded in content)."""
import collections

import z3

from sx import strs
from sx.core import (Sym, SymBool, SymFloat, SymInt, Unsupported, engine,
                     num_cmp, to_z)
from sx.strs import SymStr

NULL, BOOL, INT, FLOAT, STR, LIST, DICT = range(7)
KIND_NAMES = ['null', 'bool', 'int', 'float', 'str', 'list', 'dict']

STR_OF = z3.Function('str_of_json', z3.IntSort(), z3.IntSort())


class JV(Sym):
    """A symbolic JSON value.

    ``entries`` is the list of possible members of the value when it is a
    dictionary: (present, key, value); ``items`` its possible list items.
    """
    _n = 0

    def __init__(self, name, kinds=None):
        e = engine()
        self.name = e.name(name)
        n = self.name
        self.k = z3.Int(n + '.kind')
        self.b = z3.Bool(n + '.bool')
        self.i = z3.Int(n + '.int')
        self.f = z3.Real(n + '.float')
        self.s = z3.Int(n + '.str')
        self.ordered = z3.Bool(n + '.ordered')
        self.txt = z3.Int(n + '.text')
        self.entries = []
        self.items_ = []
        self.n = z3.IntVal(0)
        self.spec = None
        self._kinds = {}
        if kinds is None:
            e.assume(z3.And(self.k >= 0, self.k <= 6))
        else:
            e.assume(z3.Or(*[self.k == x for x in kinds]))

    # -- shape ------------------------------------------------------------
    def set_list(self, items):
        self.items_ = items
        self.n = z3.Int(self.name + '.len')
        engine().assume(z3.And(self.n >= 0, self.n <= len(items)))

    def set_record(self, fields, extra=True):
        """Members with known keys: [(key, JV)]."""
        for key, v in fields:
            self.entries.append((z3.Bool('{}.has[{}]'.format(self.name, key)),
                                 key, v))

    def set_map(self, values):
        """Members with arbitrary distinct keys."""
        self.n_map = z3.Int(self.name + '.size')
        e = engine()
        e.assume(z3.And(self.n_map >= 0, self.n_map <= len(values)))
        keys = []
        for i, v in enumerate(values):
            kz = z3.Int('{}.key{}'.format(self.name, i))
            keys.append(kz)
            key = strs.opaque(kz, ('key', self, i))
            self.entries.append((self.n_map > i, key, v))
        if len(keys) > 1:
            e.assume(z3.Distinct(*keys))

    # -- kinds ------------------------------------------------------------
    def is_kind(self, *ks):
        c = self._kinds.get(ks)
        if c is None:
            c = self._kinds[ks] = self._is_kind(*ks)
        return c

    def _is_kind(self, *ks):
        return z3.Or(*[self.k == k for k in ks]) if len(ks) > 1 else \
            self.k == ks[0]

    def test(self, *ks):
        return engine().branch(self.is_kind(*ks))

    def need(self, what, *ks):
        if not self.test(*ks):
            raise AttributeError('JSON value has no {}'.format(what))

    def _types_cond(self, t):
        if isinstance(t, tuple):
            cs = [self._types_cond(x) for x in t]
            cs = [c for c in cs if c is not False]
            if not cs:
                return False
            return z3.Or(*cs) if len(cs) > 1 else cs[0]
        if t is object:
            return z3.BoolVal(True)
        if t is bool:
            return self.k == BOOL
        if t is int:
            return self.is_kind(BOOL, INT)
        if t is float:
            return self.k == FLOAT
        if t is str:
            return self.k == STR
        if t is list:
            return self.k == LIST
        if t is dict:
            return self.k == DICT
        if t is collections.OrderedDict:
            return z3.And(self.k == DICT, self.ordered)
        if t is type(None):
            return self.k == NULL
        import numbers
        if t is numbers.Number or t is numbers.Real:
            return self.is_kind(BOOL, INT, FLOAT)
        if t is numbers.Integral:
            return self.is_kind(BOOL, INT)
        if t in (collections.abc.Mapping, collections.abc.MutableMapping):
            return self.k == DICT
        if t in (collections.abc.Sequence, ):
            return self.is_kind(LIST, STR)
        if t in (collections.abc.MutableSequence, ):
            return self.k == LIST
        if t in (collections.abc.Iterable, collections.abc.Sized,
                 collections.abc.Collection, collections.abc.Container):
            return self.is_kind(LIST, STR, DICT)
        return False

    def __sx_isinstance__(self, t):
        import types
        if isinstance(t, types.UnionType):
            t = t.__args__
        c = self._types_cond(t)
        return c if c is False else SymBool(c)

    def __sx_type__(self):
        return JVType(self)

    def __sx_is__(self, other):
        if other is None:
            return SymBool(self.k == NULL)
        return SymBool(z3.And(self.k == BOOL,
                              self.b if other else z3.Not(self.b)))

    # -- text -------------------------------------------------------------
    def __sx_str__(self):
        return strs.opaque(z3.If(self.k == STR, self.s, STR_OF(self.txt)),
                           ('json', self))

    def __sx_repr__(self):
        return strs.opaque(strs.REPR(
            z3.If(self.k == STR, self.s, STR_OF(self.txt))),
            ('repr', self))

    def sstr(self):
        return strs.opaque(self.s, ('str', self))

    def __sx_as_str__(self):
        if self.test(STR):
            return self.sstr()
        return self

    # -- numbers ----------------------------------------------------------
    def num(self):
        """Numeric term on the current path."""
        if self.test(INT):
            return SymInt(self.i)
        if self.test(FLOAT):
            return SymFloat(self.f)
        if self.test(BOOL):
            return SymInt(z3.If(self.b, z3.IntVal(1), z3.IntVal(0)))
        raise TypeError('JSON value is not a number')

    def __sx_int__(self):
        from sx.rt import call
        if self.test(STR):
            raise Unsupported('int() of a JSON string')
        if self.test(NULL, LIST, DICT):
            raise TypeError('int() argument')
        return call(int, self.num())

    def __sx_float__(self):
        from sx.rt import call
        if self.test(STR):
            raise Unsupported('float() of a JSON string')
        if self.test(NULL, LIST, DICT):
            raise TypeError('float() argument')
        return call(float, self.num())

    def _cmp(self, op, o):
        if self.test(BOOL, INT, FLOAT):
            if isinstance(o, JV):
                o = o.num()
            return num_cmp(op, self.num(), o)
        if self.test(STR):
            raise Unsupported('order of JSON strings')
        raise TypeError('unorderable JSON value')

    def __lt__(self, o): return self._cmp('<', o)
    def __le__(self, o): return self._cmp('<=', o)
    def __gt__(self, o): return self._cmp('>', o)
    def __ge__(self, o): return self._cmp('>=', o)

    def __eq__(self, o):
        if self is o:
            return True
        if o is None:
            return SymBool(self.k == NULL)
        if isinstance(o, JV):
            o2 = o
            if o2.test(STR):
                o = o2.sstr()
            elif o2.test(BOOL, INT, FLOAT):
                o = o2.num()
            else:
                raise Unsupported('equality of JSON containers')
        if strs.is_str(o):
            c = strs.eq_cond(self.sstr(), o)
            return SymBool(z3.And(self.k == STR,
                                  c if not isinstance(c, bool)
                                  else z3.BoolVal(c)))
        if to_z(o) is not None:
            if not self.test(BOOL, INT, FLOAT):
                return False
            return num_cmp('==', self.num(), o)
        if isinstance(o, (list, tuple)):
            if not self.test(LIST):
                return False
            if len(o) == 0:
                return SymBool(self.n == 0)
        if isinstance(o, dict):
            if not self.test(DICT):
                return False
            if not o:
                return self.__sx_len__() == 0
        raise Unsupported('equality of JSON containers')

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.z))

    def __hash__(self):
        return id(self)

    def __bool__(self):
        if self.test(NULL):
            return False
        if self.test(BOOL):
            return engine().branch(self.b)
        if self.test(INT):
            return engine().branch(self.i != 0)
        if self.test(FLOAT):
            return engine().branch(self.f != 0)
        if self.test(STR):
            return engine().branch(self.s != strs.intern(''))
        if self.test(LIST):
            return engine().branch(self.n != 0)
        return bool(self.__sx_len__() != 0)

    def __neg__(self): return -self.num()
    def __abs__(self): return abs(self.num())
    def __add__(self, o): return self.num() + o
    def __sub__(self, o): return self.num() - o
    def __mod__(self, o): return self.num() % o
    def __trunc__(self): return self.__sx_int__()

    # -- containers -------------------------------------------------------
    def __sx_len__(self):
        if self.test(LIST):
            return SymInt(self.n)
        if self.test(DICT):
            z = z3.IntVal(0)
            for p, _, _ in self.entries:
                z = z + z3.If(p, z3.IntVal(1), z3.IntVal(0))
            return SymInt(z)
        if self.test(STR):
            from sx.rt import call
            return call(len, self.sstr())
        raise TypeError('object has no len()')

    def __len__(self):
        from sx.core import concretize_int
        return concretize_int(self.__sx_len__())

    def live_entries(self):
        for p, k, v in self.entries:
            if engine().branch(p):
                yield k, v

    def __iter__(self):
        if self.test(LIST):
            return self._iter_list()
        if self.test(DICT):
            return iter([k for k, _ in self.live_entries()])
        if self.test(STR):
            raise Unsupported('characters of a JSON string')
        raise TypeError('JSON value is not iterable')

    def _more(self, i):
        c = self._kinds.get(i)
        if c is None:
            c = self._kinds[i] = self.n > i
        return c

    def _iter_list(self):
        for i, x in enumerate(self.items_):
            if not engine().branch(self._more(i)):
                return
            yield x

    def find(self, key):
        """Entry with the key (forks), or None."""
        if isinstance(key, JV):
            if not key.test(STR):
                return None
            key = key.sstr()
        for p, k, v in self.entries:
            if isinstance(key, str) and isinstance(k, str):
                if k == key:
                    return (k, v) if engine().branch(p) else None
                continue
            c = strs.eq_cond(k, key) if strs.is_str(key) else False
            if c is False:
                continue
            c = p if c is True else z3.And(p, c)
            if engine().branch(c):
                return k, v
        return None

    def __sx_contains__(self, key):
        if self.test(DICT):
            return self.find(key) is not None
        if self.test(LIST):
            for x in self:
                if bool(x == key):
                    return True
            return False
        if self.test(STR):
            raise Unsupported('substring of a JSON string')
        raise TypeError('argument is not iterable')

    def __getitem__(self, key):
        if self.test(DICT):
            r = self.find(key)
            if r is None:
                raise KeyError(key)
            return r[1]
        if self.test(LIST):
            from sx.core import concretize_int
            if isinstance(key, slice):
                return list(self)[key]
            i = concretize_int(key)
            if i < 0:
                raise Unsupported('negative index')
            if i >= len(self.items_) or not engine().branch(self.n > i):
                raise IndexError('list index out of range')
            return self.items_[i]
        if self.test(STR):
            raise Unsupported('characters of a JSON string')
        raise TypeError('not subscriptable')

    def get(self, key, default=None):
        self.need('get', DICT)
        r = self.find(key)
        return default if r is None else r[1]

    def items(self):
        self.need('items', DICT)
        return list(self.live_entries())

    def keys(self):
        self.need('keys', DICT)
        return [k for k, _ in self.live_entries()]

    def values(self):
        self.need('values', DICT)
        return [v for _, v in self.live_entries()]

    def __repr__(self):
        return '<JV {}>'.format(self.name)


class JVType(Sym):
    """``type(value)`` of a symbolic JSON value."""

    def __init__(self, jv):
        self.jv = jv

    def __sx_str__(self):
        return strs.opaque(z3.Int(self.jv.name + '.type'))

    __sx_repr__ = __sx_str__

    @property
    def __name__(self):
        return strs.opaque(z3.Int(self.jv.name + '.type'))

    def _conc(self):
        j = self.jv
        for k, t in ((NULL, type(None)), (BOOL, bool), (INT, int),
                     (FLOAT, float), (STR, str), (LIST, list)):
            if j.test(k):
                return t
        return collections.OrderedDict if engine().branch(j.ordered) else dict

    def __eq__(self, o):
        if isinstance(o, JVType):
            return self._conc() is o._conc()
        return self._conc() is o

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self._conc())

    def __sx_is__(self, o):
        return False

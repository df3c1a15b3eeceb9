"""Path exploration engine and symbolic scalars.

The engine runs a Python callable again and again.  Every time the callable
needs the truth value of a symbolic condition it asks :meth:`Engine.branch`;
the SMT solver decides which outcomes are feasible under the current path
condition and the engine explores all of them depth first.  When the search
ends and nothing was cut, every value of the symbolic inputs was covered.
"""
import itertools
import time

import z3


class PathDone(BaseException):
    """The current path is cut (an assumption is infeasible)."""


class Unsupported(Exception):
    """The code does something with a symbolic value that is not modelled."""


class Budget(Exception):
    """The budget of a harness is used up."""


class _Decision:
    __slots__ = ('key', 'val', 'alt', 'level')

    def __init__(self, key, val, alt, level):
        self.key = key
        self.val = val
        self.alt = alt
        self.level = level


class Stats:
    FIELDS = ('paths', 'cut_paths', 'branches', 'forks', 'queries', 'unknown',
              'concretisations', 'obligations', 'solver_s')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Engine:
    def __init__(self, timeout_ms=20000, deadline=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.trail = []
        self.pos = 0
        self.level = 0
        self.stats = Stats()
        self.counter = itertools.count()
        self.deadline = deadline
        self.model = None
        self.path_names = {}
        self.notes = set()
        self._simp = {}

    # -- solver -----------------------------------------------------------
    def _push(self, cond):
        self.solver.push()
        self.solver.add(cond)
        self.level += 1

    def _pop_to(self, level):
        if self.level > level:
            self.solver.pop(self.level - level)
            self.level = level
            self.model = None

    def check(self, *conds):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('deadline of the harness reached')
        t = time.time()
        r = self.solver.check(*conds)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def branch(self, cond):
        """Decide a condition; fork when both outcomes are feasible."""
        if cond is True or cond is False:
            return cond
        cid = cond.get_id()
        ent = self._simp.get(cid)
        if ent is None:
            simp = z3.simplify(cond)
            const = True if z3.is_true(simp) else (
                False if z3.is_false(simp) else None)
            # the terms are kept alive, hence their ids are stable
            ent = self._simp[cid] = (simp, cond, const)
        simp, _, const = ent
        if const is not None:
            return const
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.key != cid:
                if not d.key_expr.eq(cond):
                    raise RuntimeError(
                        'non-deterministic re-execution: {} vs {}'.format(
                            d.key_expr, cond))
            self.pos += 1
            return d.val
        self.stats.branches += 1
        can_t = can_f = None
        if self.model is not None:
            v = self.model.eval(simp, model_completion=True)
            if z3.is_true(v):
                can_t = True
            elif z3.is_false(v):
                can_f = True
        if can_t is None:
            r = self.check(simp)
            can_t = r != z3.unsat
            if r == z3.sat:
                self.model = self.solver.model()
        if can_f is None:
            r = self.check(z3.Not(simp))
            can_f = r != z3.unsat
            if r == z3.sat and not can_t:
                self.model = self.solver.model()
        if not can_t and not can_f:
            raise PathDone()
        d = _Dec(cond, can_t, can_t and can_f, self.level)
        if can_t and can_f:
            self.stats.forks += 1
            self._push(simp)
            if self.model is not None and not z3.is_true(
                    self.model.eval(simp, model_completion=True)):
                self.model = None
        self.trail.append(d)
        self.pos += 1
        return d.val

    def assume(self, cond):
        """Restrict the current path to ``cond``."""
        if isinstance(cond, SymBool):
            cond = cond.z
        if cond is True or z3.is_expr(cond) and z3.is_true(cond):
            return
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            if not d.val:
                raise PathDone()
            return
        lvl = self.level
        self._push(cond)
        if self.model is not None and not z3.is_true(
                self.model.eval(cond, model_completion=True)):
            self.model = None
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                self._pop_to(lvl)
                self.trail.append(_Dec(cond, False, False, lvl))
                self.pos += 1
                raise PathDone()
            if r == z3.sat:
                self.model = self.solver.model()
        self.trail.append(_Dec(cond, True, False, lvl))
        self.pos += 1

    def explore(self, fn, on_path=None, on_cut=None):
        """Run ``fn`` on every feasible path (re-entrant)."""
        base = len(self.trail)
        if self.pos != base:
            raise RuntimeError('nested exploration during a replay')
        base_level = self.level
        n = 0
        while True:
            self.pos = base
            fresh_mark = self._mark()
            try:
                res = fn()
                cut = False
            except PathDone:
                cut = True
            if cut:
                self.stats.cut_paths += 1
            else:
                self.stats.paths += 1
                n += 1
                if on_path is not None:
                    on_path(res)
            self._reset(fresh_mark)
            # backtrack
            while len(self.trail) > base:
                d = self.trail[-1]
                if d.alt:
                    self._pop_to(d.level)
                    self._push(z3.Not(d.key_expr))
                    d.val = False
                    d.alt = False
                    break
                self.trail.pop()
            else:
                self._pop_to(base_level)
                self.pos = base
                return n

    # fresh names must be the same on every re-execution
    def _mark(self):
        return dict(self.path_names)

    def _reset(self, mark):
        self.path_names = mark

    def name(self, hint):
        k = self.path_names.get(hint, 0)
        self.path_names[hint] = k + 1
        return '{}!{}'.format(hint, k)

    # -- helpers ----------------------------------------------------------
    def choose(self, hint, n):
        """Symbolic structural choice among ``range(n)``."""
        if n <= 1:
            return 0
        v = z3.Int(self.name('choice_' + hint))
        self.assume(z3.And(v >= 0, v < n))
        for i in range(n - 1):
            if self.branch(v == i):
                return i
        return n - 1

    def flip(self, hint):
        return self.branch(z3.Bool(self.name('flag_' + hint)))

    def prove(self, cond):
        """Is ``cond`` valid on this path?  Gives (ok, model or None)."""
        if isinstance(cond, SymBool):
            cond = cond.z
        self.stats.obligations += 1
        if cond is True:
            return True, None
        if cond is False:
            cond = z3.BoolVal(False)
        neg = z3.Not(cond)
        r = self.check(neg)
        if r == z3.unsat:
            return True, None
        if r == z3.sat:
            return False, self.solver.model()
        return None, None

    def witness(self):
        r = self.check()
        if r == z3.sat:
            return self.solver.model()
        return None


class _Dec(_Decision):
    __slots__ = ('key_expr',)

    def __init__(self, cond, val, alt, level):
        super().__init__(cond.get_id(), val, alt, level)
        self.key_expr = cond


_ENGINE = None


def engine():
    if _ENGINE is None:
        raise RuntimeError('no engine')
    return _ENGINE


def set_engine(e):
    global _ENGINE
    _ENGINE = e
    MAGIC.reset()
    return e


# ---------------------------------------------------------------------------
# scalars
# ---------------------------------------------------------------------------


class Sym:
    """Marker base of all symbolic values."""
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return engine().branch(self.z)

    def __eq__(self, other):
        if isinstance(other, SymBool):
            return SymBool(self.z == other.z)
        if isinstance(other, bool):
            return self if other else SymBool(z3.Not(self.z))
        return False

    def __ne__(self, other):
        r = self.__eq__(other)
        return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r

    def __and__(self, o):
        return SymBool(z3.And(self.z, zb(o)))

    def __or__(self, o):
        return SymBool(z3.Or(self.z, zb(o)))

    __rand__ = __and__
    __ror__ = __or__

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return 'True' if bool(self) else 'False'

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __int__(self):
        return int(bool(self))


def zb(x):
    if isinstance(x, SymBool):
        return x.z
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


class Magic:
    """Numbers in generated text which stand for symbolic expressions."""
    BASE = 770000000001
    FBASE = 660000000001.5

    def reset(self):
        self.by_val = {}
        self.by_id = {}
        self.keep = []
        self.n = 0

    def __init__(self):
        self.reset()

    def of(self, z, is_int):
        key = (z.get_id(), is_int)
        if key in self.by_id:
            return self.by_id[key]
        self.n += 1
        # the numbers are spread so that arithmetic on them is not mistaken
        v = (self.BASE + self.n * 1000003) if is_int else (
            self.FBASE + self.n * 1000003.0)
        self.by_id[key] = v
        self.by_val[v] = z
        self.keep.append(z)
        return v

    def lookup(self, v):
        """Expression for a number of the text (None if ordinary)."""
        return self.by_val.get(v)


MAGIC = Magic()


def to_z(x):
    """Numeric z3 term of x (Int or Real), or None."""
    if isinstance(x, (SymInt, SymFloat)):
        return x.z
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        n, d = x.as_integer_ratio()
        return z3.Q(n, d) if d != 1 else z3.RealVal(n)
    return None


def _coerce(a, b):
    if z3.is_int(a) and z3.is_real(b):
        a = z3.ToReal(a)
    elif z3.is_real(a) and z3.is_int(b):
        b = z3.ToReal(b)
    return a, b


_INF = float('inf')


def num_cmp(op, x, y):
    zx, zy = to_z(x), to_z(y)
    if zx is None or zy is None:
        # comparisons with infinities
        if isinstance(y, float) and y in (_INF, -_INF):
            pos = y > 0
            return {'<': pos, '<=': pos, '>': not pos, '>=': not pos,
                    '==': False, '!=': True}[op]
        if isinstance(x, float) and x in (_INF, -_INF):
            pos = x > 0
            return {'<': not pos, '<=': not pos, '>': pos, '>=': pos,
                    '==': False, '!=': True}[op]
        if op == '==':
            return False
        if op == '!=':
            return True
        return NotImplemented
    if op in ('==', '!=') and z3.is_int(zx) != z3.is_int(zy):
        i, r = (zx, zy) if z3.is_int(zx) else (zy, zx)
        if not z3.is_int_value(i) and z3.is_const(r) and \
                not z3.is_rational_value(r):
            # (the solver does not derive that the real is integral)
            t = z3.ToInt(r)
            z = z3.And(r == z3.ToReal(t), i == t)
            return SymBool(z if op == '==' else z3.Not(z))
    zx, zy = _coerce(zx, zy)
    z = {'<': lambda: zx < zy, '<=': lambda: zx <= zy, '>': lambda: zx > zy,
         '>=': lambda: zx >= zy, '==': lambda: zx == zy,
         '!=': lambda: zx != zy}[op]()
    return SymBool(z)


def wrap(z):
    if z3.is_bool(z):
        return SymBool(z)
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    if z3.is_int(z):
        return SymInt(z)
    return SymFloat(z)


class _Num(Sym):
    __slots__ = ()

    def __lt__(self, o): return num_cmp('<', self, o)
    def __le__(self, o): return num_cmp('<=', self, o)
    def __gt__(self, o): return num_cmp('>', self, o)
    def __ge__(self, o): return num_cmp('>=', self, o)
    def __eq__(self, o): return num_cmp('==', self, o)
    def __ne__(self, o): return num_cmp('!=', self, o)

    def __bool__(self):
        return engine().branch(self.z != 0)

    def _arith(self, o, f, refl=False):
        z = to_z(o)
        if z is None:
            return NotImplemented
        a, b = (z, self.z) if refl else (self.z, z)
        a, b = _coerce(a, b)
        return wrap(f(a, b))

    def __add__(self, o): return self._arith(o, lambda a, b: a + b)
    def __radd__(self, o): return self._arith(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._arith(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._arith(o, lambda a, b: a - b, True)
    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * concretize_int(self)
        return self._arith(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self): return wrap(-self.z)
    def __pos__(self): return self

    def __abs__(self):
        return wrap(z3.If(self.z >= 0, self.z, -self.z))

    def __truediv__(self, o): return self._div(o, False)
    def __rtruediv__(self, o): return self._div(o, True)

    def _div(self, o, refl):
        z = to_z(o)
        if z is None:
            return NotImplemented
        a, b = (z, self.z) if refl else (self.z, z)
        a = z3.ToReal(a) if z3.is_int(a) else a
        b = z3.ToReal(b) if z3.is_int(b) else b
        if engine().branch(b == 0):
            raise ZeroDivisionError('division by zero')
        return wrap(a / b)

    def _floordivmod(self, o, refl):
        z = to_z(o)
        if z is None or not z3.is_int(z) or not z3.is_int(self.z):
            raise Unsupported('floor division of reals')
        a, b = (z, self.z) if refl else (self.z, z)
        if engine().branch(b == 0):
            raise ZeroDivisionError('division by zero')
        if engine().branch(b > 0):
            return a / b, a % b
        # z3: a == b*q + r with 0 <= r < |b|
        q = (-a) / (-b)
        return q, a - b * q

    def __floordiv__(self, o): return wrap(self._floordivmod(o, False)[0])
    def __rfloordiv__(self, o): return wrap(self._floordivmod(o, True)[0])
    def __mod__(self, o): return wrap(self._floordivmod(o, False)[1])
    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return wrap(self._floordivmod(o, True)[1])

    def __divmod__(self, o):
        q, r = self._floordivmod(o, False)
        return wrap(q), wrap(r)

    def __pow__(self, o, mod=None):
        if type(o) is int and 0 <= o <= 4:
            z = z3.IntVal(1)
            for _ in range(o):
                z = z * self.z
            return wrap(z)
        raise Unsupported('power')


class SymInt(_Num, int):
    """Symbolic integer; its native value is the magic number of the text."""

    def __new__(cls, z):
        self = int.__new__(cls, MAGIC.of(z, True))
        self.z = z
        return self

    def __hash__(self):
        return int.__hash__(self)

    def __repr__(self): return int.__repr__(self)
    def __str__(self): return int.__repr__(self)
    def __format__(self, spec): return int.__format__(self, spec)
    def __int__(self): return self
    def __index__(self): return int.__index__(self)
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __round__(self, n=None): return self
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def bit_length(self):
        raise Unsupported('bit_length')

    __lt__ = _Num.__lt__
    __le__ = _Num.__le__
    __gt__ = _Num.__gt__
    __ge__ = _Num.__ge__
    __eq__ = _Num.__eq__
    __ne__ = _Num.__ne__


class SymFloat(_Num, float):
    """Symbolic finite float, represented exactly as a real."""

    def __new__(cls, z):
        self = float.__new__(cls, MAGIC.of(z, False))
        self.z = z
        return self

    def __hash__(self):
        return float.__hash__(self)

    def __repr__(self): return float.__repr__(self)
    def __str__(self): return float.__repr__(self)
    def __format__(self, spec): return float.__format__(self, spec)
    def __float__(self): return float.__float__(self)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def __int__(self):
        return sym_trunc(self)

    def is_integer(self):
        return SymBool(z3.IsInt(self.z))

    __lt__ = _Num.__lt__
    __le__ = _Num.__le__
    __gt__ = _Num.__gt__
    __ge__ = _Num.__ge__
    __eq__ = _Num.__eq__
    __ne__ = _Num.__ne__


def sym_trunc(x):
    z = x.z
    if z3.is_int(z):
        return x
    fl = z3.ToInt(z)
    return wrap(z3.If(z >= 0, fl, z3.If(z3.IsInt(z), fl, fl + 1)))


def concretize_int(x, limit=64):
    """Fork over the values of a symbolic integer (bounded)."""
    if not isinstance(x, SymInt):
        return int(x)
    e = engine()
    z = z3.simplify(x.z)
    if z3.is_int_value(z):
        return z.as_long()
    if z.get_id() in _FOLDED:
        return _FOLDED[z.get_id()][0]
    _KEEP_Z[z.get_id()] = z
    for _ in range(limit):
        if e.pos < len(e.trail):
            # replay: the decision carries the value
            d = e.trail[e.pos].key_expr
            v = _VALUE_OF.get(d.get_id())
            if v is None or v[0] != z.get_id():
                raise RuntimeError('non-deterministic re-execution: {} '
                                   'concretises {}'.format(d, z))
            v = v[1]
        else:
            m = e.witness()
            if m is None:
                raise PathDone()
            v = m.eval(z, model_completion=True).as_long()
        node = _eq_node(z, v)
        before = e.pos
        yes = e.branch(node)
        if e.pos == before and yes:
            _FOLDED[z.get_id()] = (v, z)
        if yes:
            return v
    e.stats.concretisations += 1
    e.notes.add('integer concretised: more than {} values'.format(limit))
    raise PathDone()


_EQ_KEEP = {}
_VALUE_OF = {}
_FOLDED = {}
_KEEP_Z = {}


def _eq_node(z, v):
    k = (z.get_id(), v)
    if k not in _EQ_KEEP:
        node = z == z3.IntVal(v)
        _EQ_KEEP[k] = (node, z)
        _VALUE_OF[node.get_id()] = k
    return _EQ_KEEP[k][0]


def fresh_int(hint, lo=None, hi=None):
    e = engine()
    v = z3.Int(e.name(hint))
    cs = []
    if lo is not None:
        cs.append(v >= lo)
    if hi is not None:
        cs.append(v <= hi)
    if cs:
        e.assume(z3.And(*cs))
    return SymInt(v)


def fresh_real(hint):
    e = engine()
    return SymFloat(z3.Real(e.name(hint)))


def fresh_bool(hint):
    return SymBool(z3.Bool(engine().name(hint)))


def set_of(exprs):
    return list(exprs)

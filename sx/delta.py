"""Differences of times (``datetime.timedelta``) of symbolic amounts.

An amount is an exact number of microseconds: an integer, or a real where the
arguments of the constructor are reals (``timedelta`` rounds these to
microseconds; the rounding is not modelled, so that properties about such
amounts have to allow for it).
"""
import datetime

import z3

from sx import rt
from sx.core import (Sym, SymBool, SymFloat, SymInt, Unsupported, engine,
                     to_z, wrap)

DAY = 86400 * 10 ** 6
UNITS = {'days': DAY, 'seconds': 10 ** 6, 'microseconds': 1,
         'milliseconds': 1000, 'minutes': 60 * 10 ** 6,
         'hours': 3600 * 10 ** 6, 'weeks': 7 * DAY}
ORDER = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes',
         'hours', 'weeks']
LIMIT = 10 ** 9 * DAY


def amount_of(d):
    if isinstance(d, SymDelta):
        return d.us
    return z3.IntVal((d.days * 86400 + d.seconds) * 10 ** 6 + d.microseconds)


def integral(z):
    """The same amount as an integer, if it is one by its form."""
    z = z3.simplify(z)
    if z3.is_int(z):
        return z
    if z3.is_rational_value(z) and z.denominator_as_long() == 1:
        return z3.IntVal(z.numerator_as_long())
    i = _as_int(z)
    return z if i is None else z3.simplify(i)


def _as_int(z):
    if z3.is_int(z):
        return z
    if z3.is_rational_value(z):
        if z.denominator_as_long() != 1:
            return None
        return z3.IntVal(z.numerator_as_long())
    if z3.is_to_real(z):
        return z.arg(0)
    if z3.is_add(z) or z3.is_mul(z):
        parts = [_as_int(a) for a in z.children()]
        if any(p is None for p in parts):
            return None
        return z3.Sum(parts) if z3.is_add(z) else z3.Product(parts)
    return None


class SymDelta(Sym):
    def __init__(self, us, checked=False, parts=None, opposite=None):
        self.us = integral(us)
        # days, seconds and microseconds, of this and of its opposite
        self.parts = parts
        self.opposite = opposite
        if not checked:
            u = self.us
            if engine().branch(z3.Or(u < -(LIMIT - DAY), u >= LIMIT)):
                raise OverflowError('days out of range')

    def _int(self):
        if not z3.is_int(self.us):
            raise Unsupported('parts of a rounded timedelta')
        return self.us

    @property
    def days(self):
        if self.parts:
            return wrap(self.parts[0])
        return wrap(self._int() / DAY)

    @property
    def seconds(self):
        if self.parts:
            return wrap(self.parts[1])
        return wrap(self._int() % DAY / 10 ** 6)

    @property
    def microseconds(self):
        if self.parts:
            return wrap(self.parts[2])
        return wrap(self._int() % 10 ** 6)

    def total_seconds(self):
        return SymFloat(z3.ToReal(self._int()) / 10 ** 6)

    def __neg__(self):
        return SymDelta(-self.us, parts=self.opposite, opposite=self.parts)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if engine().branch(self.us < 0) else self

    def __add__(self, o):
        if not isinstance(o, (SymDelta, datetime.timedelta)):
            return NotImplemented
        return SymDelta(self.us + amount_of(o))

    __radd__ = __add__

    def __sub__(self, o):
        if not isinstance(o, (SymDelta, datetime.timedelta)):
            return NotImplemented
        return SymDelta(self.us - amount_of(o))

    def __rsub__(self, o):
        return -(self - o)

    def __mul__(self, o):
        z = to_z(o)
        if z is None or isinstance(o, float):
            raise Unsupported('product of a timedelta')
        return SymDelta(self.us * z)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, datetime.timedelta):
            n = amount_of(o).as_long()
            if n > 0:
                return wrap(self._int() / n)
        elif type(o) is int and o > 0:
            return SymDelta(self._int() / o)
        raise Unsupported('quotient of a timedelta')

    def __mod__(self, o):
        if isinstance(o, datetime.timedelta):
            n = amount_of(o).as_long()
            if n > 0:
                return SymDelta(self._int() % n)
        raise Unsupported('remainder of a timedelta')

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        raise Unsupported('quotient of a timedelta')

    def _cmp(self, o, f):
        if not isinstance(o, (SymDelta, datetime.timedelta)):
            return NotImplemented
        return SymBool(f(self.us, amount_of(o)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return engine().branch(self.us != 0)

    def __hash__(self):
        return 5

    def __sx_isinstance__(self, t):
        if isinstance(t, tuple):
            return any(self.__sx_isinstance__(x) for x in t)
        return issubclass(datetime.timedelta, t)


@rt.handler(datetime.timedelta)
def _timedelta(*a, **k):
    args = dict(zip(ORDER, a))
    args.update(k)
    if not any(isinstance(x, Sym) for x in args.values()):
        return datetime.timedelta(*a, **k)
    total = z3.IntVal(0)
    for name, x in args.items():
        if name not in UNITS:
            raise TypeError('unexpected argument {}'.format(name))
        z = to_z(x)
        if z is None:
            raise Unsupported('argument of timedelta')
        total = total + z * UNITS[name]
    return SymDelta(total)

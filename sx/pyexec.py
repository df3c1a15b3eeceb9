"""Symbolic execution of the generated Python package."""
import datetime
import functools
import pathlib
import re
import sys
import types
import warnings

import z3

from sx import instr, rt, strs
from sx.core import MAGIC, Sym, SymBool, Unsupported, engine

PKG = 'sxgen'
MOD = 'sxgen.somegraph'
FILES = [('__init__.py', MOD), ('parse.py', MOD + '.parse'),
         ('fromjsonable.py', MOD + '.fromjsonable'),
         ('tojsonable.py', MOD + '.tojsonable')]

# ---------------------------------------------------------------------------
# abstractions of the standard library used by the generated code
# ---------------------------------------------------------------------------

# one family of uninterpreted functions per format text / pattern text
_FN = {}


def pred(name):
    f = _FN.get(name)
    if f is None:
        f = _FN[name] = z3.Function(name, z3.IntSort(), z3.BoolSort())
    return f


def fun(name):
    f = _FN.get(name)
    if f is None:
        f = _FN[name] = z3.Function(name, z3.IntSort(), z3.IntSort())
    return f


def date_ok(fmt):
    return pred('strptime_ok[{}]'.format(fmt))


def parsed(fmt):
    return fun('strptime[{}]'.format(fmt))


def printed(fmt):
    return fun('strftime[{}]'.format(fmt))


def tz_ok():
    return pred('timezone_ok')


def dur_ok():
    return pred('duration_ok')


def pat_ok(pattern):
    return pred('matches[{}]'.format(pattern))


class Moment(Sym):
    """Result of strptime on an opaque string (and parts of it)."""

    def __init__(self, z, kind='datetime'):
        self.z = z
        self.kind = kind

    def date(self):
        if self.kind != 'datetime':
            raise AttributeError('date')
        return Moment(self.z, 'date')

    def time(self):
        if self.kind != 'datetime':
            raise AttributeError('time')
        return Moment(self.z, 'time')

    def strftime(self, fmt):
        return strs.opaque(printed(fmt)(self.z), ('strftime', self))

    def __sx_isinstance__(self, t):
        if isinstance(t, tuple):
            return any(self.__sx_isinstance__(x) for x in t)
        k = getattr(datetime, self.kind)
        return issubclass(k, t) if isinstance(t, type) else False

    def __eq__(self, o):
        if isinstance(o, Moment):
            if o.kind != self.kind:
                return False
            return SymBool(self.z == o.z)
        return False

    def __hash__(self):
        return 1


@rt.handler(datetime.datetime.strptime)
def _strptime(s, fmt):
    s = rt.strlike(s)
    if isinstance(s, Sym) and not strs.is_str(s):
        raise TypeError('strptime() argument 1 must be str')
    if not isinstance(s, Sym):
        return datetime.datetime.strptime(s, fmt)
    if isinstance(fmt, Sym):
        raise Unsupported('symbolic date format')
    t = strs.term_of(s)
    if engine().branch(date_ok(fmt)(t)):
        return Moment(parsed(fmt)(t))
    raise ValueError('time data does not match format')


class SymPath(Sym):
    """pathlib.Path of an opaque string (taken as injective)."""

    def __init__(self, s):
        self.s = s

    def __sx_str__(self):
        return self.s

    def __str__(self):
        raise Unsupported('str() of a path in native code')

    def as_posix(self):
        return self.s

    def __fspath__(self):
        return self.s

    def __sx_isinstance__(self, t):
        if isinstance(t, tuple):
            return any(self.__sx_isinstance__(x) for x in t)
        return issubclass(pathlib.PosixPath, t)

    def __eq__(self, o):
        if isinstance(o, SymPath):
            return SymBool(strs.eq_cond(self.s, o.s))
        return False

    def __hash__(self):
        return 2


@rt.handler(pathlib.Path, pathlib.PosixPath)
def _path(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        s = rt.strlike(a[0])
        if isinstance(s, SymPath):
            return s
        if not strs.is_str(s):
            raise TypeError('expected str')
        return SymPath(s)
    return pathlib.Path(*a)


class SymTz(Sym):
    def __init__(self, z):
        self.z = z

    def __sx_str__(self):
        return strs.opaque(self.z, ('tz', self))

    @property
    def zone(self):
        return strs.opaque(self.z, ('tz', self))

    def __eq__(self, o):
        return SymBool(self.z == o.z) if isinstance(o, SymTz) else False

    def __hash__(self):
        return 3


def _install_pytz():
    import pytz
    import pytz.exceptions

    def timezone(s):
        s = rt.strlike(s)
        if not isinstance(s, Sym):
            return pytz.timezone(s)
        if not strs.is_str(s):
            raise AttributeError('upper')
        t = strs.term_of(s)
        if engine().branch(tz_ok()(t)):
            return SymTz(t)
        raise pytz.exceptions.UnknownTimeZoneError(s)
    rt.HANDLERS[pytz.timezone] = timezone


_install_pytz()


class Dur(Sym):
    """A timedelta parsed from an opaque string."""

    def __init__(self, z):
        self.z = z

    def __eq__(self, o):
        return SymBool(self.z == o.z) if isinstance(o, Dur) else False

    def __sx_isinstance__(self, t):
        if isinstance(t, tuple):
            return any(self.__sx_isinstance__(x) for x in t)
        return issubclass(datetime.timedelta, t)

    def __hash__(self):
        return 4


PARSE_DUR = z3.Function('parse_duration', z3.IntSort(), z3.IntSort())
PRINT_DUR = z3.Function('print_duration', z3.IntSort(), z3.IntSort())


def dur_from(real):
    def _duration_from_string(text):
        text = rt.strlike(text)
        if not isinstance(text, Sym):
            return real(text)
        if not strs.is_str(text):
            raise TypeError('expected string')
        t = strs.term_of(text)
        if engine().branch(dur_ok()(t)):
            return Dur(PARSE_DUR(t))
        # both are documented outcomes of the helper
        if engine().branch(pred('duration_overflows')(t)):
            raise OverflowError('overflow')
        raise ValueError('failed to match')
    return _duration_from_string


def dur_to(real):
    def _duration_to_string(duration):
        if isinstance(duration, Dur):
            return strs.opaque(PRINT_DUR(duration.z), ('dur', duration))
        return real(duration)
    return _duration_to_string


def pattern_name(pat):
    """Text of a pattern with its flags."""
    if not hasattr(pat, 'pattern'):
        return pat
    fl = ''.join(c for c, f in (('i', re.I), ('m', re.M), ('s', re.S),
                                ('x', re.X), ('a', re.A)) if pat.flags & f)
    return '(?{}){}'.format(fl, pat.pattern) if fl else pat.pattern


def decide_pattern(pat, s, kind):
    p = pattern_name(pat)
    t = strs.term_of(s)
    m = pat_ok(p)(t)
    if kind == 'match':
        c = m
    elif kind == 'search':
        # an anchored pattern is found exactly where it matches
        c = m if p.startswith('^') and '|' not in p else z3.Or(
            m, pred('found[{}]'.format(p))(t))
    else:
        c = z3.And(m, z3.Not(pred('rest[{}]'.format(p))(t)))
    return _Matched() if engine().branch(c) else None


class _Matched:
    def __bool__(self):
        return True


rt.OpaqueRegex.decide = staticmethod(decide_pattern)

# ---------------------------------------------------------------------------
# loading
# ---------------------------------------------------------------------------

_CODE = {}


def compile_text(text, filename):
    key = (text, filename)
    c = _CODE.get(key)
    if c is None:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c = instr.instrument_source(text, filename, magic=True)
        if len(_CODE) > 400:
            _CODE.clear()
        _CODE[key] = c
    return c


class Package:
    """The generated package, loaded on symbolic values."""

    def __init__(self, files, stub_durations=True):
        self.files = files
        for name in [PKG] + [m for _, m in FILES]:
            sys.modules.pop(name, None)
        root = types.ModuleType(PKG)
        root.__path__ = []
        sys.modules[PKG] = root
        self.mods = {}
        for fn, name in FILES:
            m = types.ModuleType(name)
            m.__path__ = []
            parent, _, leaf = name.rpartition('.')
            sys.modules[name] = m
            setattr(sys.modules[parent], leaf, m)
            exec(compile_text(files[fn], '<generated {}>'.format(fn)),
                 m.__dict__)
            self.mods[leaf if name != MOD else '__init__'] = m
        self.types = self.mods['__init__']
        self.parse = self.mods['parse']
        self.frm = self.mods['fromjsonable']
        self.to = self.mods['tojsonable']
        if stub_durations:
            if hasattr(self.frm, '_duration_from_string'):
                self.frm._duration_from_string = dur_from(
                    self.frm._duration_from_string)
            if hasattr(self.to, '_duration_to_string'):
                self.to._duration_to_string = dur_to(
                    self.to._duration_to_string)

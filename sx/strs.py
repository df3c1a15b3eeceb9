"""Symbolic strings of bounded length: sequences of concrete and symbolic characters."""
import re
import re._constants as sc
import re._parser as sp

import z3

from sx.core import (Sym, SymBool, SymInt, Unsupported, engine, wrap, zb,
                     concretize_int)

ASCII_LIMIT = 128


class Ch:
    """A symbolic character (its code point is a solver variable or term)."""
    __slots__ = ('z', 'dom', 'figure')

    def __init__(self, z, dom=None, figure=None):
        self.z = z
        # (number, index, count, base) if it is a digit of the number
        self.figure = figure
        # ranges of code points it is known to lie in (None: all)
        self.dom = dom


class Atom:
    """An opaque string: an integer term names it, nothing is known of its text.

    Two opaque strings are equal iff their terms are equal; a constant string
    is named by the number :func:`intern` gives it.
    """
    __slots__ = ('z', 'why')

    def __init__(self, z, why=None):
        self.z = z
        self.why = why


_INTERN = {}
_INTERN_REV = {}


def intern(text):
    if text not in _INTERN:
        n = 1000 + len(_INTERN)
        _INTERN[text] = n
        _INTERN_REV[n] = text
    return _INTERN[text]


def opaque(z, why=None):
    return SymStr((Atom(z, why), ))


_CONCAT = z3.Function('concat', z3.IntSort(), z3.IntSort(), z3.IntSort())
REPR = z3.Function('repr', z3.IntSort(), z3.IntSort())
STRLEN = z3.Function('strlen', z3.IntSort(), z3.IntSort())


def has_atom(s):
    if not isinstance(s, SymStr):
        return False
    a = s.atom
    if a is None:
        a = s.atom = any(isinstance(c, Atom) for c in s.items)
    return a


def term_of(s):
    """Integer term naming a string which may contain opaque parts."""
    if isinstance(s, str):
        return z3.IntVal(intern(s))
    if len(s.items) == 1 and type(s.items[0]) is Atom:
        return s.items[0].z
    parts = []
    cur = []
    for c in s.items:
        if type(c) is Atom:
            if cur:
                parts.append(z3.IntVal(intern(''.join(cur))))
                cur = []
            parts.append(c.z)
        elif isinstance(c, str):
            cur.append(c)
        else:
            raise Unsupported('mixture of symbolic characters and atoms')
    if cur:
        parts.append(z3.IntVal(intern(''.join(cur))))
    t = parts[0]
    for p in parts[1:]:
        t = _CONCAT(t, p)
    return t


def _code(c):
    if type(c) is Atom:
        raise Unsupported('characters of an opaque string')
    return z3.IntVal(ord(c)) if isinstance(c, str) else c.z


def ch_eq(a, b):
    """z3 condition (or bool): the two characters are equal."""
    if type(a) is Atom or type(b) is Atom:
        raise Unsupported('characters of an opaque string')
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if a is b:
        return True
    if isinstance(a, str):
        a, b = b, a
    if a.dom is not None:
        if isinstance(b, str):
            o = ord(b)
            if not any(lo <= o <= hi for lo, hi in a.dom):
                return False
        elif b.dom is not None and not any(
                lo <= d and c <= hi for lo, hi in a.dom for c, d in b.dom):
            return False
    return _code(a) == _code(b)


def mk(items):
    """Normalise a sequence of characters."""
    items = tuple(items)
    for c in items:
        if not isinstance(c, str):
            return SymStr(items)
    return ''.join(items)


def items_of(s):
    if isinstance(s, SymStr):
        return s.items
    if isinstance(s, str):
        return tuple(s)
    raise Unsupported('not a string: {!r}'.format(type(s)))


def is_str(x):
    return isinstance(x, (str, SymStr))


def _conj(conds):
    conds = [c for c in conds if c is not True]
    if any(c is False for c in conds):
        return False
    if not conds:
        return True
    if len(conds) == 1:
        return conds[0]
    return z3.And(*conds)


def _disj(conds):
    conds = [c for c in conds if c is not False]
    if any(c is True for c in conds):
        return True
    if not conds:
        return False
    if len(conds) == 1:
        return conds[0]
    return z3.Or(*conds)


def eq_cond(a, b):
    if has_atom(a) or has_atom(b):
        ta, tb = term_of(a), term_of(b)
        return True if ta.eq(tb) else ta == tb
    ia, ib = items_of(a), items_of(b)
    if len(ia) != len(ib):
        return False
    return _conj([ch_eq(x, y) for x, y in zip(ia, ib)])


def _br(c):
    if isinstance(c, bool):
        return c
    return engine().branch(c)


def in_ranges(c, ranges):
    """Condition: the character lies in one of the code point ranges."""
    if type(c) is Atom:
        raise Unsupported('characters of an opaque string')
    if isinstance(c, str):
        o = ord(c)
        return any(lo <= o <= hi for lo, hi in ranges)
    z = c.z
    if c.dom is not None:
        ranges = _clip(c.dom, tuple(ranges))
        if ranges is True:
            return True
    return _disj([(z == lo) if lo == hi else z3.And(z >= lo, z <= hi)
                  for lo, hi in ranges])


_CLIPS = {}


def _clip(dom, ranges):
    """Ranges which matter in the domain; True if all of it lies in them."""
    key = (dom, ranges)
    r = _CLIPS.get(key)
    if r is None:
        r = [(lo, hi) for lo, hi in ranges
             if any(lo <= b and a <= hi for a, b in dom)]
        if r and all(any(lo <= o <= hi for lo, hi in r)
                     for a, b in dom for o in range(a, b + 1)):
            r = True
        _CLIPS[key] = r
    return r


_PRED_CACHE = {}


def ranges_of(pred, limit=None):
    """Ranges of code points below the limit which satisfy a predicate on str."""
    limit = limit or DOMAIN_MAX + 1
    key = (pred, limit)
    if key not in _PRED_CACHE:
        out = []
        for o in range(limit):
            if pred(chr(o)):
                if out and out[-1][1] == o - 1:
                    out[-1] = (out[-1][0], o)
                else:
                    out.append((o, o))
        _PRED_CACHE[key] = out
    return _PRED_CACHE[key]


# symbolic characters range over 0..DOMAIN_MAX
DOMAIN_MAX = 0x2FF


def pred_cond(c, pred):
    if isinstance(c, str):
        return pred(c)
    return in_ranges(c, ranges_of(pred))


def fresh_str(hint, length, lo=0, hi=None):
    e = engine()
    hi = DOMAIN_MAX if hi is None else hi
    out = []
    for i in range(length):
        v = z3.Int(e.name('{}[{}]'.format(hint, i)))
        e.assume(z3.And(v >= lo, v <= hi))
        out.append(Ch(v))
    return mk(out)


def fresh_in(hint, doms):
    """Fresh text whose characters lie in the given ranges."""
    e = engine()
    out = []
    for i, dom in enumerate(doms):
        v = z3.Int(e.name('{}[{}]'.format(hint, i)))
        e.assume(z3.Or(*[(v == lo) if lo == hi else z3.And(v >= lo, v <= hi)
                         for lo, hi in dom]))
        out.append(Ch(v, tuple(dom)))
    return mk(out)


def _map_char(c, table):
    """Character obtained with a per-code-point table {(lo,hi): delta}."""
    z = c.z
    r = z
    if c.dom is not None:
        dom = tuple(c.dom)
        key = dom, id(table)
        if key not in _MAPS:
            tab = [((lo, hi), d) for (lo, hi), d in table
                   if any(lo <= b and a <= hi for a, b in dom)]
            img = set()
            for a, b in dom:
                for o in range(a, b + 1):
                    for (lo, hi), d in tab:
                        if lo <= o <= hi:
                            o += d
                            break
                    img.add(o)
            out = []
            for o in sorted(img):
                if out and out[-1][1] == o - 1:
                    out[-1] = (out[-1][0], o)
                else:
                    out.append((o, o))
            _MAPS[key] = tab, tuple(out), table
        table, new, _ = _MAPS[key]
        if not table:
            return c
    else:
        new = None
    for (lo, hi), delta in table:
        cond = (z == lo) if lo == hi else z3.And(z >= lo, z <= hi)
        r = z3.If(cond, z + delta, r)
    return Ch(r, new)


_MAPS = {}


_CASE = {}


def _case_table(fn):
    if fn not in _CASE:
        tab = []
        multi = []
        for o in range(DOMAIN_MAX + 1):
            t = fn(chr(o))
            if len(t) != 1:
                multi.append((o, t))
                continue
            d = ord(t) - o
            if d == 0:
                continue
            if tab and tab[-1][1] == d and tab[-1][0][1] == o - 1:
                tab[-1] = ((tab[-1][0][0], o), d)
            else:
                tab.append(((o, o), d))
        _CASE[fn] = (tab, multi)
    return _CASE[fn]


def _case_map(items, fn):
    out = []
    for c in items:
        if isinstance(c, str):
            out.extend(fn(c))
            continue
        tab, multi = _case_table(fn)
        done = False
        for o, t in multi:
            if c.dom is not None and not any(
                    lo <= o <= hi for lo, hi in c.dom):
                continue
            if _br(c.z == o):
                out.extend(t)
                done = True
                break
        if not done:
            out.append(_map_char(c, tab))
    return mk(out)


class SymStr(Sym):
    __slots__ = ('items', '_z', 'atom')

    def __init__(self, items):
        self.atom = None
        self.items = tuple(items)

    # -- protocol ---------------------------------------------------------
    def __len__(self):
        return len(self.items)

    def __bool__(self):
        if len(self.items) == 1 and type(self.items[0]) is Atom:
            return engine().branch(self.items[0].z != intern(''))
        return len(self.items) > 0

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        if not is_str(o):
            return False
        c = eq_cond(self, o)
        return c if isinstance(c, bool) else SymBool(c)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.z))

    def _less(self, o, strict):
        a, b = self.items, items_of(o)
        for x, y in zip(a, b):
            if _br(ch_eq(x, y)):
                continue
            return SymBool(_code(x) < _code(y))
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o): return self._less(o, True)
    def __le__(self, o): return self._less(o, False)

    def __gt__(self, o):
        r = self._less(o, False)
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.z))

    def __ge__(self, o):
        r = self._less(o, True)
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.z))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk(self.items[i])
        return mk((self.items[i], ))

    def __iter__(self):
        for c in self.items:
            yield mk((c, ))

    def __add__(self, o):
        if not is_str(o):
            raise TypeError('can only concatenate str')
        return mk(self.items + items_of(o))

    def __radd__(self, o):
        return mk(items_of(o) + self.items)

    def __mul__(self, n):
        return mk(self.items * n)

    __rmul__ = __mul__

    def __mod__(self, args):
        return fmt_percent(self, args)

    def __contains__(self, o):
        return bool(self.find(o) != -1)

    def __repr__(self):
        return '<SymStr {}>'.format(''.join(
            c if isinstance(c, str) else '?' for c in self.items))

    def __str__(self):
        raise Unsupported('str() of a symbolic string in native code')

    def __format__(self, spec):
        raise Unsupported('format() of a symbolic string in native code')

    # -- searching --------------------------------------------------------
    def _at(self, sub, i):
        return _conj([ch_eq(x, y) for x, y in zip(self.items[i:i + len(sub)],
                                                  sub)])

    def find(self, sub, start=0, end=None):
        sub = items_of(sub)
        n = len(self.items) if end is None else min(end, len(self.items))
        if start < 0:
            start = max(0, start + len(self.items))
        for i in range(start, n - len(sub) + 1):
            if _br(self._at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        sub = items_of(sub)
        n = len(self.items) if end is None else min(end, len(self.items))
        for i in range(n - len(sub), start - 1, -1):
            if _br(self._at(sub, i)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=0, end=None):
        if start or end is not None:
            part = self[start:end]
            return part.count(sub)
        sub = items_of(sub)
        n = i = 0
        while i <= len(self.items) - len(sub):
            if _br(self._at(sub, i)):
                n += 1
                i += max(1, len(sub))
            else:
                i += 1
        return n

    def startswith(self, pre, start=0):
        if isinstance(pre, tuple):
            return any(bool(self.startswith(p, start)) for p in pre)
        pre = items_of(pre)
        it = self.items[start:]
        if len(pre) > len(it):
            return False
        return _br(_conj([ch_eq(x, y) for x, y in zip(it, pre)]))

    def endswith(self, suf):
        if isinstance(suf, tuple):
            return any(bool(self.endswith(p)) for p in suf)
        suf = items_of(suf)
        if len(suf) > len(self.items):
            return False
        if not suf:
            return True
        return _br(_conj([ch_eq(x, y) for x, y in
                          zip(self.items[-len(suf):], suf)]))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    # -- predicates -------------------------------------------------------
    def _all(self, pred):
        if not self.items:
            return False
        return _br(_conj([pred_cond(c, pred) for c in self.items]))

    def isdigit(self): return self._all(str.isdigit)
    def isdecimal(self): return self._all(str.isdecimal)
    def isnumeric(self): return self._all(str.isnumeric)
    def isalpha(self): return self._all(str.isalpha)
    def isalnum(self): return self._all(str.isalnum)
    def isspace(self): return self._all(str.isspace)

    def isprintable(self):
        return _br(_conj([pred_cond(c, str.isprintable) for c in self.items]))

    def isascii(self):
        return _br(_conj([pred_cond(c, str.isascii) for c in self.items]))

    def isupper(self):
        no_low = _conj([_neg(pred_cond(c, str.islower)) for c in self.items])
        some = _disj([pred_cond(c, str.isupper) for c in self.items])
        return _br(_conj([no_low, some]))

    def islower(self):
        no_up = _conj([_neg(pred_cond(c, str.isupper)) for c in self.items])
        some = _disj([pred_cond(c, str.islower) for c in self.items])
        return _br(_conj([no_up, some]))

    def isidentifier(self):
        it = self.items
        if not it:
            return False
        return _br(_conj([pred_cond(it[0], str.isidentifier)] + [
            pred_cond(c, _id_cont) for c in it[1:]]))

    # -- transformations --------------------------------------------------
    def upper(self): return _case_map(self.items, str.upper)
    def lower(self): return _case_map(self.items, str.lower)
    def casefold(self): return _case_map(self.items, str.casefold)
    def swapcase(self): return _case_map(self.items, str.swapcase)

    def capitalize(self):
        if not self.items:
            return ''
        return _cat(_case_map(self.items[:1], str.title),
                    _case_map(self.items[1:], str.lower))

    def title(self):
        out = []
        prev = False
        for c in self.items:
            m = _case_map((c, ), str.lower if prev else str.title)
            out.extend(items_of(m))
            prev = _br(pred_cond(c, _cased))
        return mk(out)

    def _strip_set(self, chars):
        if chars is None:
            return lambda c: _br(pred_cond(c, str.isspace))
        cs = items_of(chars)
        return lambda c: _br(_disj([ch_eq(c, x) for x in cs]))

    def lstrip(self, chars=None):
        f = self._strip_set(chars)
        i = 0
        while i < len(self.items) and f(self.items[i]):
            i += 1
        return mk(self.items[i:])

    def rstrip(self, chars=None):
        f = self._strip_set(chars)
        i = len(self.items)
        while i > 0 and f(self.items[i - 1]):
            i -= 1
        return mk(self.items[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def replace(self, old, new, count=-1):
        old, new = items_of(old), items_of(new)
        out = []
        i = 0
        it = self.items
        if not old:
            for c in it:
                out.extend(new)
                out.append(c)
            out.extend(new)
            return mk(out)
        while i < len(it):
            if count != 0 and i + len(old) <= len(it) and _br(
                    self._at(old, i)):
                out.extend(new)
                i += len(old)
                count -= 1
            else:
                out.append(it[i])
                i += 1
        return mk(out)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            i, n = 0, len(self.items)
            ws = [None] * n

            def isws(k):
                if ws[k] is None:
                    ws[k] = _br(pred_cond(self.items[k], str.isspace))
                return ws[k]

            while True:
                while i < n and isws(i):
                    i += 1
                if i >= n:
                    return out
                if maxsplit == 0:
                    out.append(mk(self.items[i:]).rstrip())
                    return out
                j = i
                while j < n and not isws(j):
                    j += 1
                out.append(mk(self.items[i:j]))
                maxsplit -= 1
                i = j
        sep = items_of(sep)
        if not sep:
            raise ValueError('empty separator')
        cur = 0
        i = 0
        it = self.items
        while i + len(sep) <= len(it):
            if maxsplit != 0 and _br(self._at(sep, i)):
                out.append(mk(it[cur:i]))
                i += len(sep)
                cur = i
                maxsplit -= 1
            else:
                i += 1
        out.append(mk(it[cur:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit on whitespace')
        out = []
        rest = self
        while maxsplit > 0:
            i = rest.rfind(sep)
            if i < 0:
                break
            out.insert(0, rest[i + len(sep):])
            rest = rest[:i]
            maxsplit -= 1
        return [rest] + out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (self[:i], sep, self[i + len(sep):])

    def splitlines(self, keepends=False):
        out = []
        cur = []
        it = self.items
        i = 0
        n = len(it)
        if n > 400:
            pass
        while i < n:
            c = it[i]
            if _br(pred_cond(c, _is_linesep)):
                end = [c]
                if i + 1 < n and _br(_conj([ch_eq(c, '\r'),
                                            ch_eq(it[i + 1], '\n')])):
                    end.append(it[i + 1])
                    i += 1
                out.append(mk(cur + end if keepends else cur))
                cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(mk(cur))
        return out

    def expandtabs(self, tabsize=8):
        out = []
        col = 0
        for c in self.items:
            if _br(ch_eq(c, '\t')):
                n = tabsize - col % tabsize if tabsize > 0 else 0
                out.extend(' ' * n)
                col += n
            else:
                out.append(c)
                col = 0 if _br(_disj([ch_eq(c, '\n'), ch_eq(c, '\r')])) \
                    else col + 1
        return mk(out)

    def join(self, seq):
        return join(self, seq)

    def format(self, *a, **k):
        return fmt_braces(self, a, k)

    def translate(self, table):
        out = []
        for c in self.items:
            if isinstance(c, str):
                out.extend(c.translate(table))
                continue
            for k, v in table.items():
                if _br(c.z == k):
                    if v is not None:
                        out.extend(chr(v) if isinstance(v, int) else
                                   items_of(v))
                    break
            else:
                out.append(c)
        return mk(out)

    def ljust(self, w, f=' '):
        return mk(self.items + tuple(f) * (w - len(self.items)))

    def rjust(self, w, f=' '):
        return mk(tuple(f) * (w - len(self.items)) + self.items)

    def zfill(self, w):
        it = self.items
        if it and _br(_disj([ch_eq(it[0], '+'), ch_eq(it[0], '-')])):
            return mk(it[:1] + ('0', ) * (w - len(it)) + it[1:])
        return self.rjust(w, '0')

    def encode(self, encoding='utf-8', errors='strict'):
        if encoding.lower().replace('-', '') != 'utf8':
            raise Unsupported('encoding {}'.format(encoding))
        out = []
        for c in self.items:
            if isinstance(c, str):
                out.extend(c.encode(encoding, errors))
            elif not isinstance(c, Ch):
                raise Unsupported('encode of an opaque string')
            else:
                z = c.z
                if _br(z < 0x80):
                    out.append(SymInt(z))
                    continue
                if _br(z < 0x800):
                    out.append(SymInt(z / 64 + 0xc0))
                elif _br(z < 0x10000):
                    if _br(z3.And(z >= 0xd800, z <= 0xdfff)):
                        raise UnicodeEncodeError(
                            'utf-8', '?', 0, 1, 'surrogates not allowed')
                    out.append(SymInt(z / 4096 + 0xe0))
                    out.append(SymInt(z / 64 % 64 + 0x80))
                else:
                    out.append(SymInt(z / 262144 + 0xf0))
                    out.append(SymInt(z / 4096 % 64 + 0x80))
                    out.append(SymInt(z / 64 % 64 + 0x80))
                out.append(SymInt(z % 64 + 0x80))
        return Encoded(out, self)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


class Encoded(list):
    """Bytes of a text."""

    def __init__(self, items, text):
        super().__init__(items)
        self.text = text

    def decode(self, encoding='utf-8', errors='strict'):
        if encoding.lower().replace('-', '') != 'utf8':
            raise Unsupported('encoding {}'.format(encoding))
        return self.text


def _neg(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def _id_cont(c):
    return ('a' + c).isidentifier()


def _cased(c):
    return c.lower() != c.upper() or c.istitle()


def _is_linesep(c):
    return len((c + 'x').splitlines()) == 2


def _cat(a, b):
    return mk(items_of(a) + items_of(b))


def join(sep, seq):
    seq = list(seq)
    out = []
    for i, s in enumerate(seq):
        if not is_str(s):
            raise TypeError('sequence item {}: expected str instance, {} '
                            'found'.format(i, type(s).__name__))
        if i:
            out.extend(items_of(sep))
        out.extend(items_of(s))
    return mk(out)


# ---------------------------------------------------------------------------
# repr / formatting
# ---------------------------------------------------------------------------


def repr_str(s):
    """Model of ``repr`` of a string."""
    if has_atom(s):
        return opaque(REPR(term_of(s)), ('repr', s))
    it = items_of(s)
    has_sq = _br(_disj([ch_eq(c, "'") for c in it]))
    has_dq = has_sq and _br(_disj([ch_eq(c, '"') for c in it]))
    q = '"' if has_sq and not has_dq else "'"
    out = [q]
    for c in it:
        if isinstance(c, str):
            r = repr(c)[1:-1]
            if c == "'":
                r = "\\'" if q == "'" else "'"
            elif c == '"':
                r = '"'
            out.extend(r)
            continue
        out.extend(_repr_ch(c, q))
    out.append(q)
    return mk(out)


def _plain_repr(c):
    return c.isprintable() and c not in "\\'\""


def figures(z, n, base, upper=False):
    """The n digits of the non-negative number."""
    out = []
    for i in range(n):
        d = z / base ** (n - 1 - i) % base
        out.append(Ch(
            d + 48 if base <= 10 else z3.If(
                d < 10, d + 48, d + (55 if upper else 87)),
            ((48, 47 + base), ) if base <= 10 else
            ((48, 57), (65, 70) if upper else (97, 102)),
            (z, i, n, base)))
    return out


def number_of(text, base):
    """The number whose digits make up the text, if that is known."""
    items = list(items_of(text))
    while len(items) > 1 and isinstance(items[0], str) and items[0] == '0':
        del items[0]
    f = getattr(items[0], 'figure', None) if items else None
    if f is None:
        return None
    for i, c in enumerate(items):
        g = getattr(c, 'figure', None)
        if g is None or g[1] != f[1] + i or g[2] != f[2] or g[3] != base \
                or not g[0].eq(f[0]):
            return None
    last = f[1] + len(items)
    z = f[0]
    if last != f[2]:
        z = z / base ** (f[2] - last)
    if f[1] != 0:
        z = z % base ** len(items)
    return wrap(z)


def _repr_ch(c, q):
    if _br(pred_cond(c, _plain_repr)):
        return [c]
    for k, v in (('\\', '\\\\'), ('\n', '\\n'), ('\r', '\\r'), ('\t', '\\t'),
                 ('"', '"'), ("'", "\\'" if q == "'" else "'")):
        if _br(c.z == ord(k)):
            return list(v)
    z = c.z

    if _br(z < 256):
        return ['\\', 'x'] + figures(z, 2, 16)
    return ['\\', 'u'] + figures(z, 4, 16)


def to_str(x):
    """``str(x)`` for concrete and symbolic values."""
    if isinstance(x, SymStr):
        return x
    f = getattr(x, '__sx_str__', None)
    if f is not None:
        return f()
    return str(x)


def _conv(x, c):
    if c == 'r':
        return repr_any(x)
    if c == 'a':
        if isinstance(x, SymStr):
            raise Unsupported('!a of a symbolic string')
        return ascii(x)
    return to_str(x)


def repr_any(x):
    if isinstance(x, SymStr):
        return repr_str(x)
    f = getattr(x, '__sx_repr__', None)
    if f is not None:
        return f()
    if isinstance(x, (list, tuple)) and contains_sym(x):
        inner = join(', ', [repr_any(y) for y in x])
        if isinstance(x, tuple):
            return _cat(_cat('(', inner), ',)' if len(x) == 1 else ')')
        return _cat(_cat('[', inner), ']')
    return repr(x)


def contains_sym(x):
    return any(isinstance(y, SymStr) or hasattr(y, '__sx_repr__') for y in x)


def fmt_spec(x, spec):
    if not spec and hasattr(x, '__sx_str__'):
        return x.__sx_str__()
    if isinstance(x, SymStr):
        if spec in ('', 's'):
            return x
        m = re.fullmatch(r'(?:(.)?([<>^]))?(\d+)?s?', spec)
        if m and m.group(3):
            f, al, w = m.group(1) or ' ', m.group(2) or '<', int(m.group(3))
            if al == '<':
                return x.ljust(w, f)
            if al == '>':
                return x.rjust(w, f)
        raise Unsupported('format spec {!r}'.format(spec))
    if isinstance(spec, SymStr):
        raise Unsupported('symbolic format spec')
    if isinstance(x, SymInt):
        m = re.fullmatch(r'(0?)(\d*)([xXo])', spec)
        if not m and DECIMAL:
            m = re.fullmatch(r'(0?)(\d*)()d?', spec)
        if m:
            return digits(x.z, int(m.group(2) or 0), m.group(3),
                          '0' if m.group(1) else ' ')
        if spec and spec[-1] in 'xXobcn':
            raise Unsupported('format spec {!r}'.format(spec))
    return format(x, spec)


# integers are formatted digit by digit (otherwise as known numbers which
# stand for their expressions)
DECIMAL = False


def digits(z, width, conv, fill='0'):
    """The digits of a number in the base."""
    if _br(z < 0):
        if conv or fill != ' ' or width:
            raise Unsupported('digits of a negative number')
        return mk(['-'] + list(items_of(digits(-z, 0, conv, fill))))
    base = {'o': 8, '': 10}.get(conv, 16)
    n = 1
    while not _br(z < base ** n):
        n += 1
        if n > (20 if base == 10 else 8):
            raise Unsupported('digits of a large number')
    out = figures(z, n, base, conv == 'X')
    return mk([fill] * (width - n) + out)


import string as _string  # noqa: E402


def fmt_braces(fmt, args, kwargs):
    """Model of ``str.format``."""
    if isinstance(fmt, SymStr):
        # decide the brace structure by forking on symbolic characters
        conc = []
        table = {}
        for c in fmt.items:
            if isinstance(c, str):
                conc.append(c)
            elif _br(c.z == ord('{')):
                conc.append('{')
            elif _br(c.z == ord('}')):
                conc.append('}')
            else:
                k = chr(0xE000 + len(table))
                table[k] = c
                conc.append(k)
        text = ''.join(conc)
    else:
        text, table = fmt, {}

    def back(s):
        if not table or not isinstance(s, str):
            return s
        return mk([table.get(c, c) for c in s])

    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(text):
        if lit:
            out.append(back(lit))
        if field is None:
            continue
        if any(c in table for c in field) or any(c in table
                                                 for c in (spec or '')):
            raise KeyError(field)
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        m = re.match(r'[^.\[]+', field)
        first = m.group(0)
        if first.isdigit():
            obj = args[int(first)]
        else:
            obj = kwargs[first]
        rest = field[m.end():]
        while rest:
            m = re.match(r'\.([^.\[]+)|\[([^\]]+)\]', rest)
            if not m:
                raise ValueError('bad field')
            if m.group(1):
                obj = getattr(obj, m.group(1))
            else:
                k = m.group(2)
                obj = obj[int(k) if k.isdigit() else k]
            rest = rest[m.end():]
        if spec and '{' in spec:
            spec = fmt_braces(spec, args, kwargs)
        if conv:
            obj = _conv(obj, conv)
        out.append(fmt_spec(obj, spec or ''))
    return join('', out)


_PCT = re.compile(r'%(?:\(([^)]*)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?'
                  r'[hlL]?(.)', re.S)


def fmt_percent(fmt, args):
    """Model of the ``%`` operator on strings."""
    if isinstance(fmt, SymStr):
        conc = []
        table = {}
        for c in fmt.items:
            if isinstance(c, str):
                conc.append(c)
            elif _br(c.z == ord('%')):
                conc.append('%')
            else:
                # after a percent sign the character matters
                if conc and conc[-1] == '%':
                    raise Unsupported('symbolic conversion character')
                k = chr(0xE000 + len(table))
                table[k] = c
                conc.append(k)
        text = ''.join(conc)
    else:
        text, table = fmt, {}
    out = []
    mapping = args if isinstance(args, dict) else None
    if not isinstance(args, tuple):
        args = (args, )
    idx = 0
    pos = 0
    used_named = False
    while True:
        i = text.find('%', pos)
        lit = text[pos:] if i < 0 else text[pos:i]
        if lit:
            out.append(mk([table.get(c, c) for c in lit]))
        if i < 0:
            break
        m = _PCT.match(text, i)
        if not m:
            raise ValueError('incomplete format')
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if name is not None:
            used_named = True
            val = mapping[name]
        else:
            if idx >= len(args):
                raise TypeError('not enough arguments for format string')
            val = args[idx]
            idx += 1
        if conv in 'sra':
            s = to_str(val) if conv == 's' else _conv(val, conv)
            if prec is not None:
                s = s[:int(prec)]
            if width:
                w = int(width)
                if isinstance(s, SymStr):
                    s = s.ljust(w) if '-' in flags else s.rjust(w)
                else:
                    s = s.ljust(w) if '-' in flags else s.rjust(w)
            out.append(s)
        else:
            if isinstance(val, SymStr):
                raise TypeError('%{} format: a number is required'.format(
                    conv))
            spec = '%' + flags + (width or '') + (
                '.' + prec if prec is not None else '') + conv
            if isinstance(val, SymInt) and conv in 'xXoc':
                if conv == 'c' or flags.strip('0') or prec is not None:
                    raise Unsupported('format {!r}'.format(spec))
                out.append(digits(val.z, int(width or 0), conv,
                                  '0' if flags else ' '))
                continue
            out.append(spec % val)
    if not used_named and mapping is None and idx < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return join('', out)


# ---------------------------------------------------------------------------
# regular expressions
# ---------------------------------------------------------------------------

_CAT = {
    sc.CATEGORY_DIGIT: (lambda c: c.isdigit() and c.isdecimal(), False),
    sc.CATEGORY_NOT_DIGIT: (lambda c: c.isdecimal(), True),
    sc.CATEGORY_SPACE: (str.isspace, False),
    sc.CATEGORY_NOT_SPACE: (str.isspace, True),
    sc.CATEGORY_WORD: (lambda c: c.isalnum() or c == '_', False),
    sc.CATEGORY_NOT_WORD: (lambda c: c.isalnum() or c == '_', True),
}


def _cat_cond(cat, c):
    pred, neg = _CAT[cat]
    r = pred_cond(c, pred)
    return _neg(r) if neg else r


def _in_cond(av, c, flags):
    neg = False
    conds = []
    variants = _variants(c, flags)
    for op, a in av:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            conds.extend(in_ranges(v, [(a, a)]) for v in variants)
        elif op is sc.RANGE:
            conds.extend(in_ranges(v, [(a[0], a[1])]) for v in variants)
        elif op is sc.CATEGORY:
            conds.append(_cat_cond(a, c))
        else:
            raise Unsupported('regex set item {}'.format(op))
    r = _disj(conds)
    return _neg(r) if neg else r


def _variants(c, flags):
    if not flags & re.I:
        return [c]
    s = mk((c, ))
    return [c] + list(items_of(s.lower())) + list(items_of(s.upper()))


class SymMatch(Sym):
    """Match object over a symbolic subject."""

    def __init__(self, pat, subject, spans, pos=0):
        self.re = pat
        self.string = subject
        self.spans = spans
        self.pos = pos
        self.endpos = len(items_of(subject))

    def __bool__(self):
        return True

    def _idx(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        return g

    def span(self, g=0):
        return self.spans.get(self._idx(g), (-1, -1))

    def start(self, g=0): return self.span(g)[0]
    def end(self, g=0): return self.span(g)[1]

    def _g(self, g, default=None):
        i = self._idx(g)
        if i > self.re.groups:
            raise IndexError('no such group')
        if i not in self.spans:
            return default
        a, b = self.spans[i]
        return mk(items_of(self.string)[a:b])

    def group(self, *gs):
        if not gs:
            return self._g(0)
        if len(gs) == 1:
            return self._g(gs[0])
        return tuple(self._g(g) for g in gs)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._g(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._g(i, default) for k, i in self.re.groupindex.items()}

    @property
    def lastindex(self):
        return max((i for i in self.spans if i), default=None)

    @property
    def lastgroup(self):
        li = self.lastindex
        for k, i in self.re.groupindex.items():
            if i == li:
                return k
        return None

    def expand(self, tpl):
        return _expand(tpl, self)


_PARSED = {}


def _parsed(pat):
    k = (pat.pattern, pat.flags)
    if k not in _PARSED:
        _PARSED[k] = sp.parse(pat.pattern, pat.flags & ~re.U)
    return _PARSED[k]


class _Matcher:
    def __init__(self, pat, subject):
        self.items = items_of(subject)
        self.n = len(self.items)
        self.flags = pat.flags
        self.tree = _parsed(pat)

    def run(self, pos, full=False, advance=False):
        def k(p, g):
            if full and p != self.n:
                return None
            if advance and p == pos:
                return None
            return p, g
        r = self.seq(list(self.tree), 0, pos, {}, k)
        if r is None:
            return None
        end, groups = r
        spans = dict(groups)
        spans[0] = (pos, end)
        return spans

    def seq(self, ops, i, pos, g, k):
        if i == len(ops):
            return k(pos, g)
        op, av = ops[i]
        nxt = lambda p, gg: self.seq(ops, i + 1, p, gg, k)  # noqa: E731
        return self.op(op, av, pos, g, nxt)

    def one(self, op, av, pos):
        """Condition that a single-character op matches at pos."""
        if pos >= self.n:
            return False
        c = self.items[pos]
        if op is sc.LITERAL:
            return _disj([in_ranges(v, [(av, av)])
                          for v in _variants(c, self.flags)])
        if op is sc.NOT_LITERAL:
            return _neg(_disj([in_ranges(v, [(av, av)])
                               for v in _variants(c, self.flags)]))
        if op is sc.ANY:
            if self.flags & re.S:
                return True
            return _neg(ch_eq(c, '\n'))
        if op is sc.IN:
            return _in_cond(av, c, self.flags)
        if op is sc.CATEGORY:
            return _cat_cond(av, c)
        return None

    def word(self, p):
        if p < 0 or p >= self.n:
            return False
        return _br(pred_cond(self.items[p],
                             lambda c: c.isalnum() or c == '_'))

    def op(self, op, av, pos, g, k):
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN, sc.CATEGORY):
            if _br(self.one(op, av, pos)):
                return k(pos + 1, g)
            return None
        if op is sc.SUBPATTERN:
            group, add, rem, sub = av

            def k2(p, gg):
                if group is not None:
                    gg = dict(gg)
                    gg[group] = (pos, p)
                return k(p, gg)
            return self.seq(list(sub), 0, pos, g, k2)
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, pos, g, k)
                if r is not None:
                    return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            return self.repeat(op, lo, hi, list(sub), 0, pos, g, k)
        if op is sc.AT:
            if self.at(av, pos):
                return k(pos, g)
            return None
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, sub = av
            if d > 0:
                r = self.seq(list(sub), 0, pos, g, lambda p, gg: (p, gg))
            else:
                lo, hi = sub.getwidth()
                r = None
                if pos - lo >= 0:
                    r = self.seq(list(sub), 0, pos - lo, g,
                                 lambda p, gg: (p, gg) if p == pos else None)
            if (r is not None) == (op is sc.ASSERT):
                return k(pos, r[1] if r is not None else g)
            return None
        if op is sc.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            ln = b - a
            if pos + ln > self.n:
                return None
            if _br(_conj([ch_eq(x, y) for x, y in
                          zip(self.items[a:b], self.items[pos:pos + ln])])):
                return k(pos + ln, g)
            return None
        raise Unsupported('regex op {}'.format(op))

    def repeat(self, op, lo, hi, sub, count, pos, g, k):
        def again():
            if hi is not sc.MAXREPEAT and count >= hi:
                return None
            return self.seq(
                sub, 0, pos, g,
                lambda p, gg: (None if p == pos and count >= lo else
                               self.repeat(op, lo, hi, sub, count + 1, p, gg,
                                           k)))
        if count < lo:
            return again()
        if op is sc.MIN_REPEAT:
            r = k(pos, g)
            return r if r is not None else again()
        r = again()
        return r if r is not None else k(pos, g)

    def at(self, av, pos):
        if av is sc.AT_BEGINNING:
            if pos == 0:
                return True
            return bool(self.flags & re.M) and _br(
                ch_eq(self.items[pos - 1], '\n'))
        if av is sc.AT_BEGINNING_STRING:
            return pos == 0
        if av is sc.AT_END:
            if pos == self.n:
                return True
            if self.flags & re.M:
                return _br(ch_eq(self.items[pos], '\n'))
            return pos == self.n - 1 and _br(ch_eq(self.items[pos], '\n'))
        if av is sc.AT_END_STRING:
            return pos == self.n
        if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            b = self.word(pos - 1) != self.word(pos)
            return b if av is sc.AT_BOUNDARY else not b
        raise Unsupported('regex assertion {}'.format(av))


def re_match(pat, s, pos=0):
    sp_ = _Matcher(pat, s).run(pos)
    return SymMatch(pat, s, sp_, pos) if sp_ is not None else None


def re_fullmatch(pat, s, pos=0):
    sp_ = _Matcher(pat, s).run(pos, full=True)
    return SymMatch(pat, s, sp_, pos) if sp_ is not None else None


def re_search(pat, s, pos=0):
    m = _Matcher(pat, s)
    for i in range(pos, m.n + 1):
        sp_ = m.run(i)
        if sp_ is not None:
            return SymMatch(pat, s, sp_, pos)
    return None


def re_finditer(pat, s):
    m = _Matcher(pat, s)
    pos = 0
    advance = False
    while pos <= m.n:
        found = None
        for i in range(pos, m.n + 1):
            sp_ = m.run(i, advance=advance and i == pos)
            if sp_ is not None:
                found = sp_
                break
        if found is None:
            return
        yield SymMatch(pat, s, found)
        a, b = found[0]
        pos = b
        advance = a == b


def _expand(tpl, m):
    if callable(tpl):
        return tpl(m)
    if isinstance(tpl, SymStr):
        raise Unsupported('symbolic replacement template')
    if '\\' not in tpl:
        return tpl
    parsed = sp.parse_template(tpl, m.re)
    out = []
    for p in parsed:
        if isinstance(p, int):
            out.append(m._g(p) if m._g(p) is not None else '')
        else:
            out.append(p)
    return join('', out)


def re_sub(pat, repl, s, count=0):
    out = []
    last = 0
    it = items_of(s)
    for m in re_finditer(pat, s):
        a, b = m.span()
        out.append(mk(it[last:a]))
        out.append(_expand(repl, m))
        last = b
        if count:
            count -= 1
            if count == 0:
                break
    out.append(mk(it[last:]))
    return join('', out)


def re_split(pat, s, maxsplit=0):
    out = []
    last = 0
    it = items_of(s)
    for m in re_finditer(pat, s):
        a, b = m.span()
        out.append(mk(it[last:a]))
        out.extend(m.groups())
        last = b
        if maxsplit:
            maxsplit -= 1
            if maxsplit == 0:
                break
    out.append(mk(it[last:]))
    return out


def re_findall(pat, s):
    out = []
    for m in re_finditer(pat, s):
        gs = m.groups()
        out.append(m.group(0) if not gs else
                   (gs[0] or '') if len(gs) == 1 else
                   tuple(x or '' for x in gs))
    return out


def str_of_model(s, model):
    """Concrete string for a model."""
    if isinstance(s, str):
        return s
    out = []
    for c in s.items:
        if isinstance(c, str):
            out.append(c)
        else:
            out.append(chr(model.eval(c.z, model_completion=True).as_long()))
    return ''.join(out)

"""Reference semantics: which JSON values conform to a schema, and where not."""
import collections

import z3

from sx import strs
from sx.core import SymFloat, SymInt, engine, to_z
from sx.jv import BOOL, DICT, FLOAT, INT, JV, LIST, NULL, STR
from sx.pyexec import date_ok, dur_ok, pat_ok, pred, tz_ok

EXACT = 2**53
INT64 = 2**63

# layouts of Go for the directives of strftime (see the Go documentation)
GO_LAYOUT = {'a': 'Mon', 'A': 'Monday', 'b': 'Jan', 'B': 'January',
             'd': '02', 'e': '_2', 'm': '01', 'y': '06', 'Y': '2006',
             'H': '15', 'I': '03', 'l': '3', 'M': '04', 'S': '05', 'p': 'PM',
             'P': 'pm', 'z': '-0700', 'Z': 'MST', 'f': '000000', '%': '%'}


def go_layout(fmt):
    out, i = '', 0
    while i < len(fmt):
        if fmt[i] == '%':
            out += GO_LAYOUT[fmt[i + 1]]
            i += 2
        else:
            out += fmt[i]
            i += 1
    return out


def prefix_ok(fmt):
    """The text starts with a date of the format and goes on."""
    return pred('date_prefix[{}]'.format(fmt))


Viol = collections.namedtuple('Viol', 'cond segs why top registry')


class Key:
    """Segment of a reference which is a key of the data."""

    def __init__(self, s):
        self.s = s


class Ctx:
    """Options of the target language and the listed findings."""

    def __init__(self, g, lang='py', findings=()):
        self.g = g
        self.lang = lang
        self.findings = set(findings)


# ---------------------------------------------------------------------------
# symbolic values shaped after a specification
# ---------------------------------------------------------------------------


LEAN = {'boolean': (BOOL, STR), 'integer': (INT, STR), 'float': (FLOAT, STR),
        'array': (LIST, STR), 'map': (DICT, STR), 'embed': (DICT, STR)}
_lean = False
_lang = 'py'
# decoded by encoding/json all numbers are float64
GO_KINDS = (NULL, BOOL, FLOAT, STR, LIST, DICT)


def kinds_of(kind):
    if _lean:
        ks = LEAN.get(kind, (STR, BOOL))
        return tuple(FLOAT if k == INT else k for k in ks) if \
            _lang == 'go' else ks
    return GO_KINDS if _lang == 'go' else None


def shape_value(g, t, name, n):
    v = JV(name, kinds_of(t.kind))
    v.spec = t
    if _lang == 'cpp':
        # what JsonCpp holds
        engine().assume(z3.Implies(v.k == INT, z3.And(
            v.i >= -INT64, v.i < 2 * INT64)))
        if t.kind == 'integer':
            # of a float ``i`` is the floor
            fl = z3.ToReal(v.i)
            v.whole = z3.Bool(name + '.whole')
            engine().assume(z3.Implies(v.k == FLOAT, z3.And(
                fl <= v.f, v.f < fl + 1, v.whole == (v.f == fl))))
    if t.kind == 'float' and _lang != 'go':
        # floats are modelled as reals: integral inputs are exact
        engine().assume(z3.Implies(v.k == INT, z3.And(
            v.i >= -EXACT, v.i <= EXACT)))
    if t.kind == 'array':
        v.set_list([shape_value(g, t.values, '{}_{}'.format(name, i), n)
                    for i in range(n)])
    elif t.kind == 'map':
        v.set_map([shape_value(g, t.values, '{}_{}'.format(name, i), n)
                   for i in range(n)])
    elif t.kind == 'embed':
        v.set_record([(p.json, shape_value(g, p.t, name + '_' + p.name, n))
                      for p in g.embeds[t.ref].props])
    return v


def shape_composite(g, c, name, n):
    v = JV(name, (DICT, ) if _lean else kinds_of('embed'))
    v.set_record([(p.json, shape_value(g, p.t, name + '_' + p.name, n))
                  for p in c.props])
    return v


def shape_graph(g, n, n_inst, lean=False, lang='py'):
    """``lean``: the kinds of composites are right, two kinds elsewhere."""
    global _lean, _lang
    _lean = lean
    _lang = lang
    kinds = (DICT, ) if lean else kinds_of('embed')
    v = JV('g', kinds)
    fields = []
    v.registries = {}
    for c in g.classes.values():
        reg = JV('reg_' + c.name, kinds)
        reg.set_map([shape_composite(g, c, '{}{}'.format(c.name, i), n)
                     for i in range(n_inst)])
        v.registries[c.name] = reg
        fields.append((c.registry(), reg))
    for p in g.graph.props:
        fields.append((p.json, shape_value(g, p.t, p.name, n)))
    v.set_record(fields)
    return v


# ---------------------------------------------------------------------------
# conditions
# ---------------------------------------------------------------------------

def member(v, key):
    for p, k, x in v.entries:
        if isinstance(k, str) and k == key:
            return p, x
    raise KeyError(key)


def numeric(v, is_int):
    """Numeric value of a JSON number as a term (bool counts as 0/1)."""
    b = z3.If(v.b, z3.IntVal(1), z3.IntVal(0))
    i = z3.If(v.k == BOOL, b, v.i)
    if is_int:
        return i
    return z3.If(v.k == FLOAT, v.f, z3.ToReal(i))


def range_violation(t, x):
    bad = []
    ints = z3.is_int(x) and all(
        b is None or z3.is_int(to_z(b)) for b in (t.minimum, t.maximum))
    xr = x if z3.is_real(x) or ints else z3.ToReal(x)

    def real(b):
        z = to_z(b)
        return z if z3.is_real(z) or ints else z3.ToReal(z)
    if t.minimum is not None:
        m = real(t.minimum)
        bad.append(xr <= m if t.xmin else xr < m)
    if t.maximum is not None:
        m = real(t.maximum)
        bad.append(xr >= m if t.xmax else xr > m)
    return z3.Or(*bad) if bad else z3.BoolVal(False)


def find_id(g_jv, cls, z):
    """Condition: the registry of the class has the id named ``z``."""
    reg = g_jv.registries[cls]
    p, _ = member(g_jv, _registry_key(g_jv, reg))
    return z3.And(p, reg.k == DICT, z3.Or(*[
        z3.And(pp, strs.term_of(k) == z) for pp, k, _ in reg.entries]))


def _registry_key(g_jv, reg):
    for p, k, x in g_jv.entries:
        if x is reg:
            return k
    raise KeyError('registry')


def scalar_violation(ctx, t, v, g_jv):
    k = t.kind
    if k == 'boolean':
        return v.k != BOOL
    if ctx.lang == 'go':
        if k == 'integer':
            return z3.Or(v.k != FLOAT, z3.Not(z3.IsInt(v.f)), v.f >= INT64,
                         v.f < -INT64, range_violation(t, v.f))
        if k == 'float':
            return z3.Or(v.k != FLOAT, range_violation(t, v.f))
        if k in ('date', 'time', 'datetime'):
            return z3.Or(v.k != STR, z3.Not(date_ok(
                'go:' + go_layout(t.fmt))(v.s)))
    if k == 'integer' and ctx.lang == 'cpp':
        return z3.Or(z3.Not(v.is_kind(INT, FLOAT)), z3.And(
            v.k == FLOAT, z3.Not(v.whole)), v.i >= INT64, v.i < -INT64,
                     range_violation(t, v.i))
    if k == 'integer':
        kinds = [INT] + ([BOOL] if 'bool-as-number' in ctx.findings else [])
        return z3.Or(z3.Not(v.is_kind(*kinds)),
                     range_violation(t, numeric(v, True)))
    if k == 'float':
        kinds = [INT, FLOAT] + (
            [BOOL] if 'bool-as-number' in ctx.findings else [])
        return z3.Or(z3.Not(v.is_kind(*kinds)),
                     range_violation(t, numeric(v, False)))
    if k == 'string' or k == 'path':
        if t.pattern is None:
            return v.k != STR
        return z3.Or(v.k != STR, z3.Not(pat_ok(t.pattern)(v.s)))
    if k in ('date', 'time', 'datetime'):
        bad = z3.Not(date_ok(t.fmt)(v.s))
        if 'trailing-date' in ctx.findings and \
                ctx.g.cpp['datetime_library'] == 'date.h':
            bad = z3.And(bad, z3.Not(prefix_ok(t.fmt)(v.s)))
        return z3.Or(v.k != STR, bad)
    if k == 'time_zone':
        if ctx.lang == 'cpp' and ctx.g.cpp['datetime_library'] == 'ctime':
            return v.k != STR
        if ctx.g.tz_as == 'str' and ctx.lang == 'py':
            return v.k != STR
        return z3.Or(v.k != STR, z3.Not(tz_ok()(v.s)))
    if k == 'duration':
        return z3.Or(v.k != STR, z3.Not(dur_ok()(v.s)))
    if k == 'ref':
        return z3.Or(v.k != STR, z3.Not(find_id(g_jv, t.ref, v.s)))
    raise ValueError(k)


class Walk:
    """Collects the violations of a value tree."""

    def __init__(self, ctx, g_jv):
        self.ctx = ctx
        self.g_jv = g_jv
        self.out = []

    def add(self, guard, cond, segs, why, clean, registry=False):
        """``clean``: no enclosing value is itself in violation."""
        self.out.append(Viol(z3.And(guard, cond), segs, why,
                             z3.And(guard, clean, cond), registry))

    def value(self, t, v, segs, guard, clean):
        if t.kind == 'array':
            bad = [v.k != LIST]
            if t.minsize is not None:
                bad.append(v.n < to_z(t.minsize))
            if t.maxsize is not None:
                bad.append(v.n > to_z(t.maxsize))
            bad = z3.Or(*bad)
            self.add(guard, bad, segs, 'array', clean)
            for i, x in enumerate(v.items_):
                self.value(t.values, x, segs + [str(i)],
                           z3.And(guard, v.k == LIST, v.n > i),
                           z3.And(clean, z3.Not(bad)))
        elif t.kind == 'map':
            self.add(guard, v.k != DICT, segs, 'map', clean)
            for p, k, x in v.entries:
                self.value(t.values, x, segs + [Key(k)],
                           z3.And(guard, v.k == DICT, p), clean)
        elif t.kind == 'embed':
            self.composite(self.ctx.g.embeds[t.ref].props, v, segs, guard,
                           clean)
        else:
            self.add(guard, scalar_violation(self.ctx, t, v, self.g_jv), segs,
                     t.kind, clean)

    def composite(self, props, v, segs, guard, clean):
        self.add(guard, v.k != DICT, segs, 'composite', clean)
        self.props(props, v, segs, z3.And(guard, v.k == DICT), clean)

    def props(self, props, v, segs, guard, clean):
        for p in props:
            has, x = member(v, p.json)
            null = z3.And(has, x.k == NULL)
            here = z3.And(guard, has, z3.Not(null))
            if not p.optional:
                self.add(guard, z3.Not(has), segs, 'missing', clean)
                # a null value: reported as missing or as a wrong type
                self.out.append(Viol(z3.And(guard, null), segs, 'null',
                                     z3.BoolVal(False), False))
                self.out.append(Viol(z3.And(guard, null), segs + [p.json],
                                     'null', z3.BoolVal(False), False))
            self.value(p.t, x, segs + [p.json], here, clean)

    def graph(self):
        g, v = self.ctx.g, self.g_jv
        T = z3.BoolVal(True)
        self.add(T, v.k != DICT, [], 'graph', T)
        base = v.k == DICT
        reg_bad = []
        regs = []
        for c in g.classes.values():
            has, reg = member(v, c.registry())
            if 'null-registry' in self.ctx.findings:
                has = z3.And(has, reg.k != NULL)
            guard = z3.And(base, has)
            segs = [c.registry()]
            self.add(guard, reg.k != DICT, segs, 'registry', T, True)
            reg_bad.append(z3.And(guard, reg.k != DICT))
            for p, k, inst in reg.entries:
                ig = z3.And(guard, reg.k == DICT, p)
                if c.id_pattern is not None:
                    bad = z3.Not(pat_ok(c.id_pattern)(strs.term_of(k)))
                    # located at the registry or at the entry
                    self.out.append(Viol(z3.And(ig, bad), segs + [Key(k)],
                                         'id', z3.BoolVal(False), True))
                    self.out.append(Viol(z3.And(ig, bad), segs, 'id',
                                         z3.BoolVal(False), True))
                    reg_bad.append(z3.And(ig, bad))
                regs.append((c, inst, segs + [Key(k)], ig))
        clean = z3.Not(z3.Or(*reg_bad)) if reg_bad else T
        for c, inst, segs, ig in regs:
            self.composite(c.props, inst, segs, ig, clean)
        self.props(g.graph.props, v, [], base, clean)
        return self.out


def violations(ctx, g_jv):
    return Walk(ctx, g_jv).graph()


class Viols(list):
    """Violations with their disjunction."""
    any = None


def violated(vs):
    if isinstance(vs, Viols):
        return vs.any
    return z3.Or(*[v.cond for v in vs]) if vs else z3.BoolVal(False)


def nulls(ctx, g_jv):
    """Some optional property is null (acceptance is not prescribed)."""
    out = []

    def val(t, v, guard):
        if t.kind == 'array':
            for i, x in enumerate(v.items_):
                val(t.values, x, z3.And(guard, v.n > i))
        elif t.kind == 'map':
            for p, k, x in v.entries:
                val(t.values, x, z3.And(guard, p))
        elif t.kind == 'embed':
            comp(ctx.g.embeds[t.ref].props, v, guard)

    def comp(props, v, guard):
        for p in props:
            has, x = member(v, p.json)
            if p.optional:
                out.append(z3.And(guard, has, x.k == NULL))
            val(p.t, x, z3.And(guard, has))
    for c in ctx.g.classes.values():
        has, reg = member(g_jv, c.registry())
        for p, k, inst in reg.entries:
            comp(c.props, inst, z3.And(has, p))
    comp(ctx.g.graph.props, g_jv, z3.BoolVal(True))
    return z3.Or(*out) if out else z3.BoolVal(False)


# ---------------------------------------------------------------------------
# references of errors
# ---------------------------------------------------------------------------


def split_ref(s):
    """Segments (tuples of items) of a reference."""
    out = [[]]
    for c in strs.items_of(s):
        if isinstance(c, str) and c == '/':
            out.append([])
        else:
            out[-1].append(c)
    return out


def match_ref(got, base, segs):
    """Condition: the reported reference is ``base/segs``."""
    parts = split_ref(got)
    want = [base] + list(segs)
    if len(parts) != len(want):
        return False
    conds = []
    for p, w in zip(parts, want):
        if isinstance(w, Key):
            # the key itself or a quoted form of it
            if len(p) == 1 and type(p[0]) is strs.Atom:
                z = p[0].z
                kz = strs.term_of(w.s)
                conds.append(z3.Or(z == kz, z == strs.REPR(kz)))
            elif len(p) == 3 and type(p[1]) is strs.Atom and p[0] == p[2] \
                    and p[0] in '"\'':
                conds.append(p[1].z == strs.term_of(w.s))
            else:
                return False
        else:
            if any(type(c) is strs.Atom for c in p):
                return False
            if ''.join(p) != w and ''.join(p) != repr(w):
                return False
    return z3.And(*conds) if conds else True

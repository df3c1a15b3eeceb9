"""Conformance of the generated C++ code on one family of schemas."""
import z3

from sx import cppast, strs
from sx import cpprt as R
from sx.core import SymBool, SymFloat, Unsupported, engine, to_z
from sx.cpprt import Cell, CppExc, CStr, Struct
from sx.jv import FLOAT, JV, NULL
from sx.oracle import member
from sx.pycheck import Outcome, str_eq, zbool
from sx.pyexec import (PARSE_DUR, PRINT_DUR, Dur, Moment, parsed, printed)
from sx.spec import camel

BASE = 'REF'
F = z3.BoolVal(False)
SPACE = 'some::space::'


def snake(name):
    return name.lower()


def number_of(jv):
    if getattr(jv, 'whole', None) is not None:
        return jv.i
    return z3.If(jv.k == FLOAT, jv.f, z3.ToReal(jv.i))


def num_eq(v, z):
    if isinstance(v, (bool, SymBool)) or isinstance(v, JV):
        return F
    y = to_z(v)
    if y is None:
        return F
    if z3.is_int(y) != z3.is_int(z):
        y, z = [z3.ToReal(x) if z3.is_int(x) else x for x in (y, z)]
    return y == z


def scalar(v):
    return v.v if isinstance(v, Cell) else v


def value_ok(ctx, t, jv, v, graph):
    """Condition: ``v`` is the parsed value of the conforming ``jv``."""
    k = t.kind
    if k == 'boolean':
        v = scalar(v)
        return zbool(v) == jv.b if isinstance(v, (bool, SymBool)) else F
    if k == 'integer':
        v = scalar(v)
        if isinstance(v, (SymFloat, float)):
            return F
        return num_eq(v, number_of(jv))
    if k == 'float':
        v = scalar(v)
        if not isinstance(v, (SymFloat, float)):
            return F
        return num_eq(v, number_of(jv))
    if k == 'string':
        return str_eq(v.v, jv.s) if isinstance(v, CStr) else F
    if k == 'path':
        return str_eq(v.v, jv.s) if isinstance(v, R.PathVal) else F
    if k in ('date', 'time', 'datetime'):
        want = R.Tm if ctx.g.cpp['datetime_library'] == 'ctime' else R.DateVal
        if not isinstance(v, want) or not isinstance(v.v, Moment):
            return F
        return v.v.z == parsed(t.fmt)(jv.s)
    if k == 'time_zone':
        if ctx.g.cpp['datetime_library'] == 'ctime':
            return str_eq(v.v, jv.s) if isinstance(v, CStr) else F
        v = scalar(v)
        return v.z == jv.s if isinstance(v, R.TzPtr) else F
    if k == 'duration':
        if not isinstance(v, R.Nanos) or not isinstance(v.v, Dur):
            return F
        return v.v.z == PARSE_DUR(jv.s)
    if k == 'array':
        if not isinstance(v, R.Vec) or len(v.e) > len(jv.items_):
            return F
        return z3.And(jv.n == len(v.e), *[
            value_ok(ctx, t.values, x, y, graph)
            for x, y in zip(jv.items_, v.e)])
    if k == 'map':
        if not isinstance(v, R.Map):
            return F
        conds = [size_ok(jv, v.e)]
        for p, key, x in jv.entries:
            e = lookup(v, key)
            conds.append(z3.Not(p) if e is None else z3.Implies(
                p, value_ok(ctx, t.values, x, e.second, graph)))
        return z3.And(*conds)
    if k == 'ref':
        v = scalar(v)
        reg = graph.f.get(snake(ctx.g.classes[t.ref].plural_name()))
        if not isinstance(v, Struct) or not isinstance(reg, R.Map):
            return F
        return z3.Or(F, *[strs.term_of(p.first.v) == jv.s for p in reg.e
                          if p.second.v is v])
    if k == 'embed':
        c = ctx.g.embeds[t.ref]
        if not isinstance(v, Struct):
            return F
        return composite_ok(ctx, c.props, jv, v, graph, camel(c.name))
    raise ValueError(k)


def size_ok(jv, entries):
    n = z3.IntVal(0)
    for p, _, _ in jv.entries:
        n = n + z3.If(p, z3.IntVal(1), z3.IntVal(0))
    return n == len(entries)


def lookup(m, key):
    kz = strs.term_of(key)
    for p in m.e:
        if strs.term_of(p.first.v).eq(kz):
            return p
    return None


def composite_ok(ctx, props, jv, inst, graph, name):
    if not isinstance(inst, Struct) or inst.rec.leaf != name:
        return F
    conds = []
    for p in props:
        has, x = member(jv, p.json)
        v = inst.f.get(snake(p.name))
        if v is None:
            return F
        if p.optional:
            if not isinstance(v, R.Opt):
                return F
            if v.v is None:
                conds.append(z3.Or(z3.Not(has), x.k == NULL))
                continue
            v = v.v
        elif isinstance(v, R.Opt):
            return F
        conds.append(has)
        conds.append(value_ok(ctx, p.t, x, v, graph))
    return z3.And(*conds) if conds else z3.BoolVal(True)


def graph_ok(ctx, g_jv, graph):
    g = ctx.g
    conds = [composite_ok(ctx, g.graph.props, g_jv, graph, graph,
                          camel(g.graph.name))]
    for c in g.classes.values():
        has, reg = member(g_jv, c.registry())
        r = graph.f.get(snake(c.plural_name()))
        if not isinstance(r, R.Map):
            return F
        n = z3.IntVal(0)
        for p, _, _ in reg.entries:
            n = n + z3.If(z3.And(has, p), z3.IntVal(1), z3.IntVal(0))
        conds.append(n == len(r.e))
        for p, key, inst_jv in reg.entries:
            e = lookup(r, key)
            if e is None:
                conds.append(z3.Not(z3.And(has, p)))
                continue
            inst = e.second.v
            if not isinstance(inst, Struct):
                conds.append(z3.Not(z3.And(has, p)))
                continue
            conds.append(z3.Implies(z3.And(has, p), z3.And(
                str_eq(inst.f['id'].v, strs.term_of(key)),
                composite_ok(ctx, c.props, inst_jv, inst, graph,
                             camel(c.name)))))
    return z3.And(*conds)


# ---------------------------------------------------------------------------
# serialisation
# ---------------------------------------------------------------------------


def json_ok(ctx, t, jv, out):
    k = t.kind
    if not isinstance(out, R.JOut):
        return F
    if k == 'boolean':
        return zbool(out.v) == jv.b if out.k == 'bool' else F
    if k in ('integer', 'float'):
        if out.k != ('int' if k == 'integer' else 'real'):
            return F
        return num_eq(out.v, number_of(jv))
    if k in ('string', 'path', 'time_zone', 'ref'):
        return str_eq(out.v, jv.s) if out.k == 'str' else F
    if k in ('date', 'time', 'datetime'):
        return str_eq(out.v, printed(t.fmt)(parsed(t.fmt)(jv.s))) \
            if out.k == 'str' else F
    if k == 'duration':
        return str_eq(out.v, PRINT_DUR(PARSE_DUR(jv.s))) \
            if out.k == 'str' else F
    if k == 'array':
        if out.k != 'arr' or len(out.v) > len(jv.items_):
            return F
        return z3.And(jv.n == len(out.v), *[
            json_ok(ctx, t.values, x, y) for x, y in zip(jv.items_, out.v)])
    if k == 'map':
        if out.k != 'obj':
            return F
        return json_map(jv, out, lambda x, y: json_ok(ctx, t.values, x, y))
    if k == 'embed':
        return json_composite(ctx, ctx.g.embeds[t.ref].props, jv, out)
    raise ValueError(k)


def json_map(jv, out, ok, has=None):
    """Entries of a JSON object under opaque keys."""
    got = [(strs.term_of(k), x) for k, x in out.v]
    n = z3.IntVal(0)
    conds = []
    for p, key, x in jv.entries:
        if has is not None:
            p = z3.And(has, p)
        n = n + z3.If(p, z3.IntVal(1), z3.IntVal(0))
        kz = strs.term_of(key)
        hits = [y for z, y in got if z.eq(kz)]
        conds.append(z3.Implies(p, ok(x, hits[0]) if hits else F))
    conds.append(n == len(got))
    return z3.And(*conds)


def json_composite(ctx, props, jv, out, extra=()):
    if not isinstance(out, R.JOut):
        return F
    if out.k == 'null' and not extra and 'null-composite' in ctx.findings \
            and all(p.optional for p in props):
        # a listed finding: nothing was set
        return z3.And(*[z3.Or(z3.Not(h), x.k == NULL) for h, x in [
            member(jv, p.json) for p in props]]) \
            if props else z3.BoolVal(True)
    if out.k != 'obj':
        return F
    names = {p.json for p in props} | set(extra)
    got = {}
    for k, v in out.v:
        if not isinstance(k, str) or k not in names or k in got:
            return F
        got[k] = v
    conds = []
    for p in props:
        has, x = member(jv, p.json)
        if p.json in got:
            conds.append(has)
            conds.append(x.k != NULL)
            conds.append(json_ok(ctx, p.t, x, got[p.json]))
        else:
            if not p.optional:
                return F
            conds.append(z3.Or(z3.Not(has), x.k == NULL))
    return z3.And(*conds) if conds else z3.BoolVal(True)


def json_graph(ctx, g_jv, out):
    g = ctx.g
    regs = [c.registry() for c in g.classes.values()]
    if not isinstance(out, R.JOut):
        return F
    if out.k == 'null' and 'null-composite' in ctx.findings:
        out = R.JOut('obj', [])
    conds = [json_composite(ctx, g.graph.props, g_jv, out, regs)]
    if out.k != 'obj':
        return F
    got = {k: v for k, v in out.v if isinstance(k, str)}
    for c in g.classes.values():
        has, reg = member(g_jv, c.registry())
        r = got.get(c.registry())
        if r is None:
            conds.append(z3.Or(z3.Not(has), *[z3.And(*[
                z3.Not(p) for p, _, _ in reg.entries])]))
            continue
        if r.k != 'obj':
            return F
        conds.append(json_map(reg, r, lambda x, y, c=c: json_composite(
            ctx, c.props, x, y), has))
    return z3.And(*conds)


# ---------------------------------------------------------------------------
# running
# ---------------------------------------------------------------------------


class Err:
    def __init__(self, ref):
        self.ref = ref


def run_parse(pkg, g, g_jv, cap):
    o = Outcome()
    o.g_jv = g_jv
    o.raised = None
    o.graph = None
    o.errs = []
    p = pkg.p
    rec = p.record(SPACE + 'parse::Errors')
    if rec is None:
        raise Unsupported('C++: no class of errors')
    try:
        ctors = [ty for ty, m, c in rec.ctors
                 if m in p.funcs and not c.get('isImplicit')]
        errors = p.construct_user(rec, ctors[0], [Cell(cap)])
        target = p.zero(SPACE + camel(g.graph.name), True)
        p.call(pkg.func(snake(g.graph.name) + '_from'),
               [g_jv, CStr(BASE), target, errors])
        vals = p.call(p.funcs[[m for m, f in p.funcs.items()
                               if f.get('name') == 'get'][0]], [], errors)
        o.errs = [Err(x.f['ref'].v) for x in vals.e]
        if not o.errs:
            o.graph = target
    except (CppExc, R.CppHang, R.CppUB) as ex:
        o.raised = ex
    return o


def run_serialise(pkg, g, graph):
    p = pkg.p
    return p.call(pkg.func('serialize_' + snake(g.graph.name)), [graph])

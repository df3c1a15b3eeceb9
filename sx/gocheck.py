"""Conformance of the generated Go code on one family of schemas."""
import z3

from sx import gopkg, gort, strs
from sx.core import Sym, SymBool, SymFloat, SymInt, Unsupported, to_z
from sx.gort import Cell, GoMap, GoSlice, GoStruct
from sx.jv import JV, NULL
from sx.oracle import go_layout, member
from sx.pycheck import Outcome, str_eq, zbool
from sx.pyexec import (PARSE_DUR, PRINT_DUR, Dur, Moment, SymTz, parsed,
                       printed)
from sx.spec import camel

BASE = 'REF'
F = z3.BoolVal(False)


def num_eq(v, z):
    if isinstance(v, (bool, SymBool)) or isinstance(v, JV):
        return F
    y = to_z(v)
    if y is None:
        return F
    return (z3.ToReal(y) if z3.is_int(y) else y) == z


def value_ok(ctx, t, jv, v, graph):
    """Condition: ``v`` is the parsed value of the conforming ``jv``."""
    k = t.kind
    if k == 'boolean':
        return zbool(v) == jv.b if isinstance(v, (bool, SymBool)) else F
    if k == 'integer':
        if isinstance(v, (SymFloat, float)):
            return F
        return num_eq(v, jv.f)
    if k == 'float':
        return num_eq(v, jv.f) if isinstance(v, (SymFloat, float)) else F
    if k in ('string', 'path'):
        return str_eq(v, jv.s)
    if k in ('date', 'time', 'datetime'):
        if isinstance(v, Moment):
            return v.z == parsed('go:' + go_layout(t.fmt))(jv.s)
        return F
    if k == 'time_zone':
        return v.z == jv.s if isinstance(v, SymTz) else F
    if k == 'duration':
        return v.z == PARSE_DUR(jv.s) if isinstance(v, Dur) else F
    if k == 'array':
        if not isinstance(v, GoSlice) or v.n > len(jv.items_):
            return F
        return z3.And(jv.n == v.n, *[
            value_ok(ctx, t.values, x, y, graph)
            for x, y in zip(jv.items_, v.items())])
    if k == 'map':
        if not isinstance(v, GoMap):
            return F
        conds = [size_ok(jv, v)]
        for p, key, x in jv.entries:
            e = lookup(v, key)
            conds.append(z3.Not(p) if e is None else z3.Implies(
                p, value_ok(ctx, t.values, x, e[1], graph)))
        return z3.And(*conds)
    if k == 'ref':
        if v is None:
            return F
        reg = graph.f.get(camel(ctx.g.classes[t.ref].plural_name()))
        if not isinstance(reg, GoMap):
            return F
        return z3.Or(F, *[strs.term_of(key) == jv.s for key, inst in reg.e
                          if inst is v])
    if k == 'embed':
        c = ctx.g.embeds[t.ref]
        if not isinstance(v, GoStruct):
            return F
        return composite_ok(ctx, c.props, jv, v, graph, camel(c.name))
    raise ValueError(k)


def size_ok(jv, m):
    n = z3.IntVal(0)
    for p, _, _ in jv.entries:
        n = n + z3.If(p, z3.IntVal(1), z3.IntVal(0))
    return n == len(m.e)


def lookup(m, key):
    kz = strs.term_of(key)
    for e in m.e:
        if strs.is_str(e[0]) and strs.term_of(e[0]).eq(kz):
            return e
    return None


def composite_ok(ctx, props, jv, inst, graph, name):
    if inst.t.name != name:
        return F
    conds = []
    for p in props:
        has, x = member(jv, p.json)
        v = inst.f.get(camel(p.name), F)
        if v is F:
            return F
        if v is None:
            if not p.optional:
                # a nil slice or map stands for an empty one
                return F
            conds.append(z3.Or(z3.Not(has), x.k == NULL))
            continue
        conds.append(has)
        if p.optional and p.t.kind not in ('array', 'map', 'ref',
                                           'time_zone'):
            if not hasattr(v, 'v'):
                return F
            v = v.v
        conds.append(value_ok(ctx, p.t, x, v, graph))
    return z3.And(*conds) if conds else z3.BoolVal(True)


def graph_ok(ctx, g_jv, target):
    g = ctx.g
    graph = target.v
    conds = [composite_ok(ctx, g.graph.props, g_jv, graph, graph,
                          camel(g.graph.name))]
    for c in g.classes.values():
        has, reg = member(g_jv, c.registry())
        r = graph.f.get(camel(c.plural_name()), F)
        n = z3.IntVal(0)
        for p, _, _ in reg.entries:
            n = n + z3.If(z3.And(has, p), z3.IntVal(1), z3.IntVal(0))
        if r is None:
            conds.append(n == 0)
            continue
        if not isinstance(r, GoMap):
            return F
        conds.append(n == len(r.e))
        for p, key, inst_jv in reg.entries:
            e = lookup(r, key)
            if e is None:
                conds.append(z3.Not(z3.And(has, p)))
                continue
            inst = e[1].v
            conds.append(z3.Implies(z3.And(has, p), z3.And(
                str_eq(inst.f.get('ID'), strs.term_of(key)),
                composite_ok(ctx, c.props, inst_jv, inst, graph,
                             camel(c.name)))))
    return z3.And(*conds)


# ---------------------------------------------------------------------------
# serialisation
# ---------------------------------------------------------------------------


def json_ok(ctx, t, jv, out):
    k = t.kind
    if k == 'boolean':
        return zbool(out) == jv.b if isinstance(out, (bool, SymBool)) else F
    if k in ('integer', 'float'):
        return num_eq(out, jv.f)
    if k in ('string', 'path', 'time_zone', 'ref'):
        return str_eq(out, jv.s)
    if k in ('date', 'time', 'datetime'):
        n = 'go:' + go_layout(t.fmt)
        return str_eq(out, printed(n)(parsed(n)(jv.s)))
    if k == 'duration':
        return str_eq(out, PRINT_DUR(PARSE_DUR(jv.s)))
    if k == 'array':
        if not isinstance(out, GoSlice) or out.n > len(jv.items_):
            return F
        return z3.And(jv.n == out.n, *[
            json_ok(ctx, t.values, x, y)
            for x, y in zip(jv.items_, out.items())])
    if k == 'map':
        if not isinstance(out, GoMap):
            return F
        conds = [size_ok(jv, out)]
        for p, key, x in jv.entries:
            e = lookup(out, key)
            conds.append(z3.Not(p) if e is None else z3.Implies(
                p, json_ok(ctx, t.values, x, e[1])))
        return z3.And(*conds)
    if k == 'embed':
        return json_composite(ctx, ctx.g.embeds[t.ref].props, jv, out)
    raise ValueError(k)


def json_composite(ctx, props, jv, out, extra=()):
    if not isinstance(out, GoMap):
        return F
    names = {p.json for p in props} | set(extra)
    got = {}
    for k, v in out.e:
        if not isinstance(k, str) or k not in names or k in got:
            return F
        got[k] = v
    conds = []
    for p in props:
        has, x = member(jv, p.json)
        if p.json in got:
            conds.append(has)
            conds.append(x.k != NULL)
            conds.append(json_ok(ctx, p.t, x, got[p.json]))
        else:
            if not p.optional:
                return F
            conds.append(z3.Or(z3.Not(has), x.k == NULL))
    return z3.And(*conds) if conds else z3.BoolVal(True)


def json_graph(ctx, g_jv, out):
    g = ctx.g
    regs = [c.registry() for c in g.classes.values()]
    conds = [json_composite(ctx, g.graph.props, g_jv, out, regs)]
    if not isinstance(out, GoMap):
        return F
    got = {k: v for k, v in out.e if isinstance(k, str)}
    for c in g.classes.values():
        has, reg = member(g_jv, c.registry())
        r = got.get(c.registry())
        if r is None:
            conds.append(z3.Or(z3.Not(has), *[z3.And(*[
                z3.Not(p) for p, _, _ in reg.entries])]))
            continue
        if not isinstance(r, GoMap):
            return F
        n = z3.IntVal(0)
        for p, _, _ in reg.entries:
            n = n + z3.If(z3.And(has, p), z3.IntVal(1), z3.IntVal(0))
        conds.append(n == len(r.e))
        for p, key, inst_jv in reg.entries:
            e = lookup(r, key)
            conds.append(z3.Implies(z3.And(has, p), F if e is None else
                                    json_composite(ctx, c.props, inst_jv,
                                                   e[1])))
    return z3.And(*conds)


# ---------------------------------------------------------------------------
# running
# ---------------------------------------------------------------------------


class Err:
    def __init__(self, ref):
        self.ref = ref


def run_parse(pkg, g, g_jv, cap):
    o = Outcome()
    o.g_jv = g_jv
    o.raised = None
    o.graph = None
    o.errs = []
    gort._bind(pkg.ty)
    name = camel(g.graph.name)
    errors = pkg.func('NewErrors')(cap)
    target = Cell(gort.zero(pkg.type(name)))
    fn = pkg.func(name + 'FromJSONable')
    try:
        fn(g_jv, BASE, target, errors)
        vals = pkg.func('Values', 'Errors')(errors)
        o.errs = [Err(x.f['Ref']) for x in gort.elems(vals)]
        if not o.errs:
            o.graph = target
    except gort.GoPanic as ex:
        o.raised = ex
    return o


def run_serialise(pkg, g, graph):
    gort._bind(pkg.ty)
    fn = pkg.func(camel(g.graph.name) + 'ToJSONable')
    out, err = fn(graph)
    if err is not None:
        raise gort.GoPanic('the serialiser returned an error')
    return out

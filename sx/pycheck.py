"""Conformance of the generated Python code on one family of schemas."""
import collections
import inspect

import z3

from sx import strs
from sx.core import Sym, SymBool, SymFloat, SymInt, Unsupported, engine, to_z
from sx.jv import BOOL, DICT, FLOAT, INT, JV, LIST, NULL, STR
from sx.oracle import (Ctx, Key, match_ref, member, nulls, shape_graph,
                       violated, violations)
from sx.pyexec import (PARSE_DUR, PRINT_DUR, Dur, Moment, Package, SymPath,
                       SymTz, parsed, printed)


def zbool(x):
    if isinstance(x, SymBool):
        return x.z
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


def str_eq(v, z):
    """``v`` is a string named by the term."""
    if isinstance(v, JV):
        return z3.And(v.k == STR, v.s == z)
    if strs.is_str(v):
        return strs.term_of(v) == z
    return z3.BoolVal(False)


def value_ok(ctx, t, jv, v, g_jv, graph):
    """Condition: ``v`` is the parsed value of the conforming ``jv``."""
    F = z3.BoolVal(False)
    k = t.kind
    if k == 'boolean':
        if isinstance(v, JV):
            return z3.And(v.k == BOOL, v.b == jv.b)
        if isinstance(v, (SymBool, bool)):
            return zbool(v) == jv.b
        return F
    if k == 'integer':
        if isinstance(v, JV):
            return z3.And(v.k == jv.k, v.i == jv.i, v.b == jv.b)
        if isinstance(v, SymInt) or type(v) is int:
            return z3.And(jv.k == INT, to_z(v) == jv.i)
        return F
    if k == 'float':
        want = z3.If(jv.k == FLOAT, jv.f, z3.ToReal(z3.If(
            jv.k == BOOL, z3.If(jv.b, z3.IntVal(1), z3.IntVal(0)), jv.i)))
        if isinstance(v, JV):
            return z3.And(v.k == FLOAT, v.f == want)
        if isinstance(v, SymFloat) or type(v) is float:
            return to_z(v) == want
        return F
    if k == 'string':
        return str_eq(v, jv.s)
    if k == 'path':
        if ctx.g.path_as == 'str':
            return str_eq(v, jv.s)
        return str_eq(v.s, jv.s) if isinstance(v, SymPath) else F
    if k in ('date', 'time', 'datetime'):
        if isinstance(v, Moment) and v.kind == k:
            return v.z == parsed(t.fmt)(jv.s)
        return F
    if k == 'time_zone':
        if ctx.g.tz_as == 'str':
            return str_eq(v, jv.s)
        return v.z == jv.s if isinstance(v, SymTz) else F
    if k == 'duration':
        return v.z == PARSE_DUR(jv.s) if isinstance(v, Dur) else F
    if k == 'array':
        if not isinstance(v, list):
            return F
        conds = [jv.n == len(v)]
        if len(v) > len(jv.items_):
            return F
        for x, y in zip(jv.items_, v):
            conds.append(value_ok(ctx, t.values, x, y, g_jv, graph))
        return z3.And(*conds)
    if k == 'map':
        if not isinstance(v, dict):
            return F
        conds = [map_keys(jv, v), jv.ordered == is_ordered(v)]
        if not in_order(jv, v):
            return F
        for p, key, x in jv.entries:
            y = lookup(v, key)
            if y is None:
                conds.append(z3.Not(p))
            else:
                conds.append(z3.Implies(p, value_ok(
                    ctx, t.values, x, y, g_jv, graph)))
        return z3.And(*conds)
    if k == 'ref':
        c = ctx.g.classes[t.ref]
        reg = getattr(graph, c.attr_registry(), None)
        if reg is None:
            return F
        conds = []
        for key, inst in reg.items():
            if inst is v:
                conds.append(strs.term_of(key) == jv.s)
        return z3.Or(*conds) if conds else F
    if k == 'embed':
        return composite_ok(ctx, ctx.g.embeds[t.ref].props, jv, v, g_jv,
                            graph, ctx.g.embeds[t.ref].py_class())
    raise ValueError(k)


def is_ordered(d):
    return z3.BoolVal(isinstance(d, collections.OrderedDict))


def in_order(jv, d):
    """The keys of an ordered dictionary come in the order of the data."""
    if not isinstance(d, collections.OrderedDict):
        return True
    pos = [i for k in d for i, (_, key, _) in enumerate(jv.entries)
           if strs.is_str(k) and strs.term_of(k).eq(strs.term_of(key))]
    return pos == sorted(pos)


def map_keys(jv, d):
    n = z3.IntVal(0)
    for p, _, _ in jv.entries:
        n = n + z3.If(p, z3.IntVal(1), z3.IntVal(0))
    return n == len(d)


def lookup(d, key):
    """Value under the very key (keys are terms; equal ones are shared)."""
    kz = strs.term_of(key)
    for k, v in d.items():
        if strs.is_str(k) and strs.term_of(k).eq(kz):
            return v
    return None


_missing = object()


def composite_ok(ctx, props, jv, inst, g_jv, graph, cls=None):
    conds = []
    if cls is not None and type(inst).__name__ != cls:
        return z3.BoolVal(False)
    for p in props:
        has, x = member(jv, p.json)
        v = getattr(inst, p.attr(), _missing)
        if v is _missing:
            return z3.BoolVal(False)
        if v is None:
            if not p.optional:
                return z3.BoolVal(False)
            conds.append(z3.Or(z3.Not(has), x.k == NULL))
        else:
            conds.append(has)
            conds.append(value_ok(ctx, p.t, x, v, g_jv, graph))
    return z3.And(*conds) if conds else z3.BoolVal(True)


def graph_ok(ctx, g_jv, graph):
    g = ctx.g
    conds = [composite_ok(ctx, g.graph.props, g_jv, graph, g_jv, graph,
                          g.graph.py_class())]
    for c in g.classes.values():
        has, reg = member(g_jv, c.registry())
        r = getattr(graph, c.attr_registry(), None)
        if not isinstance(r, dict):
            return z3.BoolVal(False)
        n = z3.IntVal(0)
        for p, _, _ in reg.entries:
            n = n + z3.If(z3.And(has, p), z3.IntVal(1), z3.IntVal(0))
        conds.append(n == len(r))
        # without a registry in the data the kind is not prescribed
        conds.append(z3.Implies(z3.And(has, reg.k == DICT),
                                reg.ordered == is_ordered(r)))
        if not in_order(reg, r):
            return z3.BoolVal(False)
        for p, key, inst_jv in reg.entries:
            inst = lookup(r, key)
            if inst is None:
                conds.append(z3.Not(z3.And(has, p)))
                continue
            conds.append(z3.Implies(z3.And(has, p), z3.And(
                str_eq(inst.id, strs.term_of(key)),
                composite_ok(ctx, c.props, inst_jv, inst, g_jv, graph,
                             c.py_class()))))
    return z3.And(*conds)


# ---------------------------------------------------------------------------
# serialisation
# ---------------------------------------------------------------------------


def json_ok(ctx, t, jv, out):
    """Condition: ``out`` is the canonical representation of ``jv``."""
    F = z3.BoolVal(False)
    k = t.kind
    if k in ('boolean', 'integer', 'float'):
        return value_ok(ctx, t, jv, out, None, None)
    if k in ('string', 'path', 'time_zone', 'ref'):
        return str_eq(out, jv.s)
    if k in ('date', 'time', 'datetime'):
        return str_eq(out, printed(t.fmt)(parsed(t.fmt)(jv.s)))
    if k == 'duration':
        return str_eq(out, PRINT_DUR(PARSE_DUR(jv.s)))
    if k == 'array':
        if not isinstance(out, list) or len(out) > len(jv.items_):
            return F
        return z3.And(jv.n == len(out), *[
            json_ok(ctx, t.values, x, y) for x, y in zip(jv.items_, out)])
    if k == 'map':
        if not isinstance(out, dict):
            return F
        conds = [map_keys(jv, out)]
        for p, key, x in jv.entries:
            y = lookup(out, key)
            conds.append(z3.Not(p) if y is None else z3.Implies(
                p, json_ok(ctx, t.values, x, y)))
        return z3.And(*conds)
    if k == 'embed':
        return json_composite(ctx, ctx.g.embeds[t.ref].props, jv, out)
    raise ValueError(k)


def json_composite(ctx, props, jv, out, extra=()):
    if not isinstance(out, dict):
        return z3.BoolVal(False)
    conds = []
    names = {p.json for p in props} | set(extra)
    for key in out:
        if isinstance(key, Sym) or key not in names:
            return z3.BoolVal(False)
    for p in props:
        has, x = member(jv, p.json)
        if p.json in out:
            conds.append(has)
            conds.append(x.k != NULL)
            conds.append(json_ok(ctx, p.t, x, out[p.json]))
        else:
            if not p.optional:
                return z3.BoolVal(False)
            conds.append(z3.Or(z3.Not(has), x.k == NULL))
    return z3.And(*conds) if conds else z3.BoolVal(True)


def json_graph(ctx, g_jv, out):
    g = ctx.g
    regs = [c.registry() for c in g.classes.values()]
    conds = [json_composite(ctx, g.graph.props, g_jv, out, regs)]
    for c in g.classes.values():
        has, reg = member(g_jv, c.registry())
        r = out.get(c.registry()) if isinstance(out, dict) else None
        if r is None:
            conds.append(z3.Or(z3.Not(has), *[z3.And(*[
                z3.Not(p) for p, _, _ in reg.entries])]))
            continue
        if not isinstance(r, dict):
            return z3.BoolVal(False)
        n = z3.IntVal(0)
        for p, _, _ in reg.entries:
            n = n + z3.If(z3.And(has, p), z3.IntVal(1), z3.IntVal(0))
        conds.append(n == len(r))
        for p, key, inst_jv in reg.entries:
            o = lookup(r, key)
            conds.append(z3.Implies(z3.And(has, p), z3.BoolVal(False)
                                    if o is None else json_composite(
                                        ctx, c.props, inst_jv, o)))
    return z3.And(*conds)


# ---------------------------------------------------------------------------
# running
# ---------------------------------------------------------------------------

BASE = 'REF'


class Outcome:
    pass


def run_parse(pkg, g, g_jv, cap):
    """One path of the parser of the graph."""
    o = Outcome()
    o.g_jv = g_jv
    o.raised = None
    o.errors = pkg.parse.Errors(cap)
    o.graph = None
    try:
        fn = getattr(pkg.frm, g.graph.py_var() + '_from')
        o.graph = fn(value=o.g_jv, ref=BASE, errors=o.errors)
        o.errs = list(o.errors.values())
    except (Unsupported, RecursionError):
        raise
    except Exception as ex:  # the code under test raised
        o.raised = ex
        o.errs = []
    return o


def dict_types(g, out):
    """Types of the mappings which ``ordered`` prescribes."""
    names = {type(out).__name__}
    for c in g.classes.values():
        r = out.get(c.registry()) if isinstance(out, dict) else None
        if isinstance(r, dict):
            names.add(type(r).__name__)
            names.update(type(x).__name__ for x in r.values())
    return sorted(names)


def run_serialise(pkg, g, graph, ordered):
    fn = getattr(pkg.to, 'serialize_' + g.graph.py_var())
    return fn(graph, ordered=ordered)

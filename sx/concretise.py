"""Concrete inputs out of a model: JSON data with real strings."""
import datetime
import os
import re
import sys
import time

import z3

from sx import pyexec, strs
from sx.core import SymFloat, SymInt
from sx.jv import BOOL, DICT, FLOAT, INT, JV, LIST, NULL, STR
from sx.spec import concrete, real_value

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'replay'))
import refsem  # noqa: E402


def pred_eval(name, text):
    """Concrete truth of one of the uninterpreted predicates."""
    m = re.match(r'^(\w+?)(?:\[(.*)\])?$', name, re.S)
    kind, arg = m.group(1), m.group(2)
    if kind == 'strptime_ok' and arg.startswith('go:'):
        arg = GO_FORMATS.get(arg)
        return None if arg is None else refsem.strptime_ok(text, arg)
    if kind == 'strptime_ok':
        return refsem.strptime_ok(text, arg)
    if kind == 'matches':
        return re.match(arg, text) is not None
    if kind == 'found':
        return re.search(arg, text) is not None and re.match(
            arg, text) is None
    if kind == 'rest':
        return re.match(arg, text) is not None and re.fullmatch(
            arg, text) is None
    if kind == 'date_prefix':
        return not refsem.strptime_ok(text, arg) and any(
            refsem.strptime_ok(text[:i], arg) for i in range(1, len(text)))
    if kind == 'longer':
        return None
    if kind == 'timezone_ok':
        return refsem.tz_known(text)
    if kind == 'duration_ok':
        return refsem.DURATION.fullmatch(text) is not None
    return None


MOMENTS = [datetime.datetime(2016, 7, 3, 21, 7, 34),
           datetime.datetime(2001, 12, 31, 1, 59, 8),
           datetime.datetime(1999, 2, 11, 13, 30, 0),
           datetime.datetime(2020, 10, 5, 0, 0, 1)]


def candidates(preds):
    out = []
    for p in preds:
        m = re.match(r'^(\w+?)(?:\[(.*)\])?$', p, re.S)
        kind, arg = m.group(1), m.group(2)
        if kind == 'strptime_ok':
            arg = GO_FORMATS.get(arg, arg)
            if arg.startswith('go:'):
                continue
            out.extend(d.strftime(arg) for d in MOMENTS)
        elif kind == 'date_prefix':
            out.extend(d.strftime(arg) + '~' for d in MOMENTS)
        elif kind == 'matches':
            out.extend(SAMPLES.get(arg, ()))
        elif kind == 'found':
            out.extend('~' + x for x in SAMPLES.get(arg, ()))
        elif kind == 'rest':
            out.extend(x + y for x in SAMPLES.get(arg, ())
                       for y in ('\n', '~'))
        elif kind == 'timezone_ok':
            out.extend(['Europe/Zurich', 'Asia/Tokyo', 'UTC',
                        'America/New_York'])
        elif kind == 'duration_ok':
            out.extend(['P1D', 'PT2H', '-PT3.5S', 'P2W'])
    return out


# strftime formats of the layouts of Go
GO_FORMATS = {}
# texts which match the patterns of the universe
SAMPLES = {}


class Namer:
    """Texts of the opaque strings of a model."""

    def __init__(self, model):
        self.model = model
        self.names = {}
        self.n = 0

    def text(self, z, own=()):
        """Text of a term; ``own`` names the predicates of its place."""
        v = self.model.eval(z, model_completion=True).as_long()
        if v in strs._INTERN_REV:
            return strs._INTERN_REV[v]
        if v in self.names:
            return self.names[v]
        want = {}
        for name, f in pyexec._FN.items():
            if f.range() == z3.BoolSort():
                r = self.model.eval(f(z3.IntVal(v)), model_completion=True)
                want[name] = z3.is_true(r)
        pos = [p for p, t in want.items() if t]
        best, score = None, -1
        used = set(self.names.values()) | set(strs._INTERN_REV.values())
        self.n += 1
        pool = candidates(pos) + ['s{}'.format(self.n), 'S {}'.format(self.n)]
        # the predicates which the model really decides come first
        decided = self._decided()
        for c in pool:
            if c in used:
                continue
            s = 0
            for name, t in want.items():
                r = pred_eval(name, c)
                if r is None or r == t:
                    s += 10000 if name in own else (
                        100 if name in decided else 1)
            if s > score:
                best, score = c, s
        self.names[v] = best
        return best

    def _decided(self):
        return {d.name() for d in self.model.decls()}


def own_preds(t):
    """Predicates which decide the conformance to a type."""
    if t is None:
        return ()
    if t.pattern is not None:
        return ('matches[{}]'.format(t.pattern), )
    if t.fmt is not None:
        from sx.oracle import go_layout
        GO_FORMATS['go:' + go_layout(t.fmt)] = t.fmt
        return ('strptime_ok[{}]'.format(t.fmt),
                'date_prefix[{}]'.format(t.fmt),
                'strptime_ok[go:{}]'.format(go_layout(t.fmt)))
    return {'time_zone': ('timezone_ok', ),
            'duration': ('duration_ok', )}.get(t.kind, ())


def json_of(jv, model, namer):
    ev = lambda z: model.eval(z, model_completion=True)  # noqa: E731
    k = ev(jv.k).as_long()
    if k == NULL:
        return None
    if k == BOOL:
        return z3.is_true(ev(jv.b))
    if k == INT:
        return ev(jv.i).as_long()
    if k == FLOAT:
        return float(real_value(ev(jv.f)))
    if k == STR:
        return namer.text(jv.s, own_preds(jv.spec))
    if k == LIST:
        return [json_of(x, model, namer)
                for x in jv.items_[:ev(jv.n).as_long()]]
    pairs = []
    for p, key, x in jv.entries:
        if z3.is_true(ev(p)):
            kt = key if isinstance(key, str) else namer.text(
                strs.term_of(key), getattr(jv, 'key_preds', ()))
            pairs.append((kt, json_of(x, model, namer)))
    if z3.is_true(ev(jv.ordered)):
        return {'__odict__': [[a, b] for a, b in pairs]}
    return dict(pairs)


def leaves(jv):
    yield jv
    for x in jv.items_:
        yield from leaves(x)
    for _, _, x in jv.entries:
        yield from leaves(x)


def numbers(x):
    """Symbolic numbers of a mapping."""
    if isinstance(x, (SymInt, SymFloat)):
        yield x.z
    elif isinstance(x, dict):
        for y in x.values():
            yield from numbers(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from numbers(y)


def nice(g, g_jv, big=False):
    """Constraints which make the numbers of a model easy to represent."""
    out = []

    def real(z):
        out.append(z3.And(z > -1000, z < 1000, z3.IsInt(z * 4)) if not big
                   else z3.Or(
                       z3.And(z > -2**53, z < 2**53, z3.IsInt(z * 4)),
                       z3.And(z > -2**70, z < 2**70, z3.IsInt(
                           z / 2**18))))

    def integer(z):
        out.append(z3.And(z > -1000, z < 1000) if not big
                   else z3.And(z > -2**70, z < 2**70))
    for z in numbers(g.mapping()):
        (integer if z3.is_int(z) else real)(z)
    if g_jv is not None:
        for v in leaves(g_jv):
            integer(v.i)
            real(v.f)
    return out


def nice_model(e, conds, g, g_jv, model):
    """A model of the path with readable numbers, if there is one."""
    if model is None:
        return None
    limit = time.time() + 10
    keep, e.deadline = e.deadline, max(e.deadline or 0, limit)
    try:
        for big in (False, True):
            if e.check(*(list(conds) + nice(g, g_jv, big))) == z3.sat:
                return e.solver.model()
    finally:
        e.deadline = keep
    return model


def request(g, g_jv, model, **kw):
    r = {'schema': concrete(g.mapping(), model)}
    if g_jv is not None:
        namer = Namer(model)
        # the identifiers first: references take the names from them
        for c in g.classes.values():
            if c.id_pattern is not None:
                g_jv.registries[c.name].key_preds = (
                    'matches[{}]'.format(c.id_pattern), )
        for reg in g_jv.registries.values():
            if z3.is_true(model.eval(reg.k == DICT, model_completion=True)):
                for p, key, _ in reg.entries:
                    if z3.is_true(model.eval(p, model_completion=True)):
                        namer.text(strs.term_of(key),
                                   getattr(reg, 'key_preds', ()))
        r['data'] = json_of(g_jv, model, namer)
    r.update(kw)
    return r

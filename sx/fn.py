"""Checks of single functions: operations on symbolic requests."""
import collections
import json
import os
import subprocess
import sys

import z3

from sx import harness, instr, strs
from sx.core import (Budget, PathDone, Sym, SymBool, SymFloat, SymInt,
                     Unsupported, engine, to_z, wrap)

_OPS = {}


def load_ops(modname):
    """Instrumented copy of a module of operations."""
    from sx import pipeline  # noqa: F401  (installs the instrumentation)
    if modname in _OPS:
        return _OPS[modname]
    path = os.path.join(harness.ROOT, 'replay', modname + '.py')
    with open(path) as f:
        code = instr.instrument_source(f.read(), path)
    import types
    m = types.ModuleType(modname)
    m.__file__ = path
    sys.modules.setdefault('opbase', _base())
    for dep in ('lexers', ):
        if dep not in sys.modules and os.path.exists(os.path.join(
                harness.ROOT, 'replay', dep + '.py')) and modname != dep:
            sys.modules[dep] = load_ops(dep)
    exec(code, m.__dict__)
    _OPS[modname] = m
    return m


def _base():
    import types
    path = os.path.join(harness.ROOT, 'replay', 'opbase.py')
    m = types.ModuleType('opbase')
    with open(path) as f:
        exec(instr.instrument_source(f.read(), path), m.__dict__)
    m.PASS = (Unsupported, Budget, RecursionError)
    from sx import pipeline

    def files_of(schema, lang):
        try:
            return pipeline.generate(schema, lang)
        except pipeline.CompileError:
            return None
    m.files_of = files_of

    def unknown(text):
        return [strs.mk([c]) for c in strs.items_of(text)
                if not isinstance(c, str) or c in '\x00\ufeff']

    def plain_lines(text):
        out = {}
        line, at = [], 0
        for i, c in enumerate(strs.items_of(text)):
            line.append(c)
            if isinstance(c, str) and c == '\n':
                if all(isinstance(x, str) for x in line):
                    out[at] = ''.join(line)
                line, at = [], i + 1
        return out
    plain_number = m.number

    def number(digits, base):
        n = strs.number_of(digits, base)
        return plain_number(digits, base) if n is None else n
    m.number = number

    def load_python(schema, module):
        from sx import delta, pyexec  # noqa: F401
        if module != pyexec.MOD:
            raise Unsupported('module name')
        return pyexec.Package(files_of(schema, 'py'), stub_durations=False)
    m.load_python = load_python

    def micros(d):
        from sx import delta
        z = delta.amount_of(d)
        return SymFloat(z) if z3.is_real(z) else wrap(z)
    m.micros = micros

    def difference(sign, days, hours, minutes, seconds, micro):
        from sx import delta
        d, h, mi, s, u = [to_z(x) for x in (days, hours, minutes, seconds,
                                            micro)]
        secs = h * 3600 + mi * 60 + s
        total = (d * 86400 + secs) * 10 ** 6 + u
        if sign < 0:
            return delta.SymDelta(-total, opposite=(d, secs, u))
        return delta.SymDelta(total, parts=(d, secs, u))
    m.difference = difference
    for f, orig in ((unknown, m.unknown), (plain_lines, m.plain_lines)):
        setattr(m, f.__name__, f)
    return m


class Case:
    """One family of requests of an operation."""

    def __init__(self, name, mod, op, inputs, functions=(), samples=1):
        self.name = name
        self.mod = mod
        self.op = op
        self.inputs = inputs
        self.functions = functions
        self.samples = samples


def concrete(x, model):
    """Concrete request for a model."""
    from sx.spec import real_value
    if isinstance(x, strs.SymStr):
        return strs.str_of_model(x, model)
    if isinstance(x, SymBool):
        return z3.is_true(model.eval(x.z, model_completion=True))
    if isinstance(x, SymInt):
        return model.eval(x.z, model_completion=True).as_long()
    if isinstance(x, SymFloat):
        return real_value(model.eval(x.z, model_completion=True))
    if isinstance(x, dict):
        return collections.OrderedDict(
            (concrete(k, model), concrete(v, model)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [concrete(y, model) for y in x]
    return x


def drive(jobs, timeout=300):
    p = subprocess.run(
        [harness.PY, '-W', 'ignore',
         os.path.join(harness.ROOT, 'replay', 'fn_driver.py'), harness.REPO],
        input=json.dumps(jobs), capture_output=True, text=True,
        timeout=timeout)
    if p.returncode != 0:
        return None, p.stderr[-2000:]
    return json.loads(p.stdout), None


def cond_of(c):
    if isinstance(c, SymBool):
        return c.z
    if z3.is_expr(c):
        return c
    return z3.BoolVal(bool(c))


def run_case(r, e, case, prop, findings=()):
    ops = load_ops(case.mod)
    # the texts of numbers matter
    strs.DECIMAL = case.mod == 'ops_durations'
    for f in case.functions:
        r.functions.add(f)
    mine = [f for f in findings if case.op in getattr(f, 'ops', ())]
    samples = []
    seen = set()

    def body():
        req = case.inputs(e)
        try:
            regions = [(f, cond_of(ops.REGIONS[f.condition](req)))
                       for f in mine]
            claims = ops.run(case.op, req)
        except ops.Skip:
            raise PathDone()
        return req, regions, claims

    def on_path(res):
        req, regions, claims = res
        ok = True
        if not claims:
            r.reach[case.op + ': no claim'] += 1
        for text, c in claims:
            r.reach[case.op + ': ' + text] += 1
            if text in seen:
                continue
            c = cond_of(c)
            good, model = e.prove(z3.Or(c, *[z for _, z in regions])
                                  if regions else c)
            if good is None:
                r.inconclusive.append('{}: no answer for "{}"'.format(
                    case.name, text))
                continue
            if not good:
                ok = False
                seen.add(text)
                confirm(text, req, model, None)
                continue
            for f, z in regions:
                if f.condition in r.findings:
                    continue
                if z3.is_false(z3.simplify(z)) or z3.is_true(
                        z3.simplify(c)):
                    continue
                good, model = e.prove(z3.Or(c, z3.Not(z)))
                if good is False:
                    confirm(text, req, model, f)
        if ok and len(samples) < case.samples:
            m = e.witness()
            if m is not None and not any(
                    z3.is_true(m.eval(z, model_completion=True))
                    for _, z in regions):
                samples.append(concrete(req, m))

    def confirm(text, req, model, finding):
        q = concrete(req, model)
        out, err = drive([[case.mod, case.op, q]])
        r.replays += 1
        what = '{}: {} fails for {}'.format(
            case.name, text, json.dumps(q, default=str)[:700])
        if out is None:
            r.unconfirmed.append(what + ' (driver: ' + str(err) + ')')
        elif out[0].get('failed'):
            if finding is not None:
                r.findings[finding.condition] = finding.text
            else:
                r.violations.append({
                    'what': what + ' [' + '; '.join(
                        out[0]['failed'])[:300] + ']',
                    'mod': case.mod, 'op': case.op, 'request': q,
                    'failed': out[0]['failed']})
        elif finding is None:
            r.unconfirmed.append(what)
    e.explore(body, on_path)
    if samples:
        out, err = drive([[case.mod, case.op, q] for q in samples])
        r.replays += len(samples)
        if out is None:
            r.unconfirmed.append('{}: driver: {}'.format(case.name, err))
        else:
            for q, o in zip(samples, out):
                r.sample({'case': case.name, 'request': q, 'result': o})
                if o.get('failed'):
                    r.violations.append({
                        'what': '{}: {} fails for {}'.format(
                            case.name, '; '.join(o['failed'])[:300],
                            json.dumps(q, default=str)[:700]),
                        'mod': case.mod, 'op': case.op, 'request': q,
                        'failed': o['failed']})
                elif o.get('skipped'):
                    r.unconfirmed.append('{}: precondition differs for {}'
                                         .format(case.name, q))


def units(prop, cases, findings=()):
    return [harness.Unit(c.name, lambda r, e, c=c: run_case(
        r, e, c, prop, findings)) for c in cases]

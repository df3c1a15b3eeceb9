"""Runs the real compiler and the real generated Python code on one input.

Usage: /opt/venv/bin/python py_driver.py REPO < request.json > observation.json
request: {schema, data, ordered_paths, cap, ordered}
"""
import collections
import contextlib
import datetime
import io
import json
import os
import pathlib
import shutil
import sys
import tempfile
import traceback


def revive(x):
    """{"__odict__": [[k, v], ...]} is an ordered dictionary."""
    if isinstance(x, dict):
        if set(x) == {'__odict__'}:
            return collections.OrderedDict(
                (k, revive(v)) for k, v in x['__odict__'])
        return {k: revive(v) for k, v in x.items()}
    if isinstance(x, list):
        return [revive(y) for y in x]
    return x


def main():
    repo = sys.argv[1]
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import mapry
    import mapry.main
    import mapry.parse
    import refsem
    req = json.load(sys.stdin, object_pairs_hook=collections.OrderedDict)
    obs = {}
    tmp = tempfile.mkdtemp(prefix='replay')
    try:
        run(req, obs, tmp, mapry, refsem)
    except Exception:
        obs['crash'] = traceback.format_exc()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    json.dump(obs, sys.stdout, default=str)


def run(req, obs, tmp, mapry, refsem):
    schema_map = req['schema']
    try:
        schema = mapry.parse.schema_from_mapping(mapping=schema_map, ref='#')
    except mapry.validation.SchemaError as err:
        obs['schema_error'] = str(err)
        return
    mod = schema_map['py']['module_name']
    pkg = pathlib.Path(tmp)
    for part in mod.split('.'):
        pkg = pkg / part
        pkg.mkdir()
    err = io.StringIO()
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(err):
        code = mapry.main.generate_py(schema=schema, outdir=pkg)
    if code != 0:
        obs['schema_error'] = err.getvalue()
        return
    if 'data' not in req:
        return
    sys.path.insert(0, tmp)
    import importlib
    try:
        types = importlib.import_module(mod)
        parse = importlib.import_module(mod + '.parse')
        frm = importlib.import_module(mod + '.fromjsonable')
        to = importlib.import_module(mod + '.tojsonable')
    except Exception as ex:
        obs['import_error'] = repr(ex)
        return
    data = revive(json.loads(json.dumps(req['data'])))
    name = schema_map['name'].lower()
    errors = parse.Errors(req.get('cap', 1))
    try:
        graph = getattr(frm, name + '_from')(
            value=data, ref='REF', errors=errors)
    except Exception as ex:
        obs['raised'] = repr(ex)
        return
    obs['errors'] = [[e.ref, e.message] for e in errors.values()]
    obs['accepted'] = graph is not None
    if graph is None:
        return
    sem = refsem.Sem(schema_map, 'py')
    try:
        obs['dump'] = dump_graph(sem, graph, schema_map)
    except Exception as ex:
        obs['dump'] = repr(ex)
    try:
        out = getattr(to, 'serialize_' + name)(
            graph, ordered=req.get('ordered', False))
        obs['types'] = dict_types(sem, out)
        obs['serialised'] = out
        json.dumps(out)
    except Exception as ex:
        obs['serialise_raised'] = repr(ex)
        obs.pop('serialised', None)
        return
    errors = parse.Errors(10)
    try:
        again = getattr(frm, name + '_from')(
            value=out, ref='REF', errors=errors)
        obs['again'] = (None if again is None else dump_graph(
            sem, again, schema_map))
        obs['same_kind'] = True
    except Exception as ex:
        obs['again'] = repr(ex)


def dict_types(sem, out):
    names = {type(out).__name__}
    for c in sem.classes.values():
        r = out.get(sem.registry(c)) if isinstance(out, dict) else None
        if isinstance(r, dict):
            names.add(type(r).__name__)
            names.update(type(x).__name__ for x in r.values())
    return sorted(names)


def dump_graph(sem, graph, s):
    registries = {}
    for c in sem.classes.values():
        r = sem.registry(c)
        reg = getattr(graph, r)
        for i, inst in reg.items():
            registries[id(inst)] = (r, i)
    out = {'graph': dump_composite(sem, s, graph, registries)}
    for c in sem.classes.values():
        r = sem.registry(c)
        reg = getattr(graph, r)
        out['registry ' + r] = [type(reg).__name__, {
            i: [inst.id, dump_composite(sem, c, inst, registries)]
            for i, inst in reg.items()}, keys_of(reg)]
    return out


def keys_of(reg):
    return list(reg) if isinstance(
        reg, collections.OrderedDict) else sorted(reg)


def dump_composite(sem, c, inst, registries):
    out = {}
    for name, p in c.get('properties', {}).items():
        v = getattr(inst, name.lower())
        out[name.lower()] = None if v is None else dump_value(
            sem, p, v, registries)
    return ['composite', type(inst).__name__, out]


def dump_value(sem, t, v, registries):
    import pathlib
    if id(v) in registries:
        return ['instance', registries[id(v)][0], registries[id(v)][1]]
    if t['type'] in sem.embeds:
        return dump_composite(sem, sem.embeds[t['type']], v, registries)
    if isinstance(v, list):
        return ['list', [dump_value(sem, t.get('values', t), x, registries)
                         for x in v]]
    if isinstance(v, dict):
        kv = [[k, dump_value(sem, t.get('values', t), x, registries)]
              for k, x in v.items()]
        if isinstance(v, collections.OrderedDict):
            return ['odict', kv]
        return ['dict', sorted(kv, key=lambda p: p[0])]
    if isinstance(v, pathlib.PurePath):
        return ['path', str(v)]
    if isinstance(v, datetime.datetime):
        return ['datetime', v.isoformat()]
    if isinstance(v, datetime.date):
        return ['date', v.isoformat()]
    if isinstance(v, datetime.time):
        return ['time', v.isoformat()]
    if isinstance(v, datetime.timedelta):
        return ['duration']
    if isinstance(v, datetime.tzinfo):
        return ['tz', str(v)]
    return [type(v).__name__, v]


if __name__ == '__main__':
    main()

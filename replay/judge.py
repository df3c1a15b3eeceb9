"""Judges an observation of a driver against the reference semantics."""
import json

import refsem


def plain(x):
    """JSON value without the marks of ordered dictionaries."""
    if isinstance(x, dict):
        if set(x) == {'__odict__'}:
            return {k: plain(v) for k, v in x['__odict__']}
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(y) for y in x]
    return x


def revive(x):
    import collections
    if isinstance(x, dict):
        if set(x) == {'__odict__'}:
            return collections.OrderedDict(
                (k, revive(v)) for k, v in x['__odict__'])
        return {k: revive(v) for k, v in x.items()}
    if isinstance(x, list):
        return [revive(y) for y in x]
    return x


def has_null_optional(sem, schema, data):
    """A null at an optional property (acceptance is not prescribed)."""
    def val(t, v):
        k = t['type']
        if k == 'array' and isinstance(v, list):
            return any(val(t['values'], x) for x in v)
        if k == 'map' and isinstance(v, dict):
            return any(val(t['values'], x) for x in v.values())
        if k in sem.embeds:
            return comp(sem.embeds[k], v)
        return False

    def comp(c, v):
        if not isinstance(v, dict):
            return False
        for name, p in c.get('properties', {}).items():
            key = p.get('json', name)
            if key in v:
                if v[key] is None and p.get('optional'):
                    return True
                if val(p, v[key]):
                    return True
        return False
    if comp(schema, data):
        return True
    for c in sem.classes.values():
        reg = data.get(sem.registry(c)) if isinstance(data, dict) else None
        if isinstance(reg, dict) and any(comp(c, x) for x in reg.values()):
            return True
    return False


def judge(req, obs, lang):
    """List of (aspect, text) in which the observation breaks the reference.

    aspects: accept, value, roundtrip, refs, raise, schema
    """
    schema = req['schema']
    out = []
    if 'crash' in obs:
        return [('raise', 'the compiler raised: ' +
                 obs['crash'].strip().splitlines()[-1])]
    if 'schema_error' in obs:
        return [('schema', 'schema refused: ' + obs['schema_error'].strip())]
    if 'import_error' in obs:
        return [('raise', 'the generated code does not load: ' +
                 obs['import_error'])]
    if 'build_error' in obs:
        return [('raise', 'the generated code does not compile: ' +
                 obs['build_error'])]
    if 'data' not in req:
        return []
    data = plain(req['data'])
    sem = refsem.Sem(schema, lang)
    vs = sem.violations(data)
    free = has_null_optional(sem, schema, data)
    if 'raised' in obs:
        return [('raise', 'parsing raised ' + obs['raised'])]
    cap = req.get('cap', 1)
    errs = obs['errors']
    if obs['accepted'] and vs:
        out.append(('accept', 'accepted although {} at {}'.format(
            vs[0][1], '/'.join(vs[0][0]) or 'the root')))
    if not obs['accepted'] and not vs and not free:
        out.append(('accept', 'rejected a conforming value: {}'.format(errs)))
    if obs['accepted'] and errs:
        out.append(('refs', 'errors reported although accepted'))
    if not obs['accepted'] and not errs and cap > 0:
        out.append(('refs', 'rejected without an error'))
    if len(errs) > cap > 0:
        out.append(('refs', '{} errors although the cap is {}'.format(
            len(errs), cap)))
    if not free:
        for ref, msg in errs:
            if not any(refsem.ref_matches(ref, 'REF', s) for s, _, _ in vs):
                out.append(('refs', 'error at {!r} ({}), which is not an '
                            'offending location'.format(ref, msg)))
        if (len(errs) < cap or cap == 0) and not obs['accepted']:
            for s, why, must in vs:
                if must and not any(refsem.ref_matches(r, 'REF', s)
                                    for r, _ in errs):
                    out.append(('refs', 'no error for {} at {}'.format(
                        why, '/'.join(s) or 'the root')))
    if obs['accepted'] and not vs:
        want = expected_dump(sem, schema, revive(req['data']), lang,
                             obs)
        if want is not None:
            got = json.loads(json.dumps(obs.get('dump')))
            if got != json.loads(json.dumps(want)):
                out.append(('value', 'parsed {} instead of {}'.format(
                    got, want)))
        if 'serialise_raised' in obs:
            out.append(('roundtrip', 'serialising raised ' +
                        obs['serialise_raised']))
        elif 'serialised' in obs:
            canon = sem.canonical(data)
            if not refsem.same_json(canon, obs['serialised'],
                                    lang != 'py'):
                out.append(('roundtrip', 'serialised as {} instead of {}'
                            .format(obs['serialised'], canon)))
            if lang == 'py' and obs.get('types') != [
                    'OrderedDict' if req.get('ordered') else 'dict']:
                out.append(('roundtrip', 'serialised as {}'.format(
                    obs['types'])))
    return out


def obs_kind(obs, r):
    """The kind of a registry which is absent is not prescribed."""
    try:
        return obs['dump']['registry ' + r][0]
    except (KeyError, TypeError, IndexError):
        return 'OrderedDict'


def expected_dump(sem, schema, data, lang, obs):
    if lang == 'go':
        return sem.go_graph(schema, data)
    if lang == 'cpp':
        return sem.cpp_graph(schema, data)
    if lang != 'py':
        return None
    out = {'graph': sem.py_composite(schema, data)}
    import collections
    for c in sem.classes.values():
        r = sem.registry(c)
        reg = data.get(r)
        kind = 'OrderedDict' if reg is not None else obs_kind(obs, r)
        if reg is not None and not isinstance(reg, collections.OrderedDict):
            kind = 'dict'
        out['registry ' + r] = [kind, {
            i: [i, sem.py_composite(c, x)] for i, x in (reg or {}).items()},
            list(reg or {}) if kind == 'OrderedDict' else sorted(reg or {})]
    return out

"""Model of ``jsonschema.validate`` (draft 4) on symbolic instances.

Only the keywords which occur in the schemas of the repository are known;
anything else is reported as not modelled.
"""
import re

import jsonschema

IGNORED = {'$schema', 'description', 'definitions', 'title', 'default', 'id'}


class Unknown(Exception):
    pass


def is_type(x, t):
    if t == 'object':
        return isinstance(x, dict)
    if t == 'array':
        return isinstance(x, list)
    if t == 'string':
        return isinstance(x, str)
    if t == 'boolean':
        return isinstance(x, bool)
    if t == 'null':
        return x is None
    if isinstance(x, bool):
        return False
    if t == 'integer':
        return isinstance(x, int)
    if t == 'number':
        return isinstance(x, (int, float))
    raise Unknown('type ' + t)


def fail(message, path):
    raise jsonschema.ValidationError(message, path=path)


def check(x, schema, root, path):
    if '$ref' in schema:
        at = root
        for part in schema['$ref'].split('/')[1:]:
            at = at[part]
        check(x, at, root, path)
        return
    for key in schema:
        v = schema[key]
        if key in IGNORED:
            continue
        if key == 'type':
            ts = v if isinstance(v, list) else [v]
            ok = False
            for t in ts:
                if is_type(x, t):
                    ok = True
            if not ok:
                fail('the type is wrong', path)
        elif key == 'properties':
            if isinstance(x, dict):
                for p in v:
                    if p in x:
                        check(x[p], v[p], root, path + [p])
        elif key == 'required':
            if isinstance(x, dict):
                for p in v:
                    if p not in x:
                        fail("{!r} is a required property".format(p), path)
        elif key == 'additionalProperties':
            if isinstance(x, dict) and v is not True:
                known = list(schema.get('properties', {}))
                for p in x:
                    if p in known:
                        continue
                    if v is False:
                        fail('Additional properties are not allowed', path)
                    check(x[p], v, root, path + [p])
        elif key == 'items':
            if isinstance(x, list):
                if isinstance(v, list):
                    raise Unknown('a list of items')
                for i, y in enumerate(x):
                    check(y, v, root, path + [i])
        elif key == 'enum':
            ok = False
            for y in v:
                if x == y:
                    ok = True
            if not ok:
                fail('not one of the values', path)
        elif key == 'pattern':
            if isinstance(x, str) and re.search(v, x) is None:
                fail('does not match', path)
        elif key in ('minimum', 'maximum'):
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                strict = schema.get('exclusive' + key.capitalize(), False)
                if key == 'minimum':
                    bad = x <= v if strict else x < v
                else:
                    bad = x >= v if strict else x > v
                if bad:
                    fail('out of bounds', path)
        elif key in ('exclusiveMinimum', 'exclusiveMaximum'):
            if not isinstance(v, bool):
                raise Unknown(key)
        elif key == 'minLength':
            if isinstance(x, str) and len(x) < v:
                fail('too short', path)
        elif key == 'maxLength':
            if isinstance(x, str) and len(x) > v:
                fail('too long', path)
        elif key == 'minItems':
            if isinstance(x, list) and len(x) < v:
                fail('too short', path)
        elif key == 'maxItems':
            if isinstance(x, list) and len(x) > v:
                fail('too long', path)
        elif key == 'minProperties':
            if isinstance(x, dict) and len(x) < v:
                fail('too small', path)
        else:
            raise Unknown(key)


def validate(instance, schema):
    check(instance, schema, schema, [])

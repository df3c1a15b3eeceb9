"""Operations on the constructors of the generated Python types (P01)."""
import collections
import typing

import mapry.parse
from opbase import Skip, load_python, require, run_op  # noqa: F401

MODULE = 'sxgen.somegraph'
LOADED = {}

# names of the schema and the names of the attributes
NAMES = {
    'plain': [('first', 'first'), ('second', 'second'), ('third', 'third'),
              ('fourth', 'fourth')],
    'capital': [('some_URL', 'some_url'), ('ID_of_it', 'id_of_it'),
                ('URL', 'url'), ('a1_B', 'a1_b')]}
# names in the JSON objects: their own, of the neighbour, another
RENAMED = {'no': None, 'rotated': 1, 'other': 0}
TYPES = {
    'boolean': {'type': 'boolean'}, 'integer': {'type': 'integer'},
    'float': {'type': 'float'}, 'string': {'type': 'string'},
    'array': {'type': 'array', 'values': {'type': 'integer'}},
    'map': {'type': 'map', 'values': {'type': 'string'}},
    'embed': {'type': 'Some_part'}, 'class': {'type': 'Some_URL_item'}}


def schema_of(req):
    """Schema with the properties in one of its composites."""
    names = NAMES[req['names']]
    props = collections.OrderedDict()
    n = len(req['properties'])
    for i in range(n):
        p = req['properties'][i]
        d = collections.OrderedDict()
        spec = TYPES[p['type']]
        d['type'] = spec['type']
        d['description'] = 'is it.'
        if 'values' in spec:
            d['values'] = spec['values']
        if p['optional']:
            d['optional'] = True
        if req['json'] == 'rotated':
            d['json'] = names[(i + 1) % n][0]
        if req['json'] == 'other':
            d['json'] = 'x' + str(9 - i)
        props[names[i][0]] = d
    m = collections.OrderedDict()
    m['name'] = 'Some_graph'
    m['description'] = 'is it.'
    m['py'] = {'module_name': MODULE, 'path_as': 'str', 'timezone_as': 'str'}
    item = collections.OrderedDict(
        [('name', 'Some_URL_item'), ('description', 'is it.')])
    if req['plural']:
        item['plural'] = req['plural']
    part = collections.OrderedDict(
        [('name', 'Some_part'), ('description', 'is it.')])
    other = collections.OrderedDict(
        [('name', 'Other'), ('description', 'is it.')])
    if props:
        if req['where'] == 'graph':
            m['properties'] = props
        if req['where'] == 'class':
            item['properties'] = props
        if req['where'] == 'embed':
            part['properties'] = props
    m['classes'] = [item, other] if req['classes'] else []
    m['embeds'] = [part]
    return m


def load(req):
    m = schema_of(req)
    key = repr(m)
    if key not in LOADED:
        LOADED[key] = load_python(
            mapry.parse.schema_from_mapping(mapping=m, ref='#'), MODULE)
    return LOADED[key]


def composite_of(c, req):
    return {'graph': 'SomeGraph', 'class': 'SomeURLItem',
            'embed': 'SomePart'}[req['where']]


def attributes(req):
    """Attributes with their properties."""
    names = NAMES[req['names']]
    out = []
    for i in range(len(req['properties'])):
        out.append((names[i][1], req['properties'][i]))
    return out


def registries(req):
    if not req['classes']:
        return []
    # lower-case plurals of the classes
    return [(req['plural'] or 'Some_URL_items').lower(), 'others']


def make(c, req, kwargs):
    cls = getattr(c.types, composite_of(c, req))
    if req['where'] == 'class':
        return cls(id=req['id'], **kwargs)
    return cls(**kwargs)


def given(req):
    """Keyword arguments of the request."""
    kwargs = {}
    for name, p in attributes(req):
        if p['given']:
            kwargs[name] = p['value']
    return kwargs


def kept(req, obj, claims):
    for name, p in attributes(req):
        got = getattr(obj, name)
        if p['given']:
            claims.append(('the attribute {} is what was given'.format(name),
                           got is not None and got == p['value']))
        else:
            claims.append(('the attribute {} is None'.format(name),
                           got is None))
    if req['where'] == 'class':
        claims.append(('the identifier is what was given',
                       obj.id == req['id']))


def construct(req):
    """The attributes of an object are the arguments of its constructor."""
    c = load(req)
    missing = [p for _, p in attributes(req)
               if not p['optional'] and not p['given']]
    kwargs = given(req)
    if missing:
        try:
            make(c, req, kwargs)
        except TypeError:
            return [('a required property can not be left out', True)]
        return [('a required property can not be left out', False)]
    obj = make(c, req, kwargs)
    claims = []
    kept(req, obj, claims)
    if req['where'] == 'graph':
        again = make(c, req, kwargs)
        for name in registries(req):
            got = getattr(obj, name)
            claims.append(('the registry {} starts empty'.format(name),
                           isinstance(got, collections.OrderedDict)
                           and len(got) == 0))
            claims.append(('graphs do not share the registry ' + name,
                           got is not getattr(again, name)))
    return claims


def order(req):
    """Arguments in order: identifier, required, optional properties."""
    c = load(req)
    cls = getattr(c.types, composite_of(c, req))
    args = []
    if req['where'] == 'class':
        args.append(req['id'])
    for _, p in attributes(req):
        if not p['optional']:
            require(p['given'])
            args.append(p['value'])
    more = True
    for _, p in attributes(req):
        if p['optional']:
            # none is given behind one which is left out
            require(more or not p['given'])
            more = p['given']
            if more:
                args.append(p['value'])
    obj = cls(*args)
    claims = []
    kept(req, obj, claims)
    return claims


def filled(req):
    """The registries of a graph are what was given, even if empty."""
    c = load(req)
    kwargs = given(req)
    regs = registries(req)
    item = placeholder(c, 'some_url_item', 'class', req['id'])
    given_regs = []
    for i in range(len(regs)):
        if req['registries'][i] == 'none':
            given_regs.append(None)
            continue
        reg = collections.OrderedDict()
        if req['registries'][i] == 'one':
            reg['x'] = item
        kwargs[regs[i]] = reg
        given_regs.append(reg)
    obj = c.types.SomeGraph(**kwargs)
    claims = []
    kept(req, obj, claims)
    for i in range(len(regs)):
        got = getattr(obj, regs[i])
        if given_regs[i] is None:
            claims.append(('the registry {} starts empty'.format(regs[i]),
                           got is not None and len(got) == 0))
        else:
            claims.append(('the registry {} is what was given'.format(regs[i]),
                           got is given_regs[i]))
    return claims


def placeholder(c, name, where, id_):
    fn = getattr(c.parse, 'placeholder_' + name)
    if where == 'class':
        return fn(id_)
    return fn()


def shell(req):
    """All the attributes of a placeholder are None."""
    c = load(req)
    name = {'graph': 'some_graph', 'class': 'some_url_item',
            'embed': 'some_part'}[req['where']]
    obj = placeholder(c, name, req['where'], req['id'])
    claims = [('a placeholder is an instance of its type',
               isinstance(obj, getattr(c.types, composite_of(c, req))))]
    for attr, _ in attributes(req):
        claims.append(('the attribute {} of the placeholder is None'.format(
            attr), getattr(obj, attr) is None))
    if req['where'] == 'class':
        claims.append(('the identifier is what was given',
                       obj.id == req['id']))
    if req['where'] == 'graph':
        for reg in registries(req):
            got = getattr(obj, reg)
            claims.append(('the registry {} of the placeholder is '
                           'empty'.format(reg),
                           got is not None and len(got) == 0))
    return claims


def hint_of(c, p):
    t = p['type']
    if t == 'array':
        h = typing.List[int]
    elif t == 'map':
        h = typing.MutableMapping[str, str]
    elif t == 'embed':
        h = c.types.SomePart
    elif t == 'class':
        h = c.types.SomeURLItem
    else:
        h = {'boolean': bool, 'integer': int, 'float': float,
             'string': str}[t]
    return typing.Optional[h] if p['optional'] else h


def written(req):
    """A constructed object is written to JSON and read again."""
    c = load(req)
    n = len(req['properties'])
    names = NAMES[req['names']]
    for p in req['properties']:
        require(p['given'] or p['optional'])
    obj = make(c, req, given(req))
    if req['where'] == 'graph':
        got = c.to.serialize_some_graph(obj)
    elif req['where'] == 'class':
        got = c.to.serialize_some_url_item(obj)
    else:
        got = c.to.serialize_some_part(obj)
    claims = []
    count = 0
    for i in range(n):
        p = req['properties'][i]
        key = names[i][0]
        if req['json'] == 'rotated':
            key = names[(i + 1) % n][0]
        if req['json'] == 'other':
            key = 'x' + str(9 - i)
        if p['given']:
            count = count + 1
            claims.append(('the property {} is written'.format(key),
                           key in got and got[key] == p['value']))
        else:
            claims.append(('the property {} is not written'.format(key),
                           key not in got))
    claims.append(('nothing else is written', len(got) == count))
    return claims


def hints(req):
    """The annotations name the types of the properties.

    They are compared by their names: the module typing shares references
    by name between the packages of a process.
    """
    c = load(req)
    cls = getattr(c.types, composite_of(c, req))
    got = typing.get_type_hints(cls.__init__)
    claims = []
    for attr, p in attributes(req):
        claims.append(('the argument {} has the type of the property'.format(
            attr), repr(got.get(attr)) == repr(hint_of(c, p))))
    if req['where'] == 'class':
        claims.append(('the identifier is a text', got.get('id') == str))
    if req['where'] == 'graph' and req['classes']:
        regs = registries(req)
        for i in range(2):
            item = c.types.SomeURLItem if i == 0 else c.types.Other
            claims.append((
                'the argument {} is a registry'.format(regs[i]),
                repr(got.get(regs[i])) == repr(typing.Optional[
                    typing.MutableMapping[str, item]])))
    return claims


OPS = {'construct': construct, 'order': order, 'filled': filled,
       'shell': shell, 'written': written, 'hints': hints}
REGIONS = {}


def run(name, req):
    return run_op(OPS[name], req)

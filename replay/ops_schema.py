"""Operations on schemas: what is well-formed and what parsing keeps."""
import collections
import re

import mapry
import mapry.parse
import mapry.validation
from opbase import Skip, require, run_op  # noqa: F401

SCALARS = ['boolean', 'integer', 'float', 'string', 'path', 'date', 'time',
           'datetime', 'time_zone', 'duration']
BUILTIN = SCALARS + ['array', 'map']
EXTRA = {
    'integer': ['minimum', 'exclusive_minimum', 'maximum',
                'exclusive_maximum'],
    'float': ['minimum', 'exclusive_minimum', 'maximum',
              'exclusive_maximum'],
    'string': ['pattern'], 'path': ['pattern'],
    'date': ['format'], 'time': ['format'], 'datetime': ['format'],
    'array': ['values', 'minimum_size', 'maximum_size'],
    'map': ['values'],
}
DATE_LETTERS = 'aAbBdemyYzZ%'
TIME_LETTERS = 'HIlMPpSzZ%'


def is_obj(x):
    return isinstance(x, dict)


def is_text(x):
    return isinstance(x, str)


def is_bool(x):
    return isinstance(x, bool)


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
UPPER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
LOWER = 'abcdefghijklmnopqrstuvwxyz'
DIGITS = '0123456789'


def name_ok(s, first):
    """Letters, digits and underscores, not ending in an underscore."""
    if not is_text(s) or len(s) == 0:
        return False
    if s[0] not in first:
        return False
    for c in s[1:]:
        if c not in LETTERS + DIGITS + '_':
            return False
    return s[-1] != '_'


def word_ok(s):
    """Part of a namespace or a module name, name of a package."""
    if len(s) == 0 or s[0] not in LETTERS:
        return False
    for c in s[1:]:
        if c not in LETTERS + DIGITS + '_':
            return False
    return True


def description_ok(s):
    """Starts with a verb in lower case, one line, ends with a dot."""
    return (is_text(s) and len(s) >= 2 and s[0] in LOWER and s[-1] == '.'
            and '\n' not in s)


def regex_ok(s):
    if not is_text(s):
        return False
    try:
        re.compile(s)
    except re.error:
        return False
    return True


def format_ok(kind, s):
    """Directives out of the documented ones; nothing else with %."""
    if not is_text(s):
        return False
    if len(s) > 0:
        # (a format out of line breaks only is neither prescribed)
        require(len(''.join(s.splitlines())) > 0)
    elif kind in ('date', 'time'):
        return False
    letters = (DATE_LETTERS if kind == 'date' else TIME_LETTERS
               if kind == 'time' else DATE_LETTERS + TIME_LETTERS)
    i = 0
    while i < len(s):
        if s[i] == '%':
            if i + 1 >= len(s) or s[i + 1] not in letters:
                return False
            i += 2
        else:
            i += 1
    return True


def keys_ok(m, required, known):
    for k in required:
        if k not in m:
            return False
    for k in m:
        if k not in known:
            return False
    return True


def bounds_ok(t, m):
    number = is_int if t == 'integer' else is_num
    for k in ('minimum', 'maximum'):
        if k in m:
            if not number(m[k]):
                return False
            if t == 'float' and not finite(m[k]):
                return False
    for k in ('exclusive_minimum', 'exclusive_maximum'):
        if k in m and not is_bool(m[k]):
            return False
    if 'minimum' in m and 'maximum' in m:
        if m['minimum'] > m['maximum']:
            return False
        if m['minimum'] == m['maximum']:
            for k in ('exclusive_minimum', 'exclusive_maximum'):
                if k in m and m[k]:
                    return False
    return True


def finite(x):
    if isinstance(x, int):
        return -2**1024 + 2**970 < x and x < 2**1024 - 2**970
    return x == x and x not in (float('inf'), float('-inf'))


def type_ok(m, names, known):
    """Definition of a type; ``known`` are the keys besides constraints."""
    if not is_obj(m):
        return False
    if 'type' not in m or not is_text(m['type']):
        return False
    t = None
    for k in BUILTIN + names:
        if m['type'] == k:
            t = k
    if t is None:
        return False
    if not keys_ok(m, [], known + EXTRA.get(t, [])):
        return False
    if 'description' in m and not is_text(m['description']):
        return False
    if t in ('integer', 'float'):
        return bounds_ok(t, m)
    if t in ('string', 'path'):
        return 'pattern' not in m or regex_ok(m['pattern'])
    if t in ('date', 'time', 'datetime'):
        return 'format' not in m or format_ok(t, m['format'])
    if t == 'array':
        for k in ('minimum_size', 'maximum_size'):
            if k in m and not (is_int(m[k]) and m[k] >= 0):
                return False
        if 'minimum_size' in m and 'maximum_size' in m and \
                m['minimum_size'] > m['maximum_size']:
            return False
    if t in ('array', 'map'):
        return 'values' in m and type_ok(m['values'], names,
                                         ['type', 'description'])
    return True


def property_ok(m, names):
    if not is_obj(m):
        return False
    if 'description' not in m or 'type' not in m:
        return False
    if 'json' in m and not is_text(m['json']):
        return False
    if 'optional' in m and not is_bool(m['optional']):
        return False
    if isinstance(m, collections.OrderedDict):
        ks = list(m)
        if not (ks[0] == 'type' and ks[1] == 'description'):
            return False
    return type_ok(m, names, ['type', 'description', 'json', 'optional'])


def properties_ok(m, names):
    if 'properties' not in m:
        return True
    ps = m['properties']
    if not is_obj(ps):
        return False
    seen = []
    for name in ps:
        if not name_ok(name, LETTERS):
            return False
        if not property_ok(ps[name], names):
            return False
        json = ps[name]['json'] if 'json' in ps[name] else name
        if json in seen:
            return False
        seen.append(json)
    return True


def cpp_ok(m):
    if not is_obj(m) or not keys_ok(
            m, ['namespace', 'path_as', 'optional_as', 'datetime_library'],
            ['namespace', 'path_as', 'optional_as', 'datetime_library',
             'indention']):
        return False
    for k in m:
        if not is_text(m[k]):
            return False
    for w in m['namespace'].split('::'):
        if not word_ok(w):
            return False
    return (m['path_as'] in ['std::filesystem::path',
                             'boost::filesystem::path']
            and m['optional_as'] in ['boost::optional', 'std::optional',
                                     'std::experimental::optional']
            and m['datetime_library'] in ['ctime', 'date.h']
            and indention_ok(m))


def indention_ok(m):
    if 'indention' in m:
        for c in m['indention']:
            if c not in ' \t':
                return False
    return True


def py_ok(m):
    if not is_obj(m) or not keys_ok(
            m, ['module_name', 'path_as', 'timezone_as'],
            ['module_name', 'path_as', 'timezone_as', 'indention']):
        return False
    for k in m:
        if not is_text(m[k]):
            return False
    for w in m['module_name'].split('.'):
        if not word_ok(w):
            return False
    return (m['path_as'] in ['str', 'pathlib.Path']
            and m['timezone_as'] in ['str', 'pytz.timezone']
            and indention_ok(m))


def go_ok(m):
    return (is_obj(m) and keys_ok(m, ['package'], ['package'])
            and is_text(m['package']) and word_ok(m['package']))


def composite_ok(m, known):
    return (is_obj(m) and keys_ok(m, ['name', 'description'], known)
            and name_ok(m['name'], UPPER)
            and description_ok(m['description']))


IRREGULAR = {'riterion': 'riteria', 'inimum': 'inima', 'aximum': 'axima',
             'atrix': 'atrices', 'ife': 'ives', 'ocus': 'oci'}


def plural_of(name):
    last = name.split('_')[-1]
    for w in ('criterion', 'minimum', 'maximum', 'matrix', 'life', 'focus'):
        if last[1:] == w[1:] and last[0] in (w[0], w[0].upper()):
            return name[:len(name) - len(w) + 1] + IRREGULAR[w[1:]]
    if last.endswith('y'):
        if len(last) > 1 and last[-2] in 'aeiou':
            return name + 's'
        return name[:-1] + 'ies'
    if last.endswith('x') or last.endswith('s'):
        return name + 'es'
    return name + 's'


def wellformed(m):
    """The rules of the documentation for a schema."""
    if not composite_ok(m, ['name', 'description', 'cpp', 'go', 'py',
                            'classes', 'embeds', 'properties']):
        return False
    if isinstance(m, collections.OrderedDict):
        ks = list(m)
        if not (ks[0] == 'name' and ks[1] == 'description'):
            return False
    if 'cpp' in m and not cpp_ok(m['cpp']):
        return False
    if 'go' in m and not go_ok(m['go']):
        return False
    if 'py' in m and not py_ok(m['py']):
        return False
    names = []
    for kind in ('classes', 'embeds'):
        if kind not in m:
            continue
        if not isinstance(m[kind], list):
            return False
        for c in m[kind]:
            known = ['name', 'description', 'properties']
            if kind == 'classes':
                known = known + ['plural', 'id_pattern']
            if not composite_ok(c, known):
                return False
            if c['name'] in names or c['name'] == m['name']:
                return False
            names.append(c['name'])
            if 'plural' in c and not name_ok(c['plural'], UPPER):
                return False
            if 'id_pattern' in c and not regex_ok(c['id_pattern']):
                return False
    if not properties_ok(m, names):
        return False
    for kind in ('classes', 'embeds'):
        if kind in m:
            for c in m[kind]:
                if not properties_ok(c, names):
                    return False
                if kind == 'classes' and 'properties' in c and \
                        'id' in c['properties']:
                    return False
    # the registries do not clash with the properties of the graph
    if 'classes' in m and 'properties' in m:
        for c in m['classes']:
            reg = (c['plural'] if 'plural' in c else plural_of(
                c['name'])).lower()
            for name in m['properties']:
                p = m['properties'][name]
                if reg == name or 'json' in p and reg == p['json']:
                    return False
    return True


def refused(req):
    """Parsing raises the schema error exactly for malformed schemas."""
    m = req['mapping']
    good = wellformed(m)
    try:
        mapry.parse.schema_from_mapping(mapping=m, ref='#')
        got = True
    except mapry.validation.SchemaError:
        got = False
    if good:
        return [('a well-formed schema is accepted', got)]
    return [('a malformed schema is refused', not got)]


# ---------------------------------------------------------------------------
# what parsing keeps
# ---------------------------------------------------------------------------

NUMBER = {'integer': 'Integer', 'float': 'Float'}
PLAIN = {'boolean': 'Boolean', 'time_zone': 'TimeZone',
         'duration': 'Duration'}
TEXT = {'string': 'String', 'path': 'Path'}
MOMENT = {'date': ('Date', '%Y-%m-%d'), 'time': ('Time', '%H:%M:%S'),
          'datetime': ('Datetime', '%Y-%m-%dT%H:%M:%SZ')}


def same_opt(got, m, key):
    if key in m:
        return got is not None and got == m[key]
    return got is None


def same_type(t, m, graph, where, claims):
    def claim(text, cond):
        claims.append(('{}: {}'.format(where, text), cond))
    k = m['type']
    if k in PLAIN:
        claim('the type is kept', type(t) is getattr(mapry, PLAIN[k]))
    elif k in NUMBER:
        if type(t) is not getattr(mapry, NUMBER[k]):
            claim('the type is kept', False)
            return
        claim('the minimum is kept', same_opt(t.minimum, m, 'minimum'))
        claim('the maximum is kept', same_opt(t.maximum, m, 'maximum'))
        claim('the exclusive minimum is kept', t.exclusive_minimum
              == m.get('exclusive_minimum', False))
        claim('the exclusive maximum is kept', t.exclusive_maximum
              == m.get('exclusive_maximum', False))
    elif k in TEXT:
        if type(t) is not getattr(mapry, TEXT[k]):
            claim('the type is kept', False)
            return
        if 'pattern' in m:
            claim('the pattern is kept', t.pattern is not None
                  and t.pattern.pattern == m['pattern'])
        else:
            claim('there is no pattern', t.pattern is None)
    elif k in MOMENT:
        cls, default = MOMENT[k]
        if type(t) is not getattr(mapry, cls):
            claim('the type is kept', False)
            return
        claim('the format is kept', t.format == m.get('format', default))
    elif k == 'array':
        if type(t) is not mapry.Array:
            claim('the type is kept', False)
            return
        claim('the minimum size is kept',
              same_opt(t.minimum_size, m, 'minimum_size'))
        claim('the maximum size is kept',
              same_opt(t.maximum_size, m, 'maximum_size'))
        same_type(t.values, m['values'], graph, where, claims)
    elif k == 'map':
        if type(t) is not mapry.Map:
            claim('the type is kept', False)
            return
        same_type(t.values, m['values'], graph, where, claims)
    else:
        want = None
        for c in list(graph.classes.values()) + list(graph.embeds.values()):
            if c.name == k:
                want = c
        claim('the composite is the one of the name', t is want)


def same_properties(c, m, graph, ref, where, claims):
    ps = m.get('properties', {})
    claims.append((where + ': the properties keep their order',
                   same_list(list(c.properties), list(ps))))
    if len(c.properties) != len(ps):
        return
    for p, name in zip(list(c.properties.values()), ps):
        pm = ps[name]
        w = where + ', property'
        claims.append((w + ': the name is kept', p.name == name))
        claims.append((w + ': the description is kept',
                       p.description == pm['description']))
        claims.append((w + ': the JSON name is kept',
                       p.json == pm.get('json', name)))
        claims.append((w + ': the optionality is kept',
                       p.optional == pm.get('optional', False)))
        claims.append((w + ': it belongs to its composite',
                       p.composite is c))
        claims.append((w + ': the reference points to the property',
                       p.ref == '{}/{}'.format(ref, name)))
        same_type(p.type, pm, graph, w, claims)


def same_list(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if not x == y:
            return False
    return True


def keeps(req):
    """The parsed schema says what the mapping says."""
    m = req['mapping']
    require(wellformed(m))
    s = mapry.parse.schema_from_mapping(mapping=m, ref='#')
    g = s.graph
    claims = [('graph: the name is kept', g.name == m['name']),
              ('graph: the description is kept',
               g.description == m['description']),
              ('graph: the reference is kept', g.ref == '#')]
    for kind, got in (('classes', g.classes), ('embeds', g.embeds)):
        ms = m.get(kind, [])
        claims.append((kind + ': the order is kept', same_list(
            list(got), [c['name'] for c in ms])))
        if len(got) != len(ms):
            return claims
        for i, (c, cm) in enumerate(zip(list(got.values()), ms)):
            w = 'class' if kind == 'classes' else 'embed'
            ref = '#/{}/{}'.format(kind, i)
            claims.append((w + ': the name is kept',
                           c.name == cm['name']))
            claims.append((w + ': the description is kept',
                           c.description == cm['description']))
            claims.append((w + ': the reference points to the definition',
                           c.ref == ref))
            if kind == 'classes':
                claims.append((w + ': the plural is kept', c.plural == (
                    cm['plural'] if 'plural' in cm
                    else plural_of(cm['name']))))
                if 'id_pattern' in cm:
                    claims.append((
                        w + ': the identifier pattern is kept',
                        c.id_pattern is not None
                        and c.id_pattern.pattern == cm['id_pattern']))
                else:
                    claims.append((w + ': there is no identifier pattern',
                                   c.id_pattern is None))
            same_properties(c, cm, g, ref, w, claims)
    same_properties(g, m, g, '#', 'graph', claims)
    for lang, got, default in (('cpp', s.cpp, '  '), ('go', s.go, None),
                               ('py', s.py, '    ')):
        if lang not in m:
            claims.append((lang + ': there are no settings', got is None))
            continue
        if got is None:
            claims.append((lang + ': the settings are kept', False))
            continue
        for k in m[lang]:
            claims.append((lang + ': the settings are kept', getattr(
                got, k) == m[lang][k]))
        if default is not None and 'indention' not in m[lang]:
            claims.append((lang + ': the default indention',
                           got.indention == default))
    return claims


# ---------------------------------------------------------------------------
# queries on definitions
# ---------------------------------------------------------------------------

CLASS_OF = {'boolean': 'Boolean', 'integer': 'Integer', 'float': 'Float',
            'string': 'String', 'path': 'Path', 'date': 'Date',
            'time': 'Time', 'datetime': 'Datetime', 'time_zone': 'TimeZone',
            'duration': 'Duration', 'array': 'Array', 'map': 'Map',
            'class': 'Class', 'embed': 'Embed', 'graph': 'Graph'}


def composites(m):
    """Numbered composites of a schema: (kind, mapping, reference)."""
    out = []
    for kind in ('classes', 'embeds'):
        for i, c in enumerate(m.get(kind, [])):
            out.append((kind, c, '#/{}/{}'.format(kind, i)))
    return out


def number_of(cs, name):
    for i, c in enumerate(cs):
        if c[1]['name'] == name:
            return i
    return None


def kinds_in(pm, cs):
    """Kinds of types in a definition and the composites it names."""
    kinds, named = [], []
    while pm['type'] == 'array' or pm['type'] == 'map':
        kinds.append('array' if pm['type'] == 'array' else 'map')
        pm = pm['values']
    i = number_of(cs, pm['type'])
    if i is None:
        for k in SCALARS:
            if pm['type'] == k:
                kinds.append(k)
    else:
        named.append(i)
    return kinds, named


def closure(start, edges):
    seen = []
    for i in start:
        if i not in seen:
            seen.append(i)
    todo = list(seen)
    while len(todo) > 0:
        i = todo.pop()
        for j in edges[i]:
            if j not in seen:
                seen.append(j)
                todo.append(j)
    return seen


def places(m, ref, cs):
    """References of all definitions of types in the order of properties."""
    out = []
    for name in m.get('properties', {}):
        pm = m['properties'][name]
        w = '{}/{}'.format(ref, name)
        out.append((pm, w))
        while pm['type'] == 'array' or pm['type'] == 'map':
            pm = pm['values']
            w = w + '/values'
            out.append((pm, w))
    return out


def queries(req):
    """Searches for types and references in a definition are exact."""
    m = req['mapping']
    require(wellformed(m))
    g = mapry.parse.schema_from_mapping(mapping=m, ref='#').graph
    cs = composites(m)
    objs = list(g.classes.values()) + list(g.embeds.values())
    claims = []
    kinds, edges = [], []
    for kind, c, _ in cs:
        ks, es = [], []
        for name in c.get('properties', {}):
            k, n = kinds_in(c['properties'][name], cs)
            ks += k
            es += n
        kinds.append(ks)
        edges.append(es)
    gk, ge = [], []
    for name in m.get('properties', {}):
        k, n = kinds_in(m['properties'][name], cs)
        gk += k
        ge += n

    def has(start, own):
        out = list(own)
        for i in closure(start, edges):
            out += kinds[i]
            out.append('class' if cs[i][0] == 'classes' else 'embed')
        return out
    for i, o in enumerate(objs):
        got = has([i], [])
        for k in CLASS_OF:
            claims.append((
                'needs_type of a composite is exact',
                mapry.needs_type(
                    a_type=o, query=getattr(mapry, CLASS_OF[k]))
                == (k in got)))
        want = [objs[j] for j in closure(edges[i], edges)
                if cs[j][0] == 'classes']
        refs = mapry.references(a_type=o)
        claims.append(('all references are found', all(
            [any([x is y for y in refs]) for x in want])))
        claims.append(('nothing else is referenced',
                       len(refs) == len(want)))
        for x, y in zip(refs, refs[1:]):
            claims.append(('references are sorted by name',
                           x.name < y.name))
    got = has(range(len(cs)), gk + ['graph'])
    for k in CLASS_OF:
        claims.append(('needs_type of the graph is exact', mapry.needs_type(
            a_type=g, query=getattr(mapry, CLASS_OF[k])) == (k in got)))
    seen = list(mapry.iterate_over_types(graph=g))
    want = []
    for kind, c, ref in cs:
        want += places(c, ref, cs)
    want += places(m, '#', cs)
    claims.append(('all types are visited once', len(seen) == len(want)))
    for (t, ref), (pm, wref) in zip(seen, want):
        claims.append(('types are visited under their references',
                       ref == wref))
        i = number_of(cs, pm['type'])
        if i is not None:
            claims.append(('the visited type is the one of the schema',
                           t is objs[i]))
        else:
            for k in BUILTIN:
                if pm['type'] == k:
                    claims.append((
                        'the visited type is the one of the schema',
                        type(t) is getattr(mapry, CLASS_OF[k])))
    return claims


OPS = {'refused': refused, 'keeps': keeps, 'queries': queries}
REGIONS = {}


def run(op, req):
    return run_op(OPS[op], req)

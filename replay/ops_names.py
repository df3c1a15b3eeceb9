"""Operations on names: conversions to identifiers of the targets (N01)."""
import re

import mapry.cpp.naming
import mapry.naming
import mapry.py.naming
import mapry.schemas
import mapry.validation
from opbase import Skip, require, run_op  # noqa: F401

_DEFS = mapry.schemas.GRAPH['definitions']

IRREGULAR = {'criterion': 'criteria', 'minimum': 'minima',
             'maximum': 'maxima', 'matrix': 'matrices', 'life': 'lives',
             'focus': 'foci', 'Criterion': 'Criteria', 'Minimum': 'Minima',
             'Maximum': 'Maxima', 'Matrix': 'Matrices', 'Life': 'Lives',
             'Focus': 'Foci'}


def admitted_composite(kind, name):
    pattern = _DEFS[kind]['properties']['name']['pattern']
    return re.search(pattern, name) is not None


def admitted_property(name):
    # as a key of the properties of a schema
    errs = mapry.validation.validate(
        mapping={'name': 'G', 'description': 'has.',
                 'properties': {name: {'type': 'boolean',
                                       'description': 'x'}}}, ref='')
    return len(errs) == 0


def words(name):
    return [w for w in name.split('_') if len(w) > 0]


def capital(word):
    return word[0].upper() + word[1:]


def want_ucamel(name):
    out = ''
    for w in words(name):
        out = out + capital(w)
    return out


def want_camel(name):
    out = ''
    for i, w in enumerate(words(name)):
        out = out + (w.lower() if i == 0 else capital(w))
    return out


def want_plural(name):
    """The documented rules: the last word decides."""
    last = name.split('_')[-1]
    for k in IRREGULAR:
        if last == k:
            return name[:len(name) - len(k)] + IRREGULAR[k]
    if last.endswith('y'):
        if len(last) > 1 and last[-2] in 'aeiou':
            return name + 's'
        return name[:-1] + 'ies'
    if last.endswith('x') or last.endswith('s'):
        return name + 'es'
    return name + 's'


def _letters(name):
    return name.replace('_', '').lower()


def prop(req):
    """Names of properties."""
    name = req['name']
    require(admitted_property(name))
    c = mapry.naming.camel_case(identifier=name)
    u = mapry.naming.ucamel_case(identifier=name)
    f = mapry.cpp.naming.as_field(identifier=name)
    a = mapry.py.naming.as_attribute(identifier=name)
    return [
        ('a property name consists of letters, digits and underscores',
         re.fullmatch(r'[a-zA-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?', name)
         is not None),
        ('camel_case capitalises all words but the first',
         c == want_camel(name)),
        ('ucamel_case capitalises all words', u == want_ucamel(name)),
        ('camel_case is an identifier',
         re.fullmatch(r'[a-z][a-zA-Z0-9]*', c) is not None),
        ('ucamel_case is an exported identifier',
         re.fullmatch(r'[A-Z][a-zA-Z0-9]*', u) is not None),
        ('camel_case keeps letters and digits',
         _letters(c) == _letters(name)),
        ('ucamel_case keeps letters and digits',
         _letters(u) == _letters(name)),
        ('a C++ field is the name in lower case', f == name.lower()),
        ('a C++ field is an identifier',
         re.fullmatch(r'[a-z][a-z0-9_]*', f) is not None),
        ('a Python attribute is the name in lower case', a == name.lower()),
        ('a Python attribute is an identifier',
         re.fullmatch(r'[a-z][a-z0-9_]*', a) is not None),
    ]


def composite(req):
    """Names of graphs, classes and embeddable structures."""
    name = req['name']
    require(admitted_composite(req['kind'], name))
    out = [
        ('a composite name consists of letters, digits and underscores',
         re.fullmatch(r'[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?', name)
         is not None),
        ('ucamel_case capitalises all words',
         mapry.naming.ucamel_case(identifier=name) == want_ucamel(name)),
        ('camel_case capitalises all words but the first',
         mapry.naming.camel_case(identifier=name) == want_camel(name)),
    ]
    for mod, lang in ((mapry.py.naming, 'Python'), (mapry.cpp.naming, 'C++')):
        c = mod.as_composite(identifier=name)
        v = mod.as_variable(identifier=name)
        out.append(('a {} composite capitalises all words'.format(lang),
                    c == want_ucamel(name)))
        out.append(('a {} variable is the name in lower case'.format(lang),
                    v == name.lower()))
        out.append(('a {} composite is an identifier'.format(lang),
                    re.fullmatch(r'[A-Z][a-zA-Z0-9]*', c) is not None))
        out.append(('a {} variable is an identifier'.format(lang),
                    re.fullmatch(r'[a-z][a-z0-9_]*', v) is not None))
    return out


def plural(req):
    """Plurals of classes."""
    name = req['name']
    require(admitted_composite('Class', name))
    p = mapry.naming.plural(identifier=name)
    j = mapry.naming.json_plural(a_plural=p)
    return [
        ('the plural follows the rules', p == want_plural(name)),
        ('the plural is admitted as a plural of a class', re.search(
            _DEFS['Class']['properties']['plural']['pattern'], p)
         is not None),
        ('the plural differs from the name', p != name),
        ('the JSON plural is the plural in lower case', j == p.lower()),
    ]


def split(req):
    """Splitting of identifiers."""
    name = req['name']
    parts = mapry.naming.split_identifier(identifier=name)
    out = ''
    for i, w in enumerate(parts):
        out = out + ('' if i == 0 else '_') + w
    return [('the parts joined by underscores are the name', out == name),
            ('no part contains an underscore',
             all(['_' not in w for w in parts]))]


OPS = {'prop': prop, 'composite': composite, 'plural': plural,
       'split': split}
REGIONS = {}


def run(op, req):
    return run_op(OPS[op], req)

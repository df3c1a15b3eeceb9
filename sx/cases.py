"""Families of requests of the single-function checks."""
import collections
import itertools

import z3

from sx import core, strs
from sx.fn import Case


def s(hint, n, lo=0, hi=None):
    return strs.fresh_str(hint, n, lo, hi)


NAME_FUNCS = ['mapry.naming.' + f for f in (
    'split_identifier', 'plural', 'json_plural', 'camel_case',
    'ucamel_case')] + ['mapry.{}.naming.{}'.format(lang, f)
                       for lang, fs in (('py', ('as_attribute', 'as_variable',
                                                'as_composite')),
                                        ('cpp', ('as_field', 'as_variable',
                                                 'as_composite')))
                       for f in fs]


def names(deep):
    out = []

    def add(op, label, fn):
        out.append(Case('{}/{}'.format(op, label), 'ops_names', op, fn,
                        NAME_FUNCS))
    for n in range(1, 8 if deep else 6):
        add('prop', n, lambda e, n=n: {'name': s('name', n)})
        for k in ('Graph', 'Class', 'Embed'):
            add('composite', '{}/{}'.format(k, n), lambda e, n=n, k=k: {
                'kind': k, 'name': s('name', n)})
        add('plural', n, lambda e, n=n: {'name': s('name', n)})
        add('split', n, lambda e, n=n: {'name': s('name', n)})
    for w in ('criterion', 'minimum', 'maximum', 'matrix', 'life', 'focus'):
        for k in range(0, 4):
            add('plural', 'suffix-{}{}'.format(k, w),
                lambda e, w=w, k=k: {
                    'name': s('name', k + 1) + w[1:]})
            add('plural', 'prefix-{}{}'.format(k, w),
                lambda e, w=w, k=k: {'name': w.capitalize() + s('x', k + 1)})
        # the word at two places
        for k in (1, 3, 4) if deep else (1, 3):
            add('plural', 'twice-{}{}'.format(k, w),
                lambda e, w=w, k=k: {
                    'name': s('a', 1) + w[1:] + s('m', k) + s('b', 1)
                    + w[1:]})

    def again(h, k):
        part = s('part', h)
        return {'name': part + s('m', k) + part}
    # any part twice
    for h, k in ((1, 1), (2, 1), (2, 2)) + (((3, 1), ) if deep else ()):
        for op in ('plural', 'prop', 'split'):
            add(op, 'repeated-{}-{}'.format(h, k),
                lambda e, h=h, k=k: again(h, k))
        for kind in ('Graph', 'Class', 'Embed'):
            add('composite', '{}/repeated-{}-{}'.format(kind, h, k),
                lambda e, h=h, k=k, kind=kind: dict(again(h, k), kind=kind))
    return out


# ---------------------------------------------------------------------------
# schemas
# ---------------------------------------------------------------------------

OD = collections.OrderedDict

SCHEMA_FUNCS = ['mapry.parse.schema_from_mapping', 'mapry.validation.validate',
                'mapry.validation.* (all helpers)',
                'mapry.parse.* (all helpers)', 'mapry.strftime.tokenize',
                'mapry.strftime.validate_date_tokens',
                'mapry.strftime.validate_time_tokens',
                'mapry.naming.plural', 'mapry.naming.json_plural']


def integer(hint, lim=None):
    e = core.engine()
    z = z3.Int(e.name(hint))
    if lim is not None:
        e.assume(z3.And(z >= -lim, z <= lim))
    return core.SymInt(z)


def real(hint, lim=2**20):
    e = core.engine()
    z = z3.Real(e.name(hint))
    e.assume(z3.And(z >= -lim, z <= lim))
    return core.SymFloat(z)


def boolean(hint):
    return core.SymBool(z3.Bool(core.engine().name(hint)))


def pick(hint, *options):
    """Structural choice; callables are evaluated after the choice."""
    o = options[core.engine().choose(hint, len(options))]
    return o() if callable(o) else o


def text(hint, *lengths):
    return pick(hint, *[lambda n=n: s(hint, n) for n in lengths])


def anything(hint, lengths=(0, 1, 2), nested=True):
    """A JSON value of any kind."""
    opts = [None, lambda: boolean(hint), lambda: integer(hint),
            lambda: real(hint), lambda: text(hint, *lengths), lambda: [],
            lambda: OD()]
    if nested:
        opts.append(lambda: [anything(hint + 'i', lengths, False)])
        opts.append(lambda: od((s(hint + 'k', 1),
                                anything(hint + 'v', lengths, False))))
    return pick('kind_' + hint, *opts)


def od(*pairs):
    """Ordered mapping; symbolic keys differ from the others."""
    keys = [k for k, _ in pairs]
    for i, k in enumerate(keys):
        for j in keys[:i]:
            if isinstance(k, strs.SymStr) or isinstance(j, strs.SymStr):
                c = strs.eq_cond(k, j)
                if c is True:
                    raise core.PathDone()
                if c is not False:
                    core.engine().assume(z3.Not(c))
    return OD(pairs)


def prop_of(*pairs, t='string'):
    return od(('type', t), ('description', 'd'), *pairs)


def schema(*pairs):
    return od(('name', 'Gr'), ('description', 'has.'), *pairs)


def with_prop(p, name='p'):
    return schema(('classes', [od(('name', 'Cl'), ('description', 'is.'))]),
                  ('embeds', [od(('name', 'Em'), ('description', 'is.'))]),
                  ('properties', od((name, p))))


CPP = (('namespace', 'a::b'), ('path_as', 'boost::filesystem::path'),
       ('optional_as', 'boost::optional'), ('datetime_library', 'ctime'),
       ('indention', '  '))
PYS = (('module_name', 'a.b'), ('path_as', 'str'), ('timezone_as', 'str'),
       ('indention', ' '))
GOS = (('package', 'pk'), )
TYPES = ['boolean', 'integer', 'float', 'string', 'path', 'date', 'time',
         'datetime', 'time_zone', 'duration', 'array', 'map', 'Cl', 'Em']
KEYS = ['minimum', 'maximum', 'exclusive_minimum', 'exclusive_maximum',
        'pattern', 'format', 'values', 'minimum_size', 'maximum_size']


OWN = {'integer': KEYS[:4], 'float': KEYS[:4], 'string': ['pattern'],
       'path': ['pattern'], 'date': ['format'], 'time': ['format'],
       'datetime': ['format'], 'map': ['values'], 'array': KEYS[-3:]}


def pattern_value(hint):
    """Patterns: valid ones, invalid ones and values of other kinds."""
    return pick('pat_' + hint, '^a+$', '', '(', '[a', 'a**', '\\', '(?P<n>a)',
                None, 1, lambda: boolean(hint), lambda: [])


def value_for(key, hint, deep=False):
    if key == 'pattern' or key == 'id_pattern':
        return pattern_value(hint)
    if key == 'values':
        return pick('val_' + hint, lambda: anything(hint, (0, 1), False),
                    lambda: od(('type', 'boolean')),
                    lambda: od(('type', text(hint, 2, 3))),
                    lambda: od(('description', 'x')))
    if key == 'format':
        return pick('fmt_' + hint, lambda: anything(hint, (0, 1, 2), False))
    return anything(hint, (0, 1), False)


def base_type(t):
    return [('values', od(('type', 'boolean')))] if t in ('array', 'map') \
        else []


def schemas_s02(deep):
    out = []

    def add(label, fn):
        out.append(Case('refused/' + label, 'ops_schema', 'refused',
                        lambda e: {'mapping': fn()}, SCHEMA_FUNCS))

    # the top level
    add('top/anything', lambda: anything('m'))
    for k in ('name', 'description'):
        add('top/no-' + k, lambda k=k: od(*[
            (x, y) for x, y in (('name', 'Gr'), ('description', 'has.'))
            if x != k]))
        add('top/' + k, lambda k=k: od(*[
            (x, anything('v', (0, 1, 2, 3)) if x == k else y)
            for x, y in (('name', 'Gr'), ('description', 'has.'))]))
    for k in ('cpp', 'go', 'py', 'classes', 'embeds', 'properties'):
        add('top/' + k, lambda k=k: schema((k, anything('v'))))
    add('top/extra', lambda: schema((text('k', 1, 2, 3, 4),
                                     anything('v', (1, ), False))))

    def order():
        pairs = [('name', 'Gr'), ('description', 'has.'),
                 ('properties', OD())]
        i = core.engine().choose('order', 6)
        perm = list(itertools.permutations(pairs))[i]
        m = od(*perm)
        return m if core.engine().flip('ordered') else dict(m)
    add('top/order', order)

    # settings of the targets
    for lang, pairs in (('cpp', CPP), ('py', PYS), ('go', GOS)):
        for k, v in pairs:
            def setting(lang=lang, pairs=pairs, k=k, v=v):
                how = core.engine().choose('how', 3)
                new = []
                for x, y in pairs:
                    if x == k:
                        if how == 0:
                            continue
                        y = (anything('v', (), False) if False else
                             pick('kind_v', None, lambda: boolean('v'),
                                  lambda: integer('v'), lambda: [],
                                  lambda: OD(),
                                  lambda: text('v', 0, 1, 2, 3))) \
                            if how == 1 else altered(y)
                    new.append((x, y))
                return schema((lang, od(*new)))
            add('{}/{}'.format(lang, k), setting)
        add(lang + '/extra', lambda lang=lang, pairs=pairs: schema(
            (lang, od(*(pairs + ((text('k', 1, 2), 'a'), ))))))
    add('cpp/namespace-text', lambda: schema(('cpp', od(
        ('namespace', s('v', 4)), *CPP[1:]))))
    add('py/module-text', lambda: schema(('py', od(
        ('module_name', s('v', 4)), *PYS[1:]))))

    # composites
    for kind in ('classes', 'embeds'):
        for k in ('name', 'description', 'properties', 'plural',
                  'id_pattern', 'extra'):
            def comp(kind=kind, k=k):
                new = [('name', 'Cl'), ('description', 'is.')]
                key = text('k', 1, 2, 4) if k == 'extra' else k
                if k in ('name', 'description') and \
                        core.engine().flip('missing'):
                    return schema((kind, [od(*[
                        (x, y) for x, y in new if x != k])]))
                v = (pattern_value('v') if k == 'id_pattern' else
                     anything('v', (0, 1, 2, 3)))
                if k in ('name', 'description'):
                    new = [(x, v if x == k else y) for x, y in new]
                else:
                    new.append((key, v))
                return schema((kind, [od(*new)]))
            add('{}/{}'.format(kind, k), comp)
        add(kind + '/item', lambda kind=kind: schema((kind, [
            od(('name', 'Cl'), ('description', 'is.')),
            anything('v', (0, 1))])))

    def unique(a, b):
        first = od(('name', s('a', 2)), ('description', 'is.'))
        second = od(('name', s('b', 2)), ('description', 'is.'))
        m = od(('name', s('g', 2)), ('description', 'is.'))
        if a == b:
            m[a] = [first, second]
        else:
            m[a] = [first]
            m[b] = [second]
        return m
    for a, b in (('classes', 'classes'), ('embeds', 'embeds'),
                 ('classes', 'embeds')):
        add('unique/{}-{}'.format(a, b), lambda a=a, b=b: unique(a, b))

    # properties
    where = {
        'graph': lambda ps: schema(('properties', ps)),
        'class': lambda ps: schema(('classes', [od(
            ('name', 'Cl'), ('description', 'is.'), ('properties', ps))])),
        'embed': lambda ps: schema(('embeds', [od(
            ('name', 'Cl'), ('description', 'is.'), ('properties', ps))])),
    }
    for w in where:
        add('property/{}/anything'.format(w), lambda w=w: where[w](od(
            ('p', anything('v')))))
        for n in (0, 1, 2, 3):
            add('property/{}/name-{}'.format(w, n), lambda w=w, n=n: where[w](
                od((s('n', n), prop_of()))))
        add('property/{}/two'.format(w), lambda w=w: where[w](
            od((s('n', 1), prop_of(*pick('j', (), (('json', s('j', 1)), )))),
               (s('q', 1), prop_of(*pick('l', (), lambda: (
                   ('json', s('l', 1)), )))))))
        for k in ('type', 'description', 'json', 'optional'):
            def prop(w=w, k=k):
                new = [('type', 'string'), ('description', 'd')]
                v = anything('v', (0, 1, 4), False)
                if k in ('type', 'description'):
                    if core.engine().flip('missing'):
                        new = [x for x in new if x[0] != k]
                    else:
                        new = [(x, v if x == k else y) for x, y in new]
                else:
                    new.append((k, v))
                return where[w](od(('p', od(*new))))
            add('property/{}/{}'.format(w, k), prop)
        add('property/{}/type-text'.format(w), lambda w=w: where[w](od(
            ('p', prop_of(t=text('t', 1, 2, 3, 4))))))

        def porder(w=w):
            pairs = [('type', 'string'), ('description', 'd'),
                     ('optional', True)]
            i = core.engine().choose('order', 6)
            p = od(*list(itertools.permutations(pairs))[i])
            return where[w](od(('p', p if core.engine().flip('o')
                                else dict(p))))
        add('property/{}/order'.format(w), porder)
    for own in ('id', 'ID', 'Id'):
        add('property/class/' + own, lambda own=own: where['class'](od(
            (own, prop_of()))))

    def wrap(inner, nested):
        """Type definition at the top or nested."""
        t = inner[0]
        rest = inner[1]
        if nested == 0:
            return od(('type', t), ('description', 'd'), *rest)
        v = od(('type', t), *rest)
        for i in range(nested - 1):
            v = od(('type', 'map'), ('values', v))
        return od(('type', 'array'), ('description', 'd'), ('values', v))

    for t in TYPES:
        for nested in ((0, 1, 2) if deep else (0, 1)):
            def constraint(t=t, nested=nested):
                k = pick('key', *(KEYS + ['json', 'optional', 'description',
                                          lambda: text('k', 1, 3 if deep else 2)]))
                if nested == 0 and isinstance(k, str) and \
                        k == 'description':
                    raise core.PathDone()
                rest = base_type(t)
                if isinstance(k, str) and k == 'values':
                    rest = []
                own = isinstance(k, str) and (
                    k in OWN.get(t, ())
                    or k in ('description', 'json', 'optional'))
                v = (value_for(k if isinstance(k, str) else '', 'v')
                     if own or deep else
                     pick('few', lambda: integer('v'), lambda: s('v', 1),
                          lambda: boolean('v')))
                return with_prop(wrap((t, rest + [(k, v)]), nested))
            add('type/{}/{}'.format(t, nested), constraint)
    for t in ('integer', 'float'):
        for nested in (0, 1):
            def bounds(t=t, nested=nested):
                lo, hi = pick(
                    'kinds',
                    lambda: (integer('lo'), integer('hi')),
                    lambda: (real('lo'), real('hi')),
                    lambda: (real('lo'), integer('hi', 2**30)),
                    lambda: (integer('lo', 2**30), real('hi')))
                pairs = [('minimum', lo), ('maximum', hi)]
                for k in ('exclusive_minimum', 'exclusive_maximum'):
                    if core.engine().flip('has_' + k):
                        pairs.append((k, boolean(k)))
                return with_prop(wrap((t, pairs), nested))
            add('bounds/{}/{}'.format(t, nested), bounds)
    add('bounds/huge', lambda: with_prop(prop_of(
        (pick('which', 'minimum', 'maximum'), integer('lo')), t='float')))
    add('sizes', lambda: with_prop(wrap(('array', [
        ('values', od(('type', 'boolean'))),
        ('minimum_size', integer('lo')), ('maximum_size', integer('hi'))]),
        0)))
    for t in ('date', 'time', 'datetime'):
        for n in ((0, 1, 2, 3, 4) if deep else (0, 1, 2, 3)):
            if t == 'datetime' and n == 0:
                continue
            add('format/{}/{}'.format(t, n), lambda t=t, n=n: with_prop(
                prop_of(('format', s('f', n)), t=t)))
    for n in ((1, 2, 3, 4) if deep else (1, 2, 3)):
        add('registry/{}'.format(n), lambda n=n: schema(
            ('classes', [od(('name', s('c', n)), ('description', 'is.'))]),
            ('properties', od((s('p', n + 1), prop_of())))))
    add('registry/json', lambda: schema(
        ('classes', [od(('name', s('c', 2)), ('description', 'is.'))]),
        ('properties', od(('p', prop_of(('json', s('j', 3))))))))
    add('registry/plural', lambda: schema(
        ('classes', [od(('name', 'Cl'), ('description', 'is.'),
                        ('plural', s('c', 2)))]),
        ('properties', od((s('p', 2), prop_of())))))
    add('graph-as-type', lambda: od(
        ('name', s('g', 2)), ('description', 'is.'),
        ('properties', od(('p', prop_of(t=s('t', 2)))))))
    return out


def altered(y):
    """The text with one symbolic character in place of one of its own."""
    i = core.engine().choose('at', len(y))
    return y[:i] + s('alt', 1) + y[i + 1:]


# ---------------------------------------------------------------------------
# what parsing keeps
# ---------------------------------------------------------------------------


def letters(hint, n):
    """Text of letters (a valid regular expression for sure)."""
    x = s(hint, n)
    e = core.engine()
    for c in x.items:
        e.assume(strs.in_ranges(c, [(97, 122), (65, 90)]))
    return x


def maybe(*pairs):
    """Some of the pairs; values may be callables."""
    out = []
    for k, v in pairs:
        if core.engine().flip('has_' + k):
            out.append((k, v() if callable(v) else v))
    return out


def number(hint, t):
    if t == 'integer':
        return integer(hint)
    return pick('k' + hint, lambda: real(hint), lambda: integer(hint, 2**53))


def valid_constraints(t):
    if t in ('integer', 'float'):
        return maybe(('minimum', lambda: number('lo', t)),
                     ('exclusive_minimum', lambda: boolean('xlo')),
                     ('maximum', lambda: number('hi', t)),
                     ('exclusive_maximum', lambda: boolean('xhi')))
    if t in ('string', 'path'):
        return maybe(('pattern', lambda: letters('pat', 2)))
    if t in ('date', 'time', 'datetime'):
        return maybe(('format', lambda: s('f', 2)))
    if t == 'array':
        return maybe(('minimum_size', lambda: integer('smin')),
                     ('maximum_size', lambda: integer('smax')))
    return []


def nest(t, how, rest):
    """Definition of a property with type ``t`` at a nested place."""
    own = [('type', t)] + rest
    if how == 0:
        return od(('type', t), ('description', 'd'), *rest)
    v = od(*own)
    for k in ('array', 'map', 'array-map', 'map-array')[how - 1].split('-')[
            1:]:
        v = od(('type', k), ('values', v))
    top = ('array', 'map', 'array-map', 'map-array')[how - 1].split('-')[0]
    return od(('type', top), ('description', 'd'), ('values', v))


def schemas_s01(deep):
    out = []

    def add(label, fn):
        out.append(Case('keeps/' + label, 'ops_schema', 'keeps',
                        lambda e: {'mapping': fn()}, SCHEMA_FUNCS))
    where = {
        'graph': lambda ps: schema(('properties', ps)),
        'class': lambda ps: schema(
            ('classes', [od(('name', 'Cl'), ('description', 'is.'),
                            ('properties', ps))]),
            ('embeds', [od(('name', 'Em'), ('description', 'is.'))])),
        'embed': lambda ps: schema(
            ('classes', [od(('name', 'Cl'), ('description', 'is.'))]),
            ('embeds', [od(('name', 'Em'), ('description', 'is.'),
                           ('properties', ps))])),
    }
    for t in SCALARS_ + ['array', 'map']:
        for w in where:
            for how in ((0, 1, 2, 3, 4) if deep or w == 'graph'
                        else (0, 1)):
                def one(t=t, w=w, how=how):
                    rest = valid_constraints(t)
                    if t in ('array', 'map'):
                        rest.append(('values', od(('type', 'integer'), *maybe(
                            ('minimum', lambda: integer('vlo'))))))
                    return where[w](od(('p', nest(t, how, rest))))
                add('type/{}/{}/{}'.format(t, w, how), one)
    for w in where:
        def prop(w=w):
            return where[w](od((s('n', 2), od(
                ('type', 'boolean'), ('description', s('d', 1)), *maybe(
                    ('json', lambda: s('j', 1)),
                    ('optional', lambda: boolean('o')))))))
        add('property/' + w, prop)

        def two(w=w):
            a, b = s('n', 1), s('m', 1)
            p = od((a, prop_of(('optional', boolean('o')))),
                   (b, prop_of(('json', s('j', 2)), t='boolean')),
                   ('c9', prop_of(t='integer')))
            return where[w](p)
        add('property/two/' + w, two)

    def composite(kind, n):
        def f():
            m = schema()
            m[kind] = [od(('name', s('c', n)),
                          ('description', s('d', 1) + 's.'))]
            if kind == 'classes':
                m[kind][0].update(maybe(
                    ('plural', lambda: s('pl', 2)),
                    ('id_pattern', lambda: letters('idp', 2))))
            return m
        return f
    for n in (1, 2, 3):
        add('classes/{}'.format(n), composite('classes', n))
        add('embeds/{}'.format(n), composite('embeds', n))
        add('graph/{}'.format(n), lambda n=n: od(
            ('name', s('g', n)), ('description', s('d', n) + '.')))

    def cross(nc, ne):
        def f():
            names = [('classes', s('c{}'.format(i), 1)) for i in range(nc)]
            names += [('embeds', s('e{}'.format(i), 1)) for i in range(ne)]
            m = schema()
            order = (['classes', 'embeds'] if core.engine().flip('first')
                     else ['embeds', 'classes'])
            props_first = core.engine().flip('props_first')

            def top():
                m['properties'] = od(('p', nest(s('t', 1), pick(
                    'how', 0, 1, 2), [])))
            if props_first:
                top()
            users = core.engine().choose('user', nc + ne)
            for kind in order:
                cs = []
                for i, (k, nm) in enumerate(names):
                    if k != kind:
                        continue
                    c = od(('name', nm), ('description', 'is.'))
                    if i == users:
                        c['properties'] = od(('q', nest(s('u', 1), pick(
                            'how2', 0, 1), [])))
                    cs.append(c)
                if cs:
                    m[kind] = cs
            if not props_first:
                top()
            return m
        return f
    for nc, ne in ((2, 0), (1, 1), (0, 2), (2, 1), (1, 2)):
        if deep or nc + ne < 3:
            add('cross/{}-{}'.format(nc, ne), cross(nc, ne))

    def ids(deep=deep):
        # constraints of one composite do not leak to the next one
        m = schema()
        m['classes'] = [
            od(('name', 'Ab'), ('description', 'is.'), *maybe(
                ('plural', lambda: s('pl', 1)),
                ('id_pattern', lambda: letters('ida', 1)))),
            od(('name', 'Cd'), ('description', 'is.'))]
        if core.engine().flip('second'):
            m['classes'][1]['id_pattern'] = letters('idb', 1)
        return m
    add('classes/two', ids)

    for lang, pairs, opts in (
            ('cpp', CPP, {'path_as': ['std::filesystem::path',
                                      'boost::filesystem::path'],
                          'optional_as': ['boost::optional', 'std::optional',
                                          'std::experimental::optional'],
                          'datetime_library': ['ctime', 'date.h']}),
            ('py', PYS, {'path_as': ['str', 'pathlib.Path'],
                         'timezone_as': ['str', 'pytz.timezone']}),
            ('go', GOS, {})):
        def setting(lang=lang, pairs=pairs, opts=opts):
            new = []
            for k, v in pairs:
                if k in opts:
                    v = pick('o' + k, *opts[k])
                elif k == 'indention':
                    if core.engine().flip('no_indention'):
                        continue
                    v = text('ind', 0, 1, 2, 3)
                else:
                    v = text('t' + k, 1, 2)
                new.append((k, v))
            m = schema()
            for x, y in (('cpp', CPP), ('go', GOS), ('py', PYS)):
                if x == lang:
                    m[x] = od(*new)
                elif core.engine().flip('with_' + x):
                    m[x] = od(*y)
            return m
        add('settings/' + lang, setting)
    return out


SCALARS_ = ['boolean', 'integer', 'float', 'string', 'path', 'date', 'time',
            'datetime', 'time_zone', 'duration']


# ---------------------------------------------------------------------------
# queries on definitions
# ---------------------------------------------------------------------------


def schemas_s03(deep):
    out = []
    funcs = ['mapry.needs_type', 'mapry.references',
             'mapry.iterate_over_types', 'mapry.parse.schema_from_mapping']

    def add(label, fn):
        out.append(Case('queries/' + label, 'ops_schema', 'queries',
                        lambda e: {'mapping': fn()}, funcs))

    def graph(nc, ne, props, gprops, n_types):
        """Composites A, B, .. with properties of symbolic types."""
        def f():
            names = 'ABCDE'[:nc + ne]
            m = schema()
            for kind, ns in (('classes', names[:nc]), ('embeds', names[nc:])):
                cs = []
                for nm in ns:
                    k = props[names.index(nm)]
                    c = od(('name', nm), ('description', 'is.'))
                    ps = od(*[('p{}'.format(i), nest(
                        s('t' + nm, 1), pick('how', *range(n_types)), []))
                        for i in range(k)])
                    if ps:
                        c['properties'] = ps
                    cs.append(c)
                if cs:
                    m[kind] = cs
            if gprops:
                m['properties'] = od(*[('g{}'.format(i), nest(
                    s('tg', 1), 0, [])) for i in range(gprops)])
            return m
        return f
    for nc, ne, props, gp in ((2, 0, (1, 1), 1), (1, 1, (1, 1), 0),
                              (0, 2, (1, 1), 0), (2, 1, (1, 1, 1), 0),
                              (1, 2, (1, 1, 1), 0), (3, 0, (1, 1, 1), 0),
                              (2, 1, (2, 1, 0), 0), (1, 2, (2, 1, 1), 0),
                              (2, 2, (1, 1, 1, 1), 0)):
        add('cross/{}-{}-{}'.format(nc, ne, ''.join(map(str, props))), graph(
            nc, ne, props, gp, 1 if sum(props) > 3 else
            2 if sum(props) > 2 else 3))
    # where a type occurs
    for t in SCALARS_:
        def one(t=t):
            w = pick('where', 'graph', 'class', 'embed', 'deep')
            how = pick('how', 0, 1, 2, 3, 4)
            p = od(('p', nest(t, how, [])))
            if w == 'graph':
                return schema(('properties', p))
            if w == 'deep':
                return schema(
                    ('classes', [od(('name', 'A'), ('description', 'is.'), (
                        'properties', od(('q', nest('C', pick(
                            'h', 0, 1), []))))), od(
                                ('name', 'B'), ('description', 'is.'))]),
                    ('embeds', [od(('name', 'C'), ('description', 'is.'),
                                   ('properties', p))]))
            m = schema()
            m['classes' if w == 'class' else 'embeds'] = [
                od(('name', 'A'), ('description', 'is.'),
                   ('properties', p))]
            return m
        add('scalar/' + t, one)
    return out


# ---------------------------------------------------------------------------
# names of the targets
# ---------------------------------------------------------------------------

WORDS = {
    'py': ['False', 'None', 'True', 'async', 'await', 'class', 'def', 'for',
           'if', 'in', 'is', 'import', 'self', 'yield', 'collections',
           'global', 'nonlocal', 'lambda', 'assert', 'as'],
    'cpp': ['class', 'and_eq', 'int', 'for', 'const_cast', 'char16_t', 'do',
            'if', 'new', 'not', 'or', 'operator', 'template', 'while',
            'thread_local', 'static_assert', 'xor_eq', 'default', 'register'],
    'go': ['type', 'func', 'Errors', 'NewErrors', 'Error'],
}


AZ, az, D09, U_ = (65, 90), (97, 122), (48, 57), (95, 95)


def cased(hint, word, first=None):
    """The word in any case, one letter after the other."""
    return strs.fresh_in(hint, [
        ([(ord(w.upper()), ) * 2] if i == 0 and first else
         sorted({(ord(w.lower()), ) * 2, (ord(w.upper()), ) * 2}))
        for i, w in enumerate(word)])


def ident(hint, n, first=(AZ, az)):
    """Admitted name: letters, digits and underscores."""
    return strs.fresh_in(hint, [
        sorted(first) if i == 0 else
        sorted([AZ, az, D09] + ([U_] if i < n - 1 else []))
        for i in range(n)])


def targets_s04(deep):
    out = []
    n1, n2 = (3, 3) if deep else (2, 2)

    def add(lang, label, fn, what=()):
        out.append(Case('{}/{}'.format(lang, label), 'ops_targets',
                        'collisions',
                        lambda e: {'mapping': fn(), 'lang': lang},
                        ['mapry.{}.validation.validate_schema'.format(lang),
                         'mapry.naming.*', 'mapry.{}.naming.*'.format(lang),
                         'mapry.parse.schema_from_mapping']))

    def comp(name, *pairs):
        return od(('name', name), ('description', 'is.'), *pairs)

    def props(*names):
        return ('properties', od(*[(n, prop_of(t='boolean'))
                                   for n in names]))

    def sized(hint, n):
        return pick(hint, *[lambda k=k: ident(hint, k)
                            for k in range(1, n + 1)])

    def composite(hint, n):
        return pick(hint, *[lambda k=k: ident(hint, k, [AZ])
                            for k in range(1, n + 1)])
    for lang in ('py', 'go', 'cpp'):
        for kind in ('classes', 'embeds'):
            add(lang, 'graph-' + kind, lambda kind=kind: od(
                ('name', composite('g', n1 + 1)), ('description', 'is.'),
                (kind, [comp(composite('c', n2 + 1))])))
            add(lang, 'two-' + kind, lambda kind=kind: schema(
                (kind, [comp(composite('a', n1 + 1)), comp(composite('b', n2))])))
            add(lang, 'properties-' + kind, lambda kind=kind: schema(
                (kind, [comp('Cl', props(sized('p', n1), sized('q', n2)))])))
            add(lang, 'id-' + kind, lambda kind=kind: schema(
                (kind, [comp('Cl', props(sized('p', 3)))])))
        add(lang, 'class-embed', lambda: schema(
            ('classes', [comp(composite('a', n1 + 1))]),
            ('embeds', [comp(composite('b', n2))])))
        add(lang, 'properties-graph', lambda: schema(
            props(sized('p', n1), sized('q', n2))))
        add(lang, 'registries', lambda: schema(
            ('classes', [comp('Cl', ('plural', composite('p', n1 + 1))),
                         comp('Em', ('plural', composite('q', n2)))])))
        add(lang, 'default-plurals', lambda: schema(
            ('classes', [comp(composite('p', n1)),
                         comp('Em', ('plural', composite('q', n2 + 1)))])))
        add(lang, 'registry-property', lambda: schema(
            ('classes', [comp('Cl', ('plural', composite('p', n1 + 1)))]),
            props(sized('q', n2))))
        for w in WORDS[lang]:
            wl = w.lower()
            add(lang, 'word-property/' + w, lambda wl=wl: pick(
                'where',
                lambda: schema(props(cased('p', wl))),
                lambda: schema(('classes', [comp('Cl', props(
                    cased('p', wl)))])),
                lambda: schema(('embeds', [comp('Cl', props(
                    cased('p', wl)))])),
                lambda: schema(('classes', [comp('Cl')]),
                               props(cased('p', wl)))))
            add(lang, 'word-composite/' + w, lambda wl=wl: pick(
                'where',
                lambda: od(('name', cased('c', wl, True)),
                           ('description', 'is.')),
                lambda: schema(('classes', [comp(cased('c', wl, True))])),
                lambda: schema(('embeds', [comp(cased('c', wl, True))])),
                lambda: schema(('classes', [comp(
                    'Cl', ('plural', cased('c', wl, True)))]))))
    for suffix in ('FromJSONable', 'ToJSONable', '_fromJSONable',
                   'To_JSONable'):
        def reserved(suffix=suffix):
            a = composite('a', 2)
            b = ident('b', 2 if deep else 1, [AZ])
            kind = pick('kind', 'cc', 'ce', 'ec', 'ee', 'gc', 'cg', 'ge')
            c1, c2 = comp(a), comp(b + suffix)
            if kind[0] == 'g':
                m = od(*c1.items())
                m['classes' if kind[1] == 'c' else 'embeds'] = [c2]
                return m
            if kind[1] == 'g':
                m = od(*c2.items())
                m['classes'] = [c1]
                return m
            m = schema()
            for k, c in ((kind[0], c1), (kind[1], c2)):
                m.setdefault('classes' if k == 'c' else 'embeds',
                             []).append(c)
            return m
        add('go', 'reserved/' + suffix, reserved)
    return out


# ---------------------------------------------------------------------------
# formats of dates and times
# ---------------------------------------------------------------------------

FORMAT_OF = {'date': 'aAbBdemyYzZ%', 'time': 'HIlMPpSzZ%',
             'datetime': 'aAbBdemyYzZ%HIlMPpS'}
# what Go recognises in a layout
GO_CHUNKS = ['January', 'Jan', 'Monday', 'Mon', 'MST', '01', '06', '002',
             '15', '2006', '_2006', '_2', '__2', 'PM', 'pm', '-070000',
             '-07:00:00', '-0700', '-07:00', '-07', 'Z070000', 'Z07:00:00',
             'Z0700', 'Z07:00', 'Z07', '.00', ',00', '.99', ',9', '.01',
             'Sunday', 'Mond', 'Jane']


def formats(deep):
    out = []

    def add(op, kind, label, fn, what):
        out.append(Case('{}/{}/{}'.format(op, kind, label), 'ops_formats',
                        op, lambda e: {'kind': kind, 'format': fn()},
                        ['mapry.parse.schema_from_mapping',
                         'mapry.strftime.*'] + what))

    def sd(hint):
        return '%' + s(hint, 1, 0x21, 0x7e)

    def few(hint):
        return '%' + strs.fresh_in(hint, [sorted(
            [(ord(c), ord(c)) for c in 'eYHPZ%'])])

    def lit(hint, n):
        """Text without directives."""
        return strs.fresh_in(hint, [[(0, 0x24), (0x26, 0xd7ff),
                                     (0xe000, 0x10ffff)]] * n)
    for kind, ds in FORMAT_OF.items():
        def d(hint, ds=ds):
            return '%' + pick(hint, *ds)
        v = ['mapry.validation.*']
        add('admitted', kind, 'free', lambda: text(
            'f', *range(0, 6 if deep else 5)), v)
        add('admitted', kind, 'directives', lambda: (
            s('t', 1) + sd('d') + sd('e')) if not deep else (
                s('t', 1) + sd('d') + text('u', 0, 1) + sd('e')
                + s('v', 1)), v)
        if deep:
            add('admitted', kind, 'three', lambda: (
                sd('d') + text('u', 0, 1) + sd('e') + text('v', 0, 1)
                + sd('f')), v)
        g = ['mapry.go.validation.validate_schema',
             'mapry.go.timeformat.*']
        p = ['mapry.py.validation.validate_schema']
        if deep or kind == 'datetime':
            add('go', kind, 'text', lambda: lit('t', 3), g)
            add('go', kind, 'after', lambda d=d: d('d') + lit('u', 2), g)
            add('go', kind, 'before', lambda d=d: lit('t', 2) + d('d'), g)
        add('go', kind, 'around', lambda d=d: (
            lit('t', 1) + d('d') + lit('u', 1)), g)
        if deep:
            add('go', kind, 'between', lambda d=d: (
                d('d') + pick('n', '', lambda: lit('u', 1)) + d('e')), g)
            add('go', kind, 'text-4', lambda: lit('t', 4), g)
            add('go', kind, 'around-2', lambda d=d: (
                lit('t', 2) + d('d') + lit('u', 2)), g)
            add('go', kind, 'two', lambda d=d: (
                lit('t', 1) + d('d') + d('e') + lit('u', 1)), g)
        else:
            add('go', kind, 'pair', lambda d=d: d('d') + d('e'), g)
            add('go', kind, 'between', lambda d=d: (
                d('d') + lit('u', 1) + '%' + pick(
                    'e', *[c for c in 'beYlPZ' if c in FORMAT_OF[kind]])), g)
        for c in GO_CHUNKS:
            if kind != 'datetime' and not deep:
                break
            add('go', kind, 'word/' + c, lambda c=c, d=d: pick(
                'how',
                lambda: c + lit('u', 1),
                lambda: lit('t', 1) + c,
                lambda: altered(c) + (d('d') if deep else ''),
                lambda: (d('d') if deep else '%' + pick(
                    'd', *'beYlPz')) + c + lit('u', 1)), g)
        add('py', kind, 'two', lambda: (
            (text('t', 0, 1) if deep else '') + sd('d') + text('u', 0, 1)
            + sd('e') + (text('v', 0, 1) if deep else '')), p)
        add('py', kind, 'three', lambda: (
            few('d') + few('e') + pick('n', '', '%%', ' ') + few('f')), p)
    return out


# ---------------------------------------------------------------------------
# texts in the generated code
# ---------------------------------------------------------------------------

BMP = [(0, 0xd7ff), (0xe000, 0xffff)]


def chars(hint, n, without='', ranges=None):
    """Text without some of the characters."""
    cut = sorted(set(without))
    out = []
    for lo, hi in ranges or BMP:
        for c in cut:
            k = ord(c)
            if lo <= k <= hi:
                if lo < k:
                    out.append((lo, k - 1))
                lo = k + 1
        if lo <= hi:
            out.append((lo, hi))
    return strs.fresh_in(hint, [out] * n)


META = '.^$*+?{}[]\\|()'


def text_places():
    """Templates of schemas with a mark, and what may stand there."""
    def gr(*pairs):
        return OD((('name', 'Gr'), ('description', 'is.')) + pairs)

    def one(t, *pairs):
        return OD((('type', t), ('description', 'is.')) + pairs)

    def props(**kw):
        return ('properties', OD(kw))
    out = []
    for kind in ('graph', 'class', 'embed'):
        for label, p in (
                ('boolean', one('boolean', ('json', '@'))),
                ('optional', one('integer', ('json', '@'),
                                 ('optional', True))),
                ('array', one('array', ('json', '@'), ('minimum_size', 1),
                              ('values', OD((('type', 'float'),
                                             ('minimum', 0.5)))))),
                ('map', one('map', ('json', '@'), ('values', OD(
                    (('type', 'string'), )))))):
            if kind == 'graph':
                m = gr(props(p=p))
            elif kind == 'class':
                m = gr(('classes', [OD((
                    ('name', 'Cl'), ('description', 'is.'), props(p=p)))]))
            else:
                m = gr(('embeds', [OD((
                    ('name', 'Em'), ('description', 'is.'),
                    props(p=p)))]), props(q=one('Em')))
            out.append(('json/{}/{}'.format(kind, label), 'json', m))
    for t in ('string', 'path'):
        pat = OD((('type', t), ('pattern', '@')))
        out.append(('pattern/' + t, 'pattern', gr(props(
            p=one(t, ('pattern', '@'))))))
        out.append(('pattern/array/' + t, 'pattern', gr(props(
            p=one('array', ('values', pat))))))
        out.append(('pattern/map/' + t, 'pattern', gr(props(
            p=one('map', ('values', pat))))))
        out.append(('pattern/embed/' + t, 'pattern', gr(('embeds', [OD((
            ('name', 'Em'), ('description', 'is.'), props(
                p=one(t, ('pattern', '@'), ('optional', True)))))]),
            props(q=one('Em')))))
    out.append(('pattern/id', 'pattern', gr(('classes', [OD((
        ('name', 'Cl'), ('description', 'is.'), ('id_pattern', '@')))]))))
    for t in ('date', 'time', 'datetime'):
        out.append(('format/' + t, 'format', gr(props(
            p=one(t, ('format', '@'))))))
        out.append(('format/array/' + t, 'format', gr(props(
            p=one('array', ('values', OD((('type', t),
                                          ('format', '@')))))))))
        out.append(('format/class/' + t, 'format', gr(('classes', [OD((
            ('name', 'Cl'), ('description', 'is.'), props(
                p=one(t, ('format', '@'), ('optional', True)))))]))))
    return out


def text_shapes(what, deep):
    """Texts which may stand at a place; (label, function)."""
    def c(hint='c'):
        return chars(hint, 1, META if what == 'pattern' else
                     '%' if what == 'format' else '')
    def ascii(hint):
        return chars(hint, 1, META if what == 'pattern' else
                     '%' if what == 'format' else '', [(0, 0x7f)])
    out = [('one', lambda: c()),
           ('two', lambda: c() + c('d') if deep else
            ascii('c') + ascii('d'))]
    tails = ['"', "'", '`', '\'"', '"""', ')v0g0n"', '#', '//', '/*', '${a}']
    if what == 'json':
        tails += ['??', '??/', '\\', '\\\\', '%', '%s', '%%', '{', '}', '{}', '{{', '{{ a }}',
                  '\\u', '\\x4', '\\N{', '\\"', "\\'"]
    elif what == 'format':
        tails += ['??/', '\\', '\\\\', '%%', '{', '}', '{}', '{{', '{{ a }}', '\\u',
                  '\\x4', '\\"', '%%s', '%%%%']
    else:
        tails = [x.replace('$', '\\$').replace('{', '\\{').replace(
            '}', '\\}').replace(')', '\\)') for x in tails]
        tails += ['a??', '%', '%s', '%%', 'a{2}', 'a{2,}', '\\\\', '\\"', "\\'",
                  '\\\\"', '[a"]', '(a)v0g0n"', '$', 'a\\.', '(?P<a>"%d")',
                  '{a}', '{}']
        out.append(('set', lambda: '[' + chars('s', 1, '^]\\[&~|-') + ']'))
        out.append(('escaped', lambda: '\\' + chars(
            's', 1, ''.join(map(chr, range(48, 58)))
            + 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ',
            [(0, 127)])))
    for t in tails:
        out.append(('behind ' + t, lambda t=t: t + c()))
        out.append(('before ' + t, lambda t=t: c() + t))
    if deep:
        out.append(('three', lambda: ascii('c') + ascii('d') + ascii('e')))
    return out


def texts_l01(deep):
    out = []
    for lang in ('py', 'go', 'cpp'):
        fs = ['mapry.main.generate_' + lang,
              'mapry.{}.generate.*'.format(lang), 'mapry.indention.reindent']
        for label, what, m in text_places():
            rest = label.split('/', 1)[1] not in (
                'graph/boolean', 'string', 'datetime', 'id')
            for shape, fn in text_shapes(what, deep):
                if rest and not deep and shape not in ('one', ):
                    continue
                out.append(Case(
                    '{}/{}/{}'.format(lang, label, shape), 'ops_texts',
                    'embedded', lambda e, lang=lang, m=m, fn=fn, what=what: {
                        'lang': lang, 'template': m, 'text': fn(),
                        'mark': 'QxQ', 'format': what == 'format'}, fs))
    return out


def description_places():
    """Templates of schemas with a mark in a description."""
    def one(d='is.', t='string', *pairs):
        return OD((('type', t), ('description', d)) + pairs)

    def gr(d, *pairs):
        return OD((('name', 'Gr'), ('description', d)) + pairs)

    def comp(name, d, *ps):
        m = OD((('name', name), ('description', d)))
        if ps:
            m['properties'] = OD(ps)
        return m
    out = [('graph', gr('@')), ('graph/behind', gr('Is @')),
           ('graph/before', gr('@ it is')),
           ('graph/properties', gr('@', ('properties', OD((('p', one()), ))))),
           ('graph/property', gr('is.', ('properties', OD((
               ('p', one('@')), ('q', one()))))))]
    for kind, name in (('classes', 'Cl'), ('embeds', 'Em')):
        rest = () if kind == 'classes' else (
            ('properties', OD((('e', one('is.', 'Em')), ))), )
        out.append((kind + '/bare', gr('is.', (kind, [comp(name, '@')]),
                                       *rest)))
        out.append((kind + '/described', gr('is.', (kind, [comp(
            name, '@', ('p', one('is.', 'integer')))]), *rest)))
        out.append((kind + '/property', gr('is.', (kind, [comp(
            name, 'is.', ('p', one('@')), ('q', one()))]), *rest)))
        out.append((kind + '/optional', gr('is.', (kind, [comp(
            name, 'is.', ('p', one('is it @?', 'boolean',
                                   ('optional', True))))]), *rest)))
    return out


def texts_l02(deep):
    out = []
    tails = ['"', '""', '"""', "'''", '\\', '\\\\', '*/', '/*', '//', '??/', '??',
             '\n', 'a\n', '\nb', '\r\n', '\n\n', '\n    a\n  ', ' ', '\t', '#', '{{ a }}',
             '{% a %}', '{# a', '{', '%s', '\\N', '\\u', '\\x4', '\\U', '\\n',
             'a\\\nb', '"""\n\\', '\n"']

    def ascii(hint):
        return chars(hint, 1, '', [(0, 0x7f)])
    shapes = [('one', lambda: chars('c', 1)),
              ('two', lambda: ascii('c') + ascii('d')),
              ('inner', lambda: 'a' + ascii('c') + ascii('d') + 'b')]
    for t in tails:
        shapes.append(('behind ' + t, lambda t=t: t + ascii('c')))
        shapes.append(('before ' + t, lambda t=t: ascii('c') + t))
    if deep:
        shapes.append(('three', lambda: ascii('c') + ascii('d') + ascii('e')))
    for lang in ('py', 'go', 'cpp'):
        fs = ['mapry.main.generate_' + lang,
              'mapry.{}.generate.types{}.*'.format(
                  lang, '_header' if lang == 'cpp' else ''),
              'mapry.{}.generate.comment'.format(lang)]
        if lang == 'py':
            fs.append('mapry.py.generate.docstring')
        for label, m in description_places():
            rest = label not in ('graph', 'classes/described',
                                 'graph/property', 'classes/property',
                                 'embeds/bare')
            for shape, fn in shapes:
                if rest and not deep and shape not in ('one', ):
                    continue
                out.append(Case(
                    '{}/{}/{}'.format(lang, label, shape.encode(
                        'unicode_escape').decode()), 'ops_texts',
                    'described', lambda e, lang=lang, m=m, fn=fn: {
                        'lang': lang, 'template': m, 'text': fn(),
                        'mark': 'QxQ'}, fs))
    return out


# ---------------------------------------------------------------------------
# indentation
# ---------------------------------------------------------------------------


def indents(deep):
    out = []

    def add(label, fn):
        out.append(Case('reindent/' + label, 'ops_indent', 'reindent', fn,
                        ['mapry.indention.reindent', 'textwrap.dedent']))

    def blanks(hint, n):
        return pick(hint, *[' ' * k for k in range(n)])

    def any_char(hint):
        return strs.fresh_in(hint, [[(0, 0x2ff), (0x2028, 0x2029)]])

    def req(text):
        return {'text': text, 'level': pick('level', 0, 1, 3),
                'indention': pick('indention', '  ', '    ', '\t', '|')}
    ends = ('', '\n')
    for n in range(1, 5 if deep else 4):
        def chars_only(e, n=n):
            t = any_char('c')
            for i in range(n - 1):
                t = t + any_char('c')
            return req(t)
        add('characters/{}'.format(n), chars_only)
    top = 14 if deep else 10
    for n in range(0, top):
        n = ' ' * n
        add('line/{}'.format(len(n)), lambda e, n=n: req(
            n + any_char('c') + pick('m', '', '  ', '    ') + any_char('d')))
        add('two lines/{}'.format(len(n)), lambda e, n=n: {
            'text': n + any_char('c') + '\n' + blanks('m', top)
            + 'x' + pick('end', *ends), 'level': pick('level', 0, 2),
            'indention': pick('indention', '  ', '\t')})
        add('blank between/{}'.format(len(n)), lambda e, n=n: {
            'text': n + 'x\n' + pick('o', '', ' ', ' ' * 4, ' ' * 9, '\t')
            + '\n' + blanks('m', 6) + any_char('c') + '\n',
            'level': pick('level', 0, 1), 'indention': '\t'})
        add('three lines/{}'.format(len(n)), lambda e, n=n: {
            'text': n + 'x {\n' + blanks('m', 10) + any_char('c')
            + pick('in', '', '    y') + '\n' + pick(
                'o', '', '  ', '    ') + '}\n',
            'level': 0, 'indention': pick('indention', '  ', '\t')})
    return out


# ---------------------------------------------------------------------------
# commands
# ---------------------------------------------------------------------------


def commands(deep):
    out = []
    fs = ['mapry.main.run', 'mapry.main.entry_point',
          'mapry.main.generate_cpp', 'mapry.main.generate_go',
          'mapry.main.generate_py', 'mapry.parse.schema_from_json_file']

    def add(label, fn):
        out.append(Case('command/' + label, 'ops_commands', 'command', fn,
                        fs))
    schemas = ('good', 'missing', 'directory', 'no json', 'malformed',
               'refused', 'refused by cpp', 'refused by go',
               'refused by py')
    outdirs = ('missing', 'nested', 'empty', 'used', 'old', 'file')

    def req(lang, **kw):
        m = {'lang': lang, 'schema': 'good', 'outdir': 'missing',
             'settings': {'cpp': True, 'go': True, 'py': True},
             'with_schema': True, 'with_outdir': True, 'with_command': True,
             'swapped': False, 'joined': False, 'locale': 'utf-8',
             'fail_at': 0}
        m.update(kw)
        return m
    for lang in ('cpp', 'go', 'py'):
        add(lang + '/arguments', lambda e, lang=lang: req(
            lang, with_schema=boolean('s'), with_outdir=boolean('o'),
            with_command=boolean('c'), swapped=boolean('w'),
            joined=boolean('j')))
        for sch in schemas:
            add('{}/schema/{}'.format(lang, sch),
                lambda e, lang=lang, sch=sch: req(
                    lang, schema=sch, locale=pick('locale', 'utf-8', 'ascii'), outdir=pick('outdir', *outdirs),
                    settings={x: boolean('set_' + x)
                              for x in ('cpp', 'go', 'py')}))
        for o in outdirs:
            add('{}/outdir/{}'.format(lang, o),
                lambda e, lang=lang, o=o: req(
                    lang, outdir=o, fail_at=integer('fail'),
                    locale=pick('locale', 'utf-8', 'ascii', 'latin-1',
                                'cp1252')))
    for n in range(0, 4 if deep else 3):
        out.append(Case(
            'broken/{}'.format(n), 'ops_commands', 'broken',
            lambda e, n=n: {'text': chars('t', n, '', [(0, 0x2ff)])
                            if n else ''}, fs[-1:]))
    for i, t in enumerate(('{\n', '{\n  "a": ', '[1,\n', '{"a": "', ' ' * 130,
                           '{"name": "G",\n"description": "is."}')):
        out.append(Case(
            'broken/behind {}'.format(i), 'ops_commands', 'broken',
            lambda e, t=t: {'text': t + chars('t', 1, '', [(0, 0x2ff)])},
            fs[-1:]))
        out.append(Case(
            'broken/last {}'.format(i), 'ops_commands', 'broken',
            lambda e, t=t: {'text': chars('t', 1, '', [(0, 0x2ff)]) + t},
            fs[-1:]))
    return out


# ---------------------------------------------------------------------------
# durations
# ---------------------------------------------------------------------------

DURATION_FUNCS = ['generated _duration_from_string',
                  'generated _duration_to_string', 'generated gr_from',
                  'generated serialize_gr', 'mapry.py.generate.*']


def numeral(hint, n):
    return strs.fresh_in(hint, [[(48, 57)]] * n)


def durations(deep):
    out = []

    def add(op, label, fn):
        out.append(Case('{}/{}'.format(op, label), 'ops_durations', op, fn,
                        DURATION_FUNCS))
    top = 5 if deep else 4
    for n in range(1, top + 1):
        add('read', 'text/{}'.format(n),
            lambda e, n=n: {'text': s('t', n, 0, 0x2ff)})
    for pre in ('P', '-P', 'PT', 'P1DT', '+P1Y', 'PT1.5', 'P1Y2M'):
        for n in range(1, top):
            add('read', 'behind {}/{}'.format(pre, n),
                lambda e, pre=pre, n=n: {'text': pre + s('t', n, 0, 0x7f)})
    for post in ('D', 'T1S', '1D', 'P1D', 'PT'):
        for n in range(1, top):
            add('read', 'before {}/{}'.format(post, n),
                lambda e, post=post, n=n: {'text': s('t', n, 0, 0x7f) + post})
    # counts of one unit
    for unit in 'YMWD':
        for n in (1, 3, 7, 9, 10, 12):
            add('read', 'count/{}{}'.format(n, unit),
                lambda e, unit=unit, n=n: {
                    'text': pick('sign', '', '-', '+') + 'P'
                    + numeral('n', n) + unit})
        for n, k in ((1, 1), (3, 2), (9, 1), (1, 6), (10, 7)):
            add('read', 'count/{}.{}{}'.format(n, k, unit),
                lambda e, unit=unit, n=n, k=k: {
                    'text': pick('sign', '', '-') + 'P' + numeral('n', n)
                    + '.' + numeral('k', k) + unit})
    for unit in 'HMS':
        for n in (1, 2, 6, 11, 14, 16):
            add('read', 'count/{}T{}'.format(n, unit),
                lambda e, unit=unit, n=n: {
                    'text': pick('sign', '', '-', '+') + 'PT'
                    + numeral('n', n) + unit})
        for n, k in ((1, 1), (2, 3), (3, 6), (1, 7), (9, 6)):
            add('read', 'count/{}.{}T{}'.format(n, k, unit),
                lambda e, unit=unit, n=n, k=k: {
                    'text': pick('sign', '', '-') + 'PT' + numeral('n', n)
                    + '.' + numeral('k', k) + unit})

    # all units together
    def counted(hint, n):
        return strs.fresh_in(hint, [[(49, 57)]] + [[(48, 57)]] * (n - 1))

    def together(n, frac):
        t = pick('sign', '', '-', '+') + 'P'
        for u in 'YMWD':
            if boolean('has_' + u):
                t = t + counted(u, n) + u
        if boolean('has_T'):
            t = t + 'T'
            for u in 'HMS':
                if boolean('has_T' + u):
                    t = t + counted('t' + u, n)
                    if u == 'S' and frac:
                        t = t + '.' + numeral('f', frac)
                    t = t + u
        return {'text': t}
    for n in (1, 2, 3) if deep else (1, 2):
        for frac in (0, 3, 6):
            add('read', 'together/{}/{}'.format(n, frac),
                lambda e, n=n, frac=frac: together(n, frac))
    # printing

    def amount(sign, **k):
        m = {'sign': sign}
        for name, top in (('days', 999999999), ('hours', 23),
                          ('minutes', 59), ('seconds', 59),
                          ('micro', 999999)):
            v = k.get(name)
            if v is None:
                z = z3.Int(core.engine().name(name))
                core.engine().assume(z3.And(z >= 0, z <= top))
                v = core.SymInt(z)
            m[name] = v
        return m
    for sign in (1, -1):
        for d in (0, 1, None):
            for u in (0, None):
                if d is None and u is None and not deep:
                    add('again', '{}/days/short'.format(sign),
                        lambda e, sign=sign: amount(
                            sign, hours=0, minutes=0))
                    continue
                add('again', '{}/{}/{}'.format(
                    sign, 'days' if d is None else d,
                    'micro' if u is None else u),
                    lambda e, sign=sign, d=d, u=u: amount(
                        sign, days=d, micro=u))
    return out


# ---------------------------------------------------------------------------
# constructors
# ---------------------------------------------------------------------------

OBJECT_FUNCS = ['generated constructors of classes, embeddable structures and '
                'graphs', 'generated placeholder_*', 'generated serialize_*',
                'mapry.py.generate.types', 'mapry.py.generate.parse',
                'mapry.py.generate.tojsonable']


def objects(deep):
    out = []

    def value(t, i):
        h = 'v{}'.format(i)
        return {'boolean': lambda: boolean(h), 'integer': lambda: integer(h),
                'float': lambda: real(h), 'string': lambda: text(h, 0, 1, 2),
                'array': lambda: pick(h, lambda: [], lambda: [integer(h)]),
                'map': lambda: pick(h, OD, lambda: OD(
                    [('k', s(h, 1))]))}[t]()

    def request(where, types, optional, complete=False, **kw):
        """Any presence of the properties and any values."""
        props = []
        for i, t in enumerate(types):
            has = True if complete else pick('given{}'.format(i), True, False)
            props.append({'type': t, 'optional': optional[i], 'given': has,
                          'value': value(t, i) if has else None})
        req = {'where': where, 'names': 'plain', 'json': 'no',
               'plural': '', 'classes': True,
               'properties': props, 'id': s('id', 1)}
        req.update(kw)
        return req

    def add(op, label, fn):
        out.append(Case('{}/{}'.format(op, label), 'ops_objects', op, fn,
                        OBJECT_FUNCS))
    kinds = ['boolean', 'integer', 'float', 'string', 'array', 'map']
    plans = []
    for k in kinds:
        for o in (False, True):
            plans.append(((k, ), (o, )))
    top = 4 if deep else 3
    for n in range(2, top + 1):
        for o in itertools.product((False, True), repeat=n):
            plans.append((('integer', 'string', 'integer', 'integer')[:n], o))
    plans.append(((), ()))

    def label(types, o):
        return '+'.join(t + ('?' if x else '') for t, x in zip(types, o)) \
            or 'none'
    for where in ('graph', 'class', 'embed'):
        for types, o in plans:
            for nm, js in (('plain', 'no'), ('plain', 'rotated'),
                           ('capital', 'other')):
                if js != 'no' and len(types) < (
                        1 if nm == 'capital' else 2):
                    continue
                lb = '{}/{}/{}/{}'.format(where, nm, js, label(types, o))
                kw = {'names': nm, 'json': js}

                def req(e, where=where, types=types, o=o, kw=kw):
                    return request(where, types, o, **kw)
                add('construct', lb, req)
                if len(types) > 1:
                    add('order', lb, req)
                if types:
                    add('written', lb, req)
                add('shell', lb, lambda e, where=where, types=types, o=o,
                    kw=kw: dict(request(where, (), ()), properties=[
                        {'type': t, 'optional': x, 'given': False,
                         'value': None} for t, x in zip(types, o)], **kw))
    for types, o in (((), ()), (('integer', ), (True, )),
                     (('integer', ), (False, ))):
        for pl in ('', 'Many_Things', 'URLs'):
            add('filled', '{}/{}'.format(label(types, o), pl or 'default'),
                lambda e, types=types, o=o, pl=pl: request(
                    'graph', types, o, complete=True, plural=pl,
                    registries=[pick('r{}'.format(i), 'none', 'empty', 'one')
                                for i in range(2)]))
    for where in ('graph', 'class', 'embed'):
        for pl in ('', 'Many_Things'):
            for cl in (True, False):
                add('hints', '{}/{}/{}'.format(
                    where, pl or 'default', 'classes' if cl else 'alone'),
                    lambda e, where=where, pl=pl, cl=cl: {
                        'where': where, 'names': 'capital',
                        'json': pick('json', 'no', 'rotated'),
                        'plural': pl, 'classes': cl or where == 'class',
                        'id': 'x', 'properties': [
                            {'type': pick('t{}'.format(i), *(
                                kinds + ['embed'] * (where != 'embed')
                                + ['class'] * (cl and where != 'embed'))),
                             'optional': pick('o{}'.format(i), False, True),
                             'given': False, 'value': None}
                            for i in range(2)]})
    for cl in (True, False):
        add('construct', 'graph/nothing/{}'.format(cl),
            lambda e, cl=cl: request('graph', (), (), classes=cl))
    return out

"""Families of schemas: structure by case split, numbers symbolic."""
import z3

from sx import core
from sx.concretise import SAMPLES
from sx.core import engine
from sx.spec import C, G, P, T

PATTERNS = {'open': 'q[0-4]+[x-z]',
            'string': '^[a-f]{2,4}$', 'path': '^/[a-z]+/x$',
            'id': '^i[0-9]+$', 'string2': '[k-m]+[0-9]', 'path2': '^p[0-9]$',
            'id2': '^j[0-9]+$'}
SAMPLES.update({
    'q[0-4]+[x-z]': ['q1x', 'q22y', 'q3z', 'q0x'],
    '^[a-f]{2,4}$': ['abc', 'fade', 'bed', 'ace'],
    '^/[a-z]+/x$': ['/a/x', '/b/x', '/c/x', '/d/x'],
    '^q[0-4]+[x-z]': ['q1x', 'q22y', 'q3z', 'q0x'],
    'q[0-4]+[x-z].*': ['q1x', 'q22y', 'q3z', 'q0x'],
    '^[k-m]+[0-9]$': ['kl1', 'mm2', 'lk3', 'k4'],
    '^i[0-9]+$': ['i0', 'i1', 'i2', 'i3'],
    '^j[0-9]+$': ['j0', 'j1', 'j2', 'j3'],
    '[k-m]+[0-9]': ['kl1', 'mm2', 'lk3', 'k4'],
    '^p[0-9]$': ['p0', 'p1', 'p2', 'p3'],
})


LANG = 'py'
WORD = 2**62


def set_lang(lang):
    """Whether unanchored patterns are searched is only known for Python."""
    global LANG
    LANG = lang
    PATTERNS['open'] = {'py': 'q[0-4]+[x-z]', 'go': '^q[0-4]+[x-z]',
                        'cpp': 'q[0-4]+[x-z].*'}[lang]
    PATTERNS['string2'] = '[k-m]+[0-9]' if lang == 'py' else '^[k-m]+[0-9]$'


FORMATS = {'date': '%d.%m.%Y', 'time': '%H-%M', 'datetime': '%Y%m%d %H:%M:%S',
           'date2': '%m/%d/%Y', 'time2': '%M.%H',
           'datetime2': '%d.%m.%y %I:%M %p'}
SCALARS = ['boolean', 'integer', 'float', 'string', 'path', 'date', 'time',
           'datetime', 'time_zone', 'duration', 'ref', 'embed']
WRAPPERS = [(), ('array', ), ('map', ), ('array', 'array'), ('array', 'map'),
            ('map', 'array'), ('map', 'map')]
DEEP = [(a, b, c) for a in ('array', 'map') for b in ('array', 'map')
        for c in ('array', 'map')]
THING = 'Some_thing'
OTHER = 'Other_URL_thing'
BOX = 'Some_box'


def bounded(x):
    if isinstance(x, core.SymFloat):
        engine().assume(z3.And(x.z >= -2**53, x.z <= 2**53))
    elif LANG != 'py':
        # beyond the machine words the generated code does not compile
        engine().assume(z3.And(x.z >= -WORD, x.z <= WORD))


def number(kind, hint, which, excl):
    mk = core.fresh_int if kind == 'integer' else core.fresh_real
    e = engine()
    kw = {}
    if which in (1, 3):
        kw['minimum'] = mk(hint + '_min')
        bounded(kw['minimum'])
        kw['xmin'] = excl and e.flip(hint + '_xmin')
    if which in (2, 3):
        kw['maximum'] = mk(hint + '_max')
        bounded(kw['maximum'])
        kw['xmax'] = excl and e.flip(hint + '_xmax')
    return T(kind, **kw)


def scalar(kind, hint='t', which=None, excl=True, sfx=''):
    """A scalar type; ``which`` selects its constraints (None: any)."""
    e = engine()
    if kind in ('integer', 'float'):
        if which is None:
            which = e.choose(hint + '_bounds', 4)
        return number(kind, hint, which, excl)
    if kind in ('string', 'path'):
        if which is None:
            which = e.choose(hint + '_pattern', 3)
        return T(kind, pattern=[None, PATTERNS[kind + sfx],
                                PATTERNS['open']][which])
    if kind in ('date', 'time', 'datetime'):
        if which is None:
            which = e.choose(hint + '_format', 2)
        return T(kind, format=FORMATS[kind + sfx] if which else None)
    if kind == 'ref':
        return T('ref', ref=THING)
    if kind == 'embed':
        return T('embed', ref=BOX)
    return T(kind)


def size(hint, which):
    kw = {}
    hi = None if LANG == 'py' else WORD
    if which in (1, 3):
        kw['minsize'] = core.fresh_int(hint + '_minsize', 0, hi)
    if which in (2, 3):
        kw['maxsize'] = core.fresh_int(hint + '_maxsize', 0, hi)
    return kw


def wrap(t, wrapper, hint='w', which=None):
    """Wrap a type in aggregates (the outermost first)."""
    e = engine()
    for depth, w in reversed(list(enumerate(wrapper))):
        if w == 'map':
            t = T('map', values=t)
        else:
            h = '{}{}'.format(hint, depth)
            c = e.choose(h + '_sizes', 4) if which is None else which
            t = T('array', values=t, **size(h, c))
    return t


def classes_for(kind, extra_thing=()):
    """The composites which a type of the kind needs."""
    cls, emb = [], []
    if kind == 'ref' or extra_thing:
        cls.append(C(THING, [P('thing_n', T('integer'), json='thingN')] +
                     list(extra_thing)))
    if kind == 'embed':
        emb.append(C(BOX, [P('box_n', T('integer'), optional=True,
                             json='boxN')]))
    return cls, emb


def placed(placement, prop, after, kind, **kw):
    """A graph which holds the properties at the placement."""
    cls, emb = classes_for(kind)
    props = [prop] + ([after] if after is not None else [])
    root = []
    if placement == 'graph':
        root = props
    elif placement == 'class':
        cls.append(C('Holder_item', props, plural='Holder_stock',
                     id_pattern=PATTERNS['id']))
    elif placement == 'embed':
        emb.append(C('Holder_box', props))
        root = [P('the_box', T('embed', ref='Holder_box'))]
    elif placement == 'class-embed':
        emb.append(C('Holder_box', props))
        cls.append(C('Holder_item', [P('the_box', T('embed',
                                                    ref='Holder_box'))]))
    else:
        raise ValueError(placement)
    return G(C('Some_graph', root), classes=cls, embeds=emb, **kw)

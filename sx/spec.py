"""Reference description of object graphs, independent of mapry's classes."""
import collections

import z3

from sx.core import Sym, SymFloat, SymInt

PRIMS = ['boolean', 'integer', 'float', 'string', 'path', 'date', 'time',
         'datetime', 'time_zone', 'duration']
DEFAULT_FMT = {'date': '%Y-%m-%d', 'time': '%H:%M:%S',
               'datetime': '%Y-%m-%dT%H:%M:%SZ'}


class T:
    """A type of a value."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.minimum = kw.pop('minimum', None)
        self.maximum = kw.pop('maximum', None)
        self.xmin = kw.pop('xmin', False)
        self.xmax = kw.pop('xmax', False)
        self.pattern = kw.pop('pattern', None)
        self.format = kw.pop('format', None)
        self.minsize = kw.pop('minsize', None)
        self.maxsize = kw.pop('maxsize', None)
        self.values = kw.pop('values', None)
        self.ref = kw.pop('ref', None)
        assert not kw

    @property
    def fmt(self):
        return self.format or DEFAULT_FMT.get(self.kind)

    def mapping(self):
        m = collections.OrderedDict()
        m['type'] = self.ref if self.kind in ('ref', 'embed') else self.kind
        if self.minimum is not None:
            m['minimum'] = self.minimum
        if self.xmin:
            m['exclusive_minimum'] = True
        if self.maximum is not None:
            m['maximum'] = self.maximum
        if self.xmax:
            m['exclusive_maximum'] = True
        if self.pattern is not None:
            m['pattern'] = self.pattern
        if self.format is not None:
            m['format'] = self.format
        if self.minsize is not None:
            m['minimum_size'] = self.minsize
        if self.maxsize is not None:
            m['maximum_size'] = self.maxsize
        if self.values is not None:
            m['values'] = self.values.mapping()
        return m

    def __repr__(self):
        return 'T({})'.format(dict(self.mapping()))


class P:
    """A property."""

    def __init__(self, name, t, optional=False, json=None):
        self.name = name
        self.t = t
        self.optional = optional
        self._json = json

    @property
    def json(self):
        return self._json if self._json is not None else self.name

    def attr(self):
        """Attribute of the Python objects."""
        return self.name.lower()

    def mapping(self):
        t = self.t.mapping()
        m = collections.OrderedDict([('type', t.pop('type'))])
        m['description'] = 'holds ' + self.name.replace('_', ' ') + '.'
        m.update(t)
        if self.optional:
            m['optional'] = True
        if self._json is not None:
            m['json'] = self._json
        return m


def camel(name):
    """Reference of the composite names of the targets."""
    return ''.join(p[0].upper() + p[1:] for p in name.split('_'))


class C:
    """A class, an embeddable structure or the graph."""

    def __init__(self, name, props, plural=None, id_pattern=None):
        self.name = name
        self.props = props
        self.plural = plural
        self.id_pattern = id_pattern

    def base(self):
        m = collections.OrderedDict()
        m['name'] = self.name
        m['description'] = 'defines ' + self.name.lower().replace(
            '_', ' ') + '.'
        return m

    def mapping(self):
        m = self.base()
        if self.plural is not None:
            m['plural'] = self.plural
        if self.id_pattern is not None:
            m['id_pattern'] = self.id_pattern
        if self.props:
            m['properties'] = collections.OrderedDict(
                (p.name, p.mapping()) for p in self.props)
        return m

    def py_class(self):
        return camel(self.name)

    def py_var(self):
        return self.name.lower()

    def attr_registry(self):
        return self.registry()

    def plural_name(self):
        return self.plural if self.plural is not None else self.name + 's'

    def registry(self):
        """Key of the registry in the JSON representation."""
        return self.plural_name().lower()


class G:
    """An object graph with the settings of the targets."""

    def __init__(self, graph, classes=(), embeds=(), cpp=None,
                 path_as='pathlib.Path', tz_as='pytz.timezone'):
        self.path_as = path_as
        self.tz_as = tz_as
        self.graph = graph
        self.classes = collections.OrderedDict((c.name, c) for c in classes)
        self.embeds = collections.OrderedDict((c.name, c) for c in embeds)
        self.cpp = cpp or {
            'namespace': 'some::space', 'path_as': 'std::filesystem::path',
            'optional_as': 'std::optional', 'datetime_library': 'ctime'}

    def mapping(self):
        m = self.graph.base()
        m['cpp'] = collections.OrderedDict(self.cpp)
        m['go'] = collections.OrderedDict([('package', 'somegraph')])
        m['py'] = collections.OrderedDict([
            ('module_name', 'sxgen.somegraph'), ('path_as', self.path_as),
            ('timezone_as', self.tz_as)])
        if self.classes:
            m['classes'] = [c.mapping() for c in self.classes.values()]
        if self.embeds:
            m['embeds'] = [c.mapping() for c in self.embeds.values()]
        if self.graph.props:
            m['properties'] = collections.OrderedDict(
                (p.name, p.mapping()) for p in self.graph.props)
        return m


def concrete(x, model):
    """Concrete copy of a mapping for a model."""
    if isinstance(x, SymInt):
        return model.eval(x.z, model_completion=True).as_long()
    if isinstance(x, SymFloat):
        v = model.eval(x.z, model_completion=True)
        return real_value(v)
    if isinstance(x, Sym):
        raise TypeError('unexpected symbolic value {!r}'.format(x))
    if isinstance(x, dict):
        return collections.OrderedDict(
            (concrete(k, model), concrete(v, model)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [concrete(y, model) for y in x]
    return x


def real_value(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    return v.numerator_as_long() / v.denominator_as_long()

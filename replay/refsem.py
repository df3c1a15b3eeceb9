"""Concrete reference semantics of a mapry schema (plain standard library).

Written from the documentation (docs/source/schema.rst), independent of the
code of the compiler.  Used to confirm counterexamples on the real code.
"""
import collections
import datetime
import re

DEFAULT_FMT = {'date': '%Y-%m-%d', 'time': '%H:%M:%S',
               'datetime': '%Y-%m-%dT%H:%M:%SZ'}
PLAIN = {'boolean', 'integer', 'float', 'string', 'path', 'date', 'time',
         'datetime', 'time_zone', 'duration'}
_NUM = r'(0|[1-9][0-9]*)(\.[0-9]+)?'
DURATION = re.compile(
    r'[+-]?P({n}Y)?({n}M)?({n}W)?({n}D)?'
    r'(T({n}H)?({n}M)?((0|[1-9][0-9]*)(\.[0-9]+)?S)?)?'.format(n=_NUM))


def timezones():
    try:
        import pytz
        return set(pytz.all_timezones)
    except ImportError:
        import zoneinfo
        return zoneinfo.available_timezones()


_TZ = []


def tz_known(s):
    if not _TZ:
        _TZ.append(timezones())
    return s in _TZ[0]


def strptime_ok(s, fmt):
    try:
        datetime.datetime.strptime(s, fmt)
        return True
    except ValueError:
        return False


class Sem:
    def __init__(self, schema, lang='py'):
        self.s = schema
        self.lang = lang
        self.classes = {c['name']: c for c in schema.get('classes', [])}
        self.embeds = {c['name']: c for c in schema.get('embeds', [])}

    def registry(self, c):
        return (c['plural'] if 'plural' in c else c['name'] + 's').lower()

    # -- conformance ------------------------------------------------------
    def violations(self, data):
        """[(segments, why, prescribed)] of the offending locations."""
        self.data = data
        self.out = []
        if not isinstance(data, dict):
            return [((), 'graph', True)]
        critical = False
        for c in self.classes.values():
            key = self.registry(c)
            if key not in data:
                continue
            reg = data[key]
            if not isinstance(reg, dict):
                self.out.append(((key, ), 'registry', True))
                critical = True
                continue
            for i in reg:
                if 'id_pattern' in c and not re.match(c['id_pattern'], i):
                    self.out.append(((key, i), 'id', False))
                    self.out.append(((key, ), 'id', False))
                    critical = True
        for c in self.classes.values():
            reg = data.get(self.registry(c))
            if isinstance(reg, dict):
                for i, inst in reg.items():
                    self.composite(c.get('properties', {}), inst,
                                   (self.registry(c), i), not critical)
        self.props(self.s.get('properties', {}), data, (), not critical)
        return self.out

    def composite(self, props, v, segs, must):
        if not isinstance(v, dict):
            self.out.append((segs, 'composite', must))
            return
        self.props(props, v, segs, must)

    def props(self, props, v, segs, must):
        for name, p in props.items():
            key = p.get('json', name)
            if key not in v:
                if not p.get('optional', False):
                    self.out.append((segs, 'missing', must))
            elif v[key] is None:
                if not p.get('optional', False):
                    self.out.append((segs, 'null', False))
                    self.out.append((segs + (key, ), 'null', False))
            else:
                self.value(p, v[key], segs + (key, ), must)

    def value(self, t, v, segs, must):
        k = t['type']
        if k == 'array':
            bad = not isinstance(v, list)
            if not bad and 'minimum_size' in t:
                bad = len(v) < t['minimum_size']
            if not bad and 'maximum_size' in t:
                bad = len(v) > t['maximum_size']
            if bad:
                self.out.append((segs, 'array', must))
            if isinstance(v, list):
                for i, x in enumerate(v):
                    self.value(t['values'], x, segs + (str(i), ),
                               must and not bad)
        elif k == 'map':
            if not isinstance(v, dict):
                self.out.append((segs, 'map', must))
            else:
                for key, x in v.items():
                    self.value(t['values'], x, segs + (key, ), must)
        elif k in self.embeds:
            self.composite(self.embeds[k].get('properties', {}), v, segs,
                           must)
        elif not self.scalar(t, v):
            self.out.append((segs, k, must))

    def scalar(self, t, v):
        k = t['type']
        if k == 'boolean':
            return isinstance(v, bool)
        if k in ('integer', 'float'):
            if isinstance(v, bool) or not isinstance(
                    v, int if k == 'integer' else (int, float)):
                # an integral JSON number is an integer for Go
                if not (self.lang != 'py' and k == 'integer'
                        and isinstance(v, float) and v.is_integer()):
                    return False
            if self.lang != 'py' and k == 'integer' and not (
                    -2**63 <= float(v) < 2**63):
                return False
            if 'minimum' in t:
                if v < t['minimum'] or (t.get('exclusive_minimum')
                                        and v == t['minimum']):
                    return False
            if 'maximum' in t:
                if v > t['maximum'] or (t.get('exclusive_maximum')
                                        and v == t['maximum']):
                    return False
            return True
        if not isinstance(v, str):
            return False
        if k in ('string', 'path'):
            return 'pattern' not in t or re.match(t['pattern'], v) is not None
        if k in DEFAULT_FMT:
            return strptime_ok(v, t.get('format', DEFAULT_FMT[k]))
        if k == 'time_zone':
            if self.lang == 'py' and self.s['py']['timezone_as'] == 'str':
                return True
            if self.lang == 'cpp' and \
                    self.s['cpp']['datetime_library'] == 'ctime':
                return True
            return tz_known(v)
        if k == 'duration':
            return DURATION.fullmatch(v) is not None
        if k in self.classes:
            reg = self.data.get(self.registry(self.classes[k]))
            return isinstance(reg, dict) and v in reg
        raise ValueError('unknown type {!r}'.format(k))

    # -- values -----------------------------------------------------------
    def py_value(self, t, v):
        """Expected Python value in the form of ``dump`` of the driver."""
        k = t['type']
        if k == 'array':
            return ['list', [self.py_value(t['values'], x) for x in v]]
        if k == 'map':
            kv = [[key, self.py_value(t['values'], x)]
                  for key, x in v.items()]
            if isinstance(v, collections.OrderedDict):
                return ['odict', kv]
            return ['dict', sorted(kv, key=lambda p: p[0])]
        if k in self.embeds:
            return self.py_composite(self.embeds[k], v)
        if k in self.classes:
            return ['instance', self.registry(self.classes[k]), v]
        if k == 'float':
            return ['float', float(v)]
        if k in ('boolean', 'integer', 'string'):
            return [type(v).__name__, v]
        if k == 'path':
            if self.s['py']['path_as'] == 'str':
                return ['str', v]
            import pathlib
            return ['path', str(pathlib.Path(v))]
        if k in DEFAULT_FMT:
            d = datetime.datetime.strptime(v, t.get('format', DEFAULT_FMT[k]))
            d = {'date': d.date, 'time': d.time, 'datetime': lambda: d}[k]()
            return [k, d.isoformat()]
        if k == 'time_zone':
            return ['str' if self.s['py']['timezone_as'] == 'str' else 'tz', v]
        return ['duration']

    def py_composite(self, c, v):
        out = {}
        for name, p in c.get('properties', {}).items():
            key = p.get('json', name)
            x = v.get(key)
            out[name.lower()] = None if x is None else self.py_value(p, x)
        return ['composite', camel(c['name']), out]

    def go_value(self, t, v, optional=False):
        """Expected Go value in the form of the dump of the driver."""
        k = t['type']
        if k == 'array':
            return ['list', [self.go_value(t['values'], x) for x in v]]
        if k == 'map':
            return ['map', [[key, self.go_value(t['values'], v[key])]
                            for key in sorted(v)]]
        if k in self.classes:
            return ['instance', camel(plural(self.classes[k])), v]
        if k == 'time_zone':
            return ['tz', v]
        if k in self.embeds:
            out = self.go_composite(self.embeds[k], v)
        elif k == 'boolean':
            out = ['bool', v]
        elif k == 'integer':
            out = ['int', str(int(float(v)))]
        elif k == 'float':
            out = ['float', float(v)]
        elif k in ('string', 'path'):
            out = ['str', v]
        elif k in DEFAULT_FMT:
            f = t.get('format', DEFAULT_FMT[k])
            d = datetime.datetime.strptime(v, f)
            out = ['time', [d.year if re.search('%[yY]', f) else 0, d.month,
                            d.day, d.hour, d.minute, d.second,
                            d.microsecond * 1000]]
        else:
            out = ['duration']
        return ['ptr', out] if optional else out

    def go_composite(self, c, v, **extra):
        out = dict(extra)
        for name, p in c.get('properties', {}).items():
            x = v.get(p.get('json', name))
            out[camel(name)] = None if x is None else self.go_value(
                p, x, p.get('optional', False))
        return ['composite', camel(c['name']), out]

    def go_graph(self, schema, data):
        out = self.go_composite(schema, data)
        for c in self.classes.values():
            reg = data.get(self.registry(c))
            out[2][camel(plural(c))] = None if reg is None else ['map', [
                [i, self.go_composite(c, reg[i], ID=['str', i])]
                for i in sorted(reg)]]
        return out

    def cpp_value(self, t, v):
        """Expected C++ value in the form of the dump of the driver."""
        k = t['type']
        if k == 'array':
            return ['list', [self.cpp_value(t['values'], x) for x in v]]
        if k == 'map':
            return ['map', [[key, self.cpp_value(t['values'], v[key])]
                            for key in sorted(v)]]
        if k in self.classes:
            return ['instance', self.registry(self.classes[k]), v]
        if k == 'time_zone':
            return ['tz', v]
        if k in self.embeds:
            return self.cpp_composite(self.embeds[k], v)
        if k == 'boolean':
            return ['bool', v]
        if k == 'integer':
            return ['int', str(int(v))]
        if k == 'float':
            return ['float', float(v)]
        if k in ('string', 'path'):
            return ['str', v]
        if k in DEFAULT_FMT:
            d = datetime.datetime.strptime(v, t.get('format', DEFAULT_FMT[k]))
            day, clock = [d.year, d.month, d.day], [d.hour, d.minute, d.second]
            return [k, {'date': day, 'time': clock,
                        'datetime': day + clock}[k]]
        return ['duration', True]

    def cpp_composite(self, c, v, **extra):
        out = dict(extra)
        for name, p in c.get('properties', {}).items():
            x = v.get(p.get('json', name))
            if x is not None:
                x = self.cpp_value(p, x)
                if p.get('optional', False):
                    x = ['opt', x]
            out[name.lower()] = x
        return ['composite', camel(c['name']), out]

    def cpp_graph(self, schema, data):
        out = self.cpp_composite(schema, data)
        for c in self.classes.values():
            reg = data.get(self.registry(c)) or {}
            out[2]['registry ' + self.registry(c)] = ['map', [
                [i, self.cpp_composite(c, reg[i], id=['str', i])]
                for i in sorted(reg)]]
        return out

    # -- canonical JSON ---------------------------------------------------
    def canonical(self, data):
        out = {}
        for c in self.classes.values():
            reg = data.get(self.registry(c))
            if reg:
                out[self.registry(c)] = {
                    i: self.canon_props(c.get('properties', {}), x)
                    for i, x in reg.items()}
        out.update(self.canon_props(self.s.get('properties', {}), data))
        return out

    def canon_props(self, props, v):
        out = {}
        for name, p in props.items():
            key = p.get('json', name)
            if v.get(key) is not None:
                out[key] = self.canon(p, v[key])
        return out

    def canon(self, t, v):
        k = t['type']
        if k == 'array':
            return [self.canon(t['values'], x) for x in v]
        if k == 'map':
            return {i: self.canon(t['values'], x) for i, x in v.items()}
        if k in self.embeds:
            return self.canon_props(self.embeds[k].get('properties', {}), v)
        if k == 'float':
            return float(v)
        if k in DEFAULT_FMT:
            f = t.get('format', DEFAULT_FMT[k])
            return datetime.datetime.strptime(v, f).strftime(f)
        if k == 'duration':
            return ['duration']
        if k == 'path':
            import pathlib
            return str(pathlib.Path(v)) if self.lang == 'py' and \
                self.s['py']['path_as'] != 'str' else v
        return v


def plural(c):
    return c['plural'] if 'plural' in c else c['name'] + 's'


def camel(name):
    return ''.join(p[0].upper() + p[1:] for p in name.split('_'))


def ref_matches(ref, base, segs, quote=repr):
    """The reported reference points to ``base/segs`` (keys maybe quoted)."""
    import itertools
    alts = [[base]] + [sorted({s, repr(s), '"' + s + '"'}) for s in segs]
    return any('/'.join(x) == ref for x in itertools.product(*alts))


def same_json(a, b, loose=False):
    if isinstance(a, list) and a == ['duration']:
        return isinstance(b, str) and DURATION.fullmatch(b) is not None
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(
            same_json(a[k], b[k], loose) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(
            same_json(x, y, loose) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return (loose or type(a) is type(b)) and a == b
    return type(a) is type(b) and a == b

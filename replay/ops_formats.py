"""Operations on the formats of dates and times (T01)."""
import mapry
import mapry.go.timeformat
import mapry.go.validation
import mapry.parse
import mapry.py.validation
import mapry.validation
from opbase import Skip, require, run_op  # noqa: F401

DATE = 'aAbBdemyYzZ%'
TIME = 'HIlMPpSzZ%'
DIRECTIVES = {'date': DATE, 'time': TIME,
              'datetime': 'aAbBdemyYzZ%HIlMPpS'}
# not among the directives of datetime.datetime.strptime
PY_MISSING = 'elP'
# reference time of Go: Mon Jan 2 15:04:05 MST 2006 (-0700)
GO = {'a': 'Mon', 'A': 'Monday', 'b': 'Jan', 'B': 'January', 'd': '02',
      'e': '_2', 'm': '01', 'y': '06', 'Y': '2006', 'H': '15', 'I': '03',
      'l': '3', 'M': '04', 'P': 'pm', 'p': 'PM', 'S': '05', 'z': '-0700',
      'Z': 'MST', '%': '%'}
# all what Go recognises in a layout
CHUNKS = ['January', 'Monday', 'MST', '01', '02', '03', '04', '05', '06',
          '002', '1', '2', '3', '4', '5', '__2', 'PM', 'pm', '-07', 'Z07',
          '_2']
NAMES = ['Jan', 'Mon']
DIGITS = '0123456789'
LOWER = 'abcdefghijklmnopqrstuvwxyz'


def known(c, directives):
    """The character is one of the directives (without a branch)."""
    out = False
    for d in directives:
        out = (c == d) | out
    return out


def split(fmt, table):
    """Directives and characters of the text; None if it is malformed."""
    out = []
    i = 0
    while i < len(fmt):
        if fmt[i] == '%':
            if i + 1 >= len(fmt):
                return None
            if not known(fmt[i + 1], table):
                return None
            out.append((True, fmt[i + 1]))
            i = i + 2
        else:
            out.append((False, fmt[i]))
            i = i + 1
    return out


def schema_of(req):
    p = {'type': req['kind'], 'description': 'is.', 'format': req['format']}
    try:
        return mapry.parse.schema_from_mapping(
            mapping={'name': 'Gr', 'description': 'is.',
                     'properties': {'p': p}}, ref='#')
    except mapry.validation.SchemaError:
        return None


def admitted(req):
    """Formats of literal text and supported directives are admitted."""
    good = split(req['format'], DIRECTIVES[req['kind']]) is not None
    if len(req['format']) == 0:
        # not specified for date/times
        require(req['kind'] != 'datetime')
        good = False
    elif good:
        # neither are formats of line breaks only
        require(req['format'].splitlines() != [''] * len(
            req['format'].splitlines()))
    got = schema_of(req)
    if not good:
        return [('{}: a malformed format is refused'.format(req['kind']),
                 got is None)]
    if got is None:
        return [('{}: a supported format is accepted'.format(req['kind']),
                 False)]
    return [('{}: the format is kept'.format(req['kind']),
             got.graph.properties['p'].type.format == req['format'])]


def at(text, i, part):
    """The part is at the position of the text (without a branch)."""
    if i + len(part) > len(text):
        return False
    out = True
    for k, c in enumerate(part):
        out = (text[i + k] == c) & out
    return out


def among(text, i, chars):
    if i >= len(text):
        return False
    return known(text[i], chars)


def no(cond):
    return cond == False  # noqa: E712


def fraction(text, i):
    """Fraction of a second: a dot or a comma and only zeros or nines."""
    out = False
    for d in '09':
        run = (text[i] == '.') | (text[i] == ',')
        k = i + 1
        while k < len(text):
            run = (text[k] == d) & run
            k = k + 1
            out = (run & no(among(text, k, DIGITS))) | out
    return out


def recognised(text, i):
    """Go recognises something at the position."""
    out = fraction(text, i)
    for c in CHUNKS:
        if c == '_2':
            out = (at(text, i, c) & no(at(text, i, '_2006'))) | out
        else:
            out = at(text, i, c) | out
    for c in NAMES:
        out = (at(text, i, c) & no(among(text, i + 3, LOWER))) | out
    return out


def directive(text, i, part):
    """Go recognises the directive which starts at the position."""
    out = True
    if part in NAMES:
        out = no(among(text, i + 3, LOWER))
    if part == '_2':
        out = no(at(text, i, '_2006'))
    if part == '-0700':
        out = no(at(text, i, '-070000'))
    return out


def harmless(c):
    """The text can not be misread whatever is next to it."""
    return no((c == 'J') | (c == 'M') | (c == 'P') | (c == 'p') | (c == 'Z')
              | (c == '_') | known(c, DIGITS) | known(c, LOWER))


def go(req):
    """Accepted formats mean the same in Go."""
    segs = split(req['format'], DIRECTIVES[req['kind']])
    require(segs is not None and len(segs) > 0)
    got = schema_of(req)
    require(got is not None)
    errs = mapry.go.validation.validate_schema(schema=got)
    layout = ''
    starts = []
    for is_directive, c in segs:
        if is_directive:
            part = GO[c]
        else:
            part = c
        starts.append((len(layout), is_directive and c != '%', part))
        layout = layout + part
    same = True
    for i, is_directive, part in starts:
        if is_directive:
            same = directive(layout, i, part) & same
        else:
            same = no(recognised(layout, i)) & same
    if len(errs) > 0:
        plain = no(same)
        for is_directive, c in segs:
            if not is_directive:
                plain = no(harmless(c)) | plain
        return [('go: text which Go can not misread is accepted', plain)]
    return [('go: the layout consists of the directives and the text',
             mapry.go.timeformat.convert(a_format=req['format']) == layout),
            ('go: Go reads the directives, and only them, in the layout',
             same)]


def py(req):
    """Formats are accepted for Python if strptime takes them."""
    segs = split(req['format'], DIRECTIVES[req['kind']])
    require(segs is not None and len(segs) > 0)
    got = schema_of(req)
    require(got is not None)
    errs = mapry.py.validation.validate_schema(schema=got)
    bad = False
    ds = [c for is_directive, c in segs if is_directive]
    for i, c in enumerate(ds):
        bad = known(c, PY_MISSING) | bad
        for d in ds[:i]:
            bad = ((c == d) & no(c == '%')) | bad
    if len(errs) > 0:
        return [('py: formats of strptime are accepted', bad)]
    return [('py: formats which strptime refuses are refused', no(bad))]


OPS = {'admitted': admitted, 'go': go, 'py': py}
REGIONS = {}


def run(op, req):
    return run_op(OPS[op], req)

"""Operations on the durations of the generated Python code (D01)."""
import mapry.parse
from opbase import (Skip, difference, load_python, micros,  # noqa: F401
                    number, require, run_op)

MODULE = 'sxgen.somegraph'
LOADED = {}
DAY = 86400 * 10 ** 6
# microseconds of the units; years are 365.2425 days, months a twelfth
DATE = [('Y', 31556952 * 10 ** 6), ('M', 2629746 * 10 ** 6),
        ('W', 7 * DAY), ('D', DAY)]
TIME = [('H', 3600 * 10 ** 6), ('M', 60 * 10 ** 6), ('S', 10 ** 6)]
# number of fraction digits with which values are compared
SCALE = 12


def code():
    if 'py' not in LOADED:
        schema = mapry.parse.schema_from_mapping(mapping={
            'name': 'Gr', 'description': 'is.',
            'py': {'module_name': MODULE, 'path_as': 'str',
                   'timezone_as': 'str'},
            'properties': {'p': {'type': 'duration',
                                 'description': 'is.'}}}, ref='#')
        LOADED['py'] = load_python(schema, MODULE)
    return LOADED['py']


def is_digit(c):
    return c in '0123456789'


class Text:
    def __init__(self, text):
        self.text = text
        self.at = 0

    def more(self):
        return self.at < len(self.text)

    def take(self, c):
        if self.more() and self.text[self.at] == c:
            self.at = self.at + 1
            return True
        return False

    def digits(self):
        i = self.at
        while self.more() and is_digit(self.text[self.at]):
            self.at = self.at + 1
        return self.text[i:self.at]


def parts_of(text):
    """Sign and the counts of the units, or None if it is no duration."""
    t = Text(text)
    sign = 1
    if t.take('-'):
        sign = -1
    else:
        t.take('+')
    if not t.take('P'):
        return None
    out = []
    units = list(DATE)
    timed = False
    while t.more():
        if not timed and t.take('T'):
            timed = True
            units = list(TIME)
            continue
        whole = t.digits()
        if len(whole) == 0 or (len(whole) > 1 and whole[0] == '0'):
            return None
        part = ''
        if t.take('.'):
            part = t.digits()
            if len(part) == 0:
                return None
        found = False
        while units and not found:
            u = units[0]
            units = units[1:]
            found = t.take(u[0])
        if not found:
            return None
        out.append((timed, u, whole, part))
    return sign, out


def value_of(parts):
    """Microseconds by 10 ** SCALE, and whether they are exact."""
    sign, counts = parts
    total = 0
    exact = True
    for timed, u, whole, part in counts:
        seconds = timed and u[0] == 'S'
        require(len(part) <= SCALE)
        n = number(whole, 10) * 10 ** SCALE
        if part:
            n = n + number(part, 10) * 10 ** (SCALE - len(part))
            exact = exact and seconds
        if not timed and u[0] in ('Y', 'M'):
            exact = False
        total = total + n * u[1]
    return sign * total, exact


def precise(parts):
    """At most microseconds are given in the fraction of the seconds."""
    for timed, u, _, part in parts[1]:
        if timed and u[0] == 'S' and len(part) > 6:
            return False
    return True


def parse(text):
    c = code()
    errors = c.parse.Errors(10)
    got = c.frm.gr_from({'p': text}, 'r', errors)
    return got, errors


def read(req):
    """The text is read as the documented duration or refused."""
    text = req['text']
    parts = parts_of(text)
    # (an unexpected exception fails the operation)
    got, errors = parse(text)
    if parts is None or not precise(parts):
        return [('a text which is no duration is refused with an error',
                 got is None and not errors.empty())]
    want, exact = value_of(parts)
    # of the rounding of binary fractions
    off = 0 if exact else 10 ** SCALE + (abs(want) // 2 ** 46)
    low = -999999999 * DAY * 10 ** SCALE
    high = (10 ** 9 * DAY - 1) * 10 ** SCALE
    if got is None:
        return [('a duration which can be represented is accepted',
                 (want < low + off) | (want > high - off)),
                ('a refused duration is reported', not errors.empty())]
    diff = micros(got.p) * 10 ** SCALE - want
    return [('an accepted duration is not reported', errors.empty()),
            ('the duration is the one which is written',
             (diff <= off) & (diff >= -off))]


def again(req):
    """A printed duration is read as the same duration."""
    c = code()
    amount = req['sign'] * ((((
        req['days'] * 24 + req['hours']) * 60 + req['minutes']) * 60
        + req['seconds']) * 10 ** 6 + req['micro'])
    require(amount >= -999999999 * DAY)
    delta = difference(req['sign'], req['days'], req['hours'],
                       req['minutes'], req['seconds'], req['micro'])
    g = c.parse.placeholder_gr()
    g.p = delta
    text = c.to.serialize_gr(g)['p']
    parts = parts_of(text)
    if parts is None or not precise(parts):
        return [('the printed text is a duration', False)]
    want, exact = value_of(parts)
    got, errors = parse(text)
    if got is None:
        return [('the printed duration is accepted', False)]
    return [('the printed text denotes the duration',
             want == amount * 10 ** SCALE),
            ('the printed duration is read as the same duration',
             micros(got.p) == amount)]


OPS = {'read': read, 'again': again}


def newline(req):
    return req['text'].endswith('\n')


REGIONS = {'newline-after-duration': newline}


def run(name, req):
    return run_op(OPS[name], req)

"""Operations on the indentation of generated code (R01)."""
import mapry.indention
from opbase import Skip, require, run_op  # noqa: F401


def leading(line):
    """Number of blanks in front of the line."""
    n = 0
    while n < len(line) and line[n] == ' ':
        n = n + 1
    return n


def is_blank(line):
    """Nothing but blanks in the line (of text, without its end)."""
    return line.strip(' \t\n') == ''


def reindent(req):
    """Re-indentation keeps the lines and their depths."""
    text = req['text']
    level = req['level']
    indention = req['indention']
    result = mapry.indention.reindent(text=text, level=level,
                                      indention=indention)
    margin = None
    for line in text.split('\n'):
        if not is_blank(line):
            n = leading(line)
            # the margin of tabs is not specified
            require(line[n] != '\t')
            if margin is None or n < margin:
                margin = n
    if margin is None:
        margin = 0
    expected = []
    first = True
    for line in text.splitlines(keepends=True):
        # only \n ends a line of which the margin is taken away
        if first and is_blank(line):
            if line[len(line) - 1] == '\n':
                expected.append((0, 0, '\n'))
            continue
        n = leading(line)
        rest = line[n:]
        if first:
            n = n - margin
        expected.append((n // 4, n % 4, rest))
        first = line[len(line) - 1] == '\n'
    got = result.splitlines(keepends=True)
    claims = [('every line is kept', len(got) == len(expected))]
    if len(got) == len(expected):
        for line, (depth, rest, body) in zip(got, expected):
            claims.append(('lines change only in their indention',
                           line == indention * (level + depth) + ' ' * rest
                           + body))
    return claims


OPS = {'reindent': reindent}
REGIONS = {}


def run(op, req):
    return run_op(OPS[op], req)

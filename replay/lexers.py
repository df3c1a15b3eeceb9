"""Lexers of the targets, as far as texts are concerned.

``tokens(lang, text)`` gives a list of pairs: ('str', parts), ('com', text),
('word', text), ('op', character), ('nl', ''), ('indent', blanks) and, if the
text is malformed, ('error', why) as the last one.  The parts of a string are
its characters after the escape sequences are resolved.
"""
from opbase import number, plain_lines, unknown

BLANKS = ' \t'
WORD = ('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
HEX = '0123456789abcdefABCDEF'
ODD = '\x00'
SIMPLE = {'a': '\a', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t',
          'v': '\v', '\\': '\\', "'": "'", '"': '"'}


def one_of(c, chars):
    """The character is among the characters (without a branch)."""
    out = False
    for d in chars:
        out = (c == d) | out
    return out


def digits(text, i, count, chars):
    """End of at most that many digits."""
    j = i
    while j < len(text) and j - i < count and one_of(text[j], chars):
        j = j + 1
    return j


def code_unit(lang, v):
    """The character, or the byte if it is only a part of a character."""
    if lang != 'py' and v > 127:
        return (v, )
    return chr(v)


def decoded(parts):
    """Parts with the bytes decoded from UTF-8 (None: it is not UTF-8)."""
    out = []
    i = 0
    while i < len(parts):
        if isinstance(parts[i], str):
            out.append(parts[i])
            i = i + 1
            continue
        b = parts[i][0]
        if b < 0xc2 or b > 0xf4:
            return None
        if b < 0xe0:
            n, v = 1, b - 0xc0
        elif b < 0xf0:
            n, v = 2, b - 0xe0
        else:
            n, v = 3, b - 0xf0
        if i + n >= len(parts):
            return None
        for k in range(i + 1, i + n + 1):
            if isinstance(parts[k], str):
                return None
            b = parts[k][0]
            if b < 0x80 or b > 0xbf:
                return None
            v = v * 64 + b - 0x80
        if v >= 0xd800 and v <= 0xdfff:
            return None
        out.append(chr(v))
        i = i + n + 1
    return out


def escape(lang, text, i):
    """Escape sequence behind the backslash: (characters or None, end)."""
    if i >= len(text):
        return None, i
    c = text[i]
    for k, v in SIMPLE.items():
        if c == k:
            if lang == 'go' and k == "'":
                return None, i
            return v, i + 1
    if lang == 'cpp' and c == '?':
        return '?', i + 1
    if c == '\n' and lang in ('py', 'cpp'):
        return '', i + 1
    if c == 'x':
        j = digits(text, i + 1, 1000 if lang == 'cpp' else 2, HEX)
        if j == i + 1 or (lang != 'cpp' and j != i + 3):
            return None, i
        v = number(text[i + 1:j], 16)
        return code_unit(lang, v), j
    if c == 'u' or c == 'U':
        count = 4 if c == 'u' else 8
        j = digits(text, i + 1, count, HEX)
        if j != i + 1 + count:
            return None, i
        v = number(text[i + 1:j], 16)
        if v > 0x10ffff or (v >= 0xd800 and v <= 0xdfff):
            return None, i
        if lang == 'cpp' and v < 0xa0:
            return None, i
        return chr(v), j
    j = digits(text, i, 3, '01234567')
    if j > i:
        if lang == 'go' and j != i + 3:
            return None, i
        v = number(text[i:j], 8)
        return code_unit(lang, v), j
    if lang == 'py' and c != 'N':
        return '\\' + c, i + 1
    return None, i


def is_line_end(lang, c):
    if lang == 'go':
        return c == '\n'
    return (c == '\n') | (c == '\r')


def at(text, i, part):
    if i + len(part) > len(text):
        return False
    out = True
    for k, c in enumerate(part):
        out = (text[i + k] == c) & out
    return out


def trigraph(text, i):
    return i + 2 < len(text) and at(text, i, '??') and one_of(
        text[i + 2], "=/'()!<>-")


def quoted(lang, text, i, raw):
    """String which starts with the quote: (parts or None, end)."""
    q = text[i]
    out = []
    n = 1
    if lang == 'py' and at(text, i, q + q + q):
        n = 3
    if lang == 'go' and q == '`':
        i = i + 1
        while i < len(text):
            c = text[i]
            if c == '`':
                return out, i + 1
            if c == '\r':
                i = i + 1
                continue
            out.append(c)
            i = i + 1
        return None, i
    i = i + n
    while i < len(text):
        c = text[i]
        if at(text, i, q * n):
            return decoded(out), i + n
        if lang == 'cpp' and (trigraph(text, i) or (
                c == '\\' and trigraph(text, i + 1))):
            return None, i
        if n == 1 and is_line_end(lang, c):
            return None, i
        if c == '\\':
            if raw:
                if i + 1 >= len(text):
                    return None, i
                if n == 1 and is_line_end(lang, text[i + 1]):
                    return None, i
                out.append(c)
                out.append(text[i + 1])
                i = i + 2
                continue
            v, j = escape(lang, text, i + 1)
            if v is None:
                return None, i
            if v != '':
                out.append(v)
            i = j
            continue
        if n == 3 and c == '\r':
            c = '\n'
        out.append(c)
        i = i + 1
    return None, i


def cpp_raw(text, i):
    """C++ raw string whose delimiter starts at the position."""
    j = i
    while j < len(text) and text[j] != '(':
        if one_of(text[j], ' )\\\t\v\f\n\r') or j - i >= 16:
            return None, i
        j = j + 1
    end = ')' + text[i:j] + '"'
    out = []
    j = j + 1
    while j < len(text):
        if at(text, j, end):
            return out, j + len(end)
        if text[j] == '\r':
            return None, j
        out.append(text[j])
        j = j + 1
    return None, j


def malformed(lang, c):
    """The character must not occur anywhere in a source file."""
    if lang == 'go':
        return (c == '\x00') | (c == '\ufeff')
    return c == '\x00'


def scan(lang, text, i, depth, start, lines):
    """Tokens from the position on: (tokens, depth, start)."""
    out = []
    while i < len(text):
        if i in lines:
            line = lines[i]
            known = whole_line(lang, line, depth, start)
            if known is not None:
                toks, depth, start = known
                if len(toks) > 0 and toks[0][0] == 'nl' and (
                        len(out) == 0 or out[-1][0] == 'nl'):
                    toks = toks[1:]
                out.extend(toks)
                i = i + len(line)
                continue
        c = text[i]
        if lang == 'py' and start and depth == 0:
            k = i
            while k < len(text) and one_of(text[k], BLANKS):
                k = k + 1
            start = False
            if k < len(text) and not one_of(text[k], '#\n\r'):
                out.append(('indent', text[i:k]))
            i = k
            continue
        if is_line_end(lang, c):
            if depth == 0:
                if len(out) == 0 or out[-1][0] != 'nl':
                    out.append(('nl', ''))
                start = True
            i = i + 1
            continue
        if one_of(c, ' \t\r\f' if lang != 'cpp' else ' \t\v\f'):
            i = i + 1
            continue
        if c == '#' and lang == 'py' or (
                lang != 'py' and at(text, i, '//')):
            j = i
            while j < len(text) and not is_line_end(lang, text[j]):
                splice = 0
                if lang == 'cpp' and text[j] == '\\':
                    splice = 1
                elif lang == 'cpp' and at(text, j, '??/'):
                    splice = 3
                if splice:
                    k = j + splice
                    while k < len(text) and one_of(text[k], ' \t'):
                        k = k + 1
                    if k < len(text) and is_line_end(lang, text[k]):
                        # the next line belongs to the comment
                        j = k
                j = j + 1
            out.append(('com', text[i:j]))
            i = j
            continue
        if lang != 'py' and at(text, i, '/*'):
            j = i + 2
            while j < len(text) and not at(text, j, '*/'):
                j = j + 1
            if j >= len(text):
                out.append(('error', 'comment'))
                return out, depth, start
            out.append(('com', text[i:j + 2]))
            i = j + 2
            continue
        if one_of(c, WORD):
            j = i
            while j < len(text) and one_of(text[j], WORD):
                j = j + 1
            word = text[i:j]
            if j < len(text) and one_of(text[j], '"\''):
                low = word.lower()
                if lang == 'py' and low in ('r', 'u'):
                    parts, j = quoted(lang, text, j, low == 'r')
                    if parts is None:
                        out.append(('error', 'string'))
                        return out, depth, start
                    out.append(('str', parts))
                    i = j
                    continue
                if lang == 'cpp' and word == 'R':
                    parts, j = cpp_raw(text, j + 1)
                    if parts is None:
                        out.append(('error', 'string'))
                        return out, depth, start
                    out.append(('str', parts))
                    i = j
                    continue
            out.append(('word', word))
            i = j
            continue
        if c == '"' or (lang == 'py' and c == "'") or (
                lang == 'go' and c == '`'):
            parts, j = quoted(lang, text, i, False)
            if parts is None:
                out.append(('error', 'string'))
                return out, depth, start
            out.append(('str', parts))
            i = j
            continue
        if lang != 'py' and c == "'":
            # a character; nothing of the schema is one
            parts, j = quoted(lang + '-char', text, i, False)
            if parts is None:
                out.append(('error', 'character'))
                return out, depth, start
            out.append(('char', parts))
            i = j
            continue
        if not one_of(c, '()[]{}<>+-*/%=!&|^~.,:;?@#\\'):
            out.append(('error', 'character'))
            return out, depth, start
        if one_of(c, '([{'):
            depth = depth + 1
        elif one_of(c, ')]}'):
            depth = depth - 1
        out.append(('op', c))
        i = i + 1
    return out, depth, start


LINES = {}


def whole_line(lang, line, depth, start):
    """Tokens of a line if it stands for itself; None otherwise."""
    key = (lang, line, depth, start)
    if key not in LINES:
        toks, d, st = scan(lang, line, 0, depth, start, {})
        if (len(toks) > 0 and toks[-1][0] == 'error') or (
                line.rstrip().endswith(('\\', '??/'))):
            LINES[key] = None
        else:
            LINES[key] = (toks, d, st)
    return LINES[key]


def tokens(lang, text):
    for c in unknown(text):
        if malformed(lang, c):
            return [('error', 'character')]
    return scan(lang, text, 0, 0, True, plain_lines(text))[0]


def folded(lang, toks):
    """Neighbouring strings are joined; comments and lines are dropped."""
    out = []
    for kind, value in toks:
        if kind == 'com' or (lang != 'py' and kind == 'nl'):
            continue
        if kind == 'str' and len(out) > 0:
            if lang != 'go' and out[-1][0] == 'str':
                out[-1] = ('str', out[-1][1] + value)
                continue
            if lang == 'go' and len(out) > 1 and (
                    out[-1] == ('op', '+') and out[-2][0] == 'str'):
                out.pop()
                out[-1] = ('str', out[-1][1] + value)
                continue
        out.append((kind, value))
    return out


def printed(lang, toks):
    """Templates of messages are replaced by the text they stand for.

    The verbs become parts of their own, an impossible one ('error', ...).
    """
    out = []
    for i, (kind, value) in enumerate(toks):
        if kind == 'str':
            if lang == 'py' and i + 2 < len(toks) and (
                    toks[i + 1] == ('op', '.')
                    and toks[i + 2] == ('word', 'format')):
                value = braces(value)
            elif lang == 'py' and i + 1 < len(toks) and (
                    toks[i + 1] == ('op', '%')):
                value = percent(value)
            elif lang == 'go' and i > 1 and (
                    toks[i - 1] == ('op', '(')
                    and toks[i - 2][0] == 'word'
                    and (toks[i - 2][1] == 'Sprintf'
                         or toks[i - 2][1] == 'Errorf')):
                value = percent(value)
            if value is None:
                out.append(('error', 'template'))
                return out
        out.append((kind, value))
    return out


def braces(parts):
    out = []
    i = 0
    while i < len(parts):
        c = parts[i]
        if c == '{' or c == '}':
            if i + 1 >= len(parts):
                return None
            if parts[i + 1] == c:
                out.append(c)
                i = i + 2
                continue
            j = i
            verb = ''
            while j < len(parts) and parts[j] != '}':
                verb = verb + parts[j]
                j = j + 1
            if c == '}' or j >= len(parts):
                return None
            out.append(verb + '}')
            i = j + 1
            continue
        out.append(c)
        i = i + 1
    return out


def percent(parts):
    out = []
    i = 0
    while i < len(parts):
        if parts[i] == '%':
            if i + 1 >= len(parts):
                return None
            if parts[i + 1] == '%':
                out.append('%')
            else:
                j = i + 1
                while j < len(parts) and one_of(parts[j], '+-# 0123456789.'):
                    j = j + 1
                if j >= len(parts) or not one_of(parts[j], 'sdvfqrTtx'):
                    return None
                verb = '%'
                for c in parts[i + 1:j + 1]:
                    verb = verb + c
                out.append(verb)
                i = j + 1
                continue
            i = i + 2
            continue
        out.append(parts[i])
        i = i + 1
    return out

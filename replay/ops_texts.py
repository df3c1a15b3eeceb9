"""Operations on the texts in the generated code (L01, L02)."""
import lexers
import mapry.parse
import mapry.validation
from opbase import Skip, files_of, require, run_op  # noqa: F401

ORDER = {'py': ['__init__.py', 'parse.py', 'fromjsonable.py',
                'tojsonable.py'],
         'go': ['types.go', 'from_jsonable.go', 'to_jsonable.go'],
         'cpp': ['types.h', 'jsoncpp.h', 'jsoncpp.cpp']}
CACHE = {}


def settings():
    return {'cpp': {'namespace': 'a', 'path_as': 'std::filesystem::path',
                    'optional_as': 'std::optional',
                    'datetime_library': 'ctime'},
            'py': {'module_name': 'ab.c', 'path_as': 'str',
                   'timezone_as': 'str'},
            'go': {'package': 'ab'}}


def filled(x, mark, text):
    """The template with the text in place of the mark."""
    if isinstance(x, dict):
        return {k: filled(v, mark, text) for k, v in x.items()}
    if isinstance(x, list):
        return [filled(v, mark, text) for v in x]
    if isinstance(x, str) and mark in x:
        i = x.index(mark)
        return x[:i] + text + x[i + len(mark):]
    return x


def generated(mapping, lang):
    m = dict(mapping)
    m.update(settings())
    if lang == 'cpp' and 'cpp' in mapping:
        m['cpp'] = mapping['cpp']
    try:
        schema = mapry.parse.schema_from_mapping(mapping=m, ref='#')
    except mapry.validation.SchemaError:
        return None
    return files_of(schema, lang)


def read(lang, text):
    return lexers.printed(lang, lexers.folded(lang, lexers.tokens(
        lang, text)))


def reference(req, mark):
    key = (req['lang'], repr(req['template']))
    if key not in CACHE:
        CACHE[key] = generated(filled(req['template'], '@', mark),
                               req['lang'])
        files = CACHE[key]
        if files is not None:
            CACHE[key] = {n: (t, read(req['lang'], t))
                          for n, t in files.items()}
    return CACHE[key]


def same(parts, wanted):
    if len(parts) != len(wanted):
        return False
    out = True
    for x, y in zip(parts, wanted):
        out = (x == y) & out
    return out


def spelled(parts, mark, text):
    """Parts with the text in place of the mark."""
    out = []
    i = 0
    n = len(mark)
    while i < len(parts):
        if parts[i:i + n] == list(mark):
            out = out + text
            i = i + n
        else:
            out.append(parts[i])
            i = i + 1
    return out


def embedded(req):
    """The text stands in the code in place of the mark, unchanged."""
    lang = req['lang']
    mark = req['mark']
    wanted = reference(req, mark)
    require(wanted is not None)
    files = generated(filled(req['template'], '@', req['text']), lang)
    require(files is not None)
    text = list(req['text'])
    if lang == 'go' and req.get('format'):
        text = list(req['text'].replace('%%', '%'))
    claims = []
    count = 0
    for name in ORDER[lang]:
        if name not in files or name not in wanted:
            return [('{}: the files are the same'.format(lang), False)]
        source, ref = wanted[name]
        if files[name] == source:
            continue
        got = read(lang, files[name])
        if len(got) > 0 and got[-1][0] == 'error':
            return [('{}: strings are well-formed: {}'.format(lang, name),
                     False)]
        if len(got) != len(ref):
            return [('{}: only strings differ: {}'.format(lang, name),
                     False)]
        code = True
        kept = True
        for (k1, v1), (k2, v2) in zip(got, ref):
            if k1 != k2:
                code = False
            elif k1 == 'str':
                count = count + 1
                kept = same(v1, spelled(v2, mark, text)) & kept
            else:
                code = (v1 == v2) & code
        claims.append(('{}: only strings differ: {}'.format(lang, name),
                       code))
        claims.append(('{}: the strings denote the text: {}'.format(
            lang, name), kept))
    return claims + [('{}: the text is in the code'.format(lang), count > 0)]


def parts_of(lang, text):
    """Code and lines of the comments of a file: (tokens, lines)."""
    toks = lexers.tokens(lang, text)
    code = []
    lines = []
    for i, (kind, value) in enumerate(toks):
        if kind == 'com':
            if lang == 'py':
                lines.extend(value[1:].splitlines())
            elif value[1] == '*':
                lines.extend(value[2:-2].splitlines())
            else:
                lines.extend(value[2:].splitlines())
        elif kind == 'str' and lang == 'py' and (
                i == 0 or toks[i - 1][0] in ('indent', 'nl')) and (
                    i + 1 == len(toks) or toks[i + 1][0] == 'nl'):
            code.append(('doc', ''))
            lines.extend(''.join(value).splitlines())
        elif kind == 'nl' and (lang != 'py' or len(code) == 0
                               or code[-1][0] == 'nl'):
            continue
        else:
            code.append((kind, value))
    lines = [line.strip() for line in lines]
    return code, [line for line in lines if line != '']


def unwritable(lang, c):
    """No source file can hold the character."""
    return lexers.malformed(lang, c)


def begins(line, wanted, lang):
    """The line begins with the wanted one."""
    out = len(line) >= len(wanted)
    odd = False
    for c in lexers.unknown(wanted):
        odd = unwritable(lang, c) | odd
    if out:
        for c, d in zip(line, wanted):
            out = (c == d) & out
    return odd | out


def described(req):
    """The description stands in comments and docstrings only."""
    lang = req['lang']
    mark = req['mark']
    wanted = reference(req, mark)
    require(wanted is not None)
    files = generated(filled(req['template'], '@', req['text']), lang)
    claims = [('{}: the description is accepted'.format(lang),
               files is not None)]
    if files is None:
        return claims
    for name in ORDER[lang]:
        if name not in files or name not in wanted:
            return [('{}: the files are the same'.format(lang), False)]
        source = wanted[name][0]
        if files[name] == source:
            continue
        code, lines = parts_of(lang, files[name])
        if len(code) > 0 and code[-1][0] == 'error':
            return [('{}: the code is well-formed: {}'.format(lang, name),
                     False)]
        ref, ref_lines = parts_of(lang, source)
        same_code = len(code) == len(ref)
        if same_code:
            for (k1, v1), (k2, v2) in zip(code, ref):
                if k1 != k2:
                    same_code = False
                elif k1 == 'str':
                    same_code = same(v1, v2) & same_code
                else:
                    same_code = (v1 == v2) & same_code
        claims.append(('{}: the code does not depend on descriptions: {}'
                       .format(lang, name), same_code))
        expected = []
        for line in ref_lines:
            if mark in line:
                i = line.index(mark)
                full = line[:i] + req['text'] + line[i + len(mark):]
                full = [x.strip() for x in full.splitlines()]
                expected.extend(x for x in full if x != '')
            else:
                expected.append(line)
        kept = len(lines) == len(expected)
        if kept:
            for x, y in zip(lines, expected):
                kept = begins(x, y, lang) & kept
        claims.append(('{}: the comments hold the description: {}'.format(
            lang, name), kept))
    return claims


OPS = {'embedded': embedded, 'described': described}
REGIONS = {}


def run(op, req):
    return run_op(OPS[op], req)

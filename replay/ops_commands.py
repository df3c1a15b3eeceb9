"""Operations on the commands (I01)."""
import builtins
import collections
import contextlib
import io
import json
import os
import pathlib
import shutil
import sys
import tempfile

import mapry.main
import mapry.parse
import mapry.validation
from opbase import PASS, Skip, files_of, require, run_op  # noqa: F401

# the documented files of each target
FILES = {
    'cpp': ['types.h', 'parse.h', 'parse.cpp', 'jsoncpp.h', 'jsoncpp.cpp'],
    'go': ['types.go', 'parse.go', 'from_jsonable.go',
           'from_jsonable_test.go', 'to_jsonable.go',
           'to_jsonable_test.go'],
    'py': ['__init__.py', 'parse.py', 'fromjsonable.py', 'tojsonable.py']}
SETTINGS = {'cpp': {'namespace': 'a', 'path_as': 'std::filesystem::path',
                    'optional_as': 'std::optional',
                    'datetime_library': 'ctime'},
            'py': {'module_name': 'ab.c', 'path_as': 'str',
                   'timezone_as': 'str'},
            'go': {'package': 'ab'}}
REFUSED = {'cpp': ['namespace'], 'py': ['elif'], 'go': ['a_b', 'aB']}
TEXT = '\u00e9t\u00e9 \u20ac'
REAL_OPEN = io.open


def graph_of(req):
    m = {'name': 'Gr', 'description': 'is ' + TEXT + '.',
         'properties': {'p': {'type': 'string', 'description': 'is.',
                              'json': 'J' + TEXT}}}
    for lang in ('cpp', 'go', 'py'):
        if req['settings'][lang]:
            m[lang] = SETTINGS[lang]
    if req['schema'] == 'refused':
        # well-formed, but the names collide in each of the targets
        m['properties']['P'] = {'type': 'string', 'description': 'is.'}
    # names which a single target refuses
    for lang, names in REFUSED.items():
        if req['schema'] == 'refused by ' + lang:
            for name in names:
                m['properties'][name] = {'type': 'string',
                                         'description': 'is.'}
    if req['schema'] == 'malformed':
        m['properties']['p']['type'] = 'nothing'
    return m


def contents(path):
    """Files and directories below the path."""
    out = {}
    for p in path.rglob('*'):
        out[str(p.relative_to(path))] = (
            p.read_bytes() if p.is_file() else None)
    return out


@contextlib.contextmanager
def stand_ins(root, req, argv):
    """Files: failures and the encoding of the locale."""
    count = [0, 0]

    def opened(file, mode='r', buffering=-1, encoding=None, *a, **k):
        if isinstance(file, int) or not str(file).startswith(str(root)):
            return REAL_OPEN(file, mode, buffering, encoding, *a, **k)
        if 'b' not in mode and (encoding is None or encoding == 'locale'):
            encoding = req['locale']
        if 'w' in mode or 'a' in mode or 'x' in mode or '+' in mode:
            count[0] = count[0] + 1
            if count[0] == req['fail_at']:
                count[1] = 1
                raise OSError(28, 'No space left on device', str(file))
        return REAL_OPEN(file, mode, buffering, encoding, *a, **k)
    def text_encoding(encoding, stacklevel=2):
        return 'locale' if encoding is None else encoding
    old = sys.argv
    real_text_encoding = io.text_encoding
    sys.argv = argv
    io.text_encoding = text_encoding
    io.open = opened
    builtins.open = opened
    try:
        yield count
    finally:
        io.open = REAL_OPEN
        builtins.open = REAL_OPEN
        io.text_encoding = real_text_encoding
        sys.argv = old


def arguments(req, schema, outdir):
    args = []
    pairs = []
    if req['with_schema']:
        pairs.append(('--schema', str(schema)))
    if req['with_outdir']:
        pairs.append(('--outdir', str(outdir)))
    if req['swapped']:
        pairs.reverse()
    if req['with_command']:
        args.append(req['lang'])
    for k, v in pairs:
        if req['joined']:
            args.append(k + '=' + v)
        else:
            args.append(k)
            args.append(v)
    return args


def command(req):
    """A run of the command."""
    lang = req['lang']
    root = pathlib.Path(os.path.realpath(tempfile.mkdtemp(prefix='cmd')))
    try:
        (root / 's').mkdir()
        schema_pth = root / 's' / 'schema.json'
        mapping = graph_of(req)
        if req['schema'] == 'directory':
            schema_pth.mkdir()
        elif req['schema'] == 'no json':
            schema_pth.write_bytes(b'{"name": ')
        elif req['schema'] != 'missing':
            schema_pth.write_bytes(json.dumps(
                mapping, ensure_ascii=False).encode('utf-8'))
        outdir = root / 'o'
        if req['outdir'] == 'nested':
            outdir = root / 'o' / 'a' / 'b'
        if req['outdir'] in ('empty', 'used', 'old'):
            outdir.mkdir()
        if req['outdir'] == 'file':
            outdir.write_bytes(b'x')
        if req['outdir'] == 'used':
            (outdir / 'mine.txt').write_bytes(b'mine')
            (outdir / 'sub').mkdir()
            (outdir / 'sub' / FILES[lang][0]).write_bytes(b'mine')
        if req['outdir'] == 'old':
            for other in ('cpp', 'go', 'py'):
                for name in FILES[other]:
                    (outdir / name).write_bytes(b'old' * 100000)
        before = contents(root)
        out = io.StringIO()
        err = io.StringIO()
        raised = False
        with stand_ins(root, req, ['mapry-to'] + arguments(
                req, schema_pth, outdir)) as count, \
                contextlib.redirect_stdout(out), \
                contextlib.redirect_stderr(err):
            try:
                code = mapry.main.entry_point()
            except SystemExit as ex:
                code = ex.code
                if code is None:
                    code = 0
                elif isinstance(code, str):
                    err.write(code)
                    code = 1
            except Exception as ex:  # pylint: disable=broad-except
                if isinstance(ex, PASS):
                    raise
                raised = True
                code = 1
        after = contents(root)
        complete = bool(
            req['with_schema'] and req['with_outdir']
            and req['with_command'])
        good = complete and (
            (req['schema'] == 'good'
             or req['schema'].startswith('refused by')
             and not req['schema'].endswith(lang)) and bool(req['settings'][lang])
            and req['outdir'] != 'file')
        failed = count[1] == 1
        claims = [('the exit code tells about the failure',
                   (code == 0) == (good and not failed)),
                  ('a failure is told on the error stream',
                   code == 0 or raised or len(err.getvalue()) > 0),
                  ('a success is not told on the error stream',
                   code != 0 or err.getvalue() == '')]
        base = outdir.relative_to(root)
        mine = [str(base / name) for name in FILES[lang]]
        rest = {k: v for k, v in after.items() if k not in mine}
        dirs = [str(base)] + [str(p) for p in base.parents]
        claims.append((
            'nothing but the files of the target is written',
            all(before.get(k, b'-') == v or (v is None and k in dirs)
                for k, v in rest.items())
            and all(k in after for k in before)))
        if not good:
            claims.append((
                'nothing is written if the input is wrong',
                all(before.get(k) == after.get(k) for k in mine)))
        elif not failed:
            files = files_of(mapry.parse.schema_from_mapping(
                mapping=json.loads(
                    json.dumps(mapping),
                    object_pairs_hook=collections.OrderedDict), ref='#'),
                lang)
            claims.append(('all files of the target are written',
                           all(k in after for k in mine)))
            texts = True
            for name, k in zip(FILES[lang], mine):
                if after.get(k) != files.get(name, '').encode('utf-8'):
                    texts = False
            claims.append((
                'the files hold the generated code in UTF-8', texts))
            claims.append((
                'the generated code holds the names of the schema',
                all(('J' + TEXT).encode('utf-8') in after.get(k, b'')
                    for k in mine if 'jsonable' in k and 'test' not in k
                    or k.endswith('jsoncpp.cpp'))))
        return claims
    finally:
        shutil.rmtree(str(root), ignore_errors=True)


class Encoded:
    """Bytes of the text."""

    def __init__(self, text):
        self.text = text

    def decode(self, *a, **k):
        return self.text


class Text:
    """An open file with the text."""

    def __init__(self, text, mode):
        self.text = Encoded(text) if 'b' in mode else text

    def read(self, *a):
        return self.text

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


def marked(text, told):
    """The message shows a short line and a mark below the place."""
    try:
        json.loads(text)
    except json.JSONDecodeError as ex:
        line = text.split('\n')[ex.lineno - 1]
        if len(line) > 120:
            return True
        below = ''.join('\t' if c == '\t' else ' '
                        for c in line[:ex.colno - 1])
        return '\n' + line + '\n' + below + '^\n' in told
    return True


def broken(req):
    """A schema file with arbitrary text."""
    root = pathlib.Path(os.path.realpath(tempfile.mkdtemp(prefix='cmd')))

    def opened(file, mode='r', *a, **k):
        if not isinstance(file, int) and str(file) == str(path):
            return Text(req['text'], mode)
        return REAL_OPEN(file, mode, *a, **k)
    try:
        path = root / 'schema.json'
        path.write_bytes(b'?')
        io.open = opened
        builtins.open = opened
        try:
            mapry.parse.schema_from_json_file(path=path)
        except mapry.validation.SchemaError:
            return [('it raises SchemaError', True)]
        except RuntimeError as ex:
            if isinstance(ex, PASS):
                raise
            told = str(ex)
            return [('the error names the file', str(path) in told),
                    ('the mark stands under the place where the decoding '
                     'fails', marked(req['text'], told))]
        return [('it is a schema', True)]
    finally:
        io.open = REAL_OPEN
        builtins.open = REAL_OPEN
        shutil.rmtree(str(root), ignore_errors=True)


OPS = {'command': command, 'broken': broken}
REGIONS = {}


def run(op, req):
    return run_op(OPS[op], req)

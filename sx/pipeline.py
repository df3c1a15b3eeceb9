"""Runs the (instrumented) compiler of the repository on a schema mapping."""
import contextlib
import io
import math
import os
import pathlib
import shutil
import sys
import tempfile

from sx import instr, rt, strs
from sx.core import Sym, SymFloat, SymInt, Unsupported

instr.install()

import jsonschema  # noqa: E402

import mapry  # noqa: E402
import mapry.main  # noqa: E402
import mapry.parse  # noqa: E402
import mapry.validation  # noqa: E402

_REAL_VALIDATE = jsonschema.validate
_JS_MODEL = instr.load_copy('sx.js_model')


def sym_inside(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, dict):
        return any(sym_inside(k) or sym_inside(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return any(sym_inside(y) for y in x)
    return False


@rt.handler(jsonschema.validate)
def _js_validate(instance, schema, *a, **k):
    if not sym_inside(instance):
        return _REAL_VALIDATE(instance, schema, *a, **k)
    if a or k:
        raise Unsupported('options of jsonschema.validate')
    try:
        return _JS_MODEL.validate(instance, schema)
    except _JS_MODEL.Unknown as ex:
        raise Unsupported('JSON schema keyword: {}'.format(ex)) from ex


@rt.handler(math.isfinite)
def _isfinite(x):
    if isinstance(x, SymFloat):
        return True
    if isinstance(x, SymInt):
        lim = 2**1024 - 2**970
        if bool(x >= lim) or bool(x <= -lim):
            raise OverflowError('int too large to convert to float')
        return True
    return math.isfinite(x)


_CAPTURE = None


class Sink:
    """A file of the output directory which is open for writing."""

    sx_sink = True
    encoding = 'utf-8'
    closed = False

    def __init__(self, path, more=False):
        self.name = str(path)
        self.key = pathlib.Path(path).name
        if not more or self.key not in _CAPTURE:
            _CAPTURE[self.key] = ''

    def write(self, text):
        text = getattr(text, 'text', text)
        if isinstance(text, bytes):
            text = text.decode('utf-8')
        _CAPTURE[self.key] = strs.join('', [_CAPTURE[self.key], text])
        return 0

    def writelines(self, texts):
        for text in texts:
            self.write(text)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Quiet(io.TextIOBase):
    """The messages of the compiler; symbolic ones are not kept."""

    sx_sink = True

    def __init__(self):
        super().__init__()
        self.parts = []

    def write(self, text):
        self.parts.append(text if isinstance(text, str) else '?')
        return 0

    def getvalue(self):
        return ''.join(self.parts)


def _captured(path):
    return _CAPTURE is not None and isinstance(
        path, (str, os.PathLike)) and pathlib.Path(
            path).parent == _TMP[1]


def _write_text(path, text, *a, **k):
    if _captured(path):
        with Sink(path) as f:
            f.write(text)
        return len(text) if isinstance(text, str) else 0
    return path.write_text(text, *a, **k)


def _write_bytes(path, data):
    if _captured(path):
        with Sink(path) as f:
            f.write(data)
        return len(data)
    return path.write_bytes(data)


_REAL_OPEN = open


@rt.handler(open)
def _open(file, mode='r', *a, **k):
    if _captured(file) and any(c in mode for c in 'wxa'):
        return Sink(file, 'a' in mode)
    return _REAL_OPEN(file, mode, *a, **k)


def _path_open(path, mode='r', *a, **k):
    if _captured(path) and any(c in mode for c in 'wxa'):
        return Sink(path, 'a' in mode)
    return path.open(mode, *a, **k)


for _t in (pathlib.Path, pathlib.PosixPath):
    rt.METHODS[(_t, 'write_text')] = _write_text
    rt.METHODS[(_t, 'write_bytes')] = _write_bytes
    rt.METHODS[(_t, 'open')] = _path_open


class CompileError(Exception):
    """The compiler refused the schema."""

    def __init__(self, what):
        super().__init__(what)
        self.what = what


_TMP = None


def tmpdir():
    global _TMP
    if _TMP is None or not _TMP[1].is_dir():
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        d = tempfile.mkdtemp(prefix='sx', dir=base)
        _TMP = (d, pathlib.Path(d) / 'out')
        _TMP[1].mkdir()
        import atexit
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _TMP[1]


def forget_tmpdir():
    global _TMP
    _TMP = None


def schema_of(mapping):
    """Parsed schema; raises mapry.validation.SchemaError."""
    return mapry.parse.schema_from_mapping(mapping=mapping, ref='#')


def generate(schema, lang):
    """Files of the generated code: {name: text}."""
    global _CAPTURE
    fn = getattr(mapry.main, 'generate_' + lang)
    _CAPTURE = {}
    err = Quiet()
    out = tmpdir()
    try:
        with contextlib.redirect_stdout(Quiet()), \
                contextlib.redirect_stderr(err):
            code = fn(schema=schema, outdir=out)
        files = _CAPTURE
    finally:
        _CAPTURE = None
    if code != 0:
        raise CompileError(err.getvalue() or 'exit code {}'.format(code))
    for p in sorted(out.rglob('*')):
        if p.is_file():
            files.setdefault(p.name, p.read_text())
            p.unlink()
    return files


def compile_mapping(mapping, lang):
    try:
        schema = schema_of(mapping)
    except mapry.validation.SchemaError as err:
        raise CompileError(str(err)) from err
    return generate(schema, lang)

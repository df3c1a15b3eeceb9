"""Support of the operations which are checked one function at a time.

An operation is a plain function ``op(request)`` which calls the code under
test and gives claims ``(text, condition)``.  The same source runs twice: on
symbolic requests (instrumented, see ``sx.fn``) and on the concrete requests
of counterexamples (as it is, see ``fn_driver``).
"""


class Skip(BaseException):
    """The request is outside of the precondition."""


def require(cond):
    if not cond:
        raise Skip()


# exceptions which are not the business of the code under test
PASS = ()


def describe(ex):
    return type(ex).__name__


def run_op(fn, req):
    try:
        return fn(req)
    except Exception as ex:  # pylint: disable=broad-except
        if isinstance(ex, PASS):
            raise
        return [('it does not raise {}'.format(describe(ex)), False)]


def files_of(schema, lang):
    """Generated files of the schema, or None if the target refuses it."""
    import contextlib
    import io
    import pathlib
    import shutil
    import tempfile

    import mapry.main
    tmp = tempfile.mkdtemp(prefix='replay')
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            code = getattr(mapry.main, 'generate_' + lang)(
                schema=schema, outdir=pathlib.Path(tmp))
        if code != 0:
            return None
        out = {}
        for p in pathlib.Path(tmp).iterdir():
            with open(str(p), newline='') as f:
                out[p.name] = f.read()
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def unknown(text):
    """Characters of the text which matter for its well-formedness."""
    return [c for c in text if c in '\x00\ufeff']


def plain_lines(text):
    """Lines by their position, as far as they are known."""
    out = {}
    i = 0
    for line in text.split('\n')[:-1]:
        out[i] = line + '\n'
        i += len(line) + 1
    return out


def digit_value(c):
    k = ord(c)
    if k <= 57:
        return k - 48
    if k <= 70:
        return k - 55
    return k - 87


def number(digits, base):
    """The number the digits denote."""
    v = 0
    for c in digits:
        v = v * base + digit_value(c)
    return v


class Loaded:
    pass


def load_python(schema, module):
    """The generated Python package."""
    import importlib
    import os
    import shutil
    import sys
    import tempfile
    files = files_of(schema, 'py')
    root = module.split('.')[0]
    for name in list(sys.modules):
        if name == root or name.startswith(root + '.'):
            del sys.modules[name]
    tmp = tempfile.mkdtemp(prefix='replay')
    sys.path.insert(0, tmp)
    try:
        d = tmp
        for part in module.split('.'):
            d = os.path.join(d, part)
            os.mkdir(d)
            open(os.path.join(d, '__init__.py'), 'w').close()
        for name, text in files.items():
            with open(os.path.join(d, name), 'w', encoding='utf-8') as f:
                f.write(text)
        importlib.invalidate_caches()
        out = Loaded()
        out.types = importlib.import_module(module)
        out.parse = importlib.import_module(module + '.parse')
        out.frm = importlib.import_module(module + '.fromjsonable')
        out.to = importlib.import_module(module + '.tojsonable')
        return out
    finally:
        sys.path.remove(tmp)
        shutil.rmtree(tmp, ignore_errors=True)


def micros(delta):
    """Microseconds of a difference of times."""
    return (delta.days * 86400 + delta.seconds) * 10 ** 6 + delta.microseconds


def difference(sign, days, hours, minutes, seconds, micro):
    """Difference of times of the sign and the parts within their bounds."""
    import datetime
    return sign * datetime.timedelta(
        days=days, hours=hours, minutes=minutes, seconds=seconds,
        microseconds=micro)

"""Symbolic execution of the generated Go package."""
import json

import z3

from sx import gort, gosrv, gotrans, pyexec, strs
from sx.core import Unsupported, engine

_DUMPS = {}
_CODE = {}


class TypeErrors(Exception):
    """The generated package does not compile."""


def dump(files):
    key = tuple(sorted(files.items()))
    d = _DUMPS.get(key)
    if d is None:
        if len(_DUMPS) > 60:
            _DUMPS.clear()
            _CODE.clear()
        d = _DUMPS[key] = gosrv.ask(files)
    return key, d


class Package:
    """The generated package, translated and loaded."""

    def __init__(self, files, stub_durations=True, lib=None):
        files = {n: t for n, t in files.items()
                 if n.endswith('.go') and not n.endswith('_test.go')}
        key, d = dump(files)
        if 'errors' in d:
            raise TypeErrors('; '.join(d['errors'])[:600])
        ent = _CODE.get(key)
        if ent is None:
            src, index = gotrans.Tr(d).package()
            ent = _CODE[key] = (compile(src, '<go>', 'exec'), index, src)
        code, index, self.source = ent
        self.ty = gort.Types(d['types'])
        self.named = dict((n, t) for n, t in d['named'] or ())
        gort._bind(self.ty)
        self.ns = {'R': gort, 'TY': self.ty}
        exec(code, self.ns)
        self.index = {(r, n): py for n, r, py in index}
        if stub_durations:
            for n, f in (('durationFromString', dur_from),
                         ('durationToString', dur_to)):
                py = self.index.get(('', n))
                if py is not None:
                    self.ns[py] = f

    def func(self, name, recv=''):
        n = self.index.get((recv, name))
        return None if n is None else self.ns[n]

    def type(self, name):
        return self.ty[self.named[name]]


def dur_from(s):
    t = strs.term_of(s)
    if engine().branch(pyexec.dur_ok()(t)):
        return pyexec.Dur(pyexec.PARSE_DUR(t)), None
    return 0, gort.GoError(gort._text('err'))


def dur_to(d):
    if isinstance(d, pyexec.Dur):
        return strs.opaque(pyexec.PRINT_DUR(d.z), ('dur', d))
    raise Unsupported('a duration which was not parsed')

"""Registry of the checks: property -> how it is decided."""
import os
import time

from sx import harness

CHECKS = {}


class Check:
    def __init__(self, prop, units, level, bounds, what, assumptions=(),
                 limit=(240, 1500), total=(560, 5400),
                 before=None):
        self.prop = prop
        self.units = units
        self.level = level
        self.bounds = bounds
        self.what = what
        self.assumptions = assumptions
        self.limit = limit
        self.before = before
        self.total = total

    def run(self, tier, seed, pattern=None, log=None):
        t = time.time()
        deep = tier == 'thorough'
        if self.before is not None:
            self.before()
        units = self.units(deep)
        if pattern:
            units = [u for u in units if pattern in u.name]
        reports = harness.run_units(units, self.limit[deep],
                                    self.total[deep], log=log)
        return harness.finish(
            self.prop, tier, seed, reports, t, self.level,
            self.bounds[deep] if isinstance(self.bounds, tuple)
            else self.bounds, assumptions=self.assumptions, what=self.what)


def register(c):
    CHECKS[c.prop] = c
    return c


def conformance(prop, aspects, what, lang='py'):
    from sx import conform_py

    def units(deep):
        return conform_py.units(prop, aspects, harness.known_findings(prop),
                                deep, lang)

    def before():
        if lang == 'go':
            from sx import gosrv
            gosrv.start()
    return register(Check(
        prop, units, 'model_checking', conform_py.BOUNDS, what,
        {'py': conform_py.ASSUMPTIONS, 'go': conform_py.GO_ASSUMPTIONS,
         'cpp': conform_py.CPP_ASSUMPTIONS}[lang],
        before=before))


conformance('C01', ['accept', 'raise'],
            'The real compiler runs on schemas with symbolic bounds and sizes '
            'and the Python package it generates is executed symbolically on '
            'JSON values with symbolic kinds and contents; on every path the '
            'solver decides whether the outcome agrees with the reference '
            'semantics of the schema.')
conformance('C02', ['value'],
            'On every accepting path of the generated parser the object graph '
            'is compared, as a formula over the symbolic input, with the '
            'values, references and kinds of mappings of the input.')
conformance('C03', ['roundtrip'],
            'On every accepting path the generated serialiser is executed '
            'symbolically on the parsed graph and its output is compared with '
            'the canonical representation of the input.')
conformance('C04', ['refs'],
            'On every rejecting path the reported references are compared '
            'with the set of offending locations of the symbolic input.')

GO = ('The real compiler runs on schemas with symbolic bounds and sizes, the '
      'Go package it generates is parsed and type-checked by the packages of '
      'Go, translated and executed symbolically on JSON values with symbolic '
      'kinds and contents; ')
conformance('G01', ['accept', 'raise'], GO + 'on every path the solver '
            'decides whether the outcome agrees with the reference semantics '
            'of the schema.', 'go')
conformance('G02', ['value'], GO + 'on every accepting path the object graph '
            'is compared with the values and references of the input.', 'go')
conformance('G03', ['roundtrip'], GO + 'on every accepting path the '
            'serialiser is executed on the parsed graph and its output is '
            'compared with the canonical representation of the input.', 'go')
conformance('G04', ['refs'], GO + 'on every rejecting path the reported '
            'references are compared with the offending locations.', 'go')


CPP = ('The real compiler runs on schemas with symbolic bounds and sizes, '
       'the C++ code it generates is parsed and type-checked by clang and its '
       'syntax tree is executed symbolically on JSON values with symbolic '
       'kinds and contents; ')
conformance('X01', ['accept', 'raise'], CPP + 'on every path the solver '
            'decides whether the outcome agrees with the reference semantics '
            'of the schema.', 'cpp')
conformance('X02', ['value'], CPP + 'on every accepting path the object graph '
            'is compared with the values and references of the input.', 'cpp')
conformance('X03', ['roundtrip'], CPP + 'on every accepting path the '
            'serialiser is executed on the parsed graph and its output is '
            'compared with the canonical representation of the input.', 'cpp')
conformance('X04', ['refs'], CPP + 'on every rejecting path the reported '
            'references are compared with the offending locations.', 'cpp')


def functions(prop, cases, what, bounds, assumptions=()):
    def units(deep):
        from sx import fn
        return fn.units(prop, cases(deep), harness.known_findings(prop))
    return register(Check(prop, units, 'model_checking', bounds, what,
                          tuple(assumptions) + FN_ASSUMPTIONS))


FN_ASSUMPTIONS = (
    'characters are code points up to U+02FF',
    'the Python semantics of strings, regular expressions and formatting is '
    'modelled by sx.strs and sx.rt; every counterexample and a witness of '
    'every family of requests run on the real package',
)


def _names(deep):
    from sx import cases
    return cases.names(deep)


def _s02(deep):
    from sx import cases
    return cases.schemas_s02(deep)


def _s01(deep):
    from sx import cases, rt
    rt.SymPattern.hook = rt.SymPattern
    return cases.schemas_s01(deep)


functions('S01', _s01,
          'The real parser of schemas runs on well-formed schemas with '
          'symbolic names, texts, numbers, flags, formats and references; on '
          'every path the solver decides whether the parsed definition says '
          'what the schema says.',
          ('one property of every type at 9 places, with all combinations of '
           'its constraints (symbolic numbers; texts of up to 3 symbolic '
           'characters), up to 2 composites and 2 cross references in every '
           'order, all settings of the targets with texts of up to 2 '
           'symbolic characters',
           'as quick, at 15 places and with up to 3 composites'),
          ('the library jsonschema is modelled for the keywords used by the '
           'repository', 'symbolic patterns consist of letters'))
def _s03(deep):
    from sx import cases
    return cases.schemas_s03(deep)


functions('S03', _s03,
          'The real searches for types and references run on the parsed '
          'definitions of schemas whose composites name each other by '
          'symbolic names; the solver decides on every path whether the '
          'answers agree with reachability in the schema.',
          ('up to 4 composites with up to 4 properties which name arbitrary '
           'composites (all cross references and cycles), every scalar type '
           'at 20 places',
           'as quick'),
          ('the library jsonschema is modelled for the keywords used by the '
           'repository', ))
def _s04(deep):
    from sx import cases
    return cases.targets_s04(deep)


functions('S04', _s04,
          'The real validations for Python, Go and C++ run on schemas with '
          'symbolic names at every pair of places which share a scope; on '
          'every path the solver decides whether the schema is refused '
          'exactly if names collide or are reserved.',
          ('two names of up to 3 and 2 symbolic characters at a time; 44 '
           'reserved words in every combination of upper and lower case at '
           'every place',
           'names of up to 4 and 3 symbolic characters; the same reserved '
           'words'),
          ('C++: overloads of functions for composites which differ in case '
           'only, and words of C++20 and of technical specifications, are '
           'not specified', ))
def _t01(deep):
    from sx import cases
    return cases.formats(deep)


functions('T01', _t01,
          'The real validation of schemas, the validations for Python and Go '
          'and the conversion to layouts of Go run on formats with symbolic '
          'characters; the solver decides on every path whether the format '
          'is admitted exactly if it is one of the documented ones, and '
          'whether the scanner of layouts of Go finds the directives and '
          'nothing else.',
          ('formats of up to 4 symbolic characters, 2 and 3 symbolic '
           'directives with text in between, every directive with up to 3 '
           'symbolic characters of text around it, everything which Go '
           'recognises in a layout with a symbolic character next to it or '
           'in place of one of its characters',
           'formats of up to 5 symbolic characters, text of up to 4 symbolic '
           'characters and every pair of directives with text around them'),
          ('the scanner of layouts (nextStdChunk of the package time) is '
           'restated in replay/ops_formats.py', 'what strptime and strftime '
           'of Python and of C do with a supported directive is trusted'))
def _l01(deep):
    from sx import cases, rt
    rt.SymPattern.hook = rt.SymPattern
    return cases.texts_l01(deep)


functions('L01', _l01,
          'The real generators run on schemas with symbolic texts; the '
          'generated files are read with symbolic lexers of the targets and '
          'the solver decides on every path whether they differ from the '
          'files for a plain text only in strings which denote the text.',
          ('one or two arbitrary characters of the Basic Multilingual Plane, '
           'alone and next to about 25 delimiters of the targets, in JSON '
           'names, patterns and formats, at 33 places',
           'one to three characters, all combinations of places and '
           'delimiters'),
          ('lexers of the targets: replay/lexers.py', 'surrogates can not be '
           'written to files and are left out', 'symbolic characters of '
           'patterns are such that the pattern is a regular expression'))
def _l02(deep):
    from sx import cases
    return cases.texts_l02(deep)


functions('L02', _l02,
          'The real generators run on schemas with symbolic descriptions; '
          'the generated files are read with symbolic lexers of the targets '
          'and the solver decides on every path whether the code is the one '
          'for a plain description and the comments and docstrings hold the '
          'lines of the description.',
          ('one arbitrary character of the Basic Multilingual Plane, two '
           'ASCII characters, one ASCII character next to 33 delimiters of '
           'the targets, in the descriptions at 13 places',
           'one to three characters, all combinations of places and '
           'delimiters'),
          ('lexers of the targets: replay/lexers.py', 'surrogates can not be '
           'written to files and are left out', 'blanks at the ends of lines '
           'and blank lines are not specified', 'characters which no source '
           'file of the target can hold (NUL, for Go also the byte order '
           'mark) may be replaced'))
def _r01(deep):
    from sx import cases
    return cases.indents(deep)


functions('R01', _r01,
          'The real re-indentation runs on texts with symbolic characters; '
          'the solver decides on every path whether every line is kept and '
          'is indented by its depth.',
          ('up to 3 arbitrary characters; up to 3 lines with up to 9 blanks '
           'in front and one or two arbitrary characters; levels 0 to 3; '
           'four indentions',
           'up to 4 arbitrary characters, up to 13 blanks'),
          ('lines which are indented with tabs are not specified', ))
def _i01(deep):
    from sx import cases
    return cases.commands(deep)


functions('I01', _i01,
          'The real command runs with symbolic arguments, settings, states '
          'of the schema and of the output directory, failing writes and '
          'encodings of the locale, in a scratch directory; the solver '
          'explores all combinations and decides on every path whether the '
          'exit code, the error stream and the files agree.',
          ('all combinations of the arguments; 9 states of the schema file, '
           '6 states of the output directory, all combinations of the '
           'settings; every write may fail; 4 encodings of the locale; '
           'schema files of up to 2 arbitrary characters and with one '
           'arbitrary character next to 6 texts',
           'schema files of up to 3 arbitrary characters'),
          ('the graph has one property', 'failing reads and failures while '
           'a file is written are not modelled', 'argparse and the file '
           'system run as they are'))
def _d01(deep):
    from sx import cases
    return cases.durations(deep)


functions('D01', _d01,
          'The generated parser and serializer of durations run on texts with '
          'symbolic characters and on symbolic durations; the solver decides '
          'on every path whether the text is read as the documented '
          'duration or refused, and whether a printed duration is read as '
          'the same one.',
          ('texts of up to 4 characters below U+0300, up to 3 arbitrary '
           'ASCII characters next to 12 beginnings and ends, one unit with '
           'up to 16 symbolic digits and up to 7 fraction digits, all '
           'combinations of units with up to 2 digits each; all durations '
           'of datetime.timedelta',
           'texts of up to 5 characters, up to 4 next to the beginnings and '
           'ends, 3 digits each'),
          ('binary fractions are exact reals: values of fractions, years and '
           'months are compared within a microsecond and 2^-46 of the value',
           'datetime.timedelta is modelled (sx/delta.py)'))


def _p01(deep):
    from sx import cases
    return cases.objects(deep)


functions('P01', _p01,
          'The generated constructors, placeholders and serializers run on '
          'symbolic arguments for every choice of the optional arguments; '
          'the solver decides for all values, the falsy ones included, that '
          'the attributes are what was given.',
          ('composites with up to 3 properties, every pattern of optional '
           'properties and of given arguments, booleans, arbitrary integers, '
           'reals up to 2^20, texts of up to 2 characters, arrays and maps '
           'of up to one element; two classes with registries which are left '
           'out, empty or of one instance',
           'composites with up to 4 properties'),
          ('floating-point numbers are exact reals', ))
functions('N01', _names,
          'The conversions of names run symbolically on names whose '
          'characters are symbolic and which the real validation admits; the '
          'solver decides for every path whether the result is the '
          'documented one.',
          ('names of up to 5 symbolic characters, irregular words with up to '
           '4 symbolic characters in front or behind',
           'names of up to 7 symbolic characters, irregular words with up to '
           '4 symbolic characters in front or behind'))
functions('S02', _s02,
          'The real parser and validation of schemas run on schemas parts of '
          'which are replaced by arbitrary JSON values, names, texts and '
          'numbers; on every path the solver decides whether the schema is '
          'accepted exactly if the rules of the documentation hold, and that '
          'nothing but the schema error is raised.',
          ('one part of the schema is arbitrary at a time (any kind of JSON '
           'value, texts of up to 4 symbolic characters, one level of '
           'nesting), bounds are arbitrary integers and reals up to 2^20, '
           'formats have up to 3 symbolic characters',
           'as quick, with types nested up to two levels and formats of up '
           'to 4 symbolic characters'),
          ('the library jsonschema is modelled for the keywords used by the '
           'repository', 'validity of a regular expression is decided for '
           'listed patterns only'))


def main(argv):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('id')
    p.add_argument('path', nargs='?')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--filter')
    p.add_argument('--verbose', action='store_true')
    a = p.parse_args(argv)
    if a.id == 'replay':
        return harness.replay(a.path)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    log = None
    if a.verbose:
        def log(r):
            print('%-50s %6.1fs paths %5d obl %5d q %6d solver %5.1f '
                  'v%d u%d i%d' % (
                      r.name, r.wall, r.stats['paths'],
                      r.stats['obligations'], r.stats['queries'],
                      r.stats['solver_s'], len(r.violations),
                      len(r.unconfirmed), len(r.inconclusive)), flush=True)
    return CHECKS[a.id].run(a.tier, seed, a.filter, log)

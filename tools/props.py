#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the real code with an SMT solver (z3)'
PROPS = []


def prop(id, title, statement, over, text, cant, files, mech, claim=None,
         na=None, level='model_checking', observe=()):
    assert len(title) <= 80, title
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, text=text,
        cant=cant, files=files, mech=mech, claim=claim, na=na, level=level,
        observe=list(observe)))


PY_FILES = ['mapry/py/generate/fromjsonable.py', 'mapry/py/generate/parse.py',
            'mapry/py/generate/types.py', 'mapry/parse.py']
GO_FILES = ['mapry/go/generate/fromjsonable.py', 'mapry/go/generate/parse.py',
            'mapry/go/generate/types.py', 'mapry/parse.py']
CPP_FILES = ['mapry/cpp/generate/jsoncpp_impl.py',
             'mapry/cpp/generate/types_header.py',
             'mapry/cpp/generate/parse_impl.py', 'mapry/parse.py']
SCOPE = ('all schemas of the stated structures (symbolic bounds and sizes, '
         'optional or not, renamed or not) and all JSON values of the stated '
         'shape: every kind at every place, all numbers, strings by '
         'arbitrary predicates, all combinations of present members')
CANT = ('quantifies over schemas and over input values; the tests compare the '
        'generated text with stored text for 67 schemas and run a handful of '
        'inputs on a few of them')

for lang, L, files, claim, fn in (
        ('Python', 'C', PY_FILES, True,
         'graph parser and per-type templates of mapry.py.generate.'
         'fromjsonable'),
        ('Go', 'G', GO_FILES, True,
         'graph parser and per-type templates of mapry.go.generate.'
         'fromjsonable'),
        ('C++', 'X', CPP_FILES, True,
         'graph parser and per-type templates of mapry.cpp.generate.'
         'jsoncpp_impl')):
    to = [f.replace('fromjsonable', 'tojsonable') for f in files[:1]]
    na = None
    prop(L + '01', lang + ' parser accepts exactly the conforming values',
         'For every well-formed schema, the generated {} parser accepts a '
         'JSON value (reports no error) exactly when the value conforms to '
         'the schema: kinds, inclusive and exclusive bounds, sizes, patterns, '
         'formats, identifier patterns, references to existing instances and '
         'presence of the members that are not optional. It reports errors '
         'for all other values and never fails in another way.'.format(lang),
         ['inputs', 'programs'], SCOPE, CANT, files,
         [{'name': fn, 'where': files[0]}], claim, na,
         observe=['the errors collected by the generated parser'])
    prop(L + '02', lang + ' objects represent the parsed value',
         'When the generated {} parser accepts a value, the object graph '
         'carries exactly the data of the value: every attribute holds the '
         'value of its own member, optional members which are absent are '
         'unset, arrays and maps hold all their items, instances are '
         'registered under their identifiers and references denote the very '
         'instance of the registry{}.'.format(
             lang, ', and ordered mappings stay ordered' if L == 'C' else ''),
         ['inputs', 'programs'], SCOPE, CANT, files,
         [{'name': fn, 'where': files[0]}], claim, na,
         observe=['the attributes of the parsed objects'])
    prop(L + '03', lang + ' serialisation reproduces the parsed value',
         'Serialising with the generated {} code the object graph which was '
         'parsed from a conforming value gives back a value which equals the '
         'parsed one up to the canonical form of dates, durations and paths: '
         'the same members under the same (JSON) names, absent optional '
         'members absent, references as identifiers{}.'.format(
             lang, ', in ordered or unordered mappings as asked'
             if L == 'C' else ''),
         ['inputs', 'programs'], SCOPE, CANT, to + files,
         [{'name': 'per-type serialisation templates', 'where': to[0]}],
         claim, na, observe=['the serialised JSON value'])
    prop(L + '04', lang + ' errors point at the offending locations',
         'Every error of the generated {} parser refers to a location of the '
         'value which violates the schema; the number of errors never exceeds '
         'the cap of the error collector; as long as the cap is not reached, '
         'every outermost violation is reported.'.format(lang),
         ['inputs', 'programs'], SCOPE, CANT, files,
         [{'name': 'references and cap of the error collector',
           'where': files[1]}], claim, na,
         observe=['references and number of the errors'])

NOT_YET = 'under construction'

prop('S01', 'Parsing a schema keeps everything the schema says',
     'The object graph definition which is parsed from a well-formed schema '
     'states exactly what the schema states: the composites and properties '
     'in their order, their names, JSON names, plurals, descriptions, types '
     'with all constraints, optionality, identifier patterns and target '
     'settings. References between composites resolve to the very composite '
     'of the name, whatever the order of the definitions.',
     ['inputs', 'programs'],
     'all structures of schemas within the bounds, with symbolic numbers, '
     'flags and texts',
     'the tests parse a few dozens of stored schemas and mostly compare the '
     'final generated text',
     ['mapry/parse.py', 'mapry/__init__.py'],
     [{'name': 'schema_from_mapping, _graph_from_mapping, '
               '_recurse_type_from_mapping, need_* predicates',
       'where': 'mapry/parse.py'}], True,
     observe=['mapry.parse.schema_from_mapping'])
prop('S02', 'Malformed schemas are refused, and only they',
     'Parsing a JSON value as a schema either succeeds or raises the '
     'documented schema error; it raises no other exception. A schema with '
     'contradictory or misplaced constraints, unknown types, missing or '
     'additional members, or malformed names is refused; a schema without '
     'such a defect is accepted.',
     ['inputs', 'programs'],
     'all JSON values obtained from well-formed schemas by replacing, '
     'removing or adding members at any place, with symbolic numbers and '
     'names',
     'the tests hold some 40 stored malformed schemas',
     ['mapry/validation.py', 'mapry/parse.py', 'mapry/schemas/mapry.json'],
     [{'name': 'JSON schema and recursive validation of properties',
       'where': 'mapry/validation.py'}], True,
     observe=['mapry.parse.schema_from_mapping raising SchemaError'])
prop('S03', 'Searches in a definition find all types and references',
     'The searches which the generators rely on are exact for every '
     'definition, whatever composites refer to or embed each other: a type '
     'is reported as needed exactly if it occurs in the composite or in '
     'anything it reaches; the referenced classes are exactly the reachable '
     'classes, once each and ordered by name; the traversal of the types '
     'visits every definition of a type once, under its reference path.',
     ['programs'],
     'all cross references, cycles included, of up to four composites and '
     'all places of all types',
     'the tests exercise the searches on stored schemas without cycles '
     'through embeddable structures',
     ['mapry/__init__.py'],
     [{'name': 'needs_type, references, iterate_over_types',
       'where': 'mapry/__init__.py'}], True,
     observe=['mapry.needs_type', 'mapry.references',
              'mapry.iterate_over_types'])
prop('S04', 'Colliding and reserved names are refused for every target',
     'A schema whose names would be mapped to the same identifier of a '
     'target language in one scope, or to a keyword or a reserved name of '
     'the target, is refused by the validation for this target before any '
     'code is generated; a schema without such a collision is accepted.',
     ['inputs', 'programs'],
     'all pairs of names (symbolic characters up to the stated length) at '
     'all pairs of places of the schema which share a scope',
     'the tests hold one stored schema per kind of collision',
     ['mapry/cpp/validation.py', 'mapry/go/validation.py',
      'mapry/py/validation.py', 'mapry/validation.py'],
     [{'name': 'validate_schema of each target', 'where':
       'mapry/py/validation.py, mapry/go/validation.py, '
       'mapry/cpp/validation.py'}], True)
prop('N01', 'Identifiers of the targets are well-formed and predictable',
     'For every name which the schema validation admits, the conversions to '
     'identifiers (camel case, composite, field, attribute, variable and '
     'plural names) give a non-empty legal identifier of the target and '
     'never fail; they keep all letters and digits of the name in their '
     'order, capitalised as documented.',
     ['inputs'], 'all admitted names up to the stated length, character by '
     'character', 'the tests are a few doctests per function',
     ['mapry/naming.py', 'mapry/cpp/naming.py', 'mapry/py/naming.py'],
     [{'name': 'camel_case, ucamel_case, plural, json_plural, as_*',
       'where': 'mapry/naming.py, mapry/*/naming.py'}], True)
prop('T01', 'Date and time formats mean the same for every target',
     'A format is admitted by the schema validation exactly if it consists '
     'of literal text and supported directives. For every format which the '
     'validation for Go admits, the generated Go layout formats and parses '
     'dates and times like strftime does for the directives of the format; '
     'formats whose text Go would misread are refused when Go code is '
     'generated, and formats which strptime can not parse when Python code '
     'is generated; other formats are not refused.',
     ['inputs'], 'all formats of the stated number of tokens, with symbolic '
     'directives and literal characters',
     'the tests convert a fixed list of formats',
     ['mapry/strftime.py', 'mapry/go/timeformat.py', 'mapry/validation.py'],
     [{'name': 'tokenisation and conversion of formats',
       'where': 'mapry/strftime.py, mapry/go/timeformat.py'}], True)
prop('L01', 'Texts of the schema are embedded in the code without a change',
     'Whatever characters a pattern, a format, a JSON name or an error '
     'message contains, the literal which is generated for it in Python, Go '
     'or C++ denotes exactly this text (a compiler of the target reads the '
     'same text back) and ends where it should.',
     ['inputs'], 'all texts up to the stated length, character by character '
     '(all Unicode characters)',
     'the tests embed a handful of harmless texts',
     ['mapry/go/generate/__init__.py', 'mapry/cpp/generate/__init__.py',
      'mapry/py/generate/fromjsonable.py', 'mapry/py/jinja2_env.py'],
     [{'name': 'escaped_str, ticked_str, repr, raw string literals',
       'where': 'mapry/*/generate/__init__.py'}], True)
prop('L02', 'Descriptions stay within their comments and docstrings',
     'Whatever characters a description contains, the comment or docstring '
     'which is generated for it contains the text of every line of the '
     'description and nothing of the description becomes code of the '
     'target.',
     ['inputs'], 'all descriptions up to the stated length, character by '
     'character', 'the tests use plain English descriptions',
     ['mapry/go/generate/__init__.py', 'mapry/cpp/generate/__init__.py',
      'mapry/py/generate/__init__.py'],
     [{'name': 'comment, docstring', 'where': 'mapry/*/generate/__init__.py'}],
     True)
prop('R01', 'Indentation of generated code changes only leading blanks',
     'Re-indenting generated code keeps every line and its content; only the '
     'blanks in front of a line change: the common margin is taken away, '
     'every further four blanks become one indention, the rest of the '
     'blanks stays, and the line is indented by the requested level.',
     ['inputs'], 'all texts up to the stated number of lines and characters, '
     'levels and indentions',
     'the tests re-indent a few snippets',
     ['mapry/indention.py'],
     [{'name': 'reindent', 'where': 'mapry/indention.py'}], True,
     observe=['mapry.indention.reindent'])
prop('W01', 'Generated code is well-formed code of its target',
     'For every schema which the validation accepts, the code which is '
     'generated for Python and Go compiles and loads: it is syntactically '
     'correct, every name it uses is defined and imported, and every import '
     'and variable of Go is used.',
     ['programs', 'configurations'],
     'all combinations of types, placements, optionality and settings of the '
     'targets within the bounds',
     'the tests compile the generated code of a few schemas',
     ['mapry/py/generate/', 'mapry/go/generate/', 'mapry/main.py'],
     [{'name': 'import and helper selection of the generators',
       'where': 'mapry/*/generate/*.py'}], True,
     na='Whether one text compiles is decided by the compiler of the target '
     'and not by a solver; trying the schemas one by one would be an '
     'enumeration of concrete runs.  Part of it is covered elsewhere: the '
     'conformance checks load (C01-C04), type-check with go/types (G01-G04) '
     'and resolve (X01-X04) the code which they execute and report a failure '
     'as a violation.')
prop('I01', 'The commands write complete output or report an error',
     'Run on a well-formed schema with settings of the target, a command '
     'creates the output directory if needed, writes exactly the files of '
     'its target with the generated code in UTF-8 (whatever the locale is), '
     'overwriting older ones, touches nothing else and exits with 0. If the '
     'arguments are incomplete, the schema can not be read, is malformed, '
     'is refused by the target or lacks its settings, or a file can not be '
     'written, the exit code is not 0 and the error stream tells about it; '
     'a wrong input leaves existing files untouched. A schema which is no '
     'JSON is reported with the path of the file and, if its line is short, '
     'with a mark under the place where the decoding fails.',
     ['configurations', 'fault_sequences', 'inputs'],
     'all combinations of the arguments, of the settings, of the states of '
     'the schema and the output directory, of the locale and of failing '
     'writes; all short texts of the schema file',
     'no test runs the commands',
     ['mapry/main.py', 'mapry/parse.py'],
     [{'name': 'run, generate_cpp, generate_go, generate_py, '
               'schema_from_json_file',
       'where': 'mapry/main.py, mapry/parse.py'}], True,
     observe=['mapry.main.entry_point: exit code, streams and files',
              'mapry.parse.schema_from_json_file'])
prop('P01', 'Constructors of the generated Python types keep their arguments',
     'For every schema, the constructors of the generated Python classes, '
     'embeddable structures and graphs take the identifier (of a class), the '
     'required and then the optional properties by the names of their '
     'attributes, annotated with their types, in the order of the schema, '
     'and the attributes of the object are exactly what was given, also if '
     'it is zero, empty or false; an optional property which is not given is '
     'None, a required one can not be left out. A registry which is given is '
     'kept, also if it is empty; otherwise the graph gets an empty ordered '
     'registry of its own. Placeholders are objects of their type all of '
     'whose properties are None. Serializing a constructed object writes the '
     'given properties under their names in JSON and nothing else.',
     ['inputs', 'configurations'], 'all values of the properties, all choices '
     'of arguments which are given, and all patterns of optional properties '
     'up to the stated size', 'the tests compare the text of the constructors '
     'with recorded texts of some schemas and never construct an object',
     ['mapry/py/generate/types.py', 'mapry/py/generate/parse.py',
      'mapry/py/generate/tojsonable.py'],
     [{'name': '_define_class, _define_embed, _define_graph, '
               '_class_placeholder_function',
       'where': 'mapry/py/generate/types.py, mapry/py/generate/parse.py'}],
     True,
     observe=['constructors, placeholder_* and serialize_* of the generated '
              'package'])
prop('D01', 'Durations of the generated Python code are read as written',
     'The duration parser of the generated Python code accepts exactly the '
     'texts [+-]P[nY][nM][nW][nD][T[nH][nM][nS]], where a count n is 0 or a '
     'number without leading zeros, with an optional fraction (of the '
     'seconds: at most six digits, more are refused). The value is the sum '
     'of the counts (years of 365.2425 days, months a twelfth of it), to the '
     'precision of binary fractions, and exact if neither years, months nor '
     'fractions other than of the seconds are given. Any other text, and a '
     'value beyond the range of timedelta, is reported as an error. A '
     'serialized duration is such a text of exactly its value and is parsed '
     'as the same duration.',
     ['inputs'], 'all texts up to the stated length, character by character, '
     'all digits of the counts, and all durations',
     'the tests try a list of durations',
     ['mapry/py/generate/fromjsonable.py', 'mapry/py/generate/tojsonable.py'],
     [{'name': '_duration_from_string, _duration_to_string',
       'where': 'mapry/py/generate/fromjsonable.py, tojsonable.py'}], True,
     observe=['generated from_jsonable and to_jsonable of a graph with a '
              'duration'])
prop('D02', 'Durations of the generated Go code are read as written',
     'The duration parser of the generated Go code accepts exactly the ISO '
     '8601 durations of the documented grammar, denotes the documented value '
     'for each, reports overflows as errors, and printing a duration and '
     'parsing it again gives the same duration.',
     ['inputs'], 'all texts of the grammar with symbolic counts, and all '
     'durations', 'the tests try a list of durations',
     ['mapry/go/generate/fromjsonable.py', 'mapry/go/generate/tojsonable.py'],
     [{'name': 'durationFromString, durationToString',
       'where': 'mapry/go/generate/fromjsonable.py, tojsonable.py'}], True,
     na='The model of Go (sx/gort.py) takes strconv.ParseFloat, submatches '
     'of regexp and 64-bit durations as opaque, so that the helpers are '
     'replaced by predicates in G01-G04; they are not executed '
     'symbolically.')


BUILT = ['C01', 'C02', 'L01', 'C03', 'C04', 'G01', 'G02', 'G03', 'G04', 'N01',
         'S01', 'S02', 'S03', 'S04', 'T01', 'X01', 'X02', 'X03', 'X04',
         'L02', 'R01', 'I01', 'D01', 'P01']
NOTE = ('Every path of the real code within the stated bounds is decided by '
        'the solver; a counterexample is reported only after it failed on '
        'the real, uninstrumented code. Trusted: the interpreter '
        'instrumentation and the stubs named in the evidence, the reference '
        'semantics, z3.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['cant'],
                'anchors': {'files': p['files'], 'mechanism': p['mech'],
                            'observe_at': p['observe'],
                            'hook_needed': None}}) + '\n')
    checks, na = [], []
    for p in PROPS:
        if p['id'] in BUILT:
            checks.append({
                'property': p['id'],
                'quick_cmd': './check {} --tier quick'.format(p['id']),
                'thorough_cmd': './check {} --tier thorough'.format(p['id']),
                'technique': TECH, 'level': p['level'], 'level_note': NOTE})
        else:
            na.append({'property': p['id'],
                       'reason': p['na'] or NOT_YET})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
                   'not_applicable': na}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()

"""Operations on the validation of schemas for the targets (S04)."""
import mapry
import mapry.cpp.validation
import mapry.go.validation
import mapry.parse
import mapry.py.validation
import mapry.validation
from opbase import Skip, require, run_op  # noqa: F401

PY_WORDS = [
    'False', 'None', 'True', 'and', 'as', 'assert', 'async', 'await',
    'break', 'class', 'continue', 'def', 'del', 'elif', 'else', 'except',
    'finally', 'for', 'from', 'global', 'if', 'import', 'in', 'is', 'lambda',
    'nonlocal', 'not', 'or', 'pass', 'raise', 'return', 'try', 'while',
    'with', 'yield']
CPP_WORDS = [
    'alignas', 'alignof', 'and', 'and_eq', 'asm', 'auto', 'bitand', 'bitor',
    'bool', 'break', 'case', 'catch', 'char', 'char16_t', 'char32_t',
    'class', 'compl', 'const', 'constexpr', 'const_cast', 'continue',
    'decltype', 'default', 'delete', 'do', 'double', 'dynamic_cast', 'else',
    'enum', 'explicit', 'export', 'extern', 'false', 'float', 'for',
    'friend', 'goto', 'if', 'inline', 'int', 'long', 'mutable', 'namespace',
    'new', 'noexcept', 'not', 'not_eq', 'nullptr', 'operator', 'or', 'or_eq',
    'private', 'protected', 'public', 'register', 'reinterpret_cast',
    'return', 'short', 'signed', 'sizeof', 'static', 'static_assert',
    'static_cast', 'struct', 'switch', 'template', 'this', 'thread_local',
    'throw', 'true', 'try', 'typedef', 'typeid', 'typename', 'union',
    'unsigned', 'using', 'virtual', 'void', 'volatile', 'wchar_t', 'while',
    'xor', 'xor_eq']
# words of later or experimental C++: may be refused or not
CPP_LATER = [
    'atomic_cancel', 'atomic_commit', 'atomic_noexcept', 'concept',
    'co_await', 'co_return', 'co_yield', 'import', 'module', 'requires',
    'synchronized', 'char8_t', 'consteval', 'constinit', 'reflexpr',
    'final', 'override', 'transaction_safe', 'transaction_safe_dynamic']


def upper_camel(name):
    out = ''
    for w in name.split('_'):
        if len(w) > 0:
            out = out + w[0].upper() + w[1:]
    return out


def word_in(word, words):
    for w in words:
        if word == w:
            return True
    return False


def double(names):
    for i, x in enumerate(names):
        for y in names[:i]:
            if x == y:
                return True
    return False


def composites(graph):
    return ([graph] + list(graph.classes.values())
            + list(graph.embeds.values()))


def bad(schema, lang):
    """Names collide or are reserved in the target."""
    g = schema.graph
    cs = composites(g)
    names = [upper_camel(c.name) for c in cs]
    if double(names):
        return True
    if lang == 'go':
        for n in names:
            if word_in(n, ['Error', 'Errors', 'NewErrors']):
                return True
            for m in names:
                if n == m + 'FromJSONable' or n == m + 'ToJSONable':
                    return True
    if lang == 'py':
        for n in names:
            if word_in(n, PY_WORDS):
                return True
        if double([c.name.lower() for c in cs]):
            return True
    if lang == 'cpp':
        # the overloads of the functions are not specified
        require(not double([c.name.lower() for c in cs]))
    words = {'py': PY_WORDS, 'cpp': CPP_WORDS, 'go': []}[lang]
    for c in cs:
        made = [upper_camel(p.name) if lang == 'go' else p.name.lower()
                for p in c.properties.values()]
        if c is g:
            made = made + [upper_camel(k.plural) if lang == 'go'
                           else k.plural.lower()
                           for k in g.classes.values()]
        if double(made):
            return True
        for n in made:
            if word_in(n, words):
                return True
            if lang == 'cpp':
                require(not word_in(n, CPP_LATER))
            if lang == 'py':
                if n == 'self':
                    return True
                if c is g and len(g.classes) > 0 and n == 'collections':
                    return True
        if isinstance(c, mapry.Class):
            for n in made:
                if n == ('ID' if lang == 'go' else 'id'):
                    return True
    return False


VALIDATE = {'py': mapry.py.validation.validate_schema,
            'go': mapry.go.validation.validate_schema,
            'cpp': mapry.cpp.validation.validate_schema}


def collisions(req):
    """The validation of a target refuses collisions and nothing else."""
    try:
        schema = mapry.parse.schema_from_mapping(
            mapping=req['mapping'], ref='#')
    except mapry.validation.SchemaError:
        raise Skip()
    lang = req['lang']
    wrong = bad(schema, lang)
    errs = VALIDATE[lang](schema=schema)
    claims = []
    if wrong:
        claims.append(('{}: a collision is refused'.format(lang),
                       len(errs) > 0))
    else:
        claims.append(('{}: names without a collision are accepted'.format(
            lang), len(errs) == 0))
    for e in errs:
        claims.append(('{}: an error refers to the schema'.format(lang),
                       e.ref.startswith('#')))
    return claims


OPS = {'collisions': collisions}
REGIONS = {}


def run(op, req):
    return run_op(OPS[op], req)

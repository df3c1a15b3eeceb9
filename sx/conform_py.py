"""Units: generated Python code against the reference semantics."""
import zlib

import z3

import judge
from sx import (core, cppast, cppcheck, cpprt, gocheck, gopkg, harness, oracle,
                pipeline, pycheck, pyexec)
from sx import universe as U
from sx.concretise import nice_model, request
from sx.core import PathDone, Unsupported
from sx.jv import BOOL, DICT, INT, LIST, NULL
from sx.oracle import Ctx, match_ref, member
from sx.spec import C, G, P, T, concrete

# aspects: accept, value, refs, raise, roundtrip


def constraint_errors(t):
    """Condition: the constraints of the type contradict each other."""
    out = []
    if t.minimum is not None and t.maximum is not None:
        a, b = core.to_z(t.minimum), core.to_z(t.maximum)
        out.append(a > b)
        if t.xmin or t.xmax:
            out.append(a == b)
    if t.minsize is not None and t.maxsize is not None:
        out.append(core.to_z(t.minsize) > core.to_z(t.maxsize))
    if t.values is not None:
        out.extend(constraint_errors(t.values))
    return out


def all_types(g):
    for c in [g.graph] + list(g.classes.values()) + list(g.embeds.values()):
        for p in c.props:
            yield p.t


def region_raise(ctx, g_jv, findings, o=None, cap=1, vs=None):
    """Inputs on which a listed finding makes the parser raise."""
    out = []
    if 'nonempty-errors-panic' in findings and cap != 1 and \
            o.raised.args == ('unexpected non-empty errors', ):
        # parsing goes on after an error and enters a composite
        out.append(oracle.violated(vs(findings)))
        # nor is null at an optional property prescribed
        out.append(oracle.nulls(ctx, g_jv))
    if 'null-registry' in findings:
        for c in ctx.g.classes.values():
            has, reg = member(g_jv, c.registry())
            out.append(z3.And(has, reg.k == NULL))
    if 'huge-int' in findings:
        big = z3.IntVal(2**1024 - 2**970)

        def walk(t, v):
            if t.kind == 'float':
                out.append(z3.And(v.k == INT, z3.Or(v.i >= big, v.i <= -big)))
            elif t.kind == 'array':
                for x in v.items_:
                    walk(t.values, x)
            elif t.kind == 'map':
                for _, _, x in v.entries:
                    walk(t.values, x)
            elif t.kind == 'embed':
                comp(ctx.g.embeds[t.ref].props, v)

        def comp(props, v):
            for p in props:
                walk(p.t, member(v, p.json)[1])
        comp(ctx.g.graph.props, g_jv)
        for c in ctx.g.classes.values():
            for _, _, x in g_jv.registries[c.name].entries:
                comp(c.props, x)
    return z3.Or(*out) if out else z3.BoolVal(False)


def region_serialise(ctx, g_jv, findings, ex):
    """Inputs on which a listed finding makes the serialiser raise."""
    out = [z3.BoolVal(False)]
    if 'longer-date' in findings and getattr(ex, 'cls', '') == 'bad_alloc':
        def walk(t, v):
            if t.kind in ('date', 'time', 'datetime'):
                out.append(cpprt.long_ok(t.fmt)(pyexec.parsed(t.fmt)(v.s)))
            elif t.kind == 'array':
                for x in v.items_:
                    walk(t.values, x)
            elif t.kind == 'map':
                for _, _, x in v.entries:
                    walk(t.values, x)
        for p in ctx.g.graph.props:
            walk(p.t, member(g_jv, p.json)[1])
    return z3.Or(*out)


class PyLang:
    """What differs between the targets."""
    name = 'py'
    Package = staticmethod(pyexec.Package)
    load_errors = ()
    graph_ok = staticmethod(pycheck.graph_ok)
    json_graph = staticmethod(pycheck.json_graph)
    run_parse = staticmethod(pycheck.run_parse)
    serialisers = (False, True)
    functions = ('mapry.py.validation.validate_schema',
                 'mapry.main.generate_py')
    load_key = 'import_error'

    @staticmethod
    def drive(req):
        return harness.drive_py(req)

    @staticmethod
    def serialise(pkg, g, graph, ordered):
        return pycheck.run_serialise(pkg, g, graph, ordered)

    @staticmethod
    def dict_kind(g, out, ordered):
        want = 'OrderedDict' if ordered else 'dict'
        kinds = pycheck.dict_types(g, out)
        return None if kinds == [want] else 'ordered={} gives {}'.format(
            ordered, kinds)


class GoLang:
    name = 'go'
    Package = staticmethod(gopkg.Package)
    graph_ok = staticmethod(gocheck.graph_ok)
    json_graph = staticmethod(gocheck.json_graph)
    run_parse = staticmethod(gocheck.run_parse)
    serialisers = (None, )
    functions = ('mapry.go.validation.validate_schema',
                 'mapry.main.generate_go')
    load_key = 'build_error'

    @staticmethod
    def drive(req):
        return harness.drive_go(req)

    @staticmethod
    def serialise(pkg, g, graph, ordered):
        return gocheck.run_serialise(pkg, g, graph)

    @staticmethod
    def dict_kind(g, out, ordered):
        return None


class CppLang:
    name = 'cpp'
    Package = staticmethod(cppast.Package)
    graph_ok = staticmethod(cppcheck.graph_ok)
    json_graph = staticmethod(cppcheck.json_graph)
    run_parse = staticmethod(cppcheck.run_parse)
    serialisers = (None, )
    functions = ('mapry.cpp.validation.validate_schema',
                 'mapry.main.generate_cpp')
    load_key = 'build_error'

    @staticmethod
    def drive(req):
        return harness.drive_cpp(req)

    @staticmethod
    def serialise(pkg, g, graph, ordered):
        return cppcheck.run_serialise(pkg, g, graph)

    @staticmethod
    def dict_kind(g, out, ordered):
        return None


LANGS = {'py': PyLang, 'go': GoLang, 'cpp': CppLang}


class Judge:
    """Discharges the obligations of one path."""

    def __init__(self, report, e, g, prop, aspects, cap, findings, L):
        self.r = report
        self.e = e
        self.g = g
        self.prop = prop
        self.aspects = aspects
        self.cap = cap
        self.findings = {f.condition: f for f in findings}
        self.L = L
        self.lang = L.name
        self.drive = L.drive
        self.used_finding = False

    def ctx(self, fs=()):
        return Ctx(self.g, self.lang, fs)

    def oblige(self, aspect, what, make, g_jv, extra=None):
        """Prove ``make(findings)``; on failure try the listed findings."""
        if aspect not in self.aspects:
            return True
        ok, model = self.e.prove(make(()))
        self.r.reach[aspect] += 1
        if ok:
            return True
        if ok is None:
            self.r.inconclusive.append('{}: unknown for {}'.format(
                self.r.name, what))
            return False
        if self.findings:
            for f in self.findings:
                ok1, _ = self.e.prove(make((f, )))
                if ok1:
                    self.found(f)
                    return True
            ok1, m1 = self.e.prove(make(tuple(self.findings)))
            if ok1:
                for f in self.findings:
                    self.found(f)
                return True
            if m1 is not None:
                model = m1
        neg = z3.Not(make(tuple(self.findings)))
        model = nice_model(self.e, [neg], self.g, g_jv, model)
        self.violation(aspect, what, model, g_jv, extra)
        return False

    def found(self, f):
        self.used_finding = True
        self.r.findings[f] = self.findings[f].text

    def violation(self, aspect, what, model, g_jv, extra=None):
        req = request(self.g, g_jv, model, cap=self.cap, **(extra or {}))
        obs = self.drive(req)
        self.r.replays += 1
        verdict = judge.judge(req, obs, self.lang)
        mine = [t for a, t in verdict if a in self.aspects or a == 'raise']
        if mine:
            self.r.violations.append({
                'property': self.prop, 'lang': self.lang, 'aspect': aspect,
                'what': '{} [{}]: {}; on the real code: {}'.format(
                    self.r.name, aspect, what, '; '.join(mine)[:400]),
                'request': req, 'observed': obs})
        else:
            self.r.unconfirmed.append({
                'unit': self.r.name, 'aspect': aspect, 'what': what,
                'request': req, 'observed': obs, 'other': verdict})
        if len(self.r.violations) + len(self.r.unconfirmed) >= 2:
            raise core.Budget('stopped after two counterexamples')

    # -- one path ---------------------------------------------------------
    def path(self, o, pkg):
        r = self.r
        g = self.g
        self.used_finding = False
        g_jv = o.g_jv
        def vs(fs):
            if fs not in self.cache:
                v = oracle.violations(self.ctx(fs), g_jv)
                v = oracle.Viols(v)
                v.any = oracle.violated(list(v))
                self.cache[fs] = v
            return self.cache[fs]
        if o.raised is not None:
            r.reach['raised'] += 1
            text = 'parsing raised {!r}'.format(o.raised)[:200]
            for a in ('raise', 'accept'):
                if a in self.aspects:
                    self.oblige(a, text, lambda fs: region_raise(
                        self.ctx(fs), g_jv, fs, o, self.cap, vs), g_jv)
                    break
            return
        if 'nulls' not in self.cache:
            self.cache['nulls'] = oracle.nulls(self.ctx(), g_jv)
        nl = self.cache['nulls']
        if o.graph is not None:
            r.reach['accepted'] += 1
            self.oblige('accept', 'accepted although it does not conform',
                        lambda fs: z3.Not(oracle.violated(vs(fs))), g_jv)
            self.oblige('refs', 'errors although accepted',
                        lambda fs: z3.BoolVal(not o.errs), g_jv)
            if 'value' in self.aspects:
                self.oblige('value', 'the parsed value differs',
                            lambda fs: z3.Or(
                                oracle.violated(vs(fs)),
                                self.L.graph_ok(self.ctx(fs), g_jv,
                                                 o.graph)), g_jv)
            if 'roundtrip' in self.aspects:
                self.serialise(o, pkg, vs)
        else:
            r.reach['rejected'] += 1
            self.oblige('accept', 'rejected although it conforms',
                        lambda fs: z3.Or(nl, oracle.violated(vs(fs))), g_jv)
            self.refs(o, vs, nl)
        if 'sample' not in r.reach and self.cap_samples() or (r.reach['sampled'] < self.cap_samples()
                                       and r.reach['paths'] % 7 == 3):
            self.validate(o)
        r.reach['paths'] += 1

    def cap_samples(self):
        # building the code of C++ takes seconds
        return 1 if self.lang != 'cpp' or zlib.crc32(
            self.r.name.encode()) % 6 == 0 else 0

    def refs(self, o, vs, nl):
        if 'refs' not in self.aspects:
            return
        g_jv = o.g_jv
        self.oblige('refs', 'no error or more errors than the cap',
                    lambda fs: z3.BoolVal(0 < len(o.errs) <= self.cap), g_jv)
        for er in o.errs:
            def located(fs, er=er):
                alts = [nl]
                for v in vs(fs):
                    c = match_ref(er.ref, pycheck.BASE, v.segs)
                    if c is not False:
                        alts.append(v.cond if c is True
                                    else z3.And(c, v.cond))
                return z3.Or(*alts)
            self.oblige('refs', 'an error at a location which is not '
                        'offending', located, g_jv)
        if len(o.errs) < self.cap:
            def complete(fs):
                out = []
                for v in vs(fs):
                    hit = [match_ref(er.ref, pycheck.BASE, v.segs)
                           for er in o.errs]
                    if any(h is True for h in hit):
                        continue
                    hit = [h for h in hit if h is not False]
                    out.append(z3.Implies(v.top, z3.Or(*hit) if hit else
                                          z3.BoolVal(False)))
                return z3.Or(nl, z3.And(*out)) if out else z3.BoolVal(True)
            self.oblige('refs', 'an offending location is not reported '
                        'although the cap is not reached', complete, g_jv)

    def serialise(self, o, pkg, vs):
        g_jv = o.g_jv
        # only conforming values are in the scope of the round trip
        for ordered in self.L.serialisers:
            try:
                out = self.L.serialise(pkg, self.g, o.graph, ordered)
            except (Unsupported, RecursionError):
                raise
            except Exception as ex:
                self.oblige('roundtrip', 'serialising raised {!r}'.format(
                    ex)[:200], lambda fs, ex=ex: region_serialise(
                        self.ctx(fs), g_jv, fs, ex), g_jv,
                    {'ordered': ordered})
                return
            bad = self.L.dict_kind(self.g, out, ordered)
            if bad:
                self.oblige('roundtrip', bad, lambda fs: z3.BoolVal(False), g_jv, {'ordered': ordered})
            self.oblige('roundtrip', 'the serialised value differs',
                        lambda fs: z3.Or(
                            oracle.violated(vs(fs)),
                            self.L.json_graph(self.ctx(fs), g_jv, out)),
                        g_jv, {'ordered': ordered})

    def validate(self, o):
        """Replay a witness of the path on the real code."""
        if self.used_finding or self.r.violations:
            return
        r = self.r
        m = nice_model(self.e, [], self.g, o.g_jv, self.e.witness())
        if m is None:
            return
        r.reach['sampled'] += 1
        r.reach['sample'] += 1
        req = request(self.g, o.g_jv, m, cap=self.cap)
        obs = self.drive(req)
        r.replays += 1
        verdict = judge.judge(req, obs, self.lang)
        mine = [t for a, t in verdict if a in self.aspects]
        r.sample({'request': req, 'observed': {
            k: v for k, v in obs.items() if k in ('accepted', 'errors')}})
        agree = obs.get('accepted') == (o.graph is not None)
        if mine and agree:
            r.violations.append({
                'property': self.prop, 'lang': self.lang, 'aspect': 'replay',
                'what': '{}: on the witness of a path: {}'.format(
                    r.name, '; '.join(mine)[:400]),
                'request': req, 'observed': obs})
        elif not agree:
            r.reach['witness not realised by concrete strings'] += 1


def conform(report, e, build, n, n_inst, caps, prop, aspects, findings,
            lean=False, lang='py'):
    """All schemas of a family against all values of the stated shape."""
    L = LANGS[lang]
    U.set_lang(lang)
    report.functions.update(['mapry.parse.schema_from_mapping',
                             'mapry.validation.validate'])
    report.functions.update(L.functions)

    def outer():
        g = build()
        m = g.mapping()
        try:
            return g, pipeline.compile_mapping(m, lang)
        except pipeline.CompileError as ex:
            return g, ex

    def on_outer(res):
        g, files = res
        report.reach['schemas'] += 1
        if isinstance(files, Exception):
            report.reach['schemas refused'] += 1
            contradictory = [c for t in all_types(g)
                             for c in constraint_errors(t)]
            ok, model = e.prove(z3.Or(*contradictory) if contradictory
                                else z3.BoolVal(False))
            if not ok and model is not None:
                model = nice_model(e, [z3.Not(z3.Or(*contradictory))
                                       if contradictory else True],
                                   g, None, model)
                req = request(g, None, model)
                obs = L.drive(req)
                report.replays += 1
                if 'schema_error' in obs or 'crash' in obs:
                    report.violations.append({
                        'property': prop, 'lang': lang, 'aspect': 'schema',
                        'what': '{}: a well-formed schema is refused: {}'
                        .format(report.name, str(files)[:300]),
                        'request': req, 'observed': obs})
                else:
                    report.unconfirmed.append({'unit': report.name,
                                               'what': str(files),
                                               'request': req})
            return
        for fn in files:
            report.functions.add('generated ' + fn)
        try:
            pkg = L.Package(files)
        except (Unsupported, RecursionError):
            raise
        except Exception as ex:
            req = request(g, None, e.witness(), data={})
            obs = L.drive(req)
            report.replays += 1
            if L.load_key in obs:
                report.violations.append({
                    'property': prop, 'lang': lang, 'aspect': 'raise',
                    'what': '{}: the generated package does not load: {}'
                    .format(report.name, obs[L.load_key]),
                    'request': req, 'observed': obs})
            else:
                report.unconfirmed.append({
                    'unit': report.name, 'what': repr(ex), 'request': req})
            return
        g_jv = oracle.shape_graph(g, n, n_inst, lean, lang)
        cache = {}
        for cap in caps:
            j = Judge(report, e, g, prop, aspects, cap, findings, L)
            j.cache = cache
            e.explore(lambda: L.run_parse(pkg, g, g_jv, cap),
                      lambda o: j.path(o, pkg))

    e.explore(outer, on_outer)


# ---------------------------------------------------------------------------
# the units
# ---------------------------------------------------------------------------


def second(kind):
    """Constraints of the neighbour of a property."""
    return 0 if kind in ('integer', 'float') else 1


def scalar_unit(kind, placement, after, excl=True):
    def build():
        e = core.engine()
        t = U.scalar(kind, excl=excl)
        opt = e.flip('optional')
        js = 'fieldJson' if e.flip('json') else None
        prop = P('some_field', t, opt, js)
        aft = P('zz_after', U.scalar(kind, 'a', which=second(kind), sfx='2'),
                json='ZzAfter') if after else None
        return U.placed(placement, prop, aft, kind, **settings(kind))
    return build


def settings(kind):
    """Settings of the targets which concern the kind."""
    e = core.engine()
    if U.LANG == 'cpp':
        return cpp_settings(kind)
    if kind not in ('path', 'time_zone'):
        return {}
    return {'path_as': 'str' if e.flip('path_as') else 'pathlib.Path',
            'tz_as': 'str' if e.flip('tz_as') else 'pytz.timezone'}


def cpp_settings(kind):
    e = core.engine()
    dates = kind in ('date', 'time', 'datetime', 'time_zone')
    return {'cpp': {
        'namespace': 'some::space',
        'path_as': 'boost::filesystem::path' if kind == 'path' and e.flip(
            'path_as') else 'std::filesystem::path',
        'optional_as': ['std::optional', 'boost::optional',
                        'std::experimental::optional'][
                            e.choose('optional_as', 3)
                            if kind in ('boolean', 'path', 'embed') else 0],
        'datetime_library': 'date.h' if dates and e.flip('date_h')
        else 'ctime'}}


def wrapped_unit(kind, wrapper, placement, which, sizes, after, excl=True):
    def build():
        e = core.engine()
        t = U.wrap(U.scalar(kind, which=which, excl=excl), wrapper,
                   which=sizes)
        opt = e.flip('optional')
        prop = P('some_field', t, opt, 'fieldJson')
        aft = None
        if after:
            aft = P('zz_after', U.wrap(
                U.scalar(kind, 'a', which=second(kind), sfx='2'), after, 'aw',
                which=0), json='ZzAfter')
        kw = settings(kind) if placement == 'graph' or U.LANG == 'cpp' and \
            kind in ('date', 'time', 'datetime', 'time_zone') else {}
        return U.placed(placement, prop, aft, kind, **kw)
    return build


def refs_unit():
    """Two classes which refer to each other, to themselves and a graph."""
    a = C('Some_thing', [P('peer', T('ref', ref='Other_URL_thing')),
                         P('self_ref', T('ref', ref='Some_thing'),
                           optional=True, json='selfRef')],
          id_pattern=U.PATTERNS['id'])
    b = C('Other_URL_thing', [P('back', T('array', values=T(
        'ref', ref='Some_thing')), optional=True)])
    return G(C('Some_graph', [P('root_ref', T('ref', ref='Other_URL_thing'),
                                optional=True)]), classes=[a, b])


def embed_ref_unit():
    box = C('Some_box', [P('inner_ref', T('ref', ref='Some_thing'),
                           json='innerRef')])
    outer = C('Outer_box', [P('box_list', T('array', values=T(
        'embed', ref='Some_box')), optional=True)])
    a = C('Some_thing', [P('own_box', T('embed', ref='Outer_box'))],
          plural='Folk_of_URLs')
    return G(C('Some_graph', [P('box_map', T('map', values=T(
        'embed', ref='Outer_box')), optional=True)]), classes=[a],
        embeds=[box, outer])


def names_unit():
    """Names with capitals and renamed fields at all composites."""
    box = C('Box_URL', [P('ID_of_x', T('integer'), json='x-y z'),
                        P('map_of_IDs', T('map', values=T('integer')),
                          optional=True)])
    a = C('URL_item', [P('first_URL', T('string')),
                       P('dates', T('array', values=T('date')),
                         optional=True, json='DATES')], plural='URL_stock')
    return G(C('Some_URL_graph', [P('the_Box', T('embed', ref='Box_URL'),
                                    json='TheBox'),
                                  P('item_ref', T('ref', ref='URL_item'),
                                    optional=True)]),
             classes=[a], embeds=[box])


def two_registries_unit(where):
    """References to two classes, in both orders of the definitions."""
    def build():
        e = core.engine()
        pats = e.choose('id_patterns', 3) if where in ('embed', 'graph') else 0
        za = C('Zebra_item', [P('zebra_n', T('integer'))],
               id_pattern=U.PATTERNS['id'] if pats == 1 else None)
        ant = C('Ant_item', [P('ant_n', T('integer'))], plural='Ant_stock',
                id_pattern=U.PATTERNS['id2'] if pats == 2 else None)
        refs = [P('to_ant', T('ref', ref='Ant_item'), optional=True),
                P('to_zebra', T('ref', ref='Zebra_item'), optional=True)]
        if where != 'class' and e.flip('refs_order'):
            refs.reverse()
        cls = [za, ant] if e.flip('class_order') else [ant, za]
        emb, root = [], []
        if where == 'embed':
            emb.append(C('Some_box', refs))
            root.append(P('the_box', T('embed', ref='Some_box')))
        elif where == 'nested embed':
            emb.append(C('Some_box', refs[:1]))
            emb.append(C('Outer_box', [P('inner_box', T(
                'embed', ref='Some_box'))] + refs[1:]))
            root.append(P('the_box', T('map', values=T(
                'embed', ref='Outer_box'))))
        elif where == 'class':
            cls.insert(1, C('Holder_item', refs))
        else:
            root = refs
        return G(C('Some_graph', root), classes=cls, embeds=emb)
    return build


def swapped_unit():
    """JSON names which are names of other properties."""
    e = core.engine()
    a, b = [('integer', 'string'), ('date', 'duration'),
            ('ref', 'boolean')][e.choose('kinds', 3)]
    props = [P('alpha', U.scalar(a, 'a', which=0), e.flip('alpha_optional'),
               json='beta'),
             P('beta', U.scalar(b, 'b', which=0), e.flip('beta_optional'),
               json='gamma'),
             P('gamma', T('array', values=U.scalar(a, 'c', which=0)),
               json='alpha')]
    cls, emb = U.classes_for('ref')
    place = e.choose('place', 3)
    if place == 0:
        return G(C('Some_graph', props), classes=cls)
    if place == 1:
        return G(C('Some_graph', []), classes=cls + [C('Holder', props)])
    return G(C('Some_graph', [P('the_box', T('embed', ref='Holder_box'))]),
             classes=cls, embeds=[C('Holder_box', props)])


def empty_unit():
    """Composites without properties, before and after others."""
    e = core.engine()
    empty = C('Empty_item', [])
    thing = C(U.THING, [P('thing_n', T('integer'), optional=True)])
    cls = [empty, thing]
    if e.flip('class_order'):
        cls.reverse()
    emb = [C('Empty_box', []), C('Full_box', [P('inner', T(
        'embed', ref='Empty_box'), e.flip('inner_optional'))])]
    if e.flip('embed_order'):
        emb.reverse()
    root = [P('empty_ref', T('ref', ref='Empty_item'), True),
            P('full_box', T('embed', ref='Full_box'), True)]
    if e.flip('no_root'):
        root = []
    return G(C('Some_graph', root), classes=cls, embeds=emb)


LOCALS = ['value', 'ref', 'target', 'errors', 'graph', 'key', 'item', 'values',
          'registry_value', 'index', 'result', 'text']


def locals_unit(kind):
    """Properties named like the variables of the generated code."""
    def build():
        e = core.engine()
        n = LOCALS[e.choose('local', len(LOCALS))]
        props = [P(n, U.scalar(kind, which=0)),
                 P('after_it', T('array', values=U.scalar(kind, which=0)),
                   optional=True)]
        cls, emb = U.classes_for(kind)
        if e.flip('in_class'):
            cls.append(C('Holder_item', props))
            props = []
        return G(C('Some_graph', props), classes=cls, embeds=emb)
    return build


def many_unit():
    """All scalars in one class (variables of neighbours must not mix)."""
    def build():
        e = core.engine()
        k = e.choose('pair', 6)
        pairs = [('integer', 'float'), ('string', 'path'), ('date', 'time'),
                 ('datetime', 'duration'), ('time_zone', 'boolean'),
                 ('ref', 'integer')]
        a, b = pairs[k]
        cls, emb = U.classes_for('ref')
        cls.append(C('Holder_item', [
            P('first_field', U.scalar(a, 'a', which=0)),
            P('second_field', U.scalar(b, 'b', which=0), optional=True),
            P('third_field', T('array', values=U.scalar(a, 'c', which=0)),
              optional=True)], plural='Holder_stock'))
        return G(C('Some_graph', []), classes=cls, embeds=emb)
    return build


def wide_dates_unit():
    """Formats which print more than four times their length."""
    e = core.engine()
    fmt = ['%B', '%A, %B', '%A%B', '%d.%B'][e.choose('format', 4)]
    return G(C('Some_graph', [P('some_field', T(
        e.choose('kind', 2) and 'datetime' or 'date', format=fmt),
                                e.flip('optional'))]))


ASSUMPTIONS = (
    'strings of the data are opaque: whether one matches a pattern or a '
    'format, or names a time zone, is an arbitrary predicate of the string '
    '(datetime, re and pytz are stubs); contents of strings are the subject '
    'of other properties',
    'floats are reals; integers at floats have a magnitude of at most 2**53; '
    'bounds of floats have a magnitude of at most 2**53',
    'the data has the members which the schema names; other members do not '
    'occur',
    'pathlib.Path is taken as injective (it normalises redundant separators)',
    'the duration helpers are replaced by predicates; D01 checks them',
)
GO_ASSUMPTIONS = (
    'strings of the data are opaque: whether one matches a pattern or a '
    'layout, or names a time zone, is an arbitrary predicate of the string '
    '(time.Parse, Regexp.MatchString and time.LoadLocation are stubs)',
    'all numbers of the data are float64 (as decoded by encoding/json) and '
    'taken as reals; bounds of floats have a magnitude of at most 2**53',
    'the data has the members which the schema names; other members do not '
    'occur',
    'ranging over a map visits its members in the order of their symbolic '
    'keys (the keys and values are arbitrary)',
    'the duration helpers are replaced by predicates; D02 checks them',
    'patterns are anchored (matching and searching agree)',
    'bounds of integers and sizes of arrays have a magnitude of at most 2**62',
)
CPP_ASSUMPTIONS = (
    'strings of the data are opaque: whether one matches a pattern or a '
    'format, or names a time zone, is an arbitrary predicate of the string '
    '(strptime, date::parse, std::regex_match and date::locate_zone are '
    'stubs); so is whether the text of a moment is longer than the buffer '
    'of strftime',
    'JSON values are those of JsonCpp: integers between -2**63 and 2**64 - 1 '
    'and doubles, which are taken as reals; integers at floats have a '
    'magnitude of at most 2**53; bounds of floats too',
    'the data has the members which the schema names; other members do not '
    'occur',
    'iterating over a JSON object visits its members in the order of their '
    'symbolic keys (the keys and values are arbitrary)',
    'strings are shorter than 2**28 bytes',
    'the standard library, boost, JsonCpp and date.h are declarations only '
    'for clang; a model of the run time gives them their meaning',
    'the duration helpers are replaced by predicates',
    'patterns are anchored (matching and searching agree)',
    'bounds of integers and sizes of arrays have a magnitude of at most 2**62',
)
BOUNDS = (
    'structures of schemas: all scalar types in the graph, in a class, in an '
    'embed and in an embed of a class; arrays and maps of them up to depth 2; '
    'bounds and sizes unbounded integers and reals; at most 2 items per array '
    'or map and 2 instances per registry; caps of errors 1 to 3; kinds and '
    'presence of every member arbitrary (in the units with several instances '
    'or properties the kinds of the composites are right)',
    'as quick, with arrays and maps up to depth 3, up to 3 items per array or '
    'map, 3 instances per registry and caps of errors 1 to 4',
)


def units(prop, aspects, findings, deep, lang='py'):
    out = quick_units(prop, aspects, findings, lang)
    if deep:
        out.extend(deep_units(prop, aspects, findings, lang))
    return out


def deep_units(prop, aspects, findings, lang='py'):
    out = []

    def add(name, build, n=1, n_inst=1, caps=(1, ), lean=False):
        out.append(harness.Unit(lang + name[2:], conform, build, n, n_inst,
                                caps, prop, aspects, findings, lean, lang))
    for kind in U.SCALARS:
        for w in ('array', 'map'):
            for pl in ('graph', 'class', 'embed'):
                add('py {} of {} in {}, 3 items'.format(w, kind, pl),
                    wrapped_unit(kind, (w, ), pl, None if kind not in (
                        'integer', 'float') else 3, None, None, excl=True),
                    n=3, n_inst=1, caps=(2, ), lean=pl == 'class')
        for w in U.DEEP:
            for pl in ('graph', 'class-embed'):
                add('py {} of {} in {}'.format(' of '.join(w), kind, pl),
                    wrapped_unit(kind, w, pl, 1, 3, None, excl=False), n=1,
                    caps=(1, 2))
        add('py {} in class, two instances'.format(kind), scalar_unit(
            kind, 'class', True), n_inst=2, caps=(1, 2, 3), lean=True)
    add('py references, three instances', refs_unit, n=1, n_inst=3, lean=True)
    add('py references in embeds, deep', embed_ref_unit, n=2, n_inst=2,
        lean=True)
    add('py names, deep', names_unit, n=2, n_inst=2, caps=(1, 4), lean=True)
    return out


def quick_units(prop, aspects, findings, lang='py'):
    out = []

    def add(name, build, n=1, n_inst=1, caps=(1, ), lean=False):
        out.append(harness.Unit(lang + name[2:], conform, build, n, n_inst,
                                caps, prop, aspects, findings, lean, lang))
    for kind in U.SCALARS:
        for pl in ('graph', 'class', 'embed'):
            add('py {} in {}'.format(kind, pl), scalar_unit(
                kind, pl, pl == 'graph' or pl == 'class' and kind not in (
                    'integer', 'float'), pl == 'graph'),
                caps=(2, ) if pl == 'class' else (1, ))
        for w in ('array', 'map'):
            for pl in ('graph', 'class', 'embed'):
                add('py {} of {} in {}'.format(w, kind, pl), wrapped_unit(
                    kind, (w, ), pl, None if pl == 'graph' else 3
                    if kind in ('integer', 'float') else 1,
                    None if pl == 'class' else 3, None,
                    excl=pl == 'graph'), n=2)
            add('py {0} of {1}, twice'.format(w, kind), wrapped_unit(
                kind, (w, ), 'graph', 0, 0, (w, )), n=1)
        for w in U.WRAPPERS[3:]:
            add('py {} of {} of {}'.format(w[0], w[1], kind), wrapped_unit(
                kind, w, 'graph', 1, 3 if w[0] == 'array' else 1, None,
                excl=False), n=2 if kind in (
                    'boolean', 'integer', 'string') else 1)
            add('py {} of {} of {} in class'.format(w[0], w[1], kind),
                wrapped_unit(kind, w, 'class', 0, 0, None), n=1)
        add('py {} in class-embed'.format(kind), scalar_unit(
            kind, 'class-embed', False, False))
    add('py references', refs_unit, n=1, n_inst=1)
    add('py references, two instances', refs_unit, n=1, n_inst=2, lean=True)
    add('py references in embeds', embed_ref_unit, n=1, n_inst=1)
    for where in ('embed', 'nested embed', 'class', 'graph'):
        add('py two registries in ' + where, two_registries_unit(where),
            n=1, n_inst=1, caps=(1, ), lean=True)
    for w in U.DEEP:
        add('py {} of boolean'.format(' of '.join(w)), wrapped_unit(
            'boolean', w, 'graph', 0, 0, None), n=1, caps=(2, ))
    add('py map of map of map of ref', wrapped_unit(
        'ref', ('map', ) * 3, 'class', 0, 0, None), n=1)
    add('py swapped names', swapped_unit, n=1, lean=True)
    add('py empty composites', empty_unit, n=1, caps=(2, ), lean=True)
    for kind in ('integer', 'string', 'ref', 'embed'):
        add('py names of variables, ' + kind, locals_unit(kind), n=1,
            lean=True)
    add('py names', names_unit, n=1, caps=(1, 3), lean=True)
    add('py neighbours', many_unit(), n=1, caps=(3, ), lean=True)
    if lang == 'cpp':
        add('py wide dates', wide_dates_unit, n=1, lean=True)
    for kind in ('integer', 'string', 'ref'):
        add('py {} caps'.format(kind), wrapped_unit(
            kind, ('array', ), 'class', 1, 3, None, excl=False), n=2,
            n_inst=2, caps=(1, 3) if kind != 'ref' else (2, ), lean=True)
    return out

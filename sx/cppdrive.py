"""Builds and runs the real generated C++ code on one input."""
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'replay'))
import refsem  # noqa: E402


def q(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


class Dump:
    """C++ functions which dump an object graph of the schema."""

    def __init__(self, schema):
        self.s = schema
        self.lib = schema['cpp']['datetime_library']
        self.space = schema['cpp']['namespace']
        self.classes = {c['name']: c for c in schema.get('classes', [])}
        self.embeds = {c['name']: c for c in schema.get('embeds', [])}

    def value(self, t, x):
        k = t['type']
        if k == 'array':
            return ('[&]() -> J {{ J a(Json::arrayValue); for (const auto& y :'
                    ' {}) {{ (void)y; a.append({}); }} return '
                    'pack("list", a); }}()').format(
                        x, self.value(t['values'], 'y') if t['values'][
                            'type'] != 'boolean' else 'pack("bool", J(bool(y)'
                        '))')
        if k == 'map':
            return ('[&]() -> J {{ J a(Json::arrayValue); for (const auto& y :'
                    ' {}) {{ J e(Json::arrayValue); e.append(J(y.first)); '
                    'e.append({}); a.append(e); }} return pack("map", a); '
                    '}}()').format(x, self.value(t['values'], 'y.second'))
        if k in self.classes:
            return 'instance({})'.format(x)
        if k in self.embeds:
            return 'dump({})'.format(x)
        if k == 'boolean':
            return 'pack("bool", J(bool({})))'.format(x)
        if k == 'integer':
            return 'pack("int", J(std::to_string({})))'.format(x)
        if k == 'float':
            return 'pack("float", J(double({})))'.format(x)
        if k == 'string':
            return 'pack("str", J({}))'.format(x)
        if k == 'path':
            return 'pack("str", J(({}).string()))'.format(x)
        if k == 'time_zone':
            return 'pack("tz", J({}))'.format(
                x if self.lib == 'ctime' else '({})->name()'.format(x))
        if k == 'duration':
            return 'pack("duration", J(true))'
        return '{}_of({})'.format(k, x)

    def fields(self, c, x):
        out = []
        for name, p in c.get('properties', {}).items():
            f = '{}.{}'.format(x, name.lower())
            if p.get('optional'):
                v = '({0} ? pack("opt", {1}) : J())'.format(
                    f, self.value(p, '(*{})'.format(f)))
            else:
                v = self.value(p, f)
            out.append('  o[{}] = {};\n'.format(q(name.lower()), v))
        return ''.join(out)

    def function(self, c, extra='', regs=''):
        return ('J dump(const {space}::{name}& x) {{\n  (void)x;\n'
                '  J o(Json::objectValue);\n{extra}{fields}{regs}'
                '  return pack("composite", {q}, o);\n}}\n\n').format(
                    space=self.space, name=refsem.camel(c['name']),
                    extra=extra, regs=regs, q=q(refsem.camel(c['name'])),
                    fields=self.fields(c, 'x'))

    def source(self, with_data):
        out = [HEAD.replace('SPACE', self.space), DATES[self.lib]]
        if not with_data:
            out.append('int main() { return 0; }\n')
            return ''.join(out)
        every = list(self.embeds.values()) + list(self.classes.values())
        for c in every:
            out.append('J dump(const {}::{}& x);\n'.format(
                self.space, refsem.camel(c['name'])))
        out.append('\n')
        for c in self.embeds.values():
            out.append(self.function(c))
        for c in self.classes.values():
            out.append(self.function(
                c, '  o["id"] = pack("str", J(x.id));\n'))
        regs, note = '', ''
        for c in self.classes.values():
            r = refsem.plural(c).lower()
            note += ('  for (const auto& y : x.{0}) instances[y.second.get()] '
                     '= instance_of({1}, y.first);\n').format(r, q(r))
            regs += ('  {{ J a(Json::arrayValue); for (const auto& y : x.{0}) '
                     '{{ J e(Json::arrayValue); e.append(J(y.first)); '
                     'e.append(y.second ? dump(*y.second) : J()); a.append(e);'
                     ' }} o[{1}] = pack("map", a); }}\n').format(
                         r, q('registry ' + r))
        out.append(self.function(self.s, note, regs))
        out.append(MAIN.replace('SPACE', self.space).replace(
            'GRAPH', refsem.camel(self.s['name'])).replace(
                'VAR', self.s['name'].lower()))
        return ''.join(out)


HEAD = '''#include "jsoncpp.h"
#include "parse.h"
#include "types.h"

#include <chrono>
#include <fstream>
#include <iostream>
#include <iterator>
#include <map>
#include <unistd.h>

typedef Json::Value J;
std::map<const void*, J> instances;

J pack(const char* tag, const J& v) {
  J a(Json::arrayValue);
  a.append(J(tag));
  a.append(v);
  return a;
}
J pack(const char* tag, const J& v, const J& w) {
  J a = pack(tag, v);
  a.append(w);
  return a;
}
J instance_of(const char* r, const std::string& id) {
  return pack("instance", J(r), J(id));
}
J instance(const void* p) {
  if (!p) return J("null pointer");
  auto it = instances.find(p);
  return it == instances.end() ? J("dangling") : it->second;
}
J numbers(std::initializer_list<int> l) {
  J a(Json::arrayValue);
  for (int i : l) a.append(J(i));
  return a;
}

'''
DATES = {'ctime': '''
J date_of(const struct tm& t) {
  return pack("date", numbers({t.tm_year + 1900, t.tm_mon + 1, t.tm_mday}));
}
J time_of(const struct tm& t) {
  return pack("time", numbers({t.tm_hour, t.tm_min, t.tm_sec}));
}
J datetime_of(const struct tm& t) {
  return pack("datetime", numbers({t.tm_year + 1900, t.tm_mon + 1, t.tm_mday,
                                   t.tm_hour, t.tm_min, t.tm_sec}));
}

''', 'date.h': '''
J date_of(const date::local_days& d) {
  date::year_month_day y(d);
  return pack("date", numbers({int(y.year()), int(unsigned(y.month())),
                               int(unsigned(y.day()))}));
}
J time_of(const date::time_of_day<std::chrono::seconds>& t) {
  long s = t.to_duration().count();
  return pack("time", numbers({int(s / 3600), int(s / 60 % 60),
                               int(s % 60)}));
}
J datetime_of(const date::local_seconds& t) {
  auto d = date::floor<date::days>(t);
  date::year_month_day y(d);
  long s = (t - d).count();
  return pack("datetime", numbers({int(y.year()), int(unsigned(y.month())),
                                   int(unsigned(y.day())), int(s / 3600),
                                   int(s / 60 % 60), int(s % 60)}));
}

'''}
MAIN = '''int main(int argc, char** argv) {
  (void)argc;
  std::ifstream f(argv[1]);
  std::string text((std::istreambuf_iterator<char>(f)),
                   std::istreambuf_iterator<char>());
  J req = J::parse(text);
  J obs(Json::objectValue);
  SPACE::GRAPH graph;
  alarm(20);
  try {
    SPACE::parse::Errors errors(req["cap"].asUInt());
    const J& data = req["data"];
    SPACE::jsoncpp::VAR_from(data, "REF", &graph, &errors);
    J list(Json::arrayValue);
    for (const auto& e : errors.get()) {
      J x(Json::arrayValue);
      x.append(J(e.ref));
      x.append(J(e.message));
      list.append(x);
    }
    obs["errors"] = list;
    obs["accepted"] = J(errors.empty());
    if (errors.empty()) obs["dump"] = dump(graph);
  } catch (const std::exception& e) {
    obs["raised"] = J(std::string(e.what()));
  }
  std::cout << obs.dump() << std::endl;
  if (!obs.isMember("accepted") || !obs["accepted"].asBool()) return 0;
  J out(Json::objectValue);
  try {
    out["serialised"] = SPACE::jsoncpp::serialize_VAR(graph);
  } catch (const std::exception& e) {
    out["serialise_raised"] = J(std::string(e.what()));
  }
  std::cout << out.dump() << std::endl;
  return 0;
}
'''


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (4 * 2**30, 4 * 2**30))


def drive(req, files, repo, unmark, timeout=300):
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    d = tempfile.mkdtemp(prefix='runcpp', dir=base)
    try:
        for n, t in files.items():
            if n.endswith(('.cpp', '.h')) and not n.startswith('test'):
                with open(os.path.join(d, n), 'w') as f:
                    f.write(t)
        with open(os.path.join(d, 'drive_main.cpp'), 'w') as f:
            f.write(Dump(req['schema']).source('data' in req))
        srcs = [n for n in ('parse.cpp', 'jsoncpp.cpp', 'drive_main.cpp')]
        p = subprocess.run(
            ['g++', '-w', '-std=c++17', '-O0', '-I' + d,
             '-I' + os.path.join(ROOT, 'replay', 'cpp'), '-I' + os.path.join(
                 repo, 'test_dependencies/cpp/date-2.4.1/include'),
             '-o', os.path.join(d, 'exe')] +
            [os.path.join(d, n) for n in srcs] +
            (['-lboost_filesystem', '-lboost_system'] if 'boost' in req[
                'schema']['cpp'].get('path_as', '') else []),
            capture_output=True, text=True, timeout=timeout)
        if p.returncode != 0:
            return {'build_error': p.stderr.replace(d + '/', '')[:2000]}
        if 'data' not in req:
            return {'built': True}
        with open(os.path.join(d, 'req.json'), 'w') as f:
            json.dump({'data': unmark(req['data']),
                       'cap': req.get('cap', 1)}, f)
        env = dict(os.environ, TIME_ZONES=os.path.join(d, 'zones'))
        if Dump(req['schema']).lib != 'ctime':
            with open(env['TIME_ZONES'], 'w') as f:
                f.write('\n'.join(sorted(refsem.timezones())) + '\n')
        p = subprocess.run([os.path.join(d, 'exe'),
                            os.path.join(d, 'req.json')], env=env, cwd=d,
                           preexec_fn=limit,
                           capture_output=True, text=True, timeout=60)
        obs = {}
        for line in p.stdout.splitlines():
            obs.update(json.loads(line))
        if p.returncode != 0:
            what = 'ended with {}'.format(p.returncode) + (
                ' (does not end)' if p.returncode == -14 else '')
            if 'accepted' in obs:
                obs['serialise_raised'] = what
            else:
                obs['raised'] = what
        return obs
    finally:
        shutil.rmtree(d, ignore_errors=True)

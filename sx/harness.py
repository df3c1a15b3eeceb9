"""Running units, judging obligations, known findings, evidence."""
import collections
import json
import multiprocessing
import os
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
PY = '/opt/venv/bin/python'
sys.path.insert(0, os.path.join(ROOT, 'replay'))


class Finding:
    def __init__(self, d):
        self.__dict__.update(d)


def known_findings(prop):
    """Listed findings of a property (``fixed`` entries suppress nothing)."""
    path = os.path.join(ROOT, 'known_findings.json')
    with open(path) as f:
        items = json.load(f)['findings']
    return [Finding(x) for x in items if prop in x['properties']]


class Report:
    """What one unit found."""

    def __init__(self, name):
        self.name = name
        self.violations = []
        self.findings = {}
        self.inconclusive = []
        self.unconfirmed = []
        self.reach = collections.Counter()
        self.stats = {}
        self.functions = set()
        self.notes = set()
        self.samples = []
        self.wall = 0.0
        self.replays = 0

    def sample(self, x, limit=2):
        if len(self.samples) < limit:
            self.samples.append(x)


class Unit:
    """A unit of work: ``fn(report, deadline)`` in a worker process."""

    def __init__(self, name, fn, *args, **kw):
        self.name = name
        self.fn = fn
        self.args = args
        self.kw = kw


_UNITS = []

# a check stops after this many violations
ENOUGH = 4


def _work(job):
    i, limit = job
    u = _UNITS[i]
    r = Report(u.name)
    t = time.time()
    from sx import core, gosrv, pipeline
    pipeline.forget_tmpdir()
    gosrv.forget()
    e = core.set_engine(core.Engine(deadline=t + limit))
    try:
        u.fn(r, e, *u.args, **u.kw)
    except core.Budget as ex:
        r.inconclusive.append('{}: {}'.format(u.name, ex))
    except core.Unsupported as ex:
        r.inconclusive.append('{}: not modelled: {}'.format(u.name, ex))
    except RecursionError as ex:
        r.inconclusive.append('{}: recursion limit'.format(u.name))
    except Exception:
        r.inconclusive.append('{}: {}'.format(
            u.name, traceback.format_exc(limit=-6)))
    r.stats = e.stats.as_dict()
    r.notes |= e.notes
    r.wall = time.time() - t
    r.functions = sorted(r.functions)
    r.notes = sorted(r.notes)
    return i, r


def run_units(units, limit, total, procs=None, log=None):
    global _UNITS
    _UNITS = units
    procs = procs or min(8, os.cpu_count() or 1)
    out = [None] * len(units)
    t = time.time()
    bad = 0
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs, maxtasksperchild=12) as pool:
        it = pool.imap_unordered(_work, [(i, limit)
                                         for i in range(len(units))])
        while True:
            left = total - (time.time() - t)
            try:
                i, r = it.next(timeout=max(0.1, left))
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                pool.terminate()
                break
            out[i] = r
            if log:
                log(r)
            bad += len(r.violations)
            if bad >= ENOUGH:
                pool.terminate()
                break
    for i, u in enumerate(units):
        if out[i] is None:
            out[i] = Report(u.name)
            out[i].inconclusive.append(
                u.name + (': skipped after other violations'
                          if bad >= ENOUGH else
                          ': not finished within the time of the check'))
    return out


# ---------------------------------------------------------------------------
# replays
# ---------------------------------------------------------------------------


def drive_py(req, timeout=120):
    p = subprocess.run(
        [PY, '-W', 'ignore', os.path.join(ROOT, 'replay', 'py_driver.py'),
         REPO], input=json.dumps(req), capture_output=True, text=True,
        timeout=timeout)
    if p.returncode != 0:
        return {'driver_error': p.stderr[-2000:]}
    return json.loads(p.stdout, object_pairs_hook=collections.OrderedDict)


def generate_real(req, lang, timeout=120):
    """Output of the real compiler: {'files'} or what went wrong."""
    p = subprocess.run(
        [PY, '-W', 'ignore', os.path.join(ROOT, 'replay', 'gen_driver.py'),
         REPO, lang], input=json.dumps(req), capture_output=True, text=True,
        timeout=timeout)
    if p.returncode != 0:
        return {'driver_error': p.stderr[-2000:]}
    return json.loads(p.stdout)


def unmark(x):
    """JSON value without the marks of ordered dictionaries."""
    if isinstance(x, dict):
        if set(x) == {'__odict__'}:
            return {k: unmark(v) for k, v in x['__odict__']}
        return {k: unmark(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [unmark(y) for y in x]
    return x


def drive_go(req, timeout=300):
    """Build and run the real generated Go code on one input."""
    import refsem
    import shutil
    import tempfile
    from sx import gosrv
    obs = generate_real(req, 'go')
    if 'files' not in obs:
        return obs
    d = tempfile.mkdtemp(prefix='run', dir=gosrv.scratch())
    try:
        pkg = os.path.join(d, 'src', 'somegraph')
        os.makedirs(pkg)
        os.makedirs(os.path.join(d, 'src', 'drive'))
        for n, t in obs['files'].items():
            if n.endswith('.go') and not n.endswith('_test.go'):
                with open(os.path.join(pkg, n), 'w') as f:
                    f.write(t)
        with open(os.path.join(ROOT, 'replay', 'go_main.txt')) as f:
            text = f.read()
        if 'data' in req:
            main = text.replace('GRAPH', refsem.camel(req['schema']['name']))
        else:
            main = 'package main\n\nimport _ "somegraph"\n\nfunc main() {}\n'
        with open(os.path.join(d, 'src', 'drive', 'main.go'), 'w') as f:
            f.write(main)
        env = dict(gosrv.env(), GOPATH=d)
        p = subprocess.run([gosrv.GO, 'build', '-o', os.path.join(d, 'exe'),
                            'drive'], env=env, cwd=d, capture_output=True,
                           text=True, timeout=timeout)
        if p.returncode != 0:
            return {'build_error': p.stderr[-2000:]}
        if 'data' not in req:
            return {'built': True}
        p = subprocess.run([os.path.join(d, 'exe')], env=env, cwd=d,
                           capture_output=True, text=True, timeout=60,
                           input=json.dumps({'data': unmark(req['data']),
                                             'cap': req.get('cap', 1)}))
        if p.returncode != 0:
            return {'driver_error': p.stderr[-2000:]}
        return json.loads(p.stdout)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def drive_cpp(req, timeout=300):
    """Build and run the real generated C++ code on one input."""
    from sx import cppdrive
    obs = generate_real(req, 'cpp')
    if 'files' not in obs:
        return obs
    return cppdrive.drive(req, obs['files'], REPO, unmark, timeout)


def drive_snippet(code, timeout=120):
    """Run a snippet on the real package; it prints JSON."""
    p = subprocess.run(
        [PY, '-W', 'ignore', '-c', code], capture_output=True, text=True,
        timeout=timeout, cwd='/', env=dict(
            os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1'))
    return p.returncode, p.stdout, p.stderr


def save_replay(prop, n, data):
    d = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '{}-{}.json'.format(prop, n))
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, default=str)
        f.write('\n')
    return path


def replay(path):
    """Run a stored counterexample on the real code again."""
    import judge
    with open(path) as f:
        v = json.load(f, object_pairs_hook=collections.OrderedDict)
    print(v['what'])
    if 'op' in v:
        from sx import fn
        out, err = fn.drive([[v['mod'], v['op'], v['request']]])
        print(json.dumps(v['request'], indent=1)[:3000])
        print(out, err)
        return 1 if out and out[0].get('failed') else 0
    if 'request' in v:
        obs = DRIVERS[v['lang']](v['request'])
        verdict = judge.judge(v['request'], obs, v['lang'])
        print(json.dumps(obs, indent=1, default=str)[:4000])
        for a, t in verdict:
            print('{}: {}'.format(a, t))
        return 1 if verdict else 0
    code, out, err = drive_snippet(v['snippet'])
    print(out, err)
    return 1 if v.get('expect') != out.strip() else 0


DRIVERS = {'py': drive_py, 'go': drive_go, 'cpp': drive_cpp}

# ---------------------------------------------------------------------------
# result of a check
# ---------------------------------------------------------------------------


def finish(prop, tier, seed, reports, started, level, bounds, extra=None,
           assumptions=(), what=''):
    """Print the outcome, write the evidence and give the exit code."""
    tot = collections.Counter()
    reach = collections.Counter()
    functions = set()
    notes = set()
    samples = []
    findings = {}
    violations = []
    inconclusive = []
    unconfirmed = []
    for r in reports:
        for k, v in r.stats.items():
            tot[k] += v
        reach.update(r.reach)
        functions.update(r.functions)
        notes.update(r.notes)
        samples.extend(r.samples)
        for k, v in r.findings.items():
            findings.setdefault(k, v)
        violations.extend(r.violations)
        inconclusive.extend(r.inconclusive)
        unconfirmed.extend(r.unconfirmed)
    code = 0
    for k, v in sorted(findings.items()):
        print('KNOWN-FINDING: property={} {}'.format(prop, v))
    seen = set()
    shown = 0
    for n, v in enumerate(violations):
        if v['what'] in seen or shown >= 10:
            continue
        seen.add(v['what'])
        shown += 1
        path = save_replay(prop, shown, v)
        print('VIOLATION property={} replay={}'.format(prop, path))
        print('  ' + v['what'][:600])
        code = 1
    for x in unconfirmed[:5]:
        print('UNCONFIRMED: ' + str(x)[:1500])
    for x in inconclusive[:8]:
        print('INCONCLUSIVE: ' + str(x)[:1500])
    if code == 0 and unconfirmed:
        code = 3
    if code == 0 and not tot['obligations']:
        print('no obligation was discharged')
        code = 3
    missing = [k for k, v in reach.items() if v == 0]
    wall = time.time() - started
    cov = {
        'explanation': what,
        'bounds': bounds,
        'assumptions': list(assumptions),
        'functions_encoded': sorted(functions),
        'units': len(reports),
        'obligations_discharged': tot['obligations'],
        'queries': tot['queries'],
        'solver_seconds': round(tot['solver_s'], 2),
        'unknown_answers': tot['unknown'],
        'concretisations': tot['concretisations'],
        'reachability_witnesses': dict(reach),
        'never_reached': missing,
        'known_findings_observed': sorted(findings),
        'violations': len(violations),
        'inconclusive': inconclusive[:50],
        'unconfirmed_counterexamples': len(unconfirmed),
        'cut_paths': tot['cut_paths'],
        'notes': sorted(notes)[:50],
        'samples': samples[:8],
        'states': tot['paths'],
        'transitions': tot['branches'],
        'traces_validated_against_impl': sum(r.replays for r in reports),
    }
    cov.update(extra or {})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': cov, 'wall_s': round(wall, 2)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    print('{}: {} units, {} paths, {} obligations, {} queries, solver {:.1f}s,'
          ' wall {:.1f}s, exit {}'.format(
              prop, len(reports), tot['paths'], tot['obligations'],
              tot['queries'], tot['solver_s'], wall, code))
    return code

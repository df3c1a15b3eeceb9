"""Builds and runs the Go front end (``godump``); one server per check."""
import atexit
import json
import os
import shutil
import socket
import subprocess
import tempfile

from sx import core

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARED_CACHE = '/opt/vp/cache/go-build'
GO = next((p for p in ('/usr/local/bin/go', '/opt/veriftools/go1.27.3/bin/go')
           if os.path.exists(p)), 'go')
_STATE = None


def scratch():
    """Scratch directory of this run (with the build cache of Go)."""
    global _STATE
    if _STATE is None:
        d = tempfile.mkdtemp(prefix='sxgo')
        _STATE = {'dir': d, 'pid': os.getpid(), 'proc': None, 'conn': None}
        cache = os.path.join(d, 'cache')
        if os.path.isdir(SHARED_CACHE):
            shutil.copytree(SHARED_CACHE, cache, symlinks=True)
        else:
            os.mkdir(cache)
        atexit.register(_clean)
    return _STATE['dir']


def _clean():
    s = _STATE
    if s is None or s['pid'] != os.getpid():
        return
    if s['proc'] is not None:
        s['proc'].kill()
        s['proc'].wait()
    shutil.rmtree(s['dir'], ignore_errors=True)


_ROOT = None


def goroot():
    global _ROOT
    if _ROOT is None:
        _ROOT = subprocess.run([GO, 'env', 'GOROOT'], check=True, text=True,
                               capture_output=True).stdout.strip()
    return _ROOT


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith('GO')}
    e.update(GOROOT=goroot(), GOCACHE=os.path.join(scratch(), 'cache'), GO111MODULE='off',
             GOFLAGS='-trimpath', GOPROXY='off', GOTOOLCHAIN='local',
             GOTELEMETRY='off', CGO_ENABLED='0', LC_ALL='C.UTF-8', TZ='UTC',
             GOPATH=os.path.join(scratch(), 'path'), HOME=scratch())
    return e


def start():
    """Start the server (before the workers are forked)."""
    d = scratch()
    if _STATE['proc'] is not None:
        return
    exe = os.path.join(d, 'godump')
    subprocess.run([GO, 'build', '-o', exe, 'main.go'], check=True, env=env(),
                   cwd=os.path.join(ROOT, 'godump'), timeout=600)
    p = subprocess.Popen([exe, os.path.join(d, 'sock')],
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         env=env(), cwd=d)
    _STATE['proc'] = p
    if p.stdout.readline().strip() != b'ready':
        raise RuntimeError('the Go front end did not start')


def forget():
    """In a worker: connections are not shared."""
    if _STATE is not None:
        _STATE['conn'] = None


def ask(files, check=False):
    if _STATE is None or _STATE['proc'] is None:
        start()
    c = _STATE['conn']
    if c is None or _STATE.get('conn_pid') != os.getpid():
        s = socket.socket(socket.AF_UNIX)
        s.connect(os.path.join(_STATE['dir'], 'sock'))
        c = _STATE['conn'] = s.makefile('rwb')
        _STATE['conn_pid'] = os.getpid()
    c.write(json.dumps({'Files': files, 'Check': check}).encode() + b'\n')
    c.flush()
    r = json.loads(c.readline())
    if 'failure' in r:
        raise core.Unsupported('Go front end: ' + r['failure'])
    return r

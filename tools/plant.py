#!/usr/bin/env python3
"""Keeps planted bugs, and runs checks against them in scratch copies of /repo.

plant.py run ID...        runs the tests, the demonstration and the check of each planted bug
plant(...)                from a script, keeps a new one under /verif/seeded if it is confirmed"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
BASE = '38d925f'


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def copy():
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    w = os.path.join(d, 'repo')
    sh(['git', 'clone', '-q', '/repo', w], '/')
    return d, w


def tests(w):
    _, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors',
                 '--ignore=gb/hypergraph/tests/test_mysql.py', '-rA', 'gb'], w, {'PYTHONPATH': w})
    for n in ('test.db', 'test.db-journal'):
        if os.path.exists(os.path.join(w, n)):
            os.remove(os.path.join(w, n))
    ok = set(line.split()[1].replace('/', '.').replace('.py::', '.') for line in out.splitlines() if line.startswith('PASSED'))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [t for t in stable if t.replace('::', '.') not in set(x.replace('::', '.') for x in ok)]


def confirm(d, w, bug):
    """Problem of a planted bug, or None."""
    demo = os.path.join(d, 'demo')
    shutil.copytree(bug, demo)
    env = {'PYTHONPATH': w}
    code, out = sh(['bash', os.path.join(demo, 'demo.sh')], w, env, 300)
    if code != 0:
        return 'the demonstration fails without the change: %s' % out[-800:]
    code, out = sh(['git', 'apply', os.path.join(bug, 'patch.diff')], w)
    if code != 0:
        return 'does not apply: %s' % out
    missing = tests(w)
    if missing:
        return 'tests fail: %s' % missing[:5]
    code, out = sh(['bash', os.path.join(demo, 'demo.sh')], w, env, 300)
    if code == 0:
        return 'the demonstration passes with the change'
    return None


def check(w, prop):
    code, out = sh(['./check', prop], VERIF, {'MC_REPO': w, 'MC_EVIDENCE': os.path.join(os.path.dirname(w), 'evidence')}, 900)
    lines = [x for x in out.splitlines() if x.startswith(('what:', 'case:', 'VIOLATION', 'OK', 'CHECK'))]
    return code, '\n'.join(x[:300] for x in lines) or out[-500:]


def run(bid, extra=()):
    bug = os.path.join(SEEDED, bid)
    prop = json.load(open(os.path.join(bug, 'meta.json')))['property']
    d, w = copy()
    try:
        problem = confirm(d, w, bug)
        if problem:
            return '%s: NOT CONFIRMED %s' % (bid, problem)
        res = []
        for p in (prop,) + tuple(extra):
            code, text = check(w, p)
            res.append('%s %s: %s\n%s' % (bid, p, {0: 'MISSED', 1: 'CAUGHT'}.get(code, 'ERROR %s' % code), text))
        return '\n'.join(res)
    finally:
        shutil.rmtree(d)


def plant(bid, prop, edits, demo, needs, breaks, run_check=True):
    """edits: (file, old, new)."""
    d, w = copy()
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                print('%s: %d places for %r' % (bid, s.count(old), old))
                return
            open(p, 'w').write(s.replace(old, new))
        _, diff = sh(['git', 'diff'], w)
        sh(['git', 'checkout', '-q', '--', '.'], w)
        bug = os.path.join(SEEDED, bid)
        os.makedirs(bug, exist_ok=True)
        open(os.path.join(bug, 'patch.diff'), 'w').write(diff)
        open(os.path.join(bug, 'demo.py'), 'w').write(demo.lstrip('\n'))
        open(os.path.join(bug, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        with open(os.path.join(bug, 'meta.json'), 'w') as f:
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, f, indent=1)
        problem = confirm(d, w, bug)
        if problem:
            print('%s: NOT CONFIRMED %s' % (bid, problem))
            shutil.rmtree(bug)
            return
        if run_check:
            code, text = check(w, prop)
            print('%s %s: %s\n%s' % (bid, prop, {0: 'MISSED', 1: 'CAUGHT'}.get(code, 'ERROR %s' % code), text), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'run':
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(1) as ex:
            for r in ex.map(run, ids):
                print(r, flush=True)

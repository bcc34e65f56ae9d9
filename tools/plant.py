"""Builds the planted bugs of tools/plants.py in /verif/seeded.

usage: plant.py [ID ...]   (all when no ID is given; existing ones are rebuilt)

Each bug is applied to a scratch copy of /repo; it is kept when the changed lines are lines of the
original repository, the patch applies with git apply, the 48 stable tests pass with it, and the
demonstration passes without and fails with it.
"""
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
BASE = '6fffa1b'
PY = '/opt/venv/bin/python'
SH = '#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec %s -W ignore "$(dirname "$0")/demo.py"\n' % PY
UTIL = open(HERE + '/demo_util.py').read()


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def stable():
    d = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'passed', 'tests', 'pass'):
        if k in d:
            return set(d[k])
    raise SystemExit('BASELINE: %s' % list(d))


def tests_pass(work):
    r = run('%s -m pytest -q -p no:cacheprovider -W ignore -o "python_files=test_*.py *_test.py tests.py" tests 2>&1 | tail -3' % PY,
            cwd=work, env=dict(os.environ, PYTHONPATH=work, PYTHONDONTWRITEBYTECODE='1'))
    m = re.search(r'(\d+) passed', r.stdout)
    ok = m and int(m.group(1)) >= 48 and 'failed' not in r.stdout
    return bool(ok), r.stdout.strip()


def build(bug):
    work = '/tmp/plant_%d' % os.getpid()
    run('cp -a /repo %s' % work)
    try:
        files = set()
        for f, old, new in bug['edits']:
            p = os.path.join(work, f)
            s = open(p).read()
            n = bug.get('count', {}).get(old, 1)
            if s.count(old) < 1 or (s.count(old) != n):
                return 'edit does not match (%d): %r' % (s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
            files.add(f)
        diff = run('git diff -U3', cwd=work).stdout
        # changed lines are original
        for f in files:
            blame = run('git blame -s -l %s HEAD -- %s' % ('', f), cwd=work).stdout.split('\n')
            own = run('git log --format=%%H %s..HEAD' % BASE, cwd=work).stdout.split()
            d0 = run('git diff -U0 -- %s' % f, cwd=work).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? \+', d0, re.M):
                a, c = int(m.group(1)), int(m.group(2) or 1)
                for ln in range(a, a + c):
                    if blame[ln - 1].split()[0] in own:
                        return 'line %s:%d is not original' % (f, ln)
                if c == 0 and not bug.get('insert'):
                    return 'pure insertion at %s:%d' % (f, a)
        ok, out = tests_pass(work)
        if not ok:
            return 'tests: ' + out
        d = '%s/seeded/%s' % (VERIF, bug['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(bug['demo'].strip() + '\n')
        open(d + '/util.py', 'w').write(UTIL)
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': bug['property'], 'needs': bug['needs'],
                   'what_it_breaks': bug['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        with_ = run('bash %s/demo.sh' % d, cwd=work)
        clean = run('git checkout -q -- . && bash %s/demo.sh' % d, cwd=work)
        app = run('git apply --check %s/patch.diff' % d, cwd=work)
        if clean.returncode or not with_.returncode or app.returncode:
            shutil.rmtree(d, ignore_errors=True)
            return 'demo: clean %d with %d apply %d\n%s' % (
                clean.returncode, with_.returncode, app.returncode,
                clean.stderr[-600:] + app.stderr[-300:])
        return None
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    from plants import BUGS
    want = sys.argv[1:]
    ids = [b['id'] for b in BUGS]
    assert len(set(ids)) == len(ids)
    for b in BUGS:
        if want and b['id'] not in want:
            continue
        if not want and os.path.exists('%s/seeded/%s/patch.diff' % (VERIF, b['id'])):
            continue
        e = build(b)
        print('%-28s %s' % (b['id'], 'ok' if e is None else 'REJECTED ' + e), flush=True)

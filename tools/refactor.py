"""Applies the behaviour-preserving edits of refactors.py to a copy of /repo and runs the tests and the checks on it.

usage: refactor.py [-p C01,C02..] [ID | bundle ...]
"""
import os
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactors import R

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(name, refs, props):
    work = '/tmp/refactor_%s' % name
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        subprocess.run('cp -a /repo %s/repo && cp -a %s %s/verif && rm -rf %s/verif/seeded' % (
            work, VERIF, work, work), shell=True, check=True)
        for id, b, f, edits in refs:
            path = '%s/repo/maxlike/%s' % (work, f)
            s = open(path).read()
            for old, new in edits:
                if s.count(old) < 1:
                    print(name, id, 'EDIT NOT FOUND:', old[:80])
                    return
                s = s.replace(old, new, 1)
            open(path, 'w').write(s)
        r = subprocess.run('cd %s/repo && /opt/venv/bin/python -m pytest -q -p no:cacheprovider -W ignore '
                           '-o "python_files=test_*.py *_test.py tests.py" tests 2>&1 | tail -15' % work, shell=True,
                           capture_output=True, text=True)
        print(name, r.stdout.strip().splitlines()[-1], flush=True)
        if 'failed' in r.stdout or 'error' in r.stdout:
            print(r.stdout)
        for p in props:
            t = time.time()
            r = subprocess.run(['/opt/venv/bin/python', 'check.py', p], cwd=work + '/verif', capture_output=True,
                               text=True, env=dict(os.environ, VERIF_REPO=work + '/repo', VERIF_TIER='quick'))
            tail = [l for l in r.stdout.splitlines() if l.strip()]
            print('%s %s rc=%d %.0fs %s' % (name, p, r.returncode, time.time() - t, (tail or [''])[-1][:150]), flush=True)
            if r.returncode:
                print('\n'.join(tail[:8]), r.stderr[-500:], flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    args = sys.argv[1:]
    props = ['C%02d' % i for i in range(1, 23)]
    if '-p' in args:
        i = args.index('-p')
        props = [p for p in args[i + 1].split(',') if p]
        del args[i:i + 2]
    for a in args or sorted({r[1] for r in R}):
        refs = [r for r in R if a in (r[0], r[1])]
        run(a, refs, props)

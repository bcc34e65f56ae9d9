"""Runs the quick check of the property of each planted bug against a copy of /repo with the bug.

usage: catch.py [-j N] [-a] [ID ...]     -a: all the checks, not only the one of the property
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(d, props=None):
    bug = os.path.basename(d)
    meta = json.load(open(d + '/meta.json'))
    work = '/tmp/catch_%s' % bug
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        # the machinery finds /repo through VERIF_REPO (only here; MANIFEST's commands never set it)
        subprocess.run('cp -a /repo %s/repo && cp -a %s %s/verif && rm -rf %s/verif/seeded' % (
            work, VERIF, work, work), shell=True, check=True)
        subprocess.run('git apply %s/patch.diff' % d, shell=True, check=True, cwd=work + '/repo')
        out = []
        for p in props or [meta['property']]:
            t = time.time()
            r = subprocess.run(['/opt/venv/bin/python', 'check.py', p], cwd=work + '/verif',
                               capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=work + '/repo', VERIF_TIER='quick'))
            hit = r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout
            out.append((p, hit, r.returncode, time.time() - t,
                        '' if hit or not r.returncode else (r.stderr or r.stdout)[-300:]))
        return bug, meta['property'], out
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    args = sys.argv[1:]
    j = 4
    if '-j' in args:
        i = args.index('-j')
        j = int(args[i + 1])
        del args[i:i + 2]
    props = None
    if '-a' in args:
        args.remove('-a')
        props = ['C%02d' % i for i in range(1, 23)]
    ds = sorted(glob.glob(VERIF + '/seeded/*'))
    if args:
        ds = [d for d in ds if os.path.basename(d) in args]
    with ThreadPoolExecutor(j) as ex:
        for bug, prop, out in ex.map(lambda d: one(d, props), ds):
            for p, hit, rc, t, err in out:
                if p == prop or hit:
                    print('%-28s %s %s rc=%d %.0fs %s' % (
                        bug, p, 'caught' if hit else 'MISSED', rc, t, err), flush=True)

"""Small mutations of the source, generated from the syntax tree, to see what the checks do not notice.

usage: mutate.py gen OUT.json [FILE ...]      mutants that survive the stable tests
       mutate.py run IN.json OUT.json [N]     which of them the checks report (a sample of N)

Works on scratch copies under /tmp/mut only.
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = {
    'maxlike/tensor/tensor.py': ['C02', 'C03', 'C01', 'C22', 'C13', 'C07'],
    'maxlike/func/func_base.py': ['C06', 'C07', 'C08', 'C22', 'C04', 'C13'],
    'maxlike/func/func_op.py': ['C06', 'C07', 'C08', 'C22'],
    'maxlike/func/func.py': ['C04', 'C08', 'C22'],
    'maxlike/func/func_proba.py': ['C05', 'C08', 'C22'],
    'maxlike/func/sigmoid.py': ['C04', 'C08', 'C22'],
    'maxlike/func/matrix.py': ['C11', 'C10', 'C08', 'C22'],
    'maxlike/func/tennis.py': ['C09', 'C08', 'C22'],
    'maxlike/func/copula.py': ['C18', 'C22'],
    'maxlike/maxlike.py': ['C12', 'C13', 'C14', 'C16', 'C22'],
    'maxlike/maxlike_base.py': ['C15', 'C17', 'C14', 'C16', 'C12', 'C22'],
    'maxlike/skellam.py': ['C19', 'C20', 'C22'],
    'maxlike/preprocessing.py': ['C21', 'C22'],
}
# how many checks to try
NCHECKS = int(os.environ.get('NCHECKS', '9'))
# the check to try first, by line
FIRST = {
    'maxlike/func/matrix.py': [(0, 'C11'), (62, 'C10')],
    'maxlike/skellam.py': [(0, 'C19'), (71, 'C20')],
    'maxlike/maxlike_base.py': [(0, 'C15'), (158, 'C17'), (213, 'C15'), (295, 'C17'), (319, 'C14'), (432, 'C16')],
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
       ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '*', ast.BitAnd: '|',
       ast.BitOr: '&', ast.Mod: '+'}
AUG = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=', ast.Div: '*='}


def mutants(src):
    lines = src.encode().splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))
    raw = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def put(n, new, a=None, b=None):
        s, e = span(n)
        s, e = (s if a is None else a), (e if b is None else b)
        m = (raw[:s].decode() + new + raw[e:].decode())
        try:
            ast.parse(m)
        except SyntaxError:
            return
        out.append((n.lineno, raw[s:e].decode(), new, m))

    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
            doc.add(n.body[0])
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            a, b = span(l)[1], span(r)[0]
            put(n, ' %s ' % CMP[type(n.ops[0])], a, b)
            if isinstance(n.ops[0], (ast.Lt, ast.Gt)):
                put(n, ' > ' if isinstance(n.ops[0], ast.Lt) else ' < ', a, b)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            m = re.sub(r'(\*\*|//|[-+*/&|%])', lambda k: BIN[type(n.op)], mid, count=1)
            if not isinstance(n.left, ast.Constant) or not isinstance(n.left.value, str):
                put(n, m, a, b)
        elif isinstance(n, ast.AugAssign) and type(n.op) in AUG:
            a, b = span(n.target)[1], span(n.value)[0]
            put(n, ' %s ' % AUG[type(n.op)], a, b)
            put(n, 'pass')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, str(not n.value))
            elif isinstance(n.value, (int, float)):
                put(n, repr(n.value + 1))
                if n.value not in (0, 1):
                    put(n, repr(n.value - 1))
                elif n.value == 1:
                    put(n, '0')
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.USub) or isinstance(n.op, ast.Not) or isinstance(n.op, ast.Invert):
                put(n, '(' + text(n.operand) + ')')
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            put(n, ' or ' if isinstance(n.op, ast.And) else ' and ', a, b)
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            put(n.test, 'True')
            put(n.test, 'False')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, 'pass')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript):
            put(n, 'pass')
        elif isinstance(n, ast.Raise):
            put(n, 'pass')
        elif isinstance(n, (ast.Break, ast.Continue)):
            put(n, 'pass')
        if isinstance(n, ast.Call):
            if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                put(n, '%s, %s' % (text(n.args[1]), text(n.args[0])), span(n.args[0])[0], span(n.args[1])[1])
            if n.keywords:
                k = n.keywords[0]
                if k.arg and (len(n.args) or len(n.keywords) > 1):
                    pass
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for x, y in (('x_dim', 'y_dim'), ('x_map', 'y_map'), ('i', 'j'), ('p', 'q'), ('self', 'other')):
                if n.id == x:
                    put(n, y)
                elif n.id == y and y != 'other':
                    put(n, x)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for x, y in (('x_dim', 'y_dim'), ('x_map', 'y_map'), ('values', 'toarray()'), ('dim', 'n')):
                if n.attr == x and y not in ('n', 'toarray()'):
                    put(n, text(n.value) + '.' + y)
                elif n.attr == y:
                    put(n, text(n.value) + '.' + x)
    seen, res = set(), []
    for o in out:
        if o[3] not in seen and o[3] != src:
            seen.add(o[3])
            res.append(o)
    return res


def copy(k):
    d = '/tmp/mut/w%d' % k
    if not os.path.isdir(d):
        subprocess.run(['cp', '-a', '/repo', d], check=True)
    subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'], check=True)
    return d


def tests_ok(d):
    try:
        r = subprocess.run('ulimit -v 8000000; timeout 40 %s -m pytest -x -q -p no:cacheprovider -W ignore -o "python_files=test_*.py *_test.py '
                           'tests.py" tests 2>&1 | tail -3' % PY, shell=True, cwd=d, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1'))
    except Exception:
        return False
    m = re.search(r'(\d+) passed', r.stdout)
    return bool(m) and int(m.group(1)) >= 48 and 'failed' not in r.stdout and 'error' not in r.stdout


def gen(out, files):
    import queue
    q = queue.Queue()
    for k in range(8):
        copy(k)
        q.put(k)
    jobs = [(f,) + m for f in files for m in mutants(open('/repo/' + f).read())]
    print(len(jobs), 'mutants', flush=True)
    res = []

    def one(j):
        k = q.get()
        try:
            d = copy(k)
            open(os.path.join(d, j[0]), 'w').write(j[4])
            if tests_ok(d):
                res.append(j)
        finally:
            q.put(k)

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    res.sort(key=lambda j: (j[0], j[1], j[3]))
    json.dump(res, open(out, 'w'))
    print(len(res), 'survive')


def run(inp, out, n):
    import queue
    todo = json.load(open(inp))
    done = {}
    if os.path.exists(out):
        done = {tuple(d['mutant']): d for d in json.load(open(out))}
    random.Random(5).shuffle(todo)
    todo = [t for t in todo if (t[0], t[1], t[2], t[3]) not in done][:n]
    q = queue.Queue()
    P = 4
    for k in range(20, 20 + P):
        copy(k)
        q.put(k)
    base = os.path.join('/tmp/mut', 'verif')
    shutil.rmtree(base, ignore_errors=True)
    subprocess.run('git -C %s archive --prefix=verif/ HEAD | tar x -C /tmp/mut' % VERIF, shell=True, check=True)

    def one(j):
        k = q.get()
        try:
            d = copy(k)
            open(os.path.join(d, j[0]), 'w').write(j[4])
            r, t0 = {}, time.time()
            top = [c for l, c in FIRST.get(j[0], []) if l <= j[1]][-1:]
            for c in (top + [c for c in FILES[j[0]] if c not in top])[:NCHECKS]:
                p = subprocess.run('ulimit -v 20000000; timeout 300 %s check.py %s --first' % (PY, c), shell=True, cwd=base,
                                   env=dict(os.environ, VERIF_REPO=d, VERIF_JOBS='3', PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
                r[c] = p.returncode if p.returncode in (0, 1) else 2
                m = re.search(r'(\d+) undecided', p.stdout)
                if m and m.group(1) != '0':
                    r[c + 'u'] = int(m.group(1))
                if p.returncode == 1:
                    break
            done[tuple(j[:4])] = dict(mutant=j[:4], result=r, time=time.time() - t0)
            v = 'caught' if 1 in [x for y, x in r.items() if y[-1] != 'u'] else 'MISSED'
            print('%s %s:%d  %r -> %r  %s %.0fs' % (v, j[0], j[1], j[2][:60], j[3][:60], r, time.time() - t0), flush=True)
            json.dump(list(done.values()), open(out, 'w'))
        finally:
            q.put(k)

    with ThreadPoolExecutor(P) as ex:
        list(ex.map(one, todo))


if __name__ == '__main__':
    os.makedirs('/tmp/mut', exist_ok=True)
    if sys.argv[1] == 'gen':
        gen(sys.argv[2], sys.argv[3:] or list(FILES))
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 10 ** 9)

"""C11: CollapseMatrix."""
import itertools

import numpy as np

from vlib import sym as S
from vlib.engine import Case
from maxlike.func import CollapseMatrix
from maxlike.tensor import Tensor
from checks.flib import dense

BOUNDS = {'quick': 'joint matrices up to 3x4 (10x10 without leading axes), leading feature shapes up to rank 2 (2x3), every real cell value; '
                   'every sign triple for coefficients A,B in {-1,0,1,2}, C in {-1,0,1} and for every real (A,B,C) '
                   'on matrices up to 2x2 (one symbolic condition)',
          'thorough': 'matrices up to 4x4 with feature rank 3, symbolic conditions on 2x3'}


def sgn(v):
    return (v > 0) - (v < 0)


def spec_of(env, m, conds, lead):
    a, b = m.shape[-2:]
    out = np.empty(lead + (len(conds),), dtype=object if env.sym else float)
    for i in np.ndindex(*lead):
        for k, (A, B, C, s) in enumerate(conds):
            t = 0
            for x in range(a):
                for y in range(b):
                    if sgn(A * x + B * y + C) == s:
                        t = t + m[i + (x, y)]
            out[i + (k,)] = t
    return env.exact(out)


def collapse(env, lead, size, conds, kind, form):
    m = env.arr('m', lead + size)
    given = Tensor(m, dim=2) if kind == 'tensor' else m
    default = conds is None
    cs = [(1, -1, 0, 1), (1, -1, 0, 0), (1, -1, 0, -1)] if default else conds
    arg = None if default else (tuple(conds[0]) if form == 'tuple' else
                                (list(conds) if form == 'list' else iter(list(conds))))
    foo = CollapseMatrix() if default else CollapseMatrix(arg)
    spec = spec_of(env, m, cs, lead)
    n = len(cs)
    other = [np.ones((3,) + lead + (size[0], size[1] + 1)), np.ones((size[0] + 2, size[1]))]
    # matrices of other sizes come in between
    foo.grad([other[0]], 0)
    foo([other[1]])
    val = foo([given])
    env.eq('value', dense(val, ((), (), lead, (n,))), spec)
    if default:
        tot = np.empty(lead, dtype=object if env.sym else float)
        for i in np.ndindex(*lead):
            tot[i] = sum(m[i].ravel())
        env.eq('partition', dense(val, ((), (), lead, (n,))).sum(-1), tot)
    for o in other + [np.ones((1, size[1])), np.ones((size[0], 1))]:
        foo.eval([o])
        foo.grad([np.ones((1, size[1]))], 0)
        foo.hess([o], 0, 0)
    # gradient with respect to every cell, from the definition
    e = np.zeros(lead + size + lead + (n,), dtype=int)
    for i in np.ndindex(*lead):
        for x in range(size[0]):
            for y in range(size[1]):
                for k, (A, B, C, s) in enumerate(cs):
                    e[i + (x, y) + i + (k,)] = int(sgn(A * x + B * y + C) == s)
    env.eq('grad', dense(foo.grad([given], 0), (lead + size, (), lead, (n,))), e)
    h = foo.hess([given], 0, 0)
    env.eq('hess', dense(h, (lead + size, lead + size, lead, (n,))),
           np.zeros(lead + size + lead + size + lead + (n,), dtype=int))


def symbolic(env, size, s):
    """one condition with real coefficients"""
    m = env.arr('m', size)
    A, B, C = env.arr('A'), env.arr('B'), env.arr('C')
    foo = CollapseMatrix((A, B, C, s))
    sel = {}
    for x in range(size[0]):
        for y in range(size[1]):
            v = A * x + B * y + C
            if v > 0:
                g = 1
            elif v < 0:
                g = -1
            else:
                g = 0
            sel[x, y] = int(g == s)
    t = 0
    for k, v in sel.items():
        if v:
            t = t + m[k]
    env.eq('value', dense(foo([m]), ((), (), (), (1,))), env.exact([t]))
    e = np.zeros(size + (1,), dtype=int)
    for k, v in sel.items():
        e[k + (0,)] = v
    env.eq('grad', dense(foo.grad([m], 0), (size, (), (), (1,))), e)


def cases(tier):
    r = []
    T = tier == 'thorough'
    sizes = [(1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (3, 4)] + ([(4, 4), (1, 4)] if T else [])
    leads = [(), (1,), (2,), (2, 3), (3, 2)] + ([(2, 2, 2)] if T else [])
    for sz in sizes:
        for ld in leads:
            if len(ld) == 2 and sz[0] * sz[1] > 6 or len(ld) == 3 and sz[0] * sz[1] > 4:
                continue
            for kind in ('array', 'tensor'):
                if len(ld) == 3 and kind == 'array':
                    continue
                r.append(Case('default-%s-%s-%s' % ('x'.join(map(str, ld)), 'x'.join(map(str, sz)), kind),
                              collapse, lead=ld, size=sz, conds=None, kind=kind, form=None))
    allc = [(A, B, C, s) for A in (-1, 0, 1, 2) for B in (-1, 0, 1, 2) for C in (-1, 0, 1)
            for s in (-1, 0, 1)]
    for g in range(0, len(allc), 6):
        for ld in ((), (2,)):
            r.append(Case('list-%d-%s' % (g, len(ld)), collapse, lead=ld, size=(3, 3), conds=allc[g:g + 6],
                          kind='tensor', form='list'))
    for c in allc[::5]:
        r.append(Case('tuple-%s' % '_'.join(map(str, c)), collapse, lead=(2,), size=(2, 3), conds=[c],
                      kind='tensor', form='tuple'))
    for sz in [(6, 9), (9, 6), (10, 10)]:
        t = '%dx%d' % sz
        r.append(Case('large-%s' % t, collapse, lead=(), size=sz, conds=None, kind='tensor', form=None))
        r.append(Case('large-list-%s' % t, collapse, lead=(), size=sz, kind='array', form='list',
                      conds=[(3, -2, 1, 1), (1, 1, -9, 1), (1, -1, -4, 0), (-1, 2, -5, -1), (0, 1, -7, 0)]))
    for sz in [(1, 140), (140, 2), (1, 300)]:
        r.append(Case('long-%dx%d' % sz, collapse, lead=(), size=sz, conds=[(1, -1, 0, 0), (1, 1, -129, 1), (2, -3, 5, -1)],
                      kind='array', form='list'))
    for t, cs in (('fractions', [(.5, -1, .25, 1), (-.25, .75, -.5, 0), (1.5, -.5, 0, -1), (.125, .125, -.25, 0)]),
                  ('big', [(100, -99, 3, 1), (40000, 1, -80001, -1), (10 ** 6, -10 ** 6, 0, 0), (2 ** 33, -2 ** 32, 1, 1)]),
                  ('floats', [(1., -1., 0., 0.), (1., -1., 0., 1.), (1, 2., -4, -1.)])):
        r.append(Case('list-%s' % t, collapse, lead=(2,), size=(4, 5), conds=cs, kind='array', form='list'))
    r.append(Case('large-lead', collapse, lead=(4, 3), size=(3, 2), conds=None, kind='tensor', form=None))
    r.append(Case('rank-3', collapse, lead=(2, 1, 2), size=(2, 2), conds=None, kind='tensor', form=None))
    r.append(Case('iter', collapse, lead=(2,), size=(2, 3), conds=allc[3:40:7], kind='array', form='iter'))
    for sz in [(1, 1), (1, 2), (2, 2)] + ([(2, 3)] if T else []):
        for s in (1, 0, -1):
            r.append(Case('symbolic-%dx%d-%d' % (sz + (s,)), symbolic, size=sz, s=s, paths=600))
    return r

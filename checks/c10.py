"""C10: Markov chain functions."""
from fractions import Fraction

import numpy as np

from vlib.engine import Case
from maxlike.func import MarkovMatrix, MarkovVector
from maxlike.maxlike_base import Param
from maxlike.tensor import Tensor
from checks.flib import against, dense

BOUNDS = {'quick': 'size <= 3 and steps <= 4 (symbolic skew), size 4 with 3 steps, size 2 and 8 with 6 steps (unit skew); '
                   'size 2 with 30 and size 8 with 18 steps for all rates on a line (unit skew, with derivatives along the line, and a given skew); '
                   'rates of feature rank 0..2; every pair of positive rates with a + b < steps, '
                   'every real skew table',
          'thorough': 'size <= 5, steps <= 8; size 8 with 9 steps; size 8 with 18 steps on a line, with derivatives'}


def states(which, size):
    if which == 'matrix':
        return [(x, y) for x in range(size) for y in range(size)]
    return list(range(-size + 1, size))


def chain(which, size, steps, a, b, f):
    """the distribution after `steps` simultaneous transitions, from the
    definition: with probability a/steps*f the first side scores, with
    b/steps*f' the second; a move out of the frame is not made"""
    st = states(which, size)
    p = {s: 0 for s in st}
    p[(0, 0) if which == 'matrix' else 0] = 1
    u, v = a / steps, b / steps
    for _ in range(steps):
        q = {s: 0 for s in st}
        for s in st:
            if isinstance(p[s], int) and p[s] == 0:
                continue
            if which == 'matrix':
                x, y = s
                up, dn = (min(x + 1, size - 1), y), (x, min(y + 1, size - 1))
                w1, w2 = u * f[x, y], v * f[y, x]
            else:
                up, dn = min(s + 1, size - 1), max(s - 1, 1 - size)
                w1, w2 = u * f[s + size - 1], v * f[size - 1 - s]
            q[up] = q[up] + p[s] * w1
            q[dn] = q[dn] + p[s] * w2
            q[s] = q[s] + p[s] * (1 - w1 - w2)
        p = q
    return p


def ray(env, steps):
    """the rates along one line of the plane: polynomials in one variable"""
    t = env.var('t', ('open', 0, 1))
    return t, env.exact(t * Fraction(steps, 4)), env.exact(1 + t * Fraction(steps, 5))


def rates(env, shape, steps):
    a = env.arr('a', shape, 'pos')
    b = env.arr('b', shape, 'pos')
    for i in np.ndindex(*shape):
        env.assume(np.asarray(a)[i] + np.asarray(b)[i] < steps)
    return a, b


def table(env, which, size, skew):
    sh = (size, size) if which == 'matrix' else (2 * size - 1,)
    if skew == 'unit':
        return None, np.ones(sh, dtype=int)
    f = env.arr('f', sh, 'real' if skew == 'sym' else 'pos')
    return f, np.asarray(f)


def mk(which, size, steps, f):
    cls = {'matrix': MarkovMatrix, 'vector': MarkovVector}[which]
    return cls() if (size, steps, f is None) == (8, 18, True) else cls(size, steps, f)


def exact(env, which, size, steps, shape, skew, kind, parts):
    a, b = rates(env, shape, steps)
    f, ft = table(env, which, size, skew)
    aa, ba = np.asarray(a), np.asarray(b)
    nd = (size, size) if which == 'matrix' else (2 * size - 1,)
    spec = np.empty(shape + nd, dtype=object if env.sym else float)
    for i in np.ndindex(*shape):
        p = chain(which, size, steps, aa[i], ba[i], ft)
        for s in states(which, size):
            spec[i + (s if which == 'matrix' else (s + size - 1,))] = p[s]
    foo = mk(which, size, steps, f)
    given = [a, b]
    if kind == 'tensor':
        given = [Tensor(aa), Tensor(ba)]
    elif kind == 'param':
        given = [Param(env.exact(aa)), Param(env.exact(ba))]
    against(env, At(foo, given), [aa, ba], spec, nn=len(shape), nd=len(nd), both=False, parts=parts)


class At(object):
    def __init__(self, foo, p):
        self.foo, self.p = foo, p
        self.inner = foo

    def __call__(self, params):
        return self.foo(self.p)

    def grad(self, params, i):
        return self.foo.grad(self.p, i)

    def hess(self, params, i, j):
        return self.foo.hess(self.p, i, j)


def laws(env, which, size, steps, skew):
    a, b = rates(env, (), steps)
    f, ft = table(env, which, size, skew)
    foo = mk(which, size, steps, f)
    nd = (size, size) if which == 'matrix' else (2 * size - 1,)
    v = dense(foo([a, b]), ((), (), (), nd))
    w = dense(foo([b, a]), ((), (), (), nd))
    env.eq('mass', v.sum(), env.exact(1))
    env.eq('mirror', w, v.T if which == 'matrix' else v[::-1])
    if skew == 'unit' and steps <= 4:
        env.le('nonneg', np.zeros(nd), v)


def long(env, which, size, steps, skew, seed, order):
    """many steps on frames of the usual size: rates on a line, given skews"""
    t, a, b = ray(env, steps)
    g = np.random.RandomState(seed)
    sh = (size, size) if which == 'matrix' else (2 * size - 1,)
    f = None if skew == 'unit' else env.exact([Fraction(int(k), 4) for k in g.randint(1, 5, int(np.prod(sh)))]).reshape(sh)
    ft = np.ones(sh, dtype=int) if f is None else f
    p = chain(which, size, steps, a[()], b[()], ft)
    foo = mk(which, size, steps, f)
    v = dense(foo([a, b]), ((), (), (), sh))
    spec = np.empty(sh, dtype=object if env.sym else float)
    for s in states(which, size):
        spec[s if which == 'matrix' else s + size - 1] = p[s]
    env.eq('distribution', v, spec)
    if order == 0:
        return
    v, g, h = foo.eval([a, b])
    env.eq('distribution of eval', dense(v, ((), (), (), sh)), spec)
    u, w = Fraction(steps, 4), Fraction(steps, 5)
    g = [dense(x, ((), (), (), sh)) for x in g]
    d = env.deriv(spec, t) if env.sym else None
    env.eq('derivative along the line', u * g[0] + w * g[1], d)
    if order == 2:
        h = [dense(x, ((), (), (), sh)) for x in (h[0][0], h[1][0], h[1][1])]
        env.eq('second derivative along the line', u * u * h[0] + 2 * u * w * h[1] + w * w * h[2],
               env.deriv(np.asarray(d), t) if env.sym else None)


def cases(tier):
    r = []
    T = tier == 'thorough'
    for w in ('matrix', 'vector'):
        for skew in ('unit', 'given'):
            r.append(Case('long-%s-%s' % (w, skew), long, which=w, size=8, steps=18, skew=skew, seed=26,
                          order=2 if T or skew == 'unit' else 0, timeout=20, wall=200))
        for n, k in ((1, 18), (2, 18), (3, 18), (5, 12), (2, 30), (1, 41)):
            r.append(Case('long-%s-%d-%d' % (w, n, k), long, which=w, size=n, steps=k, skew='given', seed=7, order=1 if n <= 3 else 0,
                          timeout=20, wall=200))
        for k in (6,) + ((9,) if T else ()):
            r.append(Case('%s-8-%d-unit' % (w, k), exact, which=w, size=8, steps=k, shape=(), skew='unit', kind='array',
                          parts='vgh', timeout=20))
    for w in ('matrix', 'vector'):
        for n in (1, 2, 3) + ((4, 5) if T else ()):
            for k in (1, 2, 3, 4) + ((6, 8) if T else ()):
                if w == 'matrix' and n >= 4 and k > 6:
                    continue
                r.append(Case('laws-%s-%d-%d' % (w, n, k), laws, which=w, size=n, steps=k, skew='unit',
                              timeout=20 if T else 4))
                if k <= 4 and n <= 4:
                    r.append(Case('laws-%s-%d-%d-skew' % (w, n, k), laws, which=w, size=n, steps=k, skew='sym',
                                  timeout=20))
        for n, k in [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (3, 4)] + \
                ([(3, 5), (4, 3), (4, 4)] if T else []):
            r.append(Case('%s-%d-%d-skew' % (w, n, k), exact, which=w, size=n, steps=k, shape=(), skew='sym',
                          kind='array', parts='vgh', timeout=20))
        for n, k in [(4, 3), (2, 6), (3, 5)] + ([(5, 6), (4, 8), (3, 8)] if T else []):
            r.append(Case('%s-%d-%d-unit' % (w, n, k), exact, which=w, size=n, steps=k, shape=(), skew='unit',
                          kind='array', parts='vgh', timeout=20))
        for s in [(1,), (2,), (3,), (2, 2), (2, 3)]:
            t = 'x'.join(map(str, s))
            for kind in ('array', 'tensor', 'param'):
                r.append(Case('%s-2-2-shape%s-%s' % (w, t, kind), exact, which=w, size=2, steps=2, shape=s,
                              skew='sym' if len(s) == 1 else 'unit', kind=kind, parts='vgh'))
        r.append(Case('%s-3-3-tensor' % w, exact, which=w, size=3, steps=3, shape=(), skew='sym', kind='tensor',
                      parts='vgh'))
    return r

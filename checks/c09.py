"""C09: tennis score probabilities."""
from fractions import Fraction

import numpy as np

from vlib import sym as S
from vlib.engine import Case
from maxlike.func.tennis import Game, TieBreak, Set
from maxlike.maxlike_base import Param
from maxlike.tensor import Tensor
from checks.flib import against, dense, shp

BOUNDS = {'quick': 'every p in (0,1) (Set: p in [1e-10, 1-1e-10], t in (0,1)); feature shapes up to rank 2, axes <= 3 (5 for rank 1)',
          'thorough': 'feature shapes up to rank 3'}


def race(p, q, n, deuce):
    """probabilities of winning a race to n points against k = 0.. lost points,
    computed point by point; at n-1 all (n-2 all for a set) `deuce` takes over"""
    # reach[(i, j)]: probability of the score i-j
    reach = {(0, 0): 1}
    wins = [0] * n
    for tot in range(0, 2 * n - 1):
        for i in range(tot + 1):
            j = tot - i
            if (i, j) not in reach or i >= n or j >= n:
                continue
            if i == j == n - 1:
                continue
            v = reach[(i, j)]
            if i + 1 == n:
                wins[j] = wins[j] + v * p
            else:
                reach[(i + 1, j)] = reach.get((i + 1, j), 0) + v * p
            if j + 1 < n:
                reach[(i, j + 1)] = reach.get((i, j + 1), 0) + v * q
    wins[n - 1] = reach[(n - 1, n - 1)] * deuce
    return wins


def two_ahead(p, q):
    return p * p / (p * p + q * q)


def game(p):
    q = 1 - p
    # deuce is reached at 3-3
    return race(p, q, 4, two_ahead(p, q))


def tiebreak(p):
    q = 1 - p
    return race(p, q, 7, two_ahead(p, q))


def set_(p, t):
    q = 1 - p
    reach = {(0, 0): 1}
    out = {}
    for tot in range(12):
        for i in range(tot + 1):
            j = tot - i
            if (i, j) not in reach:
                continue
            v = reach[(i, j)]
            for (a, b), w in (((i + 1, j), p), ((i, j + 1), q)):
                if max(a, b) >= 6 and abs(a - b) >= 2 or max(a, b) == 7:
                    out[(a, b)] = out.get((a, b), 0) + v * w
                else:
                    reach[(a, b)] = reach.get((a, b), 0) + v * w
    return [out[(6, k)] for k in range(5)] + [out[(7, 5)], reach[(6, 6)] * t]


def vec(env, args, n, f):
    a = [np.asarray(x) for x in args]
    out = np.empty(a[0].shape + (n,), dtype=object if env.sym else float)
    for i in np.ndindex(*a[0].shape):
        r = f(*[x[i] for x in a])
        for k in range(n):
            out[i + (k,)] = r[k]
    return out


def transposed(nn):
    """the recorded finding: with two or more feature axes the first and the last
    one come out exchanged"""
    def f(e, rx, ry):
        e = np.asarray(e)
        p = rx + ry
        groups = []
        if rx:
            groups.append((0, rx))
        if ry:
            groups.append((rx, ry))
        groups.append((p, nn))
        for s, n in groups:
            e = e.swapaxes(s, s + n - 1)
        return e
    return ('tennis-axes', f)


def probs(env, which, shape, kind, parts, known=False):
    if which == 'set':
        lo, hi = Fraction(1e-10), Fraction(1 - 1e-10)
        p = env.arr('p', shape, ('closed', lo, hi))
        t = env.arr('t', shape, 'unit')
        args = [p, t]
        foo = Set()
        spec = vec(env, args, 7, set_)
    else:
        p = env.arr('p', shape, 'unit')
        args = [p]
        foo = {'game': Game, 'tiebreak': TieBreak}[which]()
        spec = vec(env, args, 4 if which == 'game' else 7, game if which == 'game' else tiebreak)
    given = [np.asarray(a) for a in args]
    if kind == 'tensor':
        given = [Tensor(a) for a in given]
    elif kind == 'param':
        given = [Param(env.exact(a)) for a in given]
    against(env, At(foo, given), [np.asarray(a) for a in args], spec, nn=len(shape), nd=1,
            parts=parts, both=False, known=transposed(len(shape)) if known else None)


class At(object):
    def __init__(self, foo, p):
        self.foo, self.p = foo, p
        self.inner = foo

    def __call__(self, params):
        return self.foo(self.p)

    def grad(self, params, i):
        return self.foo.grad(self.p, i)

    def hess(self, params, i, j):
        return self.foo.hess(self.p, i, j)


def laws(env, which):
    if which == 'set':
        lo, hi = Fraction(1, 10 ** 9), 1 - Fraction(1, 10 ** 9)
        p = env.arr('p', (), ('closed', lo, hi))
        t = env.arr('t', (), 'unit')
        v = dense(Set()([p, t]), ((), (), (), (7,)))
        w = dense(Set()([1 - p, 1 - t]), ((), (), (), (7,)))
    else:
        p = env.arr('p', (), 'unit')
        foo, n = {'game': (Game(), 4), 'tiebreak': (TieBreak(), 7)}[which]
        v = dense(foo([p]), ((), (), (), (n,)))
        w = dense(foo([1 - p]), ((), (), (), (n,)))
    env.eq('win(p)+win(1-p)', v.sum() + w.sum(), env.exact(1))
    env.le('nonneg', np.zeros(v.shape), v)
    env.le('at-most-one', v, np.ones(v.shape))
    env.le('win<=1', v.sum(), 1)


def cases(tier):
    r = []
    shapes = [(), (1,), (2,), (3,), (5,)]
    for w in ('game', 'tiebreak', 'set'):
        r.append(Case('laws-%s' % w, laws, which=w, timeout=20))
        for s in shapes:
            for kind in ('array', 'tensor', 'param'):
                r.append(Case('%s-%s-%s' % (w, 'x'.join(map(str, s)) or '0d', kind), probs,
                              which=w, shape=s, kind=kind, parts='vgh'))
        sq = [(2, 2)] + ([(2, 3, 2)] if tier == 'thorough' else [])
        for s in sq:
            r.append(Case('%s-%s' % (w, 'x'.join(map(str, s))), probs, which=w, shape=s,
                          kind='array', parts='vgh', known=True))
        r.append(Case('%s-1x1' % w, probs, which=w, shape=(1, 1), kind='array', parts='vgh'))
    return r

"""C05: Poisson / negative binomial function objects."""
import math
from fractions import Fraction

import numpy as np

from vlib.engine import Case
from maxlike.func import Poisson, LogNegativeBinomial, NegativeBinomial
from maxlike.maxlike_base import Param
from maxlike.tensor import Tensor
from checks.flib import against, dense
from checks.smath import exp, log, gammaln

BOUNDS = {'quick': 'sizes 1..6, 13, 24 and 40, the object also evaluated elsewhere in between, feature shapes up to rank 2 (axes up to 3); every positive mean, every '
                   'positive dispersion r (symbolic) and r in {1, 3, 1/2}',
          'thorough': 'sizes 1..12, feature shapes up to rank 3'}


def vec(env, xs, size, f):
    out = np.empty(xs.shape + (size,), dtype=object if env.sym else float)
    for i in np.ndindex(*out.shape):
        out[i] = f(xs[i[:-1]], i[-1])
    return out


def as_kind(kind, x):
    if kind == 'tensor':
        return Tensor(np.array(x))
    if kind == 'param':
        return Param(np.array(x))
    return x


def poisson(env, shape, size, kind, default=False):
    a = env.arr('a', shape, 'pos')
    p = as_kind(kind, a)
    spec = vec(env, np.asarray(a), size, lambda v, k: v ** k / math.factorial(k))
    new = (lambda: Poisson()) if default else (lambda: Poisson(size))
    against_kind(env, new(), p, np.asarray(a), spec)
    val = dense(new()([p]), ((), (), shape, (size,)))
    for k in range(size - 1):
        env.eq('recurrence%d' % k, val[..., k + 1] * (k + 1), val[..., k] * np.asarray(a))


def integer_means(env, means, size):
    """means given as integers: the values, up to rounding"""
    for a in (np.array(means), np.array(means, dtype='int32'), means[-1]):
        foo = Poisson(size)
        sh = np.shape(a)
        x = np.asarray(a).tolist()
        spec = [Fraction(v) ** k / math.factorial(k) for v in (x if sh else [x]) for k in range(size)]
        d1 = [spec[k - 1] if k % size else 0 for k in range(len(spec))]
        d2 = [d1[k - 1] if k % size else 0 for k in range(len(spec))]
        v, g, h = foo.eval([a])
        got = (foo([a]), foo.grad([a], 0), foo.hess([a], 0, 0), v, g[0], h[0][0])
        for name, t, want in zip(('value', 'gradient', 'hessian', 'value of eval', 'gradient of eval', 'hessian of eval'),
                                 got, 2 * (spec, d1, d2)):
            t = np.asarray(t.toarray(), dtype=object)
            want = np.array(want, dtype=object).reshape(sh + (size,))
            if t.shape != want.shape:
                if name[:2] == 'gr':
                    t = t[(np.arange(sh[0]),) * 2] if sh else t
                elif name[:2] == 'he':
                    t = t[(np.arange(sh[0]),) * 3] if sh else t
            env.true('%s: shape' % name, t.shape == want.shape)
            if t.shape == want.shape:
                e = np.array([Fraction(1, 10 ** 9) * w for w in want.ravel()], dtype=object).reshape(want.shape)
                t = env.exact(t)
                env.le('%s of integer means (from below)' % name, env.exact(want - e), t)
                env.le('%s of integer means (from above)' % name, t, env.exact(want + e))


def against_kind(env, foo, p, a, spec, parts='vgh'):
    """p: the parameter object handed to foo, a: its values"""
    against(env, _At(foo, p), [a], spec, nn=a.ndim, nd=1, parts=parts)


class _At(object):
    def __init__(self, foo, p):
        self.foo, self.p = foo, p
        self.inner = foo

    def __call__(self, params):
        return self.foo([self.p])

    def grad(self, params, i):
        return self.foo.grad([self.p], i)

    def hess(self, params, i, j):
        return self.foo.hess([self.p], i, j)


def nb_log(m, r, x):
    return gammaln(r + x) - gammaln(r) - gammaln(x + 1) + x * log(m) + r * log(r) - (x + r) * log(r + m)


def lognb(env, shape, size, r, kind, default=False):
    m = env.arr('m', shape, 'pos')
    r = env.arr('r', (), 'pos') if r is None else r
    spec = vec(env, np.asarray(m), size, lambda v, k: nb_log(v, _s(env, r), k))
    against_kind(env, LogNegativeBinomial() if default else LogNegativeBinomial(size, r), as_kind(kind, m), np.asarray(m), spec)


def _s(env, r):
    from vlib import sym as S
    return S.to_sym(r) if env.sym else r


def nb(env, shape, size, r, default=False):
    m = env.arr('m', shape, 'pos')
    r = env.arr('r', (), 'pos') if r is None else r
    spec = vec(env, np.asarray(m), size, lambda v, k: exp(nb_log(v, _s(env, r), k)))
    foo = NegativeBinomial() if default else NegativeBinomial(size, r)
    against(env, foo, [m], spec, nn=np.ndim(np.asarray(m)), nd=1)
    val = dense(foo([m]), ((), (), shape, (size,)))
    ms = np.asarray(m)
    for k in range(size - 1):
        env.eq('recurrence%d' % k, val[..., k + 1] * (k + 1) * (ms + r), val[..., k] * (r + k) * ms)


def cases(tier):
    r = []
    shapes = [(), (1,), (2,), (2, 3)]
    sizes = [1, 2, 6]
    r += [Case('poisson-default', poisson, shape=(2,), size=10, kind='array', default=True),
          Case('lognb-default', lognb, shape=(2,), size=10, r=1, kind='array', default=True),
          Case('nb-default', nb, shape=(), size=10, r=1, default=True)]
    r += [Case('poisson-0d-%d' % n, poisson, shape=(), size=n, kind='array') for n in (13, 24, 40)]
    r += [Case('poisson-1-%d' % n, poisson, shape=(1,), size=n, kind='array') for n in (13, 24, 40)]
    r += [Case('lognb-0d-%d-r%s' % (n, q), lognb, shape=(), size=n, r=q, kind='array') for n in (13, 24, 40) for q in (None, 2)]
    r += [Case('nb-0d-%d' % n, nb, shape=(), size=n, r=None) for n in (13, 24, 40)]
    r += [Case('poisson-integers-%d' % n, integer_means, means=[0, 1, 3, 10, 25], size=n) for n in (3, 26)]
    if tier == 'thorough':
        shapes += [(3,), (2, 2, 2)]
        sizes += [3, 12]
    for s in shapes:
        t = 'x'.join(map(str, s)) or '0d'
        for n in sizes:
            for kind in ('array', 'tensor', 'param'):
                if kind != 'array' and n != 6:
                    continue
                r.append(Case('poisson-%s-%d-%s' % (t, n, kind), poisson, shape=s, size=n, kind=kind))
            for q in ([None, 1, 3, .5] if s in ((), (2,)) else [None]):
                qn = 'sym' if q is None else str(q)
                r.append(Case('lognb-%s-%d-r%s' % (t, n, qn), lognb, shape=s, size=n, r=q, kind='array'))
                if len(s) < 3:
                    r.append(Case('nb-%s-%d-r%s' % (t, n, qn), nb, shape=s, size=n, r=q))
    return r

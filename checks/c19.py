"""C19: Poisson and Skellam primitives."""
import math

import numpy as np

from maxlike import skellam as K
from vlib import sym as S
from vlib.engine import Case, uf_family
from checks.flib import d1
from checks.smath import exp, sqrt

BOUNDS = {'quick': 'every positive rate; vectors of 1-7, 12, 19 and 26 entries, distribution functions over up to 23, after calls of other sizes, frames of 1-5 x 1-5 entries, thresholds -6..6 '
                   '(below, inside and beyond the truncated support), truncation sizes 1-5 (injected) and the size '
                   'really chosen for every tolerance in (0, 1/2) and rates whose chosen size is up to 5; integer rates 1-3',
          'thorough': 'vectors to 40, frames to 8, thresholds -9..9, chosen sizes up to 8'}
ASSUMPTIONS = ['"X" is the variable of the first rate and "Y" that of the second: the functions are about Y - X']


def pmf(a, k):
    return exp(-a) * a ** k / math.factorial(k)


def rate(env, name, v):
    """the argument and the exact value of a rate (other calls come before)"""
    K.poisson_vector(1.5, 3)
    K.poisson_vector(2, 5)
    K.skellam_frame(.5, .25, 3)
    K.poisson_mid_cdf(.5, 2)
    with Size(4):
        K.skellam_cdf_pair(.5, .25, 1)
        K.skellam_cdf(.5, .25, 1, inverse=True)
    if v is None:
        x = env.var(name, 'pos')
        return x, x
    p = env.exact(v)[()] if not env.sym else S.to_sym(v)
    if env.sym:
        env.assume(exp(-p) <= 1)
    return v, p


def obj(env, x):
    a = np.empty(np.shape(x), dtype=object if env.sym else float)
    a[...] = x
    return a


def close(env, label, got, want, given):
    """equal; up to rounding for a given rate (the code computes in floating point there)"""
    if not given:
        env.eq(label, got, want)
        return
    got, want = np.asarray(got), np.asarray(want)
    env.true(label + ': shape', got.shape == want.shape)
    if got.shape != want.shape:
        return
    for i in np.ndindex(*want.shape):
        d = 10 ** 6 * (got[i] - want[i])
        env.le(label, d, env.exact(.001))
        env.le(label, -d, env.exact(.001))


def dpmf(p, k):
    """exact derivative of pmf"""
    return (pmf(p, k - 1) if k else 0) - pmf(p, k)


def vector(env, size=None, a=None, default=False):
    x, p = rate(env, 'a', a)
    got = K.poisson_vector(x) if default else K.poisson_vector(x, size)
    n = 10 if default else size
    want = obj(env, [[pmf(p, k) for k in range(n)], [dpmf(p, k) for k in range(n)]])
    close(env, 'vector', got, want, a is not None)
    if a is None:
        env.eq('derivative row', np.asarray(got)[1], d1(env, want[0], np.asarray(p)))


def cdf(env, n, a=None, mid=False):
    x, p = rate(env, 'a', a)
    got = (K.poisson_mid_cdf if mid else K.poisson_cdf)(x, n)
    w = [1.] * (n + 1)
    if mid:
        w[n] = .5
    val = sum((w[k] * pmf(p, k) for k in range(n + 1)), 0)
    der = sum((w[k] * dpmf(p, k) for k in range(n + 1)), 0)
    close(env, 'cdf', got, obj(env, [val, der]), a is not None)
    if a is None:
        env.eq('derivative', np.asarray(got)[1], d1(env, obj(env, val), np.asarray(p)))


def frame(env, size, a=None, b=None, default=False):
    x, p = rate(env, 'a', a)
    y, q = rate(env, 'b', b)
    got = K.skellam_frame(x, y) if default else K.skellam_frame(x, y, size)
    env.true('three frames', len(got) == 3)
    val = obj(env, [[pmf(p, i) * pmf(q, j) for j in range(size)] for i in range(size)])
    close(env, 'frame', got[0], val, a is not None)
    if a is None:
        env.eq('frame da', got[1], d1(env, val, np.asarray(p)))
    if b is None:
        env.eq('frame db', got[2], d1(env, val, np.asarray(q)))


class Size(object):
    """fixes the truncation of the infinite support"""

    def __init__(self, k):
        self.k = k

    def __enter__(self):
        self.old = {n: getattr(K, n) for n in ('tol2size', 'pdtr', 'pdtrc') if hasattr(K, n)}
        if self.k is not None:
            K.tol2size = lambda *a, **kw: self.k
            # nothing lies beyond that support
            for n, v in (('pdtr', 1.), ('pdtrc', 0.)):
                if n in self.old:
                    setattr(K, n, lambda k, m, v=v: v)

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(K, n, f)


def region(p, q, size, inside):
    """[value, d/da, d/db] of the probability of the region, over the truncated support"""
    r = [0, 0, 0]
    for i in range(size):
        for j in range(size):
            if inside(j - i):
                r[0] = r[0] + pmf(p, i) * pmf(q, j)
                r[1] = r[1] + dpmf(p, i) * pmf(q, j)
                r[2] = r[2] + pmf(p, i) * dpmf(q, j)
    return r


def skellam(env, kind, n, size, a=None, b=None):
    x, p = rate(env, 'a', a)
    y, q = rate(env, 'b', b)
    with Size(size):
        if kind == 'pair':
            got = K.skellam_cdf_pair(x, y, n)
        elif kind == 'pair-default':
            got = K.skellam_cdf_pair(x, y)
        elif kind == 'default':
            got = K.skellam_cdf(x, y)
        else:
            got = K.skellam_cdf(x, y, n, inverse=kind == 'inverse')
    if kind in ('pair', 'pair-default'):
        want = [region(p, q, size, lambda d: d < n), region(p, q, size, lambda d: d > n)]
    elif kind == 'inverse':
        want = region(p, q, size, lambda d: d >= n)
    else:
        want = region(p, q, size, lambda d: d <= n)
    want = obj(env, want)
    close(env, 'value', np.asarray(got)[..., 0], want[..., 0], a is not None)
    close(env, 'all rows', got, want, a is not None)
    if a is None:
        env.eq('d/da', np.asarray(got)[..., 1], d1(env, want[..., 0], np.asarray(p)))
    if b is None:
        env.eq('d/db', np.asarray(got)[..., 2], d1(env, want[..., 0], np.asarray(q)))


def reach(tol, rates):
    """mean plus the normal quantile of the tolerance times the deviations"""
    if isinstance(tol, S.Sym):
        z = S.ndtri(tol)
    else:
        from vlib import patch as P
        z = P._r['sp.ndtri'](tol)
    return -z * sum(sqrt(r) for r in rates) + sum(rates)


def missed(size, rates):
    """mass of the independent Poisson variables beyond a support of this size (at most)"""
    return sum(1 - sum((pmf(r, k) for k in range(size)), 0) for r in rates)


def quantile(env, top):
    """the normal approximation of the size"""
    x, y = env.var('a', 'pos'), env.var('b', 'pos')
    tol = env.var('tol', ('open', 0, .5))
    if env.sym:
        env.assume(S.ndtri(tol) < 0)
        env.assume(reach(tol, (x, y)) < top)
        S.HOOK['concretize'] = ints(top)
    n = K.tol2size(tol, x, y)
    env.le('size reaches the quantile', reach(tol, (x, y)), n)
    env.le('size is not larger than needed', obj(env, n) - 1, reach(tol, (x, y)))
    n = K.tol2size(tol, x)
    env.le('size reaches the quantile (one rate)', reach(tol, (x,)), n)
    env.le('size is not larger than needed (one rate)', obj(env, n) - 1, reach(tol, (x,)))


def chosen(env, kind, top):
    """the truncation size the function really chooses: the result is the exact
    sum over a support that misses at most the tolerance"""
    x, y = env.var('a', 'pos'), env.var('b', 'pos')
    tol = env.var('tol', ('open', 0, .5))
    if env.sym:
        env.assume(S.ndtri(tol) < 0)
        # the bound: a support of this size is enough in both ways of choosing it
        env.assume(reach(tol, (x, y)) < top)
        env.assume(missed(top, (x, y)) <= tol)
        S.HOOK['concretize'] = ints(top)
    if kind == 'pair':
        f = lambda: K.skellam_cdf_pair(x, y, 0, tol)[1]
        want = lambda k: region(x, y, k, lambda d: d > 0)
    elif kind == 'inverse':
        f = lambda: K.skellam_cdf(x, y, 0, tol, True)
        want = lambda k: region(x, y, k, lambda d: d >= 0)
    else:
        f = lambda: K.skellam_cdf(x, y, 0, tol=tol)
        want = lambda k: region(x, y, k, lambda d: d <= 0)
    got = f()
    # which truncation is it?  (the solver then decides that it is this one)
    hit = None
    for k in range(1, top + 3):
        w = want(k)
        if agree(env, got, w):
            hit = k
            break
    env.true('a truncated sum', hit is not None)
    if hit is None:
        return
    env.eq('value', got, obj(env, want(hit)))
    env.le('the support misses at most the tolerance', missed(hit, (x, y)), tol)


def by_default(env, kind, rates):
    """the default tolerance: at most 1e-8 of the mass is missed (given rates, in floating point)"""
    from vlib import patch as P
    mode, P.MODE['sym'] = P.MODE['sym'], False        # nothing here is symbolic
    try:
        f = {'cdf': lambda *t: K.skellam_cdf(*rates, 1, *t), 'inverse': lambda *t: K.skellam_cdf(*rates, 0, *t, inverse=True),
             'pair': lambda *t: K.skellam_cdf_pair(*rates, 0, *t)}[kind]
        got, want = np.asarray(f())[..., 0].ravel(), np.asarray(f(1e-14))[..., 0].ravel()
    finally:
        P.MODE['sym'] = mode
    for g, w in zip(got, want):
        d = 10 ** 8 * (env.exact(float(w)) - env.exact(float(g)))
        env.le('misses at most 1e-8', d, env.exact(1.001))
        env.le('misses nothing twice', -d, env.exact(.001))


def agree(env, got, want):
    if not env.sym:
        return np.allclose(np.asarray(got, dtype=float), np.asarray(want, dtype=float), rtol=1e-9, atol=1e-14)
    pt = {'a': .7123, 'b': 1.3377, 'tol': .2}
    ev = lambda v: np.array(S.evaluate([S.to_sym(x) for x in v], pt, uf_family))
    return len(got) == len(want) and np.abs(ev(got) - ev(want)).max() < 1e-12


def ints(top):
    def f(v):
        for k in range(0, top + 1):
            if v < k + 1:
                return k
        raise S.Unsupported('int')
    return f


def default_size(env):
    """without rates: one rate of 1"""
    tol = env.var('tol', ('open', 0, .5))
    if env.sym:
        env.assume(S.ndtri(tol) < 0)
        env.assume(reach(tol, (S.ONE,)) < 6)
        S.HOOK['concretize'] = ints(6)
    env.true('one unit rate by default', K.tol2size(tol) == K.tol2size(tol, 1))


def cases(tier):
    T = tier == 'thorough'
    r = []
    for s in list(range(1, 8)) + [12, 19, 26] + ([9, 40] if T else []):
        r.append(Case('vector-%d' % s, vector, size=s))
    r.append(Case('vector-default', vector, default=True))
    for a in (1, 2, 3, .5, np.int64(2), np.float64(1.5)):
        r.append(Case('vector-rate-%s-%s' % (a, type(a).__name__), vector, size=5, a=a))
        r.append(Case('mid-rate-%s-%s' % (a, type(a).__name__), cdf, n=3, a=a, mid=True))
        r.append(Case('cdf-rate-%s-%s' % (a, type(a).__name__), cdf, n=3, a=a))
        r.append(Case('skellam-rate-%s-%s' % (a, type(a).__name__), skellam, kind='cdf', n=1, size=3, a=a))
    for n in list(range(0, 10 if T else 6)) + [11, 23]:
        r.append(Case('cdf-%d' % n, cdf, n=n))
        r.append(Case('mid-cdf-%d' % n, cdf, n=n, mid=True))
    for s in range(1, 9 if T else 6):
        r.append(Case('frame-%d' % s, frame, size=s))
    r.append(Case('frame-default', frame, size=10, default=True))
    r.append(Case('pair-default-n', skellam, kind='pair-default', n=0, size=3))
    r.append(Case('frame-int', frame, size=3, a=2, b=3))
    for size in (1, 2, 3, 4, 5) + ((6, 8) if T else ()):
        lo, hi = (-size - 1, size + 1)
        for n in range(lo, hi + 1):
            for kind in ('cdf', 'inverse', 'pair'):
                r.append(Case('%s-size%d-n%d' % (kind, size, n), skellam, kind=kind, n=n, size=size))
    r.append(Case('cdf-default-n', skellam, kind='default', n=0, size=3))
    r.append(Case('quantile', quantile, top=10 if T else 6))
    for kind in ('cdf', 'inverse', 'pair'):
        r.append(Case('chosen-%s' % kind, chosen, kind=kind, top=8 if T else 5))
    r.append(Case('default-size', default_size))
    for kind in ('cdf', 'inverse', 'pair'):
        for rates in ((.5, .7), (3., .01), (11., 8.), (40., 60.)):
            r.append(Case('default-tol-%s-%g-%g' % ((kind,) + rates), by_default, kind=kind, rates=rates))
    return r
